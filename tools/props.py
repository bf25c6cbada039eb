"""The properties: what is claimed, over what, anchored where, decided how."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, **kw))


I, H, C, F, S = "inputs", "histories", "configurations", "fault_sequences", "schedules"
SRC = "src/"

P("C01", "SDS files give back exactly what was saved",
  "Whatever arrays, names, flags and metadata are written to an SDS file, reading the file back yields the same arrays (dtype, shape, memory order, every byte), the same names and flags in the same order, and the same metadata. "
  "This holds for every dtype the format takes, every number of dimensions, empty arrays, every compression level and band size and with checksums on or off, and what the info mode reports about a file agrees with its contents.",
  [I, C], "all lists of arrays (dtype, shape, order, content, compressibility), name lists, metadata bytes, compression type and level, band size, checksum setting",
  "the shipped tests write and read a handful of fixed files", [SRC + "SDSFile.cpp", SRC + "SDSFilePython.cpp", SRC + "ZstdCompress.cpp"],
  [("per-array compressed blocks with recorded sizes and dtypes", "src/SDSFile.cpp"), ("name and metadata blocks", "src/SDSFile.cpp"), ("banding of large arrays", "src/SDSFile.cpp")],
  "property-based round trip with generated files (PBT, process-isolated, shrinking)",
  "Random search over generated files up to a few hundred thousand elements; the oracle is byte equality with what was written.")
P("C02", "Stacking SDS files equals concatenating their columns",
  "Loading several SDS files in stacking mode returns, per column name, the rows of all files in file order, with file offsets that say where each file's rows are. "
  "Columns that differ in dtype are brought to a common type that holds every value (invalids stay invalid), and rows of a file that lacks the column are filled with that type's invalid value.",
  [I, C], "all lists of files with overlapping column sets, differing dtypes, string widths, dimensions and lengths (including empty)",
  "the shipped tests stack at most a couple of like-typed files", [SRC + "SDSFile.cpp", SRC + "SDSFilePython.cpp", SRC + "Convert.cpp"],
  [("upcast and gap filling while stacking", "src/SDSFile.cpp"), ("row offsets (cutoffs)", "src/SDSFile.cpp")],
  "property-based differential testing against a numpy concatenation model",
  "Random search; the oracle is a model of column union, upcast and gap fill over the generated source arrays.")
P("C03", "Appending sections to an SDS file keeps every section intact",
  "After any sequence of writes that append named sections to an SDS file, reading the file returns every section with exactly the arrays, names and metadata it was written with, and stacking it stacks the sections in the order they were appended. "
  "Appending never alters what was in the file before.",
  [H, I], "all sequences of section writes (names, array lists, compression) to one file, read back or stacked",
  "no shipped test appends more than a fixed pair of sections", [SRC + "SDSFile.cpp", SRC + "SDSFilePython.cpp"],
  [("section header blocks", "src/SDSFile.cpp"), ("append path of the writer", "src/SDSFile.cpp")],
  "model-based property testing over append histories", "Random histories of up to a dozen sections; oracle: a list of the written sections.")
P("C04", "Loading part of an SDS file equals loading all and then selecting",
  "Loading with a boolean row mask equals loading everything and applying the mask; loading with an include list or folder list returns exactly the named members with their full contents. "
  "This holds for single and multi-file loads, stacked or not, compressed or not, banded or not, wherever the kept rows fall.",
  [I, C], "all files, masks (all false, all true, sparse, runs across band edges), include lists, folder lists",
  "no shipped test loads with a mask", [SRC + "SDSFile.cpp", SRC + "SDSFilePython.cpp"],
  [("masked reading and band skipping", "src/SDSFile.cpp"), ("include and folder filters", "src/SDSFilePython.cpp")],
  "metamorphic property testing: partial load = full load, then select", "Random search; the oracle is the same file's known contents, filtered by numpy.")
P("C05", "An SDS file made by concatenating files equals the stack of those files",
  "Writing several SDS files into one output file by the concatenation call and then reading that one file gives the same columns and rows as stacking the originals, and each original is recoverable from it.",
  [I], "all lists of SDS files the concatenation call accepts", "the shipped tests have no concatenation over varied files",
  [SRC + "SDSFile.cpp", SRC + "SDSFilePython.cpp"], [("concatenating writer", "src/SDSFile.cpp")],
  "property-based differential testing (concat then read vs. the original contents)", "Random search over generated file lists.")
P("C06", "A damaged SDS file is refused or reported, never crashes or corrupts",
  "Opening a truncated, bit-flipped, garbage or empty file as SDS either raises an error, returns fewer arrays, or returns arrays of the recorded shape; it never crashes, hangs, or disturbs later use of the library. "
  "With checksums on, an array whose compressed bytes were altered is never returned as if intact.",
  [I, F], "all damage to generated SDS files: truncation at every point, byte flips, header field edits", "no shipped test reads a damaged file",
  [SRC + "SDSFile.cpp", SRC + "ZstdCompress.cpp"], [("header checks", "src/SDSFile.cpp"), ("zstd checksum", "src/ZstdCompress.cpp")],
  "mutation fuzzing of generated files, in isolated processes", "Random mutations of generated files; a worker's death is a violation.")
P("C07", "SDS through shared memory gives the same result as through the file",
  "Loading a file with a share name returns the same arrays as loading it plainly, on the first load (which fills the share) and on every later load.",
  [I, H], "all files and load sequences under generated share names", "no shipped test uses shared memory",
  [SRC + "SharedMemory.cpp", SRC + "SDSFile.cpp"], [("shared-memory file layout", "src/SharedMemory.cpp")],
  "differential property testing over load histories", "Random search; oracle is the known contents.")
P("C08", "In-memory compression round-trips",
  "Compressing any bytes and decompressing them gives the same bytes at every compression level, and the array compress/decompress calls give back arrays equal to their inputs in dtype, shape and content.",
  [I, C], "all byte strings and arrays, all levels", "the shipped tests compress a few fixed buffers", [SRC + "Compress.cpp", SRC + "ZstdCompress.cpp"],
  [("zstd bound/size handling", "src/Compress.cpp")], "property-based round trip", "Random search over lengths, entropies and levels.")
P("C10", "Hash grouping labels rows alike exactly when their keys are equal",
  "Grouping by one or several key columns gives every row a positive bin such that two rows share a bin exactly when all their keys are equal, bins are numbered by first appearance, and the reported first-row index of each bin is the first row of that bin. "
  "Keys may be of any supported dtype and mix, including strings, floats (compared by their bits), and structured rows.",
  [I, C], "all key columns (dtype mixes, cardinalities, lengths, collisions), hash modes and hints",
  "the shipped tests group a few fixed or randomly filled integer arrays", [SRC + "HashLinear.cpp", SRC + "HashFunctions.cpp", SRC + "MultiKey.cpp"],
  [("hash tables with linear probing", "src/HashLinear.cpp"), ("multi-column key packing", "src/MultiKey.cpp")],
  "property-based testing against a dictionary model", "Random search; oracle is grouping by a Python/numpy dictionary of key tuples.")
P("C11", "Grouping does not depend on hash mode, hint, chunking or irrelevant rows",
  "For the same keys, the partition of rows into groups is the same whatever the hash mode, table-size hint, column order, row partition cut-offs or thread count; filtered-out rows get bin zero and do not influence the grouping of the rest. "
  "Grouping with cut-offs groups each row range on its own.",
  [I, C], "all keys, hash modes, hints, filters, cut-offs", "the shipped tests use the default configuration", [SRC + "HashLinear.cpp", SRC + "MultiKey.cpp"],
  [("hash-mode dispatch", "src/HashLinear.cpp"), ("filter and cutoffs handling", "src/HashLinear.cpp")],
  "metamorphic property testing across configurations", "Random search comparing each configuration with the dictionary model.")
P("C12", "Unique lists each distinct key once, with counts",
  "The unique call returns one first-appearance index per distinct key row and, when asked, how often each occurs; the counts sum to the number of rows.",
  [I], "all key columns and mixes", "the shipped tests have no model-checked unique", [SRC + "HashLinear.cpp", SRC + "MultiKey.cpp"],
  [("unique over the hash table", "src/HashLinear.cpp")], "property-based testing against a dictionary model", "Random search.")
P("C13", "Group bookkeeping arrays are mutually consistent",
  "Bin counts, group order (rows listed bin by bin in original order), first-row and next-row chains derived from a label array all describe the same partition of the rows as the labels do. "
  "Each row appears exactly once, and every count equals the number of rows with that label.",
  [I, C], "all label arrays (any integer width, zero bin, empty bins, lengths crossing the parallel threshold)",
  "the shipped tests call these on a few arrays", [SRC + "GroupBy.cpp", SRC + "HashLinear.cpp", SRC + "Bins.cpp"],
  [("parallel bin counting and group packing", "src/Bins.cpp")], "property-based testing against numpy models", "Random search.")
P("C14", "Combining label arrays with filters and each other relabels consistently",
  "Combining a label array with a boolean filter sends filtered-out rows to bin zero and keeps the partition of the rest; combining two label arrays gives labels equal exactly when both inputs are equal. "
  "The returned uniques, counts and first rows match the new labels.",
  [I], "all label arrays, cardinalities and filters", "the shipped tests check a few fixed arrays", [SRC + "Bins.cpp", SRC + "HashLinear.cpp"],
  [("relabelling tables", "src/Bins.cpp")], "property-based testing against numpy models", "Random search.")
P("C15", "Group aggregates equal the per-group aggregate of the valid rows",
  "Each aggregate over groups (sum, mean, min, max, variance, standard deviation and their NaN-ignoring forms, counts) equals, for every bin, that aggregate of exactly the rows with that label, with the documented treatment of invalid values and the documented result type. "
  "Bins with no rows get the documented empty value, and rows in bin zero are included only when bin zero is asked for.",
  [I, C], "all value dtypes and contents, label arrays and widths, bin ranges, thread configurations",
  "the shipped tests run a few functions on small fixed data", [SRC + "GroupBy.cpp"], [("per-bin accumulators and parallel merge", "src/GroupBy.cpp")],
  "property-based testing against a per-group numpy model", "Random search; floating sums within an error bound derived from the data.")
P("C16", "Order-dependent group functions act on each group's rows in order",
  "First, last, nth, median, mode, trimmed-mean, quantile and the rolling/shift/diff/count functions over packed groups give, for every group or row, what applying the function to that group's rows in original order gives. "
  "Rows of other groups never influence the result.",
  [I, C], "all value dtypes, groupings, windows and parameters", "the shipped tests cover a fraction of these on fixed data", [SRC + "GroupBy.cpp"],
  [("packed-group functions over group order, first and count arrays", "src/GroupBy.cpp")],
  "property-based testing against a per-group reference", "Random search.")
P("C17", "Cumulative and exponentially weighted functions follow their recurrence",
  "Cumulative sums, products, min/max, forward fills and the exponentially weighted functions over groups equal their documented recurrence applied to each group's rows in order, honouring filters and resets. "
  "Rows outside a group's history never influence it.",
  [I, C], "all values, groupings, times, decay rates, filters, resets", "the shipped tests check a few fixed series", [SRC + "Ema.cpp"],
  [("per-group running state", "src/Ema.cpp")], "property-based testing against a reference recurrence", "Random search.")
P("C18", "Rolling windows equal recomputing each window from scratch",
  "Every rolling function (sum, mean, min, max, variance, standard deviation, their NaN-ignoring forms, and time-window sums) gives at each row the function of exactly the last w rows (or the rows within the time span). "
  "Values that have left the window never influence the result.",
  [I], "all dtypes, contents, window sizes", "the shipped tests have few fixed windows", [SRC + "Reduce.cpp", SRC + "TimeWindow.cpp", SRC + "BasicMath.cpp"],
  [("incremental add/remove of window elements", "src/TimeWindow.cpp")], "property-based testing against recomputation", "Random search.")
P("C19", "Membership test tells which values occur, and where first",
  "For one key column, the membership call marks an element true exactly when it occurs in the second array and returns the index of its first occurrence there (invalid when absent), whatever the dtypes, lengths, layouts and the integer width of the index.",
  [I, C], "all pairs of arrays of each supported dtype", "the shipped tests use a few random integer arrays", [SRC + "HashLinear.cpp", SRC + "is_member_tg.cpp"],
  [("hash of the second array, parallel lookup", "src/HashLinear.cpp")], "property-based testing against a dictionary model", "Random search.")
P("C20", "Multi-key and categorical membership agree with the dictionary model",
  "Membership over several key columns marks rows present exactly when the whole key row occurs, with the first matching index; the categorical and reindexing forms map labels to the other side's labels exactly when the categories are equal.",
  [I, C], "all multi-column keys and category arrays", "the shipped tests have almost none", [SRC + "HashLinear.cpp", SRC + "MultiKey.cpp"],
  [("multi-key lookup", "src/HashLinear.cpp")], "property-based testing against a dictionary model", "Random search.")
P("C21", "As-of alignment picks the nearest permitted row with equal keys",
  "Aligning two sorted tables returns, for each left row, the index of the last right row (or the next, for forward) with the same key and a time not after it (or strictly before, when exact matches are not allowed), and invalid when there is none.",
  [I, C], "all keys, sorted times, directions and exact-match settings", "the shipped tests align one fixed example", [SRC + "HashLinear.cpp", SRC + "Merge.cpp", SRC + "MultiKey.cpp"],
  [("ordered merge through the hash table", "src/HashLinear.cpp")], "property-based testing against a quadratic reference", "Random search.")
P("C22", "Sorting yields the ordered permutation; index sorts are stable",
  "Sorting returns exactly the input's values in non-decreasing order (NaN last) under every algorithm choice, and index sorting over one or more keys returns the stable lexicographic permutation, per partition and direction when these are given. "
  "The sortedness test is true exactly for ordered arrays, and grouping a sorted index labels rows alike exactly when their keys are equal.",
  [I, C], "all dtypes, contents (presorted shapes, ties, NaN, inf, sentinels), lengths, key counts, partitions, directions",
  "the shipped tests sort a few random arrays of two dtypes", [SRC + "Sort.cpp"],
  [("quick, merge and heap sort kernels", "src/Sort.cpp"), ("parallel merge sort of indexes", "src/Sort.cpp")],
  "property-based testing against numpy's stable sort", "Random search; order, permutation and stability are checked against numpy.")
P("C24", "Gather, scatter and mask operations address exactly the named elements",
  "Fancy and boolean indexing return exactly the addressed elements (the default or invalid value for out-of-range positions, where documented), mask assignment and item assignment change exactly the addressed elements, and mask-to-index and mask-sum agree with the mask. "
  "Negative indexes count from the end, and no other element is read or written.",
  [I, C], "all value and index dtypes, layouts, masks, lengths crossing the parallel threshold", "the shipped tests gather from a few arrays",
  [SRC + "MultiKey.cpp", SRC + "HashLinear.cpp", SRC + "Array.cpp", SRC + "Compare.cpp", SRC + "RipTide.cpp"],
  [("gather kernels by item size", "src/BasicMath.cpp"), ("boolean counting in parallel chunks", "src/HashLinear.cpp")],
  "property-based differential testing against numpy indexing", "Random search.")
P("C25", "Type conversion keeps values and carries invalids to invalids",
  "Safe conversion maps every invalid value to the target's invalid value and every other value as a C cast does; unsafe conversion only casts. Strings convert without loss where they fit, and layouts never matter.",
  [I, C], "all source and target dtypes, all values, layouts", "the shipped tests convert a few values", [SRC + "Convert.cpp"],
  [("convert kernels by type pair", "src/Convert.cpp")], "property-based differential testing against numpy casts with sentinel rules", "Random search; values whose C cast is undefined are excluded.")
P("C26", "Stacking, homogenising and shifting arrays preserve every element",
  "Horizontal stacking returns the inputs' elements in order in a dtype holding them all (invalids stay invalid); homogenising brings a list to one dtype without changing values; shifting moves elements by the offset and fills with invalids.",
  [I], "all lists of arrays, dtype mixes, empties, offsets", "no shipped test", [SRC + "Convert.cpp"], [("upcast table and block copy", "src/Convert.cpp")],
  "property-based differential testing against numpy", "Random search.")
P("C27", "Element-wise arithmetic equals numpy's wherever the library answers",
  "For any two operands (arrays or scalars, any dtypes and layouts), an arithmetic call either declines (so that numpy is used) or returns an array with the values and length of the operation on the library's promoted type, invalid integers yielding the documented result. "
  "Results do not depend on alignment, strides, length remainder, operand aliasing or scalar position.",
  [I, C], "all operations, dtype pairs, shapes, layouts, aliasing, scalar operands", "the shipped tests check a few operations on a few dtypes", [SRC + "BasicMath.cpp"],
  [("vector kernels with scalar tails", "src/BasicMath.cpp")], "property-based differential testing against numpy", "Random search; overflow and undefined casts excluded or wrapped per type.")
P("C28", "Comparisons and bitwise operations are exact for every pair of values",
  "Each comparison returns true exactly where the mathematical comparison of the two values holds (false for NaN except not-equal), across mixed integer and float dtypes, signedness and layouts; bitwise and logical operations equal numpy's.",
  [I, C], "all dtype pairs, edge values, layouts, scalars", "the shipped tests compare a few arrays", [SRC + "Compare.cpp", SRC + "BasicMath.cpp"],
  [("vector comparison kernels", "src/Compare.cpp")], "property-based differential testing against exact comparison", "Random search.")
P("C29", "Unary element-wise functions equal their scalar definition at every position",
  "Each unary function (abs, sign, rounding, roots, logs, negation, the is-NaN/finite/infinite/normal family and their negations) returns, at every position, its definition applied to that element, and treats the invalid integer as documented. "
  "Results do not depend on layout, alignment or position in the array.",
  [I, C], "all functions, dtypes, values, layouts", "the shipped tests cover some functions on some dtypes", [SRC + "UnaryOps.cpp", SRC + "one_input.cpp"],
  [("vector kernels with scalar tails", "src/UnaryOps.cpp")], "property-based differential testing against numpy", "Random search.")
P("C30", "Reductions equal the reduction of the array's valid elements",
  "Each reduction (sum, mean, min, max, variance, standard deviation, their NaN-ignoring forms, arg-min/max) over an array equals the same reduction over its elements, with invalids ignored or propagated as documented, at every length and layout.",
  [I, C], "all functions, dtypes, contents, lengths", "the shipped tests reduce a few arrays", [SRC + "Reduce.cpp"], [("chunked parallel reduction with merge", "src/Reduce.cpp")],
  "property-based differential testing against numpy", "Random search; floating sums within an error bound.")
P("C31", "Binning puts each value in the one bin whose edges enclose it",
  "Cutting values by sorted bin edges gives each value the number of the bin whose edges enclose it under the chosen side convention, and zero when it is invalid or outside; the sorted variant gives the same result as the search variant.",
  [I, C], "all value and edge dtypes, edge lists, side conventions", "the shipped tests use a few edge lists", [SRC + "Bins.cpp"],
  [("binary search with boundary rules", "src/Bins.cpp")], "property-based testing against a linear-search reference", "Random search.")
P("C32", "Date and time strings parse to the exact instant, or to invalid",
  "Parsing well-formed date, time, date-time and format-driven strings yields the exact nanosecond count for that instant for all dates in range and all fraction lengths. A date that does not exist or is out of range, a time out of range, and a string its format does not match yield the invalid value 0 (a date-time with a valid date but a time out of range yields that date at midnight). "
  "Byte and Unicode inputs agree, and each row is parsed on its own.",
  [I], "all valid instants in the documented formats, padding, fractions, and malformed variants", "the shipped tests parse a few strings", [SRC + "DateTime.cpp", SRC + "strptime5.cpp"],
  [("digit parsers", "src/DateTime.cpp")], "property-based round trip: format an instant, parse it", "Random search; Python's datetime is the oracle.")
P("C33", "Recycled memory never aliases a live array",
  "Under any history of allocating, recycling, slicing, keeping and dropping arrays with memory recycling on, no array handed out shares memory with another live array, live contents never change, and shapes and dtypes are as requested.",
  [H, C], "all histories of allocation and recycling operations", "no shipped test exercises recycling histories", [SRC + "Recycler.cpp"],
  [("reference-count test before recycling", "src/Recycler.cpp")], "stateful property-based testing", "Random histories; every live array's content is compared after each step.")
P("C34", "Results do not depend on threads",
  "Every operation gives the same result (bit for bit for exact operations, within rounding for float accumulations) with threading off, with any number of worker threads woken, and when repeated. Results at lengths around the parallel chunk boundaries obey the same definitions as short ones.",
  [S, C, I], "all operations at lengths around chunk boundaries and all thread settings", "the shipped tests rarely reach the parallel threshold", [SRC + "MathWorker.cpp", SRC + "MathThreads.cpp", SRC + "Reduce.cpp", SRC + "GroupBy.cpp"],
  [("chunk splitting and work claiming", "src/MathThreads.h")], "metamorphic property testing across thread configurations", "Random search with real threads on several CPU affinities; schedules are sampled, not enumerated.")
P("C35", "No call harms its arguments, leaks, or crashes on arguments it should refuse",
  "No call changes an array it is not documented to write, changes reference counts of its arguments, or leaks memory as it is repeated; arguments of wrong type, dtype or length raise an error or yield a plain result and never crash the process.",
  [I], "all calls with valid arguments, and with mutated arguments", "the shipped tests call with valid arguments once", [SRC + "RipTide.cpp", SRC + "MultiKey.cpp"],
  [("argument checks", "src/RipTide.cpp")], "API fuzzing with generated and mutated arguments", "Random search in isolated processes.")
P("C36", "Utility kernels equal their definitions",
  "The checksum equals CRC-64/XZ of the array's bytes, the bit count equals the population count of every element, trailing-space removal strips exactly the trailing spaces in place, records turn into columns equal to their fields, and interpolation equals the piecewise-linear function (clipped or extrapolated beyond its ends). Layout and length do not matter, and nothing outside the named elements is written.",
  [I], "all inputs of each: dtypes, widths, contents, lengths, layouts", "the shipped tests have almost none", [SRC + "CRC32.cpp", SRC + "BitCount.cpp", SRC + "RipTide.cpp", SRC + "TileRepeat.cpp", SRC + "Ema.cpp"],
  [("slicing-by-8 table checksum", "src/CRC32.cpp"), ("population count by item size", "src/BitCount.cpp"), ("segment search and slopes", "src/Ema.cpp"), ("row-block copy of fields", "src/RipTide.cpp")], "property-based differential testing against bit-exact reference definitions", "Random search.")
P("C38", "The SDS C++ library and the Python module agree on every file",
  "A file written through either interface reads back identically through the other.", [I], "all files both interfaces can express",
  "the shipped tests cover the library only against itself", ["extras/sdsfile/dllmain.cpp", SRC + "SDSFile.cpp"], [("shared format code", "src/SDSFile.cpp")],
  "differential property testing between the two front ends", "Random search.")
P("C40", "Array coercion and the operator hooks keep values and types",
  "Coercing any object to an array gives an array equal to numpy's coercion (the same object when it already is one of the wanted kind), and operators on hooked arrays give the same values as numpy's operators.",
  [I, C], "all objects accepted by coercion, all operators", "no shipped test", [SRC + "Array.cpp", SRC + "Hook.cpp"], [("slot replacement for arithmetic and comparison", "src/Hook.cpp")],
  "property-based differential testing against numpy", "Random search.")
