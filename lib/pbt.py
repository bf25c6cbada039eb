"""A small choice-sequence property-testing engine with process isolation.

A test case is a pure function of a sequence of bounded integer choices (as in Hypothesis / minithesis).
Generation draws them from a generator seeded by (VERIF_SEED, property, law, case index); replay feeds a
recorded sequence back; shrinking edits the sequence.  Laws run in worker processes, so that a crash or a hang
of the native code under test is an observed outcome and not the end of the check.
"""
import hashlib, json, random, sys, importlib


class Fail(Exception):
    """The law does not hold on this case."""


class Overrun(Exception):
    """The recorded sequence is exhausted (only while shrinking)."""


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


class Lazy:
    """riptide_cpp imported at first use: the shrinker forks before that."""
    def __init__(self, name):
        self.__dict__["_n"] = name
        self.__dict__["_m"] = None

    def __getattr__(self, k):
        if self._m is None:
            self.__dict__["_m"] = importlib.import_module(self._n)
        return getattr(self._m, k)


rc = Lazy("riptide_cpp")


class Case:
    def __init__(self, rng=None, prefix=None, strict=False):
        self.rng = rng
        self.prefix = list(prefix) if prefix is not None else None
        self.strict = strict
        self.choices = []
        self.events = {}
        self.desc = []
        self.nontriv = False
        self.sink = None
        self.notesink = None

    # ---- primitive
    def below(self, n):
        """integer in [0, n)"""
        if n <= 0:
            raise HarnessError("empty range")
        i = len(self.choices)
        if self.prefix is not None:
            if i < len(self.prefix):
                v = self.prefix[i]
                if v >= n:
                    v = v % n if self.strict else n - 1
            else:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        if self.sink is not None:
            import os
            os.write(self.sink, b"%d\n" % v)
        return v

    # ---- derived
    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False"""
        return self.below(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """[(weight, value)]: earlier values are simpler"""
        tot = sum(w for w, _ in pairs)
        k = self.below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise HarnessError("weights")

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def sample(self, seq, k):
        s = list(seq)
        out = []
        for _ in range(min(k, len(s))):
            out.append(s.pop(self.below(len(s))))
        return out

    def perm(self, n):
        return self.sample(range(n), n)

    def seed(self):
        return self.below(1 << 32)

    def nprng(self):
        import numpy as np
        return np.random.Generator(np.random.PCG64(self.seed()))

    # ---- reporting
    def note(self, **kw):
        for k, v in kw.items():
            self.desc.append("%s=%s" % (k, v))
            if self.notesink is not None:
                import os
                os.write(self.notesink, ("%s=%s; " % (k, v)).encode("utf8", "replace"))

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True


def case_rng(seed, prop, law, idx):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, law, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class Law:
    def __init__(self, fn, quick, thorough=None, name=None, doc=None):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.doc = doc or (fn.__doc__ or "").strip()


def law(quick, thorough=None):
    def deco(fn):
        fn._law = Law(fn, quick, thorough)
        sys.modules[fn.__module__].__dict__.setdefault("LAWS", []).append(fn._law)
        return fn
    return deco


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ------------------------------------------------------------------ shrinking
def shrink(choices, test, budget, deadline, now):
    """test(seq) -> (fails, actual_choices_used).  Returns the smallest failing sequence found."""
    best = list(choices)
    used = 0
    seen = set()

    def attempt(seq):
        nonlocal best, used
        t = tuple(seq)
        if t in seen or used >= budget or now() > deadline:
            return False
        seen.add(t)
        used += 1
        ok, real = test(list(seq))
        if ok:
            real = list(real) if real is not None else list(seq)
            if (len(real), real) < (len(best), best):
                best = real
                return True
            if (len(seq), list(seq)) < (len(best), best):
                best = list(seq)
                return True
        return False

    changed = True
    while changed and used < budget and now() < deadline:
        changed = False
        k = len(best) // 2
        while k > 0:
            i = len(best) - k
            while i >= 0:
                if attempt(best[:i] + best[i + k:]):
                    changed = True
                    i = min(i, len(best) - k)
                else:
                    i -= max(1, k // 2) if k > 4 else 1
                if used >= budget:
                    break
            k //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    changed = True
        i = 0
        while i < len(best):
            lo, hi = 0, best[i]
            tries = 0
            while lo + 1 < hi and tries < 12:
                mid = (lo + hi) // 2
                tries += 1
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    changed = True
                    if i >= len(best):
                        break
                    hi = best[i]
                else:
                    lo = mid
            if i < len(best) and best[i] > 0:
                if attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    changed = True
            i += 1
    return best, used
