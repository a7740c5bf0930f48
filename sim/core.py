"""Decision source, run context, violation type.

One run = one pure function ``scenario(ctx)`` whose every choice (workload, sizes,
schedule, faults, random draws) is taken from ``ctx`` and recorded as a labelled
non-negative integer.  0 is always the simplest choice, so minimisation is
"delete / zero / lower entries of the decision list".
"""
import hashlib
import random


class Violation(Exception):
    """A property does not hold.  ``cls`` is the violation class used for shrinking."""

    def __init__(self, cls, msg=""):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Discard(Exception):
    """The drawn case is outside the scope (not counted as an evaluation)."""


class InjectedFault(Exception):
    """Base of all faults injected into user callables by the simulator."""


def derive(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Ctx:
    MAX_DECISIONS = 200000

    def __init__(self, seed=0, replay=None, tier="quick"):
        self.seed = seed
        self.tier = tier
        self.replaying = replay is not None
        self._replay = list(replay) if replay is not None else None
        self._pos = 0
        self._prng = random.Random(seed)
        self.decisions = []  # (label, value)
        self.events = []  # human readable trace, decisions only
        self.faults = {}
        self.probes = {}
        self.schedule = []  # interleaving signature
        self.simtime = 0.0
        self.steps = 0
        self.cleanups = []

    # -- decisions ---------------------------------------------------------------
    def _raw(self, n, label, weights=None):
        """An integer in [0, n)."""
        if n <= 0:
            raise ValueError("empty choice " + label)
        if len(self.decisions) >= self.MAX_DECISIONS:
            raise Discard("too many decisions")
        if self._replay is not None:
            v = self._replay[self._pos] if self._pos < len(self._replay) else 0
            self._pos += 1
            v = int(v)
            if v >= n or v < 0:
                v = v % n
        elif weights is not None:
            r = self._prng.random() * sum(weights)
            v = 0
            for v, w in enumerate(weights):
                r -= w
                if r < 0:
                    break
        else:
            v = self._prng.randrange(n)
        self.decisions.append((label, v))
        return v

    def integer(self, lo, hi, label="int"):
        """lo..hi inclusive; lo is simplest."""
        return lo + self._raw(hi - lo + 1, label)

    def choice(self, options, label="choice", weights=None):
        options = list(options)
        return options[self._raw(len(options), label, weights)]

    def flag(self, p=0.5, label="flag"):
        return bool(self._raw(2, label, (1.0 - p, p)))

    def real(self, lo, hi, label="real", grid=64):
        """lo + (hi-lo) * k/grid; lo simplest."""
        return lo + (hi - lo) * self._raw(grid + 1, label) / grid

    def subseed(self, label="subseed"):
        return self._raw(1 << 20, label)

    def rs(self, label="rs"):
        """A numpy RandomState for bulk numeric content; one recorded decision."""
        import numpy as np

        return np.random.RandomState(self.subseed(label))

    def subset(self, options, p=0.5, label="subset"):
        return [o for o in options if self.flag(p, f"{label}:{o}")]

    def shuffle(self, items, label="shuffle"):
        items = list(items)
        out = []
        while items:
            out.append(items.pop(self._raw(len(items), label)))
        return out

    # -- bookkeeping (never draws) -------------------------------------------------
    def event(self, kind_, **kw):
        if len(self.events) < 4000:
            self.events.append(kind_ + (" " + " ".join(f"{k}={v}" for k, v in kw.items()) if kw else ""))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def sched(self, what):
        self.schedule.append(str(what))

    def check(self, cond, cls, msg=""):
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def values(self):
        return [v for _, v in self.decisions]

    def log_hash(self):
        h = hashlib.sha256()
        for lab, v in self.decisions:
            h.update(f"{lab}={v};".encode())
        for e in self.events:
            h.update(e.encode() + b"\n")
        for s in self.schedule:
            h.update(s.encode() + b",")
        h.update(repr(sorted(self.faults.items())).encode())
        h.update(repr(sorted(self.probes.items())).encode())
        return h.hexdigest()[:16]

    def sched_hash(self):
        return hashlib.sha256(",".join(self.schedule).encode()).hexdigest()[:16]
