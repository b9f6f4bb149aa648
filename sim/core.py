"""
Core of the simulator: one choice stream decides everything.

``Choices`` is the only source of nondeterminism of a run.  A run is a pure
function of (code under test, choice list).  In search mode the list is
produced by a PRNG seeded from (VERIF_SEED, property, run index) and recorded;
in replay/minimise mode it is given and, when exhausted, continues with 0.
Value 0 is always the benign alternative (first ready task, no fault,
smallest size) so that shrinking the list simplifies the run.
"""
import hashlib
import json
import random


class Violation(Exception):
    """ The property under test is broken. """

    def __init__(self, kind, message, signature=None):
        super().__init__("%s: %s" % (kind, message))
        self.kind = kind
        self.message = message
        self.signature = signature or kind


class HarnessError(Exception):
    """ The simulator itself is broken (never reported as a violation). """


class Discard(Exception):
    """ Generated scenario is not admissible; run does not count. """


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Choices(object):
    def __init__(self, seed=None, replay=None, limit=400000):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.record = []
        self.limit = limit

    def draw(self, n):
        """ integer in [0, n) """
        if n <= 1:
            return 0
        i = len(self.record)
        if i >= self.limit:
            raise HarnessError("choice limit exceeded")
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = v % n
        else:
            v = self.rng.randrange(n)
        self.record.append(v)
        return v

    def flip(self, p):
        """ True with probability p; 0 -> False """
        return self.draw(1000) >= 1000 - int(round(p * 1000))

    def integer(self, lo, hi):
        """ inclusive range, 0 -> lo """
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """ pairs: [(value, integer weight)]; choice 0 -> first value """
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for value, w in pairs:
            if v < w:
                return value
            v -= w
        return pairs[-1][0]

    def perm(self, n):
        items = list(range(n))
        out = []
        while items:
            out.append(items.pop(self.draw(len(items))))
        return out

    def composition(self, total, max_parts=4):
        """ split total into 1..max_parts positive parts; 0 -> (total,) """
        if total <= 0:
            return (total,)
        parts = 1 + self.draw(min(max_parts, total))
        if parts == max_parts and total > max_parts and self.flip(0.15):
            # many more than usual
            parts = self.integer(max_parts + 1, min(4 * max_parts, total))
        if parts == 1:
            return (total,)
        # random distinct cut points
        cuts = set()
        avail = list(range(1, total))
        for _ in range(parts - 1):
            cuts.add(avail.pop(self.draw(len(avail))))
        edges = [0] + sorted(cuts) + [total]
        return tuple(b - a for a, b in zip(edges[:-1], edges[1:]))

    def nprng(self):
        import numpy as np
        return np.random.RandomState(self.draw(1 << 16))


class Trace(object):
    """ Event log of one run; its digest identifies the execution. """

    def __init__(self, keep=4000):
        self.h = hashlib.sha256()
        self.events = []
        self.keep = keep
        self.n = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.findings = {}      # signature -> message (see runner.one_run)
        self.sim_time = 0.0
        self.order = hashlib.sha256()

    def log(self, *event):
        line = " ".join(str(e) for e in event)
        self.h.update(line.encode())
        self.h.update(b"\n")
        self.n += 1
        if len(self.events) < self.keep:
            self.events.append(line)

    def step(self, what):
        """ one scheduling decision: contributes to the interleaving id """
        self.order.update(str(what).encode() + b"\n")

    def fault(self, kind, *detail):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.log("FAULT", kind, *detail)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self.h.hexdigest()

    def interleaving(self):
        return self.order.hexdigest()[:16]


def array_digest(a):
    import numpy as np
    a = np.ascontiguousarray(a)
    if a.dtype == object:
        data = repr([array_digest(x) if isinstance(x, np.ndarray) else repr(x)
                     for x in a.ravel()]).encode()
    else:
        data = a.tobytes()
    h = hashlib.blake2b(digest_size=8)
    h.update(str(a.dtype).encode())
    h.update(str(a.shape).encode())
    h.update(data)
    return h.hexdigest()


def dump_json(path, obj):
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
