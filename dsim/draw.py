"""One integer seed -> one choice sequence -> one scenario.

Every decision of a run (data, operations, faults, schedule) is drawn from a `Draw`.  The
sequence of drawn integers is the scenario: replaying the sequence repeats the run, and
minimisation edits the sequence (0 is always the simplest choice), so that a minimised
scenario is always one the generator can produce.
"""
import random


class Draw(object):
    def __init__(self, seed=None, choices=None):
        self.replay = choices is not None
        self.src = list(choices) if choices is not None else None
        self.rng = None if self.replay else random.Random(seed)
        self.rec = []
        self.pos = 0

    def raw(self, n, bias=None):
        """An integer in [0, n)."""
        if n <= 0:
            raise ValueError("empty draw")
        if self.replay:
            v = self.src[self.pos] % n if self.pos < len(self.src) else 0
            self.pos += 1
        else:
            v = bias(self.rng) % n if bias else self.rng.randrange(n)
        self.rec.append(v)
        return v

    # -- basic draws ---------------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p (0 -> False is the simple choice)."""
        v = self.raw(1000)
        return v >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.raw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], first is simplest."""
        tot = sum(w for w, _ in pairs)
        v = self.raw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        raise AssertionError

    def size(self, lo, hi, marks=()):
        """A size, usually small, often one of `marks`, sometimes anything up to hi."""
        marks = [m for m in marks if lo <= m <= hi]
        mode = self.raw(10)
        if mode < 5 or (mode < 8 and not marks):
            return self.int(lo, min(hi, lo + 4))
        if mode < 8:
            return self.pick(marks)
        return self.int(lo, hi)

    def shuffle(self, seq):
        """A permutation (identity is simplest)."""
        seq = list(seq)
        if len(seq) > 1 and self.bool(0.6):
            for i in range(len(seq) - 1):
                j = i + self.raw(len(seq) - i)
                seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    # -- text ----------------------------------------------------------------------
    LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    ALNUM = "123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"

    def word(self, lo, hi, first=None, rest=None):
        first = first or self.LETTERS + self.LETTERS.lower()
        rest = rest or first + "0123456789"
        n = self.int(lo, hi)
        return "".join(self.pick(first if i == 0 else rest) for i in range(n))

    # -- numbers -------------------------------------------------------------------
    def real(self, digits=5, neg=False, emin=-30, emax=30, zero=True):
        """A decimal number that a field with 2-digit exponents can hold."""
        mode = self.raw(8)
        if mode == 0 and zero:
            return 0.0
        if mode == 1:
            v = float(self.int(1, 9))
        elif mode == 2:
            v = float(self.pick([0.5, 0.25, 0.3, 1.0e-14, 9.81, 2600.0, 1.0e5, 101325.0, 9.99996e5]))
        elif mode == 3:
            m = 10 ** (digits + 2)
            v = float("{:.{}f}e{}".format(self.int(1, m - 1) / (m / 10.0), digits + 1, self.int(emin, emax)))
        else:
            m = 10 ** digits
            v = self.int(1, m - 1) * 10.0 ** self.int(-3 - digits, 3)
        if neg and self.bool(0.3):
            v = -v
        return v
