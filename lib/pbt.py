"""A small property-based testing core for PyPy 3.9 (see DESIGN.md for why it is home-made).

A case is a pure function of a recorded sequence of bounded integer choices, so every
failing case can be replayed exactly and shrunk by editing the sequence.
"""
import copy
import json
import math
import os
import random
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The code under test broke the property. `key` names the defect for the known-findings file."""
    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key


class Discard(Exception):
    pass


class HangError(BaseException):
    pass


class Draw(object):
    """Source of choices; records (value, bound)."""

    def __init__(self, rng=None, prefix=None, maxlen=200000):
        self.rng = rng
        self.prefix = prefix
        self.log = []
        self.labels = []
        self.notes = []
        self.nt = None
        self.touched = False
        self.maxlen = maxlen
        self.evals = 1

    # -- raw
    def below(self, n):
        """integer in [0, n); 0 is the simplest"""
        if n <= 1:
            return 0
        i = len(self.log)
        if i >= self.maxlen:
            raise Discard()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v

    # -- derived
    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self):
        return self.below(2) == 1

    def chance(self, num, den):
        """True with probability num/den; False is simplest"""
        return self.below(den) >= den - num

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.below(tot)
        for w, x in pairs:
            if k < w:
                return x
            k -= w
        raise AssertionError

    def list(self, gen, lo=0, hi=5):
        n = self.int(lo, hi)
        return [gen() for _ in range(n)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    # integers with interesting boundary values
    def smallint(self, m=10):
        k = self.below(2 * m + 1)
        return (k + 1) // 2 * (1 if k % 2 else -1)

    def pfaint(self):
        c = self.below(20)
        if c < 12:
            return self.smallint(10)
        if c < 14:
            return self.smallint(1000)
        if c < 16:
            return self.choice([2**31 - 1, -2**31, 2**31 - 2, -2**31 + 1, 65535, 65536, -65536, 46341, 46340, 2**30])
        if c < 18:
            return self.int(-2**31, 2**31 - 1)
        return self.choice([0, 1, -1, 2, 7, 8, 10, 12, 31, 32, 33, 63, 64, 100, 255, 256])

    def pfalong(self):
        c = self.below(20)
        if c < 10:
            return self.smallint(10)
        if c < 12:
            return self.pfaint()
        if c < 15:
            return self.choice([2**63 - 1, -2**63, 2**63 - 2, -2**63 + 1, 2**53, 2**53 + 1, -2**53 - 1, 2**32, 2**31, -2**31 - 1,
                                3037000500, 3037000499, 2**62])
        if c < 18:
            return self.int(-2**63, 2**63 - 1)
        return self.int(-10**12, 10**12)

    def unit(self):
        """float in [0,1]"""
        return self.below(2**20 + 1) / float(2**20)

    def pfadouble(self, special=True):
        c = self.below(24)
        if c < 6:
            return float(self.smallint(10))
        if c < 10:
            return self.smallint(1000) / 10.0
        if c < 14:
            return self.smallint(10**6) / 1000.0
        if c < 16:
            return self.choice([0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.1, 3.3, 1e-3, -0.0, 1e-10, 3.4])
        if c < 19 and special:
            return self.choice([float("inf"), float("-inf"), float("nan"), 1e308, -1e308, 1e-308, 5e-324, 2.0**63, -2.0**63, 2.0**31,
                                9007199254740993.0, 1e15, 1e16, 1e17, 709.0, 710.0, -745.0, -746.0])
        s = self.smallint(10**9) / 1e9
        return s * 10.0 ** self.int(-8, 8)

    def finite(self, scale=10.0):
        """ordinary finite double"""
        c = self.below(4)
        if c == 0:
            return float(self.smallint(int(scale) if scale >= 1 else 1))
        if c == 1:
            return self.smallint(int(scale * 10) if scale >= 1 else 10) / 10.0
        return self.smallint(10**6) / 1e6 * scale

    def str(self, alphabet=None, lo=0, hi=6):
        if alphabet is None:
            alphabet = self.choice(["ab", "abcAB ", "abc xyz\t\n,.;0123-", u"a\u00e9\u03b1\u65e5\U0001F600b"])
        return u"".join(self.choice(alphabet) for _ in range(self.int(lo, hi)))

    def name(self, n=6, prefix="k"):
        return prefix + str(self.below(n))

    # -- bookkeeping
    def label(self, *labels):
        self.labels.extend(labels)

    def note(self, x):
        """describe the case (JSON-able or repr)"""
        self.notes.append(x)

    def nontrivial(self, key):
        """mark this case as non-trivial; key (hashable repr) used to count distinct ones"""
        self.nt = key if isinstance(key, str) else repr(key)

    def sut(self):
        """from here on, exceptions are attributed to the code under test"""
        self.touched = True


def jsonable(x, depth=0):
    if depth > 30:
        return "..."
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return repr(x)
        return x
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)


def show(x, limit=2000):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


CASE_CPU = float(os.environ.get("VERIF_CASE_CPU", "60"))
CASE_WALL = float(os.environ.get("VERIF_CASE_WALL", "300"))


def _alarm(signum, frame):
    raise HangError("case used more than %g s of CPU time or %g s of wall time" % (CASE_CPU, CASE_WALL))


def arm():
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)


def insut(err):
    """was it raised by the code under test?"""
    tb, last = err.__traceback__, None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and last.startswith((os.path.join(os.environ.get("VERIF_REPO", "/repo"), ""), "<string>"))


def run_one(fn, d, cpu=None):
    """-> ('ok'|'discard'|'fail'|'harness', message, key)"""
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu or CASE_CPU)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL)
    try:
        try:
            fn(d)
            return ("ok", None, None)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Discard:
        return ("discard", None, None)
    except Violation as err:
        return ("fail", err.message, err.key)
    except HangError as err:
        if d.touched:
            return ("fail", "does not terminate: %s\n%s" % (err, traceback.format_exc()[-1500:]), "hang")
        return ("harness", traceback.format_exc(), None)
    except MemoryError:
        return ("harness", traceback.format_exc(), None)
    except Exception as err:
        tb = traceback.format_exc()
        if d.touched or insut(err):
            return ("fail", "unexpected exception %s: %s\n%s" % (type(err).__name__, err, tb[-3000:]), None)
        return ("harness", tb, None)


def shrink(fn, log, key, seconds=25.0, maxtries=1500):
    """Greedy shrink of a failing choice log. Keeps the defect key."""
    deadline = time.time() + seconds
    tries = [0]
    best = list(log)

    def attempt(cand):
        if time.time() > deadline or tries[0] >= maxtries:
            return None
        tries[0] += 1
        d = Draw(prefix=cand)
        st, msg, k = run_one(fn, d, cpu=min(CASE_CPU, 20))
        if st == "fail" and k == key:
            out = list(d.log)
            while out and out[-1] == 0:
                out.pop()
            if (len(out), out) < (len(best), best):
                return out
        return None

    improved = True
    while improved and time.time() < deadline and tries[0] < maxtries:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                r = attempt(best[:i] + best[i + size:])
                if r is not None:
                    best = r
                    improved = True
                    i = min(i, len(best)) - size
                    continue
                i -= size
                if time.time() > deadline or tries[0] >= maxtries:
                    break
            size //= 2
        i = 0
        while i < len(best):
            if best[i] != 0:
                v = best[i]
                r = attempt(best[:i] + [0] + best[i + 1:])
                if r is None and v > 1:
                    lo, hi = 0, v
                    for cand in (v // 2, v - 1):
                        r = attempt(best[:i] + [cand] + best[i + 1:])
                        if r is not None:
                            break
                if r is not None:
                    best = r
                    improved = True
                    continue
            i += 1
    return best, tries[0]


# ---------------------------------------------------------------- comparison helpers

def is_nan(x):
    return isinstance(x, float) and x != x


def same(a, b):
    """exact structural equality; NaN equals NaN; int vs bool distinguished; int 1 and float 1.0 distinguished"""
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) == type(b) and a == b
    if isinstance(a, float) and isinstance(b, float):
        if a != a:
            return b != b
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if type(a) != type(b):
        return False
    return a == b


def close(a, b, rel=1e-9, abs_=1e-12):
    """structural equality with numeric tolerance (ints and floats interchangeable)"""
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) == type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, float) and a != a:
            return isinstance(b, float) and b != b
        if a == b:
            return True
        if isinstance(b, float) and b != b:
            return False
        try:
            fa, fb = float(a), float(b)
        except OverflowError:
            return False
        if fa in (float("inf"), float("-inf")) or fb in (float("inf"), float("-inf")):
            return fa == fb
        return abs(fa - fb) <= max(abs_, rel * max(abs(fa), abs(fb)))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], rel, abs_) for k in a)
    return a == b
