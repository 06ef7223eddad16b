"""Exact real number fields in plain Python: the oracle for the Python interface.

An element is a list of Fractions (coefficients on the powers of a root of an
irreducible polynomial); the root is known through an isolating interval that
is refined by bisection.  Nothing here uses e-antic, FLINT or sympy."""
import math
from fractions import Fraction as Q

def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return p

def ev(p, x):
    r = Q(0)
    for c in reversed(p):
        r = r * x + c
    return r

def divmod_poly(a, b):
    a, b = trim(a), trim(b)
    q = [Q(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b):
        k = len(a) - len(b)
        c = a[-1] / b[-1]
        q[k] = c
        for i, d in enumerate(b):
            a[i + k] -= c * d
        a.pop()
        a = trim(a)
    return q, a

def sturm(p):
    p = trim([Q(c) for c in p])
    s = [p, trim([i * c for i, c in enumerate(p)][1:])]
    while s[-1]:
        r = [-c for c in divmod_poly(s[-2], s[-1])[1]]
        if not r:
            break
        m = max(abs(c) for c in r)          # scaling by a positive number keeps the signs
        s.append([c / m for c in r])
    return s

def changes(s, x):
    v = [ev(p, x) for p in s]
    v = [c for c in v if c]
    return sum(1 for a, b in zip(v, v[1:]) if (a > 0) != (b > 0))

def roots(p):
    """Isolating intervals (lo, hi), in increasing order, of the real roots of an irreducible p of degree at least two."""
    p = trim([Q(c) for c in p])
    s = sturm(p)
    B = 1 + max(abs(c / p[-1]) for c in p[:-1])
    B = Q(2) ** (int(B) + 1).bit_length()
    out, todo = [], [(-B, B, changes(s, -B) - changes(s, B))]
    while todo:
        lo, hi, n = todo.pop()
        if n == 0:
            continue
        if n == 1:
            out.append((lo, hi))
            continue
        mid = (lo + hi) / 2
        m = changes(s, lo) - changes(s, mid)
        todo += [(lo, mid, m), (mid, hi, n - m)]
    return sorted(out)

class Field:
    def __init__(self, pol, index):
        self.pol = trim([Q(c) for c in pol])
        self.n = len(self.pol) - 1
        self.sturm = sturm(self.pol)
        self.all = roots(self.pol)
        self.lo, self.hi = self.all[index]
        self.up = ev(self.pol, self.hi) > 0

    def refine(self, width):
        while self.hi - self.lo > width:
            mid = (self.lo + self.hi) / 2
            if (ev(self.pol, mid) > 0) == self.up:
                self.hi = mid
            else:
                self.lo = mid

    def count(self, a, b):
        return changes(self.sturm, a) - changes(self.sturm, b)

    def reduce(self, p):
        p = divmod_poly([Q(c) for c in p], self.pol)[1]
        return p + [Q(0)] * (self.n - len(p))

    def add(self, a, b): return [x + y for x, y in zip(a, b)]
    def sub(self, a, b): return [x - y for x, y in zip(a, b)]
    def mul(self, a, b):
        r = [Q(0)] * (2 * self.n - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    r[i + j] += x * y
        return self.reduce(r)
    def inv(self, a):
        # extended Euclid: s * a = g mod pol
        r0, r1, s0, s1 = self.pol, trim(a), [], [Q(1)]
        while len(r1) > 1:
            q, r = divmod_poly(r0, r1)
            t = [Q(0)] * max(len(s0), len(q) + len(s1) - 1)
            for i, c in enumerate(s0):
                t[i] += c
            for i, c in enumerate(q):
                for j, d in enumerate(s1):
                    t[i + j] -= c * d
            r0, r1, s0, s1 = r1, r, s1, t
        return self.reduce([c / r1[0] for c in s1])
    def pow(self, a, k):
        if k < 0:
            a, k = self.inv(a), -k
        r = self.reduce([1])
        while k:
            if k & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            k >>= 1
        return r

    def ball(self, a):
        lo = hi = Q(0)
        for c in reversed(a):
            v = [lo * self.lo, lo * self.hi, hi * self.lo, hi * self.hi]
            lo, hi = min(v) + c, max(v) + c
        return lo, hi

    def decide(self, a, f):
        """f(lo, hi) on finer and finer enclosures of a until it is not None."""
        if not any(a[1:]):
            return f(a[0], a[0])
        w = Q(1, 2 ** 20)
        while True:
            self.refine(w)
            lo, hi = self.ball(a)
            r = f(lo, hi)
            if r is not None:
                return r
            w *= w

    def sign(self, a):
        if not any(a):
            return 0
        return self.decide(a, lambda lo, hi: 1 if lo > 0 else -1 if hi < 0 else None)

    def floor(self, a):
        return self.decide(a, lambda lo, hi: lo.__floor__() if lo.__floor__() == hi.__floor__() and (lo == hi or lo != lo.__floor__()) else None)

    def float(self, a):
        def fl(q):
            try: return float(q)
            except OverflowError: return math.inf if q > 0 else -math.inf
        return self.decide(a, lambda lo, hi: fl(lo) if fl(lo) == fl(hi) else None)

    def approx(self, a, rel):
        return self.decide(a, lambda lo, hi: lo if lo == hi or (lo > 0 or hi < 0) and (hi - lo) * rel < abs(lo) else None)
