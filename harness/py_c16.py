"""C16: generated Python programs over pyeantic against an exact oracle.

  py_c16.py worker KIND SEED N WALL OUT CUR PICKLES   run hypothesis on N generated programs
  py_c16.py replay FILE                               run one program (JSON), exit 1 if it fails
  py_c16.py shrink FILE OUT SECONDS                   shrink a program that ends the process
  py_c16.py unpickle FILE                             compare what another process pickled

A program is data: the fields, and a list of operations on four slots that hold
elements.  Every operation is executed through pyeantic and on the model; the
slots are compared after every step.
"""
import copy, gc, hashlib, json, math, os, pickle, re, sys, time, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")      # hypothesis, after the interpreter's own packages
from py_oracle import Field, Q, trim, ev, roots
sys.set_int_max_str_digits(0)

NSLOT = 4

class Bad(Exception):
    pass

def check(cond, tag, msg):
    if not cond:
        raise Bad(tag + ": " + msg)

# ---------------------------------------------------------------- generation
def generators():
    from hypothesis import strategies as st
    edges = sorted({s * (2 ** k + d) for k in (7, 8, 15, 16, 30, 31, 32, 33, 52, 53, 61, 62, 63, 64, 65, 127, 128) for d in (-1, 0, 1) for s in (1, -1)})
    ints = st.one_of(st.integers(-12, 12), st.integers(-12, 12), st.sampled_from(edges), st.integers(-2 ** 200, 2 ** 200))
    mids = st.one_of(st.integers(-12, 12), st.sampled_from([e for e in edges if abs(e) < 2 ** 66]))
    rats = st.one_of(st.builds(Q, st.integers(-30, 30), st.integers(1, 12)), st.builds(Q, mids, st.one_of(st.integers(1, 30), st.sampled_from([2 ** 31, 2 ** 32 + 1, 2 ** 63, 2 ** 64, 10 ** 30]))))
    names = st.sampled_from(["x", "a", "y", "sqrt2", "A", "alpha_1", "t"])

    @st.composite
    def polynomial(draw):
        kind = draw(st.integers(0, 3))
        if kind == 0:
            n, p = draw(st.integers(2, 5)), draw(st.sampled_from([2, 3, 5, 7, 10007]))
            f = [Q(-p)] + [Q(0)] * (n - 1) + [Q(1)]
        elif kind == 1:
            b, c = draw(st.integers(-20, 20)), draw(st.integers(-40, 40))
            a = draw(st.integers(1, 4)); d = b * b - 4 * a * c
            if d <= 0 or math.isqrt(d) ** 2 == d:
                a, b, c = 1, 1, -1
            f = [Q(c), Q(b), Q(a)]
        else:                                # Eisenstein
            n, p = draw(st.integers(2, 6)), draw(st.sampled_from([2, 3, 5]))
            f = [Q(p * draw(st.integers(-6, 6))) for _ in range(n)] + [Q(draw(st.sampled_from([1, 1, 1, -1, 7, -11])))]
            c0 = draw(st.integers(-5, 5))
            f[0] = Q(p * (c0 if c0 % p else 1))
            if n % 2 == 0 and f[0] * f[-1] > 0:
                f[0] = -f[0]                 # a real root for sure
        m = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        if m == 1:                           # shift the roots
            k = draw(st.sampled_from([1, -1, 10, 1000, -12345, 10 ** 9, 10 ** 18]))
            g = [Q(0)]
            for c in reversed(f):
                g = [c - k * g[0]] + [g[i - 1] - k * g[i] if i < len(g) else g[i - 1] for i in range(1, len(g) + 1)]
            f = trim(g)
        elif m == 2:                         # scale the roots
            k = draw(st.sampled_from([Q(2), Q(1, 3), Q(10 ** 6), Q(1, 10 ** 6), Q(2) ** 40, Q(1, 2 ** 40)]))
            f = [c / k ** i for i, c in enumerate(f)]
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from([Q(-1), Q(1, 2), Q(6), Q(-3, 7)]))
            f = [c * k for c in f]
        return f

    @st.composite
    def field(draw):
        f = draw(polynomial())
        rs = roots(f)
        i = draw(st.integers(0, len(rs) - 1))
        K = Field(f, i)
        # a decimal ball with room to spare that contains no other root
        K.refine(Q(1, 2 ** 12))
        d = draw(st.integers(0, 3))
        while True:
            K.refine(Q(1, 10 ** (d + 3)))
            m = (K.lo * 10 ** d).__floor__()
            if K.count(Q(m - 4, 10 ** d), Q(m + 4, 10 ** d)) == 1:
                break
            d += 1 + d // 2
        d += draw(st.integers(0, 25))
        K.refine(Q(1, 10 ** (d + 3)))
        m = (K.lo * 10 ** d).__floor__()
        sgn, digits = ("-" if m < 0 else ""), str(abs(m)).zfill(d + 1)
        mid = sgn + digits[:len(digits) - d] + ("." + digits[len(digits) - d:] if d else "")
        r = "2e-%d" % d if draw(st.booleans()) else (("0." + "0" * (d - 1) + "2") if d else "2")
        emb = draw(st.sampled_from(["%s +/- %s", "[%s +/- %s]", "%s+/-%s"])) % (mid, r)
        return {"pol": [str(c) for c in f], "root": i, "name": draw(names), "emb": emb, "prec": draw(st.sampled_from([None, None, 64, 128, 500]))}

    def num(kinds):
        return st.one_of(*[st.tuples(st.just(k), {"int": ints, "mpz": ints, "bool": st.booleans(), "mpq": rats, "gmpz": ints, "duckz": ints, "gmpq": rats, "duckq": rats}[k].map(str)) for k in kinds])

    @st.composite
    def text(draw, name, n):
        """an expression for an element and its coefficients"""
        k = draw(st.integers(1, 4)); out = ""; co = [Q(0)] * n
        for t in range(k):
            e = draw(st.integers(0, n - 1)); c = draw(rats)
            style = draw(st.integers(0, 2))
            sign = "-" if c < 0 else ("+" if t else draw(st.sampled_from(["", "+"])))
            a = str(abs(c)); v = "" if e == 0 else name if e == 1 and style else "%s^%d" % (name, e)
            out += sign + (a if not v else v if abs(c) == 1 and style == 2 else a + "*" + v)
            co[e] += c
        return out, [str(c) for c in co]

    @st.composite
    def program(draw):
        F = [draw(field()) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))]
        ops = []
        slot = lambda: draw(st.integers(0, NSLOT - 1))
        fld = lambda: draw(st.integers(0, len(F) - 1))
        for i in range(draw(st.integers(0, NSLOT))):       # elements to start from, irrational ones mostly
            f = fld(); n = len(F[f]["pol"]) - 1
            if draw(st.booleans()):
                t, c = draw(text(F[f]["name"], n)); k = draw(st.integers(1, 9)); e = draw(st.integers(1, n - 1)) if n > 1 else 0
                t += "+%d*%s^%d" % (k, F[f]["name"], e) if e else ""
                c[e] = str(Q(c[e]) + (k if e else 0)); ops.append(["str", i, f, t, c])
            else:
                ops.append(["list", i, f, [list(x) for x in draw(st.lists(num(["int", "mpz", "mpq", "int"]), min_size=n, max_size=n))], draw(st.booleans())])
        N = draw(st.integers(2, 16))
        gmpy = draw(st.integers(0, 3)) == 0                # is there a gmpy2?
        more = ["gmpz", "gmpq", "duckz", "duckq"] if gmpy else []
        for i in range(N):
            w = draw(st.sampled_from(["str", "str", "list", "list", "scalar", "scalar", "plain", "gen", "copy", "coerce", "bin", "bin", "bin", "bin", "binn", "binn", "binn", "binn", "neg", "pow", "cmp", "cmp", "cmpn", "cmpn", "round", "repr", "hash", "pickle", "picklefield", "deepcopy", "parent", "drop", "remake", "bad", "bad"]))
            f = fld(); n = len(F[f]["pol"]) - 1
            if w == "str":
                t, c = draw(text(F[f]["name"], n)); o = [w, slot(), f, t, c]
            elif w == "list":
                l = draw(st.lists(num(["int", "mpz", "mpq", "int"] + more), max_size=n)); o = [w, slot(), f, [list(x) for x in l], draw(st.booleans())]
            elif w == "scalar":
                o = [w, slot(), f, *draw(num(["int", "int", "mpz", "mpq", "bool"] + more))]
            elif w == "plain":
                o = [w, slot(), *draw(num(["int", "int", "mpz", "mpq"] + more))]
            elif w == "gen":
                o = [w, slot(), f, draw(st.sampled_from(["gen", "one", "zero", "init"]))]
            elif w in ("copy", "deepcopy", "neg"):
                o = [w, slot(), slot()]
            elif w == "coerce":
                o = [w, slot(), f, slot()]
            elif w == "bin":
                o = [w, slot(), draw(st.sampled_from("+-*/")), slot(), slot()]
            elif w == "binn":
                o = [w, slot(), draw(st.sampled_from("+-*/")), slot(), *draw(num(["int", "int", "mpz", "mpq", "bool"] + more)), draw(st.booleans())]
            elif w == "pow":
                o = [w, slot(), slot(), draw(st.integers(-5, 9))]
            elif w == "cmp":
                o = [w, slot(), slot()]
            elif w == "cmpn":
                o = [w, slot(), *draw(num(["int", "int", "mpz", "mpq"] + more)), draw(st.integers(-1, 1)), draw(st.booleans())]
            elif w in ("round", "repr", "parent"):
                o = [w, slot()]
            elif w == "hash":
                o = [w, slot(), slot()]
            elif w == "pickle":
                o = [w, slot(), slot(), draw(st.booleans())]
            elif w in ("picklefield", "drop", "remake"):
                o = [w, f]
            else:
                o = [w, draw(st.sampled_from(["str", "float", "none", "list", "cross", "bytes", "fields", "op", "three", "nofield", "other"])), f, slot(), draw(st.integers(0, 9))]
            ops.append(o)
        return {"fields": F, "ops": ops, "gmpy2": gmpy}

    @st.composite
    def algebraic(draw):
        """an integral polynomial, a root and elements for realalg"""
        f = draw(polynomial())
        m = math.lcm(*[c.denominator for c in f])
        f = [int(c * m) for c in f]
        f = [c // math.gcd(*f) for c in f]
        n = len(f) - 1
        k = len(roots(f))
        i = draw(st.integers(-k, k - 1))
        els = draw(st.lists(st.lists(rats.map(str), min_size=1, max_size=n + 1), min_size=1, max_size=3))
        return {"realalg": f, "root": i, "name": draw(names), "elems": els, "ints": [str(c) for c in draw(st.lists(ints, max_size=2))], "rats": [str(c) for c in draw(st.lists(rats, max_size=2))]}
    return program(), algebraic()

# ---------------------------------------------------------------- execution
E = None
def load():
    global E, cppyy, mpz, mpq
    if E is None:
        from pyeantic import eantic
        import cppyy as c
        E, cppyy = eantic, c
        mpz, mpq = c.gbl.mpz_class, c.gbl.mpq_class
    return E

class gmpz:
    """stands for gmpy2.mpz, which is not installed here: a type with a name and a str()"""
    def __init__(self, v): self.v = Q(v)
    def __str__(self): return str(self.v)
    def __repr__(self): return "%s(%s)" % (type(self).__name__, self.v)
gmpq = type("gmpq", (), {k: v for k, v in gmpz.__dict__.items() if k in ("__init__", "__str__", "__repr__")})      # not a subclass of the other
class duckz:
    def __init__(self, v): self.v = v
    def __mpz__(self): return gmpz(self.v)
class duckq:
    def __init__(self, v): self.v = v
    def __mpq__(self): return gmpq(self.v)

def gmpy2(present):
    import types
    m = types.ModuleType("gmpy2"); m.mpz, m.mpq = gmpz, gmpq
    sys.modules["gmpy2"] = m if present else None             # None: the import fails

def value(kind, s):
    """the Python object that is passed, and the number"""
    if kind == "int": return int(s), Q(int(s))
    if kind == "bool": return s == "True", Q(int(s == "True"))
    if kind in ("gmpz", "gmpq", "duckz", "duckq"): return globals()[kind](s), Q(s)
    if kind == "mpz": return mpz(cppyy.gbl.std.string(s)), Q(int(s))
    return mpq(cppyy.gbl.std.string(s)), Q(s)

def poly_text(p, name):
    t = ""
    for i in reversed(range(len(p))):
        c = Q(p[i])
        if c:
            t += ("-" if c < 0 else "+" if t else "") + str(abs(c)) + ("" if i == 0 else "*%s^%d" % (name, i))
    return t or "0"

def make(d):
    return E.renf(poly_text(d["pol"], d["name"]), d["name"], d["emb"], *([] if d["prec"] is None else [d["prec"]]))

def coefficients(x):
    den = int(str(x.den()))
    return [Q(int(str(v)), den) for v in x.num_vector()]

class Model:
    """value of a slot: (field number or None, coefficients)"""
    def __init__(self, P):
        self.D = P["fields"]
        self.K = [Field([Q(c) for c in d["pol"]], d["root"]) for d in self.D]
        # fields that are described twice are the same field
        key = lambda d: (d["name"], tuple(d["pol"]), d["root"])
        self.same = [min(j for j in range(len(self.D)) if key(self.D[j]) == key(self.D[i])) for i in range(len(self.D))]
    def rational(self, v): return v[0] is None or not any(v[1][1:])
    def lift(self, v, f):
        return self.K[f].reduce([v[1][0]]) if v[0] != f else v[1]

def show(M, v):
    return poly_text(v[1], "rational" if v[0] is None else M.D[v[0]]["name"])

def raises(f):
    try:
        r = f()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException:
        return True, None
    return False, r

def run(P, stats=None, pickles=None):
    load()
    if "realalg" in P:
        return run_realalg(P, stats)
    stats = stats if stats is not None else {}
    gmpy2(P.get("gmpy2", False))
    M = Model(P)
    F = [make(d) for d in M.D]
    for i, d in enumerate(M.D):
        for j in range(i):
            check((F[i] == F[j]) == (M.same[i] == M.same[j]), "field", "fields %d and %d" % (i, j))
    S = [E.renf_elem() for _ in range(NSLOT)]
    V = [(None, [Q(0)])] * NSLOT
    held = list(F)

    def verify(i, what):
        x, (f, c) = S[i], V[i]
        check(isinstance(x, E.renf_elem_class), "type", "%s gives a %s" % (what, type(x).__name__))
        got = trim(coefficients(x))
        check(got == trim(c), "value", "%s gives %s instead of %s" % (what, poly_text(got, "g"), poly_text(c, "g")))
        if f is not None and not M.rational(V[i]):
            check(str(x.parent().gen_name()) == M.D[f]["name"] and x.parent().degree() == M.K[f].n, "parent", what + " is in the wrong field")

    def common(u, v):
        """the field in which two values can be combined, or a refusal"""
        if u[0] is not None and v[0] is not None and M.same[u[0]] != M.same[v[0]]:
            if M.rational(u) and M.rational(v): return None, True
            if M.rational(u): return v[0], True
            if M.rational(v): return u[0], True
            return None, False
        return (u[0] if u[0] is not None else v[0]), True

    def arith(op, f, a, b):
        if f is None:
            a, b = a[0], b[0]
            return (None, [a + b if op == "+" else a - b if op == "-" else a * b if op == "*" else a / b])
        K = M.K[f]
        return (f, K.add(a, b) if op == "+" else K.sub(a, b) if op == "-" else K.mul(a, b) if op == "*" else K.mul(a, K.inv(b)))
    py = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}
    def size(v): return sum(c.numerator.bit_length() + c.denominator.bit_length() for c in v[1])

    def compare(x, y, c, what):
        got = (x < y, x <= y, x == y, x != y, x >= y, x > y)
        want = (c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0)
        check(got == want, "compare", "%s gives %s instead of %s" % (what, got, want))

    for o in P["ops"]:
        w = o[0]; what = json.dumps(o); touched = None
        if w == "str":
            S[o[1]] = E.renf_elem(F[o[2]], o[3]) if F[o[2]] is not None else S[o[1]]
            if F[o[2]] is None: continue
            V[o[1]] = (o[2], [Q(c) for c in o[4]]); touched = o[1]
        elif w == "list":
            if F[o[2]] is None: continue
            vs = [value(*x) for x in o[3]]; a = [v[0] for v in vs]
            S[o[1]] = E.renf_elem(F[o[2]], tuple(a) if o[4] else a); V[o[1]] = (o[2], M.K[o[2]].reduce([v[1] for v in vs])); touched = o[1]
        elif w == "scalar":
            if F[o[2]] is None: continue
            a, q = value(o[3], o[4]); S[o[1]] = E.renf_elem(F[o[2]], a); V[o[1]] = (o[2], M.K[o[2]].reduce([q])); touched = o[1]
        elif w == "plain":
            a, q = value(o[2], o[3]); S[o[1]] = E.renf_elem(a); V[o[1]] = (None, [q]); touched = o[1]
        elif w == "gen":
            if F[o[2]] is None: continue
            k = F[o[2]]
            S[o[1]] = E.renf_elem(k) if o[3] == "init" else getattr(k, o[3])()
            V[o[1]] = (o[2], M.K[o[2]].reduce([0, 1] if o[3] == "gen" else [1] if o[3] == "one" else [0])); touched = o[1]
        elif w == "copy":
            S[o[1]] = E.renf_elem(S[o[2]]); V[o[1]] = V[o[2]]; touched = o[1]
        elif w == "deepcopy":
            S[o[1]] = copy.deepcopy(S[o[2]]); V[o[1]] = V[o[2]]; touched = o[1]
        elif w == "coerce":
            f, v = o[2], V[o[3]]
            if F[f] is None: continue
            if v[0] is not None and M.same[v[0]] == M.same[f] or M.rational(v):
                c = v[1] if v[0] is not None and M.same[v[0]] == M.same[f] else M.K[f].reduce([v[1][0]])
                S[o[1]] = E.renf_elem(F[f], S[o[3]]); V[o[1]] = (f, c); touched = o[1]
            else:
                r, x = raises(lambda: E.renf_elem(F[f], S[o[3]])); check(r, "accepts", "%s gives %s from another field" % (what, x)); stats["refused"] = 1
        elif w == "bin":
            u, v = V[o[3]], V[o[4]]; f, ok = common(u, v)
            if not ok:
                r, x = raises(lambda: py[o[2]](S[o[3]], S[o[4]])); check(r, "accepts", "%s of different fields gives %s" % (what, x)); stats["refused"] = 1
            else:
                if o[2] == "/" and not any(v[1]) or size(u) + size(v) > 6000: continue
                a, b = (u[1], v[1]) if f is None else (M.lift(u, f) if u[0] is None or M.same[u[0]] != M.same[f] else u[1], M.lift(v, f) if v[0] is None or M.same[v[0]] != M.same[f] else v[1])
                S[o[1]] = py[o[2]](S[o[3]], S[o[4]]); V[o[1]] = arith(o[2], f, a, b); touched = o[1]
        elif w == "binn":
            a, q = value(o[4], o[5]); u = V[o[3]]
            left = o[6] and o[4] not in ("mpz", "mpq")         # a GMP number on the left is not handled by pyeantic
            z = q == 0 if not left else not any(u[1])
            if o[2] == "/" and z or size(u) > 6000: continue
            c = [q] + [Q(0)] * (len(u[1]) - 1)
            S[o[1]] = py[o[2]](a, S[o[3]]) if left else py[o[2]](S[o[3]], a)
            V[o[1]] = arith(o[2], u[0], c, u[1]) if left else arith(o[2], u[0], u[1], c); touched = o[1]
        elif w == "neg":
            S[o[1]] = -S[o[2]]; V[o[1]] = (V[o[2]][0], [-c for c in V[o[2]][1]]); touched = o[1]
        elif w == "pow":
            u = V[o[2]]
            if o[3] < 0 and not any(u[1]) or size(u) * abs(o[3]) > 9000: continue
            S[o[1]] = S[o[2]] ** o[3]; V[o[1]] = (u[0], [u[1][0] ** o[3]] if u[0] is None else M.K[u[0]].pow(u[1], o[3])); touched = o[1]
        elif w == "cmp":
            u, v = V[o[1]], V[o[2]]; f, ok = common(u, v)
            if not ok:
                # equality of elements of different fields is not implemented either
                for op in (lambda: S[o[1]] < S[o[2]], lambda: S[o[1]] >= S[o[2]], lambda: S[o[1]] == S[o[2]], lambda: S[o[1]] > S[o[2]], lambda: S[o[1]] <= S[o[2]], lambda: S[o[1]] != S[o[2]]):
                    r, x = raises(op); check(r, "accepts", "%s of different fields gives %s" % (what, x))
                stats["refused"] = 1
            else:
                a, b = (u[1], v[1]) if f is None else (M.lift(u, f) if u[0] is None or M.same[u[0]] != M.same[f] else u[1], M.lift(v, f) if v[0] is None or M.same[v[0]] != M.same[f] else v[1])
                c = (a[0] > b[0]) - (a[0] < b[0]) if f is None else M.K[f].sign(M.K[f].sub(a, b))
                compare(S[o[1]], S[o[2]], c, "comparing %s and %s" % (show(M, u), show(M, v)))
                check(bool(S[o[1]]) == any(u[1]), "bool", "bool of " + show(M, u)); stats["compared"] = 1
        elif w == "cmpn":
            u = V[o[1]]
            a, q = value(o[2], o[3])
            if o[5]:                                        # next to the element itself
                q = Q((u[1][0] if u[0] is None else M.K[u[0]].floor(u[1])).__floor__() + o[4]); a, q = value(o[2], str(q))
            c = (u[1][0] > q) - (u[1][0] < q) if u[0] is None else M.K[u[0]].sign(M.K[u[0]].sub(u[1], M.K[u[0]].reduce([q])))
            compare(S[o[1]], a, c, "comparing %s and %s %s" % (show(M, u), o[2], q)); stats["compared"] = 1
            if o[2] not in ("mpz", "mpq"):
                compare(a, S[o[1]], -c, "comparing %s %s and %s" % (o[2], q, show(M, u)))
        elif w == "round":
            u = V[o[1]]; fl = u[1][0].__floor__() if u[0] is None else M.K[u[0]].floor(u[1])
            integral = M.rational(u) and u[1][0].denominator == 1
            check(int(str(S[o[1]].floor())) == fl, "floor", "floor of %s is %s instead of %s" % (show(M, u), S[o[1]].floor(), fl))
            ce = fl if integral else fl + 1
            check(int(str(S[o[1]].ceil())) == ce, "ceil", "ceil of %s is %s instead of %s" % (show(M, u), S[o[1]].ceil(), ce))
            if abs(fl) < 10 ** 300:
                d = float(u[1][0]) if u[0] is None else M.K[u[0]].float(u[1])
                check(float(S[o[1]]) == d, "float", "float of %s is %r instead of %r" % (show(M, u), float(S[o[1]]), d))
            check(bool(S[o[1]].is_integer()) == integral and bool(S[o[1]].is_rational()) == M.rational(u), "predicate", "predicates of " + show(M, u))
            stats["compared"] = 1
        elif w == "repr":
            u = V[o[1]]; t = repr(S[o[1]]); check(t == str(S[o[1]]), "repr", "str and repr differ: %s %s" % (t, S[o[1]]))
            if integer(u, M):
                check(t == str(u[1][0].numerator), "repr", "%s prints as %s" % (show(M, u), t))
            else:
                m = re.fullmatch(r"\(([^~]+) ~ (\S+)\)", t)
                check(m, "repr", "%s prints as %s" % (show(M, u), t))
                c = parse(m.group(1).replace(" ", ""), None if u[0] is None else M.D[u[0]]["name"])
                check(c is not None and trim(c) == trim(u[1]), "repr", "%s prints as %s" % (show(M, u), t))
                a = u[1][0] if u[0] is None else M.K[u[0]].approx(u[1], 10 ** 12)
                check(abs(Q(m.group(2)) - a) <= abs(a) / 10 ** 6, "repr", "%s prints as %s" % (show(M, u), t))
        elif w == "hash":
            u, v = V[o[1]], V[o[2]]
            check(hash(S[o[1]]) == hash(E.renf_elem(S[o[1]])), "hash", "hash of a copy of " + show(M, u))
            if u[0] is not None and v[0] is not None and M.same[u[0]] == M.same[v[0]]:
                d = S[o[1]] - S[o[2]] + S[o[2]]
                check(hash(d) == hash(S[o[1]]), "hash", "hash of another computation of " + show(M, u))
                check((len({S[o[1]], S[o[2]]}) == 1) == (u[1] == v[1]), "hash", "set of %s and %s" % (show(M, u), show(M, v)))
        elif w == "pickle":
            b = pickle.dumps(S[o[2]])
            if pickles is not None and len(pickles) < 400 and V[o[2]][0] is not None:
                pickles.append([b.hex(), M.D[V[o[2]][0]], [str(c) for c in V[o[2]][1]]])
            if o[3]:
                b = pickle.dumps([S[o[2]], S[o[1]], S[o[2]]]); l = pickle.loads(b)
                keep = (S[o[1]], V[o[1]])
                S[o[1]] = l[1]; verify(o[1], what); S[o[1]] = l[2]
            else:
                S[o[1]] = pickle.loads(b)
            V[o[1]] = V[o[2]]; touched = o[1]; stats["pickled"] = 1
            if V[o[1]][0] is not None:
                check(S[o[1]].parent() == S[o[2]].parent(), "pickle", "the field of the unpickled element differs")
        elif w == "picklefield":
            if F[o[1]] is None: continue
            k = pickle.loads(pickle.dumps(F[o[1]])); check(k == F[o[1]], "pickle", "the unpickled field differs"); stats["pickled"] = 1
            check(str(k.gen_name()) == M.D[o[1]]["name"], "pickle", "name of the unpickled field")
        elif w == "parent":
            u = V[o[1]]
            if u[0] is None: continue
            k = S[o[1]].parent()
            if M.rational(u) and k.degree() == 1: continue  # the result of some operations with rational operands is rational
            check(k.degree() == M.K[u[0]].n and str(k.gen_name()) == M.D[u[0]]["name"], "parent", "parent of " + show(M, u))
            if F[u[0]] is not None: check(k == F[u[0]] and not (k != F[u[0]]), "parent", "the parent is not the field")
            check(trim(coefficients(k.gen())) == [0, 1], "parent", "generator of the parent")
            t = repr(k); m = re.fullmatch(r"NumberField\((.*), \[(\S+)( \+/- (\S+))?\]\)", t)
            check(m, "repr", "a field prints as " + t)
            check(parse(m.group(1).replace(" ", ""), M.D[u[0]]["name"]) == M.K[u[0]].pol, "repr", "a field prints as " + t)
            K = M.K[u[0]]; mid, rad = Q(m.group(2)), Q(m.group(4) or 0); K.refine(max(rad, Q(1, 10 ** 40)) / 8)
            check(mid - rad <= K.hi and K.lo <= mid + rad, "repr", "a field prints as " + t)
        elif w == "drop":
            F[o[1]] = None; held[o[1]] = None; gc.collect()
        elif w == "remake":
            k = make(M.D[o[1]])
            for i in range(NSLOT):
                if V[i][0] is not None and M.same[V[i][0]] == M.same[o[1]] and S[i].parent().degree() > 1:
                    check(S[i].parent() == k, "field", "a field that is made again differs from the parent of an element")
            F[o[1]] = k
        elif w == "bad":
            bad(o, F, S, V, M, what, stats)
        if touched is not None:
            verify(touched, what)
            if not M.rational(V[touched]): stats["irrational"] = stats.get("irrational", 0) + 1
        stats["steps"] = stats.get("steps", 0) + 1
    for i in range(NSLOT):
        verify(i, "slot %d at the end" % i)

def integer(u, M): return M.rational(u) and u[1][0].denominator == 1

def parse(t, name):
    """coefficients of a printed polynomial"""
    c = {}
    if not re.fullmatch(r"[+-]?[^+-]+([+-][^+-]+)*", t): return None
    for s in re.findall(r"[+-]?[^+-]+", t):
        m = re.fullmatch(r"([+-]?)(\d+(?:/\d+)?)?(\*)?(?:(%s)(?:\^(\d+))?)?" % re.escape(name or "-"), s)
        if not m or not (m.group(2) or m.group(4)) or bool(m.group(3)) != bool(m.group(2) and m.group(4)): return None
        e = 0 if not m.group(4) else int(m.group(5) or 1)
        if e in c: return None
        c[e] = Q(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
    return [c.get(i, Q(0)) for i in range(max(c) + 1)]

def bad(o, F, S, V, M, what, stats):
    """arguments that describe no element or no field must be refused"""
    _, kind, f, s, k = o
    K, x, d = F[f], S[s], M.D[f]
    name = d["name"]; other = "q" + name
    if K is None: return
    if kind == "str":
        t = ["(", ")", other, "1/", "*", "%s^" % name, "q", "1/0x", "@", "%s %s" % (name, name)][k]
        fs = [lambda: E.renf_elem(K, t)]; what = "renf_elem(K, %r)" % t
    elif kind == "float": fs = [lambda: E.renf_elem(K, 1.5 + k), lambda: E.renf_elem(0.5), lambda: x + 1.5, lambda: 0.5 * x, lambda: x < 1.5]
    elif kind == "none": fs = [lambda: E.renf_elem(K, None), lambda: x + None, lambda: None - x, lambda: x < None, lambda: E.renf_elem(None)]
    elif kind == "list": fs = [lambda: E.renf_elem(K, [1, "a"]), lambda: E.renf_elem(K, [1.5]), lambda: E.renf_elem(K, [None]), lambda: E.renf_elem(K, [[1]])]
    elif kind == "cross":
        j = [i for i in range(len(F)) if F[i] is not None and M.same[i] != M.same[f]]
        if not j: return
        y = F[j[0]].gen(); g = K.gen()
        fs = [lambda: y + g, lambda: y * g, lambda: y < g, lambda: g == y, lambda: E.renf_elem(K, y), lambda: g / y, lambda: g != y, lambda: g >= y]
    elif kind == "bytes": fs = [lambda: E.renf_elem(K, b"1"), lambda: x + b"1", lambda: x + "1", lambda: "1" * x]
    elif kind == "fields":
        p, e = poly_text(d["pol"], name), d["emb"]
        Z = M.K[f]
        B = 4 * max(abs(c) for r in Z.all for c in r) + 100
        fs = [[lambda: E.renf(p, other, e)], [lambda: E.renf(p + "+", name, e)], [lambda: E.renf(p, name, "foo")], [lambda: E.renf(p, name, "%d +/- 1" % (B * 3))],
              [lambda: E.renf(p, name, "0 +/- %d" % (B * 2))] if len(Z.all) > 1 else [], [lambda: E.renf("", name, e)], [lambda: E.renf(p, name, 1.5)], [lambda: E.renf(p)], [lambda: E.renf(p, name)], [lambda: E.renf("(" + p, name, e)]][k]
    elif kind == "op": fs = [lambda: x ** 1.5, lambda: x ** None, lambda: x + [1], lambda: x * {}]
    elif kind == "three": fs = [lambda: E.renf_elem(K, 1, 2)]
    elif kind == "nofield": fs = [lambda: E.renf_elem(name), lambda: E.renf_elem("1"), lambda: E.renf_elem("12")]
    else:
        from fractions import Fraction
        fs = [lambda: E.renf_elem(K, object()), lambda: x + object(), lambda: E.renf_elem(K, {})]
    for i, call in enumerate(fs):
        refused, got = raises(call)
        check(refused, "accepts", "%s (%d) gives %s instead of an exception" % (what, i, str(got)[:80]))
    stats["refused"] = 1

def run_realalg(P, stats):
    import realalg
    from pyeantic.realalg_conversion import realalg_nf_to_eantic, realalg_nf_elem_to_eantic
    f, name = P["realalg"], P["name"]
    try:
        R = realalg.RealNumberField(list(f), P["root"])
        R.intervals(15)
        els = [R([Q(c) for c in e]) for e in P["elems"]]
    except (AssertionError, ValueError, ZeroDivisionError, NotImplementedError) as e:      # beyond realalg itself
        if stats is not None: stats["discarded"] = 1
        return
    O = Field(f, P["root"])
    K = realalg_nf_to_eantic(R, name)
    check(K.degree() == O.n and str(K.gen_name()) == name, "realalg", "degree or name of the converted field")
    x = K.gen()
    O.refine(Q(1, 2 ** 30))
    for lo, hi in O.all:                                  # which root?
        pass
    # the generator lies between the separating end points of the oracle's root
    lo, hi = O.all[P["root"]]
    check(x > mpq(cppyy.gbl.std.string(str(lo))) and x < mpq(cppyy.gbl.std.string(str(hi))), "realalg", "the converted field has another root: %s" % repr(x))
    check(float(x) == O.float(O.reduce([0, 1])), "realalg", "generator is %r" % float(x))
    for e, y in zip(P["elems"], els):
        c = O.reduce([Q(t) for t in e])
        z = realalg_nf_elem_to_eantic(K, y)
        check(trim(coefficients(z)) == trim(c), "realalg", "%s converts to %s" % (e, z))
        check((z > 0) == (O.sign(c) > 0) and (z < 0) == (O.sign(c) < 0), "realalg", "sign of " + str(z))
    for n in P["ints"]:
        check(trim(coefficients(realalg_nf_elem_to_eantic(K, int(n)))) == trim([Q(n)]), "realalg", "integer " + n)
    for q in P["rats"]:
        check(trim(coefficients(realalg_nf_elem_to_eantic(K, Q(q)))) == trim([Q(q)]), "realalg", "rational " + q)
    if stats is not None: stats["irrational"] = 3; stats["steps"] = 3

# ---------------------------------------------------------------- drivers
def nontrivial(stats):
    return stats.get("irrational", 0) >= 2 and stats.get("steps", 0) >= 3

def worker(kind, seed_, N, wall, out, cur, pick):
    from hypothesis import given, settings, seed, HealthCheck, Phase
    load()
    prog, alg = generators()
    R = dict(evaluations=0, distinct=[], discarded=0, labels={}, samples=[], failure=None, truncated=False)
    seen, pickles, last = set(), [], {}
    t0 = time.time()
    state = {"first": None}

    def one(P):
        if time.time() - t0 > wall and state["first"] is None:
            R["truncated"] = True
            return
        js = json.dumps(P)
        with open(cur, "w") as g: g.write(js)
        stats = {}
        R["evaluations"] += 1
        try:
            run(P, stats, pickles)
        except Bad as e:
            last.update(program=P, message=str(e)); state["first"] = state["first"] or (P, str(e)); raise
        except Exception as e:
            last.update(program=P, message="exception: %s: %s" % (type(e).__name__, str(e)[:400])); state["first"] = state["first"] or (P, last["message"])
            raise Bad("exception: %s" % type(e).__name__) from e
        if stats.get("discarded"): R["discarded"] += 1
        for l in ("refused", "compared", "pickled"):
            if stats.get(l): R["labels"][l] = R["labels"].get(l, 0) + 1
        if nontrivial(stats):
            h = hashlib.sha256(js.encode()).hexdigest()[:16]
            if h not in seen:
                seen.add(h)
                if len(R["samples"]) < 3 and len(seen) > 20: R["samples"].append(js[:1500])
    test = seed(seed_)(settings(max_examples=N, database=None, deadline=None, derandomize=False, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)(given(prog if kind == "program" else alg)(one)))
    devnull = open(os.devnull, "w")
    try:
        test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        if not last:
            R["error"] = "%s: %s" % (type(e).__name__, str(e)[:500])
        else:
            # the last execution is the smallest one that fails
            R["failure"] = dict(program=last["program"], message=last["message"], first=state["first"][0], first_message=state["first"][1])
    R["distinct"] = sorted(seen)
    with open(pick, "wb") as g: pickle.dump(pickles, g)
    with open(out + ".tmp", "w") as g: json.dump(R, g)
    os.replace(out + ".tmp", out)

def attempt(P, seconds=60):
    """run a program in a child; None if it passes, else a message"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 2); os.dup2(n, 1)
        try:
            run(P); m = "ok"
        except Bad as e: m = str(e)
        except Exception as e: m = "exception: %s: %s" % (type(e).__name__, str(e)[:300])
        os.write(w, m.encode()[:4000]); os._exit(0)
    os.close(w)
    t0 = time.time(); killed = False
    while True:
        q, st = os.waitpid(pid, os.WNOHANG)
        if q: break
        if time.time() - t0 > seconds: os.kill(pid, 9); killed = True; os.waitpid(pid, 0); st = 9; break
        time.sleep(0.005)
    m = os.read(r, 5000).decode(errors="replace"); os.close(r)
    if m == "ok" and st == 0: return None
    if killed: return "hang: does not end within %d s" % seconds
    if m and m != "ok": return m
    return "crash: the process ends with status %d" % st

def shrink(P, seconds):
    m = attempt(P)
    if m is None: return P, None
    t0 = time.time(); tag = m.split(":")[0]
    key = "ops" if "ops" in P else "elems"
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        for k in (4, 2, 1):
            i = 0
            while i < len(P[key]) and time.time() - t0 < seconds:
                Z = dict(P); Z[key] = P[key][:i] + P[key][i + k:]
                n = attempt(Z)
                if n is not None and n.split(":")[0] == tag: P, m, changed = Z, n, True
                else: i += k
    return P, m

def main():
    if sys.argv[1] == "worker":
        a = sys.argv[2:]
        worker(a[0], int(a[1]), int(a[2]), float(a[3]), a[4], a[5], a[6])
    elif sys.argv[1] == "replay":
        t = open(sys.argv[2]).read().splitlines()
        P = json.loads([l for l in t if l.startswith("{")][0])
        load()
        m = attempt(P)
        print("passes" if m is None else m)
        sys.exit(0 if m is None else 1)
    elif sys.argv[1] == "shrink":
        P = json.load(open(sys.argv[2])); load()
        Z, m = shrink(P, float(sys.argv[4]))
        json.dump(dict(program=Z, message=m), open(sys.argv[3], "w"))
    elif sys.argv[1] == "unpickle":
        load(); n = 0
        for b, d, c in pickle.load(open(sys.argv[2], "rb")):
            x = pickle.loads(bytes.fromhex(b)); K = Field([Q(t) for t in d["pol"]], d["root"])
            got = trim(coefficients(x)); want = trim([Q(t) for t in c])
            ok = got == want
            if ok and any(want[1:]):
                v = K.float(K.reduce(want)); ok = str(x.parent().gen_name()) == d["name"] and (math.isinf(v) or float(x) == v) and x.parent() == make(d)
            if not ok:
                print(json.dumps(dict(field=d, coefficients=c, got=repr(x), pickle=b))); sys.exit(1)
            n += 1
        print("ok %d" % n)

if __name__ == "__main__":
    code = 0
    try:
        main()
    except SystemExit as e:
        code = e.code or 0
    sys.stdout.flush()
    os._exit(code)
