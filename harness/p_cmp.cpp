// C03: signs and comparisons; C04: floor, ceil, floor division, continued fractions; C05: rounding to doubles.
#include "ops.hpp"
#include <algorithm>
#include <cfloat>
#include <cmath>
using namespace ops; using namespace pbt;

static int sg(int x) { return (x > 0) - (x < 0); }

// an element that is close to (or equal to) x
static Elem near_elem(Src& s, const Elem& x) {
    switch (s.pick({3, 4, 2, 2, 3})) {
    case 0: return x;
    case 1: return x + tiny(s, x.K);
    case 2: return Elem(x.K, x.approx(s.range(0, 200)));
    case 3: return x + mpq_class((long)s.range(-1, 1)) * orc::pow2(-s.range(0, 300));
    default: return elem(s, x.K, 60);
    }
}
// a rational number that is close to (or equal to) x
static mpq_class near_q(Src& s, const Elem& x) {
    switch (s.pick({3, 3, 3, 2, 2})) {
    case 0: return x.approx(s.range(0, 250));
    case 1: return convergent(x, (int)s.range(1, 40));
    case 2: return mpq_class(x.floor() + (long)s.range(-1, 2));
    case 3: return x.is_rational() ? x.c[0] : mpq_class(x.ceil());
    default: return rational(s, 120);
    }
}

static void c03_c(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    Elem x = elem(s, C.F.K, 60), y = near_elem(s, x);
    NOTE("x = " << x.str() << "; y = " << y.str());
    CE a(C.nf), b(C.nf);
    build(s, a.v, x, C.nf); build(s, b.v, y, C.nf);
    int n = (int)s.range(1, 6);
    for (int i = 0; i < n; i++) {
        switch (s.below(8)) {
        case 0: { int r = renf_elem_sgn(a.v, C.nf); NOTE("sgn x"); CHECK(r == x.sign(), "sgn", "sign of " << x.str() << " is reported as " << r); break; }
        case 1: { int r = renf_elem_cmp(a.v, b.v, C.nf); NOTE("cmp x y"); CHECK(sg(r) == x.cmp(y), "cmp", "cmp(" << x.str() << ", " << y.str() << ") = " << r); break; }
        case 2: { int r = renf_elem_cmp(b.v, a.v, C.nf); NOTE("cmp y x"); CHECK(sg(r) == y.cmp(x), "cmp", "cmp(" << y.str() << ", " << x.str() << ") = " << r); break; }
        case 3: { mpq_class q = near_q(s, x); Q c(q); NOTE("cmp x fmpq " << q); int r = renf_elem_cmp_fmpq(a.v, c.v, C.nf); CHECK(sg(r) == x.cmp(q), "cmp_fmpq", "cmp(" << x.str() << ", " << q << ") = " << r);
                  CHECK(!!renf_elem_equal_fmpq(a.v, c.v, C.nf) == (x.cmp(q) == 0), "equal_fmpq", x.str() << " == " << q); break; }
        case 4: { mpz_class q = orc::fdiv(near_q(s, x)); Z c(q); NOTE("cmp x fmpz " << q); int r = renf_elem_cmp_fmpz(a.v, c.v, C.nf); CHECK(sg(r) == x.cmp(q), "cmp_fmpz", "cmp(" << x.str() << ", " << q << ") = " << r);
                  CHECK(!!renf_elem_equal_fmpz(a.v, c.v, C.nf) == (x.cmp(q) == 0), "equal_fmpz", x.str() << " == " << q); break; }
        case 5: { mpz_class f = x.floor() + (long)s.range(-1, 2); slong c = f.fits_slong_p() && s.chance(3, 4) ? f.get_si() : boundary_long(s); NOTE("cmp x si " << c); int r = renf_elem_cmp_si(a.v, c, C.nf); CHECK(sg(r) == x.cmp(mpq_class(c)), "cmp_si", "cmp(" << x.str() << ", " << c << ") = " << r);
                  CHECK(!!renf_elem_equal_si(a.v, c, C.nf) == (x.cmp(mpq_class(c)) == 0), "equal_si", x.str() << " == " << c); break; }
        case 6: { mpz_class f = x.floor() + (long)s.range(-1, 2); ulong c = f.fits_ulong_p() && s.chance(3, 4) ? f.get_ui() : boundary_ulong(s); NOTE("cmp x ui " << c); int r = renf_elem_cmp_ui(a.v, c, C.nf); CHECK(sg(r) == x.cmp(mpq_class(c)), "cmp_ui", "cmp(" << x.str() << ", " << c << ") = " << r);
                  CHECK(!!renf_elem_equal_ui(a.v, c, C.nf) == (x.cmp(mpq_class(c)) == 0), "equal_ui", x.str() << " == " << c); break; }
        default: { NOTE("equal"); CHECK(!!renf_elem_equal(a.v, b.v, C.nf) == (x == y), "equal", x.str() << " == " << y.str()); CHECK(!!renf_elem_equal(a.v, a.v, C.nf), "equal", "x == x"); CHECK(renf_elem_cmp(a.v, a.v, C.nf) == 0, "cmp", "cmp(x, x)"); break; }
        }
        check_elem("value", a.v, C.nf, x, "after a comparison", true);
        check_elem("value", b.v, C.nf, y, "after a comparison", true);
    }
    if (C.F.d > 1 && !(x.is_rational() && y.is_rational())) nontrivial();
}
PROPERTY("C03.c", c03_c, 120000, 1200000, 20, "signs and comparisons of random, often nearly equal, elements, rationals and machine integers with the exact order; non-trivial: an irrational operand");

template <class A, class B> static void six(const A& a, const B& b, int want, const std::string& what) {
    CHECK((a == b) == (want == 0), "op==", what << " ==");
    CHECK((a != b) == (want != 0), "op!=", what << " !=");
    CHECK((a < b) == (want < 0), "op<", what << " <");
    CHECK((a > b) == (want > 0), "op>", what << " >");
    CHECK((a <= b) == (want <= 0), "op<=", what << " <=");
    CHECK((a >= b) == (want >= 0), "op>=", what << " >=");
}

static void c03_cpp(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    Elem x = elem(s, C.F.K, 60), y = near_elem(s, x);
    NOTE("x = " << x.str() << "; y = " << y.str());
    X a = make_x(s, C, x), b = make_x(s, C, y);
    int n = (int)s.range(1, 5);
    for (int i = 0; i < n; i++) {
        switch (s.pick({3, 6, 2, 1})) {
        case 0: NOTE("compare elements"); six(a, b, x.cmp(y), x.str() + " vs " + y.str()); six(b, a, y.cmp(x), y.str() + " vs " + x.str()); break;
        case 1: {
            mpq_class hint = near_q(s, x);
            with_scalar(s, &hint, [&](auto t) {
                mpq_class q = to_q(t); NOTE("compare with (" << tname<decltype(t)>() << ") " << q);
                six(a, t, x.cmp(q), x.str() + " vs " + q.get_str() + " of type " + tname<decltype(t)>());
                six(t, a, -x.cmp(q), q.get_str() + " of type " + tname<decltype(t)>() + " vs " + x.str());
                X r(t); six(a, r, x.cmp(q), x.str() + " vs the rational element " + q.get_str()); six(r, a, -x.cmp(q), "the rational element " + q.get_str() + " vs " + x.str());
            });
            break;
        }
        case 2: NOTE("sgn"); CHECK(a.sgn() == x.sign(), "sgn", "sign of " << x.str() << " is reported as " << a.sgn()); CHECK(bool(a) == !x.is_zero(), "bool", "bool(" << x.str() << ")"); break;
        default: {
            // order a whole sequence
            std::vector<std::pair<X, Elem>> v; int m = (int)s.range(3, 6);
            for (int k = 0; k < m; k++) { Elem e = k == 0 ? x : near_elem(s, v[s.below(v.size())].second); v.emplace_back(make_x(s, C, e), e); }
            std::sort(v.begin(), v.end(), [](auto& p, auto& q) { return p.first < q.first; });
            for (int k = 0; k + 1 < m; k++) CHECK(v[(size_t)k].second.cmp(v[(size_t)k + 1].second) <= 0, "sort", "std::sort placed " << v[(size_t)k].second.str() << " before " << v[(size_t)k + 1].second.str());
            break;
        }
        }
        check_elem("value", a.renf_elem_t(), C.K->renf_t(), x, "after a comparison", true);
    }
    if (C.F.d > 1 && !(x.is_rational() && y.is_rational())) nontrivial();
}
PROPERTY("C03.cpp", c03_cpp, 60000, 600000, 20, "all six relational operators of C++ elements with elements, rationals and every scalar type on both sides, and sorting; non-trivial: an irrational operand");

// two fields: rational members are comparable, irrational ones are refused
static void c03_mixed(Src& s) {
    CppField A = cpp_field(s, NO_EXTREME | NO_LINEAR, 5), B = cpp_field(s, NO_EXTREME, 5);
    if (&*A.K == &*B.K) return;
    Elem x = elem(s, A.F.K, 40), y = elem(s, B.F.K, 40);
    if (s.chance(1, 2)) { mpq_class q = near_q(s, x); y = Elem(B.F.K, q); if (s.chance(1, 4)) x = Elem(A.F.K, q); }
    X a = make_x(s, A, x), b = make_x(s, B, y);
    NOTE("x = " << x.str() << "; y = " << y.str() << " (in another field)");
    if (y.is_rational()) { six(a, b, x.cmp(y.c[0]), x.str() + " vs " + y.str()); six(b, a, -x.cmp(y.c[0]), y.str() + " vs " + x.str()); nontrivial(); }
    else if (x.is_rational()) { six(a, b, -y.cmp(x.c[0]), x.str() + " vs " + y.str()); six(b, a, y.cmp(x.c[0]), y.str() + " vs " + x.str()); nontrivial(); }
    else {
        int thrown = 0;
        try { (void)(a == b); } catch (const std::logic_error&) { thrown++; }
        try { (void)(a < b); } catch (const std::logic_error&) { thrown++; }
        try { (void)(b < a); } catch (const std::logic_error&) { thrown++; }
        CHECK(thrown == 3, "mixed-throw", "comparison of irrational elements of different fields did not throw");
        nontrivial();
    }
    CHECK(&a.parent() == &*A.K && &b.parent() == &*B.K, "parent", "a comparison changed a parent");
    check_elem("value", a.renf_elem_t(), A.K->renf_t(), x, "after a comparison", false);
    check_elem("value", b.renf_elem_t(), B.K->renf_t(), y, "after a comparison", false);
}
PROPERTY("C03.mixed", c03_mixed, 25000, 250000, 20, "comparisons across two random fields: exact when one operand is rational, refused otherwise; non-trivial: the fields differ");

// ------------------------------------------------------------------ C04
// an element close to an integer
static Elem near_int(Src& s, const orc::FieldP& K) {
    mpz_class n = integer(s, rare(s, 60) ? 4000 : s.chance(1, 4) ? 700 : 120);
    switch (s.pick({3, 5, 3, 3})) {
    case 0: return Elem(K, n);
    case 1: return tiny(s, K) + mpq_class(n);
    case 2: return Elem(K, mpq_class(n) + orc::pow2(-s.range(0, 300)) * (long)s.range(-2, 2));
    default: return elem(s, K, 100);
    }
}
static void check_floor(const std::string& how, const mpz_class& got, const mpz_class& want, const std::string& of) {
    CHECK(got == want, how.c_str(), how << " of " << of << " is reported as " << got << " instead of " << want);
}

static void c04_c(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    Elem x = near_int(s, C.F.K);
    CE a(C.nf); build(s, a.v, x, C.nf);
    NOTE("x = " << x.str());
    Z z; if (s.chance(1, 3)) fmpz_set_str(z.v, "-123456789012345678901234567890", 10);
    int n = (int)s.range(1, 4);
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 2)) { NOTE("floor"); renf_elem_floor(z.v, a.v, C.nf); check_floor("floor", z.get(), x.floor(), x.str()); }
        else { NOTE("ceil"); renf_elem_ceil(z.v, a.v, C.nf); check_floor("ceil", z.get(), x.ceil(), x.str()); }
        check_elem("value", a.v, C.nf, x, "after rounding", true);
    }
    if (C.F.d > 1 && !x.is_rational()) nontrivial();
}
PROPERTY("C04.round", c04_c, 90000, 900000, 20, "floor and ceil of random elements, most within a tiny distance of an integer; non-trivial: irrational element");

static void c04_fdiv(Src& s) {
    CField C; make_cfield(s, C, 0, 6); label(C.F.family);
    Elem y = elem(s, C.F.K, 40), x;
    if (y.is_zero()) y = Elem(C.F.K, mpq_class((long)s.range(1, 5)));
    switch (s.pick({3, 4, 2})) {
    case 0: x = elem(s, C.F.K, 60); break;
    case 1: x = y * near_int(s, C.F.K); break;        // quotient close to an integer
    default: x = y * mpq_class(integer(s, 80)); break; // exact quotient
    }
    bool alias = s.chance(1, 20); if (alias) x = y;
    NOTE("x = " << x.str() << "; y = " << y.str());
    CE a(C.nf), b(C.nf); build(s, a.v, x, C.nf); build(s, b.v, y, C.nf);
    mpz_class want = (x * y.inv()).floor();
    Z z; if (s.chance(1, 3)) fmpz_set_str(z.v, "-123456789012345678901234567890", 10);
    renf_elem_fdiv(z.v, alias ? b.v : a.v, b.v, C.nf);
    check_floor("fdiv", z.get(), want, x.str() + " by " + y.str());
    check_elem("value", a.v, C.nf, x, "after floor division", true);
    check_elem("value", b.v, C.nf, y, "after floor division", true);
    if (C.F.d > 1 && !(x.is_rational() && y.is_rational())) nontrivial();
}
PROPERTY("C04.fdiv", c04_fdiv, 70000, 700000, 20, "floor division with quotients that are often integers or nearly so, of both signs; non-trivial: an irrational operand");

static void c04_cfrac(Src& s) {
    CField C; make_cfield(s, C, NO_EXTREME, 5); label(C.F.family);
    Elem x = s.chance(1, 3) ? near_int(s, C.F.K) : elem(s, C.F.K, 60);
    slong n = (slong)s.range(0, rare(s, 40) ? 200 : 25);
    NOTE("cfrac of " << x.str() << ", " << n << " terms");
    // model
    std::vector<mpz_class> want; Elem r = x;
    if (!r.is_zero()) for (slong i = 0; i < n; i++) { mpz_class f = r.floor(); want.push_back(f); r = r + mpq_class(-f); if (r.is_zero()) break; r = r.inv(); if (size_of(r) > 8000) { n = i + 1; break; } }
    CE a(C.nf), rem(C.nf); build(s, a.v, x, C.nf);
    fmpz* c = _fmpz_vec_init(n + 1);
    fmpz_set_si(c + n, 4711);
    bool alias = s.chance(1, 6);
    slong k = renf_elem_get_cfrac(c, alias ? a.v : rem.v, a.v, n, C.nf);
    std::vector<mpz_class> got; for (slong i = 0; i < k && i <= n; i++) { mpz_class t; fmpz_get_mpz(t.get_mpz_t(), c + i); got.push_back(t); }
    bool over = fmpz_equal_si(c + n, 4711);
    _fmpz_vec_clear(c, n + 1);
    CHECK(over, "cfrac-overrun", "more than n partial quotients were written");
    CHECK(got == want, "cfrac", "continued fraction of " << x.str() << " has " << k << " reported terms, " << want.size() << " expected");
    check_elem("cfrac-remainder", alias ? a.v : rem.v, C.nf, r, "remainder of the continued fraction", true);
    if (!alias) check_elem("value", a.v, C.nf, x, "after the continued fraction", true);
    if (C.F.d > 1 && want.size() > 1) nontrivial();
}
PROPERTY("C04.cfrac", c04_cfrac, 15000, 150000, 20, "partial quotients and remainder of continued fractions; non-trivial: degree > 1 and more than one term");

static void c04_cpp(Src& s) {
    CppField C = cpp_field(s, 0, 6); label(C.F.family);
    Elem x = near_int(s, C.F.K); X a = make_x(s, C, x);
    NOTE("x = " << x.str());
    CHECK(a.floor() == x.floor() && eantic::floor(a) == x.floor(), "floor", "floor of " << x.str() << " is " << a.floor());
    CHECK(a.ceil() == x.ceil() && eantic::ceil(a) == x.ceil(), "ceil", "ceil of " << x.str() << " is " << a.ceil());
    Elem y = elem(s, C.F.K, 40); if (y.is_zero()) y = Elem(C.F.K, 2);
    if (s.chance(1, 2)) { x = y * near_int(s, C.F.K); a = make_x(s, C, x); }
    X b = make_x(s, C, y);
    NOTE("floordiv " << x.str() << " by " << y.str());
    mpz_class want = (x * y.inv()).floor();
    check_floor("floordiv", a.floordiv(b), want, x.str() + " by " + y.str());
    if (y.is_rational()) check_floor("floordiv", a.floordiv(X(y.c[0])), want, x.str() + " by the rational element " + y.str());
    if (x.is_rational()) check_floor("floordiv", X(x.c[0]).floordiv(b), want, "the rational element " + x.str() + " by " + y.str());
    // another field
    if (s.chance(1, 3)) {
        CppField D = cpp_field(s, NO_EXTREME, 4);
        Elem u = elem(s, D.F.K, 30); if (u.is_zero()) u = Elem(D.F.K, 3); X w = make_x(s, D, u);
        if (&*D.K != &*C.K) {
            NOTE("floordiv by " << u.str() << " of another field");
            if (u.is_rational()) check_floor("floordiv", a.floordiv(w), (x * mpq_class(1 / u.c[0])).floor(), x.str() + " by " + u.str());
            else if (x.is_rational()) check_floor("floordiv", a.floordiv(w), (u.inv() * x.c[0]).floor(), x.str() + " by " + u.str());
            else { bool t = false; try { a.floordiv(w); } catch (const std::logic_error&) { t = true; } CHECK(t, "floordiv-throw", "floor division of irrational elements of different fields did not throw"); }
        }
    }
    check_elem("value", a.renf_elem_t(), C.K->renf_t(), x, "after floor division", true);
    if (C.F.d > 1 && !x.is_rational()) nontrivial();
}
PROPERTY("C04.cpp", c04_cpp, 40000, 400000, 20, "floor, ceil and floor division through the C++ interface, including rational operands of other fields; non-trivial: irrational element");

// ------------------------------------------------------------------ C05
static mpq_class dq(double d) { mpq_class q; mpq_set_d(q.get_mpq_t(), d); return q; }

static double some_double(Src& s) {
    int e;
    switch (s.pick({4, 2, 3, 2})) {
    case 0: e = (int)s.range(-10, 70); break;
    case 1: e = (int)s.range(-1100, -1000); break;        // around the subnormal range
    case 2: e = (int)s.range(-1022, 1023); break;
    default: e = (int)s.range(1015, 1023); break;
    }
    uint64_t m = s.chance(1, 3) ? 0 : s.chance(1, 3) ? (1ULL << 52) - 1 : s.draw((1ULL << 52) - 1);
    double d = std::ldexp(1.0 + (double)m * 0x1p-52, e);
    if (d == 0) d = 0x1p-1074;
    return s.chance(1, 2) ? -d : d;
}
static Elem near_double(Src& s, const orc::FieldP& K) {
    double d = some_double(s);
    mpq_class q = dq(d), h = dq(std::nextafter(d, s.chance(1, 2) ? INFINITY : -INFINITY) == INFINITY ? DBL_MAX : std::nextafter(d, d > 0 ? 0.0 : -0.0));
    switch (s.pick({3, 3, 3})) {
    case 0: break;                       // the double itself
    case 1: q = (q + h) / 2; break;      // a midpoint
    default: q = q + (h - q) * (long)s.range(0, 1024) / 1024; break;
    }
    if (K->d == 1 || s.chance(1, 4)) { if (s.chance(1, 2)) q += orc::pow2(-s.range(0, 1300)) * (long)s.range(-1, 1); return Elem(K, q); }
    // relative to the size of q
    Elem t = tiny(s, K); 
    if (s.chance(2, 3) && q != 0) t = t * mpq_class(q * orc::pow2(-s.range(0, 120)));
    else if (s.chance(1, 2)) t = t * orc::pow2(-s.range(1000, 1200));
    return t + q;
}
static int xcmp(const Elem& x, const mpq_class& q) { return x.cmp(q); }
// is d an acceptable result of rounding x?
static bool rounded(const Elem& x, double d, arf_rnd_t rnd, std::string& why) {
    static const mpq_class MAX = dq(DBL_MAX);
    int sx = x.sign();
    if (std::isnan(d)) { why = "nan"; return false; }
    if (sx == 0) { why = "zero"; return d == 0; }
    if (rnd == ARF_RND_UP) rnd = sx > 0 ? ARF_RND_CEIL : ARF_RND_FLOOR;
    if (rnd == ARF_RND_DOWN) rnd = sx > 0 ? ARF_RND_FLOOR : ARF_RND_CEIL;
    bool big = xcmp(x, MAX) > 0, small = xcmp(x, -MAX) < 0;
    // out of range: infinity of the right sign, or the IEEE result
    if (big && d == INFINITY) return true;
    if (small && d == -INFINITY) return true;
    if (std::isinf(d)) { why = "infinite"; return false; }
    if ((d > 0 && sx < 0) || (d < 0 && sx > 0)) { why = "sign"; return false; }
    mpq_class q = dq(d);
    double nu = std::nextafter(d, INFINITY), nd = std::nextafter(d, -INFINITY);
    int c = xcmp(x, q);
    if (c == 0) return true;
    why = "not the closest double in this direction";
    switch (rnd) {
    case ARF_RND_FLOOR: return c > 0 && (nu == INFINITY || xcmp(x, dq(nu)) < 0);
    case ARF_RND_CEIL: return c < 0 && (nd == -INFINITY || xcmp(x, dq(nd)) > 0);
    default: {
        mpq_class up = nu == INFINITY ? mpq_class(MAX + (MAX - dq(std::nextafter(DBL_MAX, 0)))) : dq(nu), dn = nd == -INFINITY ? mpq_class(-MAX - (MAX - dq(std::nextafter(DBL_MAX, 0)))) : dq(nd);
        mpq_class mu = (q + up) / 2, md = (q + dn) / 2;
        int a = xcmp(x, mu), b = xcmp(x, md);
        if (a > 0 || b < 0) { why = "a neighbour is closer"; return false; }
        if (a == 0 || b == 0) {   // tie: even mantissa
            uint64_t bits; memcpy(&bits, &d, 8);
            why = "tie is not rounded to even";
            return (bits & 1) == 0;
        }
        return true;
    }
    }
}
static const arf_rnd_t RND[] = {ARF_RND_NEAR, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_UP, ARF_RND_DOWN};
static const char* RNDN[] = {"near", "floor", "ceil", "up", "down"};

static void c05_c(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    Elem x = s.chance(3, 4) ? near_double(s, C.F.K) : elem(s, C.F.K, 200);
    NOTE("x = " << x.str());
    CE a(C.nf); build(s, a.v, x, C.nf);
    int n = (int)s.range(1, 5);
    for (int i = 0; i < n; i++) {
        size_t m = s.below(5);
        double d = renf_elem_get_d(a.v, C.nf, RND[m]);
        std::string why;
        NOTE("get_d " << RNDN[m] << " -> " << d_str(d));
        CHECK(rounded(x, d, RND[m], why), "get_d", x.str() << " rounded '" << RNDN[m] << "' to " << d_str(d) << ": " << why);
        check_elem("value", a.v, C.nf, x, "after conversion to double", true);
    }
    if (C.F.d > 1 && !x.is_rational()) nontrivial();
    if (x.is_rational()) label("rational");
}
PROPERTY("C05.c", c05_c, 90000, 900000, 20, "conversion to double in the five rounding modes of elements at or near doubles, midpoints, subnormals and the largest double; non-trivial: irrational element");

static void c05_cpp(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    Elem x = s.chance(3, 4) ? near_double(s, C.F.K) : elem(s, C.F.K, 200);
    NOTE("x = " << x.str());
    X a = make_x(s, C, x);
    double d = static_cast<double>(a); std::string why;
    CHECK(rounded(x, d, ARF_RND_NEAR, why), "double", x.str() << " converted to " << d_str(d) << ": " << why);
    if (x.is_rational()) { double e = static_cast<double>(X(x.c[0])); CHECK(rounded(x, e, ARF_RND_NEAR, why), "double", "rational " << x.str() << " converted to " << d_str(e) << ": " << why); }
    // monotone (out of range, an element may become infinite or the largest double)
    if (std::isinf(d) || std::fabs(d) == DBL_MAX) return;
    Elem y = near_elem(s, x); X b = make_x(s, C, y); double e = static_cast<double>(b);
    int c = x.cmp(y);
    CHECK(!(c < 0 && d > e) && !(c > 0 && d < e) && !(c == 0 && d != e), "double-monotone", "conversion to double of " << x.str() << " and " << y.str() << " is not monotone");
    if (C.F.d > 1 && !x.is_rational()) nontrivial();
}
PROPERTY("C05.cpp", c05_cpp, 40000, 400000, 20, "conversion of C++ elements to the closest double, and its monotonicity; non-trivial: irrational element");
