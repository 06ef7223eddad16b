// C01: every arithmetic entry point computes the exact field operation.
// C02: every enclosure contains the true value.
#include "ops.hpp"
using namespace ops; using namespace pbt;

static void c01_c(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    Regs R(s, C, 3);
    int n = rare(s, 40) ? (int)s.range(13, 60) : (int)s.range(1, 12);
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 6)) R.observe(s);
        R.arith(s);
        for (size_t k = 0; k < R.r.size(); k++) R.check(k, "value", false, "after " + R.last);
    }
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C01.c", c01_c, 90000, 900000, 20, "random history of C arithmetic (all operand types, aliased registers) in a random field against an exact GMP model; non-trivial: field of degree > 1");

// One C++ operation on register x (model e); may produce into y.
template <class T> static void scalar_op(Src& s, const CppField& C, X& x, Elem& e, const T& t) {
    mpq_class q = to_q(t);
    int op = (int)s.below(14);
    if (q == 0 && (op == 3 || op == 10)) op = 0;
    if (e.is_zero() && op == 11) op = 1;
    NOTE("op " << op << " with (" << tname<T>() << ") " << q);
    switch (op) {
    case 0: { X& r = (x += t); CHECK(&r == &x, "ref", "+= does not return its left operand"); e = e + q; break; }
    case 1: { X& r = (x -= t); CHECK(&r == &x, "ref", "-= does not return its left operand"); e = e + mpq_class(-q); break; }
    case 2: { X& r = (x *= t); CHECK(&r == &x, "ref", "*= does not return its left operand"); e = e * q; break; }
    case 3: { X& r = (x /= t); CHECK(&r == &x, "ref", "/= does not return its left operand"); e = e * mpq_class(1 / q); break; }
    case 4: x = x + t; e = e + q; break;
    case 5: x = t + x; e = e + q; break;
    case 6: x = x - t; e = e + mpq_class(-q); break;
    case 7: x = t - x; e = -e + q; break;
    case 8: x = x * t; e = e * q; break;
    case 9: x = t * x; e = e * q; break;
    case 10: x = x / t; e = e * mpq_class(1 / q); break;
    case 11: x = t / x; e = e.inv() * q; break;
    case 12: x = X(*C.K, t); e = Elem(e.K, q); break;
    default: { X y(t); x = X(*C.K, y); e = Elem(e.K, q); break; }
    }
}

static void c01_cpp(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    std::vector<X> x; std::vector<Elem> v;
    for (int i = 0; i < 3; i++) { v.push_back(elem(s, C.F.K, 60)); NOTE("x" << i << " = " << v.back().str()); x.push_back(make_x(s, C, v.back())); }
    int n = rare(s, 40) ? (int)s.range(11, 50) : (int)s.range(1, 10);
    for (int k = 0; k < n; k++) {
        size_t d = s.below(3), a = s.below(3), b = s.below(3);
        for (size_t i : {d, a, b}) if (size_of(v[i]) > 6000) { v[i] = Elem::gen(C.F.K); x[i] = C.K->gen(); }
        if (s.chance(1, 2)) with_scalar(s, nullptr, [&](auto t) { scalar_op(s, C, x[d], v[d], t); });
        else {
            int op = (int)s.below(12);
            if (v[b].is_zero() && (op == 3 || op == 7)) op = 0;
            NOTE("op " << op << " x" << d << " x" << a << " x" << b);
            switch (op) {
            case 0: x[d] += x[b]; v[d] = v[d] + v[b]; break;
            case 1: x[d] -= x[b]; v[d] = v[d] - v[b]; break;
            case 2: x[d] *= x[b]; v[d] = v[d] * v[b]; break;
            case 3: x[d] /= x[b]; v[d] = v[d] * v[b].inv(); break;
            case 4: x[d] = x[a] + x[b]; v[d] = v[a] + v[b]; break;
            case 5: x[d] = x[a] - x[b]; v[d] = v[a] - v[b]; break;
            case 6: x[d] = x[a] * x[b]; v[d] = v[a] * v[b]; break;
            case 7: x[d] = x[a] / x[b]; v[d] = v[a] * v[b].inv(); break;
            case 8: x[d] = -x[a]; v[d] = -v[a]; break;
            case 9: x[d] = +x[a]; v[d] = v[a]; break;
            case 10: {
                int e = (int)s.range(-5, 8);
                if (s.chance(1, 12)) { e = (int)s.range(9, s.chance(1, 6) ? 300 : 60); if (s.chance(1, 3)) e = -e; }
                bool unit = v[a].is_rational() && (v[a].c[0] == 0 || abs(v[a].c[0]) == 1);
                if (unit && arb_is_exact(x[a].renf_elem_t()->emb) && s.chance(1, 3)) { static const std::vector<int> big = {INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 65536, -65537, 1 << 30}; e = s.one(big); }
                else if (size_of(v[a]) * (size_t)std::abs(e) > 9000) e = size_of(v[a]) > 1500 ? 1 : (int)s.range(-5, 8);
                if (v[a].is_zero() && e < 0) e = e == INT_MIN ? INT_MAX : -e;
                x[d] = s.chance(1, 2) ? x[a].pow(e) : eantic::pow(x[a], e);
                Elem w = unit ? (e % 2 ? v[a] : e == 0 ? Elem(C.F.K, 1) : v[a] * v[a]) : e < 0 ? v[a].inv().pow((unsigned long)-e) : v[a].pow((unsigned long)e);
                NOTE("  exponent " << e);
                v[d] = w; break;
            }
            default: { X z = s.below(2) ? C.K->zero() : C.K->one(); Elem w(C.F.K, z.is_one() ? 1 : 0); x[d] = z * x[a]; v[d] = w * v[a]; break; }
            }
        }
        for (size_t i = 0; i < 3; i++) {
            if (&x[i].parent() == &eantic::renf_class::make() && v[i].is_rational()) {       // e.g. 1 - x for rational x
                CHECK(read_x(x[i], rational_field()).c[0] == v[i].c[0], "value", "x" << i << " in the rationals is not " << v[i].str());
                x[i] = X(*C.K, x[i]);
            }
            CHECK(&x[i].parent() == &*C.K, "parent", "x" << i << " moved to another field");
            check_elem("value", x[i].renf_elem_t(), C.K->renf_t(), v[i], "x" + std::to_string(i), false);
        }
    }
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C01.cpp", c01_cpp, 70000, 700000, 20, "random history of C++ operators (all scalar types on both sides, aliasing) in a random field against the model; non-trivial: field of degree > 1");

static void c02_ops(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    Elem g = Elem::gen(C.F.K);
    Regs R(s, C, 3);
    int n = (int)s.range(1, 8);
    bool finite = false;
    for (int i = 0; i < n; i++) {
        if (s.chance(1, 4)) R.observe(s);
        R.arith(s);
        for (size_t k = 0; k < R.r.size(); k++) R.check(k, "value", true, "after " + R.last);
        CHECK(encloses(C.nf->emb, g), "generator", "the enclosure of the generator lost the root");
        if (s.chance(1, 3)) {
            size_t k = s.below(R.r.size());
            slong p = s.chance(1, 3) ? (slong)s.range(2, 600) : precision(s);
            Arb x; if (s.chance(1, 2)) arb_set_si(x.v, 12345);
            NOTE("get_arb r" << k << " prec " << p);
            renf_elem_get_arb(x.v, R.r[k]->v, C.nf, p);
            CHECK(arb_finite(x.v) && encloses(x.v, R.v[k]), "get_arb", "get_arb of " << R.v[k].str() << " at " << p << " bits returned " << arb_s(x.v));
            mpq_class lo, hi; arb_bounds(lo, hi, x.v);
            mpq_class rad = (hi - lo) / 2, mid = abs(mpq_class((hi + lo) / 2));
            CHECK(rad * orc::pow2(p) <= mid + rad, "get_arb-accuracy", "get_arb of " << R.v[k].str() << " at " << p << " bits returned " << arb_s(x.v));
            R.check(k, "value", true, "after get_arb");
            NOTE("check_embedding");
            renf_elem_check_embedding(R.r[k]->v, C.nf, p);
            R.check(k, "value", true, "after check_embedding");
            finite = true;
        }
        for (auto& c : R.r) finite |= arb_finite(c->v->emb);
    }
    if (finite && C.F.d > 1) nontrivial();
}
PROPERTY("C02.ops", c02_ops, 90000, 900000, 20, "random history of operations, observations and conversions to balls; every enclosure is compared exactly with the true value; non-trivial: field of degree > 1 and a finite enclosure was checked");

// enclosure of polynomial evaluation at a ball
static void c02_eval(Src& s) {
    int d = rare(s, 30) ? (int)s.range(8, 60) : (int)s.range(0, 7);
    QPoly q; for (int i = 0; i <= d; i++) q.push_back(s.chance(1, 5) ? mpq_class(0) : rational(s, s.chance(1, 2) ? 8 : 100));
    orc::trim(q);
    bool z = s.chance(1, 2);
    if (z) for (auto& c : q) c = mpq_class(c.get_num());
    Ball b; long e = s.range(-60, 60);
    b.c = mpq_class(integer(s, 70)) * orc::pow2(e);
    b.r = s.chance(1, 4) ? mpq_class(0) : mpq_class((long)s.range(1, 1000)) * orc::pow2(s.range(-80, 20));
    Arb x; set_arb(x.v, b);
    slong prec = (slong)s.range(2, 200);
    NOTE("p = " << orc::str(q) << " at " << arb_s(x.v) << " prec " << prec << (z ? " (integer)" : ""));
    Arb y; bool alias = s.chance(1, 3); if (alias) arb_set(y.v, x.v);
    if (z) { ZPoly zp; for (auto& c : q) zp.push_back(c.get_num()); ZP p(zp); fmpz_poly_evaluate_arb(y.v, p.v, alias ? y.v : x.v, prec); }
    else { QP p(q); fmpq_poly_evaluate_arb(y.v, p.v, alias ? y.v : x.v, prec); }
    if (!arb_finite(y.v)) { label("indeterminate"); return; }
    mpq_class lo, hi; arb_bounds(lo, hi, y.v);
    for (int i = 0; i < 6; i++) {
        mpq_class t = i == 0 ? mpq_class(b.c) : i == 1 ? mpq_class(b.c - b.r) : i == 2 ? mpq_class(b.c + b.r) : mpq_class(b.c + b.r * (long)s.range(-1000, 1000) / 1000);
        mpq_class w = orc::eval(q, t);
        CHECK(lo <= w && w <= hi, "evaluate", "value " << w.get_d() << " at " << t.get_d() << " is outside of " << arb_s(y.v));
    }
    // evaluation at a floating point number is exact when the precision suffices
    Arf f, g; arf_from(f.v, b.c);
    if (z) { ZPoly zp; for (auto& c : q) zp.push_back(c.get_num()); ZP p(zp); bool al = s.chance(1, 3); if (al) arf_set(g.v, f.v); fmpz_poly_evaluate_arf(g.v, p.v, al ? g.v : f.v, 100000); CHECK(arf_q(g.v) == orc::eval(q, b.c), "evaluate-arf", "exact evaluation"); }
    else { QP p(q); bool al = s.chance(1, 3); if (al) arf_set(g.v, f.v); fmpq_poly_evaluate_arf(g.v, p.v, al ? g.v : f.v, 100000); mpq_class w = orc::eval(q, b.c); CHECK(abs(mpq_class(arf_q(g.v) - w)) <= abs(w) * orc::pow2(-90000), "evaluate-arf", "evaluation at a floating point number"); }
    if (d >= 1 && q.size() >= 2) nontrivial();
}
PROPERTY("C02.eval", c02_eval, 60000, 500000, 30, "random polynomial evaluated at a random ball; exact values at sampled points of the ball must lie in the result; non-trivial: degree >= 1 with finite result");
