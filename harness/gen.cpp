#include "gen.hpp"
#include <cmath>
#include <cstring>
#include <cstdio>

namespace gen {
using namespace pbt;
using orc::Elem;

ZP::ZP(const ZPoly& p) { fmpz_poly_init(v); for (size_t i = 0; i < p.size(); i++) { Z c(p[i]); fmpz_poly_set_coeff_fmpz(v, (slong)i, c.v); } }
ZPoly ZP::get() const { ZPoly p; Z c; for (slong i = 0; i < fmpz_poly_length(v); i++) { fmpz_poly_get_coeff_fmpz(c.v, v, i); p.push_back(c.get()); } return p; }
QP::QP(const QPoly& p) { fmpq_poly_init(v); for (size_t i = 0; i < p.size(); i++) { Q c(p[i]); fmpq_poly_set_coeff_fmpq(v, (slong)i, c.v); } }
QPoly QP::get() const { QPoly p; Q c; for (slong i = 0; i < fmpq_poly_length(v); i++) { fmpq_poly_get_coeff_fmpq(c.v, v, i); p.push_back(c.get()); } return p; }

mpq_class arf_q(const arf_t a) { Q q; arf_get_fmpq(q.v, a); return q.get(); }
bool arb_finite(const arb_t a) { return arf_is_finite(arb_midref(a)) && !mag_is_inf(arb_radref(a)); }
void arb_bounds(mpq_class& lo, mpq_class& hi, const arb_t a) {
    Arf r; arf_set_mag(r.v, arb_radref(a));
    mpq_class m = arf_q(arb_midref(a)), q = arf_q(r.v);
    lo = m - q; hi = m + q;
}
std::string arb_s(const arb_t a) { char* c = arb_get_str(a, 25, ARB_STR_MORE); std::string s(c); flint_free(c); return s; }
void arf_from(arf_t a, const mpq_class& q) { Q x(q); if (!arf_set_fmpq(a, x.v, ARF_PREC_EXACT > 0 ? 100000 : 100000, ARF_RND_NEAR)) {} }

bool tails = true;

mpz_class bits(Src& s, unsigned n) {
    mpz_class r = 0;
    while (n > 0) { unsigned k = std::min(n, 32u); r <<= k; r += (unsigned long)s.draw(k == 64 ? UINT64_MAX : ((1ULL << k) - 1)); n -= k; }
    return r;
}

static const std::vector<int> POW = {1, 2, 7, 8, 15, 16, 24, 30, 31, 32, 33, 52, 53, 54, 60, 61, 62, 63, 64, 65, 96, 127, 128, 192, 256, 1023, 1024};

mpz_class integer(Src& s, unsigned maxbits) {
    mpz_class r;
    if (maxbits >= 40 && rare(s, 100)) {                 // rarely, far larger than usual
        r = bits(s, (unsigned)s.range(maxbits, std::min(3000u, 16 * maxbits)));
        return s.chance(1, 2) ? mpz_class(-r) : r;
    }
    switch (s.pick({4, 3, 4, 3})) {
    case 0: r = (long)s.below(4); break;
    case 1: r = (long)s.below(100); break;
    case 2: {
        size_t n = POW.size();
        while (n > 1 && (unsigned)POW[n - 1] > maxbits) n--;
        r = 1; r <<= (unsigned long)POW[s.below(n)];
        r += (long)s.range(0, 4) - 2;
        break;
    }
    default: r = bits(s, (unsigned)s.range(1, std::max(2u, maxbits))); break;
    }
    return s.chance(1, 2) ? mpz_class(-r) : r;
}
mpz_class nonzero(Src& s, unsigned maxbits) { mpz_class r = integer(s, maxbits); return r == 0 ? mpz_class(1) : r; }
mpq_class rational(Src& s, unsigned maxbits) {
    mpz_class n = integer(s, maxbits), d = s.chance(1, 3) ? mpz_class(1) : mpz_class(abs(nonzero(s, maxbits)));
    mpq_class q(n, d); q.canonicalize();
    return q;
}
long boundary_long(Src& s) {
    static const std::vector<long> v = {0, 1, -1, 2, -2, 3, 7, -7, 32767, -32768, 65535, 65536, -65536, INT32_MAX, INT32_MIN, (long)UINT32_MAX, (long)UINT32_MAX + 1,
        (1L << 62) - 1, 1L << 62, -(1L << 62), -(1L << 62) - 1, (1L << 62) + 1, LONG_MAX, LONG_MAX - 1, LONG_MIN, LONG_MIN + 1, (1L << 53) + 1};
    if (s.chance(1, 3)) return (long)s.draw(UINT64_MAX);
    if (s.chance(1, 3)) return (long)s.range(-1000, 1000);
    return s.one(v);
}
unsigned long boundary_ulong(Src& s) {
    static const std::vector<unsigned long> v = {0, 1, 2, 3, 7, 65535, 65536, INT32_MAX, UINT32_MAX, (1UL << 32), (1UL << 62) - 1, 1UL << 62, (1UL << 62) + 1, LONG_MAX, 1UL << 63, (1UL << 63) + 1, ULONG_MAX, ULONG_MAX - 1};
    if (s.chance(1, 3)) return s.draw(UINT64_MAX);
    if (s.chance(1, 3)) return s.below(1000);
    return s.one(v);
}
bool coarse = false;
slong precision(Src& s) {
    if (rare(s, 20)) return (slong)s.range(2, 7);
    if (coarse && s.chance(3, 4)) return (slong)s.range(8, 20);
    if (rare(s, 60)) return (slong)s.range(1200, 6000);
    switch (s.pick({6, 4, 4, 1})) {
    case 0: return 64;
    case 1: { static const std::vector<long> v = {8, 16, 30, 32, 53, 63, 65, 128, 192, 256}; return s.one(v); }
    case 2: return (slong)s.range(8, 200);
    default: return (slong)s.range(8, 1200);
    }
}

bool irreducible(const ZPoly& p) {
    if (p.size() < 2) return false;
    if (p.size() == 2) return true;
    ZP f(p);
    fmpz_poly_factor_t fac; fmpz_poly_factor_init(fac);
    fmpz_poly_factor(fac, f.v);
    bool r = fac->num == 1 && fac->exp[0] == 1;
    fmpz_poly_factor_clear(fac);
    return r;
}

static ZPoly zp(std::initializer_list<long> l) { ZPoly p; for (long x : l) p.push_back(mpz_class(x)); return p; }

static ZPoly mulp(const ZPoly& a, const ZPoly& b) { ZPoly r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static ZPoly shift(const ZPoly& p, const mpz_class& t) {   // p(x - t): roots move by +t
    ZPoly r{mpz_class(0)}; ZPoly lin{mpz_class(-t), mpz_class(1)};
    for (size_t i = p.size(); i-- > 0;) { r = mulp(r, lin); r[0] += p[i]; orc::trim(r); if (r.empty()) r.push_back(mpz_class(0)); }
    return r;
}

ZPoly irreducible_poly(Src& s, int flags, int maxdeg, const char*& family) {
    static const std::vector<ZPoly> cat = {
        zp({-2, 0, 1}), zp({-1, -1, 1}), zp({-3, 0, 1}), zp({-2, 0, 0, 1}), zp({-1, -1, 0, 1}), zp({1, -3, 0, 1}), zp({-2, 0, 0, 0, 1}),
        zp({5, 0, -5, 0, 1}), zp({1, 0, -10, 0, 1}), zp({-1, -1, 0, 0, 0, 1}), zp({-7, 0, 0, 0, 0, 1}), zp({1, 6, -5, -6, 1, 1}), zp({-2, 0, 0, 0, 0, 0, 1}) };
    ZPoly p;
    if (maxdeg >= 6 && rare(s, 50)) {                    // rarely, a much larger degree
        family = "high-degree";
        int d = (int)s.range(9, s.chance(1, 4) ? 24 : 14);
        switch (s.below(3)) {
        case 0: p.assign((size_t)d + 1, 0); p[(size_t)d] = abs(nonzero(s, 10)); p[0] = -abs(nonzero(s, 10)); break;
        case 1: for (int i = 0; i <= d; i++) p.push_back(mpz_class(s.chance(1, 3) ? 0 : (s.range(0, 20) - 10) * 2)); p[(size_t)d] = 1 + 2 * (long)s.below(3); p[0] = -2 - 4 * (long)s.below(5); break;
        default: { p = {mpz_class(1)}; long r = -s.range(0, d); for (int i = 0; i < d; i++) { ZPoly l{mpz_class(-r), mpz_class(1)}; p = mulp(p, l); r += s.range(1, 2); } for (auto& c : p) c *= 2; p[(size_t)d] += 1; p[0] += 2; if (p[0] % 4 == 0) p[0] += 2; if (d % 2 == 0 && p[0] > 0) p[0] = -p[0]; break; }
        }
        orc::trim(p);
        for (int t = 0; t < 3 && !irreducible(p); t++) { p[0] += 1; if (p[0] == 0) p[0] = 1; }
        if (irreducible(p)) { if (s.chance(1, 4)) for (size_t i = 1; i < p.size(); i += 2) p[i] = -p[i]; return p; }
        p.clear();
    }
    unsigned lin = (flags & (NO_LINEAR | HIGHER)) ? 0 : 3, quad = (flags & HIGHER) ? 0 : 5;
    unsigned mig = (flags & NO_EXTREME) ? 0 : 2, big = (flags & SMALL_ONLY) ? 0 : 3;
    int mind = 3;
    switch (s.pick({4, lin, quad, 6, 3, big, mig, 2})) {
    case 0: { family = "catalog"; size_t base = (flags & HIGHER) ? 3 : 0; p = cat[base + s.below(cat.size() - base)]; if ((int)p.size() - 1 > maxdeg) p = cat[base]; break; }
    case 1: {
        family = "linear";
        unsigned mb = (flags & SMALL_ONLY) ? 6 : (flags & NO_EXTREME) ? 30 : 150;
        p = {integer(s, mb), nonzero(s, mb)};
        return p;
    }
    case 2: {
        family = "quadratic";
        unsigned mb = (flags & SMALL_ONLY) ? 6 : (flags & NO_EXTREME) ? 20 : 90;
        mpz_class a = nonzero(s, mb), b = integer(s, mb), c = nonzero(s, mb);
        if (sgn(a) == sgn(c) && b * b - 4 * a * c <= 0) c = -c;
        p = {c, b, a};
        mpz_class D = b * b - 4 * a * c;
        if (mpz_perfect_square_p(D.get_mpz_t())) { p[0] -= sgn(a); D = b * b - 4 * a * p[0]; if (mpz_perfect_square_p(D.get_mpz_t())) p[0] -= 1; }
        break;
    }
    case 3: {
        family = "random";
        int d = (int)s.range(mind, std::max(mind, maxdeg));
        long B = s.chance(1, 3) ? 100 : 6;
        for (int i = 0; i <= d; i++) p.push_back(mpz_class(s.chance(1, 4) ? 0 : s.range(0, 2 * B) - B));
        if (p[(size_t)d] == 0) p[(size_t)d] = 1;
        if (p[0] == 0) p[0] = 1;
        if (d % 2 == 0 && sgn(p[0]) == sgn(p[(size_t)d])) p[0] = -p[0];
        break;
    }
    case 4: {
        family = "nth-root";
        int d = (int)s.range(2 + ((flags & HIGHER) ? 1 : 0), std::max(3, maxdeg));
        p.assign((size_t)d + 1, 0);
        p[(size_t)d] = abs(nonzero(s, 20)); p[0] = -abs(nonzero(s, 20));
        break;
    }
    case 5: {
        family = "eisenstein-big";
        int d = (int)s.range(mind, std::max(mind, maxdeg));
        unsigned nb = (unsigned)s.range(2, 100);
        for (int i = 0; i <= d; i++) { mpz_class c = bits(s, nb) * 2; if (s.chance(1, 2)) c = -c; p.push_back(c); }
        p[(size_t)d] = p[(size_t)d] + 1; if (p[(size_t)d] == 0) p[(size_t)d] = 1;
        mpz_class c0 = bits(s, nb) * 4 + 2; p[0] = sgn(p[(size_t)d]) > 0 ? mpz_class(-c0) : c0;
        break;
    }
    case 6: {
        family = "mignotte";
        int d = (int)s.range(mind, std::max(mind, maxdeg));
        mpz_class a = bits(s, (unsigned)s.range(2, 16)) + 3;
        p.assign((size_t)d + 1, 0); p[(size_t)d] = 1;
        p[0] -= 2; p[1] += 4 * a; p[2] -= 2 * a * a;      // x^d - 2 (a x - 1)^2
        break;
    }
    default: {
        family = "many-real";
        int d = (int)s.range(mind, std::max(mind, maxdeg > 8 ? maxdeg : std::min(maxdeg, 6)));
        p = {mpz_class(1)};
        long r = s.range(-5, 3);
        for (int i = 0; i < d; i++) { ZPoly l{mpz_class(-r), mpz_class(1)}; p = mulp(p, l); r += s.range(1, 3); }
        for (auto& c : p) c *= 6;
        p[0] += s.range(1, 2);
        break;
    }
    }
    orc::trim(p);
    for (int t = 0; t < 3 && !irreducible(p); t++) { p[0] += 1; if (p[0] == 0) p[0] = 1; }
    if (!irreducible(p)) { family = "fallback"; p = (flags & HIGHER) ? cat[3] : cat[0]; }
    // transformations that keep irreducibility
    if (!(flags & (SMALL_ONLY | NO_EXTREME)) && s.chance(1, 7)) {
        // x -> x 2^k or x 2^-k : tiny and huge roots
        unsigned long k = (unsigned long)s.range(1, s.chance(1, 4) ? 300 : 70);
        if (s.chance(1, 2)) { for (size_t i = 0; i < p.size(); i++) p[i] <<= k * i; family = "scaled-tiny"; }
        else { for (size_t i = 0; i < p.size(); i++) p[i] <<= k * (p.size() - 1 - i); family = "scaled-huge"; }
    }
    if (s.chance(1, 7)) { p = shift(p, integer(s, (flags & (SMALL_ONLY | NO_EXTREME)) ? 10 : 70)); }
    if (s.chance(1, 7)) for (size_t i = 1; i < p.size(); i += 2) p[i] = -p[i];
    return p;
}

FieldSpec spec_from(const QPoly& pol, size_t index, const char* family) {
    FieldSpec F; F.pol = pol; F.f = orc::primitive(pol); F.d = (int)F.f.size() - 1; F.family = family;
    F.roots = orc::real_roots(F.f);
    if (F.roots.empty()) throw Discard{};
    F.index = index % F.roots.size();
    F.K = std::make_shared<orc::Field>(F.f, F.roots[F.index]);
    return F;
}

FieldSpec field(Src& s, int flags, int maxdeg) {
    const char* fam = "";
    ZPoly p = irreducible_poly(s, flags, maxdeg, fam);
    QPoly q(p.begin(), p.end());
    if (s.chance(1, 4)) { mpq_class m = rational(s, 40); if (m == 0) m = mpq_class(-1, 3); for (auto& c : q) c *= m; }
    size_t idx = (size_t)s.below(64);
    FieldSpec F = spec_from(q, 0, fam);
    F.index = idx % F.roots.size();
    F.K = std::make_shared<orc::Field>(F.f, F.roots[F.index]);
    if (pbt::verbose()) NOTE("field: " << F.pol_str("x") << ", real root #" << F.index << " of " << F.roots.size() << " ~ " << mpq_class(F.K->d == 1 ? F.K->r.q : Elem::gen(F.K).approx(60)).get_d() << " (" << fam << ")");
    return F;
}

std::string FieldSpec::pol_str(const std::string& var) const { return orc::str(pol, var); }

void FieldSpec::isolating(mpq_class& lo, mpq_class& hi) const {
    mpq_class c = d == 1 ? K->r.q : Elem::gen(K).approx(8);
    mpq_class R = abs(c) + 2;
    if (index > 0) {
        orc::Field N(f, roots[index - 1]); N.refine(N.r.k + 7); lo = N.hi();        // close to the neighbour
    } else lo = c - 1000000 * R;
    if (index + 1 < roots.size()) { orc::Field N(f, roots[index + 1]); N.refine(N.r.k + 7); hi = N.lo(); }
    else hi = c + 1000000 * R;
}

static mpq_class dyadic_round(const mpq_class& x, long k) {   // nearest-ish multiple of 2^-k below x
    mpq_class y = x * orc::pow2(k);
    return mpq_class(orc::fdiv(y)) * orc::pow2(-k);
}

Ball ball(Src& s, const FieldSpec& F) {
    Ball b;
    if (F.d == 1) {
        mpq_class r = F.K->r.q;
        long t = s.chance(1, 10) ? -s.range(0, 40) : s.range(0, 80);
        if (s.chance(1, 8) && mpz_popcount(r.get_den_mpz_t()) == 1) { b.c = r; b.r = 0; return b; }        // exactly
        b.r = orc::pow2(-t) * (long)s.range(1, 9);
        b.c = dyadic_round(r, t + (long)s.range(0, 20));
        if (s.chance(1, 4)) b.c = dyadic_round(r, t + 2) + b.r / 2;
        if (abs(b.c - r) > b.r) b.c = dyadic_round(r, t + 2);
        return b;
    }
    mpq_class lo, hi; F.isolating(lo, hi);
    Elem g = Elem::gen(F.K);
    size_t kind = coarse && s.chance(3, 4) ? 1 : s.pick({3, 4, 2});
    auto ok = [&](const Ball& x) { return x.c - x.r > lo && x.c + x.r < hi && F.K->cmp_root(x.c - x.r) > 0 && F.K->cmp_root(x.c + x.r) < 0; };
    if (kind == 2) {
        // centered at zero, if that isolates
        for (long e = -20; e < 40; e++) { b.c = 0; b.r = orc::pow2(e); if (ok(b)) return b; }
        kind = 1;
    }
    if (kind == 1) {
        // wide, asymmetric
        mpq_class x = g.approx(40);
        long u = s.range(0, 1000), v = s.range(0, 1000);
        mpq_class wl = x - lo, wr = hi - x;
        if (coarse && F.roots.size() > 1) { if (F.index == 0) wl = wr; if (F.index + 1 == F.roots.size()) wr = wl; }
        else if (F.index == 0 && s.chance(2, 3)) wl = (abs(x) + 1) * orc::pow2(s.range(-4, 6));
        if (!(coarse && F.roots.size() > 1) && F.index + 1 == F.roots.size() && s.chance(2, 3)) wr = (abs(x) + 1) * orc::pow2(s.range(-4, 6));
        mpq_class a = x - wl * (u + 1) / 1002, e = x + wr * (v + 1) / 1002;
        mpq_class c = (a + e) / 2, r = (e - a) / 2;
        long lb = (long)mpz_sizeinbase(r.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(r.get_den_mpz_t(), 2);
        long k = 16 - lb;
        b.r = dyadic_round(r, k);
        b.c = dyadic_round(c, k + (long)s.range(0, 12));
        if (b.r > 0 && ok(b)) return b;
    }
    // tight: increase accuracy until it isolates
    long t = s.range(0, 90), extra = s.range(1, 30);
    for (;; t += 4) {
        mpq_class x = g.approx(t + extra + 2);
        b.c = dyadic_round(x, t + extra);
        if (s.chance(1, 4)) b.c += orc::pow2(-t) * 3 / 4;
        b.r = orc::pow2(-t);
        if (ok(b)) return b;
        if (t > 20000) throw Discard{};
    }
}
void set_arb(arb_t a, const Ball& b) {
    Arf c, r, t; arf_from(c.v, b.c); arf_from(r.v, b.r);
    arf_set(arb_midref(a), c.v);
    // radius is n 2^e with n below 2^30: exact
    long e = -(long)mpz_sizeinbase(b.r.get_den_mpz_t(), 2) + 1;
    mpz_class n = b.r.get_num();
    if (n != 0) { unsigned long z = mpz_scan1(n.get_mpz_t(), 0); n >>= z; e += (long)z; }
    mag_set_ui_2exp_si(arb_radref(a), n.get_ui(), e);
    arf_set_mag(t.v, arb_radref(a));
    if (!n.fits_ulong_p() || arf_cmp(t.v, r.v) != 0) throw Discard{};
}

std::string decimal(const mpq_class& x, int digits, bool up) {
    mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, (unsigned long)digits);
    mpq_class y = abs(x) * p;
    bool u = up == (sgn(x) >= 0);
    mpz_class n = u ? orc::cdiv(y) : orc::fdiv(y);
    std::string t = n.get_str();
    if ((int)t.size() <= digits) t = std::string((size_t)digits + 1 - t.size(), '0') + t;
    if (digits) t.insert(t.size() - (size_t)digits, ".");
    bool zero = n == 0;
    return (sgn(x) < 0 && !zero ? "-" : "") + t;
}

mpq_class decimal_exact(const std::string& t) {
    size_t dot = t.find('.'); if (dot == std::string::npos) return mpq_class(mpz_class(t, 10));
    std::string d = t; d.erase(dot, 1); mpz_class ten; mpz_ui_pow_ui(ten.get_mpz_t(), 10, (unsigned long)(d.size() - dot));
    mpq_class q(mpz_class(d, 10), ten); q.canonicalize(); return q;
}
std::string ball_string(Src& s, const FieldSpec& F, slong prec) {
    for (int tries = 0;; tries++) {
        Ball b = ball(s, F);
        int digits = (int)s.range(0, 30);
        long lb = (long)mpz_sizeinbase(b.r.get_den_mpz_t(), 2) - (long)mpz_sizeinbase(b.r.get_num_mpz_t(), 2);
        if (lb > 0) digits = std::max<int>(digits, (int)(lb * 0.31) + 3);
        std::string c = decimal(b.c, digits, false), r = decimal(b.r, digits, s.chance(1, 2));
        std::string t;
        switch (s.below(3)) { case 0: t = c + " +/- " + r; break; case 1: t = "[" + c + " +/- " + r + "]"; break; default: t = c + "+/-" + r; break; }
        // what the text says, with a little room for rounding it
        mpq_class cc = decimal_exact(c), rr = decimal_exact(r), slack = rr * orc::pow2(-20) + abs(cc) * orc::pow2(-3 * (long)t.size());
        mpq_class lo = cc - rr - slack, hi = cc + rr + slack, L, H; F.isolating(L, H); (void)prec;
        bool ok = F.d == 1 ? (cc - rr <= F.K->r.q && F.K->r.q <= cc + rr) : (lo > L && hi < H && F.K->cmp_root(cc - rr) > 0 && F.K->cmp_root(cc + rr) < 0);
        if (ok) return t;
        if (tries > 6) throw Discard{};
    }
}

void init_cfield(Src& s, CField& C) {
    C.prec = precision(s);
    Ball b = ball(s, C.F);
    QP p(C.F.pol); Arb a; set_arb(a.v, b);
    NOTE("renf_init prec=" << C.prec << " ball=" << arb_s(a.v));
    renf_init(C.nf, p.v, a.v, C.prec);
    C.live = true;
    if (s.chance(1, 8)) { renf_t t; renf_init_set(t, C.nf); renf_clear(C.nf); memcpy(C.nf, t, sizeof(renf)); NOTE("renf_init_set copy"); }
    if (C.F.d > 1 && s.chance(1, 6)) { slong q = (slong)s.range(8, 400); NOTE("renf_refine_embedding " << q); renf_refine_embedding(C.nf, q); }
}
void make_cfield(Src& s, CField& C, int flags, int maxdeg) { C.F = field(s, flags, maxdeg); init_cfield(s, C); }

std::string gen_name(Src& s) {
    static const std::vector<std::string> n = {"x", "a", "b", "alpha", "_", "A1", "x_1", "sqrt2", "e", "E", "zeta12", "_0", "abc"};
    if (rare(s, 40)) { std::string r(1, s.chance(1, 2) ? 'q' : '_'); size_t k = (size_t)s.range(10, 200); static const char c[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; while (r.size() < k) r += c[s.below(63)]; return r; }
    return s.one(n);
}
std::string similar_name(Src& s, const std::string& n) {
    std::string r = n;
    switch (s.below(5)) {
    case 0: r += s.chance(1, 2) ? '_' : '0'; break;
    case 1: r.insert(s.below(r.size()) + 1, 1, s.chance(1, 2) ? 'a' : '1'); break;
    case 2: if (r.size() > 1) r.pop_back(); else r += r; break;
    case 3: { char& c = r[s.below(r.size())]; c = (char)(islower(c) ? toupper(c) : isupper(c) ? tolower(c) : isdigit(c) ? '0' + ('9' - c) : '_'); break; }
    default: { size_t i = r.size() > 1 ? 1 + s.below(r.size() - 1) : 0; if (i) r[i] = r[i] == 'z' ? 'y' : 'z'; else r = r == "b" ? "c" : "b"; break; }
    }
    return r;
}
FieldSpec far_from_zero(Src& s, const FieldSpec& F) {
    mpz_class m = 1; m <<= (unsigned long)s.range(6, 90) + mpz_sizeinbase(F.f.front().get_mpz_t(), 2) / (F.f.size() - 1); if (s.chance(1, 2)) m = -m;
    ZPoly f = shift(F.f, m); QPoly q(f.begin(), f.end());
    return spec_from(q, F.index, "moved");
}
FieldSpec neighbour(Src& s, const FieldSpec& F) {
    if (F.d > 10) return F;
    for (int t = 0; t < 4; t++) {
        ZPoly f = F.f; mpz_class N = 1, c = nonzero(s, 3);
        if (s.chance(2, 3)) N <<= (unsigned long)s.range(0, s.chance(1, 3) ? 300 : 40);
        for (auto& x : f) x *= N;
        size_t i = F.d > 1 && s.chance(1, 2) ? s.below(2) : s.below((uint64_t)F.d + 1);
        f[i] += c;
        if (f.back() == 0 || f.front() == 0 || !irreducible(f)) continue;
        QPoly q(f.begin(), f.end());
        if (orc::primitive(q) == F.f || orc::real_roots(orc::primitive(q)).empty()) continue;
        FieldSpec G = spec_from(q, 0, "neighbour");
        mpq_class x = Elem::gen(F.K).approx(40), best = -1; size_t at = 0;
        for (size_t j = 0; j < G.roots.size(); j++) { orc::Field K(G.f, G.roots[j]); mpq_class d = abs(Elem::gen(std::make_shared<orc::Field>(K)).approx(40) - x); if (best < 0 || d < best) { best = d; at = j; } }
        return spec_from(q, at, "neighbour");
    }
    return F;
}
boost::intrusive_ptr<const eantic::renf_class> make_class(Src& s, const FieldSpec& F, const std::string& name) {
    slong prec = precision(s);
    if (s.chance(1, 3)) {
        Ball b = ball(s, F);
        QP p(F.pol); Arb a; set_arb(a.v, b);
        renf_t nf; renf_init(nf, p.v, a.v, prec);
        auto K = eantic::renf_class::make(nf, name);
        renf_clear(nf);
        NOTE("make(renf_t, " << name << ") prec=" << prec << " ball=" << arb_s(a.v));
        return K;
    }
    if (prec < 30) prec += 30;
    std::string e = ball_string(s, F, prec);
    NOTE("make(" << F.pol_str(name) << ", " << name << ", " << e << ", " << prec << ")");
    return eantic::renf_class::make(F.pol_str(name), name, e, prec);
}

mpq_class convergent(const Elem& e, int depth) {
    mpq_class x = e.approx(4L * depth + 64);
    mpz_class p0 = 1, q0 = 0, p1, q1 = 1;
    mpz_class a = orc::fdiv(x); p1 = a;
    mpq_class r = x - a;
    for (int i = 1; i < depth && r != 0; i++) {
        r = 1 / r; a = orc::fdiv(r); r -= a;
        mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    }
    mpq_class c(p1, q1); c.canonicalize();
    return c;
}

static Elem small_dense(Src& s, const orc::FieldP& K) {
    Elem e(K);
    for (auto& c : e.c) c = (long)(s.range(0, 20) - 10);
    return e;
}

Elem tiny(Src& s, const orc::FieldP& K) {
    if (K->d == 1) { mpq_class q(1); return Elem(K, orc::pow2(-s.range(1, 200)) * (s.chance(1, 2) ? -1 : 1)); }
    Elem g = Elem::gen(K);
    if (s.chance(1, 2)) { g = small_dense(s, K); if (g.is_rational()) g = Elem::gen(K); }
    int depth = K->d <= 8 && rare(s, 60) ? (int)s.range(60, 1000) : (int)s.range(1, 60);
    mpq_class c = convergent(g, depth);
    Elem t = g + mpq_class(-c);
    if (s.chance(1, 2)) t = t * mpq_class(c.get_den());
    if (s.chance(1, 6)) t = t * t;
    return t;
}

Elem elem(Src& s, const orc::FieldP& K, unsigned mb) {
    Elem e(K);
    if (K->d > 8) mb = std::min(mb, 24u);
    switch (s.pick({2, 3, 2, 3, 4, 4, 2, 3, 3, 1})) {
    case 0: e = Elem(K, (long)s.range(0, 4) - 2); break;
    case 1: e = Elem(K, integer(s, mb)); break;
    case 2: e = Elem(K, rational(s, mb)); break;
    case 3: e = Elem::gen(K) * mpq_class((long)s.range(1, 5)) + mpq_class((long)s.range(-5, 5)); if (s.chance(1, 2)) e = -e; break;
    case 4: e = small_dense(s, K); if (s.chance(1, 2)) e = e * mpq_class(1, (long)s.range(1, 30)); break;
    case 5: for (auto& c : e.c) c = rational(s, mb); break;
    case 6: { size_t i = (size_t)s.below((uint64_t)K->d); e.c[i] = rational(s, mb); break; }
    case 7: e = tiny(s, K); break;
    case 8: e = tiny(s, K) + (s.chance(1, 2) ? mpq_class(integer(s, mb)) : rational(s, mb)); break;
    default: e = small_dense(s, K).pow((unsigned long)s.range(1, 6)); break;
    }
    return e;
}

QPoly poly_of(const Elem& e) { QPoly p(e.c.begin(), e.c.end()); orc::trim(p); return p; }

Elem read(const renf_elem_t a, const renf_t nf, const orc::FieldP& K) {
    QP p; nf_elem_get_fmpq_poly(p.v, a->elem, nf->nf);
    QPoly q = p.get();
    if ((int)q.size() > K->d) FAIL("representation", "element has a representation of degree " << q.size() - 1 << " in a field of degree " << K->d);
    Elem e(K);
    for (size_t i = 0; i < q.size(); i++) e.c[i] = q[i];
    return e;
}
void set_direct(renf_elem_t a, const Elem& e, const renf_t nf) { QP p(poly_of(e)); renf_elem_set_fmpq_poly(a, p.v, nf); }

static void build_rec(Src& s, renf_elem_t a, const Elem& e, renf_t nf, int depth) {
    size_t r = depth <= 0 ? 0 : s.pick({6, 2, 2, 3, 1, 1, 1});
    if ((r == 4 || r == 2) && e.is_zero()) r = 0;
    if (r == 4 || r == 2) {          // inverting large elements in fields with large coefficients takes FLINT seconds
        size_t b = 0; for (auto& z : e.K->f) b += mpz_sizeinbase(z.get_mpz_t(), 2);
        for (auto& c : e.c) b += mpz_sizeinbase(c.get_num().get_mpz_t(), 2) + mpz_sizeinbase(c.get_den().get_mpz_t(), 2);
        if (b * (size_t)e.K->d > 12000) r = 5;
    }
    switch (r) {
    case 0: set_direct(a, e, nf); break;
    case 1: { Elem t = elem(s, e.K, 40); CE u(nf), w(nf); build_rec(s, u.v, e - t, nf, depth - 1); set_direct(w.v, t, nf); NOTE("  route: sum with " << t.str()); renf_elem_add(a, u.v, w.v, nf); break; }
    case 2: { Elem t = s.chance(1, 2) ? tiny(s, e.K) : elem(s, e.K, 30); if (t.is_zero()) t = Elem(e.K, 3); CE u(nf), w(nf); build_rec(s, u.v, e * t, nf, depth - 1); set_direct(w.v, t, nf); NOTE("  route: quotient by " << t.str()); renf_elem_div(a, u.v, w.v, nf); break; }
    case 3: { mpz_class b = 1; b <<= (unsigned long)s.range(0, 300); CE u(nf), w(nf); set_direct(w.v, Elem(e.K, b), nf); build_rec(s, u.v, e, nf, depth - 1); NOTE("  route: +- " << b); renf_elem_add(u.v, u.v, w.v, nf); renf_elem_sub(a, u.v, w.v, nf); break; }
    case 4: { CE u(nf); build_rec(s, u.v, e, nf, depth - 1); NOTE("  route: inv inv"); renf_elem_inv(u.v, u.v, nf); renf_elem_inv(a, u.v, nf); break; }
    case 5: { build_rec(s, a, e, nf, depth - 1); slong p = (slong)s.range(2, 300); NOTE("  route: set_evaluation " << p); renf_elem_set_evaluation(a, nf, p); break; }
    default: { CE u(nf); build_rec(s, u.v, -e, nf, depth - 1); NOTE("  route: neg"); renf_elem_neg(a, u.v, nf); break; }
    }
}
void build(Src& s, renf_elem_t a, const Elem& e, renf_t nf) {
    build_rec(s, a, e, nf, 2);
    Elem got = read(a, nf, e.K);
    CHECK(got == e, "build", "an arithmetic identity for " << e.str() << " produced " << got.str());
}

bool encloses(const arb_t b, const Elem& e) {
    if (mag_is_inf(arb_radref(b)) || arf_is_nan(arb_midref(b))) return true;
    if (!arf_is_finite(arb_midref(b))) return false;
    mpq_class lo, hi; arb_bounds(lo, hi, b);
    return e.cmp(lo) >= 0 && e.cmp(hi) <= 0;
}
void check_elem(const char* tag, const renf_elem_t a, const renf_t nf, const Elem& want, const std::string& what, bool enclosure) {
    Elem got = read(a, nf, want.K);
    CHECK(got == want, tag, what << ": got " << got.str() << ", want " << want.str());
    if (enclosure) CHECK(encloses(a->emb, want), "enclosure", what << ": enclosure " << arb_s(a->emb) << " does not contain " << want.str());
}
std::string d_str(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
} // namespace gen
