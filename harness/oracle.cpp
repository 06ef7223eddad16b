#include "oracle.hpp"
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <cassert>

namespace orc {

template <class C> static std::string strp(const std::vector<C>& p, const std::string& var) {
    std::ostringstream o; bool first = true;
    for (size_t i = p.size(); i-- > 0;) {
        if (p[i] == 0) continue;
        if (!first) o << (sgn(p[i]) > 0 ? "+" : "");
        first = false;
        o << p[i];
        if (i) o << "*" << var;
        if (i > 1) o << "^" << i;
    }
    return first ? "0" : o.str();
}
std::string str(const ZPoly& p, const std::string& var) { return strp(p, var); }
std::string str(const QPoly& p, const std::string& var) { return strp(p, var); }
void trim(ZPoly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
void trim(QPoly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }

static void make_primitive(ZPoly& p) {
    trim(p);
    mpz_class g = 0;
    for (auto& c : p) g = gcd(g, c);
    if (g > 1) for (auto& c : p) mpz_divexact(c.get_mpz_t(), c.get_mpz_t(), g.get_mpz_t());
}

ZPoly primitive(const QPoly& p) {
    mpz_class l = 1;
    for (auto& c : p) l = lcm(l, c.get_den());
    ZPoly z;
    for (auto& c : p) z.push_back(c.get_num() * (l / c.get_den()));
    make_primitive(z);
    return z;
}

mpq_class pow2(long k) {
    mpq_class r(1);
    if (k >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), (unsigned long)k);
    else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), (unsigned long)-k);
    return r;
}

static mpz_class eval_scaled(const ZPoly& p, const mpz_class& n, long k) {
    // p(n/2^k) * 2^(k deg)
    if (p.empty()) return 0;
    mpz_class acc = p.back(), t;
    size_t d = p.size() - 1;
    for (size_t i = d; i-- > 0;) {
        acc *= n;
        if (p[i] != 0) {
            mpz_mul_2exp(t.get_mpz_t(), p[i].get_mpz_t(), (unsigned long)k * (unsigned long)(d - i));
            acc += t;
        }
    }
    return acc;
}
int sgn_at(const ZPoly& p, const mpz_class& n, long k) { return sgn(eval_scaled(p, n, k)); }
int sgn_at(const ZPoly& p, const mpq_class& x) {
    if (p.empty()) return 0;
    mpz_class acc = p.back(), dp = 1;
    for (size_t i = p.size() - 1; i-- > 0;) { dp *= x.get_den(); acc = acc * x.get_num() + p[i] * dp; }
    return sgn(acc);
}
mpq_class eval(const ZPoly& p, const mpq_class& x) { mpq_class a = 0; for (size_t i = p.size(); i-- > 0;) a = a * x + p[i]; return a; }
mpq_class eval(const QPoly& p, const mpq_class& x) { mpq_class a = 0; for (size_t i = p.size(); i-- > 0;) a = a * x + p[i]; return a; }
ZPoly derivative(const ZPoly& p) { ZPoly r; for (size_t i = 1; i < p.size(); i++) r.push_back(p[i] * (unsigned long)i); return r; }

// remainder of a by b, times a positive constant
static ZPoly prem_pos(ZPoly a, const ZPoly& b) {
    while (a.size() >= b.size() && !a.empty()) {
        mpz_class l = b.back(), s = a.back();
        mpz_class al = abs(l);
        int sl = sgn(l);
        for (auto& c : a) c *= al;
        size_t off = a.size() - b.size();
        for (size_t i = 0; i < b.size(); i++) a[i + off] -= sl * s * b[i];
        trim(a);
        make_primitive(a);
    }
    return a;
}
static ZPoly gcdp(ZPoly a, ZPoly b) {
    make_primitive(a); make_primitive(b);
    while (!b.empty()) { ZPoly r = prem_pos(a, b); make_primitive(r); a = b; b = r; }
    return a;
}
static ZPoly div_exact(const ZPoly& a, const ZPoly& b) {
    QPoly r(a.begin(), a.end()), q(a.size() - b.size() + 1);
    for (size_t i = q.size(); i-- > 0;) {
        q[i] = r[i + b.size() - 1] / b.back();
        for (size_t j = 0; j < b.size(); j++) r[i + j] -= q[i] * b[j];
    }
    return primitive(q);
}
ZPoly squarefree(const ZPoly& p0) {
    ZPoly p = p0; make_primitive(p);
    if (p.size() <= 2) return p;
    ZPoly g = gcdp(p, derivative(p));
    if (g.size() <= 1) return p;
    ZPoly q = div_exact(p, g);
    return q;
}

Sturm::Sturm(const ZPoly& p0) {
    ZPoly p = squarefree(p0);
    chain.push_back(p);
    if (p.size() <= 1) return;
    ZPoly q = derivative(p); make_primitive(q);
    while (!q.empty()) {
        chain.push_back(q);
        ZPoly r = prem_pos(chain[chain.size() - 2], q);
        for (auto& c : r) c = -c;
        make_primitive(r);
        q = r;
    }
}
int Sturm::variations(const mpq_class& x) const {
    int v = 0, last = 0;
    for (auto& p : chain) { int s = sgn_at(p, x); if (s) { if (last && s != last) v++; last = s; } }
    return v;
}
int Sturm::variations_inf(int sign) const {
    int v = 0, last = 0;
    for (auto& p : chain) {
        if (p.empty()) continue;
        int s = sgn(p.back()); if (sign < 0 && p.size() % 2 == 0) s = -s;
        if (s) { if (last && s != last) v++; last = s; }
    }
    return v;
}
long Sturm::count(const mpq_class& a, const mpq_class& b) const { return variations(a) - variations(b); }
long Sturm::total() const { return variations_inf(-1) - variations_inf(1); }

static void isolate(const Sturm& S, const ZPoly& f, const mpz_class& L, const mpz_class& H, long k, int vL, int vH, std::vector<Root>& out) {
    // roots in (L/2^k, H/2^k]
    long n = vL - vH;
    if (n == 0) return;
    if (n == 1) {
        int sl = sgn_at(f, L, k), shh = sgn_at(f, H, k);
        if (shh == 0) { Root r; r.exact = true; r.q = mpq_class(H) * pow2(-k); r.q.canonicalize(); out.push_back(r); return; }
        if (sl != 0) {
            Root r; r.L = L; r.H = H; r.k = k; out.push_back(r); return;
        }
        // left end is another root: subdivide
    }
    mpz_class M = L + H; long k2 = k + 1;
    mpz_class L2 = 2 * L, H2 = 2 * H;
    mpq_class m = mpq_class(M) * pow2(-k2); m.canonicalize();
    int vM = S.variations(m);
    isolate(S, f, L2, M, k2, vL, vM, out);
    isolate(S, f, M, H2, k2, vM, vH, out);
}

std::vector<Root> real_roots(const ZPoly& p) {
    std::vector<Root> out;
    Sturm S(p);
    ZPoly f = S.chain[0];
    if (f.size() <= 1) return out;
    if (f.size() == 2) { Root r; r.exact = true; r.q = mpq_class(-f[0], f[1]); r.q.canonicalize(); out.push_back(r); return out; }
    // Cauchy bound
    size_t b = 0;
    for (auto& c : f) b = std::max(b, mpz_sizeinbase(c.get_mpz_t(), 2));
    long B = (long)b - (long)mpz_sizeinbase(f.back().get_mpz_t(), 2) + 3;
    if (B < 1) B = 1;
    mpz_class N = 1; N <<= (unsigned long)B;
    mpz_class mN = -N;
    isolate(S, f, mN, N, 0, S.variations(mpq_class(mN)), S.variations(mpq_class(N)), out);
    return out;
}

Field::Field(const ZPoly& f_, const Root& r_) : f(f_), d((int)f_.size() - 1), r(r_) {
    for (int i = 0; i < d; i++) { mpq_class q(-f[(size_t)i], f[(size_t)d]); q.canonicalize(); red.push_back(q); }
    if (d == 1) { r.exact = true; r.q = red[0]; }
}
mpq_class Field::lo() const { if (r.exact) return r.q; mpq_class x(r.L); return x * pow2(-r.k); }
mpq_class Field::hi() const { if (r.exact) return r.q; mpq_class x(r.H); return x * pow2(-r.k); }

void Field::step(long K) {
    if (r.H - r.L != 1) {
        mpz_class w = r.H - r.L;
        mpz_class M = r.L + r.H;
        long k2 = r.k;
        if (mpz_odd_p(M.get_mpz_t())) { r.L *= 2; r.H *= 2; k2++; r.k = k2; } else M /= 2;
        int s = sgn_at(f, M, r.k);
        if (s == 0) throw std::logic_error("oracle: rational root");
        if (s == sgn_at(f, r.L, r.k)) r.L = M; else r.H = M;
        // once the width is a power of two, scale down
        mpz_class ww = r.H - r.L;
        while (r.k > 0 && ww > 1 && mpz_even_p(r.L.get_mpz_t()) && mpz_even_p(r.H.get_mpz_t())) { r.L /= 2; r.H /= 2; r.k--; ww /= 2; }
        if (ww != 1 && w == ww) throw std::logic_error("oracle: no progress");
        return;
    }
    // quadratic interval refinement
    long g = std::min(gain, std::max(1L, K - r.k));
    mpz_class fl = eval_scaled(f, r.L, r.k), fh = eval_scaled(f, r.H, r.k);
    mpz_class num = fl << (unsigned long)g, den = fl - fh, off;
    mpz_fdiv_q(off.get_mpz_t(), num.get_mpz_t(), den.get_mpz_t());
    mpz_class a = (r.L << (unsigned long)g) + off, b = a + 1;
    long k2 = r.k + g;
    int sl = sgn(fl);
    int sa = sgn_at(f, a, k2), sb = sgn_at(f, b, k2);
    if (sa == sl && sb == -sl) { r.L = a; r.H = b; r.k = k2; gain = g * 2; return; }
    // neighbours
    if (sa == -sl) {
        mpz_class c = a - 1;
        if (c >= (r.L << (unsigned long)g) && sgn_at(f, c, k2) == sl) { r.L = c; r.H = a; r.k = k2; gain = g * 2; return; }
    } else if (sb == sl) {
        mpz_class c = b + 1;
        if (c <= (r.H << (unsigned long)g) && sgn_at(f, c, k2) == -sl) { r.L = b; r.H = c; r.k = k2; gain = g * 2; return; }
    }
    gain = std::max(1L, gain / 2);
    // one bisection
    mpz_class M = 2 * r.L + 1;
    int s = sgn_at(f, M, r.k + 1);
    if (s == 0) throw std::logic_error("oracle: rational root");
    r.k++;
    if (s == sl) { r.L = M; r.H = M + 1; } else { r.H = M; r.L = M - 1; }
}
void Field::refine(long K) {
    if (r.exact) return;
    while (r.k < K || r.H - r.L != 1) step(K);
}
int Field::cmp_root(const mpq_class& x) {
    if (r.exact) return cmp(r.q, x) < 0 ? -1 : cmp(r.q, x) > 0;
    if (x <= lo()) return 1;
    if (x >= hi()) return -1;
    int s = sgn_at(f, x), sl = sgn_at(f, r.L, r.k);
    if (s == 0) return 0;
    return s == sl ? 1 : -1;
}

Elem Elem::gen(const FieldP& K) { Elem e(K); if (K->d == 1) e.c[0] = K->r.q; else e.c[1] = 1; return e; }
Elem Elem::from(const FieldP& K, const QPoly& p0) {
    QPoly p = p0; size_t d = (size_t)K->d;
    for (size_t i = p.size(); i-- > d;) {
        if (p[i] == 0) continue;
        mpq_class t = p[i];
        p[i] = 0;
        for (size_t j = 0; j < d; j++) p[i - d + j] += t * K->red[j];
    }
    Elem e(K);
    for (size_t i = 0; i < d && i < p.size(); i++) e.c[i] = p[i];
    return e;
}
bool Elem::is_zero() const { for (auto& x : c) if (x != 0) return false; return true; }
bool Elem::is_rational() const { for (size_t i = 1; i < c.size(); i++) if (c[i] != 0) return false; return true; }
bool Elem::is_integer() const { return is_rational() && c[0].get_den() == 1; }
mpz_class Elem::den() const { mpz_class l = 1; for (auto& x : c) l = lcm(l, x.get_den()); return l; }

// value enclosure: num / (den 2^(k m)) +- err / (den 2^(k m))
static void enclose(const Elem& e, long k, mpz_class& v, mpz_class& err, mpz_class& den, long& sh) {
    e.K->refine(k);
    k = e.K->r.k;
    den = e.den();
    ZPoly g;
    for (auto& x : e.c) g.push_back(x.get_num() * (den / x.get_den()));
    trim(g);
    size_t m = g.size() - 1;
    sh = k * (long)m;
    v = eval_scaled(g, e.K->r.L, k);
    mpz_class R = std::max<mpz_class>(abs(e.K->r.L), abs(e.K->r.H)), Rp = 1, t;
    err = 0;
    for (size_t i = 1; i <= m; i++) {
        t = abs(g[i]) * (unsigned long)i * Rp;
        t <<= (unsigned long)k * (m - i);
        err += t;
        Rp *= R;
    }
}
int Elem::sign() const {
    if (is_rational()) return sgn(c[0]);
    for (long k = std::max(64L, K->r.k);; k *= 2) {
        mpz_class v, err, den; long sh;
        enclose(*this, k, v, err, den, sh);
        if (abs(v) > err) return sgn(v);
        if (k > (1L << 24)) throw std::logic_error("oracle: sign not decided");
    }
}
Elem operator+(const Elem& a, const Elem& b) { Elem r = a; for (size_t i = 0; i < r.c.size(); i++) r.c[i] += b.c[i]; return r; }
Elem operator-(const Elem& a, const Elem& b) { Elem r = a; for (size_t i = 0; i < r.c.size(); i++) r.c[i] -= b.c[i]; return r; }
Elem operator-(const Elem& a) { Elem r = a; for (auto& x : r.c) x = -x; return r; }
Elem operator*(const Elem& a, const mpq_class& q) { Elem r = a; for (auto& x : r.c) x *= q; return r; }
Elem operator+(const Elem& a, const mpq_class& q) { Elem r = a; r.c[0] += q; return r; }
Elem operator*(const Elem& a, const Elem& b) {
    QPoly p(a.c.size() + b.c.size() - 1);
    for (size_t i = 0; i < a.c.size(); i++) if (a.c[i] != 0)
        for (size_t j = 0; j < b.c.size(); j++) if (b.c[j] != 0) p[i + j] += a.c[i] * b.c[j];
    return Elem::from(a.K, p);
}
Elem Elem::pow(unsigned long e) const {
    Elem r(K, 1), b = *this;
    while (e) { if (e & 1) r = r * b; e >>= 1; if (e) b = b * b; }
    return r;
}
Elem Elem::inv() const {
    if (is_zero()) throw std::logic_error("oracle: inverse of zero");
    if (is_rational()) return Elem(K, 1 / c[0]);
    // extended Euclid on (f, this)
    QPoly r0(K->f.begin(), K->f.end()), r1(c.begin(), c.end()), t0, t1{mpq_class(1)};
    trim(r1);
    while (r1.size() > 1) {
        // r0 = q r1 + r
        QPoly q(r0.size() - r1.size() + 1), r = r0;
        for (size_t i = q.size(); i-- > 0;) {
            q[i] = r[i + r1.size() - 1] / r1.back();
            if (q[i] == 0) continue;
            for (size_t j = 0; j < r1.size(); j++) r[i + j] -= q[i] * r1[j];
        }
        trim(r);
        QPoly t = t0;
        size_t n = q.size() + t1.size() - 1;
        if (t.size() < n) t.resize(n);
        for (size_t i = 0; i < q.size(); i++) for (size_t j = 0; j < t1.size(); j++) t[i + j] -= q[i] * t1[j];
        trim(t);
        r0 = r1; r1 = r; t0 = t1; t1 = t;
        if (r1.empty()) throw std::logic_error("oracle: not a field");
        if (r1.size() > 1) {   // keep numbers small
            mpq_class s = 1 / r1.back();
            for (auto& x : r1) x *= s;
            for (auto& x : t1) x *= s;
        }
    }
    mpq_class s = 1 / r1[0];
    for (auto& x : t1) x *= s;
    return Elem::from(K, t1);
}
int Elem::cmp(const mpq_class& q) const { Elem e = *this; e.c[0] -= q; return e.sign(); }
int Elem::cmp(const Elem& o) const { return (*this - o).sign(); }
mpz_class fdiv(const mpq_class& q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpz_class cdiv(const mpq_class& q) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return r; }
mpq_class Elem::approx(long bits) const {
    if (is_rational()) return c[0];
    for (long k = std::max(64L, K->r.k);; k *= 2) {
        mpz_class v, err, den; long sh;
        enclose(*this, k, v, err, den, sh);
        mpz_class lim = den << (unsigned long)sh;     // err / (den 2^sh) < 2^-bits
        mpz_class e2 = err;
        if (bits > 0) e2 <<= (unsigned long)bits; else lim <<= (unsigned long)-bits;
        if (e2 < lim) { mpq_class r(v, den << (unsigned long)sh); r.canonicalize(); return r; }
    }
}
mpz_class Elem::floor() const {
    if (is_rational()) return fdiv(c[0]);
    mpz_class n = fdiv(approx(2));
    while (cmp(mpq_class(n)) < 0) n--;
    while (cmp(mpq_class(n + 1)) >= 0) n++;
    return n;
}
mpz_class Elem::ceil() const { return is_integer() ? c[0].get_num() : mpz_class(floor() + 1); }
long Elem::bound_exp() const {
    mpq_class a = abs(approx(1)) + 1;
    return (long)mpz_sizeinbase(a.get_num_mpz_t(), 2) - (long)mpz_sizeinbase(a.get_den_mpz_t(), 2) + 1;
}
std::string Elem::str() const { QPoly p(c.begin(), c.end()); return orc::str(p, "x"); }

} // namespace orc
