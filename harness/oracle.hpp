// Independent exact model of real embedded number fields, in plain GMP.
// Nothing here calls e-antic, Arb or FLINT's number field code.
#pragma once
#include <gmpxx.h>
#include <memory>
#include <string>
#include <vector>

namespace orc {

typedef std::vector<mpz_class> ZPoly;   // little endian, no trailing zeros
typedef std::vector<mpq_class> QPoly;

std::string str(const ZPoly& p, const std::string& var = "x");
std::string str(const QPoly& p, const std::string& var = "x");
void trim(ZPoly& p);
void trim(QPoly& p);
ZPoly primitive(const QPoly& p);        // positive multiple? no: integer multiple with content 1, same sign of leading coefficient
int sgn_at(const ZPoly& p, const mpz_class& n, long k);   // sign of p(n / 2^k), k >= 0
int sgn_at(const ZPoly& p, const mpq_class& x);
ZPoly derivative(const ZPoly& p);
ZPoly squarefree(const ZPoly& p);
mpq_class eval(const ZPoly& p, const mpq_class& x);
mpq_class eval(const QPoly& p, const mpq_class& x);
mpq_class pow2(long k);                  // 2^k as a rational

// Sturm chain of the squarefree part: number of distinct roots
struct Sturm {
    std::vector<ZPoly> chain;
    explicit Sturm(const ZPoly& p);
    int variations(const mpq_class& x) const;
    int variations_inf(int sign) const;
    long count(const mpq_class& a, const mpq_class& b) const;   // distinct roots in (a, b]
    long total() const;
};

// A real root of a squarefree integer polynomial: either an exact rational or
// the unique root in the open dyadic interval (L/2^k, H/2^k), with a sign change.
struct Root {
    bool exact = false;
    mpq_class q;
    mpz_class L, H;
    long k = 0;
};
std::vector<Root> real_roots(const ZPoly& p);     // distinct real roots, increasing

class Field {
public:
    ZPoly f;                 // integer defining polynomial (same roots as the one given)
    int d;
    Root r;
    std::vector<mpq_class> red;     // x^d = sum red[i] x^i
    Field(const ZPoly& f, const Root& r);
    void refine(long K);     // H - L == 1 and k >= K  (d > 1)
    mpq_class lo() const, hi() const;
    // exact comparison of the root with a rational
    int cmp_root(const mpq_class& x);
private:
    long gain = 1;
    void step(long K);
};
typedef std::shared_ptr<Field> FieldP;

class Elem {
public:
    FieldP K;
    std::vector<mpq_class> c;       // length K->d
    Elem() {}
    explicit Elem(const FieldP& K) : K(K), c((size_t)K->d) {}
    Elem(const FieldP& K, const mpq_class& q) : K(K), c((size_t)K->d) { c[0] = q; }
    static Elem gen(const FieldP& K);
    static Elem from(const FieldP& K, const QPoly& p);   // reduces modulo f
    bool is_zero() const, is_rational() const, is_integer() const;
    int sign() const;
    int cmp(const mpq_class& q) const;
    int cmp(const Elem& o) const;
    bool operator==(const Elem& o) const { return c == o.c; }
    mpz_class floor() const, ceil() const;
    mpq_class approx(long bits) const;     // |result - value| < 2^-bits
    long bound_exp() const;                // |value| < 2^bound
    Elem inv() const;
    Elem pow(unsigned long e) const;
    std::string str() const;
    mpz_class den() const;
};
Elem operator+(const Elem& a, const Elem& b);
Elem operator-(const Elem& a, const Elem& b);
Elem operator*(const Elem& a, const Elem& b);
Elem operator-(const Elem& a);
Elem operator*(const Elem& a, const mpq_class& q);
Elem operator+(const Elem& a, const mpq_class& q);

mpz_class fdiv(const mpq_class& q);
mpz_class cdiv(const mpq_class& q);
} // namespace orc
