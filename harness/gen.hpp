// Generators, and the bridge between the exact model and e-antic's types.
#pragma once
#include "engine.hpp"
#include "oracle.hpp"
#include <e-antic/renf.h>
#include <e-antic/renf_elem.h>
#include <e-antic/fmpq_poly_extra.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <flint/fmpz_poly.h>
#include <flint/fmpq_poly.h>
#include <flint/fmpz_factor.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/arb.h>
#include <flint/nf_elem.h>
#include <flint/fmpz_vec.h>

namespace gen {
using pbt::Src;
using orc::ZPoly;
using orc::QPoly;

// RAII wrappers of FLINT types
struct Z { fmpz_t v; Z() { fmpz_init(v); } explicit Z(const mpz_class& z) { fmpz_init(v); fmpz_set_mpz(v, z.get_mpz_t()); } ~Z() { fmpz_clear(v); } Z(const Z&) = delete; mpz_class get() const { mpz_class r; fmpz_get_mpz(r.get_mpz_t(), v); return r; } };
struct Q { fmpq_t v; Q() { fmpq_init(v); } explicit Q(const mpq_class& q) { fmpq_init(v); fmpq_set_mpq(v, q.get_mpq_t()); } ~Q() { fmpq_clear(v); } Q(const Q&) = delete; mpq_class get() const { mpq_class r; fmpq_get_mpq(r.get_mpq_t(), v); return r; } };
struct ZP { fmpz_poly_t v; ZP() { fmpz_poly_init(v); } explicit ZP(const ZPoly& p); ~ZP() { fmpz_poly_clear(v); } ZP(const ZP&) = delete; ZPoly get() const; };
struct QP { fmpq_poly_t v; QP() { fmpq_poly_init(v); } explicit QP(const QPoly& p); ~QP() { fmpq_poly_clear(v); } QP(const QP&) = delete; QPoly get() const; };
struct Arb { arb_t v; Arb() { arb_init(v); } ~Arb() { arb_clear(v); } Arb(const Arb&) = delete; };
struct Arf { arf_t v; Arf() { arf_init(v); } ~Arf() { arf_clear(v); } Arf(const Arf&) = delete; };
mpq_class arf_q(const arf_t a);                 // exact; a must be finite
bool arb_finite(const arb_t a);
void arb_bounds(mpq_class& lo, mpq_class& hi, const arb_t a);   // exact end points of a finite ball
std::string arb_s(const arb_t a);
void arf_from(arf_t a, const mpq_class& dyadic);  // exact

// --- numbers
extern bool tails;                                        // rarely, sizes far beyond the usual ones (off where every step is slow)
inline bool rare(Src& s, unsigned n) { return tails && s.chance(1, n); }
mpz_class bits(Src& s, unsigned n);                       // uniform in [0, 2^n)
mpz_class integer(Src& s, unsigned maxbits = 200);        // shaped: small, boundary, random
mpz_class nonzero(Src& s, unsigned maxbits = 200);
mpq_class rational(Src& s, unsigned maxbits = 120);
long boundary_long(Src& s);
unsigned long boundary_ulong(Src& s);
slong precision(Src& s);                                  // working precision for a field
extern bool coarse;                                       // prefer the lowest precisions
struct Coarse { bool old = coarse; explicit Coarse(bool b) { coarse = b; } ~Coarse() { coarse = old; } };

// --- fields
struct FieldSpec {
    QPoly pol;               // the defining polynomial as given to e-antic
    ZPoly f;                 // its integer form (same roots)
    std::vector<orc::Root> roots;   // all distinct real roots in increasing order
    size_t index;            // the chosen one
    orc::FieldP K;
    int d;
    const char* family;
    std::string pol_str(const std::string& var) const;
    // open interval around the root that contains no other root (rational bounds)
    void isolating(mpq_class& lo, mpq_class& hi) const;
};
enum { ANY_DEGREE = 0, NO_LINEAR = 1, SMALL_ONLY = 2, NO_EXTREME = 4, HIGHER = 8 };
FieldSpec field(Src& s, int flags = 0, int maxdeg = 8);
FieldSpec spec_from(const QPoly& pol, size_t index, const char* family);
bool irreducible(const ZPoly& p);
// a random polynomial, irreducible with a real root (before the choice of root)
ZPoly irreducible_poly(Src& s, int flags, int maxdeg, const char*& family);

// A ball that contains the chosen root and no other root of the polynomial.
struct Ball { mpq_class c, r; };       // dyadic center and radius, radius fits 30 bits
Ball ball(Src& s, const FieldSpec& F);
void set_arb(arb_t a, const Ball& b);  // exact
mpq_class decimal_exact(const std::string& t);                   // value of [-]ddd[.ddd]
// decimal string c +/- r that isolates the root
std::string ball_string(Src& s, const FieldSpec& F, slong prec);
std::string decimal(const mpq_class& x, int digits, bool up);   // x rounded down/up to digits decimals

// C level field
struct CField {
    FieldSpec F; renf_t nf; bool live = false;
    slong prec;
    ~CField() { if (live) renf_clear(nf); }
    CField(const CField&) = delete; CField() {}
};
void make_cfield(Src& s, CField& C, int flags = 0, int maxdeg = 8);
void init_cfield(Src& s, CField& C);     // C.F set
boost::intrusive_ptr<const eantic::renf_class> make_class(Src& s, const FieldSpec& F, const std::string& name);
std::string gen_name(Src& s);
std::string similar_name(Src& s, const std::string& n);   // another valid name that differs in little
FieldSpec neighbour(Src& s, const FieldSpec& F);          // another polynomial that differs in one coefficient, with a root close by (or F itself, if none was found)
FieldSpec far_from_zero(Src& s, const FieldSpec& F);      // the same roots, moved away from zero so that they are close to each other in relative terms

// --- elements
orc::Elem elem(Src& s, const orc::FieldP& K, unsigned maxbits = 80);
orc::Elem tiny(Src& s, const orc::FieldP& K);           // non-rational element (when d > 1) of very small absolute value
mpq_class convergent(const orc::Elem& e, int depth);    // good rational approximation of e
QPoly poly_of(const orc::Elem& e);
orc::Elem read(const renf_elem_t a, const renf_t nf, const orc::FieldP& K);    // exact value of an e-antic element
void set_direct(renf_elem_t a, const orc::Elem& e, const renf_t nf);           // via renf_elem_set_fmpq_poly
// build an e-antic element with the given value, along a generated route (so that its enclosure varies)
void build(Src& s, renf_elem_t a, const orc::Elem& e, renf_t nf);
// RAII element of a C field
struct CE {
    renf_elem_t v; renf* nf;
    explicit CE(renf_t k) : nf(k) { renf_elem_init(v, nf); }
    ~CE() { renf_elem_clear(v, nf); }
    CE(const CE&) = delete;
};
// exact enclosure test: is the true value inside a->emb?  (indeterminate balls contain everything)
bool encloses(const arb_t ball, const orc::Elem& e);
void check_elem(const char* tag, const renf_elem_t a, const renf_t nf, const orc::Elem& want, const std::string& what, bool enclosure);
std::string d_str(double d);
} // namespace gen
