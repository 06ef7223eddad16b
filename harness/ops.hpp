// Random operations on a register file of elements of one field, mirrored in the exact model.
#pragma once
#include "gen.hpp"
#include <type_traits>

namespace ops {
using namespace gen;
using orc::Elem;

size_t size_of(const Elem& e);          // bits of all numerators and denominators

// --- C interface
struct Regs {
    CField& C;
    std::vector<std::unique_ptr<CE>> r;
    std::vector<Elem> v;
    Regs(Src& s, CField& C, size_t n, unsigned maxbits = 60);
    // one random arithmetic operation or assignment; returns the index of the register that was written
    size_t arith(Src& s);
    // one random observation that may improve enclosures but must not change any value
    void observe(Src& s);
    void check(size_t i, const char* tag, bool enclosure, const std::string& what);
    std::string last;                   // description of the last operation
    void fresh(Src& s, size_t i);
private:
    void arith_(Src& s, size_t d, size_t a, size_t b);
};

// --- scalars of every type that the C++ interface accepts
template <class T> mpq_class to_q(const T& t) {
    if constexpr (std::is_same<T, mpz_class>::value) return mpq_class(t);
    else if constexpr (std::is_same<T, mpq_class>::value) return t;
    else { mpz_class z = t < 0 ? mpz_class((unsigned long)(0ULL - (unsigned long long)t)) : mpz_class((unsigned long)t); if (t < 0) z = -z; return mpq_class(z); }
}
template <class T> const char* tname();
#define TN(T) template <> inline const char* tname<T>() { return #T; }
TN(short) TN(unsigned short) TN(int) TN(unsigned int) TN(long) TN(unsigned long) TN(long long) TN(unsigned long long) TN(mpz_class) TN(mpq_class)
#undef TN
// value near `hint` if that is representable, or a boundary value
template <class T> T scalar(Src& s, const mpq_class* hint = nullptr) {
    if constexpr (std::is_same<T, mpq_class>::value) {
        if (hint && s.chance(1, 2)) { mpq_class q = *hint; if (s.chance(1, 2)) q += mpq_class((long)s.range(-1, 1)); return q; }
        return rational(s, 150);
    } else {
        mpz_class z;
        if (hint && s.chance(1, 2)) z = orc::fdiv(*hint) + (long)s.range(-1, 2);
        else z = std::is_signed<T>::value || std::is_same<T, mpz_class>::value ? mpz_class(boundary_long(s)) : mpz_class(boundary_ulong(s));
        if constexpr (std::is_same<T, mpz_class>::value) { if (!hint && s.chance(1, 2)) return integer(s, 300); return z; }
        else {
            if (s.chance(1, 4)) { z = s.chance(1, 2) ? to_q<T>(std::numeric_limits<T>::max()).get_num() : to_q<T>(std::numeric_limits<T>::min()).get_num(); }
            mpz_class lo = to_q<T>(std::numeric_limits<T>::min()).get_num(), hi = to_q<T>(std::numeric_limits<T>::max()).get_num();
            if (z < lo || z > hi) { mpz_class m = hi - lo + 1; z = ((z - lo) % m + m) % m + lo; }
            // exact conversion
            if (sgn(z) < 0) { mpz_class n = -z; return (T)(0ULL - (unsigned long long)n.get_ui()); }
            return (T)z.get_ui();
        }
    }
}
// call f with a value of a random scalar type
template <class F> void with_scalar(Src& s, const mpq_class* hint, F f) {
    switch (s.below(10)) {
    case 0: f(scalar<int>(s, hint)); break;
    case 1: f(scalar<short>(s, hint)); break;
    case 2: f(scalar<unsigned short>(s, hint)); break;
    case 3: f(scalar<unsigned int>(s, hint)); break;
    case 4: f(scalar<long>(s, hint)); break;
    case 5: f(scalar<unsigned long>(s, hint)); break;
    case 6: f(scalar<long long>(s, hint)); break;
    case 7: f(scalar<unsigned long long>(s, hint)); break;
    case 8: f(scalar<mpz_class>(s, hint)); break;
    default: f(scalar<mpq_class>(s, hint)); break;
    }
}

// --- C++ interface
typedef boost::intrusive_ptr<const eantic::renf_class> KP;
typedef eantic::renf_elem_class X;
struct CppField { FieldSpec F; KP K; std::string name; };
CppField cpp_field(Src& s, int flags = 0, int maxdeg = 8);
Elem read_x(const X& x, const orc::FieldP& K);             // x must live in the field K describes
X make_x(Src& s, const CppField& C, const Elem& e);        // along a generated route
orc::FieldP rational_field();                              // the model of renf_class::make()
} // namespace ops
