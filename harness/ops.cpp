#include "ops.hpp"
#include <cstring>
namespace ops {
using namespace pbt;

size_t size_of(const Elem& e) { size_t n = 0; for (auto& c : e.c) n += mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2); return n; }

Regs::Regs(Src& s, CField& C, size_t n, unsigned maxbits) : C(C) {
    for (size_t i = 0; i < n; i++) {
        r.emplace_back(new CE(C.nf));
        v.push_back(elem(s, C.F.K, maxbits));
        build(s, r[i]->v, v[i], C.nf);
        NOTE("r" << i << " = " << v[i].str());
    }
}
void Regs::fresh(Src& s, size_t i) { v[i] = elem(s, C.F.K, 40); set_direct(r[i]->v, v[i], C.nf); NOTE("r" << i << " reset to " << v[i].str()); }

void Regs::check(size_t i, const char* tag, bool enclosure, const std::string& what) { check_elem(tag, r[i]->v, C.nf, v[i], what + " (r" + std::to_string(i) + ")", enclosure); }

size_t Regs::arith(Src& s) {
    size_t n = r.size(), d = s.below(n), a = s.below(n), b = s.below(n);
    for (size_t i : {a, b}) if (size_of(v[i]) > 2500 * (size_t)C.F.d || size_of(v[i]) > 9000) fresh(s, i);
    arith_(s, d, a, b);
    return d;
}

#define DO(desc, model, call) do { std::ostringstream o_; o_ << "r" << d << " = " << desc; last = o_.str(); NOTE(last); Elem m_ = model; call; v[d] = m_; } while (0)

void Regs::arith_(Src& s, size_t d, size_t a, size_t b) {
    auto D = r[d]->v; auto A = r[a]->v; auto B = r[b]->v; renf* nf = C.nf;
    const orc::FieldP& K = C.F.K;
    Elem x = v[a], y = v[b];
    switch (s.pick({5, 5, 6, 5, 2, 2, 9, 9, 9, 9, 4, 4, 3, 8, 4, 2, 2, 1})) {
    case 0: DO("r" << a << " + r" << b, x + y, renf_elem_add(D, A, B, nf)); break;
    case 1: DO("r" << a << " - r" << b, x - y, renf_elem_sub(D, A, B, nf)); break;
    case 2: DO("r" << a << " * r" << b, x * y, renf_elem_mul(D, A, B, nf)); break;
    case 3: if (y.is_zero()) { DO("neg r" << a, -x, renf_elem_neg(D, A, nf)); break; }
            DO("r" << a << " / r" << b, x * y.inv(), renf_elem_div(D, A, B, nf)); break;
    case 4: DO("neg r" << a, -x, renf_elem_neg(D, A, nf)); break;
    case 5: if (x.is_zero()) { DO("one", Elem(K, 1), renf_elem_one(D, nf)); break; }
            DO("inv r" << a, x.inv(), renf_elem_inv(D, A, nf)); break;
    case 6: {
        slong c = boundary_long(s); mpq_class q(c);
        switch (s.below(4)) {
        case 0: DO("r" << a << " +si " << c, x + q, renf_elem_add_si(D, A, c, nf)); break;
        case 1: DO("r" << a << " -si " << c, x + mpq_class(-q), renf_elem_sub_si(D, A, c, nf)); break;
        case 2: DO("r" << a << " *si " << c, x * q, renf_elem_mul_si(D, A, c, nf)); break;
        default: if (c == 0) { c = 1; q = 1; } DO("r" << a << " /si " << c, x * mpq_class(1 / q), renf_elem_div_si(D, A, c, nf)); break;
        }
        break;
    }
    case 7: {
        ulong c = boundary_ulong(s); mpq_class q(c);
        switch (s.below(4)) {
        case 0: DO("r" << a << " +ui " << c, x + q, renf_elem_add_ui(D, A, c, nf)); break;
        case 1: DO("r" << a << " -ui " << c, x + mpq_class(-q), renf_elem_sub_ui(D, A, c, nf)); break;
        case 2: DO("r" << a << " *ui " << c, x * q, renf_elem_mul_ui(D, A, c, nf)); break;
        default: if (c == 0) { c = 1; q = 1; } DO("r" << a << " /ui " << c, x * mpq_class(1 / q), renf_elem_div_ui(D, A, c, nf)); break;
        }
        break;
    }
    case 8: {
        mpz_class z = integer(s, 150); mpq_class q(z); Z c(z);
        switch (s.below(4)) {
        case 0: DO("r" << a << " +fmpz " << z, x + q, renf_elem_add_fmpz(D, A, c.v, nf)); break;
        case 1: DO("r" << a << " -fmpz " << z, x + mpq_class(-q), renf_elem_sub_fmpz(D, A, c.v, nf)); break;
        case 2: DO("r" << a << " *fmpz " << z, x * q, renf_elem_mul_fmpz(D, A, c.v, nf)); break;
        default: if (z == 0) { DO("zero", Elem(K), renf_elem_zero(D, nf)); break; } DO("r" << a << " /fmpz " << z, x * mpq_class(1 / q), renf_elem_div_fmpz(D, A, c.v, nf)); break;
        }
        CHECK(c.get() == z, "operand-changed", "an integer operand was modified");
        break;
    }
    case 9: {
        mpq_class q = rational(s, 120); Q c(q);
        switch (s.below(6)) {
        case 0: DO("r" << a << " +fmpq " << q, x + q, renf_elem_add_fmpq(D, A, c.v, nf)); break;
        case 1: DO("r" << a << " -fmpq " << q, x + mpq_class(-q), renf_elem_sub_fmpq(D, A, c.v, nf)); break;
        case 2: DO("r" << a << " *fmpq " << q, x * q, renf_elem_mul_fmpq(D, A, c.v, nf)); break;
        case 3: DO(q << " fmpq- r" << a, -x + q, renf_elem_fmpq_sub(D, c.v, A, nf)); break;
        case 4: if (x.is_zero()) { DO("gen", Elem::gen(K), renf_elem_gen(D, nf)); break; } DO(q << " fmpq/ r" << a, x.inv() * q, renf_elem_fmpq_div(D, c.v, A, nf)); break;
        default: if (q == 0) { DO("zero", Elem(K), renf_elem_zero(D, nf)); break; } DO("r" << a << " /fmpq " << q, x * mpq_class(1 / q), renf_elem_div_fmpq(D, A, c.v, nf)); break;
        }
        CHECK(c.get() == q, "operand-changed", "a rational operand was modified");
        break;
    }
    case 10: {
        ulong e = s.pick({3, 3, 4, 1}); e = e == 0 ? 0 : e == 1 ? 1 : e == 2 ? (ulong)s.range(2, 6) : (ulong)s.range(7, s.chance(1, 5) ? 400 : 40);
        if (x.is_rational() && (x.c[0] == 0 || abs(x.c[0]) == 1) && arb_is_exact(A->emb) && s.chance(1, 3)) { ulong E = boundary_ulong(s); Elem w = E == 0 ? Elem(K, 1) : E % 2 ? x : x * x; DO("r" << a << " ^ " << E, w, renf_elem_pow(D, A, E, nf)); break; }
        if (size_of(x) * e > 6000) e = 2;
        DO("r" << a << " ^ " << e, x.pow(e), renf_elem_pow(D, A, e, nf)); break;
    }
    case 11: switch (s.below(4)) {
        case 0: DO("zero", Elem(K), renf_elem_zero(D, nf)); break;
        case 1: DO("one", Elem(K, 1), renf_elem_one(D, nf)); break;
        case 2: DO("gen", Elem::gen(K), renf_elem_gen(D, nf)); break;
        default: DO("r" << a, x, renf_elem_set(D, A, nf)); break;
        }
        break;
    case 12: if (s.chance(1, 2)) { slong c = boundary_long(s); DO("set_si " << c, Elem(K, mpq_class(c)), renf_elem_set_si(D, c, nf)); }
             else { ulong c = boundary_ulong(s); DO("set_ui " << c, Elem(K, mpq_class(c)), renf_elem_set_ui(D, c, nf)); }
             break;
    case 13: switch (s.below(5)) {
        case 0: { mpz_class z = integer(s, 300); Z c(z); DO("set_fmpz " << z, Elem(K, z), renf_elem_set_fmpz(D, c.v, nf)); break; }
        case 1: { mpz_class z = integer(s, 300); DO("set_mpz " << z, Elem(K, z), renf_elem_set_mpz(D, z.get_mpz_t(), nf)); break; }
        case 2: { mpq_class q = rational(s, 200); Q c(q); DO("set_fmpq " << q, Elem(K, q), renf_elem_set_fmpq(D, c.v, nf)); break; }
        case 3: { mpq_class q = rational(s, 200); DO("set_mpq " << q, Elem(K, q), renf_elem_set_mpq(D, q.get_mpq_t(), nf)); break; }
        default: { Elem e = elem(s, K, 60); QP p(poly_of(e)); DO("set_fmpq_poly " << e.str(), e, renf_elem_set_fmpq_poly(D, p.v, nf)); break; }
        }
        break;
    case 14: { slong p = precision(s); DO("set_nf_elem r" << a << " prec " << p, x, renf_elem_set_nf_elem(D, A->elem, nf, p)); break; }
    case 15: { size_t e = a; NOTE("swap r" << d << " r" << e); last = "swap"; renf_elem_swap(r[d]->v, r[e]->v); std::swap(v[d], v[e]); break; }
    case 16: { DO("r" << a << " - r" << a, Elem(K), renf_elem_sub(D, A, A, nf)); break; }
    default: { if (x.is_zero()) break; DO("r" << a << " / r" << a, Elem(K, 1), renf_elem_div(D, A, A, nf)); break; }
    }
}

void Regs::observe(Src& s) {
    size_t i = s.below(r.size()), j = s.below(r.size());
    auto A = r[i]->v; renf* nf = C.nf;
    switch (s.below(8)) {
    case 0: NOTE("observe sgn r" << i); CHECK(renf_elem_sgn(A, nf) == v[i].sign(), "sgn", "sign of " << v[i].str()); break;
    case 1: { NOTE("observe floor r" << i); Z z; renf_elem_floor(z.v, A, nf); CHECK(z.get() == v[i].floor(), "floor", "floor of " << v[i].str() << " is " << z.get()); break; }
    case 2: { NOTE("observe cmp r" << i << " r" << j); int c = renf_elem_cmp(A, r[j]->v, nf); CHECK((c > 0) - (c < 0) == v[i].cmp(v[j]), "cmp", "comparison of " << v[i].str() << " and " << v[j].str()); break; }
    case 3: { NOTE("observe get_d r" << i); renf_elem_get_d(A, nf, ARF_RND_NEAR); break; }
    case 4: { NOTE("observe ceil r" << i); Z z; renf_elem_ceil(z.v, A, nf); CHECK(z.get() == v[i].ceil(), "ceil", "ceil of " << v[i].str() << " is " << z.get()); break; }
    case 5: { if (C.F.d == 1) break; slong p = (slong)s.range(2, 500); NOTE("refine_embedding " << p); renf_refine_embedding(nf, p); break; }
    case 6: { slong p = (slong)s.range(2, 300); NOTE("set_evaluation r" << i << " " << p); renf_elem_set_evaluation(A, nf, p); break; }
    default: { mpq_class q = v[i].approx(s.range(0, 80)); Q c(q); NOTE("observe cmp r" << i << " " << q); int x = renf_elem_cmp_fmpq(A, c.v, nf); CHECK((x > 0) - (x < 0) == v[i].cmp(q), "cmp", "comparison of " << v[i].str() << " and " << q); break; }
    }
}

// ------------------------------------------------------------------ C++
orc::FieldP rational_field() {
    static orc::FieldP Q;
    if (!Q) { ZPoly f{mpz_class(-1), mpz_class(1)}; auto r = orc::real_roots(f); Q = std::make_shared<orc::Field>(f, r[0]); }
    return Q;
}
CppField cpp_field(Src& s, int flags, int maxdeg) {
    CppField C; C.F = field(s, flags, maxdeg); C.name = gen_name(s); C.K = make_class(s, C.F, C.name); return C;
}
Elem read_x(const X& x, const orc::FieldP& K) { return read(x.renf_elem_t(), x.parent().renf_t(), K); }

X make_x(Src& s, const CppField& C, const Elem& e) {
    bool integral = true; for (auto& c : e.c) integral &= c.get_den() == 1;
    bool fits = integral, fitsu = integral, fi = integral, fui = integral;
    for (auto& c : e.c) { const mpz_class& z = c.get_num(); fits = fits && z.fits_slong_p(); fitsu = fitsu && z.fits_ulong_p(); fi = fi && z.fits_sint_p(); fui = fui && z.fits_uint_p(); }
    size_t n = e.c.size(); if (s.chance(1, 3)) while (n > 0 && e.c[n - 1] == 0) n--;      // shorter vectors are padded
    switch (s.below(9)) {
    case 0: { std::vector<mpq_class> v(e.c.begin(), e.c.begin() + (long)n); return X(*C.K, v); }
    case 1: if (integral) { std::vector<mpz_class> v; for (size_t i = 0; i < n; i++) v.push_back(e.c[i].get_num()); return X(*C.K, v); } break;
    case 2: if (fits) { std::vector<long> v; for (size_t i = 0; i < n; i++) v.push_back(e.c[i].get_num().get_si()); return X(*C.K, v); } break;
    case 3: if (fitsu) { std::vector<unsigned long> v; for (size_t i = 0; i < n; i++) v.push_back(e.c[i].get_num().get_ui()); return X(*C.K, v); } break;
    case 4: if (fi) { std::vector<int> v; for (size_t i = 0; i < n; i++) v.push_back((int)e.c[i].get_num().get_si()); return X(*C.K, v); } break;
    case 5: if (fui) { std::vector<unsigned int> v; for (size_t i = 0; i < n; i++) v.push_back((unsigned)e.c[i].get_num().get_ui()); return X(*C.K, v); } break;
    case 6: return X(*C.K, orc::str(poly_of(e), C.name));
    case 7: { X x(*C.K); build(s, x.renf_elem_t(), e, C.K->renf_t()); return x; }
    default: if (e.is_rational()) { if (e.is_integer() && s.chance(1, 2)) return X(*C.K, mpz_class(e.c[0].get_num())); return X(*C.K, e.c[0]); } break;
    }
    X x(*C.K); set_direct(x.renf_elem_t(), e, C.K->renf_t()); return x;
}
} // namespace ops
