// C06: construction of fields; C08: counting and isolating real roots; C09: unique roots and refinement.
#include "ops.hpp"
#include <map>
using namespace ops; using namespace pbt;
using eantic::renf_class;

// the enclosure of the generator pins down exactly the chosen root
static void check_emb(const arb_t emb, const FieldSpec& F, const std::string& what) {
    CHECK(arb_finite(emb) || F.d == 1, "embedding", what << ": enclosure of the generator is not finite");
    Elem g = Elem::gen(F.K);
    CHECK(encloses(emb, g), "embedding", what << ": " << arb_s(emb) << " does not contain the selected root");
    if (F.d == 1) return;
    mpq_class lo, hi; arb_bounds(lo, hi, emb);
    if (F.index > 0) { orc::Field N(F.f, F.roots[F.index - 1]); CHECK(N.cmp_root(lo) < 0, "embedding", what << ": " << arb_s(emb) << " contains the previous root"); }
    if (F.index + 1 < F.roots.size()) { orc::Field N(F.f, F.roots[F.index + 1]); CHECK(N.cmp_root(hi) > 0, "embedding", what << ": " << arb_s(emb) << " contains the next root"); }
}
static void check_field(const renf_t nf, const FieldSpec& F, const std::string& what) {
    CHECK(renf_degree(const_cast<renf*>(nf)) == F.d, "degree", what << ": degree " << renf_degree(const_cast<renf*>(nf)) << " instead of " << F.d);
    QP p; fmpq_poly_set(p.v, nf->nf->pol);
    CHECK(p.get() == F.pol, "polynomial", what << ": defining polynomial is " << orc::str(p.get()));
    check_emb(nf->emb, F, what);
}
static bool accurate(const arb_t a, slong prec) {
    mpq_class lo, hi; arb_bounds(lo, hi, a);
    mpq_class rad = (hi - lo) / 2, mid = abs(mpq_class((hi + lo) / 2));
    // "prec bits": up to the rounding of exponents in the measure used for balls
    return rad * orc::pow2(prec - 2) <= mid;
}

static void c06_c(Src& s) {
    CField C; C.F = field(s);
    bool close = C.F.roots.size() > 1 && s.chance(1, 4);                // coarse enclosures of roots next to each other
    Coarse guard(close);
    if (close) C.F = far_from_zero(s, C.F);
    init_cfield(s, C); label(C.F.family);
    check_field(C.nf, C.F, "renf_init");
    CHECK(C.nf->prec == C.prec, "prec", "default precision is " << C.nf->prec);
    if (C.F.d > 1) CHECK(accurate(C.nf->emb, C.prec), "accuracy", "after construction with " << C.prec << " bits the generator is only known as " << arb_s(C.nf->emb));
    {   // a copy is independent of its source
        renf_t D; renf_init_set(D, C.nf);
        struct G { renf* p; ~G() { renf_clear(p); } } g{D};
        check_field(D, C.F, "copy");
        CHECK(renf_equal(C.nf, D) && renf_equal(D, C.nf), "copy-equal", "a copy does not equal the original");
        CHECK(renf_set_immutable(D, 1) == 0 && renf_set_immutable(D, 0) != 0 && renf_set_immutable(D, 0) == 0, "immutable", "renf_set_immutable does not report the previous value");
        if (C.F.d > 1) { slong q = (slong)s.range(2, 700); NOTE("refine the copy to " << q); renf_refine_embedding(D, q); check_field(D, C.F, "refined copy"); CHECK(renf_equal(C.nf, D) && renf_equal(D, C.nf), "copy-equal", "a refined copy does not equal the original"); }
    }
    check_field(C.nf, C.F, "original after its copy was cleared");
    {   // the same root from another enclosure, and another root
        CField E; E.F = C.F; size_t j = s.below(C.F.roots.size());
        if (close && s.chance(2, 3)) j = C.F.index ? C.F.index - 1 : 1;
        E.F.index = j; E.F.K = std::make_shared<orc::Field>(E.F.f, E.F.roots[j]);
        NOTE("second field: root #" << j);
        init_cfield(s, E);
        check_field(E.nf, E.F, "second field");
        bool want = j == C.F.index;
        CHECK(!!renf_equal(C.nf, E.nf) == want && !!renf_equal(E.nf, C.nf) == want, "equal", "fields for roots #" << C.F.index << " and #" << j << " compare " << (want ? "different" : "equal"));
        if (j != C.F.index) { label("distinct-roots"); if (arb_overlaps(C.nf->emb, E.nf->emb)) label("overlapping-enclosures"); }
    }
    if (s.chance(1, 3)) {   // a field that differs in a single coefficient, or by a factor
        CField E; E.F = neighbour(s, C.F);
        if (s.chance(1, 4)) { QPoly p = C.F.pol; mpq_class m((long)s.range(2, 4)); if (s.chance(1, 2)) m = 1 / m; if (s.chance(1, 3)) m = -m; for (auto& c : p) c *= m; E.F = spec_from(p, C.F.index, "scaled"); }
        if (E.F.pol != C.F.pol) {
            Coarse guard2(s.chance(1, 2));
            NOTE("neighbour: " << orc::str(E.F.pol) << " root #" << E.F.index);
            init_cfield(s, E);
            check_field(E.nf, E.F, "neighbour");
            CHECK(!renf_equal(C.nf, E.nf) && !renf_equal(E.nf, C.nf), "equal", "fields of the polynomials " << orc::str(C.F.pol) << " and " << orc::str(E.F.pol) << " compare equal");
            if (arb_overlaps(C.nf->emb, E.nf->emb)) label("overlapping-neighbours");
        }
    }
    char* t = renf_get_str(C.nf, "x", 64); std::string str(t); flint_free(t);
    CHECK(str.find("NumberField(") == 0 && str.back() == ')', "get_str", "unexpected description " << str);
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C06.c", c06_c, 40000, 400000, 20, "fields from random polynomials, roots, enclosures and precisions; the stored enclosure must isolate the selected root, copies and equality must behave; non-trivial: degree > 1");

static void c06_cpp(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    check_field(C.K->renf_t(), C.F, "make");
    CHECK(C.K->degree() == C.F.d, "degree", "degree() is " << C.K->degree());
    CHECK(C.K->gen_name() == C.name, "gen_name", "gen_name() is " << C.K->gen_name());
    check_elem("gen", C.K->gen().renf_elem_t(), C.K->renf_t(), Elem::gen(C.F.K), "gen()", true);
    check_elem("zero", C.K->zero().renf_elem_t(), C.K->renf_t(), Elem(C.F.K), "zero()", true);
    check_elem("one", C.K->one().renf_elem_t(), C.K->renf_t(), Elem(C.F.K, 1), "one()", true);
    CHECK(&C.K->gen().parent() == &*C.K && &C.K->zero().parent() == &*C.K && &C.K->one().parent() == &*C.K, "parent", "a distinguished element lives in another field");
    // the generator is a root of the polynomial, and lies where the root lies
    X g = C.K->gen(), v(*C.K);
    for (size_t i = C.F.pol.size(); i-- > 0;) v = v * g + X(*C.K, C.F.pol[i]);
    CHECK(v == 0 && v.is_zero(), "gen-root", "the generator is not a root of the defining polynomial");
    mpq_class q = C.F.d == 1 ? C.F.K->r.q : Elem::gen(C.F.K).approx(s.range(0, 120));
    CHECK((g < q) == (Elem::gen(C.F.K).cmp(q) < 0), "gen-cmp", "generator vs " << q);
    if (s.chance(1, 4)) {
        // with an embedding function that becomes useful only at some precision
        slong need = (slong)s.range(0, 400); int calls = 0; slong prec = (slong)s.range(30, 128); if (s.chance(1, 3)) prec = 64; bool plain = s.chance(1, 2);
        CppField& R = C;
        auto f = [&](slong p) -> std::string {
            calls++;
            Elem e = Elem::gen(R.F.K);
            if (p < need && R.F.roots.size() > 1) {     // not isolating yet: covers all roots
                mpq_class m = 0; for (auto& r : R.F.roots) { mpq_class t = r.exact ? mpq_class(abs(r.q)) : mpq_class(std::max(abs(r.L), abs(r.H)) * orc::pow2(-r.k)); if (t > m) m = t; }
                mpz_class z = orc::cdiv(m) + 1; return "0 +/- " + z.get_str();
            }
            mpq_class c = R.F.d == 1 ? R.F.K->r.q : e.approx(plain ? 4 * p + 8 : p + 3);
            if (plain) return decimal(c, (int)p, false);           // just digits, as many as the precision, as in the documentation
            int digits = (int)(p * 0.302) + 2;
            return decimal(c, digits, false) + " +/- " + decimal(orc::pow2(-p), digits, true);
        };
        if (plain) label("digits only"); NOTE("make with a function" << (plain ? " that returns digits" : "") << ", need " << need << ", prec " << prec);
        auto L = renf_class::make(R.F.pol_str(R.name), R.name, f, prec);
        CHECK(&*L == &*C.K, "function", "the field made from an embedding function is not the same field");
        label("function");
    }
    // conversion from a renf_t of this field finds it again
    auto L = renf_class::make(C.K->renf_t(), C.name); CHECK(&*L == &*C.K, "unique", "make(renf_t) is not the same field");
    CHECK(C.K->to_string().find("NumberField(") == 0, "to_string", C.K->to_string());
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C06.cpp", c06_cpp, 30000, 300000, 20, "fields through the C++ factories (string, embedding function, C field); degree, generator and root must be the requested ones; non-trivial: degree > 1");

// everything that does not determine a single root is refused
static void c06_reject(Src& s) {
    FieldSpec F = s.chance(1, 10) ? field(s, NO_EXTREME, 1) : field(s, NO_LINEAR | NO_EXTREME, 6);
    std::string name = gen_name(s), pol = F.pol_str(name), emb; slong prec = (slong)s.range(s.chance(1, 4) ? 4 : 30, 200);
    orc::Sturm st(F.f);
    size_t kind = s.pick({5, 2, 2, 1});
    long want = -1;                // number of roots in the ball
    if (kind == 0) {
        mpq_class c, r;
        switch (s.below(3)) {
        case 0: c = rational(s, 8); r = s.chance(1, 6) ? mpq_class(0) : mpq_class((long)s.range(1, 4000), 1000); break;
        case 1: { orc::Field N(F.f, F.roots[s.below(F.roots.size())]); bool fine = s.chance(1, 3); c = N.d == 1 ? N.r.q : Elem::gen(std::make_shared<orc::Field>(N)).approx(fine ? 160 : 40); r = orc::pow2(-s.range(0, fine ? 120 : 30)) * (long)s.range(1, 8); c += r * (long)s.range(-12, 12) / 8; break; }
        default: { // between or around two neighbours
            size_t i = s.below(F.roots.size()); orc::Field N(F.f, F.roots[i]); auto P = std::make_shared<orc::Field>(N); mpq_class a = Elem::gen(P).approx(30), b = a + 1;
            if (i + 1 < F.roots.size()) { auto R = std::make_shared<orc::Field>(F.f, F.roots[i + 1]); b = Elem::gen(R).approx(30); }
            c = (a + b) / 2; r = abs(mpq_class(b - a)) / 2 + orc::pow2(-s.range(10, 28)) * (long)s.range(-3, 3); if (r < 0) r = 0; break; }
        }
        int digits = (int)(s.chance(1, 4) ? s.range(20, 60) : s.range(3, 14));
        emb = decimal(c, digits, false) + (r == 0 && s.chance(1, 2) ? std::string() : " +/- " + decimal(r, digits, true));
        // what the text says (irreducible of degree > 1: no rational roots), unless a root is where rounding the text matters
        c = decimal_exact(decimal(c, digits, false)); r = decimal_exact(decimal(r, digits, true));
        mpq_class slack = r * orc::pow2(-20) + abs(c) * orc::pow2(-3 * (long)emb.size());
        want = st.count(mpq_class(c - r), mpq_class(c + r));
        if (st.count(mpq_class(c - r - slack), mpq_class(c + r + slack)) != want) throw Discard{};
        if (F.d == 1 && c == F.K->r.q) want = 1;
        // text without enough of a radius is read to the precision: then a root nearby may be meant
        slack += abs(c) * orc::pow2(3 - prec);
        if (want == 0 && st.count(mpq_class(c - r - slack), mpq_class(c + r + slack)) != 0) throw Discard{};
    } else if (kind == 1) { static const std::vector<std::string> bad = {"", "abc", "1.4 +/- ", "1..2", "--1", "1.4 +- 1", "1/2", "1.4 +/- x", "one", "0x10 +/- 1", "nan", "inf", "0 +/- inf", "nan +/- 1"}; emb = s.one(bad); want = 0; if (F.d == 1) { Arb x; if (arb_set_str(x.v, emb.c_str(), prec) == 0) throw Discard{}; } /* a ball after all, which could contain the root */ }
    else if (kind == 2) {
        static const std::vector<std::string> bad = {"", "+", "*", "x^2-", "x^2--2", "x**2-2", "x^2-2)", "(x^2-2)", "x^-2-2", "y^2-2", "x^2-2y", "x^2 - 1/0", "x^2-2 3", "1.5*x^2-2", "x^2-*2", "x^2/x-2", "x^2-2/", "1/2/x^2-1", "0", "1", "3/5", "x^", "^2", "x^2-2;", "xx", "0*x^2", "0*x"};
        pol = s.one(bad); size_t at; 
        if (name != "x") while ((at = pol.find('x')) != std::string::npos) pol.replace(at, 1, "\1");
        while ((at = pol.find('\1')) != std::string::npos) pol.replace(at, 1, name);
        if (pol.find("y") != std::string::npos && name == "y") throw Discard{};
        emb = "1.4 +/- 0.5"; want = 0;
        if (pol.empty()) label("empty");
    } else { pol = pol + (s.chance(1, 2) ? "+" : "@"); emb = "0 +/- 1"; want = 0; }
    NOTE("make(" << pol << ", " << name << ", " << emb << ", " << prec << ") with " << want << " roots");
    bool ok = false, inv = false;
    KP K;
    try { K = renf_class::make(pol, name, emb, prec); ok = true; } catch (const std::invalid_argument&) { inv = true; }
    if (want == 1) { CHECK(ok, "refused", "a polynomial with a unique root in the enclosure was refused: " << pol << " in " << emb); }
    else CHECK(inv, "accepted", "a specification that does not define a unique root was accepted: " << pol << " with " << emb << " (" << want << " roots)");
    if (ok) {
        for (size_t i = 0; i < F.roots.size(); i++) { FieldSpec G = F; G.index = i; G.K = std::make_shared<orc::Field>(G.f, G.roots[i]); Arb a; arb_set_str(a.v, emb.c_str(), prec + 4 * (slong)emb.size()); if (encloses(a.v, Elem::gen(G.K))) { check_field(K->renf_t(), G, "make"); break; } }
        label("accepted");
    } else label("refused");
    // the library remains usable
    auto L = renf_class::make("x^2 - 2", "x", "1.4 +/- 0.1"); CHECK(L->degree() == 2 && L->gen() > 1, "after", "library unusable after a refused construction");
    if (want != 1 || kind == 0) nontrivial();
}
PROPERTY("C06.reject", c06_reject, 30000, 300000, 20, "well formed and malformed specifications whose enclosure contains none, one or several roots: accepted exactly when one root is determined; non-trivial: refused, or decided by counting roots");

static void c06_roots(Src& s) {
    // all embeddings at once
    FieldSpec F = field(s, NO_LINEAR, s.chance(1, 6) ? 13 : 8); label(F.family);
    ZP p(F.f); slong prec = precision(s); slong n = (slong)F.roots.size(), lim = (slong)s.range(0, n + 2);
    NOTE("set_embeddings lim=" << lim << " prec=" << prec);
    std::vector<renf> nf((size_t)lim + 1);
    slong k = renf_set_embeddings_fmpz_poly(nf.data(), p.v, lim, prec);
    CHECK(k == n, "embeddings", "number of embeddings reported as " << k << " instead of " << n);
    slong m = std::min(lim, n);
    struct G { renf* p; slong m; ~G() { for (slong i = 0; i < m; i++) renf_clear(p + i); } } g{nf.data(), m};
    for (slong i = 0; i < m; i++) { FieldSpec E = F; E.pol = QPoly(F.f.begin(), F.f.end()); E.index = (size_t)i; E.K = std::make_shared<orc::Field>(E.f, E.roots[(size_t)i]); check_field(nf.data() + i, E, "embedding #" + std::to_string(i)); CHECK(nf[(size_t)i].prec == prec && accurate(nf[(size_t)i].emb, prec), "embeddings-accuracy", "embedding #" << i << " at " << prec << " bits is only known as " << arb_s(nf[(size_t)i].emb)); }
    for (slong i = 0; i < m; i++) for (slong j = 0; j < m; j++) CHECK(!!renf_equal(nf.data() + i, nf.data() + j) == (i == j), "embeddings-equal", "embeddings " << i << " and " << j);
    if (n > 1) nontrivial();
}
PROPERTY("C06.roots", c06_roots, 30000, 300000, 20, "all real embeddings of a random irreducible polynomial: number, order, and isolation of each root; non-trivial: several real roots");

static void c06_nth(Src& s) {
    mpq_class q; ulong n;
    for (int t = 0;; t++) {
        mpz_class a = abs(nonzero(s, s.chance(1, 4) ? 90 : 12)), b = s.chance(1, 2) ? mpz_class(1) : mpz_class(abs(nonzero(s, s.chance(1, 4) ? 90 : 12)));
        q = mpq_class(a, b); q.canonicalize(); n = (ulong)s.range(1, rare(s, 30) ? 40 : 12);
        ZPoly f((size_t)n + 1); f[0] = -q.get_num(); f[n] = q.get_den();
        if (irreducible(f)) break;
        if (t > 5) { q = 2; break; }
    }
    slong prec = precision(s);
    NOTE("nth root: n=" << n << " d=" << q << " prec=" << prec);
    Q d(q); renf_t nf; renf_init_nth_root_fmpq(nf, d.v, n, prec);
    struct G { renf* p; ~G() { renf_clear(p); } } g{nf};
    QPoly pol((size_t)n + 1); pol[0] = -q; pol[n] = 1;
    FieldSpec F = spec_from(pol, 0, "nth"); F.index = F.roots.size() - 1; F.K = std::make_shared<orc::Field>(F.f, F.roots[F.index]);
    check_field(nf, F, "n-th root");
    CHECK(d.get() == q, "operand-changed", "the radicand was modified");
    renf_elem_t a; renf_elem_init(a, nf); renf_elem_gen(a, nf); renf_elem_pow(a, a, n, nf);
    bool eq = renf_elem_equal_fmpq(a, d.v, nf); renf_elem_clear(a, nf);
    CHECK(eq, "nth-root", "the n-th power of the generator is not the radicand");
    if (n > 1) nontrivial();
}
PROPERTY("C06.nth", c06_nth, 10000, 100000, 20, "n-th roots of random rationals; non-trivial: n > 1");

static void c06_random(Src& s) {
    // the random constructions of the library: any field and element they deliver is a valid one
    flint_rand_t st; flint_randinit(st); flint_randseed(st, s.draw(UINT64_MAX), s.draw(UINT64_MAX));
    struct S { flint_rand_s* p; ~S() { flint_randclear(p); } } g{st};
    slong len = (slong)s.range(2, 9), prec = precision(s); mp_bitcnt_t bits = (mp_bitcnt_t)s.range(2, 40);
    NOTE("randtest len=" << len << " prec=" << prec << " bits=" << bits);
    { ZP p; fmpz_poly_randtest_irreducible(p.v, st, len, bits); CHECK((slong)p.get().size() <= len && irreducible(p.get()), "irreducible", "the random polynomial " << orc::str(p.get()) << " is not irreducible of length at most " << len); }
    renf_t nf; renf_randtest(nf, st, len, prec, bits);
    struct G { renf* p; ~G() { renf_clear(p); } } h{nf};
    QP p; fmpq_poly_set(p.v, nf->nf->pol); QPoly pol = p.get();
    CHECK((slong)pol.size() <= len, "random-degree", "random field of length " << len << " has polynomial " << orc::str(pol));
    ZPoly f = orc::primitive(pol); CHECK(irreducible(f), "random-irreducible", "random field with polynomial " << orc::str(pol));
    auto roots = orc::real_roots(f); size_t found = roots.size();
    for (size_t i = 0; i < roots.size(); i++) { FieldSpec F = spec_from(pol, i, "random"); if (encloses(nf->emb, Elem::gen(F.K))) { CHECK(found == roots.size(), "random-root", "enclosure " << arb_s(nf->emb) << " of a random field contains several roots of " << orc::str(pol)); found = i; } }
    CHECK(found < roots.size(), "random-root", "enclosure " << arb_s(nf->emb) << " of a random field contains no root of " << orc::str(pol));
    FieldSpec F = spec_from(pol, found, "random"); check_field(nf, F, "random field");
    for (int i = 0; i < 3; i++) {
        CE a(nf); renf_elem_randtest(a.v, st, (mp_bitcnt_t)s.range(1, 200), nf);
        Elem e = read(a.v, nf, F.K); NOTE("element " << e.str());
        CHECK(encloses(a.v->emb, e), "random-enclosure", "random element " << e.str() << " with enclosure " << arb_s(a.v->emb));
        CE b(nf); set_direct(b.v, e, nf); CHECK(renf_elem_equal(a.v, b.v, nf) && renf_elem_cmp(a.v, b.v, nf) == 0, "random-equal", "random element " << e.str() << " differs from itself");
        Z z; renf_elem_floor(z.v, a.v, nf); CHECK(z.get() == e.floor(), "random-floor", "floor of the random element " << e.str() << " is " << z.get());
    }
    if (len > 2) nontrivial();
}
PROPERTY("C06.random", c06_random, 8000, 80000, 20, "random polynomials, fields and elements of the library itself, from random seeds, are valid; non-trivial: degree > 1");

// ------------------------------------------------------------------ C08
// a squarefree polynomial, with rational, dyadic and irrational roots
static ZPoly zmul(const ZPoly& a, const ZPoly& b) { ZPoly r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static ZPoly some_poly(Src& s, bool squarefree) {
    ZPoly p;
    switch (s.pick({4, 4, 2, 3, 2, 2, 3})) {
    case 0: { int d = rare(s, 40) ? (int)s.range(13, 40) : (int)s.range(0, 12); for (int i = 0; i <= d; i++) p.push_back(s.chance(1, 6) ? mpz_class(0) : integer(s, d <= 12 && s.chance(1, 3) ? 100 : 6)); break; }
    case 1: { p = {mpz_class(1)}; int k = rare(s, 40) ? (int)s.range(7, 24) : (int)s.range(1, 6); for (int i = 0; i < k; i++) { mpz_class a, b; if (s.chance(1, 2)) { a = (long)s.range(-40, 40); b = 1; b <<= (unsigned long)s.range(0, 5); } else { a = integer(s, 10); b = abs(nonzero(s, 6)); } p = zmul(p, ZPoly{mpz_class(-a), b}); } if (s.chance(1, 3)) { const char* f; p = zmul(p, irreducible_poly(s, SMALL_ONLY | NO_LINEAR, 4, f)); } if (s.chance(1, 3)) p = zmul(p, ZPoly{abs(nonzero(s, 8)), mpz_class((long)s.range(-2, 2)), mpz_class(1)}); break; }
    case 2: { const char* f; p = irreducible_poly(s, 0, 8, f); break; }
    case 3: { int d = rare(s, 40) ? (int)s.range(11, 40) : (int)s.range(1, 10); for (int i = 0; i <= d; i++) { mpz_class c = 1; c <<= (unsigned long)s.range(0, 12); if (s.chance(1, 8)) c = 0; if (i < d && s.chance(2, 3)) c = -c; p.push_back(c); } break; }       // one sign change, powers of two
    case 4: { const char* f; p = zmul(irreducible_poly(s, 0, 5, f), irreducible_poly(s, NO_EXTREME, 4, f)); break; }
    case 6: { // pairs of complex roots, often close to the real line: ((b x - a)^2 2^k + c)...
        p = {mpz_class(1)}; int m = (int)s.range(1, 4);
        for (int i = 0; i < m; i++) { mpz_class a = integer(s, 6), b = abs(nonzero(s, 5)), t = 1, c = abs(nonzero(s, 4)); t <<= (unsigned long)s.range(0, 40); p = zmul(p, ZPoly{mpz_class(t * a * a + c), mpz_class(-2 * t * a * b), mpz_class(t * b * b)}); }
        if (s.chance(1, 3)) { mpz_class a = (long)s.range(-9, 9), b = 1; b <<= (unsigned long)s.range(0, 4); p = zmul(p, ZPoly{a, b}); }
        break; }
    default: { // clustered roots: (x - a)(x - a - 2^-k)...
        p = {mpz_class(1)}; mpz_class a = (long)s.range(-5, 5); int k = (int)s.range(1, 40), m = (int)s.range(1, 4); for (int i = 0; i < m; i++) { mpz_class D = 1; D <<= (unsigned long)k; p = zmul(p, ZPoly{mpz_class(-(a * D + (long)i * (long)s.range(1, 2))), D}); } break; }
    }
    orc::trim(p);
    if (p.empty()) p = {mpz_class(1)};
    if (s.chance(1, 4)) { mpz_class c = nonzero(s, 20); for (auto& x : p) x *= c; }
    if (p.size() > 1 && p.size() < 14 && s.chance(1, 6)) { // roots scaled by a power of two, mirrored or inverted
        unsigned long j = (unsigned long)s.range(1, s.chance(1, 4) ? 60 : 6);
        switch (s.below(4)) {
        case 0: for (size_t i = 0; i < p.size(); i++) p[i] <<= j * i; break;
        case 1: for (size_t i = 0; i < p.size(); i++) p[i] <<= j * (p.size() - 1 - i); break;
        case 2: for (size_t i = 1; i < p.size(); i += 2) p[i] = -p[i]; break;
        default: std::reverse(p.begin(), p.end()); orc::trim(p); if (p.empty()) p = {mpz_class(1)};
        }
    }
    if (squarefree && p.size() > 2) { ZPoly q = orc::squarefree(p); if (q.size() != p.size()) p = q; }
    return p;
}

static void c08_count(Src& s) {
    ZPoly f = some_poly(s, true);
    NOTE("p = " << orc::str(f));
    orc::Sturm st(f); long total = f.size() > 1 ? st.total() : 0;
    ZP p(f);
    CHECK(!!fmpz_poly_has_real_root(p.v) == (total > 0), "has_real_root", "has_real_root of " << orc::str(f) << " with " << total << " real roots");
    slong v = fmpz_poly_num_real_roots_vca(p.v); CHECK(v == total, "vca", "num_real_roots_vca of " << orc::str(f) << " is " << v << " instead of " << total);
    slong ub = fmpz_poly_num_real_roots_upper_bound(p.v); CHECK(ub >= total && ub <= (slong)f.size() - 1, "upper_bound", "num_real_roots_upper_bound of " << orc::str(f) << " is " << ub << ", there are " << total);
    CHECK(p.get() == f, "operand-changed", "the polynomial was modified");
    mpz_class at1 = 0; for (auto& c : f) at1 += c;
    { Z z; fmpz_poly_evaluate_at_one(z.v, p.v->coeffs, p.v->length); CHECK(z.get() == at1, "at_one", "value at one"); }
    if (f[0] != 0 && at1 != 0 && f.size() > 1) {
        long in = st.count(0, 1);
        slong a = fmpz_poly_num_real_roots_0_1(p.v), b = fmpz_poly_num_real_roots_0_1_vca(p.v), c = fmpz_poly_num_real_roots_0_1_sturm(p.v);
        CHECK(a == in && b == in, "roots_0_1", "number of roots of " << orc::str(f) << " in (0, 1) is " << a << ", " << b << " instead of " << in);
        CHECK(c == in, "roots_0_1_sturm", "number of roots of " << orc::str(f) << " in (0, 1) by Sturm is " << c << " instead of " << in);
        slong db = _fmpz_poly_descartes_bound_0_1(p.v->coeffs, p.v->length, WORD_MAX - 1);
        CHECK(db >= in && (db - in) % 2 == 0, "descartes_0_1", "Descartes bound on (0, 1) of " << orc::str(f) << " is " << db << ", there are " << in << " roots");
        slong lim = (slong)s.range(0, 3), dl = _fmpz_poly_descartes_bound_0_1(p.v->coeffs, p.v->length, lim);
        CHECK(dl == (db > lim ? WORD_MAX : db), "descartes_limit", "Descartes bound with limit " << lim << " of " << orc::str(f) << " is " << dl << ", without limit " << db);
    }
    {   // positive roots lie below 2^k
        slong k = fmpz_poly_positive_root_upper_bound_2exp(p.v);
        long pos = f.size() > 1 ? total - (st.variations_inf(-1) - st.variations(mpq_class(0))) : 0;      // roots in (0, oo)
        long beyond;
        if (k < -100000) beyond = pos; else if (k > 100000) beyond = 0; else beyond = f.size() > 1 ? st.variations(orc::pow2(k)) - st.variations_inf(1) : 0;
        CHECK(beyond == 0, "root-bound", orc::str(f) << " has a positive root above 2^" << k);
        if (f[0] != 0) CHECK(_fmpz_poly_positive_root_upper_bound_2exp(p.v->coeffs, p.v->length) == k && _fmpz_poly_positive_root_upper_bound_2exp_local_max(p.v->coeffs, p.v->length) == k && !!_fmpz_poly_has_real_root(p.v->coeffs, p.v->length) == (total > 0), "variants", "variants of a function disagree for " << orc::str(f));
    }
    if (f.size() > 2) { label(total ? "roots" : "no-roots"); nontrivial(); }
}
PROPERTY("C08.count", c08_count, 200000, 2000000, 20, "numbers of real roots (total, in the unit interval), Descartes and root bounds of random squarefree polynomials against Sturm sequences; non-trivial: degree > 1");

static void c08_isolate(Src& s) {
    ZPoly f = some_poly(s, true);
    NOTE("p = " << orc::str(f));
    orc::Sturm st(f); long total = f.size() > 1 ? st.total() : 0;
    ZP p(f);
    slong ub = (slong)f.size();
    fmpq* ex = (fmpq*)flint_malloc(sizeof(fmpq) * (size_t)(ub + 1)); for (slong i = 0; i <= ub; i++) fmpq_init(ex + i);
    fmpz* c = _fmpz_vec_init(ub + 1); std::vector<slong> k((size_t)ub + 1, 0);
    slong ne = 99, ni = 99;
    fmpz_poly_isolate_real_roots(ex, &ne, c, k.data(), &ni, p.v);
    std::vector<mpq_class> E; std::vector<std::pair<mpq_class, mpq_class>> I;
    for (slong i = 0; i < ne && i <= ub; i++) { mpq_class q; fmpq_get_mpq(q.get_mpq_t(), ex + i); E.push_back(q); }
    for (slong i = 0; i < ni && i <= ub; i++) { mpz_class z; fmpz_get_mpz(z.get_mpz_t(), c + i); mpq_class w = orc::pow2(k[(size_t)i]); I.emplace_back(z * w, (z + 1) * w); }
    slong ne2 = 5, ni2 = 7; fmpz_poly_isolate_real_roots(nullptr, &ne2, nullptr, nullptr, &ni2, p.v);
    for (slong i = 0; i <= ub; i++) fmpq_clear(ex + i);
    flint_free(ex); _fmpz_vec_clear(c, ub + 1);
    CHECK(ne2 == ne && ni2 == ni, "isolate-null", "isolation without output reports " << ne2 << " + " << ni2 << " roots instead of " << ne << " + " << ni);
    CHECK(ne + ni == total, "isolate-total", "isolation of " << orc::str(f) << " found " << ne << " + " << ni << " roots instead of " << total);
    for (size_t i = 0; i < E.size(); i++) { CHECK(orc::sgn_at(f, E[i]) == 0, "isolate-exact", E[i] << " is not a root of " << orc::str(f)); if (i) CHECK(E[i - 1] < E[i], "isolate-order", "exact roots are not increasing"); }
    for (size_t i = 0; i < I.size(); i++) {
        long n = st.count(I[i].first, I[i].second) - (orc::sgn_at(f, I[i].second) == 0);
        CHECK(n == 1, "isolate-interval", "the open interval (" << I[i].first << ", " << I[i].second << ") contains " << n << " roots of " << orc::str(f));
        for (auto& q : E) CHECK(!(I[i].first < q && q < I[i].second), "isolate-interval", "an exact root lies in an isolating interval");
        if (i) CHECK(I[i - 1].second <= I[i].first, "isolate-order", "intervals overlap or are not increasing");
    }
    {   // in the unit interval
        mpz_class at1 = 0; for (auto& x : f) at1 += x;
        if (f.size() > 1 && f[0] != 0 && at1 != 0) {
            long in = st.count(0, 1); slong ne3 = 0, ni3 = 0;
            fmpq* ex3 = (fmpq*)flint_malloc(sizeof(fmpq) * (size_t)(ub + 1)); for (slong i = 0; i <= ub; i++) fmpq_init(ex3 + i);
            fmpz* c3 = _fmpz_vec_init(ub + 1); std::vector<slong> k3((size_t)ub + 1, 0);
            _fmpz_poly_isolate_real_roots_0_1_vca(ex3, &ne3, c3, k3.data(), &ni3, p.v->coeffs, p.v->length);
            std::vector<std::pair<mpq_class, mpq_class>> J;
            for (slong i = 0; i < ne3 && i <= ub; i++) { mpq_class q; fmpq_get_mpq(q.get_mpq_t(), ex3 + i); J.emplace_back(q, q); }
            for (slong i = 0; i < ni3 && i <= ub; i++) { mpz_class z; fmpz_get_mpz(z.get_mpz_t(), c3 + i); mpq_class w = orc::pow2(k3[(size_t)i]); J.emplace_back(z * w, (z + 1) * w); }
            for (slong i = 0; i <= ub; i++) fmpq_clear(ex3 + i);
            flint_free(ex3); _fmpz_vec_clear(c3, ub + 1);
            CHECK((long)J.size() == in, "vca-total", "isolation of " << orc::str(f) << " in (0, 1) found " << ne3 << " + " << ni3 << " roots instead of " << in);
            for (size_t i = 0; i < J.size(); i++) {
                auto& a = J[i]; CHECK(0 <= a.first && a.second <= 1, "vca-range", "isolation of " << orc::str(f) << " in (0, 1) left the interval");
                if (a.first == a.second) CHECK(orc::sgn_at(f, a.first) == 0, "vca-exact", a.first << " is not a root of " << orc::str(f));
                else CHECK(st.count(a.first, a.second) - (orc::sgn_at(f, a.second) == 0) == 1, "vca-interval", "the open interval (" << a.first << ", " << a.second << ") does not contain exactly one root of " << orc::str(f));
                for (size_t j = 0; j < i; j++) CHECK(J[j].second <= a.first || a.second <= J[j].first, "vca-overlap", "overlapping intervals for " << orc::str(f));
            }
        }
    }
    CHECK(p.get() == f, "operand-changed", "the polynomial was modified");
    if (ne && ni) label("both");
    if (total > 0 && f.size() > 2) nontrivial();
}
PROPERTY("C08.isolate", c08_isolate, 150000, 1500000, 20, "isolating intervals and exact roots of random squarefree polynomials: every root exactly once, in order; non-trivial: degree > 1 with a real root");

static void c08_poly(Src& s) {
    ZPoly f = some_poly(s, false);
    if (s.chance(1, 3)) { ZPoly g = some_poly(s, false); if (g.size() < 6 && f.size() < 8) f = zmul(zmul(f, g), g); }
    NOTE("p = " << orc::str(f));
    ZP p(f);
    {   // squarefree part: same roots, primitive multiple of the model's
        ZP r; bool alias = s.chance(1, 4); if (alias) fmpz_poly_set(r.v, p.v); fmpz_poly_squarefree_part(r.v, alias ? r.v : p.v);
        ZPoly g = r.get();
        CHECK(!g.empty(), "squarefree", "squarefree part is zero");
        CHECK(f.size() < 2 || g.back() > 0, "squarefree-sign", "leading coefficient of the squarefree part is not positive");
        ZPoly want = f.size() > 1 ? orc::squarefree(f) : ZPoly{mpz_class(1)};
        auto prim = [](ZPoly a) { mpz_class c = 0; for (auto& x : a) c = gcd(c, x); if (c == 0) return a; if (a.back() < 0) c = -c; for (auto& x : a) x /= c; return a; };
        CHECK(prim(g) == prim(want), "squarefree", "squarefree part of " << orc::str(f) << " is " << orc::str(g));
    }
    {   // affine change of variables
        mpq_class a = rational(s, 20), b = rational(s, 20); if (a == b) b += 1;
        Q qa(a), qb(b); ZP r(f);
        if (f.size() > 1) {
            _fmpz_poly_scale_0_1_fmpq(r.v->coeffs, r.v->length, qa.v, qb.v);
            CHECK(qa.get() == a && qb.get() == b, "operand-changed", "an end point was modified");
            ZPoly g = r.get(); CHECK(g.size() == f.size(), "scale_0_1", "degree changed");
            // g(x) is proportional to f(a + (b - a) x): compare at degree + 1 points
            mpq_class ratio = 0; bool have = false; mpz_class cont = 0; for (auto& x : g) cont = gcd(cont, x);
            CHECK(abs(cont) == 1, "scale_0_1", "the result is not primitive");
            for (long t = -1; t <= (long)f.size(); t++) {
                mpq_class u = orc::eval(f, a + (b - a) * t), v = orc::eval(g, mpq_class(t));
                CHECK((u == 0) == (v == 0), "scale_0_1", "roots moved");
                if (u == 0) continue;
                mpq_class q = v / u; if (have) CHECK(q == ratio, "scale_0_1", orc::str(f) << " composed with [" << a << ", " << b << "] gives " << orc::str(g)); ratio = q; have = true;
            }
        }
    }
    { ZP r; bool alias = s.chance(1, 3); if (alias) fmpz_poly_set(r.v, p.v); fmpz_poly_abs(r.v, alias ? r.v : p.v); ZPoly g = r.get(); CHECK(g.size() == f.size(), "abs", "length"); for (size_t i = 0; i < f.size(); i++) CHECK(g[i] == abs(f[i]), "abs", "coefficient " << i); }
    CHECK(p.get() == f, "operand-changed", "the polynomial was modified");
    if (f.size() > 2) nontrivial();
}
PROPERTY("C08.poly", c08_poly, 60000, 600000, 20, "squarefree parts, affine substitutions and absolute values of random polynomials; non-trivial: degree > 1");

// ------------------------------------------------------------------ C09
// bisection down to width 2^-bits; also fine for roots of reducible polynomials
static void bisect(const ZPoly& f, orc::Root& R, long bits) {
    if (R.exact) return;
    int sl = orc::sgn_at(f, R.L, R.k);
    if (sl == 0) sl = -orc::sgn_at(f, R.H, R.k);
    while (mpq_class(R.H - R.L) > orc::pow2(R.k - bits)) {
        mpz_class m = R.L + R.H; R.L *= 2; R.H *= 2; R.k++;
        int t = orc::sgn_at(f, m, R.k);
        if (t == 0) { R.exact = true; R.q = mpq_class(m) * orc::pow2(-R.k); return; }
        if (t == sl) R.L = m; else R.H = m;
    }
}
static void c09_unique(Src& s) {
    ZPoly f;
    if (s.chance(1, 2)) { const char* fam; f = irreducible_poly(s, 0, 8, fam); label(fam); } else { f = some_poly(s, true); label("squarefree"); }
    if (f.size() < 2) f = {mpz_class(-1), mpz_class(3)};
    QPoly q(f.begin(), f.end()); if (s.chance(1, 3)) { mpq_class m = rational(s, 20); if (m == 0) m = mpq_class(-2, 7); for (auto& c : q) c *= m; }
    auto roots = orc::real_roots(f);
    Ball b;
    if (roots.empty() || s.chance(1, 4)) { b.c = rational(s, 10); mpz_class z = orc::fdiv(b.c * 4096); b.c = mpq_class(z) * orc::pow2(-12); b.r = mpq_class((long)s.range(0, 1000)) * orc::pow2(-s.range(0, 10)); }
    else {
        // end points close to roots or their midpoints
        size_t i = s.below(roots.size()), j = std::min(roots.size() - 1, i + s.below(3));
        auto ap = [&](size_t k, long bits) -> mpq_class { if (roots[k].exact) { mpz_class z = orc::fdiv(roots[k].q * orc::pow2(bits)); return mpq_class(z) * orc::pow2(-bits); } orc::Root R = roots[k]; bisect(f, R, bits); if (R.exact) { mpz_class z = orc::fdiv(R.q * orc::pow2(bits)); return mpq_class(z) * orc::pow2(-bits); } return mpq_class(R.L) * orc::pow2(-R.k); };
        long bits = rare(s, 12) ? s.range(100, 2500) : s.range(2, 60);
        mpq_class l = ap(i, bits) + orc::pow2(-bits) * (long)s.range(-3, 3), r = ap(j, bits) + orc::pow2(-bits) * (long)s.range(-3, 3);
        if (l > r) std::swap(l, r);
        b.c = (l + r) / 2; b.r = (r - l) / 2;
        // radius must have 30 bits
        mpz_class n = b.r.get_num(); size_t sz = mpz_sizeinbase(n.get_mpz_t(), 2);
        if (sz > 28) { n >>= (sz - 28); b.r = mpq_class(n) * orc::pow2((long)(sz - 28)) / b.r.get_den(); b.r.canonicalize(); if (s.chance(2, 3)) b.c = s.chance(1, 2) ? mpq_class(l + b.r) : mpq_class(r - b.r); }
    }
    slong prec = precision(s);
    Arb a; set_arb(a.v, b); QP p(q);
    mpq_class lo = b.c - b.r, hi = b.c + b.r;
    orc::Sturm st(f);
    long n = st.count(lo, hi) + (orc::sgn_at(f, lo) == 0);
    bool edge = orc::sgn_at(f, lo) == 0 || orc::sgn_at(f, hi) == 0;
    NOTE("check_unique_real_root " << orc::str(q) << " on [" << lo << ", " << hi << "] prec " << prec << ": " << n << " roots");
    int r = fmpq_poly_check_unique_real_root(p.v, a.v, prec);
    if (r) CHECK(n == 1, "unique-unsound", orc::str(q) << " was found to have a unique root in [" << lo << ", " << hi << "], it has " << n);
    if (n == 1 && !edge) CHECK(r, "unique-incomplete", orc::str(q) << " has a unique root in [" << lo << ", " << hi << "], this was not recognised");
    CHECK(p.get() == q, "operand-changed", "the polynomial was modified");
    if (f.size() > 2) { nontrivial(); label(n == 0 ? "0" : n == 1 ? "1" : "many"); }
}
PROPERTY("C09.unique", c09_unique, 60000, 600000, 20, "the test for a unique root in a ball against Sturm counts, for balls with end points near roots; non-trivial: degree > 1");

static void c09_steps(Src& s) {
    FieldSpec F = field(s, NO_LINEAR, 8); label(F.family);
    Ball b = ball(s, F); Arb a; set_arb(a.v, b);
    ZP p(F.f), der(orc::derivative(F.f));
    Elem g = Elem::gen(F.K);
    int n = (int)s.range(1, 8);
    bool any = false;
    for (int i = 0; i < n; i++) {
        slong prec = (slong)s.range(2, 400); if (s.chance(1, 6)) prec = (slong)s.range(400, 2000);
        Arb r; bool newton = s.chance(1, 2);
        int ok = newton ? fmpz_poly_newton_step_arb(r.v, p.v, der.v, a.v, prec) : fmpz_poly_bisection_step_arb(r.v, p.v, a.v, prec);
        NOTE((newton ? "newton" : "bisection") << " prec " << prec << " from " << arb_s(a.v) << " -> " << ok << " " << (ok ? arb_s(r.v) : ""));
        if (!ok) continue;
        any = true;
        CHECK(arb_finite(r.v), "step-finite", "a refinement step returned an infinite ball");
        mpq_class l0, h0, l1, h1; arb_bounds(l0, h0, a.v); arb_bounds(l1, h1, r.v);
        CHECK(encloses(r.v, g), "step-root", (newton ? "Newton" : "bisection") << " step from " << arb_s(a.v) << " to " << arb_s(r.v) << " lost the root");
        CHECK(l0 <= l1 && h1 <= h0, "step-nested", (newton ? "Newton" : "bisection") << " step from " << arb_s(a.v) << " to " << arb_s(r.v) << " is not contained in the former ball");
        CHECK(l0 < l1 || h1 < h0, "step-progress", (newton ? "Newton" : "bisection") << " step reported success without progress");
        arb_set(a.v, r.v);
    }
    if (any) nontrivial();
}
PROPERTY("C09.steps", c09_steps, 60000, 600000, 20, "single Newton and bisection steps from isolating balls: a successful step keeps the root, is nested and makes progress; non-trivial: some step succeeded");

static void c09_refine(Src& s) {
    CField C; make_cfield(s, C, NO_LINEAR); label(C.F.family);
    int n = (int)s.range(1, 5);
    for (int i = 0; i < n; i++) {
        mpq_class l0, h0, l1, h1; arb_bounds(l0, h0, C.nf->emb);
        slong prec = s.chance(1, 8) ? (slong)s.range(1000, 6000) : (slong)s.range(2, 1000);
        NOTE("refine to " << prec);
        renf_refine_embedding(C.nf, prec);
        check_emb(C.nf->emb, C.F, "after refinement to " + std::to_string(prec) + " bits");
        CHECK(accurate(C.nf->emb, prec), "refine-accuracy", "after refinement to " << prec << " bits: " << arb_s(C.nf->emb));
        arb_bounds(l1, h1, C.nf->emb);
        CHECK(l0 <= l1 && h1 <= h0, "refine-nested", "refinement enlarged the enclosure of the generator");
        CHECK(C.nf->immutable == 0, "refine-mutable", "the field was left immutable");
    }
    nontrivial();
}
PROPERTY("C09.refine", c09_refine, 30000, 300000, 20, "sequences of refinements of the generator: nested, isolating the selected root, and as accurate as requested");
