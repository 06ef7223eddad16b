// C07: independence of precision and history; C12: unique fields and lifetimes;
// C13: value semantics and mixing of fields; C14: predicates, parts, hashes.
#include "ops.hpp"
#include <iostream>
#include <map>
#include <set>
#include <tuple>
#include <cmath>
#include <memory>
#include <unordered_set>
#include <algorithm>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN
#endif
#endif
#ifdef WITH_ASAN
#include <sanitizer/asan_interface.h>
#define FREED(p) __asan_address_is_poisoned(p)
#else
#define FREED(p) true
#endif
using namespace ops; using namespace pbt;
using eantic::renf_class;

static void quiet() { std::cerr.setstate(std::ios::failbit); }   // the library announces deprecated mixing on std::cerr

// ------------------------------------------------------------------ C07
// Run a program that is encoded in `prog` in the given field and log everything observable.
static std::vector<std::string> run_program(const std::vector<uint64_t>& prog, const std::vector<Elem>& init, const FieldSpec& F, KP K, Src* noise) {
    static thread_local Record* rec = new Record;
    Src p(prog, rec);
    std::vector<std::string> log; auto out = [&](const std::string& s) { log.push_back(s); };
    std::vector<X> r;
    for (auto& e : init) { X x(*K); set_direct(x.renf_elem_t(), e, K->renf_t()); r.push_back(x); }
    int n = rare(p, 40) ? (int)p.range(11, 40) : (int)p.range(2, 10);
    for (int i = 0; i < n; i++) {
        if (noise && noise->chance(1, 3)) {
            size_t j = noise->below(r.size());
            switch (noise->below(8)) {
            case 0: if (F.d > 1) renf_refine_embedding(K->renf_t(), (slong)noise->range(2, 900)); break;
            case 1: renf_elem_set_evaluation(r[j].renf_elem_t(), K->renf_t(), (slong)noise->range(2, 400)); break;
            case 2: (void)r[j].floor(); break;
            case 3: (void)static_cast<double>(r[j]); break;
            case 4: { X c(r[j]); X d(std::move(c)); r[j] = d; break; }
            case 5: { Arb a; renf_elem_get_arb(a.v, r[j].renf_elem_t(), K->renf_t(), (slong)noise->range(2, 500)); break; }
            case 6: { X t = K->gen() * K->gen() + 1; (void)(t < r[j]); break; }
            default: { X t(*K, r[j].to_string(EANTIC_STR_ALG)); r[j] = t; break; }
            }
        }
        size_t d = p.below(3), a = p.below(3), b = p.below(3);
        for (size_t k : {a, b}) { mpz_class big = 0; for (auto& z : r[k].num_vector()) big += abs(z); if (mpz_sizeinbase(big.get_mpz_t(), 2) > 2500) r[k] = K->gen(); }
        switch (p.below(16)) {
        case 0: r[d] = r[a] + r[b]; break;
        case 1: r[d] = r[a] - r[b]; break;
        case 2: r[d] = r[a] * r[b]; break;
        case 3: if (!r[b].is_zero()) r[d] = r[a] / r[b]; break;
        case 4: { mpq_class q = rational(p, 60); r[d] = r[a] * q; break; }
        case 5: { mpz_class z = integer(p, 100); r[d] = r[a] - z; break; }
        case 6: r[d] = -r[a]; break;
        case 7: { int c = r[a] < r[b] ? -1 : r[a] > r[b] ? 1 : 0; out("cmp " + std::to_string(c) + std::to_string(r[a] == r[b])); break; }
        case 8: out("floor " + r[a].floor().get_str()); break;
        case 9: out("ceil " + r[a].ceil().get_str()); break;
        case 10: out("double " + d_str(static_cast<double>(r[a]))); break;
        case 11: out("sgn " + std::to_string(r[a].sgn())); break;
        case 12: out("text " + r[a].to_string()); break;
        case 13: if (!r[b].is_zero()) out("floordiv " + r[a].floordiv(r[b]).get_str()); break;
        case 14: { mpq_class q = rational(p, 60); out(std::string("cmpq ") + (r[a] < q ? "<" : r[a] == q ? "=" : ">")); break; }
        default: { mpz_class fl = r[a].floor(); r[d] = r[a] - fl; break; }        // a value-dependent result
        }
    }
    for (auto& x : r) {
        out("final " + x.to_string(EANTIC_STR_ALG) + " | " + x.to_string(EANTIC_STR_D) + " | " + x.floor().get_str() + " | " + std::to_string(std::hash<X>()(x)) + " | " + d_str(static_cast<double>(x)));
        std::ostringstream o; o << x; out("printed " + o.str());
    }
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) out(r[i] < r[j] ? "<" : r[i] == r[j] ? "=" : ">");
    return log;
}
static void c07(Src& s) {
    FieldSpec F = field(s); label(F.family); std::string name = gen_name(s);
    std::vector<uint64_t> prog; int len = (int)s.range(20, rare(s, 40) ? 600 : 160);
    for (int i = 0; i < len; i++) prog.push_back(s.draw(UINT64_MAX));
    std::vector<Elem> init; for (int i = 0; i < 3; i++) { init.push_back(elem(s, F.K, 50)); NOTE("r" << i << " = " << init.back().str()); }
    std::vector<std::string> A, B;
    { KP K = make_class(s, F, name); A = run_program(prog, init, F, K, nullptr); if (verbose()) for (auto& l : A) NOTE("  " << l); }
    bool second = s.chance(1, 3);
    { KP K = make_class(s, F, name); if (second) (void)run_program(prog, init, F, K, nullptr); NOTE("second run" << (second ? " (after a warm-up run in the same field)" : "")); B = run_program(prog, init, F, K, &s); }
    CHECK(A.size() == B.size(), "history", "the two runs took different paths: " << A.size() << " and " << B.size() << " observations");
    for (size_t i = 0; i < A.size(); i++) CHECK(A[i] == B[i], "history", "observation #" << i << " differs between two configurations: " << A[i] << " and " << B[i]);
    if (F.d > 1) nontrivial();
}
PROPERTY("C07.run", c07, 60000, 600000, 30, "a random program run in two incarnations of a field with different enclosure, precision and interleaved refinements; all observations must agree; non-trivial: degree > 1");
static void c07_reuse(Src& s) { c07(s); }
PROPERTY("C07.reuse", c07_reuse, 20000, 200000, 30, "as C07.run, with an allocator that reuses memory immediately; non-trivial: as C07.run");

// the same in C, with registers that are copies of each other
static void c07_c(Src& s) {
    CField C; make_cfield(s, C); label(C.F.family);
    CField D; D.F = C.F; init_cfield(s, D);
    Elem e = elem(s, C.F.K, 70), f = s.chance(1, 2) ? e + mpq_class(tiny(s, C.F.K).approx(200)) : elem(s, C.F.K, 70);
    NOTE("a = " << e.str() << ", b = " << f.str());
    CE a(C.nf), b(C.nf), c(D.nf), d(D.nf);
    build(s, a.v, e, C.nf); build(s, b.v, f, C.nf); set_direct(c.v, e, D.nf); set_direct(d.v, f, D.nf);
    for (int i = 0; i < 3; i++) {
        int k = (int)s.below(6);
        if (k == 0) { int u = renf_elem_cmp(a.v, b.v, C.nf), v = renf_elem_cmp(c.v, d.v, D.nf); CHECK((u > 0) - (u < 0) == (v > 0) - (v < 0), "cmp", "comparison depends on the representation"); }
        if (k == 1) { Z u, v; renf_elem_floor(u.v, a.v, C.nf); renf_elem_floor(v.v, c.v, D.nf); CHECK(u.get() == v.get(), "floor", "floor depends on the representation"); }
        if (k == 2) { arf_rnd_t m = (arf_rnd_t)s.below(5); double u = renf_elem_get_d(a.v, C.nf, m), v = renf_elem_get_d(c.v, D.nf, m); CHECK(u == v, "get_d", "double depends on the representation: " << d_str(u) << " " << d_str(v)); }
        if (k == 3 && !f.is_zero()) { Z u, v; renf_elem_fdiv(u.v, a.v, b.v, C.nf); renf_elem_fdiv(v.v, c.v, d.v, D.nf); CHECK(u.get() == v.get(), "fdiv", "floor division depends on the representation"); }
        if (k == 4) { std::vector<mpz_class> x, y; slong n = (slong)s.range(1, 12); { size_t fb = 0; for (auto& z : C.F.f) fb += mpz_sizeinbase(z.get_mpz_t(), 2); if (size_of(e) + fb > 1200) n = 1; else if (size_of(e) + fb > 500) n = std::min<slong>(n, 4); } for (int w = 0; w < 2; w++) { fmpz* q = _fmpz_vec_init(n); CE rem(w ? D.nf : C.nf); slong m = renf_elem_get_cfrac(q, rem.v, w ? c.v : a.v, n, w ? D.nf : C.nf); auto& o = w ? y : x; for (slong j = 0; j < m; j++) { mpz_class z; fmpz_get_mpz(z.get_mpz_t(), q + j); o.push_back(z); } _fmpz_vec_clear(q, n); } CHECK(x == y, "cfrac", "continued fraction depends on the representation"); }
        if (k == 5) { char* u = renf_elem_get_str_pretty(a.v, "t", C.nf, 10, EANTIC_STR_ALG | EANTIC_STR_D); char* v = renf_elem_get_str_pretty(c.v, "t", D.nf, 10, EANTIC_STR_ALG | EANTIC_STR_D); std::string x(u), y(v); flint_free(u); flint_free(v); CHECK(x == y, "text", "text depends on the representation: " << x << " and " << y); }
    }
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C07.c", c07_c, 40000, 400000, 60, "observers of the C interface on the same values in two copies of a field with different precision and enclosures; non-trivial: degree > 1");

// ------------------------------------------------------------------ C12
struct Kind { FieldSpec F; std::string name; };          // what identifies a field
static FieldSpec with_root(const FieldSpec& F, size_t i) { FieldSpec G = F; G.index = i; G.K = std::make_shared<orc::Field>(G.f, G.roots[i]); return G; }
static std::vector<Kind> universe(Src& s, size_t want) {
    std::vector<Kind> U;
    FieldSpec F = field(s, s.chance(1, 4) ? 0 : NO_LINEAR, s.chance(1, 4) ? 9 : 5);
    if (coarse && F.roots.size() > 1) F = far_from_zero(s, F);
    U.push_back({F, gen_name(s)});
    while (U.size() < want) {
        const Kind& b = U[s.below(U.size())];
        Kind k = b;
        switch (s.below(5)) {
        case 0: if (b.F.roots.size() > 1) { k.F = with_root(b.F, s.below(b.F.roots.size())); break; } /* fall through */
        case 1: k.name = s.chance(1, 2) ? gen_name(s) : similar_name(s, b.name); break;
        case 2: { QPoly p = b.F.pol; mpq_class m((long)s.range(2, 4)); if (s.chance(1, 2)) m = 1 / m; if (s.chance(1, 2)) m = -1; for (auto& c : p) c *= m; k.F = spec_from(p, b.F.index, "scaled"); break; }
        case 3: k.F = neighbour(s, b.F); break;
        default: k = {field(s, s.chance(1, 5) ? 0 : NO_LINEAR, 5), gen_name(s)}; break;
        }
        bool dup = false;
        for (auto& u : U) dup |= u.name == k.name && u.F.pol == k.F.pol && u.F.index == k.F.index;
        if (dup) { if (s.chance(1, 8)) break; continue; }
        U.push_back(k);
    }
    for (size_t i = 0; i < U.size(); i++) NOTE("kind " << i << ": " << orc::str(U[i].F.pol, U[i].name) << " root #" << U[i].F.index);
    return U;
}
struct Slot { std::unique_ptr<X> x; int kind = -1; Elem v; };        // kind -1: rationals
static bool reusing = false;                             // released memory may already hold something else
static void c12(Src& s) {
    Coarse guard(s.chance(1, 5));
    std::vector<Kind> U = universe(s, rare(s, 30) ? (size_t)s.range(5, 10) : (size_t)s.range(1, 4));
    const renf_class* trivial = &renf_class::make();
    std::vector<KP> h(3); std::vector<int> hk(3, -1);
    std::vector<Slot> e(4);
    std::map<int, const void*> last;             // last known address of a kind
    auto users = [&](int k) { int n = 0; for (size_t i = 0; i < h.size(); i++) n += h[i] && hk[i] == k; for (auto& q : e) n += q.x && q.kind == k; return n; };
    auto invariant = [&](const std::string& what) {
        std::map<int, const renf_class*> at;
        auto see = [&](int k, const renf_class* p) {
            if (k < 0) { CHECK(p == trivial, "parent", what << ": an element left the rational field"); return; }
            auto it = at.find(k);
            if (it != at.end()) CHECK(it->second == p, "unique", what << ": kind " << k << " exists as two objects"); else { for (auto& o : at) CHECK(o.second != p, "distinct", what << ": kinds " << k << " and " << o.first << " are the same object"); at[k] = p; }
        };
        for (size_t i = 0; i < h.size(); i++) if (h[i]) see(hk[i], h[i].get());
        for (auto& q : e) if (q.x) see(q.kind, &q.x->parent());
        for (auto& o : at) { last[o.first] = o.second; CHECK(o.second->degree() == U[(size_t)o.first].F.d && o.second->gen_name() == U[(size_t)o.first].name, "alive", what << ": field of kind " << o.first << " is damaged"); }
        for (auto& o : last) if (users(o.first) == 0 && o.second) { CHECK(reusing || o.second == trivial || FREED(o.second), "released", what << ": field of kind " << o.first << " is not in use anymore but was not released"); o.second = nullptr; }
        for (auto& o : at) CHECK(!FREED(o.second) || FREED(trivial), "alive", what << ": field of kind " << o.first << " was released while it is in use");
    };
    auto obtain = [&](int k) -> KP {
        const Kind& c = U[(size_t)k];
        for (size_t i = 0; i < h.size(); i++) if (h[i] && hk[i] == k && s.chance(1, 4)) return renf_class::make(h[i]->renf_t(), c.name);
        return make_class(s, c.F, c.name);
    };
    int n = rare(s, 40) ? (int)s.range(25, 120) : (int)s.range(3, 24); bool reuse = false; int dropped = 0;
    for (int t = 0; t < n; t++) {
        size_t i = s.below(h.size()), j = s.below(e.size()), l = s.below(e.size()); int k = (int)s.below(U.size());
        std::ostringstream w;
        switch (s.below(14)) {
        case 0: case 1: w << "h" << i << " = make(kind " << k << ")"; NOTE(w.str()); if (last.count(k) && !users(k)) reuse = true; h[i] = obtain(k); hk[i] = k; break;
        case 2: w << "reset h" << i; NOTE(w.str()); h[i].reset(); dropped++; break;
        case 3: { size_t m = s.below(h.size()); w << "h" << i << " = h" << m; NOTE(w.str()); h[i] = h[m]; hk[i] = hk[m]; break; }
        case 4: { w << "e" << j << " = new element of kind " << k << " (no handle kept)"; NOTE(w.str()); KP K = obtain(k); CppField C{U[(size_t)k].F, K, U[(size_t)k].name}; Elem v = elem(s, C.F.K, 30); e[j].x.reset(new X(make_x(s, C, v))); e[j].v = v; e[j].kind = k; break; }
        case 5: w << "delete e" << j; NOTE(w.str()); e[j].x.reset(); dropped++; break;
        case 6: if (!e[l].x) continue; w << "e" << j << " = copy of e" << l; NOTE(w.str()); if (e[j].x && s.chance(1, 2)) *e[j].x = *e[l].x; else e[j].x.reset(new X(*e[l].x)); e[j].kind = e[l].kind; e[j].v = e[l].v; break;
        case 7: if (!e[l].x || l == j) continue; w << "e" << j << " = move of e" << l; NOTE(w.str()); if (e[j].x && s.chance(1, 2)) *e[j].x = std::move(*e[l].x); else e[j].x.reset(new X(std::move(*e[l].x))); e[j].kind = e[l].kind; e[j].v = e[l].v; e[l].x.reset(); break;
        case 8: if (!e[j].x || !e[l].x) continue; w << "swap e" << j << " e" << l; NOTE(w.str()); { using std::swap; swap(*e[j].x, *e[l].x); } std::swap(e[j].kind, e[l].kind); std::swap(e[j].v, e[l].v); break;
        case 9: if (!e[j].x) continue; w << "e" << j << " = 5"; NOTE(w.str()); *e[j].x = 5; e[j].kind = -1; e[j].v = Elem(rational_field(), 5); break;
        case 10: if (!e[j].x) continue; w << "h" << i << " = parent of e" << j; NOTE(w.str()); h[i] = &e[j].x->parent(); hk[i] = e[j].kind; if (hk[i] < 0) { h[i].reset(); } break;
        case 11: if (!e[j].x) continue; w << "e" << j << " = e" << j << "^2 + 1"; NOTE(w.str()); *e[j].x = *e[j].x * *e[j].x + 1; e[j].v = e[j].v * e[j].v + mpq_class(1); break;
        case 12: if (!h[i]) continue; w << "e" << j << " = h" << i << "->gen()"; NOTE(w.str()); if (e[j].x && s.chance(1, 2)) *e[j].x = h[i]->gen(); else e[j].x.reset(new X(h[i]->gen())); e[j].kind = hk[i]; e[j].v = Elem::gen(U[(size_t)hk[i]].F.K); break;
        default: { w << "several handles of kind " << k; NOTE(w.str()); KP a = obtain(k); KP b = obtain(k); CHECK(a == b, "unique", "making kind " << k << " twice gives two objects"); CHECK(*a == *b && !(*a != *b) && std::hash<renf_class>()(*a) == std::hash<renf_class>()(*b), "unique", "equality of fields"); last[k] = a.get(); break; }
        }
        invariant(w.str());
        for (size_t q = 0; q < e.size(); q++) if (e[q].x) { const orc::FieldP& M = e[q].kind < 0 ? rational_field() : U[(size_t)e[q].kind].F.K; CHECK(read_x(*e[q].x, M) == e[q].v, "value", w.str() << ": e" << q << " changed its value"); if (size_of(e[q].v) > 3000) e[q].x.reset(); }
    }
    // drop everything in a random order
    while (true) {
        std::vector<int> live; for (size_t i = 0; i < h.size(); i++) if (h[i]) live.push_back((int)i); for (size_t i = 0; i < e.size(); i++) if (e[i].x) live.push_back(10 + (int)i);
        if (live.empty()) break;
        int v = live[s.below(live.size())]; if (v < 10) h[(size_t)v].reset(); else e[(size_t)v - 10].x.reset();
        invariant("drop " + std::to_string(v));
    }
    if (reuse) label("recreated");
    if (dropped && U.size() > 1) nontrivial();
}
PROPERTY("C12.histories", c12, 60000, 600000, 20, "histories of creating, copying, moving and dropping fields and elements of up to four closely related fields; invariant: one object per field, alive exactly while used; non-trivial: several fields and something was dropped");
// the same in a process whose allocator reuses addresses at once
static void c12_reuse(Src& s) { reusing = true; c12(s); }
PROPERTY("C12.reuse", c12_reuse, 30000, 300000, 20, "as C12.histories, with an allocator that reuses memory immediately, so that a released field and a later one share an address; non-trivial: as C12.histories");

// many fields and many references at once
static void c12_crowd(Src& s) {
    struct Id { long m; int deg; bool neg; int scale; std::string name; bool operator<(const Id& o) const { return std::tie(m, deg, neg, scale, name) < std::tie(o.m, o.deg, o.neg, o.scale, o.name); } };
    struct Live { std::vector<KP> h; std::vector<X> e; };
    std::map<Id, Live> live; std::map<const renf_class*, Id> owner;
    const renf_class* trivial = &renf_class::make();
    size_t n = rare(s, 12) ? (size_t)s.range(100, 500) : (size_t)s.range(5, 60), most = 0; long top = rare(s, 4) ? 3000 : (long)s.range(3, 60);
    std::vector<std::string> names; for (long i = s.range(1, 4); i-- > 0;) names.push_back(gen_name(s));
    bool recreated = false; std::set<Id> was;
    auto pick_id = [&]() {
        Id q; q.deg = s.chance(2, 3) ? 2 : 3; q.neg = q.deg == 2 && s.chance(1, 2); q.scale = s.chance(1, 4) ? (int)s.range(2, 5) : 1; q.name = s.one(names);
        do { q.m = (long)s.range(2, top); } while ([&]{ mpz_class r, z(q.m); return mpz_root(r.get_mpz_t(), z.get_mpz_t(), (unsigned)q.deg) != 0; }());
        return q;
    };
    auto make = [&](const Id& q) {
        std::ostringstream pol, emb; pol << q.scale << "*" << q.name << "^" << q.deg << " - " << q.scale * q.m;
        double r = q.deg == 2 ? std::sqrt((double)q.m) : std::cbrt((double)q.m); emb << std::fixed << (q.neg ? -r : r) << " +/- 0.01";
        return renf_class::make(pol.str(), q.name, emb.str(), (slong)s.range(8, 80));
    };
    auto str = [](const Id& q) { std::ostringstream o; o << q.scale << "*" << q.name << "^" << q.deg << " - " << q.scale * q.m << (q.neg ? " (negative root)" : ""); return o.str(); };
    auto good = [&](const renf_class& K, const Id& q) {
        CHECK(K.degree() == q.deg && K.gen_name() == q.name, "alive", "the field of " << str(q) << " is damaged");
        X g = K.gen(); CHECK(g.pow(q.deg) == q.m && (g < 0) == q.neg && &g.parent() == &K, "alive", "the generator of the field of " << str(q) << " is not the root");
    };
    auto gone = [&](std::map<Id, Live>::iterator it, const renf_class* p) {
        if (!it->second.h.empty() || !it->second.e.empty()) return;
        Id q = it->first; was.insert(q); owner.erase(p); live.erase(it);
        CHECK(reusing || FREED(p) || FREED(trivial), "released", "the field of " << str(q) << " is not in use anymore but was not released");
    };
    for (size_t t = 0; t < n; t++) {
        Id q = pick_id(); KP K = make(q); auto it = live.find(q); NOTE("make " << str(q));
        if (it != live.end()) { const renf_class* p = it->second.h.empty() ? &it->second.e[0].parent() : it->second.h[0].get(); CHECK(p == K.get(), "unique", "the field of " << str(q) << " exists as two objects, with " << live.size() << " fields alive"); }
        else { auto o = owner.find(K.get()); CHECK(o == owner.end(), "distinct", "the fields of " << str(q) << " and " << str(o->second) << " are the same object"); owner[K.get()] = q; it = live.emplace(q, Live()).first; recreated |= was.count(q) != 0; }
        if (s.chance(1, 2)) it->second.h.push_back(K); else it->second.e.push_back(s.chance(1, 2) ? K->gen() : X(*K, (long)s.range(-9, 9)));
        K.reset(); most = std::max(most, live.size());
        if (s.chance(1, 3)) {
            auto d = live.begin(); std::advance(d, (long)s.below(live.size())); Live& l = d->second; const renf_class* p = l.h.empty() ? &l.e[0].parent() : l.h[0].get();
            NOTE("drop from " << str(d->first));
            if (!l.h.empty() && (l.e.empty() || s.chance(1, 2))) l.h.erase(l.h.begin() + (long)s.below(l.h.size())); else l.e.erase(l.e.begin() + (long)s.below(l.e.size()));
            gone(d, p);
        }
    }
    for (auto& l : live) { const renf_class* p = l.second.h.empty() ? &l.second.e[0].parent() : l.second.h[0].get(); CHECK(!FREED(p) || FREED(trivial), "alive", "the field of " << str(l.first) << " was released while it is in use"); good(*p, l.first); KP K = make(l.first); CHECK(K.get() == p, "unique", "the field of " << str(l.first) << " exists as two objects, with " << live.size() << " fields alive"); }
    if (!live.empty()) {     // many references to one of them
        auto it = live.begin(); std::advance(it, (long)s.below(live.size())); Id q = it->first;
        const renf_class* p = it->second.h.empty() ? &it->second.e[0].parent() : it->second.h[0].get();
        size_t c = rare(s, 40) ? (size_t)s.range(65000, 70000) : rare(s, 3) ? (size_t)s.range(200, 600) : (size_t)s.range(1, 30); bool elems = c < 1000 && s.chance(1, 2);
        NOTE(c << (elems ? " elements" : " handles") << " of " << str(q));
        { std::vector<KP> hs; std::vector<X> es; if (elems) es.assign(c, p->gen()); else hs.assign(c, KP(p));
          it->second.h.clear(); it->second.e.clear(); CHECK(!FREED(p) || FREED(trivial), "alive", "the field of " << str(q) << " was released while it is in use"); good(*p, q);
          while (hs.size() + es.size() > 1) { if (elems) es.pop_back(); else hs.pop_back(); }
          CHECK(!FREED(p) || FREED(trivial), "alive", "the field of " << str(q) << " was released while it is in use, after " << c << " references"); good(*p, q); KP K = make(q); CHECK(K.get() == p, "unique", "the field of " << str(q) << " exists as two objects"); if (elems) CHECK(es[0] == K->gen(), "alive", "an element changed"); }
        gone(it, p);
    }
    while (!live.empty()) { auto it = live.begin(); std::advance(it, (long)s.below(live.size())); const renf_class* p = it->second.h.empty() ? &it->second.e[0].parent() : it->second.h[0].get(); it->second.e.clear(); it->second.h.clear(); gone(it, p); }
    if (recreated) label("recreated"); if (most > 64) label("more than 64 alive");
    if (most > 4) nontrivial();
}
PROPERTY("C12.crowd", c12_crowd, 6000, 60000, 20, "up to several hundred fields x^2 - m and x^3 - m alive at once, created again and dropped in random order, and up to 70000 references to one field; invariant: as C12.histories; non-trivial: more than four fields alive at once");

// ------------------------------------------------------------------ C13
struct Val { X x; int kind; Elem v; };            // kind -1: rational field
static Elem into(const orc::FieldP& K, const mpq_class& q) { return Elem(K, q); }

static void c13(Src& s) {
    quiet();
    static const orc::FieldP RQ = rational_field();
    const bool strict = getenv("LIBEANTIC_STRICT_BINOP") != nullptr;
    std::vector<Kind> U = universe(s, (size_t)s.range(1, 3));
    std::vector<KP> K; std::vector<CppField> CF;
    for (auto& u : U) { K.push_back(make_class(s, u.F, u.name)); CF.push_back({u.F, K.back(), u.name}); }
    const renf_class* trivial = &renf_class::make();
    auto M = [&](int k) -> const orc::FieldP& { return k < 0 ? RQ : U[(size_t)k].F.K; };
    auto P = [&](int k) -> const renf_class* { return k < 0 ? trivial : K[(size_t)k].get(); };
    std::vector<Val> r;
    auto fresh = [&]() -> Val { int k = (int)s.range(-1, (int64_t)U.size() - 1); Elem v = elem(s, M(k), 30); if (s.chance(1, 3)) v = Elem(M(k), rational(s, 20)); if (k < 0) { X x(v.c[0]); return {x, k, v}; } X x = make_x(s, CF[(size_t)k], v); return {x, k, v}; };
    for (int i = 0; i < 4; i++) { r.push_back(fresh()); NOTE("r" << i << " (kind " << r.back().kind << ") = " << r.back().v.str()); }
    // a value in the field of kind k
    auto conv = [&](const Val& a, int k) { return Elem(M(k), a.v.c[0]); };
    bool mixed = false, threw = false;
    int n = rare(s, 40) ? (int)s.range(17, 80) : (int)s.range(2, 16);
    for (int t = 0; t < n; t++) {
        size_t a = s.below(r.size()), b = s.below(r.size()), d = s.below(r.size());
        std::ostringstream w;
        switch (s.below(13)) {
        case 0: w << "r" << d << " = r" << a; NOTE(w.str()); { X& q = (r[d].x = r[a].x); CHECK(&q == &r[d].x, "ref", "assignment"); } r[d].kind = r[a].kind; r[d].v = r[a].v; break;
        case 1: { w << "r" << d << " = copy, source modified"; NOTE(w.str()); X c(r[a].x); CHECK(&c.parent() == P(r[a].kind), "copy", "field of a copy"); c += 1; CHECK(read_x(r[a].x, M(r[a].kind)) == r[a].v, "copy", "modifying a copy changed the original"); X e = r[a].x; c = e; e *= 3; CHECK(read_x(c, M(r[a].kind)) == r[a].v, "copy", "modifying the source changed a copy"); r[d].x = c; r[d].kind = r[a].kind; r[d].v = r[a].v; break; }
        case 2: { w << "r" << d << " = moved copy of r" << a; NOTE(w.str()); X c(r[a].x); X e(std::move(c)); c = r[b].x; CHECK(read_x(c, M(r[b].kind)) == r[b].v, "move", "assigning to a moved-from element"); r[d].x = std::move(e); if (d != b) { e = r[b].x; CHECK(read_x(e, M(r[b].kind)) == r[b].v, "move", "assigning to a moved-from element"); } r[d].kind = r[a].kind; r[d].v = r[a].v; break; }
        case 3: { w << "moved-from element gets a scalar"; NOTE(w.str()); X c(r[a].x); X e(std::move(c)); with_scalar(s, nullptr, [&](auto q) { c = q; CHECK(&c.parent() == trivial && read_x(c, RQ) == Elem(RQ, to_q(q)), "move", "scalar assigned to a moved-from element"); }); CHECK(read_x(e, M(r[a].kind)) == r[a].v && &e.parent() == P(r[a].kind), "move", "value of a moved element"); break; }
        case 4: { w << "swap r" << a << " r" << b; NOTE(w.str()); if (s.chance(1, 2)) { using std::swap; swap(r[a].x, r[b].x); } else std::swap(r[a].x, r[b].x); std::swap(r[a].kind, r[b].kind); std::swap(r[a].v, r[b].v); break; }
        case 5: { w << "self assignment r" << a; NOTE(w.str()); X& q = r[a].x; if (s.chance(1, 2)) r[a].x = q; else r[a].x = std::move(q); break; }
        case 6: { w << "r" << d << " = scalar"; with_scalar(s, nullptr, [&](auto q) { NOTE(w.str() << " (" << tname<decltype(q)>() << ") " << to_q(q)); r[d].x = q; r[d].kind = -1; r[d].v = Elem(RQ, to_q(q)); }); break; }
        case 7: { mpq_class q = rational(s, 80); w << "r" << d << " = fmpq/fmpz " << q; NOTE(w.str()); if (s.chance(1, 2)) { Q f(q); if (s.chance(1, 2)) r[d].x = s.chance(1, 2) ? X(f.v) : s.chance(1, 2) ? X() : r[a].x; if (s.chance(1, 4)) { X c(r[d].x); X e(std::move(c)); c = f.v; r[d].x = c; } else r[d].x = f.v; } else { q = mpq_class(q.get_num()); Z f(q.get_num()); if (s.chance(1, 2)) r[d].x = s.chance(1, 2) ? X(f.v) : r[a].x; if (s.chance(1, 4)) { X c(r[d].x); X e(std::move(c)); c = f.v; r[d].x = c; } else r[d].x = f.v; } r[d].kind = -1; r[d].v = Elem(RQ, q); break; }
        case 8: { // shuffle a vector of values
            w << "shuffle"; NOTE(w.str()); std::vector<X> v; for (auto& q : r) v.push_back(q.x); std::vector<size_t> id = {0, 1, 2, 3};
            size_t m = 1 + s.below(3); std::rotate(v.begin(), v.begin() + (long)m, v.end()); std::rotate(id.begin(), id.begin() + (long)m, id.end());
            std::reverse(v.begin(), v.end()); std::reverse(id.begin(), id.end());
            size_t del = s.below(4); v.erase(v.begin() + (long)del); id.erase(id.begin() + (long)del); v.insert(v.begin() + (long)s.below(3), v[1]);
            for (size_t i = 0, j = 0; i < v.size(); i++) { (void)j; bool found = false; for (auto q : id) found |= &v[i].parent() == P(r[q].kind) && read_x(v[i], M(r[q].kind)) == r[q].v; CHECK(found, "container", "moving values inside a vector damaged them"); }
            break; }
        case 9: { // explicit conversion to a field
            int k = (int)s.range(-1, (int64_t)U.size() - 1); w << "r" << d << " = X(field " << k << ", r" << a << ")"; NOTE(w.str());
            if (k == r[a].kind || r[a].v.is_rational()) { X c(*P(k), r[a].x); CHECK(&c.parent() == P(k), "convert", "field of a converted element"); Elem v = k == r[a].kind ? r[a].v : conv(r[a], k); CHECK(read_x(c, M(k)) == v, "convert", w.str() << " is " << read_x(c, M(k)).str()); r[d].x = c; r[d].kind = k; r[d].v = v; mixed |= k != r[a].kind; }
            else { bool ok = false; try { X c(*P(k), r[a].x); } catch (const std::logic_error&) { ok = true; } CHECK(ok, "convert-refuse", "an irrational element was converted to another field"); threw = true; }
            break; }
        default: { // arithmetic that may mix fields
            int op = (int)s.below(4); bool inplace = s.chance(1, 2);
            if (op == 3 && r[b].v.is_zero()) op = 0;
            w << "r" << d << (inplace ? " op= " : " = op ") << op << " r" << a << " r" << b; NOTE(w.str());
            if (inplace) a = d;
            int ka = r[a].kind, kb = r[b].kind;
            bool possible = ka == kb || r[a].v.is_rational() || r[b].v.is_rational();
            bool refused = ka != kb && strict && ka >= 0 && kb >= 0;
            Elem va = r[a].v, vb = r[b].v; int kr = ka;
            bool ok = false, inval = false, logic = false; X res;
            try {
                if (inplace) { X& q = op == 0 ? r[d].x += r[b].x : op == 1 ? r[d].x -= r[b].x : op == 2 ? r[d].x *= r[b].x : r[d].x /= r[b].x; CHECK(&q == &r[d].x, "ref", "in-place operator"); res = r[d].x; }
                else res = op == 0 ? r[a].x + r[b].x : op == 1 ? r[a].x - r[b].x : op == 2 ? r[a].x * r[b].x : r[a].x / r[b].x;
                ok = true;
            } catch (const std::invalid_argument&) { inval = true; } catch (const std::logic_error&) { logic = true; }
            if (refused) CHECK(inval, "strict", w.str() << ": mixing fields in strict mode was not refused");
            else if (!possible) CHECK(inval || logic, "mix-refuse", w.str() << ": irrational elements of different fields were combined");
            else {
                CHECK(ok, "mix", w.str() << ": refused although an operand is rational");
                if (ka != kb) { mixed = true; kr = !va.is_rational() ? ka : !vb.is_rational() ? kb : (&res.parent() == P(ka) ? ka : kb); }
                CHECK(&res.parent() == P(kr), "mix-field", w.str() << ": result in an unexpected field");
                Elem x = ka == kr ? va : into(M(kr), va.c[0]), y = kb == kr ? vb : into(M(kr), vb.c[0]);
                Elem z = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x * y.inv();
                Elem got = read_x(res, M(kr)); CHECK(got == z, "mix-value", w.str() << ": got " << got.str() << " instead of " << z.str());
                CHECK(encloses(res.renf_elem_t()->emb, z), "mix-enclosure", w.str());
                r[d].x = res; r[d].kind = kr; r[d].v = z;
            }
            if (!ok) threw = true;
            break; }
        }
        for (size_t i = 0; i < r.size(); i++) {
            CHECK(&r[i].x.parent() == P(r[i].kind), "field", "after " << w.str() << ": r" << i << " lives in another field");
            Elem got = read_x(r[i].x, M(r[i].kind)); CHECK(got == r[i].v, "value", "after " << w.str() << ": r" << i << " is " << got.str() << " instead of " << r[i].v.str());
            CHECK(encloses(r[i].x.renf_elem_t()->emb, r[i].v), "enclosure", "after " << w.str() << ": r" << i);
            if (size_of(r[i].v) > 3000) { r[i] = fresh(); }
        }
    }
    if (mixed) label("mixed"); if (threw) label("refused");
    if (U.size() > 1 || mixed) nontrivial();
}
PROPERTY("C13.values", c13, 60000, 600000, 20, "histories of copies, moves, swaps, assignments, conversions and arithmetic on elements of several fields; non-trivial: several fields were involved");
static void c13_strict(Src& s) { c13(s); }
PROPERTY("C13.strict", c13_strict, 20000, 200000, 20, "the same with LIBEANTIC_STRICT_BINOP set: arithmetic between different fields other than the rationals is always refused; non-trivial: several fields were involved");
static void c13_reuse(Src& s) { c13(s); }
PROPERTY("C13.reuse", c13_reuse, 20000, 200000, 20, "as C13.values, with an allocator that reuses memory immediately; non-trivial: as C13.values");

// ------------------------------------------------------------------ C14
static void check_parts(const X& x, const Elem& e, const std::string& what) {
    CHECK(x.is_zero() == e.is_zero(), "is_zero", what << ": is_zero of " << e.str());
    CHECK(x.is_one() == (e.is_rational() && e.c[0] == 1), "is_one", what << ": is_one of " << e.str());
    CHECK(x.is_integer() == e.is_integer(), "is_integer", what << ": is_integer of " << e.str());
    CHECK(x.is_rational() == e.is_rational(), "is_rational", what << ": is_rational of " << e.str());
    CHECK(static_cast<bool>(x) == !e.is_zero(), "bool", what << ": bool of " << e.str());
    auto& a = x.renf_elem_t(); auto& nf = x.parent().renf_t();
    CHECK(!!renf_elem_is_zero(a, nf) == e.is_zero() && !!renf_elem_is_one(a, nf) == (e.is_rational() && e.c[0] == 1) && !!renf_elem_is_integer(a, nf) == e.is_integer() && !!renf_elem_is_rational(a, nf) == e.is_rational(), "c-predicates", what << ": predicates of the C interface for " << e.str());
    mpz_class D = e.den();
    CHECK(x.den() == D, "den", what << ": den of " << e.str() << " is " << x.den());
    std::vector<mpz_class> nv = x.num_vector();
    CHECK((int)nv.size() == e.K->d, "num_vector", what << ": num_vector of " << e.str() << " has " << nv.size() << " entries");
    mpz_class g = 0;
    for (size_t i = 0; i < nv.size(); i++) { mpq_class w = e.c[i] * D; CHECK(nv[i] == w.get_num() && w.get_den() == 1, "num_vector", what << ": entry " << i << " of num_vector of " << e.str() << " is " << nv[i]); g = gcd(g, nv[i]); }
    CHECK(x.num_content() == g, "num_content", what << ": num_content of " << e.str() << " is " << x.num_content() << " instead of " << g);
    if (e.is_rational()) {
        CHECK(x.num() == e.c[0].get_num(), "num", what << ": num of " << e.str() << " is " << x.num());
        mpq_class q = static_cast<mpq_class>(x); CHECK(q == e.c[0] && q.get_den() == e.c[0].get_den() && q.get_den() > 0, "mpq_class", what << ": as a rational, " << e.str() << " is " << q);
    }
    if (e.is_integer()) { mpz_class z = static_cast<mpz_class>(x); CHECK(z == e.c[0].get_num(), "mpz_class", what << ": as an integer, " << e.str() << " is " << z); CHECK(x.floor() == z && x.ceil() == z, "rounding", what << ": rounding the integer " << e.str()); }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
    CHECK(x.get_den() == D && x.get_num_vector() == nv, "deprecated", what << ": deprecated accessors");
    CHECK(x.get_str(EANTIC_STR_ALG) == x.to_string(EANTIC_STR_ALG) && x.get_str() == x.to_string() && x.get_renf_elem() == x.renf_elem_t(), "deprecated", what << ": deprecated accessors of " << e.str());
    { double u = x.get_d(), v = static_cast<double>(x); CHECK(u == v, "deprecated", what << ": get_d of " << e.str() << " is " << u << " instead of " << v); }
    if (e.is_rational()) CHECK(x.get_num() == x.num() && x.get_rational() == e.c[0], "deprecated", what << ": deprecated accessors");
#pragma GCC diagnostic pop
}
static void c14(Src& s) {
    CppField C = cpp_field(s); label(C.F.family);
    Elem e = elem(s, C.F.K, 60);
    if (s.chance(1, 4)) e = Elem(C.F.K, s.chance(1, 2) ? mpq_class(integer(s, 200)) : rational(s, 150));
    NOTE("element " << e.str());
    X x = make_x(s, C, e), y = make_x(s, C, e);
    check_parts(x, e, "fresh"); check_parts(y, e, "fresh");
    CHECK(x == y && !(x != y) && y == x, "equal", "two ways to compute " << e.str() << " compare different");
    std::hash<X> h;
    CHECK(h(x) == h(y), "hash", "equal elements " << e.str() << " have different hashes");
    size_t h0 = h(x);
    {   // change and change back
        Elem t = elem(s, C.F.K, 40); X u = make_x(s, C, t);
        NOTE("via " << t.str());
        switch (s.below(6)) {
        case 0: x += u; x -= u; break;
        case 1: if (!t.is_zero()) { x *= u; x /= u; } break;
        case 2: x = u - x; x = u - x; break;
        case 3: { mpq_class q = rational(s, 100); if (q == 0) q = 7; x *= q; check_parts(x, e * q, "scaled"); x /= q; break; }
        case 4: { x = x * u; check_parts(x, e * t, "product"); x = X(*C.K, e.c); break; }
        default: if (!e.is_zero()) { x = 1 / x; if (&x.parent() != &*C.K) x = X(*C.K, x); check_parts(x, e.inv(), "inverse"); x = 1 / x; } break;
        }
        if (&x.parent() != &*C.K) x = X(*C.K, x);
    }
    if (s.chance(1, 2) && C.F.d > 1) renf_refine_embedding(C.K->renf_t(), (slong)s.range(2, 500));
    if (s.chance(1, 2)) (void)x.floor();
    check_parts(x, e, "after a round trip");
    CHECK(x == y && h(x) == h0 && h(y) == h0, "hash", "after a round trip, " << e.str() << " compares or hashes differently");
    std::unordered_set<X> set; set.insert(x); set.insert(y); CHECK(set.size() == 1 && set.count(y) == 1, "hash-set", "equal elements are stored twice");
    if (e.is_rational()) { X q(e.c[0]); CHECK(q == x && x == q, "equal", "the rational number " << e.c[0] << " differs between fields"); CHECK(h(q) == h0, "hash", "the rational number " << e.c[0] << " hashes differently in another field"); }
    if (C.F.d > 1) nontrivial();
}
PROPERTY("C14.parts", c14, 120000, 1200000, 20, "predicates, numerators, denominators, coefficients, conversions and hashes of elements computed along different routes, against the model; non-trivial: degree > 1");
