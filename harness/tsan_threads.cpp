// C17: generated programs of several threads that create, share and release
// fields, under ThreadSanitizer.  Every thread works on slots of its own; the
// expected values are computed beforehand, in one thread.
#include "ops.hpp"
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <mutex>
#include <sched.h>
#include <sstream>
#include <thread>
#include <sanitizer/allocator_interface.h>
#include <cereal/archives/binary.hpp>
#include <e-antic/cereal.hpp>
#include <e-antic/fmpz_poly_extra.h>
using namespace ops; using namespace pbt;
using eantic::renf_class;

namespace {
constexpr slong PREC = 512;            // enough that nothing below refines a (shared) field
constexpr size_t NH = 3, NE = 3;
struct Kind { FieldSpec F; std::string name, pol, emb; };
enum What { MAKE, MAKE_C, COPY_H, DROP_H, SAME_H, PARENT, ELEM, PARSE, STREAM, GEN, SHARED_E, SHARED_H, ARITH, SCALAR, COPY_E, MOVE_E, SWAP_E, DROP_E, CMP, FLOOR, TEXT, CONSTRUCTION, CHURN, YIELD, POW, ROUND, FDIV, REAL, PARTS, PRINT, ASSIGN, REFUSED, ARCHIVE, ROOTS, PRIVATE };
struct Op { What what; size_t a, b, c; long n; std::string text; mpq_class q; mpz_class z; int want; };
struct Program { std::vector<std::vector<Op>> rounds; std::vector<int> hk; std::vector<Elem> final_e; std::vector<int> ek; std::vector<std::vector<int>> held; };

struct Barrier {
    std::mutex m; std::condition_variable cv; size_t n, waiting = 0, phase = 0;
    explicit Barrier(size_t k) : n(k) {}
    void wait() { std::unique_lock<std::mutex> l(m); size_t p = phase; if (++waiting == n) { waiting = 0; phase++; cv.notify_all(); } else cv.wait(l, [&] { return phase != p; }); }
};

mpq_class gap() { return orc::pow2(-60); }
bool clear_of(const Elem& e, const mpq_class& q) { return e.cmp(q) == 0 || e.cmp(mpq_class(q - gap())) < 0 || e.cmp(mpq_class(q + gap())) > 0; }

struct Shared { std::vector<X> e; std::vector<Elem> v; std::vector<int> kind; std::vector<KP> h; std::vector<int> hkind; };

struct Run {
    const std::vector<Kind>& U; const std::vector<Program>& P; const Shared& S;
    std::vector<std::vector<KP>> H; std::vector<std::vector<X>> E; std::vector<std::vector<const renf_class*>> seen;
    std::vector<std::string> err; Barrier bar;
    std::atomic<int> go{0};
    Run(const std::vector<Kind>& u, const std::vector<Program>& p, const Shared& s) : U(u), P(p), S(s), H(p.size()), E(p.size()), seen(p.size()), err(p.size()), bar(p.size()) {}

    void step(const Op& o, std::vector<KP>& h, std::vector<X>& e, std::string& bad) {
        auto say = [&](const std::string& m) { if (bad.empty()) bad = m; };
        switch (o.what) {
        case MAKE: h[o.a] = renf_class::make(U[o.b].pol, U[o.b].name, U[o.b].emb, PREC); break;
        case MAKE_C: { renf_t nf; renf_init_set(nf, h[o.b]->renf_t()); h[o.a] = renf_class::make(nf, h[o.b]->gen_name()); renf_clear(nf); break; }
        case COPY_H: h[o.a] = h[o.b]; break;
        case DROP_H: h[o.a].reset(); break;
        case SAME_H: if ((h[o.a] == h[o.b]) != (o.want != 0)) say("handles of " + std::string(o.want ? "the same field differ" : "different fields agree")); break;
        case PARENT: h[o.a] = KP(&e[o.b].parent()); break;
        case ELEM: e[o.a] = o.n ? X(*h[o.b], o.q) : X(*h[o.b], o.z); break;
        case PARSE: e[o.a] = X(*h[o.b], o.text); break;
        case STREAM: { std::istringstream in("(" + o.text + ")"); h[o.b]->set_pword(in); in >> e[o.a]; break; }
        case GEN: e[o.a] = o.n == 0 ? h[o.b]->gen() : o.n == 1 ? h[o.b]->one() : h[o.b]->zero(); break;
        case SHARED_E: e[o.a] = S.e[o.b]; break;
        case SHARED_H: h[o.a] = S.h[o.b]; break;
        case ARITH: { const X &x = e[o.b], &y = e[o.c]; switch (o.n) { case 0: e[o.a] = x + y; break; case 1: e[o.a] = x - y; break; case 2: e[o.a] = x * y; break; case 3: e[o.a] = x / y; break; case 4: e[o.a] = x; e[o.a] += y; break; default: e[o.a] = x; e[o.a] *= y; } break; }
        case SCALAR: switch (o.n) { case 0: e[o.a] = e[o.b] + o.q; break; case 1: e[o.a] = e[o.b] * o.z; break; case 2: e[o.a] = e[o.b] - X(o.q); break; default: e[o.a] = X(o.z) * e[o.b]; } break;
        case COPY_E: e[o.a] = e[o.b]; break;
        case MOVE_E: { X t(e[o.b]); e[o.a] = std::move(t); break; }
        case SWAP_E: { using std::swap; swap(e[o.a], e[o.b]); break; }
        case DROP_E: e[o.a] = X(); break;
        case CMP: { int c = e[o.a] < e[o.b] ? -1 : e[o.a] == e[o.b] ? 0 : 1; if (c != o.want) say("comparison gives " + std::to_string(c) + " instead of " + std::to_string(o.want)); break; }
        case FLOOR: { mpz_class f = e[o.a].floor(); if (f != o.z) say("floor is " + f.get_str() + " instead of " + o.z.get_str()); break; }
        case TEXT: { std::string t = e[o.a].to_string(EANTIC_STR_ALG); if (t.empty()) say("empty text"); (void)std::hash<X>()(e[o.a]); break; }
        case CONSTRUCTION: { auto c = h[o.b]->construction(); KP k = renf_class::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); if (k != h[o.b]) say("the construction of a field gives another field"); h[o.a] = k; break; }
        case CHURN: for (long i = 0; i < o.n; i++) { KP k = renf_class::make(U[o.b].pol, U[o.b].name, U[o.b].emb, PREC); if (k->gen_name() != U[o.b].name) say("wrong field"); if (o.c == 1) { X x(*k, 3); k.reset(); x += 1; } else if (o.c == 2) { KP j(k); k.reset(); sched_yield(); } else if (o.c == 3) { std::vector<X> v(3, k->gen()); k.reset(); v.erase(v.begin()); } } break;
        case YIELD: for (long i = 0; i < o.n; i++) sched_yield(); break;
        case POW: e[o.a] = e[o.b].pow((int)o.n); break;
        case ROUND: { mpz_class f = o.n ? e[o.a].ceil() : e[o.a].floor(); if (f != o.z) say("rounding gives " + f.get_str() + " instead of " + o.z.get_str()); if (e[o.a].sgn() != o.want) say("wrong sign"); break; }
        case FDIV: { mpz_class f = e[o.a].floordiv(e[o.b]); if (f != o.z) say("floor division gives " + f.get_str() + " instead of " + o.z.get_str()); break; }
        case REAL: { double d = static_cast<double>(e[o.a]); if (mpq_class(d) < o.q || mpq_class(d) > o.q + mpq_class(1, 1000000) * (abs(o.q) + 1)) say("the double is " + std::to_string(d)); break; }
        case PARTS: { if (e[o.a].den() != o.z || e[o.a].is_rational() != (o.want != 0) || e[o.a].is_zero() != (e[o.a] == 0)) say("wrong denominator or predicates"); (void)e[o.a].num_vector(); (void)e[o.a].num_content(); break; }
        case PRINT: { std::ostringstream os; os << e[o.a] << " " << e[o.a].parent() << " " << e[o.a].to_string(EANTIC_STR_ALG | EANTIC_STR_ARB); if (os.str().find(e[o.a].to_string(EANTIC_STR_ALG)) == std::string::npos) say("printed as " + os.str()); break; }
        case ASSIGN: if (o.n == 0) e[o.a] = o.z; else if (o.n == 1) e[o.a] = o.q; else if (o.n == 2) e[o.a] = (int)o.n; else e[o.a] = X(o.z); break;
        case REFUSED: { bool no = false; try { if (o.n == 0) e[o.a] = X(*h[o.b], o.text + "+"); else if (o.n == 1) h[o.a] = renf_class::make(U[(size_t)o.c].pol + "+", U[(size_t)o.c].name, U[(size_t)o.c].emb, PREC); else h[o.a] = renf_class::make(U[(size_t)o.c].pol, U[(size_t)o.c].name, "100000000000000000000000000000000000000000000000 +/- 1", PREC); } catch (const std::invalid_argument&) { no = true; } if (!no) say("a malformed request is accepted"); break; }
        case ARCHIVE: { std::stringstream st(std::ios::in | std::ios::out | std::ios::binary); { cereal::BinaryOutputArchive ar(st); ar(e[o.a], e[o.b], h[o.c]); } X x, y; KP k; { cereal::BinaryInputArchive ar(st); ar(x, y, k); } if (!(x == e[o.a]) || !(y == e[o.b]) || k != h[o.c] || &x.parent() != &e[o.a].parent()) say("an archive is not restored"); break; }
        case ROOTS: { ZP p(U[o.b].F.f); if (fmpz_poly_num_real_roots(p.v) != (slong)U[o.b].F.roots.size() || fmpz_poly_num_real_roots_vca(p.v) != (slong)U[o.b].F.roots.size() || fmpz_poly_num_real_roots_sturm(p.v) != (slong)U[o.b].F.roots.size()) say("wrong number of roots"); slong ne = 0, ni = 0; fmpz_poly_isolate_real_roots(nullptr, &ne, nullptr, nullptr, &ni, p.v); if (ne + ni != (slong)U[o.b].F.roots.size()) say("wrong number of isolated roots"); break; }
        case PRIVATE: { renf_t nf; renf_init_set(nf, h[o.b]->renf_t()); renf_elem_t g, q; renf_elem_init(g, nf); renf_elem_init(q, nf); renf_elem_gen(g, nf); renf_elem_inv(q, g, nf); renf_elem_mul(q, q, g, nf); renf_refine_embedding(nf, o.n); if (!renf_elem_is_one(q, nf) || !renf_equal(nf, h[o.b]->renf_t())) say("a private copy of a field is wrong"); renf_elem_clear(g, nf); renf_elem_clear(q, nf); renf_clear(nf); break; }
        }
    }
    void thread(size_t t) {
        { auto &h = H[t]; auto &e = E[t]; h.resize(NH); e.resize(NE);
          go++; while (go.load() < (int)P.size()) {}
          for (size_t r = 0; r < P[t].rounds.size(); r++) {
              try { for (auto& o : P[t].rounds[r]) step(o, h, e, err[t]); } catch (const std::exception& x) { if (err[t].empty()) err[t] = std::string("exception: ") + x.what(); }
              seen[t].clear(); for (auto& k : h) seen[t].push_back(k.get());
              bar.wait();
              if (t == 0) for (size_t a = 0; a < P.size(); a++) for (size_t b = 0; b < P.size(); b++) for (size_t i = 0; i < NH; i++) for (size_t j = 0; j < NH; j++) {
                  int x = P[a].held[r][i], y = P[b].held[r][j]; if (x < 0 || y < 0 || !err[a].empty() || !err[b].empty()) continue;
                  if ((x == y) != (seen[a][i] == seen[b][j]) && err[0].empty()) err[0] = x == y ? "two threads hold different objects for the same field" : "two threads hold the same object for different fields";
              }
              bar.wait();
          } }
        // what is held at the end is released by this or by the main thread
        if (t % 2) H[t].clear();
        flint_cleanup();
    }
    void operator()() {
        std::vector<std::thread> T; for (size_t t = 0; t < P.size(); t++) T.emplace_back([this, t] { thread(t); });
        for (auto& t : T) t.join();
    }
};

std::vector<Kind> kinds(Src& s, size_t n) {
    std::vector<Kind> U;
    for (int tries = 0; U.size() < n && tries < 12; tries++) {
        Kind k;
        if (U.empty() || s.chance(1, 4)) { k.F = field(s, (s.chance(1, 6) ? 0 : NO_LINEAR) | NO_EXTREME | SMALL_ONLY, 4); k.name = s.chance(1, 2) ? "x" : "a"; }
        else { k = U[s.below(U.size())]; if (s.chance(1, 2) && k.F.roots.size() > 1) { size_t i = s.below(k.F.roots.size()); k.F.index = i; k.F.K = std::make_shared<orc::Field>(k.F.f, k.F.roots[i]); } else k.name = gen_name(s); }
        bool dup = false; for (auto& u : U) dup |= u.name == k.name && u.F.pol == k.F.pol && u.F.index == k.F.index;
        if (dup) continue;
        k.pol = k.F.pol_str(k.name); k.emb = ball_string(s, k.F, PREC); U.push_back(k);
    }
    return U;
}

Program program(Src& s, const std::vector<Kind>& U, const Shared& S, size_t rounds, size_t t) {
    Program p; std::vector<int> hk(NH, -1), ek(NE, -1); orc::FieldP Q = rational_field(); std::vector<Elem> ev(NE, Elem(Q));
    auto K = [&](int k) -> orc::FieldP { return k < 0 ? Q : U[(size_t)k].F.K; };
    static const char* const names[] = {"make", "make_c", "copy_h", "drop_h", "same_h", "parent", "elem", "parse", "stream", "gen", "shared_e", "shared_h", "arith", "scalar", "copy_e", "move_e", "swap_e", "drop_e", "cmp", "floor", "text", "construction", "churn", "yield", "pow", "round", "fdiv", "real", "parts", "print", "assign", "refused", "archive", "roots", "private"};
    for (size_t r = 0; r < rounds; r++) {
        p.rounds.emplace_back();
        size_t n = (size_t)s.range(1, 12);
        for (size_t i = 0; i < n; i++) {
            Op o{}; o.what = (What)s.pick({8, 1, 2, 3, 1, 2, 3, 1, 1, 2, 2, 1, 3, 2, 2, 1, 1, 3, 2, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}); o.a = s.below(3); o.b = s.below(3); o.c = s.below(3);
            bool ok = true;
            switch (o.what) {
            case MAKE: o.b = s.below(U.size()); hk[o.a] = (int)o.b; break;
            case MAKE_C: ok = hk[o.b] >= 0; if (ok) hk[o.a] = hk[o.b]; break;
            case COPY_H: hk[o.a] = hk[o.b]; break;
            case DROP_H: hk[o.a] = -1; break;
            case SAME_H: ok = hk[o.a] >= 0 && hk[o.b] >= 0; o.want = hk[o.a] == hk[o.b]; break;
            case PARENT: ok = ek[o.b] >= 0; if (ok) hk[o.a] = ek[o.b]; break;
            case ELEM: ok = hk[o.b] >= 0; if (ok) { o.n = (long)s.below(2); o.z = integer(s, 70); o.q = rational(s, 40); ev[o.a] = Elem(K(hk[o.b]), o.n ? o.q : mpq_class(o.z)); ek[o.a] = hk[o.b]; } break;
            case PARSE: case STREAM: ok = hk[o.b] >= 0; if (ok) { Elem e = elem(s, K(hk[o.b]), 20); QPoly q = poly_of(e); o.text = orc::str(q, U[(size_t)hk[o.b]].name); if (q.empty()) o.text = "0"; ev[o.a] = e; ek[o.a] = hk[o.b]; } break;
            case GEN: ok = hk[o.b] >= 0; if (ok) { o.n = (long)s.below(3); ev[o.a] = o.n == 0 ? Elem::gen(K(hk[o.b])) : Elem(K(hk[o.b]), o.n == 1 ? 1 : 0); ek[o.a] = hk[o.b]; } break;
            case SHARED_E: ok = !S.e.empty(); if (ok) { o.b = s.below(S.e.size()); ev[o.a] = S.v[o.b]; ek[o.a] = S.kind[o.b]; } break;
            case SHARED_H: ok = !S.h.empty(); if (ok) { o.b = s.below(S.h.size()); hk[o.a] = S.hkind[o.b]; } break;
            case ARITH: {
                ok = ek[o.b] == ek[o.c] && ek[o.b] >= 0 && size_of(ev[o.b]) + size_of(ev[o.c]) < 120; if (!ok) break;
                o.n = (long)s.below(6); if ((o.n >= 4 && o.a == o.c)) o.n = 0;
                if (o.n == 3 && !(clear_of(ev[o.c], 0) && !ev[o.c].is_zero())) o.n = 1;
                Elem x = ev[o.b], y = ev[o.c]; ev[o.a] = o.n == 0 || o.n == 4 ? x + y : o.n == 1 ? x - y : o.n == 3 ? x * y.inv() : x * y; ek[o.a] = ek[o.b]; break; }
            case SCALAR: ok = ek[o.b] >= 0 && size_of(ev[o.b]) < 120; if (ok) { o.n = (long)s.below(ev[o.b].is_rational() ? 2 : 4); o.q = rational(s, 20); o.z = integer(s, 20); Elem x = ev[o.b]; ev[o.a] = o.n == 0 ? x + o.q : o.n == 2 ? x + mpq_class(-o.q) : x * mpq_class(o.z); ek[o.a] = ek[o.b]; } break;
            case COPY_E: case MOVE_E: ev[o.a] = ev[o.b]; ek[o.a] = ek[o.b]; break;
            case SWAP_E: std::swap(ev[o.a], ev[o.b]); std::swap(ek[o.a], ek[o.b]); break;
            case DROP_E: ev[o.a] = Elem(Q); ek[o.a] = -1; break;
            case CMP: ok = ek[o.a] == ek[o.b] && ek[o.a] >= 0; if (ok) { Elem d = ev[o.a] - ev[o.b]; ok = clear_of(d, 0); o.want = d.sign(); } break;
            case FLOOR: ok = ek[o.a] >= 0; if (ok) { o.z = ev[o.a].floor(); ok = clear_of(ev[o.a], o.z) && clear_of(ev[o.a], mpq_class(o.z + 1)); } break;
            case TEXT: ok = ek[o.a] >= 0; break;
            case CONSTRUCTION: ok = hk[o.b] >= 0; if (ok) hk[o.a] = hk[o.b]; break;
            case CHURN: o.b = s.below(U.size()); o.n = s.range(1, 25); o.c = s.below(4); break;
            case YIELD: o.n = s.range(1, 4); break;
            case POW: { ok = ek[o.b] >= 0 && size_of(ev[o.b]) < 40; if (!ok) break; o.n = s.range(-2, 3); if (o.n < 0 && (ev[o.b].is_zero() || !clear_of(ev[o.b], 0))) o.n = 2; Elem x = o.n < 0 ? ev[o.b].inv() : ev[o.b], y(K(ek[o.b]), 1); for (long i = std::abs(o.n); i-- > 0;) y = y * x; ev[o.a] = y; ek[o.a] = ek[o.b]; break; }
            case ROUND: ok = ek[o.a] >= 0; if (ok) { o.n = (long)s.below(2); o.z = ev[o.a].floor(); ok = clear_of(ev[o.a], o.z) && clear_of(ev[o.a], mpq_class(o.z + 1)) && clear_of(ev[o.a], 0); o.want = ev[o.a].sign(); if (o.n && ev[o.a].cmp(mpq_class(o.z)) != 0) o.z += 1; } break;
            case FDIV: ok = ek[o.a] >= 0 && ek[o.a] == ek[o.b] && !ev[o.b].is_zero() && clear_of(ev[o.b], 0) && size_of(ev[o.a]) + size_of(ev[o.b]) < 120; if (ok) { Elem q = ev[o.a] * ev[o.b].inv(); o.z = q.floor(); ok = clear_of(q, o.z) && clear_of(q, mpq_class(o.z + 1)); } break;
            case REAL: ok = ek[o.a] >= 0 && clear_of(ev[o.a], 0); if (ok) { mpq_class t = ev[o.a].approx(80); ok = abs(t) < mpq_class(mpz_class(1) << 200); o.q = t - mpq_class(1, 4000000) * (abs(t) + 1); } break;
            case PARTS: ok = ek[o.a] >= 0; if (ok) { o.z = ev[o.a].den(); o.want = ev[o.a].is_rational(); } break;
            case PRINT: ok = ek[o.a] >= 0; break;
            case ASSIGN: o.n = (long)s.below(4); o.z = integer(s, 70); o.q = rational(s, 70); ek[o.a] = -1; ev[o.a] = Elem(Q); break;
            case REFUSED: o.n = (long)s.below(3); o.c = s.below(U.size()); ok = o.n != 0 || hk[o.b] >= 0; if (ok && o.n == 0) o.text = U[(size_t)hk[o.b]].name; break;
            case ARCHIVE: ok = ek[o.a] >= 0 && ek[o.b] >= 0 && hk[o.c] >= 0; break;
            case ROOTS: o.b = s.below(U.size()); break;
            case PRIVATE: ok = hk[o.b] >= 0 && !Elem::gen(K(hk[o.b])).is_zero() && clear_of(Elem::gen(K(hk[o.b])), 0); o.n = s.range(600, 1500); break;
            }
            if (!ok) { o = Op{}; o.what = YIELD; o.n = 0; continue; }
            NOTE("t" << t << "." << r << ": " << names[o.what] << " " << o.a << " " << o.b << " " << o.c << " " << o.n << (o.text.empty() ? "" : " '" + o.text + "'"));
            p.rounds.back().push_back(o);
        }
        p.held.push_back(hk);
    }
    p.hk = hk; p.ek = ek; p.final_e = ev;
    return p;
}
size_t held_bytes() { return __sanitizer_get_current_allocated_bytes(); }
}

static void c17(Src& s) {
    gen::tails = false;
    static bool once = [] { std::cerr.setstate(std::ios::failbit); X x(1); (void)x; return true; }(); (void)once;
    std::vector<Kind> U = kinds(s, (size_t)s.range(1, 3));
    for (size_t i = 0; i < U.size(); i++) NOTE("kind " << i << ": " << U[i].pol << " | " << U[i].name << " | " << U[i].emb);
    size_t T = (size_t)s.range(2, 4), R = (size_t)s.range(1, 3);
    std::vector<Program> P; bool leak = false; std::string what; long grown = 0;
    {
        Shared S;
        if (s.chance(1, 2)) for (size_t i = 0; i < U.size(); i++) {
            KP k = renf_class::make(U[i].pol, U[i].name, U[i].emb, PREC); Elem e = elem(s, U[i].F.K, 20); X x(*k); set_direct(x.renf_elem_t(), e, k->renf_t());
            S.e.push_back(x); S.v.push_back(e); S.kind.push_back((int)i);
            if (s.chance(1, 2)) { S.h.push_back(k); S.hkind.push_back((int)i); }
            NOTE("shared element " << e.str() << " of kind " << i);
        }
        for (size_t t = 0; t < T; t++) P.push_back(program(s, U, S, R, t));
        for (int rep = 0; rep < 2 || (grown > 0 && rep < 12); rep++) {
            size_t before = held_bytes();
            {
                Run run(U, P, S);
                run();
                for (size_t t = 0; t < T; t++) if (!run.err[t].empty()) FAIL("thread", "thread " << t << ": " << run.err[t]);
                for (size_t t = 0; t < T; t++) for (size_t i = 0; i < NE; i++) if (P[t].ek[i] >= 0) {
                    Elem got = read_x(run.E[t][i], U[(size_t)P[t].ek[i]].F.K);
                    CHECK(got == P[t].final_e[i], "value", "thread " << t << " computed " << got.str() << " instead of " << P[t].final_e[i].str());
                    CHECK(run.E[t][i].parent().gen_name() == U[(size_t)P[t].ek[i]].name, "parent", "element of thread " << t << " is in the wrong field");
                }
            }
            grown = rep == 0 ? 1 : (long)(held_bytes() - before); if (rep == 11) leak = grown > 0;
        }
    }
    if (leak) FAIL("leak", "each repetition of the threads leaves " << grown << " bytes behind");
    for (size_t t = 0; t < T; t++) { label(T == 2 ? "2 threads" : T == 3 ? "3 threads" : "4 threads"); break; }
    bool common = false; for (size_t k = 0; k < U.size(); k++) { size_t n = 0; for (auto& p : P) { bool m = false; for (auto& r : p.rounds) for (auto& o : r) m |= (o.what == MAKE || o.what == CHURN) && o.b == k; n += m; } common |= n >= 2; }
    if (common) { label("contended"); nontrivial(); }
}
PROPERTY_SCHEDULES("C17.threads", c17, 16000, 160000, 60, "programs of two to four threads that create, copy, use and release fields and elements; no data race, no duplicate field, exact values, nothing left behind; non-trivial: two threads create the same field");
