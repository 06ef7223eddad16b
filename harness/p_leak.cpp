// C15: memory.  Every generated case of every other property is repeated with
// the same choices: what the process holds must not grow with each repetition.
#include "ops.hpp"
#include <cstring>
#include <memory>
#include <sanitizer/allocator_interface.h>
using namespace pbt;

// fixed order, so that saved choices keep their meaning
static const char* const INNER[] = {
    "C01.c", "C01.cpp", "C02.ops", "C02.eval", "C03.c", "C03.cpp", "C03.mixed", "C04.round", "C04.fdiv", "C04.cfrac", "C04.cpp", "C05.c", "C05.cpp",
    "C06.c", "C06.cpp", "C06.reject", "C06.roots", "C06.nth", "C06.random", "C07.run", "C07.c", "C08.count", "C08.isolate", "C08.poly", "C09.unique", "C09.steps", "C09.refine",
    "C10.roundtrip", "C10.expr", "C10.malformed", "C10.bytes", "C11.construction", "C11.archive", "C12.histories", "C13.values", "C14.parts",
};
static const Prop* inner(Src& s) {
    const char* id = INNER[s.below(sizeof INNER / sizeof *INNER)];
    for (auto& p : props()) if (!strcmp(p.id, id)) { label(id); return &p; }
    throw Discard{};
}
static Record* scratch() { static std::unique_ptr<Record> r(new Record()); return r.get(); }

static void c15_memory(Src& s) {
    gen::tails = false;
    const Prop* p = inner(s);
    NOTE("a case of " << p->id);
    bool thrown = false;
    try { p->fn(s); } catch (const Discard&) { thrown = true; }
    if (thrown) throw Discard{};
}
PROPERTY("C15.memory", c15_memory, 6000, 90000, 240, "cases of all other properties under valgrind: every use of uninitialised, released or foreign memory counts; non-trivial by the rule of the repeated property");

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
static size_t held() { return __sanitizer_get_current_allocated_bytes(); }
static void c15_leak(Src& s) {
    // the choices of this case, recorded apart
    size_t idx = s.below(sizeof INNER / sizeof *INNER);
    const Prop* p = nullptr; for (auto& q : props()) if (!strcmp(q.id, INNER[idx])) p = &q;
    if (!p) throw Discard{};
    label(p->id); NOTE("a case of " << p->id);
    static Tape tape;
    tape.start(&s);
    { struct G { ~G() { tape.stop(); } } g; p->fn(s); }
    bool was = ctx->interesting;
    const std::vector<uint64_t> choices = tape.choices;
    Ctx* outer = ctx; Ctx quiet; struct R { Ctx* c; ~R() { ctx = c; } } r{outer};
    auto again = [&]() -> long {
        size_t a = held();
        { Src t(choices, scratch()); ctx = &quiet; quiet.log.clear(); mute(true); try { p->fn(t); } catch (...) { mute(false); ctx = outer; throw; } mute(false); ctx = outer; }
        return (long)(held() - a);
    };
    again();
    long total = 0; int n = 0; const int ROUNDS = 24;
    for (; n < ROUNDS; n++) { long d = again(); if (d <= 0) break; total += d; }
    if (n == ROUNDS) FAIL("leak", "repeating the case grows the memory that is held every time, by " << total / n << " bytes on average");
    if (was) nontrivial();
}
PROPERTY("C15.leak", c15_leak, 60000, 500000, 60, "cases of all other properties, repeated: a leak is memory that grows in each of 24 repetitions; non-trivial by the rule of the repeated property");
#endif
#endif
