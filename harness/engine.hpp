// A small property-based testing engine: a test case is a finite sequence of
// integer choices.  Choices are drawn from a PRNG seeded by (VERIF_SEED,
// property, case index), or replayed from a saved sequence (missing choices
// read as 0).  Shrinking works on the choice sequence alone, so every
// generator shrinks and every failure replays.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <sstream>

namespace pbt {

struct Fail { std::string tag, msg; };
struct Discard {};

constexpr size_t MAX_CHOICES = 1 << 15;

// Layout shared between a worker and its parent, so that the choices of a case
// that crashed the worker are known.
struct Record { volatile uint64_t n; uint64_t v[MAX_CHOICES]; };
struct FuzzRecord { Record rec; uint64_t evals, nontrivial; };
// Run a case whose choices come from bytes: 0 ok, 1 ok and non-trivial, 2 discarded, 3 failed.
int run_bytes(const char* id, const uint8_t* data, size_t size, Record* r);

class Src {
public:
    Src(uint64_t seed, Record* r) : replay(false), rec(r) { x = seed; rec->n = 0; }
    Src(const std::vector<uint64_t>& c, Record* r) : replay(true), pre(c), rec(r) { x = 0; rec->n = 0; }
    Src(const uint8_t* data, size_t size, Record* r) : replay(false), bytes(data), nbytes(size), rec(r) { x = 0; rec->n = 0; }
    // uniform in [0, max]
    uint64_t draw(uint64_t max);
    uint64_t below(uint64_t n) { return draw(n - 1); }           // [0, n)
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }  // shrinks to false
    // pick an index with the given weights; shrinks towards index 0
    size_t pick(std::initializer_list<unsigned> w);
    template <class T> const T& one(const std::vector<T>& v) { return v[below(v.size())]; }
private:
    bool replay;
    std::vector<uint64_t> pre;
    const uint8_t* bytes = nullptr; size_t nbytes = 0, bpos = 0;
    size_t pos = 0;
    uint64_t x;
    Record* rec;
    uint64_t next();
};
// Records the choices that are drawn from a source for some time.
struct Tape { std::vector<uint64_t> choices; void start(Src*); void stop(); };
void mute(bool);                         // no labels while repeating a case

// Per case context.
struct Ctx {
    bool verbose = false;
    std::string log;
    bool interesting = false;
    char* mirror = nullptr;      // survives a crash of this process (shared memory)
    size_t mirrored = 0;
    static constexpr size_t MIRROR = 24000;
    void note(const std::string& s) {
        if (!verbose || log.size() >= 20000) return;
        size_t old = log.size();
        log += s; log += "\n";
        if (mirror) for (size_t i = old; i < log.size() && i + 1 < MIRROR; i++) { mirror[i] = log[i]; mirror[i + 1] = 0; }
    }
};
extern Ctx* ctx;
inline bool verbose() { return ctx && ctx->verbose; }
void label(const char* name);           // classify the current case
inline void nontrivial() { ctx->interesting = true; }
[[noreturn]] void fail(const std::string& tag, const std::string& msg);

#define NOTE(expr) do { if (pbt::verbose()) { std::ostringstream _o; _o << expr; pbt::ctx->note(_o.str()); } } while (0)
#define FAIL(tag, expr) do { std::ostringstream _o; _o << expr; pbt::fail(tag, _o.str()); } while (0)
#define CHECK(cond, tag, expr) do { if (!(cond)) FAIL(tag, expr); } while (0)

typedef void (*PropFn)(Src&);
struct Prop {
    const char* id; PropFn fn; uint64_t quick, thorough; const char* rule;
    double cpu_limit;      // seconds of CPU per case before it counts as a hang
    bool schedules = false;   // outcomes depend on the schedule: one failure decides, replays try again and again
};
std::vector<Prop>& props();
struct Reg { Reg(const Prop& p) { props().push_back(p); } };
#define PROPERTY(ID, FN, QUICK, THOROUGH, CPU, RULE) static pbt::Reg reg_##FN({ID, FN, QUICK, THOROUGH, RULE, CPU})

#define PROPERTY_SCHEDULES(ID, FN, QUICK, THOROUGH, CPU, RULE) static pbt::Reg reg_##FN({ID, FN, QUICK, THOROUGH, RULE, CPU, true})

int main_run(int argc, char** argv);

} // namespace pbt

