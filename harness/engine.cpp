#include "engine.hpp"
#include <dirent.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

Ctx* ctx = nullptr;
std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

void fail(const std::string& tag, const std::string& msg) { throw Fail{tag, msg}; }

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

uint64_t Src::next() { return splitmix(x); }

static Tape* tape = nullptr; static Src* taped = nullptr; static bool muted = false;
void Tape::start(Src* s) { choices.clear(); choices.shrink_to_fit(); tape = this; taped = s; }
void Tape::stop() { tape = nullptr; taped = nullptr; }
void mute(bool m) { muted = m; }

uint64_t Src::draw(uint64_t max) {
    uint64_t v;
    if (replay) {
        v = pos < pre.size() ? pre[pos] : 0;
        if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
    } else if (bytes) {
        int nb = max <= 0xff ? 1 : max <= 0xffff ? 2 : max <= 0xffffffffULL ? 4 : 8;
        v = 0;
        for (int i = 0; i < nb; i++) v = (v << 8) | (bpos < nbytes ? bytes[bpos++] : 0);
        if (max != UINT64_MAX) v %= max + 1;
    } else {
        v = next();
        if (max != UINT64_MAX) v = (uint64_t)(((unsigned __int128)v * (max + 1)) >> 64);
    }
    pos++;
    if (rec->n >= MAX_CHOICES) throw Discard{};
    rec->v[rec->n] = v;
    rec->n = rec->n + 1;
    if (taped == this) tape->choices.push_back(v);
    return v;
}

size_t Src::pick(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    uint64_t r = below(tot);
    size_t i = 0;
    for (auto x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
}

// ---------------------------------------------------------------- shared state
constexpr int NLABEL = 96, LABLEN = 56, MAXW = 16;
constexpr size_t HISTCAP = 1 << 20;
struct WorkerSlot {
    Record rec;
    std::atomic<uint64_t> cur;         // index of the running case + 1, or 0
    std::atomic<uint64_t> evals, nontriv, discards;
    uint64_t nhist; uint32_t hist[HISTCAP];
    std::atomic<int> failed;           // 1: Fail was thrown
    char tag[128]; char msg[6000];
    uint64_t maxcpu_us, maxcpu_case;
    std::atomic<int> nlab;
    struct { char name[LABLEN]; uint64_t n; } lab[NLABEL];
    char mirror[Ctx::MIRROR];
};
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    WorkerSlot w[MAXW];
};
static Shared* sh = nullptr;
static WorkerSlot* slot = nullptr;

void label(const char* name) {
    if (!slot || muted) return;
    int n = slot->nlab.load();
    for (int i = 0; i < n; i++)
        if (!strncmp(slot->lab[i].name, name, LABLEN - 1)) { slot->lab[i].n++; return; }
    if (n < NLABEL) {
        strncpy(slot->lab[n].name, name, LABLEN - 1);
        slot->lab[n].n = 1;
        slot->nlab.store(n + 1);
    }
}

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}

static uint64_t case_seed(uint64_t seed, const char* id, uint64_t idx) {
    uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ fnv(id, strlen(id));
    splitmix(s);
    s ^= idx * 0xd1342543de82ef95ULL;
    splitmix(s);
    return splitmix(s);
}

static void arm(double cpu) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)cpu;
    it.it_value.tv_usec = (suseconds_t)((cpu - (time_t)cpu) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static uint64_t cpu_us() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }

enum Outcome { OK, FAILED, CRASH, HANG, MEMORY, DISCARDED };
static const char* oname(Outcome o) {
    switch (o) { case OK: return "ok"; case FAILED: return "failed"; case CRASH: return "crash"; case HANG: return "hang"; case MEMORY: return "memory"; default: return "discarded"; }
}

// Run one case in this process.
static Outcome run_case(const Prop& p, Src& s, Ctx& c, Fail& f) {
    ctx = &c;
    try { p.fn(s); }
    catch (const Fail& e) { f = e; return FAILED; }
    catch (const Discard&) { return DISCARDED; }
    catch (const std::exception& e) { f = Fail{"exception", std::string("unexpected exception escaped: ") + e.what()}; return FAILED; }
    return OK;
}

// All threads of the process sleep, i.e., nothing can ever happen again. (Samples, once per 0.5 s.)
struct Idle {
    double last = 0; int n = 0; uint64_t cur = 0;
    static bool asleep(pid_t pid) {
        std::string d = "/proc/" + std::to_string(pid) + "/task"; DIR* t = opendir(d.c_str()); if (!t) return false;
        bool all = true; int count = 0;
        while (struct dirent* e = readdir(t)) {
            if (e->d_name[0] == '.') continue;
            std::ifstream f(d + "/" + e->d_name + "/stat"); std::string l; std::getline(f, l); size_t k = l.rfind(')');
            if (k == std::string::npos || k + 2 >= l.size()) { all = false; continue; }
            count++; all &= l[k + 2] == 'S';
        }
        closedir(t); return all && count > 0;
    }
    bool blocked(pid_t pid, uint64_t c, int limit) {
        if (now() - last < 0.5) return false;
        last = now(); if (c == 0 || c != cur || !asleep(pid)) n = 0; else n++;
        cur = c; return n >= limit;
    }
};
static size_t rss_mb(pid_t pid) {
    char b[64]; snprintf(b, sizeof b, "/proc/%d/statm", (int)pid);
    FILE* f = fopen(b, "r"); if (!f) return 0;
    unsigned long a = 0, r = 0;
    if (fscanf(f, "%lu %lu", &a, &r) != 2) r = 0;
    fclose(f);
    return r * (size_t)sysconf(_SC_PAGESIZE) >> 20;
}
constexpr size_t RSS_LIMIT_MB = 2500;
constexpr uint64_t RECYCLE = 3000;
extern "C" const char* __asan_default_options() { return "quarantine_size_mb=16:detect_leaks=0:allocator_release_to_os_interval_ms=2000:handle_abort=0:malloc_context_size=6:print_stacktrace=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }

// ------------------------------------------------------------------- worker
static std::string tmpdir;

static void redirect(const std::string& err) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) { dup2(nul, 1); close(nul); }
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static void worker(const Prop& p, uint64_t seed, uint64_t N, int w) {
    slot = &sh->w[w];
    redirect(tmpdir + "/err" + std::to_string(w));
    std::string hf = tmpdir + "/hash" + std::to_string(w);
    FILE* hashes = fopen(hf.c_str(), "ab");
    std::string sf = tmpdir + "/samples" + std::to_string(w);
    slot->nhist = 0;
    uint64_t since = 0;
    uint64_t mine = 0;
    while (!sh->stop.load()) {
        if (mine++ >= RECYCLE) { fclose(hashes); _exit(18); }      // a fresh process bounds fragmentation
        uint64_t i = sh->next.fetch_add(1);
        if (i >= N) break;
        if (slot->nhist < HISTCAP) slot->hist[slot->nhist++] = (uint32_t)i;
        slot->cur.store(i + 1);
        Src s(case_seed(seed, p.id, i), &slot->rec);
        Ctx c; c.verbose = i < 400;
        Fail f;
        if (since++ % 64 == 0) { if (ftruncate(2, 0) == 0) lseek(2, 0, SEEK_SET); }
        uint64_t t0 = cpu_us();
        arm(p.cpu_limit);
        Outcome o = run_case(p, s, c, f);
        arm(0);
        uint64_t dt = cpu_us() - t0;
        if (dt > slot->maxcpu_us) { slot->maxcpu_us = dt; slot->maxcpu_case = i; }
        if (o == DISCARDED) slot->discards++;
        else slot->evals++;
        if (o == FAILED) {
            strncpy(slot->tag, f.tag.c_str(), sizeof slot->tag - 1);
            strncpy(slot->msg, f.msg.c_str(), sizeof slot->msg - 1);
            slot->failed.store(1);
            fclose(hashes);
            _exit(17);
        }
        if (o == OK && c.interesting) {
            slot->nontriv++;
            uint64_t h = fnv(slot->rec.v, sizeof(uint64_t) * slot->rec.n);
            fwrite(&h, sizeof h, 1, hashes);
            if (c.verbose && i < 400 && c.log.size()) {
                FILE* g = fopen(sf.c_str(), "ab");
                fprintf(g, "%llu\n%s\x1e", (unsigned long long)i, c.log.c_str());
                fclose(g);
            }
        }
        slot->cur.store(0);
    }
    fclose(hashes);
    _exit(0);
}

// Run one choice sequence in a child process.
struct Iso { Outcome o = OK; std::string tag, msg, log, err; std::vector<uint64_t> choices; };

static void write_all(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; } }

static Iso isolated(const Prop& p, const std::vector<uint64_t>& choices, double cpu, bool want_log, const std::vector<uint64_t>* history = nullptr, uint64_t seed = 0) {
    Iso r;
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(4); }
    std::string err = tmpdir + "/iso_err" + std::to_string(getpid());
    WorkerSlot* ws = &sh->w[MAXW - 1];
    ws->rec.n = 0; ws->mirror[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        redirect(err);
        slot = nullptr;
        Fail f; Outcome o = OK; Ctx c; c.verbose = want_log; c.mirror = ws->mirror;
        if (history) {
            for (uint64_t i : *history) {
                Src s(case_seed(seed, p.id, i), &ws->rec);
                Ctx cc; arm(cpu);
                o = run_case(p, s, cc, f);
                if (o == FAILED) break;
            }
        } else {
            Src s(choices, &ws->rec);
            arm(cpu);
            o = run_case(p, s, c, f);
        }
        arm(0);
        std::string out(1, (char)('0' + (int)o));
        out += f.tag; out += '\0'; out += f.msg; out += '\0'; out += c.log;
        write_all(fd[1], out);
        _exit(0);
    }
    close(fd[1]);
    std::string buf; char tmp[4096];
    fcntl(fd[0], F_SETFL, O_NONBLOCK);
    bool killed_mem = false, killed_wall = false;
    int st = 0;
    double start = now(); Idle idle;
    for (;;) {
        ssize_t k = read(fd[0], tmp, sizeof tmp);
        if (k > 0) { buf.append(tmp, (size_t)k); continue; }
        pid_t q = waitpid(pid, &st, WNOHANG);
        if (q == pid) { while ((k = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, (size_t)k); break; }
        if (rss_mb(pid) > RSS_LIMIT_MB) { killed_mem = true; kill(pid, SIGKILL); }
        if (p.schedules && idle.blocked(pid, 1, 16)) { killed_wall = true; kill(pid, SIGKILL); }
        if (now() - start > cpu * 6 + 60 && !history) { killed_wall = true; kill(pid, SIGKILL); }
        usleep(500);
    }
    close(fd[0]);
    for (uint64_t i = 0; i < ws->rec.n; i++) r.choices.push_back(ws->rec.v[i]);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        if (killed_mem) { r.o = MEMORY; r.tag = "memory"; r.msg = "resident memory exceeded the limit (runaway allocation)"; }
        else if (killed_wall) { r.o = HANG; r.tag = "hang"; r.msg = "did not terminate (blocked)"; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { r.o = HANG; r.tag = "hang"; r.msg = "did not terminate within " + std::to_string(cpu) + " s of CPU time"; }
        else { r.o = CRASH; r.tag = "crash"; r.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st)); }
        std::ifstream e(err); std::stringstream ss; ss << e.rdbuf(); r.err = ss.str();
        r.log = ws->mirror;
        if (r.err.size() > 4000) r.err = r.err.substr(0, 4000);
    } else if (buf.size()) {
        r.o = (Outcome)(buf[0] - '0');
        size_t a = buf.find('\0', 1), b = buf.find('\0', a + 1);
        r.tag = buf.substr(1, a - 1); r.msg = buf.substr(a + 1, b - a - 1); r.log = buf.substr(b + 1);
    }
    unlink(err.c_str());
    return r;
}

static bool bad(Outcome o) { return o == FAILED || o == CRASH || o == HANG || o == MEMORY; }

static std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, const std::string& tag, double budget) {
    double end = now() + budget;
    int tries = 0;
    double cpu = tag == "hang" ? p.cpu_limit / 4 : p.cpu_limit;
    auto still = [&](const std::vector<uint64_t>& c) -> bool {
        tries++;
        for (int k = 0; k < (p.schedules ? 12 : 1); k++) { Iso r = isolated(p, c, cpu, false); if (bad(r.o) && r.tag == tag) return true; }
        return false;
    };
    bool improved = true;
    while (improved && now() < end && tries < 4000) {
        improved = false;
        // drop a suffix, then chunks
        for (size_t k = best.size(); k >= 1 && now() < end; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && now() < end;) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (still(c)) { best = c; improved = true; }
                else i += std::max<size_t>(1, k / 2);
            }
        }
        // zero chunks
        for (size_t k = best.size(); k >= 1 && now() < end; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && now() < end; i += k) {
                bool nz = false;
                for (size_t j = i; j < i + k; j++) nz |= best[j] != 0;
                if (!nz) continue;
                std::vector<uint64_t> c(best);
                std::fill(c.begin() + (long)i, c.begin() + (long)(i + k), 0);
                if (still(c)) { best = c; improved = true; }
            }
        }
        // lower single values
        for (size_t i = 0; i < best.size() && now() < end; i++) {
            uint64_t lo = 0, hi = best[i];
            while (lo < hi && now() < end) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c(best); c[i] = mid;
                if (still(c)) { best = c; hi = mid; improved = true; } else lo = mid + 1;
            }
        }
        while (!best.empty() && best.back() == 0) { best.pop_back(); }
    }
    return best;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

static void write_replay(const std::string& path, const Prop& p, const Iso& r, const std::vector<uint64_t>& choices, uint64_t seed, const std::vector<uint64_t>* hist) {
    std::ofstream o(path);
    o << "property " << p.id << "\n";
    if (hist) {
        o << "seed " << seed << "\nhistory " << hist->size();
        for (auto h : *hist) o << " " << h;
        o << "\n";
    } else {
        o << "choices " << choices.size();
        for (auto c : choices) o << " " << c;
        o << "\n";
    }
    o << "outcome " << oname(r.o) << "\ntag " << r.tag << "\n--- message\n" << r.msg << "\n--- case\n" << r.log << "\n--- stderr\n" << r.err << "\n";
}

static const Prop* find(const std::string& id) {
    for (auto& p : props()) if (id == p.id) return &p;
    return nullptr;
}

static int replay(const std::string& file) {
    std::ifstream in(file);
    std::string w, id; uint64_t seed = 0; std::vector<uint64_t> ch, hist; bool h = false;
    while (in >> w) {
        if (w == "property") in >> id;
        else if (w == "seed") in >> seed;
        else if (w == "choices" || w == "history") { size_t n; in >> n; auto& v = w == "history" ? hist : ch; h = w == "history"; v.resize(n); for (auto& x : v) in >> x; }
        else break;
    }
    const Prop* p = find(id);
    if (!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    Iso r = isolated(*p, ch, p->cpu_limit * 2, true, h ? &hist : nullptr, seed);
    if (p->schedules) for (int k = 1; k < 400 && !bad(r.o); k++) r = isolated(*p, ch, p->cpu_limit * 2, true);
    std::cout << "outcome " << oname(r.o) << "\ntag " << r.tag << "\nmessage " << r.msg << "\n" << r.log << "\n" << r.err << std::endl;
    return bad(r.o) ? 1 : 0;
}

int run_bytes(const char* id, const uint8_t* data, size_t size, Record* rec) {
    static const Prop* p = find(id);
    if (!p) { fprintf(stderr, "unknown property '%s'\n", id); exit(4); }
    Src s(data, size, rec); Ctx c; Fail f;
    Outcome o = run_case(*p, s, c, f);
    return o == OK ? (c.interesting ? 1 : 0) : o == DISCARDED ? 2 : 3;
}

int main_run(int argc, char** argv) {
    std::string id, out, replays = ".", rep, recorded, tmpbase = "/tmp"; uint64_t seed = 1, cases = 0; bool thorough = false; double wall = 420; int W = 8; long one = -1; double shrinkb = 60; double scale = 1; int maxfail = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") id = val(); else if (a == "--out") out = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10); else if (a == "--thorough") thorough = true;
        else if (a == "--wall") wall = atof(val().c_str()); else if (a == "--workers") W = atoi(val().c_str());
        else if (a == "--replays") replays = val(); else if (a == "--replay") rep = val(); else if (a == "--tmp") tmpbase = val();
        else if (a == "--case") one = atol(val().c_str()); else if (a == "--shrink") shrinkb = atof(val().c_str()); else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--recorded") recorded = val(); else if (a == "--maxfail") maxfail = atoi(val().c_str());
        else if (a == "--list") { for (auto& p : props()) printf("%s %llu %llu\n", p.id, (unsigned long long)p.quick, (unsigned long long)p.thorough); return 0; }
    }
    W = std::min(W, MAXW - 1); if (!recorded.empty()) { W = 0; cases = 1; }
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 4; }
    std::string t = tmpbase + "/pbtXXXXXX"; std::vector<char> tb(t.begin(), t.end()); tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 4; }
    tmpdir = tb.data();
    struct Cleanup { ~Cleanup() { for (int w = 0; w < MAXW; w++) for (const char* n : {"err", "hash", "samples"}) unlink((tmpdir + "/" + n + std::to_string(w)).c_str()); rmdir(tmpdir.c_str()); } } cleanup;
    if (!rep.empty()) return replay(rep);
    const Prop* pp = find(id);
    if (!pp) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
    const Prop& p = *pp;
    if (one >= 0) {
        WorkerSlot* ws = &sh->w[0]; slot = ws;
        Src s(case_seed(seed, p.id, (uint64_t)one), &ws->rec);
        Ctx c; c.verbose = true; Fail f; uint64_t t0 = cpu_us();
        Outcome o = run_case(p, s, c, f);
        std::cout << c.log << "outcome " << oname(o) << " " << f.tag << " " << f.msg << " cpu_us " << cpu_us() - t0 << std::endl;
        return bad(o);
    }
    uint64_t N = cases ? cases : (uint64_t)((thorough ? p.thorough : p.quick) * scale);
    if (N > 0xfffffff0u) N = 0xfffffff0u;
    double t0 = now();
    std::vector<pid_t> pid((size_t)W);
    std::vector<bool> memkill((size_t)W, false);
    std::vector<bool> blocked((size_t)W, false); std::vector<Idle> idle((size_t)W);
    auto spawn = [&](int w) { pid_t q = fork(); if (q == 0) worker(p, seed, N, w); pid[(size_t)w] = q; memkill[(size_t)w] = blocked[(size_t)w] = false; idle[(size_t)w] = Idle(); };
    for (int w = 0; w < W; w++) spawn(w);
    struct Found { uint64_t idx; Outcome o; std::string tag, msg, err; std::vector<uint64_t> choices, hist; };
    std::vector<Found> found;
    if (!recorded.empty()) {              // found by the coverage-guided search
        static FuzzRecord fr; FILE* f = fopen(recorded.c_str(), "rb"); if (!f || fread(&fr, sizeof fr, 1, f) != 1) { perror("recorded"); return 4; } fclose(f);
        Found g; g.idx = 0; g.o = CRASH; g.tag = "fuzz"; for (uint64_t i = 0; i < fr.rec.n && i < MAX_CHOICES; i++) g.choices.push_back(fr.rec.v[i]);
        found.push_back(g);
    }
    int alive = W; bool truncated = false; size_t loops = 0;
    while (alive > 0) {
        usleep(2000);
        if (now() - t0 > wall && !sh->stop.load()) { sh->stop.store(1); truncated = true; }
        loops++;
        for (int w = 0; w < W; w++) {
            if (pid[(size_t)w] <= 0) continue;
            int st; pid_t q = waitpid(pid[(size_t)w], &st, WNOHANG);
            if (q == 0 && p.schedules && idle[(size_t)w].blocked(pid[(size_t)w], sh->w[w].cur.load(), 40)) { blocked[(size_t)w] = true; kill(pid[(size_t)w], SIGKILL); continue; }
            if (q == 0) { if (loops % 10 == 0 && rss_mb(pid[(size_t)w]) > RSS_LIMIT_MB) { memkill[(size_t)w] = true; kill(pid[(size_t)w], SIGKILL); } continue; }
            pid[(size_t)w] = 0; alive--;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 18) { if (!sh->stop.load()) { spawn(w); alive++; } continue; }
            WorkerSlot& s = sh->w[w];
            Found f; f.idx = s.cur.load() ? s.cur.load() - 1 : UINT64_MAX;
            for (uint64_t i = 0; i < s.rec.n; i++) f.choices.push_back(s.rec.v[i]);
            for (uint64_t i = 0; i < s.nhist; i++) f.hist.push_back(s.hist[i]);
            if (s.failed.load()) { f.o = FAILED; f.tag = s.tag; f.msg = s.msg; s.failed.store(0); }
            else { s.evals++; f.o = memkill[(size_t)w] ? MEMORY : blocked[(size_t)w] || (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) ? HANG : CRASH; f.tag = oname(f.o); if (blocked[(size_t)w]) f.msg = "all threads are blocked"; }
            s.cur.store(0);
            if (p.schedules) { std::ifstream e(tmpdir + "/err" + std::to_string(w)); std::stringstream ss; ss << e.rdbuf(); f.err = ss.str().substr(0, 6000); }
            found.push_back(f);
            if ((int)found.size() >= std::max(maxfail, 5)) sh->stop.store(1);      // some, in case one does not reproduce
            if (!sh->stop.load()) { spawn(w); alive++; }
        }
    }
    double gen_wall = now() - t0;
    std::string viol; int nviol = 0, unrepro = 0; std::set<std::string> seen;
    for (auto& f : found) {
        if (nviol >= maxfail || (f.o == HANG && seen.count("a hang"))) continue;
        int n = 0; Iso last;
        for (int k = 0; k < 3 && !p.schedules; k++) { Iso r = isolated(p, f.choices, p.cpu_limit * 2, false); if (bad(r.o)) { n++; last = r; if (r.o == HANG && f.o == HANG) n = 3; if (n == 3) break; } else break; }
        bool hist = false; std::vector<uint64_t> hc;
        if (p.schedules) {
            // another schedule may succeed: look for a failure again, but the one that was seen decides
            double until = now() + 40;
            for (int k = 0; k < 60 && n == 0 && now() < until; k++) { Iso r = isolated(p, f.choices, p.cpu_limit * 2, false); if (bad(r.o)) { n++; last = r; } }
            if (n == 0 && f.o == MEMORY) { unrepro++; continue; }
            if (n == 0 && f.o == HANG && f.msg.empty()) { unrepro++; continue; }
            std::vector<uint64_t> best = n ? shrink(p, f.choices, last.tag, shrinkb) : f.choices;
            Iso show; until = now() + 40; for (int k = 0; k < 100 && now() < until; k++) { show = isolated(p, best, p.cpu_limit * 2, true); if (bad(show.o)) break; }
            if (!bad(show.o)) { show.o = f.o; show.tag = f.tag; show.msg = f.msg + " (under one schedule)"; show.err = f.err; }
            if (show.tag == "crash") { size_t a = show.err.find("WARNING: ThreadSanitizer"); if (a != std::string::npos) { show.tag = "race"; show.msg = show.err.substr(a, show.err.find('\n', a) - a); } }
            uint64_t h = fnv(best.data(), best.size() * 8); char b[64]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
            std::string path = replays + "/" + p.id + "-" + b + ".txt";
            write_replay(path, p, show, best, seed, nullptr);
            if (nviol++) viol += ",";
            viol += "{\"replay\":\"" + jesc(path) + "\",\"tag\":\"" + jesc(show.tag) + "\",\"message\":\"" + jesc(show.msg) + "\",\"case\":\"" + jesc(show.log) + "\",\"stderr\":\"" + jesc(show.err.substr(0, 1500)) + "\",\"index\":" + std::to_string(f.idx) + "}";
            continue;
        }
        if (n < 3) {
            // the failure may depend on the earlier cases of that process
            int m = 0;
            for (int k = 0; k < 2; k++) { Iso r = isolated(p, {}, p.cpu_limit * 2, false, &f.hist, seed); if (bad(r.o)) { m++; last = r; } else break; }
            if (m < 2) { unrepro++; fprintf(stderr, "pbt: case %llu (%s %s: %s) did not reproduce; ignored\n", (unsigned long long)f.idx, oname(f.o), f.tag.c_str(), f.msg.c_str()); continue; }
            hist = true;
            hc = f.hist;   // drop prefixes that are not needed
            double end = now() + shrinkb;
            for (size_t k = hc.size() / 2; k >= 1 && now() < end; k /= 2)
                for (size_t i = 0; i + k <= hc.size() && now() < end;) {
                    auto c = hc; c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                    if (bad(isolated(p, {}, p.cpu_limit * 2, false, &c, seed).o)) hc = c; else i += k;
                }
        }
        std::vector<uint64_t> best = f.choices;
        std::string tag = last.tag;
        if (!hist) {
            best = shrink(p, f.choices, tag, shrinkb);
            last = isolated(p, best, p.cpu_limit * 2, true);
            if (!bad(last.o)) { best = f.choices; last = isolated(p, best, p.cpu_limit * 2, true); }
        }
        if (!seen.insert(last.tag + last.msg).second) continue;
        if (last.o == HANG) seen.insert("a hang");
        uint64_t h = fnv(best.data(), best.size() * 8); for (auto x : hc) h = fnv(&x, 8, h);
        char b[64]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
        std::string path = replays + "/" + p.id + "-" + b + ".txt";
        write_replay(path, p, last, best, seed, hist ? &hc : nullptr);
        if (nviol++) viol += ",";
        viol += "{\"replay\":\"" + jesc(path) + "\",\"tag\":\"" + jesc(last.tag) + "\",\"message\":\"" + jesc(last.msg) + "\",\"case\":\"" + jesc(last.log) + "\",\"stderr\":\"" + jesc(last.err.substr(0, 1500)) + "\",\"index\":" + std::to_string(f.idx) + "}";
    }
    uint64_t ev = 0, nt = 0, di = 0, mc = 0, mci = 0; std::map<std::string, uint64_t> labs;
    std::unordered_set<uint64_t> hs; std::map<uint64_t, std::string> samples;
    for (int w = 0; w < W; w++) {
        auto& s = sh->w[w]; ev += s.evals; nt += s.nontriv; di += s.discards;
        if (s.maxcpu_us > mc) { mc = s.maxcpu_us; mci = s.maxcpu_case; }
        for (int i = 0; i < s.nlab.load(); i++) labs[s.lab[i].name] += s.lab[i].n;
        FILE* f = fopen((tmpdir + "/hash" + std::to_string(w)).c_str(), "rb");
        if (f) { uint64_t h; while (fread(&h, 8, 1, f) == 1) hs.insert(h); fclose(f); }
        std::ifstream in(tmpdir + "/samples" + std::to_string(w)); std::string item;
        while (std::getline(in, item, '\x1e')) { size_t nl = item.find('\n'); if (nl != std::string::npos) samples[strtoull(item.c_str(), nullptr, 10)] = item.substr(nl + 1); }
    }
    std::ostringstream j;
    j << "{\"property\":\"" << p.id << "\",\"seed\":" << seed << ",\"evaluations\":" << ev << ",\"planned\":" << N << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << hs.size() << ",\"discarded\":" << di
      << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"unreproduced\":" << unrepro << ",\"gen_wall\":" << gen_wall << ",\"max_case_cpu_s\":" << mc / 1e6 << ",\"max_case\":" << mci << ",\"rule\":\"" << jesc(p.rule) << "\",\"labels\":{";
    bool first = true;
    for (auto& l : labs) { if (!first) j << ","; first = false; j << "\"" << jesc(l.first) << "\":" << l.second; }
    j << "},\"samples\":[";
    first = true; int ns = 0;
    for (auto& s : samples) { if (ns++ >= 6) break; if (!first) j << ","; first = false; j << "\"" << jesc(s.second.substr(0, 1500)) << "\""; }
    j << "],\"violations\":[" << viol << "]}";
    if (out.empty()) std::cout << j.str() << std::endl; else { std::ofstream o(out); o << j.str() << "\n"; }
    return nviol ? 1 : 0;
}

} // namespace pbt
