#include "core.hpp"
#include "seam.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <chrono>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sys/resource.h>

extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" int __real_close(int);

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:symbolize=0:allocator_may_return_null=1:quarantine_size_mb=8:"
           "detect_stack_use_after_return=0:handle_abort=0:print_legend=0:print_full_thread_history=0:max_malloc_fill_size=0:"
           "detect_odr_violation=0:alloc_dealloc_mismatch=0:handle_sigfpe=1:handle_sigill=1";
}

namespace sim {

const char* const fault_names[F_COUNT] = {
    "short_read", "eintr_read", "read_error", "open_failure", "size_query_failure", "file_shrinks", "file_grows", "close_error",
    "allocation_failure", "torn_file", "corrupted_bytes", "stream_exception", "chunked_delivery", "short_write", "eintr_write",
    "disk_full", "write_error", "clock_jump", "preemption", "process_killed", "heap_fill", "heap_placement", "descriptor_reuse", "tool_failure"
};

Arena* A;
thread_local int tl_lib, tl_harness;
static int g_errfd = -1;

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next() {
    uint64_t s0 = A->rng[0], s1 = A->rng[1], r = rotl(s0 * 5, 7) * 9;
    s1 ^= s0;
    A->rng[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    A->rng[1] = rotl(s1, 37);
    return r;
}
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline void fold(uint64_t v) {
    uint64_t h = A->hash ^ v;
    h *= 0x9fb21c651e98df25ull;
    A->hash = h ^ (h >> 29);
}
uint64_t fnv(std::string const& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}
static uint64_t fnvc(const char* s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}
static uint32_t put_choice(uint32_t n, uint32_t gen) {
    uint32_t v;
    if (A->nch >= MAXCH) return 0;
    if (A->mode == 1) {
        v = A->nch < A->nreplay ? A->replay[A->nch] : 0;
        if (v >= n) v = n ? v % n : 0;
    }
    else v = gen;
    A->ch[A->nch++] = v;
    fold(v * 31 + n);
    return v;
}
uint32_t choose(uint32_t n, const char*) {
    if (n <= 1) return 0;
    uint32_t g = uint32_t((uint64_t(uint32_t(rng_next() >> 32)) * n) >> 32);
    return put_choice(n, g);
}
bool chance(uint32_t num, uint32_t den, const char*) {
    if (!num) return false;
    uint32_t g = uint32_t((uint64_t(uint32_t(rng_next() >> 32)) * den) >> 32) >= den - num;
    return put_choice(2, g);
}
uint32_t small(uint32_t n, const char*) {
    if (n <= 1) return 0;
    uint64_t r = rng_next();
    uint32_t m = n;
    switch (r & 3) { case 0: case 1: m = std::min(n, 5u); break; case 2: m = std::max(1u, std::min(n, n / 4 + 1)); break; default:; }
    uint32_t g = uint32_t((uint64_t(uint32_t(r >> 32)) * m) >> 32);
    return put_choice(n, g);
}
void fault(Fault f) {
    ++A->agg_faults[f];
    ++A->nfaults_run;
    fold(0xFA000 + f);
}
void ev(const char* kind, uint64_t a, uint64_t b) {
    fold(fnvc(kind)); fold(a); fold(b + 7);
}
void evs(const char* kind, std::string const& s) { ev(kind, fnv(s), s.size()); }
void note(const char* fmt, ...) {
    if (A->ntrace + 512 > sizeof A->trace) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(A->trace + A->ntrace, 500, fmt, ap);
    va_end(ap);
    if (k > 499) k = 499;
    if (k < 0) return;
    A->ntrace += unsigned(k);
    A->trace[A->ntrace++] = '\n';
}
void violation(const char* cls, const char* fmt, ...) {
    ++tl_harness;
    if (A->status == 0) {
        snprintf(A->cls, sizeof A->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        vsnprintf(A->msg, sizeof A->msg, fmt, ap);
        va_end(ap);
        A->status = 2;
    }
    _exit(41);
}
void harness_error(const char* fmt, ...) {
    ++tl_harness;
    if (A->status == 0) {
        snprintf(A->cls, sizeof A->cls, "harness");
        va_list ap; va_start(ap, fmt);
        vsnprintf(A->msg, sizeof A->msg, fmt, ap);
        va_end(ap);
        A->status = 3;
    }
    _exit(42);
}
void finish_ok() {
    if (A->status == 0) A->status = 1;
    _exit(40);
}
std::string quote(std::string const& s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        if (i >= max) { o += "..."; break; }
        unsigned char c = s[i];
        if (c == '\n') o += "\\n";
        else if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

Lib::Lib() { if (!tl_lib) paint_stack(16 << 10); ++tl_lib; if (!in_threads()) A->in_lib = 1; }
Lib::~Lib() { --tl_lib; if (!in_threads()) A->in_lib = tl_lib > 0; }

// ---- forks -----------------------------------------------------------------
std::string asan_head() {
    if (g_errfd < 0) return {};
    char buf[6000];
    ssize_t n = pread(g_errfd, buf, sizeof buf - 1, 0);
    if (n <= 0) return {};
    std::string s(buf, size_t(n)), o;
    std::istringstream is(s);
    std::string l; int k = 0;
    while (std::getline(is, l) && k < 14) {
        if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("READ of") == 0 || l.find("WRITE of") == 0 || l.find("    #") == 0 || l.find("terminate") == 0 || l.find("  what") == 0) {
            size_t p = l.find("==ERROR: ");
            o += (p != std::string::npos ? l.substr(p + 2) : l) + "\n"; ++k;
        }
    }
    return o;
}
std::string Exit::str() const {
    return signaled ? "killed by signal " + std::to_string(code) : "exit status " + std::to_string(code);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void wait_child(pid_t pid, int& st, unsigned wall_ms, bool& hung) {
    hung = false;
    int pfd = int(syscall(SYS_pidfd_open, pid, 0));
    if (pfd >= 0) {
        pollfd p{pfd, POLLIN, 0};
        int r;
        double start = now();
        do { // a run over huge inputs asks for more real time while it is under way
            double left = start + (wall_ms + A->wall_extra) / 1000.0 - now();
            if (left <= 0) { r = 0; break; }
            r = poll(&p, 1, int(left * 1000) + 1);
        } while (r == 0 || (r < 0 && errno == EINTR));
        if (r == 0) { hung = true; kill(pid, SIGKILL); }
        __real_close(pfd);
    }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
}
Exit fork_exit(std::function<int()> fn, unsigned wall_ms) {
    if (g_errfd >= 0) { (void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET); }
    pid_t pid = fork();
    if (pid < 0) harness_error("fork: %s", strerror(errno));
    if (!pid) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        exit(fn());
    }
    int st; bool hung;
    wait_child(pid, st, wall_ms, hung);
    if (A->status != 0) _exit(41); // violation or harness error recorded inside
    if (hung) violation("hang", "a run of the program did not end within %u ms of real time", wall_ms);
    Exit e{};
    e.signaled = WIFSIGNALED(st);
    e.code = e.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
    e.memerr = (!e.signaled && e.code == 77) || (e.signaled && (e.code == SIGSEGV || e.code == SIGBUS || e.code == SIGFPE || e.code == SIGILL || e.code == SIGTRAP));
    return e;
}
std::string in_fork(std::function<std::string()> fn) {
    A->xlen = 0;
    Exit e = fork_exit([&]() -> int {
        std::string s = fn();
        Harness h;
        if (s.size() > sizeof A->xfer) harness_error("transfer too large: %zu", s.size());
        memcpy(A->xfer, s.data(), s.size());
        A->xlen = uint32_t(s.size());
        _exit(0);
    });
    if (e.memerr) violation("memory-error", "memory error: %s", asan_head().c_str());
    if (!e.ok()) violation("crash", "process died: %s %s", e.str().c_str(), asan_head().c_str());
    return std::string(A->xfer, A->xlen);
}

// ---- one run ----------------------------------------------------------------
static const Prop* find_prop(std::string const& id) {
    for (unsigned i = 0; i < nprops; ++i) if (id == props[i].id) return &props[i];
    return nullptr;
}
static void reset_run(std::string const& prop, uint64_t seed, uint64_t run, std::vector<uint32_t> const* rep) {
    A->status = 0; A->in_lib = 0; A->cls[0] = 0; A->msg[0] = 0;
    uint64_t x = seed * 0x2545F4914F6CDD1Dull ^ fnv(prop) ^ (run * 0x9E3779B97F4A7C15ull + 0x1234567);
    A->rng[0] = splitmix(x); A->rng[1] = splitmix(x);
    A->hash = 0x243F6A8885A308D3ull;
    A->ticks = 0; A->tick_limit = 400000000ull; A->seam_ops = 0; A->seam_limit = 3000000; A->wall_extra = 0; A->simns = 0;
    A->nontrivial = 0; A->nfaults_run = 0; A->nch = 0; A->ntrace = 0; A->xlen = 0; A->outlen = A->errlen = 0;
    memset(A->files, 0, sizeof A->files);
    A->mode = rep ? 1 : 0;
    A->nreplay = 0;
    if (rep) {
        A->nreplay = uint32_t(std::min<size_t>(rep->size(), MAXCH));
        memcpy(A->replay, rep->data(), A->nreplay * 4);
    }
}
// executes one run in a fresh forked process; afterwards A holds the outcome
static void one_run(const Prop* p, uint64_t seed, uint64_t run, std::vector<uint32_t> const* rep, unsigned wall_ms = 0) {
    if (!wall_ms) wall_ms = std::string(p->id) == "C09" ? 100000 : 30000;
    reset_run(p->id, seed, run, rep);
    (void)!ftruncate(g_errfd, 0); lseek(g_errfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(9); }
    if (!pid) {
        signal(SIGTERM, SIG_DFL);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        seam_start();
        p->fn();
        finish_ok();
    }
    int st; bool hung;
    wait_child(pid, st, wall_ms, hung);
    if (A->status == 0) {
        if (hung) { A->status = 2; snprintf(A->cls, 64, "hang"); snprintf(A->msg, 256, "the run did not end within %u ms of real time", wall_ms); }
        else {
            bool memerr = (WIFEXITED(st) && WEXITSTATUS(st) == 77) || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS || WTERMSIG(st) == SIGFPE || WTERMSIG(st) == SIGILL || WTERMSIG(st) == SIGTRAP));
            std::string h = asan_head();
            if (A->in_lib) {
                A->status = 2;
                snprintf(A->cls, 64, memerr ? "memory-error" : "crash");
                snprintf(A->msg, sizeof A->msg, "%s while the code under test was running (%s %d)\n%s", memerr ? "memory error" : "process died",
                         WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), h.c_str());
            } else {
                A->status = 3;
                snprintf(A->cls, 64, "harness");
                snprintf(A->msg, sizeof A->msg, "harness died (%s %d) %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), h.c_str());
            }
        }
    }
    // the outcome is part of the history
    fold(A->status); fold(fnvc(A->cls));
    A->agg_ops += A->seam_ops; A->agg_ticks += A->ticks; A->agg_simns += A->simns;
}

struct Outcome { uint32_t status; std::string cls, msg, trace; uint64_t hash; std::vector<uint32_t> ch; uint32_t nontriv; };
static Outcome outcome() {
    Outcome o;
    o.status = A->status; o.cls = A->cls; o.msg = A->msg; o.trace.assign(A->trace, A->ntrace); o.hash = A->hash;
    o.ch.assign(A->ch, A->ch + A->nch); o.nontriv = A->nontrivial;
    return o;
}

static std::string json_str(std::string const& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
static void write_replay(std::string const& path, std::string const& prop, uint64_t seed, uint64_t run, Outcome const& o, const char* what) {
    std::ofstream f(path);
    f << "ppsim-replay 1\nproperty " << prop << "\nseed " << seed << "\nrun " << run << "\nclass " << o.cls << "\nhash " << std::hex << o.hash << std::dec
      << "\nkind " << what << "\nchoices " << o.ch.size();
    for (auto c : o.ch) f << ' ' << c;
    f << "\nmessage " << json_str(o.msg) << "\n--- schedule and fault trace\n" << o.trace << "--- outcome\n" << o.msg << "\n";
}
static bool read_replay(std::string const& path, std::string& prop, uint64_t& seed, uint64_t& run, Outcome& o) {
    std::ifstream f(path);
    std::string l, k;
    if (!std::getline(f, l) || l != "ppsim-replay 1") return false;
    while (std::getline(f, l)) {
        if (l.rfind("---", 0) == 0) break;
        std::istringstream is(l);
        is >> k;
        if (k == "property") is >> prop;
        else if (k == "seed") is >> seed;
        else if (k == "run") is >> run;
        else if (k == "class") is >> o.cls;
        else if (k == "hash") is >> std::hex >> o.hash;
        else if (k == "choices") { size_t n; is >> n; uint32_t c; while (is >> c) o.ch.push_back(c); if (o.ch.size() != n) return false; }
    }
    return !prop.empty();
}


static Outcome shrink(const Prop* p, Outcome best, double budget) {
    double end = now() + budget;
    auto attempt = [&](std::vector<uint32_t> c) {
        if (now() > end) return false;
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (c == best.ch) return false;
        one_run(p, 0, 0, &c, std::string(p->id) == "C09" ? 30000 : 10000);
        Outcome o = outcome();
        if (o.status == 2 && o.cls == best.cls) {
            while (!o.ch.empty() && o.ch.back() == 0) o.ch.pop_back();
            // accept only if simpler
            auto key = [](std::vector<uint32_t> const& v) { uint64_t s = 0; for (auto x : v) s += x ? 1 + (x > 255) : 0; return std::make_pair(v.size(), s); };
            uint64_t sa = 0, sb = 0; for (auto x : o.ch) sa += x; for (auto x : best.ch) sb += x;
            auto ka = key(o.ch), kb = key(best.ch);
            if (ka < kb || (ka == kb && sa < sb)) { best = o; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = best.ch.size(); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.ch.size() && now() < end;) {   // delete
                auto c = best.ch; c.erase(c.begin() + long(i), c.begin() + long(i + len));
                if (attempt(c)) progress = true; else i += len;
            }
            for (size_t i = 0; i + len <= best.ch.size() && now() < end; i += len) { // zero
                auto c = best.ch; bool any = false;
                for (size_t j = i; j < i + len; ++j) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.ch.size() && now() < end; ++i) { // lower
            while (i < best.ch.size() && best.ch[i] > 1) {
                auto c = best.ch; c[i] /= 2;
                if (!attempt(c)) break;
                progress = true;
            }
            if (i < best.ch.size() && best.ch[i] > 0) { auto c = best.ch; --c[i]; if (attempt(c)) progress = true; }
        }
    }
    return best;
}

static volatile sig_atomic_t g_stop;
static int worker_main(std::map<std::string, std::string>& o) {
    const Prop* p = find_prop(o["prop"]);
    if (!p) { fprintf(stderr, "unknown property\n"); return 9; }
    uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), start = strtoull(o["start"].c_str(), nullptr, 10), stride = strtoull(o["stride"].c_str(), nullptr, 10);
    double secs = atof(o["secs"].c_str());
    uint64_t maxruns = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 10) : ~0ull;
    std::string outbase = o["out"];
    double t0 = now();
    uint64_t n = 0, nviol = 0, nherr = 0, nnt = 0, nfaultfree = 0, checked = 0, nondet = 0;
    std::vector<uint64_t> hashes;
    std::map<std::string, int> seen;
    std::string viols, sample;
    signal(SIGTERM, [](int) { g_stop = 1; });
    for (uint64_t run = start; n < maxruns && now() - t0 < secs && !g_stop; run += stride) {
        one_run(p, seed, run, nullptr);
        ++n;
        if (A->status == 1) {
            if (A->nontrivial) { ++nnt; hashes.push_back(A->hash); }
            if (!A->nfaults_run) ++nfaultfree;
            if (n <= 2 || (sample.empty() && A->nontrivial && n > 5)) sample.assign(A->trace, std::min<uint32_t>(A->ntrace, 1500));
            // determinism is demonstrated on the first runs, then sampled: same seed, fresh process, same history hash
            if (n <= 3 || n % 64 == 0) {
                uint64_t h = A->hash;
                auto ops = A->agg_ops, tk = A->agg_ticks, sn = A->agg_simns; uint64_t fa[F_COUNT]; memcpy(fa, A->agg_faults, sizeof fa); auto pe = A->agg_preempts;
                one_run(p, seed, run, nullptr);
                A->agg_ops = ops; A->agg_ticks = tk; A->agg_simns = sn; memcpy(A->agg_faults, fa, sizeof fa); A->agg_preempts = pe;
                ++checked;
                if (A->hash != h || A->status != 1) ++nondet;
            }
        }
        else if (A->status == 2) {
            ++nviol;
            Outcome v = outcome();
            if (seen[v.cls]++ < 2) {
                std::string f = outbase + ".v" + std::to_string(nviol) + ".replay";
                write_replay(f, p->id, seed, run, v, "as-found");
                viols += (viols.empty() ? "" : ",") + ("{\"file\":" + json_str(f) + ",\"class\":" + json_str(v.cls) + ",\"msg\":" + json_str(v.msg) + ",\"run\":" + std::to_string(run) + "}");
            }
            if (!o.count("keepgoing") && nviol >= 3) break;
        }
        else {
            ++nherr;
            if (nherr <= 3) fprintf(stderr, "ppsim: harness error in %s run %llu: %s\n", p->id, (unsigned long long)run, A->msg);
            if (nherr >= 20) break;
        }
    }
    {
        std::ofstream h(outbase + ".hashes", std::ios::binary);
        h.write(reinterpret_cast<char*>(hashes.data()), long(hashes.size() * 8));
        std::ofstream c(outbase + ".cov", std::ios::binary);
        c.write(reinterpret_cast<char*>(A->cov), COVN);
    }
    std::ofstream f(outbase + ".json");
    f << "{\"runs\":" << n << ",\"nontrivial\":" << nnt << ",\"fault_free\":" << nfaultfree << ",\"violations\":" << nviol << ",\"harness_errors\":" << nherr
      << ",\"det_checked\":" << checked << ",\"det_mismatch\":" << nondet
      << ",\"secs\":" << now() - t0 << ",\"seam_ops\":" << A->agg_ops << ",\"ticks\":" << A->agg_ticks << ",\"sim_ns\":" << A->agg_simns << ",\"preemptions\":" << A->agg_preempts
      << ",\"guards\":" << A->nguards << ",\"faults\":{";
    for (unsigned i = 0; i < F_COUNT; ++i) f << (i ? "," : "") << '"' << fault_names[i] << "\":" << A->agg_faults[i];
    f << "},\"sample\":" << json_str(sample) << ",\"found\":[" << viols << "]}\n";
    return 0;
}
}

using namespace sim;

int main(int ac, char** av) {
    // identical address layout in every process, so that a seed repeats exactly
    if (!getenv("PPSIM_NOASLR")) {
        setenv("PPSIM_NOASLR", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(unsigned(cur) | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", av);
    }
    if (int rc = seam_exec_mode(ac, av); rc >= 0) return rc;
    A = static_cast<Arena*>(mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (A == MAP_FAILED) { perror("mmap"); return 9; }
    A->nguards = seam_guards();
    std::map<std::string, std::string> o;
    std::string cmd = ac > 1 ? av[1] : "";
    for (int i = 2; i + 1 < ac; i += 2) o[av[i] + 2] = av[i + 1];
    // stderr of runs goes to a memfd so that crash reports can be read back
    int real_err = dup(2);
    g_errfd = memfd_create("ppsim-err", 0);
    auto redirect = [&] { dup2(g_errfd, 2); };
    (void)real_err;
    signal(SIGPIPE, SIG_IGN);
    if (cmd == "worker") { redirect(); int rc = worker_main(o); if (rc || o.count("verbose")) { dprintf(real_err, "worker rc %d\n", rc); } 
        char buf[2000]; ssize_t k = pread(g_errfd, buf, sizeof buf, 0); if (k > 0 && o.count("verbose")) (void)!::write(real_err, buf, size_t(k));
        return rc; }
    if (cmd == "one") {   // one --prop P --seed S --run R : verbose single run
        redirect();
        const Prop* p = find_prop(o["prop"]);
        if (!p) return 9;
        one_run(p, strtoull(o["seed"].c_str(), nullptr, 10), strtoull(o["run"].c_str(), nullptr, 10), nullptr);
        Outcome v = outcome();
        dprintf(real_err, "%s\n--- status %u class %s hash %llx choices %zu ticks %llu ops %llu\n%s\n", v.trace.c_str(), v.status, v.cls.c_str(), (unsigned long long)v.hash, v.ch.size(),
                (unsigned long long)A->ticks, (unsigned long long)A->seam_ops, v.msg.c_str());
        if (o.count("out")) write_replay(o["out"], p->id, strtoull(o["seed"].c_str(), nullptr, 10), strtoull(o["run"].c_str(), nullptr, 10), v, "as-found");
        return v.status == 1 ? 0 : v.status == 2 ? 1 : 2;
    }
    if (cmd == "replay" || cmd == "shrink") {
        redirect();
        std::string prop; uint64_t seed = 0, run = 0; Outcome in{};
        if (!read_replay(o["file"], prop, seed, run, in)) { dprintf(real_err, "bad replay file\n"); return 9; }
        const Prop* p = find_prop(prop);
        if (!p) return 9;
        one_run(p, seed, run, &in.ch);
        Outcome v = outcome();
        if (cmd == "shrink") {
            if (v.status != 2 || v.cls != in.cls) { dprintf(real_err, "does not reproduce: status %u class %s\n", v.status, v.cls.c_str()); return 3; }
            Outcome b = shrink(p, v, o.count("secs") ? atof(o["secs"].c_str()) : 20);
            one_run(p, seed, run, &b.ch);
            b = outcome();
            write_replay(o["out"], prop, seed, run, b, "minimised");
            return 0;
        }
        if (!o.count("quiet")) dprintf(1, "%s--- status %u class %s hash %llx\n%s\n", v.trace.c_str(), v.status, v.cls.c_str(), (unsigned long long)v.hash, v.msg.c_str());
        if (v.status == 2 && v.cls == in.cls && v.hash == in.hash) return 1;
        if (v.status == 2) { dprintf(real_err, "violation, but not the recorded one (class %s hash %llx, recorded %s %llx)\n", v.cls.c_str(), (unsigned long long)v.hash, in.cls.c_str(), (unsigned long long)in.hash); return 4; }
        return v.status == 1 ? 0 : 2;
    }
    if (cmd == "props") { for (unsigned i = 0; i < nprops; ++i) dprintf(1, "%s\t%s\n", props[i].id, props[i].rule); return 0; }
    dprintf(real_err, "usage: ppsim worker|one|replay|shrink|props ...\n");
    return 9;
}
