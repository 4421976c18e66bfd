// ppsim core: one seeded choice stream per run, shared arena, event hash, trace.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

enum Fault : unsigned {
    F_SHORT_READ, F_EINTR_READ, F_EIO_READ, F_OPEN_FAIL, F_FSTAT_FAIL, F_SHRINK, F_GROW, F_CLOSE_ERR,
    F_ALLOC, F_TORN, F_CORRUPT, F_STREAM_THROW, F_CHUNKED, F_SHORT_WRITE, F_EINTR_WRITE, F_ENOSPC, F_EIO_WRITE,
    F_CLOCK, F_PREEMPT, F_KILL, F_HEAPFILL, F_HEAPMOVE, F_FDREUSE, F_TOOLFAIL, F_COUNT
};
extern const char* const fault_names[F_COUNT];

struct FileStat { uint32_t opens, open_fails, reads, errs, eof; uint64_t bytes; };

constexpr unsigned MAXCH = 1u << 16;
constexpr unsigned COVN = 1u << 16;
constexpr unsigned MAXFILES = 64;

struct Arena {
    // ---- per run
    volatile uint32_t status;     // 0 running, 1 ok, 2 violation, 3 harness error
    volatile uint32_t in_lib;     // the code under test is executing
    char cls[64];
    char msg[4096];
    uint64_t rng[2];
    uint64_t hash;
    uint64_t ticks, tick_limit;
    uint64_t seam_ops, seam_limit, wall_extra;
    uint64_t simns;
    uint32_t nontrivial;
    uint32_t nfaults_run;
    uint32_t mode;                // 0 generate, 1 replay
    uint32_t nreplay;
    uint32_t nch;
    uint32_t ch[MAXCH];
    uint32_t replay[MAXCH];
    uint32_t ntrace;
    char trace[1u << 17];
    FileStat files[MAXFILES];
    uint32_t xlen;
    char xfer[8u << 20];
    uint32_t outlen, errlen;      // captured stdout / stderr of a tool run
    char out[8u << 20];
    char err[1u << 16];
    // ---- aggregated over the worker's life
    uint64_t agg_faults[F_COUNT];
    uint64_t agg_ops, agg_ticks, agg_simns, agg_preempts;
    uint8_t cov[COVN];
    uint32_t nguards;
};
extern Arena* A;

// choices -----------------------------------------------------------------
uint32_t choose(uint32_t n, const char* tag);              // [0,n); 0 is the simplest
bool chance(uint32_t num, uint32_t den, const char* tag);  // 1 with num/den
uint32_t small(uint32_t n, const char* tag);               // [0,n), biased to small
template<class T> const T& pick(std::vector<T> const& v, const char* tag) { return v[choose(unsigned(v.size()), tag)]; }

void fault(Fault f);                                       // count an injected fault
void ev(const char* kind, uint64_t a = 0, uint64_t b = 0); // fold into the history hash
void evs(const char* kind, std::string const& s);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_ok();
inline void nontrivial() { A->nontrivial = 1; }

uint64_t fnv(std::string const& s);
std::string quote(std::string const& s, size_t max = 160);

// library scope -------------------------------------------------------------
extern thread_local int tl_lib;      // >0: executing code under test
extern thread_local int tl_harness;  // >0: inside a harness callback
struct Lib {
    Lib();
    ~Lib();
};
struct Harness {
    Harness() { ++tl_harness; }
    ~Harness() { --tl_harness; }
};
inline bool lib_active() { return tl_lib > 0 && tl_harness == 0; }

// forks ---------------------------------------------------------------------
// Runs fn in a forked copy of this process and returns the string it returns.
// A crash inside the copy is a violation (memory error) when the code under test was running.
std::string in_fork(std::function<std::string()> fn);
struct Exit { bool signaled; int code; bool memerr; bool ok() const { return !signaled && code == 0; } std::string str() const; };
Exit fork_exit(std::function<int()> fn, unsigned wall_ms = 30000); // fn's result is passed to exit()
std::string asan_head();             // first lines of the sanitizer report of the last crash

// scheduling ---------------------------------------------------------------
void run_threads(std::vector<std::function<void()>> const& fns, uint32_t density);
void sched_point(const char* what);
bool in_threads();

typedef void (*Scenario)();
struct Prop { const char* id; Scenario fn; const char* rule; };
extern const Prop props[];
extern const unsigned nprops;
}
