#include "seam.hpp"
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <new>
#include <map>
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <semaphore.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <malloc.h>
#include <sanitizer/asan_interface.h>

namespace sim {
ReadCfg g_read; OutCfg g_out; AllocCfg g_alloc; ClockCfg g_clock;
uint64_t g_lib_allocs; unsigned char g_fill = 0xA5; bool g_fdreuse, g_track;
static bool g_started;         // inside a simulated run
static bool g_exec;            // inside a tool started by the learning run
static std::vector<std::unique_ptr<SimFile>> g_files;
struct FdInfo { SimFile* f; bool sentinel; };
static std::map<int, FdInfo> g_fds;
static FdLog g_fdlog;
static std::unordered_map<void*, size_t>* g_live;
static uint64_t g_live_bytes;

static bool exec_op(char kind, int fd);          // learning run: one counted operation; true: it fails
static uint64_t exec_rnd();
static int exec_write(int fd, const void* b, size_t n, ssize_t& res);

static struct { char kind = 0; long n = 0; long ops = 0, reads = 0, opens = 0, outb = 0; uint64_t rng = 0; int logfd = -1; bool fired = false; } X;
void seam_op(const char*) {
    if (!A) return;
    if (++A->seam_ops > A->seam_limit && g_started) {
        tl_harness++;
        violation("hang", "no end after %llu system calls / stream operations", (unsigned long long)A->seam_ops);
    }
    if (in_threads() && lib_active()) sched_point("io");
}

SimFile& add_file(std::string path, std::string content) {
    Harness h;
    for (auto& f : g_files) if (f->path == path) { f->content = std::move(content); return *f; }
    g_files.emplace_back(new SimFile);
    auto& f = *g_files.back();
    f.path = std::move(path); f.content = std::move(content);
    f.idx = int(g_files.size() - 1) % int(MAXFILES);
    return f;
}
SimFile* find_file(std::string const& p) {
    for (auto& f : g_files) if (f->path == p) return f.get();
    return nullptr;
}
void clear_files() { g_files.clear(); }
unsigned open_fds() { unsigned n = 0; for (auto& x : g_fds) n += !x.second.sentinel; return n; }
FdLog& fdlog() { return g_fdlog; }
void release_sentinels() { Harness h; for (auto it = g_fds.begin(); it != g_fds.end();) if (it->second.sentinel) { close(it->first); it = g_fds.erase(it); } else ++it; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t live_blocks() { return g_live ? g_live->size() : 0; }
void seam_start() { g_started = true; }
void out_reset() { A->outlen = A->errlen = 0; }
std::string out_bytes() { return std::string(A->out, A->outlen); }
std::string err_bytes() { return std::string(A->err, A->errlen); }
static std::vector<void*>* g_shift;
uint32_t g_shuffle, g_world;
// what lies on the stack below the callers of the code under test
__attribute__((noinline)) void paint_stack(size_t n) {
    void* p = alloca(n);
    void* d = p; size_t c = n;
    asm volatile("rep stosb" : "+D"(d), "+c"(c) : "a"(g_fill) : "memory");
}
static void* g_pool[257][16];
static void* shuffled(size_t n) {        // one of 16 blocks of this size, which one is drawn
    auto& p = g_pool[n];
    if (!p[0]) for (auto& x : p) x = malloc(n);
    g_shuffle = g_shuffle * 1664525u + 1013904223u; if (!g_shuffle) g_shuffle = 1;
    void*& x = p[g_shuffle >> 28];
    void* r = x;
    x = malloc(n);
    return r;
}
// freed memory is handed out again at once, at the same place (AddressSanitizer alone keeps it back)
uint32_t g_reuse;
static void* g_freed[4097][4];
static void* reused(size_t n) {
    if (n > 4096) return nullptr;
    auto& f = g_freed[n];
    if (!f[0]) return nullptr;
    void* p = f[0];
    for (int i = 0; i < 3; ++i) f[i] = f[i + 1];
    f[3] = nullptr;
    __asan_unpoison_memory_region(p, n);
    return p;
}
static bool keep_freed(void* p) {
    size_t n = malloc_usable_size(p);
    if (!n || n > 4096) return false;
    auto& f = g_freed[n];
    for (int i = 0; i < 4; ++i) if (f[i] == p) { for (; i < 3; ++i) f[i] = f[i + 1]; f[3] = nullptr; __asan_unpoison_memory_region(p, n); free(p); return false; }   // freed twice: AddressSanitizer says so
    if (f[3]) { void* o = f[3]; __asan_unpoison_memory_region(o, n); free(o); }
    for (int i = 3; i; --i) f[i] = f[i - 1];
    f[0] = p;
    __asan_poison_memory_region(p, n);
    return true;
}
void shift_heap(unsigned n) {
    Harness h;
    if (!g_shift) g_shift = new std::vector<void*>;
    for (unsigned i = 0; i < n; ++i) g_shift->push_back(malloc(16 + (i * 37) % 400));
}

// ---- streams ------------------------------------------------------------------
InBuf::int_type InBuf::underflow() {
    seam_op("underflow");
    Harness h;
    if (pos >= throw_at) {
        if (!threw) { fault(F_STREAM_THROW); note("stream: read error at offset %zu", pos); ev("throw", pos); }
        threw = true;
        throw std::runtime_error("simulated read error");
    }
    if (pos >= data.size()) { ev("eof", pos); return traits_type::eof(); }
    size_t n = data.size() - pos;
    if (piece) {
        n = std::min<size_t>(n, 1 + choose(piece, "piece"));
        if (n < data.size() - pos) fault(F_CHUNKED);
    }
    if (throw_at != size_t(-1)) n = std::min(n, throw_at - pos);
    cur.assign(data, pos, n);
    pos += n;
    ev("piece", n);
    setg(cur.data(), cur.data(), cur.data() + cur.size());
    return traits_type::to_int_type(*gptr());
}
bool OutBuf::flush_some(bool all) {
    seam_op("sink");
    Harness h;
    if (buf.empty()) return !failed || mode == 1;
    if (failed) return false;
    size_t n = buf.size();
    (void)all;
    size_t room = capacity - std::min(capacity, stored.size());
    size_t k = std::min(n, room);
    stored.append(buf, 0, k);
    ev("sink", k);
    buf.erase(0, k);
    if (k < n) {
        if (mode == 2) capacity = ~size_t(); else failed = true;
        buf.clear(); fault(mode == 2 ? F_EIO_WRITE : F_ENOSPC); note("sink: medium fails after %zu bytes%s", stored.size(), mode == 2 ? ", once" : "");
        return false;
    }
    return true;
}
OutBuf::int_type OutBuf::overflow(int_type c) {
    Harness h;
    if (traits_type::eq_int_type(c, traits_type::eof())) return flush_some(true) ? traits_type::not_eof(c) : traits_type::eof();
    if (failed) return traits_type::eof();
    buf += traits_type::to_char_type(c);
    if (buf.size() > bufsz && !flush_some(false)) return traits_type::eof();
    return c;
}
std::streamsize OutBuf::xsputn(const char* s, std::streamsize n) {
    Harness h;
    if (failed) return 0;
    buf.append(s, size_t(n));
    size_t before = stored.size() + buf.size() - size_t(n);
    if (buf.size() > bufsz && !flush_some(false)) return stored.size() > before ? std::streamsize(stored.size() - before) : 0;
    return n;
}
int OutBuf::sync() { return flush_some(true) ? 0 : -1; }

// ---- allocation ----------------------------------------------------------------
static bool alloc_fails(size_t n) {
    if (!lib_active()) return false;
    ++g_lib_allocs;
    if (in_threads()) sched_point("alloc");
    if (n > g_alloc.max) { fault(F_ALLOC); note("allocation of %zu bytes: more than the machine has", n); return true; }
    if (g_alloc.countdown >= 0) {
        if (g_alloc.countdown == 0) {
            if (!g_alloc.persist) g_alloc.countdown = -1;
            Harness h;
            fault(F_ALLOC); note("allocation #%llu of %zu bytes fails", (unsigned long long)g_lib_allocs, n); ev("oom", g_lib_allocs, n);
            return true;
        }
        --g_alloc.countdown;
    }
    return false;
}
static bool g_in_free;
static void* after_alloc(void* p, size_t n) {
    if (p && lib_active()) {
        if (n <= (1u << 20)) memset(p, g_fill, n);
        if (g_track) { Harness h; int t = tl_lib; tl_lib = 0; g_in_free = true; if (!g_live) g_live = new std::unordered_map<void*, size_t>; (*g_live)[p] = n; g_live_bytes += n; g_in_free = false; tl_lib = t; }
    }
    return p;
}
static void before_free(void* p) {
    if (p && g_live && g_track && !g_in_free) {
        g_in_free = true;
        int t = tl_lib; tl_lib = 0; Harness h;
        auto it = g_live->find(p);
        if (it != g_live->end()) { g_live_bytes -= it->second; g_live->erase(it); }
        tl_lib = t;
        g_in_free = false;
    }
}
}
using namespace sim;

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t); void __real_free(void*);
// only references from the code under test are redirected here (see build.py)
void* __sim_malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return after_alloc(malloc(n), n); }
void* __sim_calloc(size_t a, size_t b) { if (alloc_fails(a * b)) { errno = ENOMEM; return nullptr; } void* p = calloc(a, b); if (p && g_track && lib_active()) { unsigned char f = g_fill; g_fill = 0; after_alloc(p, a * b); g_fill = f; } return p; }
void* __sim_realloc(void* p, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } before_free(p); size_t old = p ? malloc_usable_size(p) : 0; void* q = realloc(p, n); if (q && lib_active() && malloc_usable_size(q) > old) { size_t m = malloc_usable_size(q); if (m <= (1u << 20)) memset(static_cast<char*>(q) + old, g_fill, m - old); } if (q && g_track && lib_active()) { g_in_free = true; Harness h; if (!g_live) g_live = new std::unordered_map<void*, size_t>; (*g_live)[q] = n; g_live_bytes += n; g_in_free = false; } return q; }
void* __sim_aligned_alloc(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return nullptr; } return after_alloc(aligned_alloc(a, n), n); }
int __sim_posix_memalign(void** o, size_t a, size_t n) { if (alloc_fails(n)) return ENOMEM; int r = posix_memalign(o, a, n); if (!r) after_alloc(*o, n); return r; }
void __sim_free(void* p) { before_free(p); free(p); }
}
static void* op_new(size_t n, bool nothrow) {
    if (alloc_fails(n)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = g_shuffle && n && n <= 256 && lib_active() ? shuffled(n) : nullptr;
    if (!p && g_reuse && !tl_harness) p = reused(n);
    if (!p) p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return after_alloc(p, n);
}
static void* op_new_al(size_t n, size_t al, bool nothrow) {
    if (alloc_fails(n)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = nullptr;
    if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n ? n : 1)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return after_alloc(p, n);
}
static void op_delete(void* p) { if (!p) return; before_free(p); if (g_reuse && !tl_harness && keep_freed(p)) return; free(p); }
void* operator new(size_t n) { return op_new(n, false); }
void* operator new[](size_t n) { return op_new(n, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return op_new(n, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return op_new(n, true); }
void* operator new(size_t n, std::align_val_t a) { return op_new_al(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return op_new_al(n, size_t(a), false); }
void operator delete(void* p) noexcept { op_delete(p); }
void operator delete[](void* p) noexcept { op_delete(p); }
void operator delete(void* p, size_t) noexcept { op_delete(p); }
void operator delete[](void* p, size_t) noexcept { op_delete(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { op_delete(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { op_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { before_free(p); free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { before_free(p); free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { before_free(p); free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { before_free(p); free(p); }

// ---- code coverage, simulated CPU time, preemption points ------------------------
static uint32_t g_nguards;
namespace sim { unsigned seam_guards() { return g_nguards; } }
thread_local uint32_t tl_slice = 0;   // basic blocks until the next preemption; 0: none planned
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (; a < b; ++a) *a = ++g_nguards;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!A) return;
    A->cov[*g & (COVN - 1)] = 1;
    if (++A->ticks > A->tick_limit && g_started && A->status == 0) {
        ++tl_harness;
        violation("hang", "no end after %llu basic blocks", (unsigned long long)A->ticks);
    }
    if (tl_slice && --tl_slice == 0) sched_point("block");
}

// ---- threads ---------------------------------------------------------------------
namespace sim {
struct Thr { pthread_t t; sem_t s; bool done = false; std::function<void()> fn; };
static std::vector<Thr*> g_thr;
static thread_local int tl_id = -1;
static thread_local int tl_nopreempt;
static int g_cur;
static sem_t g_main;
static bool g_threads;
static uint32_t g_density;
bool in_threads() { return g_threads && tl_id >= 0; }

static void new_slice() {
    // 0 = run until the next forced switch; otherwise a length on a log scale
    uint32_t k = choose(g_density ? 5 : 1, "slice");
    static const uint32_t mag[] = {0, 6, 60, 700, 9000};
    tl_slice = k == 0 ? 150000 : 1 + choose(mag[k], "len");
}
static void switch_to(int id) {
    int me = tl_id;
    if (id == me) return;
    g_cur = id;
    sem_post(&g_thr[unsigned(id)]->s);
    if (me >= 0) while (sem_wait(&g_thr[unsigned(me)]->s)) {}
}
void sched_point(const char* what) {
    if (tl_id < 0 || !g_threads) return;
    if (tl_nopreempt || tl_harness) { tl_slice = 1; return; }
    Harness h;
    bool io = what[0] != 'b';
    if (io) { if (!g_density || !chance(1, 4, "io-switch")) return; }
    std::vector<int> r;
    for (int i = 0; i < int(g_thr.size()); ++i) if (!g_thr[unsigned(i)]->done && i != tl_id) r.push_back(i);
    if (!r.empty()) {
        int id = r[choose(unsigned(r.size()), "thread")];
        ++A->agg_preempts;
        fault(F_PREEMPT);
        ev("switch", uint64_t(tl_id), uint64_t(id));
        note("thread %d preempted at %s (tick %llu), thread %d runs", tl_id, what, (unsigned long long)A->ticks, id);
        switch_to(id);
    }
    new_slice();
}
// somebody holds a lock this thread wants
static void blocked() {
    Harness h;
    std::vector<int> r;
    for (int i = 0; i < int(g_thr.size()); ++i) if (!g_thr[unsigned(i)]->done && i != tl_id) r.push_back(i);
    if (r.empty()) violation("deadlock", "a thread waits for a lock nobody will release");
    A->ticks += 50;
    switch_to(r[choose(unsigned(r.size()), "lock-wait")]);
}
static void* thr_main(void* p) {
    Thr* t = static_cast<Thr*>(p);
    for (int i = 0; i < int(g_thr.size()); ++i) if (g_thr[unsigned(i)] == t) tl_id = i;
    while (sem_wait(&t->s)) {}
    { Harness h; new_slice(); }
    t->fn();
    ++tl_harness;
    tl_slice = 0;
    t->done = true;
    std::vector<int> r;
    for (int i = 0; i < int(g_thr.size()); ++i) if (!g_thr[unsigned(i)]->done) r.push_back(i);
    if (r.empty()) { sem_post(&g_main); }
    else { int id = r[choose(unsigned(r.size()), "next")]; g_cur = id; sem_post(&g_thr[unsigned(id)]->s); }
    tl_id = -1;
    return nullptr;
}
void run_threads(std::vector<std::function<void()>> const& fns, uint32_t density) {
    g_density = density;
    sem_init(&g_main, 0, 0);
    for (auto& f : fns) { auto* t = new Thr; t->fn = f; sem_init(&t->s, 0, 0); g_thr.push_back(t); }
    g_threads = true;
    A->in_lib = 1;
    for (auto* t : g_thr) if (pthread_create(&t->t, nullptr, thr_main, t)) harness_error("pthread_create");
    int first = int(choose(unsigned(fns.size()), "first"));
    sem_post(&g_thr[unsigned(first)]->s);
    while (sem_wait(&g_main)) {}
    for (auto* t : g_thr) pthread_join(t->t, nullptr);
    g_threads = false;
    A->in_lib = 0;
    for (auto* t : g_thr) delete t;
    g_thr.clear();
}
}
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_threads() || tl_harness) return __real_pthread_mutex_lock(m);
    for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; blocked(); }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!in_threads() || tl_harness) return __real_pthread_rwlock_rdlock(m);
    for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; blocked(); }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!in_threads() || tl_harness) return __real_pthread_rwlock_wrlock(m);
    for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; blocked(); }
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { ++tl_nopreempt; int r = __real_pthread_once(o, f); --tl_nopreempt; return r; }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { ++tl_nopreempt; int r = __real___cxa_guard_acquire(g); if (!r) --tl_nopreempt; return r; }
void __wrap___cxa_guard_release(void* g) { __real___cxa_guard_release(g); --tl_nopreempt; }
void __wrap___cxa_guard_abort(void* g) { __real___cxa_guard_abort(g); --tl_nopreempt; }
int __real_sched_yield();
int __wrap_sched_yield() { if (in_threads() && !tl_harness) { blocked(); return 0; } return __real_sched_yield(); }
}

// ---- files -----------------------------------------------------------------------
extern "C" {
int __real_open(const char*, int, ...); ssize_t __real_read(int, void*, size_t); int __real_close(int);
FILE* __real_fopen(const char*, const char*); int __real_fclose(FILE*); int __real_fileno(FILE*);
ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pread(int, void*, size_t, off_t); ssize_t __real_readv(int, const struct iovec*, int);
int __real_fstat(int, struct stat*); int __real_stat(const char*, struct stat*); int __real_access(const char*, int);
}
static bool sim_active() { return g_started && !g_exec; }
static int sim_open(const char* path, int flags) {
    seam_op("open");
    Harness h;
    SimFile* f = find_file(path ? path : "");
    if (!f || (flags & O_ACCMODE) != O_RDONLY) {
        ev("open-enoent", fnv(path ? path : "")); note("open(%s) = ENOENT", path);
        if (f) ++f->st().open_fails;
        errno = ENOENT; return -1;
    }
    if (f->open_errno) {
        fault(F_OPEN_FAIL); ++f->st().open_fails; ev("open-fail", unsigned(f->open_errno)); note("open(%s) = %s", path, strerrorname_np(f->open_errno));
        errno = f->open_errno; return -1;
    }
    int fd = memfd_create("sim", MFD_CLOEXEC);
    if (fd < 0) harness_error("memfd_create");
    // the number handed out must be the lowest free one, as the kernel promises
    size_t o = 0;
    while (o < f->content.size()) { ssize_t k = __real_write(fd, f->content.data() + o, f->content.size() - o); if (k <= 0) harness_error("memfd write"); o += size_t(k); }
    lseek(fd, 0, SEEK_SET);
    g_fds[fd] = {f, false};
    f->resized = false; f->nreads = 0; f->seen.clear();
    ++g_fdlog.opened; ++f->st().opens;
    ev("open", unsigned(fd)); note("open(%s) = %d", path, fd);
    return fd;
}
static void mark_closed(int fd, bool real) {
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) return;
    g_fds.erase(it);
    ++g_fdlog.closed;
    ev("close", unsigned(fd)); note("close(%d)", fd);
    if (real) __real_close(fd);
    if (g_fdreuse) {   // another thread of the process opens a file and gets the number
        int s = memfd_create("other", MFD_CLOEXEC);
        if (s != fd && s >= 0) { if (dup2(s, fd) == fd) { __real_close(s); s = fd; } }
        if (s == fd) { g_fds[fd] = {nullptr, true}; fault(F_FDREUSE); } else if (s >= 0) __real_close(s);
    }
}
static int sim_close(int fd) {
    seam_op("close");
    Harness h;
    auto it = g_fds.find(fd);
    if (it == g_fds.end()) {
        if (fd >= 0) { ++g_fdlog.foreign_close; note("close(%d): not a descriptor of this load", fd); ev("close-foreign", unsigned(fd)); }
        errno = EBADF; return -1;
    }
    if (it->second.sentinel) { ++g_fdlog.double_close; note("close(%d) again: it now belongs to somebody else", fd); ev("close-twice", unsigned(fd)); errno = 0; return 0; }
    int e = it->second.f->close_errno;
    mark_closed(fd, true);
    if (e) { fault(F_CLOSE_ERR); errno = e; return -1; }
    return 0;
}
static void resize_now(int fd, SimFile* f) {
    if (!f->resize || f->resized || f->nreads++ < f->resize_after) return;
    f->resized = true;
    off_t pos = lseek(fd, 0, SEEK_CUR);
    (void)!ftruncate(fd, 0);
    (void)!pwrite(fd, f->content2.data(), f->content2.size(), 0);
    lseek(fd, pos, SEEK_SET);
    fault(f->content2.size() < f->content.size() ? F_SHRINK : F_GROW);
    ev("resize", f->content2.size()); note("%s is now %zu bytes long (was %zu)", f->path.c_str(), f->content2.size(), f->content.size());
}
static ssize_t sim_read(int fd, void* b, size_t n, off_t at, bool positioned) {
    seam_op("read");
    Harness h;
    auto it = g_fds.find(fd);
    if (it == g_fds.end() || it->second.sentinel) { note("read(%d): not open", fd); errno = EBADF; return -1; }
    SimFile* f = it->second.f;
    resize_now(fd, f);
    ++f->st().reads;
    if (n == 0) { ev("read0"); return 0; }
    off_t off = positioned ? at : lseek(fd, 0, SEEK_CUR);
    if (g_read.eintr_budget && chance(1, g_read.eintr_den, "eintr")) {
        --g_read.eintr_budget; fault(F_EINTR_READ); ev("eintr"); note("read(%d, %zu) = EINTR", fd, n);
        errno = EINTR; return -1;
    }
    size_t lim = n;
    if (f->err_at >= 0) {
        if (off >= f->err_at) {
            fault(F_EIO_READ); ++f->st().errs; ev("eio", uint64_t(off)); note("read(%d, %zu) at %ld = %s", fd, n, long(off), strerrorname_np(f->err_no));
            if (f->err_times && --f->err_times == 0) f->err_at = -1;
            errno = f->err_no; return -1;
        }
        lim = std::min<size_t>(lim, size_t(f->err_at - off));
    }
    if (g_read.short_mode && lim > 1) {
        size_t m = lim;
        switch (g_read.short_mode) {
            case 1: switch (choose(5, "short")) { case 0: break; case 1: m = 1; break; case 2: m = (lim + 1) / 2; break; case 3: m = lim - 1; break; case 4: m = 1 + choose(uint32_t(std::min<size_t>(lim, 1u << 20)), "len"); } break;
            case 2: m = 1; break;
            case 3: m = std::min<size_t>(lim, 1 + choose(16, "len")); break;
        }
        if (m < lim) { lim = m; fault(F_SHORT_READ); }
    }
    ssize_t r = positioned ? __real_pread(fd, b, lim, at) : __real_read(fd, b, lim);
    if (r == 0) f->st().eof = 1;
    if (r > 0) {
        f->st().bytes += uint64_t(r);
        if (f->seen.size() < size_t(off) + size_t(r)) f->seen.resize(size_t(off) + size_t(r));
        memcpy(&f->seen[size_t(off)], b, size_t(r));
    }
    ev("read", uint64_t(r), uint64_t(off)); note("read(%d, %zu) at %ld = %zd", fd, n, long(off), r);
    return r;
}
template<class St> static void fill_stat(St* st, int fd, SimFile* f) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = off_t(f->content.size()); st->st_blksize = 4096;
    if (f->resized) st->st_size = off_t(f->content2.size());
    // where and when the file was stored: another machine, another day
    uint32_t w = g_world * 2654435761u, k = 0; for (char c : f->path) k = k * 31 + (unsigned char)c;
    st->st_ino = 1 + (k ^ w) % 1000003; st->st_dev = 1 + w % 7; st->st_uid = st->st_gid = w % 3 * 500;
    st->st_mtime = st->st_ctime = time_t(1700000000 + (w ^ k) % 10000000); st->st_atime = st->st_mtime + time_t(w % 1000);
    (void)fd;
}
template<class St> static int sim_fstat(int fd, St* st) {
    seam_op("fstat");
    Harness h;
    auto it = g_fds.find(fd);
    if (it == g_fds.end() || it->second.sentinel) { errno = EBADF; return -1; }
    SimFile* f = it->second.f;
    if (f->fstat_errno) { fault(F_FSTAT_FAIL); ++f->st().errs; ev("fstat-fail"); note("fstat(%d) = %s", fd, strerrorname_np(f->fstat_errno)); errno = f->fstat_errno; return -1; }
    fill_stat(st, fd, f);
    ev("fstat", f->content.size()); note("fstat(%d): %ld bytes", fd, long(st->st_size));
    return 0;
}
template<class St> static int sim_stat(const char* p, St* st) {
    seam_op("stat");
    Harness h;
    SimFile* f = find_file(p ? p : "");
    if (!f) { errno = ENOENT; return -1; }
    if (f->open_errno) { errno = f->open_errno; return -1; }
    if (f->fstat_errno) { fault(F_FSTAT_FAIL); ++f->st().errs; errno = f->fstat_errno; return -1; }
    fill_stat(st, -1, f);
    return 0;
}

// output ----------------------------------------------------------------------------
static ssize_t sink_write(const char* b, size_t n) {   // one write(2) to standard output
    seam_op("write");
    Harness h;
    if (g_out.closed) { fault(F_EIO_WRITE); errno = EBADF; return -1; }
    if (g_out.eintr_budget && chance(1, 4, "weintr")) { --g_out.eintr_budget; fault(F_EINTR_WRITE); ev("weintr"); note("write(1, %zu) = EINTR", n); errno = EINTR; return -1; }
    size_t lim = n;
    if (g_out.capacity >= 0) {
        size_t room = A->outlen >= size_t(g_out.capacity) ? 0 : size_t(g_out.capacity) - A->outlen;
        if (room == 0 && n) {
            fault(g_out.err == ENOSPC ? F_ENOSPC : F_EIO_WRITE); ev("wfail", A->outlen); note("write(1, %zu) = %s after %u bytes", n, strerrorname_np(g_out.err), A->outlen);
            if (g_out.transient) g_out.capacity = -1;
            errno = g_out.err; return -1;
        }
        lim = std::min(lim, room);
    }
    if (g_out.shorts && lim > 1) {
        size_t m = lim;
        switch (choose(4, "wshort")) { case 1: m = 1; break; case 2: m = (lim + 1) / 2; break; case 3: m = lim - 1; break; }
        if (m < lim) { lim = m; fault(F_SHORT_WRITE); }
    }
    if (A->outlen + lim > sizeof A->out) violation("hang", "standard output grew beyond %zu bytes", sizeof A->out);
    memcpy(A->out + A->outlen, b, lim);
    A->outlen += uint32_t(lim);
    ev("write", lim); note("write(1, %zu) = %zu", n, lim);
    return ssize_t(lim);
}
static ssize_t cookie_out(void*, const char* b, size_t n) {   // what libc does below stdio; 0 on error (a cookie must not return -1)
    if (g_exec) {
        size_t done = 0;
        while (done < n) { ssize_t r; if (exec_write(1, b + done, n - done, r) < 0 || r < 0) return ssize_t(done); done += size_t(r); }
        return ssize_t(done);
    }
    if (!g_started) return std::max<ssize_t>(0, __real_write(1, b, n));
    size_t done = 0;
    while (done < n) {
        ssize_t r = sink_write(b + done, n - done);
        if (r < 0) return ssize_t(done);
        done += size_t(r);
    }
    return ssize_t(done);
}
static ssize_t cookie_err(void*, const char* b, size_t n) {
    if (!g_started || g_exec) return __real_write(2, b, n);
    Harness h;
    size_t k = std::min(n, sizeof A->err - A->errlen);
    memcpy(A->err + A->errlen, b, k);
    A->errlen += uint32_t(k);
    return ssize_t(n);
}
extern "C" {
static void early(int, char**, char**) {
    cookie_io_functions_t io{};
    io.write = cookie_out;
    stdout = fopencookie(nullptr, "w", io);
    io.write = cookie_err;
    stderr = fopencookie(nullptr, "w", io);
    setvbuf(stderr, nullptr, _IONBF, 0);
}
__attribute__((section(".preinit_array"), used)) static void (*early_p)(int, char**, char**) = early;

#define SIMF(...) if (sim_active() && lib_active())
int __wrap_open(const char* p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    SIMF() return sim_open(p, fl);
    if (g_exec && exec_op('o', -1)) return -1;
    return __real_open(p, fl, m);
}
int __wrap_open64(const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } return __wrap_open(p, fl, m); }
int __wrap_openat(int d, const char* p, int fl, ...) { mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } SIMF() return sim_open(p, fl); return openat64(d, p, fl, m); }
ssize_t __wrap_read(int fd, void* b, size_t n) { SIMF() return sim_read(fd, b, n, 0, false); if (g_exec) { if (exec_op('r', fd)) return -1; if (X.kind == 'h' && n > 1) n = 1 + exec_rnd() % n; } return __real_read(fd, b, n); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { SIMF() return sim_read(fd, b, n, o, true); return __real_pread(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) {
    SIMF() { ssize_t t = 0; for (int i = 0; i < n; ++i) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len, 0, false); if (r < 0) return t ? t : r; t += r; if (size_t(r) < v[i].iov_len) break; } return t; }
    return __real_readv(fd, v, n);
}
int __wrap_close(int fd) { SIMF() return sim_close(fd); return __real_close(fd); }
int __wrap_fstat(int fd, struct stat* s) { SIMF() return sim_fstat(fd, s); return __real_fstat(fd, s); }
int __real_fstat64(int, struct stat64*);
int __wrap_fstat64(int fd, struct stat64* s) { SIMF() return sim_fstat(fd, s); return __real_fstat64(fd, s); }
int __wrap_stat(const char* p, struct stat* s) { SIMF() return sim_stat(p, s); return __real_stat(p, s); }
int __real_stat64(const char*, struct stat64*);
int __wrap_stat64(const char* p, struct stat64* s) { SIMF() return sim_stat(p, s); return __real_stat64(p, s); }
int __wrap_lstat(const char* p, struct stat* s) { SIMF() return sim_stat(p, s); return __real_stat(p, s); }
int __wrap_access(const char* p, int m) { SIMF() { SimFile* f = find_file(p); if (!f) { errno = ENOENT; return -1; } return 0; } return __real_access(p, m); }
static std::unordered_map<FILE*, int>* g_cfile;
int __wrap_fileno(FILE* f) {
    if (f == stdout) return 1;
    if (f == stderr) return 2;
    if (g_cfile) { Harness h; auto it = g_cfile->find(f); if (it != g_cfile->end()) return it->second; }
    return __real_fileno(f);
}
static ssize_t cookie_in(void* c, char* b, size_t n) { return sim_read(int(intptr_t(c)), b, n, 0, false); }
static int cookie_seek(void* c, off64_t* o, int w) { off64_t r = lseek64(int(intptr_t(c)), *o, w); if (r < 0) return -1; *o = r; return 0; }
static void mapped(int fd, void* p) { if (p == MAP_FAILED) return; Harness h; auto it = g_fds.find(fd); if (it == g_fds.end() || it->second.sentinel) return; SimFile* f = it->second.f; f->st().eof = 1; f->seen = f->content; note("mmap(%d)", fd); }
void* __real_mmap(void*, size_t, int, int, int, off_t); void* __real_mmap64(void*, size_t, int, int, int, off_t);
// a mapping is memory the code under test holds
static void track_map(void* p, size_t n) {
    if (p == MAP_FAILED || !g_track) return;
    Harness h; g_in_free = true;
    if (!g_live) g_live = new std::unordered_map<void*, size_t>;
    (*g_live)[p] = n; g_live_bytes += n;
    g_in_free = false;
}
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { void* p = __real_mmap(a, n, pr, fl, fd, o); SIMF() { if (fd >= 0) mapped(fd, p); track_map(p, n); } return p; }
int __real_munmap(void*, size_t);
int __wrap_munmap(void* p, size_t n) { SIMF() before_free(p); return __real_munmap(p, n); }
void* __wrap_mmap64(void* a, size_t n, int pr, int fl, int fd, off_t o) { return __wrap_mmap(a, n, pr, fl, fd, o); }
FILE* __wrap_fopen(const char* p, const char* m) {
    SIMF() {
        int fl = m[0] == 'r' && !strchr(m, '+') ? O_RDONLY : O_RDWR;
        int fd = sim_open(p, fl);
        if (fd < 0) return nullptr;
        Harness h;
        cookie_io_functions_t io{};       // reads made below stdio cross the seam as well
        io.read = cookie_in; io.seek = cookie_seek;
        FILE* f = fopencookie(reinterpret_cast<void*>(intptr_t(fd)), m, io);
        if (!f) harness_error("fopencookie");
        if (!g_cfile) g_cfile = new std::unordered_map<FILE*, int>;
        (*g_cfile)[f] = fd;
        return f;
    }
    if (g_exec && exec_op('o', -1)) return nullptr;
    return __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE* f) {
    SIMF() {
        seam_op("fclose");
        Harness h;
        int fd = __wrap_fileno(f), e = 0;
        auto it = g_fds.find(fd);
        if (it != g_fds.end() && it->second.sentinel) { ++g_fdlog.double_close; note("fclose(fd %d) again", fd); errno = EBADF; return EOF; }
        if (it != g_fds.end()) e = it->second.f->close_errno;
        bool ck = g_cfile && g_cfile->erase(f);
        int r = __real_fclose(f);
        mark_closed(fd, ck);
        if (e) { fault(F_CLOSE_ERR); errno = e; return EOF; }
        return r;
    }
    return __real_fclose(f);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (g_exec) { ssize_t r; exec_write(fd, b, n, r); return r; }
    if (g_started && fd == 1) return sink_write(static_cast<const char*>(b), n);
    if (g_started && fd == 2 && !tl_harness) return cookie_err(nullptr, static_cast<const char*>(b), n);
    return __real_write(fd, b, n);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
    if (g_exec || (g_started && (fd == 1 || (fd == 2 && !tl_harness)))) {
        std::string s;
        { Harness h; for (int i = 0; i < n; ++i) s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
        return __wrap_write(fd, s.data(), s.size());
    }
    return __real_writev(fd, v, n);
}
// ---- time ------------------------------------------------------------------------
int __real_clock_gettime(clockid_t, struct timespec*);
static uint64_t sim_now() {
    Harness h;
    switch (g_clock.mode) {
        case 0: A->simns += 1000000; break;                                   // steady
        case 1: break;                                                        // frozen
        case 2: { uint32_t k = choose(4, "clock"); fault(F_CLOCK);            // jumps, also backwards
            if (k == 0) A->simns += 1000; else if (k == 1) A->simns += 3600000000000ull; else if (k == 2) A->simns += 86400000000000ull * 40;
            else return A->simns > 7200000000000ull ? A->simns - 7200000000000ull : 0; } break;
        default: A->simns += 1000ull * (1 + choose(1000000, "clock"));
    }
    return A->simns;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
    if (!g_started || !lib_active()) return __real_clock_gettime(c, t);
    uint64_t n = sim_now() + (c == CLOCK_REALTIME ? 1700000000000000000ull : 0);
    t->tv_sec = time_t(n / 1000000000ull); t->tv_nsec = long(n % 1000000000ull);
    ev("clock");
    return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* t, void* z) {
    if (!g_started || !lib_active()) return __real_gettimeofday(t, z);
    uint64_t n = sim_now(); t->tv_sec = time_t(1700000000 + n / 1000000000ull); t->tv_usec = long(n % 1000000000ull / 1000); return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* p) { if (!g_started || !lib_active()) return __real_time(p); time_t t = time_t(1700000000 + sim_now() / 1000000000ull); if (p) *p = t; return t; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (!g_started || !lib_active()) return __real_nanosleep(a, b);
    seam_op("sleep"); A->simns += uint64_t(a->tv_sec) * 1000000000ull + uint64_t(a->tv_nsec); return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return __wrap_nanosleep(a, b); }
int __wrap_usleep(unsigned us) { if (!g_started || !lib_active()) { struct timespec t{us / 1000000, long(us % 1000000) * 1000}; return __real_nanosleep(&t, nullptr); } seam_op("sleep"); A->simns += us * 1000ull; return 0; }
}

// ---- randomness and surroundings ---------------------------------------------------
uint32_t __sim_rnd() { Harness h; static uint32_t s; if (!s) { s = g_world * 2654435761u + 12345; } s = s * 1664525u + 1013904223u; ev("random"); return s >> 1; }
extern "C" {
ssize_t __real_getrandom(void*, size_t, unsigned);
ssize_t __wrap_getrandom(void* b, size_t n, unsigned f) { if (!g_started || !lib_active()) return __real_getrandom(b, n, f); for (size_t i = 0; i < n; ++i) static_cast<unsigned char*>(b)[i] = (unsigned char)(__sim_rnd() >> 20); return ssize_t(n); }
int __wrap_getentropy(void* b, size_t n) { if (!g_started || !lib_active()) return getentropy(b, n); __wrap_getrandom(b, n, 0); return 0; }
pid_t __real_getpid();
pid_t __wrap_getpid() { if (!g_started || !lib_active() || !g_world) return __real_getpid(); return pid_t(1000 + g_world % 30000); }
char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) {      // another user's settings
    if (!g_started || !lib_active() || g_exec || !strncmp(n, "LC_", 3) || !strncmp(n, "LANG", 4)) return __real_getenv(n);
    static char one[] = "1", empty[] = "";
    switch (g_world % 3) { case 1: return one; case 2: return empty; default: return nullptr; }
}
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
// the machine and the session the code under test runs in (0: the real ones)
static bool other_world() { return g_started && lib_active() && g_world; }
int __real_isatty(int); int __wrap_isatty(int fd) { return other_world() ? int(g_world >> 2 & 1) : __real_isatty(fd); }
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long q, void* p) {
    if (!other_world() || q != TIOCGWINSZ) return __real_ioctl(fd, q, p);
    if (!(g_world >> 2 & 1)) { errno = ENOTTY; return -1; }
    auto* w = static_cast<struct winsize*>(p); w->ws_row = (unsigned short)(20 + g_world % 40); w->ws_col = (unsigned short)(40 + g_world % 200); return 0;
}
int __real_get_nprocs(); int __wrap_get_nprocs() { return other_world() ? int(1 + g_world % 16) : __real_get_nprocs(); }
long __real_sysconf(int);
long __wrap_sysconf(int n) { return other_world() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) ? long(1 + g_world % 16) : __real_sysconf(n); }
pid_t __real_getppid(); pid_t __wrap_getppid() { return other_world() ? pid_t(2 + g_world % 500) : __real_getppid(); }
uid_t __real_getuid(); uid_t __wrap_getuid() { return other_world() ? uid_t(g_world % 3 * 500) : __real_getuid(); }
uid_t __real_geteuid(); uid_t __wrap_geteuid() { return other_world() ? uid_t(g_world % 3 * 500) : __real_geteuid(); }
int __real_gethostname(char*, size_t);
int __wrap_gethostname(char* b, size_t n) { if (!other_world()) return __real_gethostname(b, n); snprintf(b, n, "host%u", g_world % 1000); return 0; }
int __real_uname(struct utsname*);
int __wrap_uname(struct utsname* u) { int e = __real_uname(u); if (other_world()) { snprintf(u->nodename, sizeof u->nodename, "host%u", g_world % 1000); snprintf(u->release, sizeof u->release, "%u.%u", 4 + g_world % 3, g_world % 19); } return e; }
clock_t __real_clock(); clock_t __wrap_clock() { return g_started && lib_active() ? clock_t(sim_now() / 1000) : __real_clock(); }
int __real_getrusage(int, struct rusage*);
int __wrap_getrusage(int who, struct rusage* u) {
    int e = __real_getrusage(who, u);
    if (g_started && lib_active()) { memset(u, 0, sizeof *u); uint64_t n = sim_now(); u->ru_utime.tv_sec = time_t(n / 1000000000ull); u->ru_utime.tv_usec = long(n % 1000000000ull / 1000); u->ru_maxrss = long(10000 + g_world % 5000); }
    return e;
}
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* d) { if (!g_started || !lib_active()) return __real__ZNSt13random_device9_M_getvalEv(d); return __sim_rnd(); }
}

// ---- a tool started by the real learning script -------------------------------------
// PPSIM_PLAN: "<counter file> <invocation>:<kind>:<n> ..." : in the given invocation, the n-th
// operation is hit by the given fault. kinds: k (SIGKILL before op n), K (kill the script too), r (read error at the n-th read),
// s (disk full after n bytes of output), w (one failing write after n bytes), o (n-th open fails), a (n-th allocation fails), h (short transfers, seed n)
extern "C" { typedef int (*main_t)(int, char**); }
struct Tool { const char* name; main_t fn; };
extern const Tool g_tools[];
extern const unsigned g_ntools;
static void xfired() { if (!X.fired) { X.fired = true; if (X.logfd >= 0) { (void)!__real_write(X.logfd, "F\n", 2); } } }
namespace sim {
static uint64_t exec_rnd() { X.rng = X.rng * 6364136223846793005ull + 1442695040888963407ull; return X.rng >> 33; }
static bool exec_op(char op, int fd) {
    (void)fd;
    ++X.ops;
    if (X.kind == 'r' && op == 'r' && X.reads++ == X.n) { xfired(); errno = EIO; return true; }
    if (X.kind == 'o' && op == 'o' && X.opens++ == X.n) { xfired(); errno = EMFILE; return true; }
    if ((X.kind == 'k' || X.kind == 'K') && X.ops == X.n + 1) {
        xfired();
        if (X.kind == 'K') kill(getppid(), SIGKILL);
        kill(getpid(), SIGKILL);
    }
    return false;
}
static int exec_write(int fd, const void* b, size_t n, ssize_t& res) {
    exec_op('w', fd);
    if (fd == 1 && (X.kind == 's' || X.kind == 'w')) {
        if (X.outb >= X.n && n) {
            xfired();
            if (X.kind == 'w') X.kind = 0;
            errno = X.kind == 's' ? ENOSPC : EIO; res = -1; return -1;
        }
        n = std::min<size_t>(n, size_t(X.n - X.outb));
    }
    if (X.kind == 'h' && n > 1) { n = 1 + exec_rnd() % n; xfired(); }
    res = __real_write(fd, b, n);
    if (res > 0 && fd == 1) X.outb += res;
    return res < 0 ? -1 : 0;
}
int seam_exec_mode(int ac, char** av) {
    const char* base = strrchr(av[0], '/');
    base = base ? base + 1 : av[0];
    for (unsigned i = 0; i < g_ntools; ++i) {
        if (strcmp(base, g_tools[i].name)) continue;
        int inv = 0;
        const char* plan = getenv("PPSIM_PLAN");
        const char* root = getenv("PPSIM_ROOT");
        if (plan && root) {
            int sf = __real_open((std::string(root) + "/sched").c_str(), O_RDWR);
            auto* tab = static_cast<StepTable*>(sf < 0 ? MAP_FAILED : mmap(nullptr, sizeof(StepTable), PROT_READ | PROT_WRITE, MAP_SHARED, sf, 0));
            if (tab == MAP_FAILED) _exit(96);
            __real_close(sf);
            int k = __atomic_fetch_add(&tab->count, 1, __ATOMIC_SEQ_CST);
            if (k >= StepTable::N) _exit(96);
            auto& s = tab->slot[k];
            std::string who(base);
            for (int a = 1; a < ac; ++a) { who += ' '; who += av[a]; }
            snprintf(s.who, sizeof s.who, "%s", who.size() < sizeof s.who ? who.c_str() : who.c_str() + (who.size() - sizeof s.who + 1));
            s.pid = getpid();
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            __atomic_store_n(&s.state, 1, __ATOMIC_SEQ_CST);
            struct timespec ts{100, 0};
            while (__atomic_load_n(&s.state, __ATOMIC_SEQ_CST) != 2) if (syscall(SYS_futex, &s.state, 0, 1, &ts, nullptr, 0) && errno == ETIMEDOUT) _exit(96);
            prctl(PR_SET_PDEATHSIG, 0);
            munmap(tab, sizeof(StepTable));
            std::string p(plan);
            size_t sp = p.find(' ');
            std::string cf = p.substr(0, sp);
            int fd = __real_open(cf.c_str(), O_RDWR | O_CREAT | O_APPEND, 0644);
            struct stat st; __real_fstat(fd, &st);
            char rec[64];
            std::string prev(size_t(st.st_size), 0);
            (void)!__real_pread(fd, prev.data(), prev.size(), 0);
            for (char c : prev) inv += c == 'I';
            (void)!__real_write(fd, rec, size_t(snprintf(rec, sizeof rec, "I%d %s\n", inv, base)));
            X.logfd = fd;
            while (sp != std::string::npos) {
                size_t e = p.find(' ', sp + 1);
                std::string t = p.substr(sp + 1, e == std::string::npos ? e : e - sp - 1);
                int pi; char k; long n;
                if (sscanf(t.c_str(), "%d:%c:%ld", &pi, &k, &n) == 3 && pi == inv) { X.kind = k; X.n = n; X.rng = uint64_t(n) * 7919 + 1; }
                sp = e;
            }
        }
        A = static_cast<Arena*>(mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        A->tick_limit = 4000000000ull; A->seam_limit = 100000000;
        g_exec = true;
        tl_lib = 1;
        if (X.kind == 'a') g_alloc.countdown = X.n;
        if (const char* w = getenv("PPSIM_WORLD")) {      // memory and placement differ from step to step
            uint32_t v = uint32_t(atol(w));
            g_fill = (unsigned char)(v ^ unsigned(inv) * 37); g_shuffle = v >> 8 ? v + unsigned(inv) * 7919 + 1 : 0;
        }
        paint_stack(128 << 10);
        exit(g_tools[i].fn(ac, av));
    }
    return -1;
}
}
