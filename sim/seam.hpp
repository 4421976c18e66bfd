// The seam: every system call, allocation and clock reading of the code under test goes through here.
#pragma once
#include "core.hpp"
#include <string>
#include <vector>
#include <streambuf>

namespace sim {

struct SimFile {
    std::string path, content;
    int idx = 0;
    int open_errno = 0;
    int fstat_errno = 0;
    int close_errno = 0;
    long err_at = -1;         // offset at and after which a read fails
    int err_no = 5;
    unsigned err_times = 0;   // 0: for ever
    bool resize = false;      // after the size was asked for, the content becomes content2
    std::string content2;
    bool resized = false;
    unsigned resize_after = 0;  // number of reads before that happens
    unsigned nreads = 0;
    std::string seen;           // the bytes handed to the reader since the file was opened
    FileStat& st() const { return A->files[idx]; }
};

struct ReadCfg {
    unsigned short_mode = 0;  // 0 whole, 1 mixed, 2 one byte, 3 small pieces
    unsigned eintr_budget = 0;
    unsigned eintr_den = 4;
};
struct OutCfg {
    long capacity = -1;       // bytes accepted before the medium fails
    int err = 28;             // ENOSPC
    bool transient = false;   // fails once, the rejected bytes are lost to the writer unless retried
    bool shorts = false;
    unsigned eintr_budget = 0;
    bool closed = false;
};
struct AllocCfg {
    long countdown = -1;      // the n-th allocation inside the code under test fails
    bool persist = false;     // and all later ones
    size_t max = size_t(5) << 30; // one allocation larger than this never succeeds
};
struct ClockCfg { unsigned mode = 0; };

extern ReadCfg g_read;
extern OutCfg g_out;
extern AllocCfg g_alloc;
extern ClockCfg g_clock;
extern uint64_t g_lib_allocs;        // allocations made by the code under test so far
extern unsigned char g_fill;         // what fresh memory contains
extern bool g_fdreuse;               // a freed descriptor number is taken by somebody else at once
extern bool g_track;                 // account live allocations of the code under test

SimFile& add_file(std::string path, std::string content);
SimFile* find_file(std::string const& path);
void clear_files();
unsigned open_fds();                 // sim descriptors open now
struct FdLog { unsigned opened, closed, foreign_close, double_close; };
FdLog& fdlog();
void release_sentinels();            // the others close the descriptors they took over
uint64_t live_bytes();
uint64_t live_blocks();

void seam_start();                   // once per run
unsigned seam_guards();
int seam_exec_mode(int ac, char** av);
void out_reset();
std::string out_bytes();
std::string err_bytes();
void seam_op(const char* what);      // counts one crossing of the seam
extern uint32_t g_shuffle;           // not 0: small blocks come in an order of this seed
extern uint32_t g_reuse;             // not 0: freed blocks are handed out again at once
extern uint32_t g_world;             // process number, random numbers, environment seen by the code under test
void paint_stack(size_t n);
void shift_heap(unsigned n);         // moves later allocations

// arms an allocation failure for its lifetime
struct ArmAlloc {
    ArmAlloc(long n, bool persist) { g_alloc.countdown = n; g_alloc.persist = persist; }
    ~ArmAlloc() { g_alloc.countdown = -1; g_alloc.persist = false; }
};

// a stream source that delivers `data` in seeded pieces, may end early or fail
struct InBuf : std::streambuf {
    std::string data;
    size_t pos = 0, throw_at = size_t(-1);
    unsigned piece;          // 0: everything at once
    std::string cur;
    bool threw = false;
    InBuf(std::string d, unsigned piece_) : data(std::move(d)), piece(piece_) {}
    int_type underflow() override;
};
// a stream sink with a buffer of its own that accepts `capacity` bytes and then fails
struct OutBuf : std::streambuf {
    std::string stored;
    size_t capacity;
    unsigned bufsz;
    bool failed = false;
    unsigned mode = 0;      // 0: sync reports the failure again, 1: it does not, 2: the medium recovers after one failure
    std::string buf;
    OutBuf(size_t cap, unsigned bs) : capacity(cap), bufsz(bs) {}
    bool flush_some(bool all);
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override;
};
// the processes of a learning run wait here until the scheduler lets one of them run (C09)
struct StepTable {
    enum { N = 512 };
    int count;                                   // arrived so far (atomic)
    struct { int state; int pid; char who[248]; } slot[N];   // state: 0 free, 1 waiting, 2 may run (futex)
};
}
