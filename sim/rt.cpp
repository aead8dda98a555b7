// Deterministic simulation runtime.
//
// Owns: thread scheduling (fibers), clocks, mutexes, condition variables, shared mutexes, once/static guards, futexes,
// atomics, heap, signals, stdin, terminal, inotify, std::random_device. Compiled WITHOUT instrumentation; the code under
// test is compiled with -fsanitize=thread (instrumentation only) and calls the __tsan_* entry points defined here.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
// The runtime's own memory functions are not the interposed ones (memfn.cpp), explicit and compiler generated calls alike
extern "C" void* memcpy(void* __restrict, const void* __restrict, __SIZE_TYPE__) noexcept(true) __asm__("rt_memcpy");
extern "C" void* memmove(void*, const void*, __SIZE_TYPE__) noexcept(true) __asm__("rt_memmove");
extern "C" void* memset(void*, int, __SIZE_TYPE__) noexcept(true) __asm__("rt_memset");
#include "rt.h"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/eventfd.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <termios.h>
#include <unistd.h>
#include <dirent.h>

extern "C" char __libc_single_threaded;
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" char __data_start[];
extern "C" char _end[];
extern "C" char __executable_start[];

namespace rt {

typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;
typedef uintptr_t uptr;

constexpr int MAXF = 64;
constexpr uptr HEAP_BASE = 0x100000000000ull;
constexpr uptr HEAP_SIZE = 192ull << 20;
constexpr uptr STK_BASE = 0x110000000000ull;
constexpr uptr STK_SIZE = 256ull << 10;
constexpr uptr SH_BASE = 0x120000000000ull;   // granule shadow
constexpr uptr HS_BASE = 0x130000000000ull;   // heap byte states
constexpr uptr CHUNK_BASE = 0x140000000000ull;   // out of line chunk info, indexed by granule
constexpr u32 MAX_CS = 400;
constexpr u64 SP_POLICY_CAP = 400000;         // scheduling points under the random policy
constexpr u64 SP_TOTAL_CAP = 8000000;         // then fair round robin until here: livelock
constexpr u32 QUANTUM = 2000;
constexpr u32 KEY_BASE = 0x4000;

struct Slot { u32 clk; u8 tid; u8 mask; u8 kind; u8 used; u32 pc; };
struct Gran { Slot s[5]; u32 victim; };
static_assert(sizeof(Gran) == 64, "granule size");
enum { K_READ = 0, K_WRITE = 1, K_ATOMIC = 2, K_FREE = 4 };

struct Chunk { u32 size; u32 pc_alloc; u32 pc_free; u8 f_alloc; u8 f_free; u8 state; u8 pad; };

enum WaitKind { W_NONE, W_MUTEX, W_COND, W_RDLOCK, W_WRLOCK, W_JOIN, W_SLEEP, W_QUIESCE, W_ONCE, W_FUTEX, W_STDIN, W_INOTIFY, W_COND_RELOCK, W_POLL, W_PIPE, W_SEM };
static const char* wait_name(int k)
{
    static const char* n[] = {"-", "mutex", "condition variable", "shared mutex (read)", "shared mutex (write)", "join",
                              "sleep", "quiesce", "once/static init", "futex", "stdin", "inotify read", "mutex", "poll", "pipe",
                              "semaphore"};
    return n[k];
}

struct Fiber;
struct Waiter
{
    Fiber* f;
    int kind;
    uptr obj;
    i64 deadline;    // ns, <0 none
    int clk;         // 0 steady 1 wall
    bool woken;
    bool timedout;
    Waiter* outer;
    uptr mu;         // of a wait on a condition variable
};

struct AtExit { void (* fn)(void*); void* arg; };

struct Fiber
{
    int id;
    void* sp;
    u8 state;        // 0 unused 1 runnable 2 blocked 3 done
    bool detached, joined;
    char nm[24];
    void* (*fn)(void*);
    void* arg;
    void* ret;
    u32 vc[MAXF];
    Waiter* w;
    u64 spn;         // scheduling points passed
    i64 gap;         // policy budget until next preemption
    u64 next_forced; // replay: next sp index with a recorded choice
    int fptr;        // replay: pointer in forced list
    u32 widx, fidx[sim::F_MAX], pidx;
    u32 cs[MAX_CS];
    int csn;
    unsigned char tls[1024];
    int err;
    u32 prio;
    AtExit ax[16];
    int nax;
    int alloc_faults;
    int sig_pending[8]; int nsig; int sigdepth;
    u64 sigmask;
    const void* spec[32];   // pthread_setspecific
    bool want_signal;
    Fiber* inherit;
};

struct VC { u32 c[MAXF]; };

struct SyncVar
{
    uptr addr;
    VC vc;
    bool has_vc;
    // mutex
    int owner;       // fiber id + 1
    int rec;
    // rw
    int writer;      // fiber id + 1
    int nreaders;
    u32 rd[MAXF];
    // once / guard
    int once;
    // waiters
    Waiter* wq[MAXF];
    int nw;
    u32 owner_pc;
    u8 used_as;      // 1 mutex 2 cond 3 rw 4 once 5 atomic 6 futex
};

struct G
{
    bool active;
    bool replay;
    bool tracing;
    bool policy_on;
    int quiet;
    int inrt;
    Fiber f[MAXF];
    int nf;
    Fiber* cur;
    Result* res;
    u64 rng_work, rng_sched, rng_fault;
    u64 hash, shash;
    u64 now;          // steady ns
    i64 wall_off;
    u64 stamp;
    u64 sp_total;
    u64 since_switch;
    u64 quantum;
    bool leak_ok;
    u64 step_cost;
    bool yielded; u64 yields;
    bool want;        // reschedule requested (PCT)
    int policy;       // 0 random walk, 1 PCT, 2 round robin-ish random at sync only
    double mean_gap;
    i64 pct_next[8];
    int pct_n, pct_i;
    u32 prio_low;
    u32 bidx;
    bool writer_pref;
    bool long_limits;
    i64 fair_from;
    u32 fault_in[sim::F_MAX];
    // replay lookup
    const Choice* rc;
    int nrc;
    // heap
    uptr bump;
    i64 live, live_bytes;
    // sync table
    SyncVar** tab;
    u32 tabcap, tabn;
    // ignore ranges
    struct { uptr a, b; } ign[24];
    int nign;
    // tls
    uptr tls_addr; size_t tls_size; size_t tls_filesz; const void* tls_img;
    // shadow
    uptr data_lo, data_hi;
    // signals
    void (* sigh[65])(int);
    u64 sigh_mask[65];
    struct { bool used; void (* dtor)(void*); } key[32];
    u64 sig_delivered[65];
    struct { int sig; } pend[32];
    int npend;
    // stdin
    char in[32768]; u32 in_r, in_w; bool in_eof; u64 in_after_eof;
    int ungot;
    bool tty; int width; bool raw; struct termios term, term0; bool term_set, term_changed; void (* echo)(char);
    u32 random_device;
    // inotify
    bool in_use;
    bool fail_init, fail_watch;
    struct Watch { int fd, wd; u32 mask; char path[320]; bool live; } watch[16]; int nwatch;
    struct FsEv { int fd; int wd; u32 mask; char name[256]; } evq[2048]; int evr, evw;
    bool fdopen[32]; int nfd;
    struct { char p[320]; bool dir; int perm; } paths[32]; int npaths;
    struct { char p[320]; const char* data; size_t n; i64 bad_at; int open_err; } files[8]; int nfiles; u64 open_fails;
    struct { bool open; int file; size_t pos; void* cookie; } rfd[16];
    // pipes and event descriptors
    struct Ipc { int kind; char buf[8192]; u32 r, w; u64 cnt; bool open[2], nb[2], sem; } ipc[12];
    bool fdnb[32]; bool in_nb; bool in_feof;
    u32 mem_seen;
    const char* ctx;
    char tracebuf_unused[8];
    char last_events[64][160];
    u32 nev;
};

static G* g;

#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ------------------------------------------------------------------ small utilities

static inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline u64 rnd(u64& s)
{
    s += 0x9E3779B97F4A7C15ull;
    u64 x = s;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
static inline u32 below(u64& s, u32 n)
{
    return n ? (u32)((rnd(s) >> 11) % n) : 0;
}
static double unit(u64& s)
{
    return (double)(rnd(s) >> 11) * (1.0 / 9007199254740992.0);
}
static double my_log(double x)
{
    // natural log, enough precision for gap drawing, no libm dependency
    union { double d; u64 u; } v;
    v.d = x;
    int e = (int)((v.u >> 52) & 0x7ff) - 1023;
    v.u = (v.u & 0xfffffffffffffull) | 0x3ff0000000000000ull;
    double m = v.d, y = (m - 1) / (m + 1), y2 = y * y;
    double s = 2 * y * (1 + y2 * (1.0 / 3 + y2 * (1.0 / 5 + y2 * (1.0 / 7 + y2 / 9))));
    return s + e * 0.6931471805599453;
}
static i64 draw_gap()
{
    double u = unit(g->rng_sched);
    if (u < 1e-12)
    {
        u = 1e-12;
    }
    return 1 + (i64)(-my_log(u) * g->mean_gap);
}

static inline void H(u64 x)
{
    g->hash = (g->hash ^ x) * 0x100000001b3ull;
    g->hash ^= g->hash >> 29;
}

static void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void tracef(const char* fmt, ...)
{
    if (!g->tracing)
    {
        return;
    }
    Result* r = g->res;
    if (r->trace_len > TRACE_CAP - 512)
    {
        return;
    }
    g->inrt++;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(r->trace + r->trace_len, 480, fmt, ap);
    va_end(ap);
    g->inrt--;
    if (n > 479)
    {
        n = 479;
    }
    r->trace_len += n;
    r->trace[r->trace_len++] = '\n';
    r->trace[r->trace_len] = 0;
}

static inline bool in_heap(uptr a)
{
    return a - HEAP_BASE < HEAP_SIZE;
}
static inline bool in_stk(uptr a)
{
    return a - STK_BASE < STK_SIZE * MAXF;
}
static inline bool known_addr(uptr a)
{
    return in_heap(a) || in_stk(a) || (a >= g->data_lo && a < g->data_hi);
}
static inline u64 addr_id(uptr a)
{
    return known_addr(a) ? a : 1;
}

// ------------------------------------------------------------------ finishing

static void finish(int done) __attribute__((noreturn));
static void finish(int done)
{
    Result* r = g->res;
    if (g->sp_total > SP_TOTAL_CAP / 8)
    {
        sim::probe("more-than-a-million-points");
    }
    r->hash = g->hash;
    r->sched_hash = g->shash;
    r->sp = g->sp_total;
    r->sim_ns = g->now;
    r->threads = g->nf;
    __sync_synchronize();
    r->done = done;
    _exit(0);
}

static void append(char* buf, size_t cap, const char* fmt, ...)
{
    size_t n = strlen(buf);
    if (n + 1 >= cap)
    {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf + n, cap - n, fmt, ap);
    va_end(ap);
}

static void vviolation(const char* cls, const char* fmt, va_list ap) __attribute__((noreturn));
static void vviolation(const char* cls, const char* fmt, va_list ap)
{
    g->inrt++;
    g->active = false;
    Result* r = g->res;
    snprintf(r->cls, sizeof r->cls, "%s", cls);
    vsnprintf(r->msg, 2500, fmt, ap);
    Fiber* c = g->cur;
    append(r->msg, sizeof r->msg, "\n  at t=%.6f ms (virtual), thread %d (%s), call stack:", g->now / 1e6, c->id, c->nm);
    for (int i = c->csn - 1, k = 0; i >= 0 && k < 14; i--, k++)
    {
        append(r->msg, sizeof r->msg, " 0x%x", c->cs[i < (int)MAX_CS ? i : MAX_CS - 1]);
    }
    for (int i = 0; i < g->nf; i++)
    {
        Fiber* f = &g->f[i];
        if (f == c || f->state == 3)
        {
            continue;
        }
        append(r->msg, sizeof r->msg, "\n  thread %d (%s): %s", i, f->nm, f->state == 1 ? "runnable" : "blocked on ");
        if (f->state == 2 && f->w)
        {
            append(r->msg, sizeof r->msg, "%s 0x%llx%s", wait_name(f->w->kind), (unsigned long long)f->w->obj,
                    f->w->deadline >= 0 ? " (timed)" : "");
        }
        append(r->msg, sizeof r->msg, " stack:");
        for (int j = f->csn - 1, k = 0; j >= 0 && k < 8; j--, k++)
        {
            append(r->msg, sizeof r->msg, " 0x%x", f->cs[j < (int)MAX_CS ? j : MAX_CS - 1]);
        }
    }
    H(0xbadull);
    for (const char* p = cls; *p; p++)
    {
        H(*p);
    }
    if (g->tracing)
    {
        tracef("!! VIOLATION %s: %s", r->cls, r->msg);
    }
    finish(2);
}
static void viol(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void viol(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolation(cls, fmt, ap);
}

// ------------------------------------------------------------------ choices

static inline void record(u8 kind, int fiber, int sub, u32 idx, u32 val)
{
    Result* r = g->res;
    if (r->nchoices < MAX_CHOICES)
    {
        Choice& c = r->choices[r->nchoices++];
        c.kind = kind;
        c.fiber = (u8)fiber;
        c.sub = (u8)sub;
        c.pad = 0;
        c.idx = idx;
        c.val = val;
    }
    else
    {
        r->choices_overflow = 1;
    }
}
static bool lookup(u8 kind, int fiber, int sub, u32 idx, u32& val)
{
    // choices are few: open linear search on a small sorted array (sorted by driver)
    u64 key = ((u64)kind << 56) | ((u64)(u8)fiber << 48) | ((u64)(u8)sub << 40) | idx;
    int lo = 0, hi = g->nrc;
    while (lo < hi)
    {
        int m = (lo + hi) / 2;
        const Choice& c = g->rc[m];
        u64 k = ((u64)c.kind << 56) | ((u64)c.fiber << 48) | ((u64)c.sub << 40) | c.idx;
        if (k < key)
        {
            lo = m + 1;
        }
        else
        {
            hi = m;
        }
    }
    if (lo < g->nrc)
    {
        const Choice& c = g->rc[lo];
        u64 k = ((u64)c.kind << 56) | ((u64)c.fiber << 48) | ((u64)c.sub << 40) | c.idx;
        if (k == key)
        {
            val = c.val;
            return true;
        }
    }
    return false;
}
static u64 next_forced_after(int fiber, u64 idx)
{
    // smallest sp index > idx of kinds SCHED/TIME/SIG for this fiber
    u64 best = ~0ull;
    for (int i = 0; i < g->nrc; i++)
    {
        const Choice& c = g->rc[i];
        if ((c.kind == C_SCHED || c.kind == C_TIME || c.kind == C_SIG) && c.fiber == fiber && c.idx > idx && c.idx < best)
        {
            best = c.idx;
        }
    }
    return best;
}

// ------------------------------------------------------------------ shadow memory

static inline Gran* gran(uptr a)
{
    if (in_heap(a))
    {
        return (Gran*)(SH_BASE + ((a - HEAP_BASE) >> 3) * sizeof(Gran));
    }
    if (in_stk(a))
    {
        return (Gran*)(SH_BASE + ((HEAP_SIZE + (a - STK_BASE)) >> 3) * sizeof(Gran));
    }
    if (a >= g->data_lo && a < g->data_hi)
    {
        return (Gran*)(SH_BASE + ((HEAP_SIZE + STK_SIZE * MAXF + (a - (g->data_lo & ~7ull))) >> 3) * sizeof(Gran));
    }
    return nullptr;
}
static inline u8* hstate(uptr a)
{
    return (u8*)(HS_BASE + ((a - HEAP_BASE) >> 3));
}
static Chunk* chunk_of(uptr user)
{
    return (Chunk*)(CHUNK_BASE + ((user - HEAP_BASE) >> 4) * sizeof(Chunk));
}
static Chunk* find_chunk(uptr a, uptr& base)
{
    // search backwards for the chunk that contains a (reports only)
    for (uptr p = a & ~15ull; p >= HEAP_BASE; p -= 16)
    {
        Chunk* c = chunk_of(p);
        if (c->state)
        {
            base = p;
            return c;
        }
        if (a - p > (8u << 20))
        {
            break;
        }
    }
    return nullptr;
}

static void bad_heap(uptr a, size_t n, bool write, u32 pc) __attribute__((noreturn, noinline));
static void bad_heap(uptr a, size_t n, bool write, u32 pc)
{
    uptr base = 0;
    Chunk* c = find_chunk(a, base);
    if (c && a < base + c->size && c->state == 2)
    {
        viol("use-after-free", "%s of %zu bytes at 0x%llx (pc 0x%x), %zu bytes into a %u-byte block allocated by thread %d (pc 0x%x) and "
                "freed by thread %d (pc 0x%x)", write ? "write" : "read", n, (unsigned long long)a, pc, (size_t)(a - base), c->size,
                c->f_alloc, c->pc_alloc, c->f_free, c->pc_free);
    }
    viol("heap-out-of-bounds", "%s of %zu bytes at 0x%llx (pc 0x%x) outside any live block (nearest block: base 0x%llx size %u)",
            write ? "write" : "read", n, (unsigned long long)a, pc, (unsigned long long)base, c ? c->size : 0);
}

static inline void heap_check(uptr a, size_t n, bool write, u32 pc)
{
    if (in_heap(a) && a < HEAP_BASE + HEAP_SIZE - 64)
    {
        u8* s = hstate(a);
        u8* e = hstate(a + n - 1);
        for (; s <= e; s++)
        {
            u8 st = *s;
            if (UNLIKELY(st != 8))
            {
                // partial granule: addressable bytes 0..st-1
                uptr gb = HEAP_BASE + ((uptr)(s - (u8*)HS_BASE) << 3);
                uptr last = (a + n - 1 < gb + 7) ? a + n - 1 : gb + 7;
                if (st == 0 || st > 8 || last - gb >= st)
                {
                    bad_heap(a, n, write, pc);
                }
            }
        }
    }
}

static void race(uptr a, size_t n, int kind, u32 pc, const Slot& o) __attribute__((noreturn, noinline));
static void race(uptr a, size_t n, int kind, u32 pc, const Slot& o)
{
    viol("data-race", "%s%s of %zu bytes at 0x%llx (pc 0x%x) by thread %d is unordered with %s%s (pc 0x%x) by thread %d (%s)",
            (kind & K_ATOMIC) ? "atomic " : "", (kind & K_FREE) ? "free" : (kind & K_WRITE) ? "write" : "read", n,
            (unsigned long long)a, pc, g->cur->id, (o.kind & K_ATOMIC) ? "atomic " : "",
            (o.kind & K_FREE) ? "free" : (o.kind & K_WRITE) ? "write" : "read", o.pc, o.tid, g->f[o.tid].nm);
}

static inline void race_check_gran(Gran* gr, u8 mask, uptr a, size_t n, int kind, u32 pc)
{
    Fiber* c = g->cur;
    u32 clk = c->vc[c->id];
    Slot* rep = nullptr;
    Slot* emp = nullptr;
    for (int i = 0; i < 5; i++)
    {
        Slot& s = gr->s[i];
        if (!s.used)
        {
            if (!emp)
            {
                emp = &s;
            }
            continue;
        }
        if (!(s.mask & mask))
        {
            continue;
        }
        if (s.tid == c->id)
        {
            if ((s.mask & ~mask) == 0 && (s.kind == kind || (kind & K_WRITE && !(kind & K_ATOMIC))
                    || (kind & K_WRITE && !(s.kind & K_WRITE) && (s.kind & K_ATOMIC) == (kind & K_ATOMIC))))
            {
                if (s.clk == clk && s.kind == kind && s.mask == mask)
                {
                    // identical to last: others must still be checked only once
                    rep = &s;
                    continue;
                }
                rep = &s;
            }
            continue;
        }
        bool ordered = c->vc[s.tid] >= s.clk;
        if (!((s.kind | kind) & K_WRITE) || ((s.kind & kind) & K_ATOMIC))
        {
            if (ordered && (s.mask & ~mask) == 0 && (kind & K_WRITE) && !(kind & K_ATOMIC) && !rep)
            {
                rep = &s;
            }
            continue;
        }
        if (!ordered)
        {
            for (int k = 0; k < g->nign; k++)
            {
                if (a >= g->ign[k].a && a < g->ign[k].b)
                {
                    return;
                }
            }
            race(a, n, kind, pc, s);
        }
        if ((s.mask & ~mask) == 0 && (kind & K_WRITE) && !rep)
        {
            rep = &s;
        }
    }
    Slot* d = rep ? rep : emp;
    if (!d)
    {
        d = &gr->s[gr->victim++ % 5];
    }
    d->clk = clk;
    d->tid = (u8)c->id;
    d->mask = mask;
    d->kind = (u8)kind;
    d->used = 1;
    d->pc = pc;
}

static inline void shadow_access(uptr a, size_t n, int kind, u32 pc)
{
    while (n)
    {
        Gran* gr = gran(a);
        if (!gr)
        {
            return;
        }
        u32 off = a & 7;
        u32 k = 8 - off;
        if (k > n)
        {
            k = (u32)n;
        }
        u8 mask = (u8)(((1u << k) - 1) << off);
        race_check_gran(gr, mask, a, k, kind, pc);
        a += k;
        n -= k;
    }
}

// ------------------------------------------------------------------ fibers

extern "C" void sim_ctx_switch(void** save, void* load);
asm (R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

static void fiber_main() noexcept;

static void tls_save(Fiber* f)
{
    memcpy(f->tls, (void*)g->tls_addr, g->tls_size);
    f->err = errno;
}
static void tls_load(Fiber* f)
{
    memcpy((void*)g->tls_addr, f->tls, g->tls_size);
    errno = f->err;
}

//! Irregular, so that the fair scheduler does not resonate with a loop of the program
static u64 draw_quantum()
{
    return QUANTUM / 2 + mix(g->sp_total * 0x9e3779b97f4a7c15ull + 12345) % QUANTUM;
}

static void switch_to(Fiber* n)
{
    Fiber* c = g->cur;
    if (n == c)
    {
        return;
    }
    g->res->switches++;
    g->since_switch = 0;
    g->quantum = draw_quantum();
    H(((u64)c->id << 8) ^ n->id ^ (c->spn << 16));
    g->shash = (g->shash ^ (((u64)n->id << 32) ^ (c->csn ? c->cs[c->csn - 1] : 0) ^ ((u64)c->id << 40))) * 0x100000001b3ull;
    g->shash ^= g->shash >> 31;
    tls_save(c);
    g->cur = n;
    tls_load(n);
    sim_ctx_switch(&c->sp, n->sp);
}

static Fiber* new_fiber(void* (*fn)(void*), void* arg)
{
    if (g->nf >= MAXF)
    {
        return nullptr;
    }
    Fiber* f = &g->f[g->nf];
    f->id = g->nf++;
    f->state = 1;
    f->fn = fn;
    f->arg = arg;
    snprintf(f->nm, sizeof f->nm, "T%d", f->id);
    memset(f->tls, 0, sizeof f->tls);
    memcpy(f->tls, g->tls_img, g->tls_filesz);
    mprotect((void*)(STK_BASE + STK_SIZE * f->id), 4096, PROT_NONE);
    uptr top = STK_BASE + STK_SIZE * (f->id + 1) - 64;
    uptr* s = (uptr*)top;
    *--s = 0;                  // return address of fiber_main
    *--s = (uptr)&fiber_main;
    for (int i = 0; i < 6; i++)
    {
        *--s = 0;
    }
    f->sp = s;
    f->gap = g->policy_on ? draw_gap() : 0;
    f->prio = g->policy_on ? 1000 + below(g->rng_sched, 100000) : 0;
    f->next_forced = g->replay ? next_forced_after(f->id, 0) : ~0ull;
    f->vc[f->id] = 1;
    return f;
}

static int runnable_after(Fiber* c, Fiber** out)
{
    int n = 0;
    for (int k = 1; k <= g->nf; k++)
    {
        Fiber* f = &g->f[(c->id + k) % g->nf];
        if (f != c && f->state == 1)
        {
            out[n++] = f;
        }
    }
    return n;
}

static i64 deadline_steady(const Waiter* w)
{
    if (w->deadline < 0)
    {
        return -1;
    }
    if (w->clk == 0)
    {
        return w->deadline;
    }
    i64 d = w->deadline - g->wall_off;
    return d < 0 ? 0 : d;
}


static void wake(Waiter* w)
{
    if (!w->woken)
    {
        w->woken = true;
        if (w->f->state == 2 && w->f->w == w)
        {
            w->f->state = 1;
            g->want = true;
        }
    }
}

static void leave_cond(Waiter* w);

static void expire_timers()
{
    for (int i = 0; i < g->nf; i++)
    {
        Fiber* f = &g->f[i];
        if (f->state == 2 && f->w && f->w->deadline >= 0 && !f->w->woken)
        {
            i64 d = deadline_steady(f->w);
            if ((u64)d <= g->now)
            {
                f->w->timedout = true;
                if (f->w->kind == W_COND)
                {
                    leave_cond(f->w);
                }
                wake(f->w);
            }
        }
    }
}

static inline void advance(u64 ns)
{
    g->now += ns;
}

static i64 next_deadline()
{
    i64 best = -1;
    for (int i = 0; i < g->nf; i++)
    {
        Fiber* f = &g->f[i];
        if (f->state == 2 && f->w && f->w->deadline >= 0)
        {
            i64 d = deadline_steady(f->w);
            if (best < 0 || d < best)
            {
                best = d;
            }
        }
    }
    return best;
}

static void wall_jump_fault()
{
    using namespace sim;
    u32 rate = g->fault_in[F_WALLJUMP];
    Fiber* c = g->cur;
    u32 idx = ++c->fidx[F_WALLJUMP];
    u32 v = 0;
    if (g->replay)
    {
        lookup(C_FAULT, c->id, F_WALLJUMP, idx, v);
    }
    else if (g->policy_on && rate && g->res->faults[F_WALLJUMP] < 400)
    {
        g->res->fault_opps[F_WALLJUMP]++;
        if (below(g->rng_fault, rate) == 0)
        {
            v = 1 + below(g->rng_fault, 12);
            record(C_FAULT, c->id, F_WALLJUMP, idx, v);
        }
    }
    if (v)
    {
        static const i64 mags[] = {1000000ll, 30000000ll, 1000000000ll, 60000000000ll, 3600000000000ll, 864000000000000ll};
        i64 d = mags[(v - 1) % 6];
        if (v > 6)
        {
            d = -d;
        }
        g->wall_off += d;
        g->res->faults[F_WALLJUMP]++;
        H(0x3a11 ^ v);
        tracef("[%10.4f] ** wall clock jumps by %.3f s", g->now / 1e6, d / 1e9);
        expire_timers();
    }
}

static bool deliver_on(Fiber* f);
static void run_pending_signals(Fiber* f);
static bool can_take(const Fiber* f);

static void deadlock() __attribute__((noreturn));
static void deadlock()
{
    viol("deadlock", "no simulated thread can ever run again%s%s", g->ctx ? ": " : "", g->ctx ? g->ctx : "");
}

//! current fiber is not runnable: choose another one
static void resched()
{
    Fiber* c = g->cur;
    for (;;)
    {
        Fiber* cand[MAXF];
        int n = runnable_after(c, cand);
        if (c->state == 1)
        {
            // woken meanwhile (timer): candidate too, last in cyclic order
            cand[n++] = c;
        }
        if (n > 0)
        {
            u32 v = 0;
            u32 idx = ++g->bidx;
            if (n > 1)
            {
                if (g->replay)
                {
                    lookup(C_BLOCK, 0, 0, idx, v);
                    v %= n;
                }
                else if (g->policy_on)
                {
                    if (g->policy == 1)
                    {
                        for (int i = 1; i < n; i++)
                        {
                            if (cand[i]->prio > cand[v]->prio)
                            {
                                v = i;
                            }
                        }
                    }
                    else
                    {
                        v = below(g->rng_sched, n);
                    }
                    if (v)
                    {
                        record(C_BLOCK, 0, 0, idx, v);
                    }
                }
            }
            switch_to(cand[v]);
            return;
        }
        // Pending asynchronous signals interrupt a blocked thread
        if (g->npend)
        {
            Fiber* t = nullptr;
            for (int i = 0; i < g->nf && !t; i++)
            {
                if (g->f[i].state == 2 && can_take(&g->f[i]))
                {
                    t = &g->f[i];
                }
            }
            if (t)
            {
                deliver_on(t);
                continue;
            }
        }
        // Quiescence: somebody asked to know
        bool q = false;
        for (int i = 0; i < g->nf; i++)
        {
            Fiber* f = &g->f[i];
            if (f->state == 2 && f->w && f->w->kind == W_QUIESCE)
            {
                wake(f->w);
                q = true;
                break;
            }
        }
        if (q)
        {
            continue;
        }
        i64 d = next_deadline();
        if (d < 0)
        {
            deadlock();
        }
        // Huge sleeps ("the end of time") are not progress
        if ((u64)d > 400ull * 24 * 3600 * 1000000000ull)
        {
            deadlock();
        }
        if ((u64)d > g->now)
        {
            g->now = (u64)d;
        }
        H(g->now);
        wall_jump_fault();
        expire_timers();
    }
}

static bool block(int kind, uptr obj, i64 deadline, int clk, Waiter* w)
{
    Fiber* c = g->cur;
    if (g->quiet)
    {
        viol("harness-error", "blocking operation (%s) inside oracle code", wait_name(kind));
    }
    w->f = c;
    w->kind = kind;
    w->obj = obj;
    w->deadline = deadline;
    w->clk = clk;
    w->outer = c->w;
    c->w = w;
    if (g->tracing)
    {
        tracef("[%10.4f] T%d(%s) blocks on %s 0x%llx%s", g->now / 1e6, c->id, c->nm, wait_name(kind), (unsigned long long)obj,
                deadline >= 0 ? " (timed)" : "");
    }
    H(((u64)kind << 4) ^ addr_id(obj));
    int saved_quiet = g->quiet;
    if (deadline >= 0 && (u64)deadline_steady(w) <= g->now)
    {
        w->timedout = true;
        w->woken = true;
    }
    while (!w->woken)
    {
        c->state = 2;
        resched();
        if (c->nsig)
        {
            run_pending_signals(c);
        }
    }
    c->state = 1;
    g->quiet = saved_quiet;
    c->w = w->outer;
    if (g->tracing)
    {
        tracef("[%10.4f] T%d(%s) resumes from %s 0x%llx%s", g->now / 1e6, c->id, c->nm, wait_name(kind), (unsigned long long)obj,
                w->timedout ? " (timed out)" : "");
    }
    return w->timedout;
}

// ---- scheduling points

static void sp_slow(u32 weight) __attribute__((noinline));

static inline void sp(u32 weight)
{
    Fiber* c = g->cur;
    c->spn++;
    g->sp_total++;
    g->since_switch++;
    c->gap -= weight;
    if (UNLIKELY(c->gap <= 0 || g->want || c->spn >= c->next_forced || g->since_switch >= g->quantum || g->npend || g->yielded))
    {
        sp_slow(weight);
    }
}

static void sp_slow(u32 weight)
{
    Fiber* c = g->cur;
    const u64 spn = c->spn;    // a signal handler that runs here has points of its own
    if (g->sp_total > SP_POLICY_CAP)
    {
        g->policy_on = false;
        if (!g->fair_from)
        {
            g->fair_from = g->now;
        }
        if (g->sp_total > SP_TOTAL_CAP)
        {
            if (g->long_limits && (i64)g->now - g->fair_from > 3600 * 1000000000ll)
            {
                // Time goes on and the limits are hours away: nothing says that it would not end
                g->active = false;
                sim::probe("too-long");
                finish(1);
            }
            viol("livelock", "no completion within %llu scheduling points, the last %llu of them under a fair scheduler without faults",
                    (unsigned long long)SP_TOTAL_CAP, (unsigned long long)(SP_TOTAL_CAP - SP_POLICY_CAP));
        }
    }
    bool forced_rr = g->since_switch >= g->quantum;
    u32 def = forced_rr || g->yielded ? 1 : 0;
    bool rotate = def == 1;
    g->yielded = false;
    u32 v = def, tv = 0, sv = 0;
    bool budget = c->gap <= 0;
    bool want = g->want;
    g->want = false;
    Fiber* cand[MAXF];
    int n = -1;
    if (g->replay)
    {
        if (spn >= c->next_forced)
        {
            lookup(C_SCHED, c->id, 0, (u32)spn, v);
            lookup(C_TIME, c->id, 0, (u32)spn, tv);
            lookup(C_SIG, c->id, 0, (u32)spn, sv);
            c->next_forced = next_forced_after(c->id, spn);
        }
        c->gap = 1ll << 60;
    }
    else if (!g->policy_on)
    {
        c->gap = 1ll << 60;
    }
    else
    {
        if (g->policy == 1)
        {
            // PCT
            if (g->pct_i < g->pct_n && (i64)g->sp_total >= g->pct_next[g->pct_i])
            {
                g->pct_i++;
                c->prio = --g->prio_low;
                want = true;
            }
            c->gap = g->pct_i < g->pct_n ? g->pct_next[g->pct_i] - (i64)g->sp_total : (1ll << 60);
            if (c->gap < 1)
            {
                c->gap = 1;
            }
            if (want)
            {
                n = runnable_after(c, cand);
                u32 bp = c->prio;
                for (int i = 0; i < n; i++)
                {
                    if (cand[i]->prio > bp)
                    {
                        bp = cand[i]->prio;
                        v = i + 1;
                    }
                }
            }
        }
        else if (budget)
        {
            c->gap = draw_gap();
            n = runnable_after(c, cand);
            if (n > 0)
            {
                v = 1 + below(g->rng_sched, n);
            }
        }
        if (rotate && v == 0)
        {
            v = 1;
        }
        // stalls: let virtual time pass while this thread is on the CPU
        if ((budget || want || forced_rr) && g->fault_in[sim::F_STALL])
        {
            g->res->fault_opps[sim::F_STALL]++;
            if (below(g->rng_fault, g->fault_in[sim::F_STALL]) == 0)
            {
                tv = 1 + below(g->rng_fault, 8);
                record(C_TIME, c->id, 0, (u32)spn, tv);
            }
        }
        if (g->npend && can_take(c) && below(g->rng_fault, 1 + below(g->rng_fault, 40)) == 0)
        {
            sv = 1;
            record(C_SIG, c->id, 0, (u32)spn, sv);
        }
    }
    if (forced_rr)
    {
        g->since_switch = 0;
        g->quantum = draw_quantum();
        // spinning takes time
        i64 d = next_deadline();
        if (d >= 0)
        {
            advance(1000000);
            expire_timers();
        }
    }
    if (tv)
    {
        g->res->faults[sim::F_STALL]++;
        static const u64 mags[] = {50000ull, 500000ull, 1000000ull, 3000000ull, 10000000ull, 50000000ull, 300000000ull};
        if (tv <= 7)
        {
            advance(mags[tv - 1]);
        }
        else
        {
            i64 d = next_deadline();
            if (d >= 0 && (u64)d > g->now && (u64)d - g->now < 3600000000000ull)
            {
                g->now = (u64)d;
            }
        }
        tracef("[%10.4f] ** T%d(%s) stalled until here", g->now / 1e6, c->id, c->nm);
        H(g->now);
        expire_timers();
    }
    if (sv && g->npend && can_take(c))
    {
        deliver_on(c);
        run_pending_signals(c);
    }
    if (tv || sv || forced_rr)
    {
        n = -1;   // the handler may have run other threads, the time may have woken some
    }
    if (n < 0 && v)
    {
        n = runnable_after(c, cand);
    }
    if (v && n > 0)
    {
        u32 vv = 1 + (v - 1) % n;
        if (!g->replay && g->policy_on && vv != def)
        {
            record(C_SCHED, c->id, 0, (u32)spn, vv);
        }
        g->res->preempts++;
        if (g->tracing)
        {
            tracef("[%10.4f] -- preempt T%d(%s) at its point %llu -> T%d(%s)", g->now / 1e6, c->id, c->nm, (unsigned long long)spn,
                    cand[vv - 1]->id, cand[vv - 1]->nm);
        }
        switch_to(cand[vv - 1]);
    }
    g->want = false;
}

static inline bool on()
{
    return g && g->active && !g->quiet && !g->inrt;
}

static inline void sync_sp()
{
    g->res->syncops++;
    g->now += g->step_cost;
    sp(24);
}

// ------------------------------------------------------------------ sync variables

static SyncVar* rt_new_syncvar()
{
    static SyncVar* pool = nullptr;
    static int left = 0;
    if (left == 0)
    {
        pool = (SyncVar*)mmap(nullptr, sizeof(SyncVar) * 256, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        left = 256;
    }
    left--;
    return pool++;
}

static SyncVar* sv(uptr a, int as)
{
    u32 h = (u32)(mix(a) & (g->tabcap - 1));
    for (;;)
    {
        SyncVar* s = g->tab[h];
        if (!s)
        {
            s = rt_new_syncvar();
            s->addr = a;
            g->tab[h] = s;
            if (a < 65536)
            {
                viol("crash-null", "a lock or another synchronisation object is used through a null pointer");
            }
            if (++g->tabn > g->tabcap / 2)
            {
                viol("harness-error", "too many synchronisation objects");
            }
            s->used_as = (u8)as;
            return s;
        }
        if (s->addr == a)
        {
            return s;
        }
        h = (h + 1) & (g->tabcap - 1);
    }
}
static SyncVar* sv_find(uptr a)
{
    u32 h = (u32)(mix(a) & (g->tabcap - 1));
    for (;;)
    {
        SyncVar* s = g->tab[h];
        if (!s)
        {
            return nullptr;
        }
        if (s->addr == a)
        {
            return s;
        }
        h = (h + 1) & (g->tabcap - 1);
    }
}
static void vc_acquire(const VC& v)
{
    Fiber* c = g->cur;
    for (int i = 0; i < g->nf; i++)
    {
        if (v.c[i] > c->vc[i])
        {
            c->vc[i] = v.c[i];
        }
    }
}
static void vc_release(VC& v, bool join)
{
    Fiber* c = g->cur;
    if (join)
    {
        for (int i = 0; i < g->nf; i++)
        {
            if (c->vc[i] > v.c[i])
            {
                v.c[i] = c->vc[i];
            }
        }
    }
    else
    {
        memcpy(v.c, c->vc, sizeof v.c);
    }
    c->vc[c->id]++;
}
static void enqueue(SyncVar* s, Waiter* w)
{
    s->wq[s->nw++] = w;
}
static void dequeue(SyncVar* s, Waiter* w)
{
    for (int i = 0; i < s->nw; i++)
    {
        if (s->wq[i] == w)
        {
            for (int j = i + 1; j < s->nw; j++)
            {
                s->wq[j - 1] = s->wq[j];
            }
            s->nw--;
            return;
        }
    }
}
//! A waiter whose time is out is not waiting any more: notifications go to the others
static void leave_cond(Waiter* w)
{
    SyncVar* s = sv_find(w->obj);
    if (s)
    {
        dequeue(s, w);
    }
}
static void wake_all(SyncVar* s, int kind)
{
    for (int i = 0; i < s->nw;)
    {
        if (kind < 0 || s->wq[i]->kind == kind)
        {
            Waiter* w = s->wq[i];
            dequeue(s, w);
            wake(w);
        }
        else
        {
            i++;
        }
    }
}

static inline u32 RA(void* p)
{
    return (u32)(uptr)p;
}
static u32 top_pc()
{
    Fiber* c = g->cur;
    return c->csn ? c->cs[c->csn - 1] : 0;
}

static void touch(const void* p, size_t n)
{
    heap_check((uptr)p, n, true, top_pc());
}

// ---- mutex

static bool mutex_lock(uptr a, bool recursive, i64 deadline, int clk, bool try_only, int wk = W_MUTEX)
{
    touch((void*)a, 8);
    SyncVar* m = sv(a, 1);
    Fiber* c = g->cur;
    for (;;)
    {
        if (m->owner == 0)
        {
            m->owner = c->id + 1;
            m->rec = 1;
            m->owner_pc = top_pc();
            break;
        }
        if (m->owner == c->id + 1 && recursive)
        {
            m->rec++;
            return true;
        }
        if (try_only)
        {
            return false;
        }
        Waiter w{};
        w.kind = wk;
        enqueue(m, &w);
        bool to = block(wk, a, deadline, clk, &w);
        dequeue(m, &w);
        touch((void*)a, 8);
        if (to && m->owner != 0)
        {
            return false;
        }
    }
    vc_acquire(m->vc);
    H(0x10 ^ addr_id(a));
    return true;
}
static void mutex_unlock(uptr a)
{
    touch((void*)a, 8);
    SyncVar* m = sv(a, 1);
    Fiber* c = g->cur;
    if (m->owner != c->id + 1)
    {
        viol("mutex-misuse", "thread %d unlocks mutex 0x%llx %s", c->id, (unsigned long long)a,
                m->owner ? "owned by another thread" : "that is not locked");
    }
    if (--m->rec > 0)
    {
        return;
    }
    m->owner = 0;
    vc_release(m->vc, true);
    H(0x11 ^ addr_id(a));
    wake_all(m, -1);
}

static bool is_recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

// ---- fault helper

static u32 fault_val(sim::Fault f, u32 range)
{
    Fiber* c = g->cur;
    u32 idx = ++c->fidx[f];
    u32 v = 0;
    if (g->replay)
    {
        lookup(C_FAULT, c->id, f, idx, v);
    }
    else if (g->policy_on && g->fault_in[f])
    {
        g->res->fault_opps[f]++;
        if (below(g->rng_fault, g->fault_in[f]) == 0)
        {
            v = 1 + below(g->rng_fault, range);
            record(C_FAULT, c->id, f, idx, v);
        }
    }
    if (v)
    {
        g->res->faults[f]++;
        H(0xfa00 + f);
        g->shash = (g->shash ^ (0xfa00 + f + ((u64)idx << 16) + ((u64)c->id << 48))) * 0x9E3779B97F4A7C15ull;
        if (g->tracing)
        {
            static const char* fn[] = {"spurious wake-up", "stall", "wall clock jump", "allocation failure", "thread creation failure",
                                       "async signal", "I/O failure", "EOF", "user code throws"};
            tracef("[%10.4f] ** fault: %s in T%d(%s)", g->now / 1e6, fn[f], c->id, c->nm);
        }
    }
    return v;
}

// ---- condition variables

static int cond_wait(uptr cv, pthread_mutex_t* mu, i64 deadline, int clk)
{
    touch((void*)cv, 8);
    uptr ma = (uptr)mu;
    SyncVar* s = sv(cv, 2);
    SyncVar* m = sv(ma, 1);
    Fiber* c = g->cur;
    if (m->owner != c->id + 1)
    {
        viol("mutex-misuse", "condition variable wait with a mutex the caller does not hold");
    }
    Waiter w{};
    w.kind = W_COND;
    w.mu = ma;
    if (s->nw && s->wq[0]->mu != ma)
    {
        viol("mutex-misuse", "threads wait on one condition variable with different mutexes");
    }
    enqueue(s, &w);
    int rec = m->rec;
    m->rec = 1;
    mutex_unlock(ma);
    bool to = false;
    u32 spur = fault_val(sim::F_SPURIOUS, 1);
    if (spur)
    {
        dequeue(s, &w);
        sync_sp();
    }
    else
    {
        to = block(W_COND, cv, deadline, clk, &w);
        // NOTE: a signalled waiter does not touch the condition variable any more
        if (!w.woken || to)
        {
            SyncVar* s2 = sv_find(cv);
            if (s2)
            {
                dequeue(s2, &w);
            }
        }
    }
    mutex_lock(ma, false, -1, 0, false, W_COND_RELOCK);
    sv(ma, 1)->rec = rec;
    return to ? ETIMEDOUT : 0;
}

static void cond_signal(uptr cv, bool all)
{
    touch((void*)cv, 8);
    SyncVar* s = sv(cv, 2);
    H(0x20 ^ addr_id(cv) ^ all);
    if (g->tracing)
    {
        tracef("[%10.4f] T%d(%s) notifies %s of 0x%llx (%d waiting)", g->now / 1e6, g->cur->id, g->cur->nm, all ? "all" : "one",
                (unsigned long long)cv, s->nw);
    }
    if (all)
    {
        wake_all(s, -1);
        return;
    }
    if (s->nw == 0)
    {
        return;
    }
    u32 v = 0;
    if (s->nw > 1)
    {
        Fiber* c = g->cur;
        u32 idx = ++c->pidx;
        if (g->replay)
        {
            lookup(C_PICK, c->id, 0, idx, v);
            v %= s->nw;
        }
        else if (g->policy_on)
        {
            v = below(g->rng_sched, s->nw);
            if (v)
            {
                record(C_PICK, c->id, 0, idx, v);
            }
        }
    }
    Waiter* w = s->wq[v];
    dequeue(s, w);
    wake(w);
}

// ---- rwlock

static bool rw_lock(uptr a, bool write, i64 deadline, int clk, bool try_only)
{
    touch((void*)a, 8);
    SyncVar* s = sv(a, 3);
    Fiber* c = g->cur;
    for (;;)
    {
        if (write)
        {
            if (!s->writer && !s->nreaders)
            {
                s->writer = c->id + 1;
                break;
            }
        }
        else
        {
            bool wwait = false;
            if (g->writer_pref)
            {
                for (int i = 0; i < s->nw; i++)
                {
                    if (s->wq[i]->kind == W_WRLOCK)
                    {
                        wwait = true;
                    }
                }
            }
            if (!s->writer && !wwait)
            {
                s->nreaders++;
                s->rd[c->id]++;
                break;
            }
        }
        if (try_only)
        {
            return false;
        }
        Waiter w{};
        w.kind = write ? W_WRLOCK : W_RDLOCK;
        enqueue(s, &w);
        bool to = block(w.kind, a, deadline, clk, &w);
        dequeue(s, &w);
        touch((void*)a, 8);
        if (to)
        {
            // a last attempt, as a real timed lock that is granted at its deadline
            if (write ? (!s->writer && !s->nreaders) : !s->writer)
            {
                continue;
            }
            if (write && g->writer_pref)
            {
                wake_all(s, W_RDLOCK);
            }
            return false;
        }
    }
    vc_acquire(s->vc);
    H((write ? 0x30 : 0x31) ^ addr_id(a));
    return true;
}
static void rw_unlock(uptr a)
{
    touch((void*)a, 8);
    SyncVar* s = sv(a, 3);
    Fiber* c = g->cur;
    if (s->writer == c->id + 1)
    {
        s->writer = 0;
    }
    else if (s->rd[c->id])
    {
        s->rd[c->id]--;
        s->nreaders--;
    }
    else if (s->nreaders)
    {
        // released by another thread than the one that acquired it: undefined behaviour
        viol("mutex-misuse", "thread %d releases shared mutex 0x%llx that other threads hold", c->id, (unsigned long long)a);
    }
    else
    {
        viol("mutex-misuse", "thread %d releases shared mutex 0x%llx that is not locked", c->id, (unsigned long long)a);
    }
    vc_release(s->vc, true);
    H(0x32 ^ addr_id(a));
    if (!s->writer && !s->nreaders)
    {
        wake_all(s, -1);
    }
}

// ---- signals

//! First pending signal that the thread does not block
static int next_for(const Fiber* f)
{
    for (int i = 0; i < g->npend; i++)
    {
        if (!(f->sigmask >> g->pend[i].sig & 1))
        {
            return i;
        }
    }
    return -1;
}
static bool can_take(const Fiber* f)
{
    return f->sigdepth == 0 && next_for(f) >= 0;
}
static bool deliver_on(Fiber* f)
{
    int at = next_for(f);
    if (at < 0)
    {
        return false;
    }
    int sig = g->pend[at].sig;
    for (int i = at + 1; i < g->npend; i++)
    {
        g->pend[i - 1] = g->pend[i];
    }
    g->npend--;
    if (f->nsig < 8)
    {
        f->sig_pending[f->nsig++] = sig;
    }
    if (f->state == 2)
    {
        f->state = 1;   // runs its handler, then goes on waiting
    }
    return true;
}
static void run_handler(Fiber* f, int sig)
{
    void (* h)(int) = g->sigh[sig];
    H(0x5160 + sig);
    tracef("[%10.4f] ** signal %d delivered in T%d(%s)%s", g->now / 1e6, sig, f->id, f->nm,
            h == SIG_DFL ? " (default action)" : h == SIG_IGN ? " (ignored)" : "");
    g->res->faults[sim::F_SIGNAL]++;
    g->sig_delivered[sig]++;
    if (h == SIG_IGN)
    {
        return;
    }
    if (h == SIG_DFL || h == nullptr)
    {
        viol("signal-default", "signal %d delivered while no handler is installed: the process would be terminated", sig);
    }
    f->sigdepth++;
    int e = errno;
    int saved = g->quiet;
    u64 mask = f->sigmask;
    f->sigmask |= g->sigh_mask[sig];
    g->quiet = 0;
    h(sig);
    g->quiet = saved;
    f->sigmask = mask;
    errno = e;
    f->sigdepth--;
}
static void run_pending_signals(Fiber* f)
{
    while (f->nsig)
    {
        int s = f->sig_pending[0];
        for (int i = 1; i < f->nsig; i++)
        {
            f->sig_pending[i - 1] = f->sig_pending[i];
        }
        f->nsig--;
        f->state = 1;
        run_handler(f, s);
    }
}

// ------------------------------------------------------------------ heap

static void* sim_alloc(size_t n, size_t align)
{
    if (n == 0)
    {
        n = 1;
    }
    if (g->cur->alloc_faults && !g->quiet)
    {
        if (fault_val(sim::F_ALLOC, 1))
        {
            errno = ENOMEM;
            return nullptr;
        }
    }
    if (align < 16)
    {
        align = 16;
    }
    uptr p = (g->bump + 16 + align - 1) & ~(uptr)(align - 1);
    if (n > HEAP_SIZE / 2 || p + n + 64 > HEAP_BASE + HEAP_SIZE)
    {
        if (n > HEAP_SIZE / 2)
        {
            errno = ENOMEM;
            return nullptr;
        }
        viol("out-of-memory", "the run allocated more than %llu MB", (unsigned long long)(HEAP_SIZE >> 20));
    }
    g->bump = (p + n + 15) & ~15ull;
    u8* s = hstate(p);
    size_t full = n / 8;
    memset(s, 8, full);
    if (n & 7)
    {
        s[full] = (u8)(n & 7);
    }
    Chunk* c = chunk_of(p);
    c->size = (u32)n;
    c->state = 1;
    c->f_alloc = (u8)g->cur->id;
    c->pc_alloc = top_pc();
    g->live++;
    g->live_bytes += n;
    // like a real allocator: recycled memory holds garbage
    memset((void*)p, 0xA5, n);
    return (void*)p;
}

static void sim_free(uptr p)
{
    Chunk* c = chunk_of(p);
    if ((p & 15) || c->state != 1)
    {
        viol(c->state == 2 ? "double-free" : "invalid-free", "free of 0x%llx (block %u bytes, freed before by thread %d pc 0x%x)",
                (unsigned long long)p, c->size, c->f_free, c->pc_free);
    }
    bool track = g->active && !g->quiet && !g->inrt;
    if (track)
    {
        shadow_access(p, c->size, K_WRITE | K_FREE, top_pc());
        // destroying a lock that is held or waited for
        u32 n = c->size;
        if (n <= 65536)
        {
            for (uptr a = p; a + 8 <= p + n; a += 8)
            {
                SyncVar* s = sv_find(a);
                if (s && (s->owner || s->nw || s->writer || s->nreaders))
                {
                    viol("destroyed-in-use", "memory of a %s freed while it is %s (0x%llx)",
                            s->used_as == 2 ? "condition variable" : s->used_as == 3 ? "shared mutex" : "mutex",
                            s->nw ? "waited on" : "held", (unsigned long long)a);
                }
            }
        }
    }
    c->state = 2;
    c->f_free = (u8)g->cur->id;
    c->pc_free = top_pc();
    memset(hstate(p), 0xFD, (c->size + 7) / 8);
    memset((void*)p, 0xDD, c->size);
    g->live--;
    g->live_bytes -= c->size;
}

static bool sim_heap_on()
{
    return g && g->active && !g->inrt;
}

// ------------------------------------------------------------------ fiber body

static void fiber_exit()
{
    Fiber* f = g->cur;
    for (int i = 0; i < 32; i++)
    {
        void* v = (void*)f->spec[i];
        f->spec[i] = nullptr;
        if (v && g->key[i].used && g->key[i].dtor)
        {
            g->key[i].dtor(v);
        }
    }
    while (f->nax)
    {
        AtExit a = f->ax[--f->nax];
        a.fn(a.arg);
    }
    if (g->quiet)
    {
        g->quiet = 0;
    }
    vc_release(sv((uptr)f, 0)->vc, true);
    tracef("[%10.4f] T%d(%s) ends", g->now / 1e6, f->id, f->nm);
    f->state = 3;
    for (int i = 0; i < g->nf; i++)
    {
        Fiber* o = &g->f[i];
        // a joining thread may be running a signal handler right now
        for (Waiter* w = o->state == 3 ? nullptr : o->w; w; w = w->outer)
        {
            if (w->kind == W_JOIN && w->obj == (uptr)f->id)
            {
                wake(w);
            }
        }
    }
    H(0xe0 + f->id);
    resched();
    __builtin_trap();
}

static void fiber_main() noexcept
{
    Fiber* f = g->cur;
    f->ret = f->fn(f->arg);
    fiber_exit();
}

static void* root(void* p)
{
    ((void (*)())p)();
    g->active = false;
    // Threads left behind: the harness joins everything it starts, the code under test must too
    for (int i = 1; i < g->nf; i++)
    {
        if (g->f[i].state != 3 && !g->f[i].detached && !g->leak_ok)
        {
            viol("thread-leak", "thread %d (%s) is still alive and joinable at the end of the run", i, g->f[i].nm);
        }
    }
    finish(1);
    return nullptr;
}

// ------------------------------------------------------------------ run entry

static int phdr_cb(struct dl_phdr_info* info, size_t, void*)
{
    for (int i = 0; i < info->dlpi_phnum; i++)
    {
        const ElfW(Phdr)& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_TLS)
        {
            size_t al = ph.p_align ? ph.p_align : 1;
            size_t sz = (ph.p_memsz + al - 1) & ~(al - 1);
            g->tls_addr = (uptr)__builtin_thread_pointer() - sz;
            g->tls_size = ph.p_memsz;
            g->tls_filesz = ph.p_filesz;
            g->tls_img = (void*)(info->dlpi_addr + ph.p_vaddr);
        }
    }
    return 1;   // only the main executable
}

static void* rsv(uptr base, size_t n)
{
    void* p = mmap((void*)base, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base)
    {
        fprintf(stderr, "simrt: cannot map %p\n", (void*)base);
        _exit(97);
    }
    return p;
}

static void crash_handler(int sig, siginfo_t* si, void* uc)
{
    if (!g || !g->res)
    {
        _exit(98);
    }
    char cls[64];
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS"
            : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "hang" : "signal";
    snprintf(cls, sizeof cls, "crash-%s", n);
    u64 ip = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (sig == SIGALRM)
    {
        _exit(96);      // the machine is stuck: no verdict from this run
    }
    if (sig == SIGPROF)
    {
        if (g->res->done)
        {
            _exit(0);
        }
        viol("hang", "the run made no progress for 10 s of CPU time (a loop without any scheduling point), pc 0x%llx", (unsigned long long)ip);
    }
    viol(cls, "process crashed: %s at address 0x%llx, pc 0x%llx", n, (unsigned long long)(uptr)si->si_addr, (unsigned long long)ip);
}

static void on_terminate()
{
    const char* what = "no active exception";
    char buf[256];
    if (std::exception_ptr e = std::current_exception())
    {
        g->inrt++;
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& ex)
        {
            snprintf(buf, sizeof buf, "%s", ex.what());
            what = buf;
        }
        catch (...)
        {
            what = "exception of unknown type";
        }
    }
    viol("terminate", "std::terminate called: %s", what);
}

[[noreturn]] void run(const RunSpec& spec, Result* res)
{
    g = (G*)mmap(nullptr, sizeof(G), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->res = res;
    res->done = 0;
    res->cls[0] = res->msg[0] = res->desc[0] = 0;
    res->sp = res->switches = res->preempts = res->syncops = res->mem_accesses = res->sim_ns = 0;
    memset(res->faults, 0, sizeof res->faults);
    memset(res->fault_opps, 0, sizeof res->fault_opps);
    res->nprobes = 0;
    res->nchoices = 0;
    res->choices_overflow = 0;
    res->trace_len = 0;
    rsv(HEAP_BASE, HEAP_SIZE);
    rsv(STK_BASE, STK_SIZE * MAXF);
    g->data_lo = (uptr)__data_start & ~7ull;
    g->data_hi = (uptr)_end;
    rsv(SH_BASE, ((HEAP_SIZE + STK_SIZE * MAXF + (g->data_hi - g->data_lo) + 64) >> 3) * sizeof(Gran));
    rsv(HS_BASE, HEAP_SIZE >> 3);
    rsv(CHUNK_BASE, (HEAP_SIZE >> 4) * sizeof(Chunk));
    g->bump = HEAP_BASE + 64;
    g->tabcap = 1 << 15;
    g->tab = (SyncVar**)mmap(nullptr, sizeof(SyncVar*) * g->tabcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->tls_addr = 0;
    dl_iterate_phdr(phdr_cb, nullptr);
    if (g->tls_size > sizeof(g->f[0].tls))
    {
        fprintf(stderr, "simrt: TLS too large %zu\n", g->tls_size);
        _exit(97);
    }
    __libc_single_threaded = 0;
    g->hash = 0xcbf29ce484222325ull;
    g->rng_work = mix(spec.seed ^ 0x1111);
    g->rng_sched = mix(spec.seed ^ 0x2222);
    g->rng_fault = mix(spec.seed ^ 0x3333);
    g->replay = spec.replay;
    g->policy_on = !spec.replay;
    g->tracing = spec.trace;
    g->rc = spec.choices;
    g->nrc = spec.replay ? spec.nchoices : 0;
    g->now = 1000000000ull;                              // the machine has been up for 1 s
    g->wall_off = 1700000000ll * 1000000000ll;
    g->step_cost = 100;
    g->ungot = -1;
    g->tty = true;
    g->width = 80;
    g->nfd = 0;
    g->nfiles = 0;
    g->open_fails = 0;
    memset(g->rfd, 0, sizeof g->rfd);
    g->prio_low = 900;
    g->random_device = 0x12345678;
    if (!spec.replay)
    {
        u32 k = below(g->rng_sched, 100);
        if (k < 30)
        {
            g->policy = 1;
            g->pct_n = 1 + below(g->rng_sched, 6);
            static const int ks[] = {60, 150, 400, 1000, 2500, 6000, 20000};
            int len = ks[below(g->rng_sched, 7)];
            for (int i = 0; i < g->pct_n; i++)
            {
                g->pct_next[i] = 1 + below(g->rng_sched, len);
            }
            for (int i = 0; i < g->pct_n; i++)
            {
                for (int j = i + 1; j < g->pct_n; j++)
                {
                    if (g->pct_next[j] < g->pct_next[i])
                    {
                        i64 t = g->pct_next[i];
                        g->pct_next[i] = g->pct_next[j];
                        g->pct_next[j] = t;
                    }
                }
            }
            g->mean_gap = 1;
        }
        else
        {
            g->policy = 0;
            static const double gaps[] = {4, 12, 30, 60, 120, 250, 500, 1000, 2500, 8000};
            g->mean_gap = gaps[below(g->rng_sched, 10)];
        }
    }
    stack_t ss{};
    ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    typedef int (* sa_t)(int, const struct sigaction*, struct sigaction*);
    static sa_t real_sa = (sa_t)dlsym(RTLD_NEXT, "sigaction");
    struct sigaction sa{};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGPROF})
    {
        real_sa(s, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
    struct itimerval it{};
    it.it_value.tv_sec = 10;
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = 200;
    setitimer(ITIMER_REAL, &it, nullptr);
    for (void* p : {(void*)&std::cout, (void*)&std::cerr, (void*)&std::clog, (void*)&std::cin})
    {
        g->ign[g->nign].a = (uptr)p;
        g->ign[g->nign++].b = (uptr)p + sizeof(std::cout);
    }
    Fiber* f = new_fiber(root, (void*)spec.fn);
    if (g->policy == 1 && g->policy_on)
    {
        f->gap = g->pct_next[0];
    }
    snprintf(f->nm, sizeof f->nm, "main");
    g->cur = f;
    tls_load(f);
    g->active = true;
    void* dummy;
    sim_ctx_switch(&dummy, f->sp);
    __builtin_trap();
}

} // namespace rt

using namespace rt;

// =================================================================== tsan entry points

static inline void mem(uptr a, size_t n, int kind, u32 pc)
{
    if (!g || !g->active || g->quiet || g->inrt)
    {
        return;
    }
    Fiber* c = g->cur;
    uptr so = a - (STK_BASE + STK_SIZE * c->id);
    if (so < STK_SIZE)
    {
        // own stack: not a scheduling point
        shadow_access(a, n, kind, pc);
        return;
    }
    sp(1);
    if (a < 4096)
    {
        viol("crash-SIGSEGV", "null pointer dereference: access to address 0x%llx (pc 0x%x)", (unsigned long long)a, pc);
    }
    heap_check(a, n, kind & K_WRITE, pc);
    shadow_access(a, n, kind, pc);
}

#define PC RA(__builtin_return_address(0))

extern "C" {

void __tsan_init()
{
}
void __tsan_func_entry(void* pc)
{
    if (!g || !g->active || g->inrt)
    {
        return;
    }
    Fiber* c = g->cur;
    if (c->csn < (int)MAX_CS)
    {
        c->cs[c->csn] = (u32)(uptr)__builtin_return_address(0);
    }
    c->csn++;
    (void)pc;
}
void __tsan_func_exit()
{
    if (!g || !g->active || g->inrt)
    {
        return;
    }
    if (g->cur->csn > 0)
    {
        g->cur->csn--;
    }
}
#define RW(n) \
    void __tsan_read ## n(void* a) { mem((uptr)a, n, K_READ, PC); } \
    void __tsan_write ## n(void* a) { mem((uptr)a, n, K_WRITE, PC); } \
    void __tsan_unaligned_read ## n(void* a) { mem((uptr)a, n, K_READ, PC); } \
    void __tsan_unaligned_write ## n(void* a) { mem((uptr)a, n, K_WRITE, PC); } \
    void __tsan_volatile_read ## n(void* a) { mem((uptr)a, n, K_READ, PC); } \
    void __tsan_volatile_write ## n(void* a) { mem((uptr)a, n, K_WRITE, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n)
{
    if (n)
    {
        mem((uptr)a, n, K_READ, PC);
    }
}
void __tsan_write_range(void* a, size_t n)
{
    if (n)
    {
        mem((uptr)a, n, K_WRITE, PC);
    }
}
void __tsan_vptr_update(void** vp, void* nv)
{
    // A virtual table pointer changing while another thread is inside a virtual call is only reported through what it
    // makes the program do (the scheduler may switch here): whether a race is reported would otherwise depend on which internal calls happen to be virtual.
    if (g && g->active && *vp != nv)
    {
        mem((uptr)vp, 8, K_READ, PC);
    }
}
void __tsan_vptr_read(void** vp)
{
    mem((uptr)vp, 8, K_READ, PC);
}

} // extern C

// atomics

static inline bool acq(int mo)
{
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
static inline bool rel(int mo)
{
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static inline bool at_pre(uptr a, size_t n, bool write, u32 pc)
{
    if (!on())
    {
        return false;
    }
    sync_sp();
    if (a < 4096)
    {
        viol("crash-SIGSEGV", "null pointer dereference: atomic access to address 0x%llx (pc 0x%x)", (unsigned long long)a, pc);
    }
    heap_check(a, n, write, pc);
    shadow_access(a, n, (write ? K_WRITE : K_READ) | K_ATOMIC, pc);
    H(0x40 ^ addr_id(a) ^ ((u64)write << 50));
    return true;
}
static inline void at_acq(uptr a, int mo)
{
    if (acq(mo))
    {
        SyncVar* s = sv_find(a);
        if (s)
        {
            vc_acquire(s->vc);
        }
    }
}
static inline void at_rel(uptr a, int mo, bool join)
{
    if (rel(mo))
    {
        vc_release(sv(a, 5)->vc, join);
    }
}

template <typename T, typename F>
static inline T at_rmw(volatile T* a, int mo, u32 pc, F f)
{
    bool o = at_pre((uptr)a, sizeof(T), true, pc);
    T old = *a;
    *a = f(old);
    if (o)
    {
        at_acq((uptr)a, mo);
        at_rel((uptr)a, mo, true);
    }
    return old;
}
template <typename T>
static inline bool at_cas(volatile T* a, T* e, T v, int mo, int fmo, u32 pc)
{
    bool o = at_pre((uptr)a, sizeof(T), true, pc);
    T old = *a;
    if (old == *e)
    {
        *a = v;
        if (o)
        {
            at_acq((uptr)a, mo);
            at_rel((uptr)a, mo, true);
        }
        return true;
    }
    if (o)
    {
        at_acq((uptr)a, fmo);
    }
    *e = old;
    return false;
}

#define AT(bits, T) \
    extern "C" T __tsan_atomic ## bits ## _load(const volatile T* a, int mo) { \
        bool o = at_pre((uptr)a, sizeof(T), false, PC); T v = *a; if (o) { at_acq((uptr)a, mo); } return v; } \
    extern "C" void __tsan_atomic ## bits ## _store(volatile T* a, T v, int mo) { \
        bool o = at_pre((uptr)a, sizeof(T), true, PC); *a = v; if (o) { at_rel((uptr)a, mo, false); } } \
    extern "C" T __tsan_atomic ## bits ## _exchange(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T) { return v; }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_add(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_sub(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_and(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_or(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_xor(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
    extern "C" T __tsan_atomic ## bits ## _fetch_nand(volatile T* a, T v, int mo) { return at_rmw<T>(a, mo, PC, [v](T o) { return (T) ~(o & v); }); } \
    extern "C" bool __tsan_atomic ## bits ## _compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return at_cas<T>(a, e, v, mo, fmo, PC); } \
    extern "C" bool __tsan_atomic ## bits ## _compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return at_cas<T>(a, e, v, mo, fmo, PC); } \
    extern "C" T __tsan_atomic ## bits ## _compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { T x = e; at_cas<T>(a, &x, v, mo, fmo, PC); return x; }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)

static uint64_t fence_var;
extern "C" void __tsan_atomic_thread_fence(int mo)
{
    if (on())
    {
        sync_sp();
        at_acq((uptr)&fence_var, mo);
        at_rel((uptr)&fence_var, mo, true);
    }
}
extern "C" void __tsan_atomic_signal_fence(int)
{
}

// =================================================================== pthread

extern "C" {

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at)
{
    memset(m, 0, sizeof *m);
    if (at)
    {
        int k = 0;
        pthread_mutexattr_gettype(at, &k);
        m->__data.__kind = k;
    }
    if (g && g->active)
    {
        SyncVar* s = sv_find((uptr)m);
        if (s)
        {
            s->owner = 0;
            s->nw = 0;
        }
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (on())
    {
        SyncVar* s = sv_find((uptr)m);
        if (s && s->owner)
        {
            viol("destroyed-in-use", "mutex destroyed while held by thread %d", s->owner - 1);
        }
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g || !g->active || g->inrt)
    {
        return 0;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    mutex_lock((uptr)m, is_recursive(m), -1, 0, false);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g || !g->active || g->inrt)
    {
        return 0;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    return mutex_lock((uptr)m, is_recursive(m), -1, 0, true) ? 0 : EBUSY;
}
static i64 ts_ns(const struct timespec* t)
{
    // saturate: "the end of time"
    if (t->tv_sec > 9000000000ll)
    {
        return INT64_MAX;
    }
    i64 v = (i64)t->tv_sec * 1000000000ll + t->tv_nsec;
    return v < 0 ? 0 : v;
}
static int mutex_timed(pthread_mutex_t* m, int clk, const struct timespec* t)
{
    sync_sp();
    return mutex_lock((uptr)m, is_recursive(m), ts_ns(t), clk, false) ? 0 : ETIMEDOUT;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
    return mutex_timed(m, 1, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
    return mutex_timed(m, c == CLOCK_REALTIME, t);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g || !g->active || g->inrt)
    {
        return 0;
    }
    mutex_unlock((uptr)m);
    if (!g->quiet)
    {
        sync_sp();
    }
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (on())
    {
        touch(c, 8);
        SyncVar* s = sv_find((uptr)c);
        if (s && s->nw)
        {
            viol("destroyed-in-use", "condition variable 0x%llx destroyed while thread %d waits on it", (unsigned long long)(uptr)c,
                    s->wq[0]->f->id);
        }
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (g && g->active && !g->inrt)
    {
        if (!g->quiet)
        {
            sync_sp();
        }
        cond_signal((uptr)c, false);
        if (!g->quiet)
        {
            sync_sp();
        }
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (g && g->active && !g->inrt)
    {
        if (!g->quiet)
        {
            sync_sp();
        }
        cond_signal((uptr)c, true);
        if (!g->quiet)
        {
            sync_sp();
        }
    }
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    sync_sp();
    return cond_wait((uptr)c, m, -1, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    sync_sp();
    wall_jump_fault();
    return cond_wait((uptr)c, m, ts_ns(t), 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    sync_sp();
    wall_jump_fault();
    return cond_wait((uptr)c, m, ts_ns(t), k == CLOCK_REALTIME);
}

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    if (on())
    {
        SyncVar* s = sv_find((uptr)l);
        if (s && (s->writer || s->nreaders || s->nw))
        {
            viol("destroyed-in-use", "shared mutex destroyed while in use");
        }
    }
    return 0;
}
static int rw(pthread_rwlock_t* l, bool w, i64 dl, int clk, bool t, int err)
{
    if (!g || !g->active || g->inrt)
    {
        return 0;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    return rw_lock((uptr)l, w, dl, clk, t) ? 0 : err;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    return rw(l, false, -1, 0, false, 0);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    return rw(l, true, -1, 0, false, 0);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    return rw(l, false, -1, 0, true, EBUSY);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    return rw(l, true, -1, 0, true, EBUSY);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* t)
{
    return rw(l, false, ts_ns(t), 1, false, ETIMEDOUT);
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* t)
{
    return rw(l, true, ts_ns(t), 1, false, ETIMEDOUT);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t)
{
    return rw(l, false, ts_ns(t), c == CLOCK_REALTIME, false, ETIMEDOUT);
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* t)
{
    return rw(l, true, ts_ns(t), c == CLOCK_REALTIME, false, ETIMEDOUT);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!g || !g->active || g->inrt)
    {
        return 0;
    }
    rw_unlock((uptr)l);
    if (!g->quiet)
    {
        sync_sp();
    }
    return 0;
}

int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!g || !g->active)
    {
        return EAGAIN;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    if (fault_val(sim::F_THREAD, 1))
    {
        return EAGAIN;
    }
    Fiber* f = new_fiber(fn, arg);
    if (!f)
    {
        viol("harness-error", "too many simulated threads");
    }
    memcpy(f->vc, g->cur->vc, sizeof f->vc);
    f->sigmask = g->cur->sigmask;
    f->vc[f->id] = 1;
    g->cur->vc[g->cur->id]++;
    *t = (pthread_t)(0x1000 + f->id);
    int det = 0;
    if (at && !pthread_attr_getdetachstate(at, &det) && det == PTHREAD_CREATE_DETACHED)
    {
        f->detached = true;
    }
    H(0x70 + f->id);
    tracef("[%10.4f] T%d(%s) starts thread T%d", g->now / 1e6, g->cur->id, g->cur->nm, f->id);
    g->want = true;
    if (!g->quiet)
    {
        sync_sp();
    }
    return 0;
}
static Fiber* fib(pthread_t t)
{
    u64 i = (u64)t - 0x1000;
    if (i >= (u64)g->nf)
    {
        viol("thread-misuse", "unknown thread handle");
    }
    return &g->f[i];
}
int pthread_join(pthread_t t, void** r)
{
    Fiber* f = fib(t);
    sync_sp();
    if (f == g->cur)
    {
        return EDEADLK;
    }
    if (f->detached || f->joined)
    {
        viol("thread-misuse", "join of a thread that is not joinable");
    }
    if (f->state != 3)
    {
        Waiter w{};
        block(W_JOIN, (uptr)f->id, -1, 0, &w);
    }
    f->joined = true;
    f->detached = true;
    vc_acquire(sv((uptr)f, 0)->vc);
    if (r)
    {
        *r = f->ret;
    }
    return 0;
}
int pthread_detach(pthread_t t)
{
    fib(t)->detached = true;
    return 0;
}
int pthread_setname_np(pthread_t, const char*) noexcept
{
    return 0;
}
int pthread_getname_np(pthread_t, char* buf, size_t n) noexcept
{
    if (n)
    {
        buf[0] = 0;
    }
    return 0;
}
int pthread_setschedparam(pthread_t, int, const struct sched_param*) noexcept
{
    return 0;
}
int pthread_getschedparam(pthread_t, int* policy, struct sched_param* p) noexcept
{
    *policy = SCHED_OTHER;
    memset(p, 0, sizeof *p);
    return 0;
}
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) noexcept
{
    return 0;
}
int pthread_key_create(pthread_key_t* k, void (* d)(void*)) noexcept
{
    if (!g || !g->active)
    {
        typedef int (* real_t)(pthread_key_t*, void (*)(void*));
        return ((real_t)dlsym(RTLD_NEXT, "pthread_key_create"))(k, d);
    }
    for (u32 i = 0; i < 32; i++)
    {
        if (!g->key[i].used)
        {
            g->key[i] = {true, d};
            for (auto& f : g->f)
            {
                f.spec[i] = nullptr;
            }
            *k = KEY_BASE + i;
            return 0;
        }
    }
    return EAGAIN;
}
static bool sim_key(pthread_key_t k)
{
    return g && g->active && k - KEY_BASE < 32 && g->key[k - KEY_BASE].used;
}
int pthread_key_delete(pthread_key_t k) noexcept
{
    if (sim_key(k))
    {
        g->key[k - KEY_BASE].used = false;
        return 0;
    }
    typedef int (* real_t)(pthread_key_t);
    return ((real_t)dlsym(RTLD_NEXT, "pthread_key_delete"))(k);
}
void* pthread_getspecific(pthread_key_t k) noexcept
{
    if (sim_key(k))
    {
        return (void*)g->cur->spec[k - KEY_BASE];
    }
    typedef void* (* real_t)(pthread_key_t);
    return ((real_t)dlsym(RTLD_NEXT, "pthread_getspecific"))(k);
}
int pthread_setspecific(pthread_key_t k, const void* v) noexcept
{
    if (sim_key(k))
    {
        g->cur->spec[k - KEY_BASE] = v;
        return 0;
    }
    typedef int (* real_t)(pthread_key_t, const void*);
    return ((real_t)dlsym(RTLD_NEXT, "pthread_setspecific"))(k, v);
}
pthread_t pthread_self()
{
    if (!g || !g->active)
    {
        return (pthread_t)0x1000;
    }
    return (pthread_t)(0x1000 + g->cur->id);
}
int pthread_once(pthread_once_t* o, void (* fn)())
{
    if (!g || !g->active || g->inrt)
    {
        if (!*o)
        {
            *o = 2;
            fn();
        }
        return 0;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    SyncVar* s = sv((uptr)o, 4);
    for (;;)
    {
        if (*o == 2)
        {
            vc_acquire(s->vc);
            return 0;
        }
        if (s->once == 0)
        {
            break;
        }
        Waiter w{};
        w.kind = W_ONCE;
        enqueue(s, &w);
        block(W_ONCE, (uptr)o, -1, 0, &w);
        dequeue(s, &w);
    }
    s->once = 1;
    struct Undo
    {
        SyncVar* s;
        bool ok;
        ~Undo()
        {
            s->once = 0;
            wake_all(s, -1);
        }
    } u{s, false};
    fn();
    *o = 2;
    vc_release(s->vc, true);
    return 0;
}
int sched_yield()
{
    if (on())
    {
        g->now += g->step_cost;
        g->yielded = true;
        if (++g->yields % 50 == 0)
        {
            g->since_switch = g->quantum;   // a loop that only yields takes time as well
        }
        sp(24);
    }
    return 0;
}

// static local initialisation
int __cxa_guard_acquire(long long int* gd)
{
    char* b = (char*)gd;
    if (!g || !g->active || g->inrt)
    {
        return *b == 0;
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    SyncVar* s = sv((uptr)gd, 4);
    for (;;)
    {
        if (*b)
        {
            vc_acquire(s->vc);
            return 0;
        }
        if (s->once == 0)
        {
            s->once = g->cur->id + 1;
            return 1;
        }
        if (s->once == g->cur->id + 1)
        {
            viol("deadlock", "recursive initialisation of a static local");
        }
        Waiter w{};
        w.kind = W_ONCE;
        enqueue(s, &w);
        block(W_ONCE, (uptr)gd, -1, 0, &w);
        dequeue(s, &w);
    }
}
void __cxa_guard_release(long long int* gd)
{
    *(char*)gd = 1;
    if (!g || !g->active || g->inrt)
    {
        return;
    }
    SyncVar* s = sv((uptr)gd, 4);
    s->once = 0;
    vc_release(s->vc, true);
    wake_all(s, -1);
    if (!g->quiet)
    {
        sync_sp();
    }
}
void __cxa_guard_abort(long long int* gd)
{
    if (!g || !g->active || g->inrt)
    {
        return;
    }
    SyncVar* s = sv((uptr)gd, 4);
    s->once = 0;
    wake_all(s, -1);
}
// Destructors of statics built during the run, so that the end of the process can be simulated (see run_exit_handlers)
struct ExitHandler
{
    void (* fn)(void*);
    void* arg;
};
static ExitHandler g_exit[256];
static int g_nexit;
int __cxa_atexit(void (* fn)(void*), void* arg, void* dso)
{
    if (g && g->active)
    {
        if (g_nexit < 256)
        {
            g_exit[g_nexit++] = {fn, arg};
        }
        return 0;
    }
    using real_t = int (*)(void (*)(void*), void*, void*);
    static real_t real = (real_t)dlsym(RTLD_NEXT, "__cxa_atexit");
    return real ? real(fn, arg, dso) : 0;
}
int __cxa_thread_atexit(void (* fn)(void*), void* arg, void*)
{
    if (g && g->active)
    {
        Fiber* f = g->cur;
        if (f->nax < 16)
        {
            f->ax[f->nax++] = {fn, arg};
        }
    }
    return 0;
}

// futex (std::future, std::atomic::wait)
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a1 = va_arg(ap, long), a2 = va_arg(ap, long), a3 = va_arg(ap, long), a4 = va_arg(ap, long), a5 = va_arg(ap, long), a6 =
            va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g && g->active && !g->inrt)
    {
        int op = (int)a2 & 127;
        bool rt_clock = a2 & FUTEX_CLOCK_REALTIME;
        sync_sp();
        bool wait = op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET;
        if (wait)
        {
            heap_check((uptr)a1, 4, false, top_pc());   // waking only uses the address, it may be gone (std::promise relies on it)
        }
        SyncVar* s = wait ? sv((uptr)a1, 6) : sv_find((uptr)a1);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            if (*(volatile u32*)a1 != (u32)a3)
            {
                errno = EAGAIN;
                return -1;
            }
            i64 dl = -1;
            if (a4)
            {
                dl = ts_ns((const struct timespec*)a4);
                if (op == FUTEX_WAIT)
                {
                    dl += g->now;
                }
            }
            Waiter w{};
            w.kind = W_FUTEX;
            enqueue(s, &w);
            bool to = block(W_FUTEX, (uptr)a1, dl, op == FUTEX_WAIT_BITSET && rt_clock, &w);
            dequeue(s, &w);
            if (to)
            {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            int k = 0;
            while (s && s->nw && k < (int)a3 && s->wq[0]->kind == W_FUTEX)
            {
                Waiter* w = s->wq[0];
                dequeue(s, w);
                wake(w);
                k++;
            }
            sync_sp();
            return k;
        }
    }
    long ret;
    register long r10 __asm__("r10") = a4;
    register long r8 __asm__("r8") = a5;
    register long r9 __asm__("r9") = a6;
    __asm__ volatile ("syscall" : "=a"(ret) : "a"(n), "D"(a1), "S"(a2), "d"(a3), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096)
    {
        errno = (int)-ret;
        return -1;
    }
    return ret;
}

// =================================================================== time

static void read_clock()
{
    if (!g->quiet && !g->inrt)
    {
        sync_sp();
        wall_jump_fault();
        g->now += g->step_cost;
    }
}
int clock_gettime(clockid_t c, struct timespec* t)
{
    if (!g || !g->active)
    {
        return (int)syscall(SYS_clock_gettime, c, t, 0, 0, 0, 0);
    }
    read_clock();
    i64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? (i64)g->now + g->wall_off : (i64)g->now;
    t->tv_sec = v / 1000000000;
    t->tv_nsec = v % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* t, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    t->tv_sec = ts.tv_sec;
    t->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
    {
        *p = ts.tv_sec;
    }
    return ts.tv_sec;
}
static void do_sleep(i64 deadline, int clk)
{
    Waiter w{};
    sync_sp();
    block(W_SLEEP, 0, deadline, clk, &w);
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (!g || !g->active)
    {
        return (int)syscall(SYS_nanosleep, t, rem, 0, 0, 0, 0);
    }
    do_sleep((i64)g->now + ts_ns(t), 0);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec*)
{
    if (flags & TIMER_ABSTIME)
    {
        do_sleep(ts_ns(t), c == CLOCK_REALTIME);
    }
    else
    {
        do_sleep((i64)g->now + ts_ns(t), 0);
    }
    return 0;
}
int usleep(useconds_t u)
{
    do_sleep((i64)g->now + (i64)u * 1000, 0);
    return 0;
}
unsigned sleep(unsigned s)
{
    do_sleep((i64)g->now + (i64)s * 1000000000ll, 0);
    return 0;
}

// =================================================================== heap

void* malloc(size_t n)
{
    if (!sim_heap_on())
    {
        return __libc_malloc(n);
    }
    return sim_alloc(n, 16);
}
void free(void* p)
{
    if (!p)
    {
        return;
    }
    if (in_heap((uptr)p))
    {
        if (g)
        {
            if (g->inrt || !g->active)
            {
                return;
            }
            sim_free((uptr)p);
        }
        return;
    }
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (!sim_heap_on())
    {
        return __libc_calloc(a, b);
    }
    void* p = sim_alloc(a * b, 16);
    if (p)
    {
        memset(p, 0, a * b);
    }
    return p;
}
void* realloc(void* p, size_t n)
{
    if (p && !in_heap((uptr)p))
    {
        return __libc_realloc(p, n);
    }
    if (!sim_heap_on() && !p)
    {
        return __libc_realloc(p, n);
    }
    if (!p)
    {
        return sim_alloc(n, 16);
    }
    Chunk* c = chunk_of((uptr)p);
    void* q = sim_alloc(n, 16);
    if (!q)
    {
        return nullptr;
    }
    memcpy(q, p, n < c->size ? n : c->size);
    sim_free((uptr)p);
    return q;
}
void* memalign(size_t al, size_t n)
{
    if (!sim_heap_on())
    {
        return __libc_memalign(al, n);
    }
    return sim_alloc(n, al);
}
void* aligned_alloc(size_t al, size_t n)
{
    return memalign(al, n);
}
int posix_memalign(void** p, size_t al, size_t n)
{
    *p = memalign(al, n);
    return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p)
{
    if (p && in_heap((uptr)p))
    {
        return chunk_of((uptr)p)->size;
    }
    return 0;
}

// =================================================================== random device

unsigned int __wrap__ZNSt13random_device9_M_getvalEv(void*)
{
    if (g && g->active)
    {
        g->random_device = (u32)mix(g->random_device);
        return g->random_device;
    }
    return 4;
}

// =================================================================== signals

typedef void (* sigh_t)(int);
sigh_t signal(int s, sigh_t h)
{
    if (!g || !g->active)
    {
        typedef sigh_t (* real_t)(int, sigh_t);
        return ((real_t)dlsym(RTLD_NEXT, "signal"))(s, h);
    }
    if (!g->quiet)
    {
        sync_sp();
    }
    sigh_t o = g->sigh[s];
    g->sigh[s] = h;
    H(0x5100 + s);
    tracef("[%10.4f] T%d(%s) %s handler of signal %d", g->now / 1e6, g->cur->id, g->cur->nm, h == SIG_DFL ? "removes" : "installs", s);
    return o;
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o)
{
    if (!g || !g->active)
    {
        typedef int (* real_t)(int, const struct sigaction*, struct sigaction*);
        return ((real_t)dlsym(RTLD_NEXT, "sigaction"))(s, a, o);
    }
    if (o)
    {
        memset(o, 0, sizeof *o);
        o->sa_handler = g->sigh[s];
    }
    if (a)
    {
        signal(s, a->sa_handler);
        memcpy(&g->sigh_mask[s], &a->sa_mask, 8);
        g->sigh_mask[s] <<= 1;
    }
    return 0;
}
int pthread_sigmask(int how, const sigset_t* set, sigset_t* old)
{
    if (!g || !g->active)
    {
        typedef int (* real_t)(int, const sigset_t*, sigset_t*);
        return ((real_t)dlsym(RTLD_NEXT, "pthread_sigmask"))(how, set, old);
    }
    u64& m = g->cur->sigmask;    // bit n is signal n; a sigset_t has it at n-1
    if (old)
    {
        memset(old, 0, sizeof *old);
        u64 v = m >> 1;
        memcpy(old, &v, 8);
    }
    if (set)
    {
        if (how != SIG_BLOCK && how != SIG_UNBLOCK && how != SIG_SETMASK)
        {
            return EINVAL;
        }
        u64 v;
        memcpy(&v, set, 8);
        v <<= 1;
        v &= ~((u64)1 << SIGKILL | (u64)1 << SIGSTOP);
        m = how == SIG_BLOCK ? m | v : how == SIG_UNBLOCK ? m & ~v : v;
        H(0x5300 ^ m);
        if (!g->quiet)
        {
            sync_sp();
        }
    }
    return 0;
}
int sigprocmask(int how, const sigset_t* set, sigset_t* old) noexcept
{
    int e = pthread_sigmask(how, set, old);
    if (e)
    {
        errno = e;
        return -1;
    }
    return 0;
}
int raise(int s)
{
    if (!g || !g->active)
    {
        typedef int (* real_t)(int);
        return ((real_t)dlsym(RTLD_NEXT, "raise"))(s);
    }
    sync_sp();
    run_handler(g->cur, s);
    return 0;
}
int kill(pid_t p, int s)
{
    if (!g || !g->active)
    {
        typedef int (* real_t)(pid_t, int);
        return ((real_t)dlsym(RTLD_NEXT, "kill"))(p, s);
    }
    viol("containment", "the code under test called kill(%d, %d)", (int)p, s);
}

// =================================================================== stdin and terminal

static struct termios* term()
{
    if (!g->term_set)
    {
        g->term_set = true;
        memset(&g->term, 0, sizeof g->term);
        g->term.c_iflag = ICRNL | IXON;
        g->term.c_oflag = OPOST | ONLCR;
        g->term.c_cflag = CS8 | CREAD;
        g->term.c_lflag = ICANON | ECHO | ISIG | IEXTEN | ECHOE;
        g->term.c_cc[VMIN] = 1;
        g->term.c_cc[VINTR] = 3;
        g->term.c_cc[VEOF] = 4;
        g->term.c_cc[VERASE] = 127;
    }
    return &g->term;
}
static tcflag_t lflag()
{
    return term()->c_lflag;
}
//! Something to read: with a terminal in its line mode, only whole lines
static bool in_ready()
{
    if (g->in_r == g->in_w)
    {
        return false;
    }
    if (!g->tty || !(lflag() & ICANON) || g->in_eof)
    {
        return true;
    }
    for (u32 i = g->in_r; i != g->in_w; i++)
    {
        if (g->in[i % sizeof g->in] == '\n')
        {
            return true;
        }
    }
    return false;
}
//! Something a poll may be waiting for has changed
static void io_changed()
{
    if (SyncVar* s = sv_find((uptr)&g->in_use))
    {
        wake_all(s, W_POLL);
    }
}
static int sim_getc(bool nonblock = false)
{
    if (g->ungot >= 0)
    {
        int c = g->ungot;
        g->ungot = -1;
        return c;
    }
    sync_sp();
    for (;;)
    {
        if (in_ready())
        {
            unsigned char ch = (unsigned char)g->in[g->in_r % sizeof g->in];
            g->in_r++;
            H(0x80 ^ ((u64)ch << 8));
            if (g->tty && (lflag() & ISIG) && ch == 3)
            {
                if (g->sigh[SIGINT] == SIG_DFL)
                {
                    viol("terminate", "Ctrl+C kills the process: the terminal still makes signals of keys");
                }
                sim::post_signal(SIGINT);
                continue;
            }
            if (g->tty && (lflag() & ECHO) && g->echo)
            {
                sim::Quiet q;
                g->echo((char)ch);
            }
            return ch;
        }
        if (g->in_eof)
        {
            g->in_after_eof++;
            H(0x81);
            if (g->in_after_eof == 1)
            {
                g->res->faults[sim::F_EOF]++;
            }
            return EOF;
        }
        if (nonblock)
        {
            return EOF - 1;
        }
        SyncVar* s = sv((uptr)&g->in, 6);
        Waiter w{};
        w.kind = W_STDIN;
        enqueue(s, &w);
        block(W_STDIN, 0, -1, 0, &w);
        dequeue(s, &w);
    }
}
//! getc on the standard input of the simulation
static int stdin_getc()
{
    int c = sim_getc(g->in_nb);
    g->in_feof = g->in_feof || c == EOF;
    if (c < EOF)
    {
        errno = EAGAIN;
        return EOF;
    }
    return c;
}
char* fgets(char* b, int n, FILE* f)
{
    if (!g || !g->active || f != stdin)
    {
        typedef char* (* real_t)(char*, int, FILE*);
        return ((real_t)dlsym(RTLD_NEXT, "fgets"))(b, n, f);
    }
    int k = 0;
    while (k < n - 1)
    {
        int c = stdin_getc();
        if (c == EOF)
        {
            break;
        }
        b[k++] = (char)c;
        if (c == '\n')
        {
            break;
        }
    }
    if (!k)
    {
        return nullptr;
    }
    b[k] = 0;
    return b;
}
size_t fread(void* b, size_t z, size_t n, FILE* f)
{
    if (!g || !g->active || f != stdin)
    {
        typedef size_t (* real_t)(void*, size_t, size_t, FILE*);
        return ((real_t)dlsym(RTLD_NEXT, "fread"))(b, z, n, f);
    }
    size_t k = 0;
    for (; k < z * n; k++)
    {
        int c = stdin_getc();
        if (c == EOF)
        {
            break;
        }
        ((char*)b)[k] = (char)c;
    }
    return z ? k / z : 0;
}
ssize_t getdelim(char** b, size_t* cap, int d, FILE* f)
{
    if (!g || !g->active || f != stdin)
    {
        typedef ssize_t (* real_t)(char**, size_t*, int, FILE*);
        return ((real_t)dlsym(RTLD_NEXT, "getdelim"))(b, cap, d, f);
    }
    size_t k = 0;
    for (;;)
    {
        int c = stdin_getc();
        if (c == EOF && !k)
        {
            return -1;
        }
        if (!*b || k + 2 > *cap)
        {
            *cap = k + 120;
            *b = (char*)realloc(*b, *cap);
        }
        if (c == EOF)
        {
            break;
        }
        (*b)[k++] = (char)c;
        if (c == d)
        {
            break;
        }
    }
    (*b)[k] = 0;
    return (ssize_t)k;
}
ssize_t getline(char** b, size_t* cap, FILE* f)
{
    return getdelim(b, cap, '\n', f);
}
int feof(FILE* f) noexcept
{
    if (!g || !g->active || f != stdin)
    {
        typedef int (* real_t)(FILE*);
        return ((real_t)dlsym(RTLD_NEXT, "feof"))(f);
    }
    return g->in_feof;
}
int feof_unlocked(FILE* f) noexcept
{
    return feof(f);
}
void clearerr(FILE* f) noexcept
{
    if (!g || !g->active || f != stdin)
    {
        typedef void (* real_t)(FILE*);
        ((real_t)dlsym(RTLD_NEXT, "clearerr"))(f);
        return;
    }
    g->in_feof = false;
}
int getchar()
{
    return g && g->active ? stdin_getc() : getc_unlocked(stdin);
}
int getc(FILE* f)
{
    if (g && g->active && f == stdin)
    {
        return stdin_getc();
    }
    return getc_unlocked(f);
}
int fgetc(FILE* f)
{
    return getc(f);
}
int getchar_unlocked()
{
    return getchar();
}
int ungetc(int c, FILE* f)
{
    if (g && g->active && f == stdin)
    {
        g->ungot = c;
        return c;
    }
    typedef int (* real_t)(int, FILE*);
    return ((real_t)dlsym(RTLD_NEXT, "ungetc"))(c, f);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (g && g->active && req == TIOCGWINSZ)
    {
        if (!g->tty)
        {
            errno = ENOTTY;
            return -1;
        }
        struct winsize* w = (struct winsize*)arg;
        memset(w, 0, sizeof *w);
        w->ws_row = 24;
        w->ws_col = (unsigned short)g->width;
        return 0;
    }
    return (int)syscall(SYS_ioctl, (long)fd, (long)req, (long)arg, 0L, 0L, 0L);
}
int tcgetattr(int fd, struct termios* t)
{
    if (g && g->active)
    {
        if (!g->tty)
        {
            errno = ENOTTY;
            return -1;
        }
        memcpy(t, term(), sizeof *t);
        return 0;
    }
    typedef int (* real_t)(int, struct termios*);
    return ((real_t)dlsym(RTLD_NEXT, "tcgetattr"))(fd, t);
}
int tcsetattr(int fd, int how, const struct termios* t)
{
    if (g && g->active)
    {
        if (!g->tty)
        {
            errno = ENOTTY;
            return -1;
        }
        struct termios first;
        memcpy(&first, term(), sizeof first);
        if (!g->term_changed)
        {
            g->term_changed = true;
            memcpy(&g->term0, &first, sizeof first);
        }
        memcpy(&g->term, t, sizeof g->term);
        g->raw = memcmp(&g->term, &g->term0, sizeof g->term) != 0;
        if (how == TCSAFLUSH)
        {
            g->in_r = g->in_w;
        }
        H(0x90 + g->raw);
        wake_all(sv((uptr)&g->in, 6), -1);
    io_changed();
        return 0;
    }
    typedef int (* real_t)(int, int, const struct termios*);
    return ((real_t)dlsym(RTLD_NEXT, "tcsetattr"))(fd, how, t);
}
int isatty(int fd)
{
    if (g && g->active)
    {
        return g->tty;
    }
    struct termios t;
    return tcgetattr(fd, &t) == 0;
}

// =================================================================== inotify

static constexpr int FD_BASE = 700;

int inotify_init1(int flags)
{
    if (!g || !g->active)
    {
        errno = ENOSYS;
        return -1;
    }
    sync_sp();
    if (g->fail_init || fault_val(sim::F_IO, 1))
    {
        errno = EMFILE;
        return -1;
    }
    if (g->nfd >= 32)
    {
        errno = EMFILE;
        return -1;
    }
    g->fdopen[g->nfd] = true;
    g->fdnb[g->nfd] = flags & IN_NONBLOCK;
    return FD_BASE + g->nfd++;
}
int inotify_init()
{
    return inotify_init1(0);
}
static bool sim_fd(int fd)
{
    return g && g->active && fd >= FD_BASE && fd < FD_BASE + 32;
}
int inotify_add_watch(int fd, const char* path, uint32_t mask)
{
    if (!sim_fd(fd) || !g->fdopen[fd - FD_BASE])
    {
        errno = EBADF;
        return -1;
    }
    sync_sp();
    if (g->fail_watch || fault_val(sim::F_IO, 1))
    {
        errno = ENOSPC;
        return -1;
    }
    if (g->nwatch >= 16)
    {
        errno = ENOSPC;
        return -1;
    }
    auto& w = g->watch[g->nwatch];
    w.fd = fd;
    w.wd = ++g->nwatch;
    w.mask = mask;
    w.live = true;
    snprintf(w.path, sizeof w.path, "%s", path);
    tracef("[%10.4f] T%d(%s) watches directory %s", g->now / 1e6, g->cur->id, g->cur->nm, path);
    return w.wd;
}
static void push_ev(int fd, int wd, u32 mask, const char* name)
{
    auto& e = g->evq[g->evw++ % 2048];
    e.fd = fd;
    e.wd = wd;
    e.mask = mask;
    snprintf(e.name, sizeof e.name, "%s", name);
    SyncVar* s = sv((uptr)&g->evq, 6);
    wake_all(s, -1);
    io_changed();
}
int inotify_rm_watch(int fd, int wd)
{
    if (!sim_fd(fd) || !g->fdopen[fd - FD_BASE])
    {
        errno = EBADF;
        return -1;
    }
    sync_sp();
    for (int i = 0; i < g->nwatch; i++)
    {
        if (g->watch[i].fd == fd && g->watch[i].wd == wd && g->watch[i].live)
        {
            g->watch[i].live = false;
            push_ev(fd, wd, IN_IGNORED, "");
            sync_sp();
            return 0;
        }
    }
    errno = EINVAL;
    return -1;
}
static ssize_t sim_inotify_read(int fd, void* buf, size_t n)
{
    sync_sp();
    if (!g->fdopen[fd - FD_BASE])
    {
        errno = EBADF;
        return -1;
    }
    for (;;)    // a read that waits does not notice that the descriptor is closed
    {
        char* out = (char*)buf;
        size_t used = 0;
        // how many queued events one read returns is up to the kernel: 1..all
        int maxev = 1;
        int avail = 0;
        for (int i = g->evr; i < g->evw; i++)
        {
            avail += g->evq[i % 2048].fd == fd;
        }
        if (avail)
        {
            if (fault_val(sim::F_IO, 8) == 1)
            {
                errno = EINTR;   // fault: interrupted
                return -1;
            }
            u32 part = avail > 1 ? fault_val(sim::F_IO, 3) : 0;   // fault: short read (fewer events than available)
            maxev = part ? (part == 1 ? 1 : (avail + 1) / 2) : avail;
            int k = 0;
            int w = g->evr;
            for (int i = g->evr; i < g->evw; i++)
            {
                auto e = g->evq[i % 2048];
                size_t len = e.name[0] ? ((strlen(e.name) + 1 + 15) & ~15ull) : 0;
                size_t need = sizeof(struct inotify_event) + len;
                if (e.fd == fd && used + need > n)
                {
                    maxev = k;      // what does not fit waits, and so does what comes after it
                }
                if (e.fd == fd && k < maxev)
                {
                    struct inotify_event* ie = (struct inotify_event*)(out + used);
                    ie->wd = e.wd;
                    ie->mask = e.mask;
                    ie->cookie = 0;
                    ie->len = (u32)len;
                    if (len)
                    {
                        memset(ie->name, 0, len);
                        strcpy(ie->name, e.name);
                    }
                    used += need;
                    k++;
                }
                else
                {
                    g->evq[w++ % 2048] = e;
                }
            }
            g->evw = w;
            if (used)
            {
                return (ssize_t)used;
            }
            errno = EINVAL;     // not even one fits
            return -1;
        }
        if (g->fdnb[fd - FD_BASE])
        {
            errno = EAGAIN;
            return -1;
        }
        SyncVar* s = sv((uptr)&g->evq, 6);
        Waiter w{};
        w.kind = W_INOTIFY;
        enqueue(s, &w);
        block(W_INOTIFY, (uptr)fd, -1, 0, &w);
        dequeue(s, &w);
    }
}
// pipes and event descriptors
static constexpr int IPC_BASE = 760;
static bool ipc_fd(int fd)
{
    return g && g->active && fd >= IPC_BASE && fd < IPC_BASE + 24;
}
static G::Ipc& ipc(int fd)
{
    auto& p = g->ipc[(fd - IPC_BASE) / 2];
    if (!p.open[(fd - IPC_BASE) & 1])
    {
        viol("fd-misuse", "use of a descriptor that is not open");
    }
    return p;
}
static int ipc_new(int kind, bool nb)
{
    sync_sp();
    for (int i = 0; i < 12; i++)
    {
        auto& p = g->ipc[i];
        if (!p.open[0] && !p.open[1])
        {
            memset(&p, 0, sizeof p);
            p.kind = kind;
            p.open[0] = true;
            p.open[1] = kind == 1;
            p.nb[0] = p.nb[1] = nb;
            return i;
        }
    }
    errno = EMFILE;
    return -1;
}
int pipe2(int* fds, int flags) noexcept
{
    if (!g || !g->active)
    {
        return (int)syscall(SYS_pipe2, (long)fds, (long)flags, 0L, 0L, 0L, 0L);
    }
    int i = ipc_new(1, flags & O_NONBLOCK);
    if (i < 0)
    {
        return -1;
    }
    fds[0] = IPC_BASE + 2 * i;
    fds[1] = fds[0] + 1;
    return 0;
}
int pipe(int* fds) noexcept
{
    return pipe2(fds, 0);
}
int eventfd(unsigned int v, int flags) noexcept
{
    if (!g || !g->active)
    {
        return (int)syscall(SYS_eventfd2, (long)v, (long)flags, 0L, 0L, 0L, 0L);
    }
    int i = ipc_new(2, flags & EFD_NONBLOCK);
    if (i < 0)
    {
        return -1;
    }
    g->ipc[i].cnt = v;
    g->ipc[i].sem = flags & EFD_SEMAPHORE;
    return IPC_BASE + 2 * i;
}
static bool ipc_readable(int fd)
{
    auto& p = ipc(fd);
    return p.kind == 2 ? p.cnt != 0 : p.r != p.w || !p.open[1];
}
static bool ipc_writable(int fd)
{
    auto& p = ipc(fd);
    return p.kind == 2 ? p.cnt < ~1ull : p.w - p.r < sizeof p.buf;
}
static void ipc_changed(G::Ipc& p)
{
    wake_all(sv((uptr)&p, 6), -1);
    io_changed();
}
static bool ipc_wait(int fd, bool (* ready)(int))
{
    while (!ready(fd))
    {
        auto& p = ipc(fd);
        if (p.nb[(fd - IPC_BASE) & 1])
        {
            errno = EAGAIN;
            return false;
        }
        SyncVar* s = sv((uptr)&p, 6);
        Waiter w{};
        w.kind = W_PIPE;
        enqueue(s, &w);
        block(W_PIPE, (uptr)&p, -1, 0, &w);
        dequeue(s, &w);
    }
    return true;
}
static ssize_t ipc_read(int fd, void* buf, size_t n)
{
    sync_sp();
    auto& p = ipc(fd);
    if (p.kind == 2 && n < 8)
    {
        errno = EINVAL;
        return -1;
    }
    if (!n)
    {
        return 0;
    }
    if (!ipc_wait(fd, ipc_readable))
    {
        return -1;
    }
    SyncVar* s = sv((uptr)&p, 6);
    if (s->has_vc)
    {
        vc_acquire(s->vc);
    }
    size_t k = 0;
    if (p.kind == 2)
    {
        u64 v = p.sem ? 1 : p.cnt;
        p.cnt -= v;
        memcpy(buf, &v, 8);
        k = 8;
    }
    else
    {
        while (k < n && p.r != p.w)
        {
            ((char*)buf)[k++] = p.buf[p.r++ % sizeof p.buf];
        }
    }
    ipc_changed(p);
    return (ssize_t)k;
}
static ssize_t ipc_write(int fd, const void* buf, size_t n)
{
    sync_sp();
    auto& p = ipc(fd);
    u64 add = 0;
    if (p.kind == 2)
    {
        if (n < 8 || (memcpy(&add, buf, 8), add == ~0ull))
        {
            errno = EINVAL;
            return -1;
        }
    }
    else if (!((fd - IPC_BASE) & 1))
    {
        errno = EBADF;
        return -1;
    }
    else if (!p.open[0])
    {
        errno = EPIPE;
        return -1;
    }
    if (!ipc_wait(fd, ipc_writable))
    {
        return -1;
    }
    SyncVar* s = sv((uptr)&p, 6);
    vc_release(s->vc, true);
    s->has_vc = true;
    size_t k = 0;
    if (p.kind == 2)
    {
        p.cnt += add;
        k = 8;
    }
    else
    {
        while (k < n && p.w - p.r < sizeof p.buf)
        {
            p.buf[p.w++ % sizeof p.buf] = ((const char*)buf)[k++];
        }
    }
    ipc_changed(p);
    return (ssize_t)k;
}
static int ipc_close(int fd)
{
    sync_sp();
    auto& p = ipc(fd);
    p.open[(fd - IPC_BASE) & 1] = false;
    ipc_changed(p);
    return 0;
}
static bool reg_fd(int fd);
static ssize_t reg_read(int fd, void* buf, size_t n);
ssize_t write(int fd, const void* buf, size_t n)
{
    if (ipc_fd(fd) && !g->inrt)
    {
        return ipc_write(fd, buf, n);
    }
    return syscall(SYS_write, (long)fd, (long)buf, (long)n, 0L, 0L, 0L);
}
static int do_fcntl(int fd, int cmd, long arg)
{
    bool* nb = nullptr;
    int rw = O_RDWR;
    if (g && g->active && !g->inrt)
    {
        if (fd >= FD_BASE && fd < FD_BASE + 32)
        {
            nb = &g->fdnb[fd - FD_BASE];
            rw = O_RDONLY;
        }
        else if (ipc_fd(fd))
        {
            nb = &ipc(fd).nb[(fd - IPC_BASE) & 1];
        }
        else if (fd == 0)
        {
            nb = &g->in_nb;
        }
    }
    if (nb)
    {
        if (cmd == F_GETFL)
        {
            return rw | (*nb ? O_NONBLOCK : 0);
        }
        if (cmd == F_SETFL)
        {
            *nb = arg & O_NONBLOCK;
            H(0x5400 + fd * 2 + *nb);
        }
        return 0;
    }
    if (reg_fd(fd))
    {
        return 0;
    }
    return (int)syscall(SYS_fcntl, (long)fd, (long)cmd, arg, 0L, 0L, 0L);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
static int fd_events(int fd, int want)
{
    int got = 0;
    if (fd >= FD_BASE && fd < FD_BASE + 32)
    {
        if (!g->fdopen[fd - FD_BASE])
        {
            return POLLNVAL;
        }
        for (int i = g->evr; i < g->evw; i++)
        {
            got |= g->evq[i % 2048].fd == fd ? POLLIN : 0;
        }
    }
    else if (ipc_fd(fd))
    {
        auto& p = g->ipc[(fd - IPC_BASE) / 2];
        int end = (fd - IPC_BASE) & 1;
        if (!p.open[end])
        {
            return POLLNVAL;
        }
        if (p.kind == 2 || !end)
        {
            got |= p.kind == 2 ? (p.cnt ? POLLIN : 0) : (p.r != p.w ? POLLIN : 0) | (p.open[1] ? 0 : POLLHUP);
        }
        if (p.kind == 2 || end)
        {
            got |= ipc_writable(fd) ? POLLOUT : 0;
            got |= end && !p.open[0] ? POLLERR : 0;
        }
    }
    else if (fd == 0)
    {
        got = in_ready() || g->in_eof || g->ungot >= 0 ? POLLIN : 0;
    }
    else
    {
        got = POLLIN | POLLOUT;
    }
    return got & (want | POLLHUP | POLLERR);
}
static int do_poll(struct pollfd* fds, nfds_t n, i64 deadline)
{
    sync_sp();
    for (;;)
    {
        int k = 0;
        for (nfds_t i = 0; i < n; i++)
        {
            fds[i].revents = fds[i].fd < 0 ? 0 : (short)fd_events(fds[i].fd, fds[i].events);
            k += fds[i].revents != 0;
        }
        if (k || (deadline >= 0 && (u64)deadline <= g->now))
        {
            H(0x5500 + k);
            return k;
        }
        SyncVar* s = sv((uptr)&g->in_use, 6);
        Waiter w{};
        w.kind = W_POLL;
        enqueue(s, &w);
        block(W_POLL, (uptr)fds, deadline, 0, &w);
        dequeue(s, &w);
    }
}
int poll(struct pollfd* fds, nfds_t n, int ms)
{
    if (!g || !g->active || g->inrt)
    {
        return (int)syscall(SYS_poll, (long)fds, (long)n, (long)ms, 0L, 0L, 0L);
    }
    return do_poll(fds, n, ms < 0 ? -1 : (i64)g->now + ms * 1000000ll);
}
int __poll_chk(struct pollfd* fds, nfds_t n, int ms, size_t)
{
    return poll(fds, n, ms);
}
int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* t, const sigset_t*)
{
    return do_poll(fds, n, t ? (i64)g->now + ts_ns(t) : -1);
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t)
{
    if (!g || !g->active || g->inrt)
    {
        return (int)syscall(SYS_select, (long)n, (long)r, (long)w, (long)x, (long)t, 0L);
    }
    struct pollfd fds[64];
    nfds_t k = 0;
    for (int i = 0; i < n && k < 64; i++)
    {
        short want = (r && FD_ISSET(i, r) ? POLLIN : 0) | (w && FD_ISSET(i, w) ? POLLOUT : 0);
        if (want)
        {
            fds[k++] = {i, want, 0};
        }
    }
    int got = do_poll(fds, k, t ? (i64)g->now + t->tv_sec * 1000000000ll + t->tv_usec * 1000ll : -1);
    int bits = 0;
    for (nfds_t i = 0; i < k; i++)
    {
        if (fds[i].revents & POLLNVAL)
        {
            errno = EBADF;
            return -1;
        }
        if (r && FD_ISSET(fds[i].fd, r))
        {
            if (fds[i].revents & (POLLIN | POLLHUP))
            {
                bits++;
            }
            else
            {
                FD_CLR(fds[i].fd, r);
            }
        }
        if (w && FD_ISSET(fds[i].fd, w))
        {
            if (fds[i].revents & (POLLOUT | POLLERR))
            {
                bits++;
            }
            else
            {
                FD_CLR(fds[i].fd, w);
            }
        }
    }
    if (x)
    {
        FD_ZERO(x);
    }
    return got ? bits : 0;
}
// semaphores: the count lives in the first word
int sem_init(sem_t* s, int, unsigned int v) noexcept
{
    memset(s, 0, sizeof *s);
    *(volatile u32*)s = v;
    return 0;
}
int sem_destroy(sem_t*) noexcept
{
    return 0;
}
int sem_getvalue(sem_t* s, int* v) noexcept
{
    *v = (int)*(volatile u32*)s;
    return 0;
}
int sem_post(sem_t* m) noexcept
{
    sync_sp();
    heap_check((uptr)m, 4, true, top_pc());
    SyncVar* s = sv((uptr)m, 6);
    vc_release(s->vc, true);
    s->has_vc = true;
    (*(volatile u32*)m)++;
    H(0x5600);
    if (s->nw)
    {
        Waiter* w = s->wq[0];
        dequeue(s, w);
        wake(w);
    }
    sync_sp();
    return 0;
}
static int sem_take(sem_t* m, i64 deadline, int clk, bool only_try)
{
    sync_sp();
    for (;;)
    {
        heap_check((uptr)m, 4, true, top_pc());
        SyncVar* s = sv((uptr)m, 6);
        if (*(volatile u32*)m)
        {
            (*(volatile u32*)m)--;
            if (s->has_vc)
            {
                vc_acquire(s->vc);
            }
            H(0x5601);
            return 0;
        }
        if (only_try)
        {
            errno = EAGAIN;
            return -1;
        }
        Waiter w{};
        w.kind = W_SEM;
        enqueue(s, &w);
        bool to = block(W_SEM, (uptr)m, deadline, clk, &w);
        dequeue(s, &w);
        if (to)
        {
            errno = ETIMEDOUT;
            return -1;
        }
    }
}
int sem_wait(sem_t* m)
{
    return sem_take(m, -1, 0, false);
}
int sem_trywait(sem_t* m) noexcept
{
    return sem_take(m, -1, 0, true);
}
int sem_timedwait(sem_t* m, const struct timespec* t)
{
    return sem_take(m, ts_ns(t), 1, false);
}
int sem_clockwait(sem_t* m, clockid_t c, const struct timespec* t)
{
    return sem_take(m, ts_ns(t), c == CLOCK_REALTIME, false);
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (ipc_fd(fd))
    {
        return ipc_read(fd, buf, n);
    }
    if (sim_fd(fd))
    {
        return sim_inotify_read(fd, buf, n);
    }
    if (reg_fd(fd))
    {
        return reg_read(fd, buf, n);
    }
    if (g && g->active && fd == 0)
    {
        if (!n)
        {
            return 0;
        }
        int c = sim_getc(g->in_nb);
        if (c == EOF)
        {
            return 0;
        }
        if (c < EOF)
        {
            errno = EAGAIN;
            return -1;
        }
        *(char*)buf = (char)c;
        return 1;
    }
    return syscall(SYS_read, (long)fd, (long)buf, (long)n, 0L, 0L, 0L);
}
// regular files: simulated contents, reads of any size, errors
static constexpr int RFD_BASE = 740;
static bool reg_fd(int fd)
{
    return g && g->active && fd >= RFD_BASE && fd < RFD_BASE + 16;
}
static int reg_find(const char* p)
{
    if (g && g->active && p)
    {
        for (int i = 0; i < g->nfiles; i++)
        {
            if (!strcmp(g->files[i].p, p))
            {
                return i;
            }
        }
    }
    return -1;
}
static int reg_open(int file)
{
    sync_sp();
    if (g->files[file].open_err)
    {
        errno = g->files[file].open_err;
        return -1;
    }
    if (u32 v = fault_val(sim::F_IO, 2))
    {
        errno = v == 1 ? EMFILE : EACCES;
        g->open_fails++;
        return -1;
    }
    for (int i = 0; i < 16; i++)
    {
        if (!g->rfd[i].open)
        {
            g->rfd[i] = {true, file, 0, nullptr};
            tracef("[%10.4f] T%d(%s) opens %s", g->now / 1e6, g->cur->id, g->cur->nm, g->files[file].p);
            return RFD_BASE + i;
        }
    }
    errno = EMFILE;
    return -1;
}
static ssize_t reg_read(int fd, void* buf, size_t n)
{
    sync_sp();
    auto& d = g->rfd[fd - RFD_BASE];
    if (!d.open)
    {
        viol("fd-misuse", "read of descriptor that is not open");
    }
    auto& f = g->files[d.file];
    size_t left = d.pos < f.n ? f.n - d.pos : 0;
    if (f.bad_at >= 0)
    {
        if (d.pos >= (size_t)f.bad_at)
        {
            tracef("[%10.4f] T%d(%s) reads %s: input/output error", g->now / 1e6, g->cur->id, g->cur->nm, f.p);
            g->res->faults[sim::F_IO]++;
            g->res->fault_opps[sim::F_IO]++;
            errno = f.bad_at == 0 && !f.n ? EISDIR : EIO;
            return -1;
        }
        left = (size_t)f.bad_at - d.pos;
    }
    size_t k = n < left ? n : left;
    if (k)
    {
        u32 v = fault_val(sim::F_IO, 6);   // fault: short read (regular files are not interrupted)
        if (v)
        {
            size_t part = v == 1 ? 3 : v == 2 ? 1 : v == 3 ? 2 : v == 4 ? k / 2 : v == 5 ? k - 1 : 100;
            k = part < 1 ? 1 : part < k ? part : k;
        }
        memcpy(buf, f.data + d.pos, k);
        d.pos += k;
        H(0xf1 ^ k);
    }
    return (ssize_t)k;
}
static off_t reg_seek(int fd, off_t o, int w)
{
    auto& d = g->rfd[fd - RFD_BASE];
    i64 base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (i64)d.pos : (i64)g->files[d.file].n;
    if (base + o < 0)
    {
        errno = EINVAL;
        return -1;
    }
    i64 to = base + o;
    d.pos = (size_t)to > g->files[d.file].n ? g->files[d.file].n : (size_t)to;
    return (off_t)d.pos;
}
static int reg_close(int fd)
{
    auto& d = g->rfd[fd - RFD_BASE];
    if (!d.open)
    {
        viol("fd-misuse", "close of descriptor that is not open");
    }
    d.open = false;
    return 0;
}
static ssize_t ck_read(void* c, char* buf, size_t n)
{
    return reg_read((int)(long)c, buf, n);
}
static int ck_seek(void* c, off64_t* o, int w)
{
    off_t r = reg_seek((int)(long)c, *o, w);
    *o = r;
    return r < 0 ? -1 : 0;
}
static int ck_close(void* c)
{
    return reg_close((int)(long)c);
}
static FILE* reg_fopen(int file, const char* mode)
{
    int fd = reg_open(file);
    if (fd < 0)
    {
        return nullptr;
    }
    cookie_io_functions_t io = {ck_read, nullptr, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(long)fd, mode, io);
    if (!f)
    {
        reg_close(fd);
        return nullptr;
    }
    g->rfd[fd - RFD_BASE].cookie = f;
    return f;
}
static FILE* any_fopen(const char* p, const char* mode)
{
    int i = reg_find(p);
    if (i >= 0)
    {
        return reg_fopen(i, mode);
    }
    if (g && g->active && g->nfiles)
    {
        errno = ENOENT;
        return nullptr;
    }
    typedef FILE* (* real_t)(const char*, const char*);
    return ((real_t)dlsym(RTLD_NEXT, "fopen64"))(p, mode);
}
FILE* fopen(const char* p, const char* mode)
{
    return any_fopen(p, mode);
}
FILE* fopen64(const char* p, const char* mode)
{
    return any_fopen(p, mode);
}
int fileno(FILE* f)
{
    if (g && g->active)
    {
        for (int i = 0; i < 16; i++)
        {
            if (g->rfd[i].open && g->rfd[i].cookie == f)
            {
                return RFD_BASE + i;
            }
        }
    }
    typedef int (* real_t)(FILE*);
    return ((real_t)dlsym(RTLD_NEXT, "fileno"))(f);
}
static int any_open(int at, const char* p, int flags, int mode)
{
    int i = reg_find(p);
    if (i >= 0)
    {
        return reg_open(i);
    }
    if (g && g->active && g->nfiles)
    {
        errno = ENOENT;
        return -1;
    }
    return (int)syscall(SYS_openat, (long)at, (long)p, (long)flags, (long)mode, 0L, 0L);
}
int open(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return any_open(AT_FDCWD, p, flags, mode);
}
int open64(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return any_open(AT_FDCWD, p, flags, mode);
}
int openat(int at, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return any_open(at, p, flags, mode);
}
int openat64(int at, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & O_CREAT ? va_arg(ap, int) : 0;
    va_end(ap);
    return any_open(at, p, flags, mode);
}
off64_t lseek64(int fd, off64_t o, int w)
{
    return reg_fd(fd) ? reg_seek(fd, o, w) : (off64_t)syscall(SYS_lseek, (long)fd, (long)o, (long)w, 0L, 0L, 0L);
}
off_t lseek(int fd, off_t o, int w) noexcept
{
    return lseek64(fd, o, w);
}
static void reg_stat(int file, struct stat* st)
{
    memset(st, 0, sizeof *st);
    st->st_mode = g->files[file].bad_at == 0 && !g->files[file].n ? S_IFDIR | 0755 : S_IFREG | 0644;
    st->st_size = (off_t)g->files[file].n;
    st->st_nlink = 1;
    st->st_blksize = 4096;
}
int fstat(int fd, struct stat* st) noexcept
{
    if (reg_fd(fd))
    {
        reg_stat(g->rfd[fd - RFD_BASE].file, st);
        return 0;
    }
    return (int)syscall(SYS_newfstatat, (long)fd, (long)"", (long)st, (long)AT_EMPTY_PATH, 0L, 0L);
}
int fstat64(int fd, struct stat64* st) noexcept
{
    return fstat(fd, (struct stat*)st);
}
int access(const char* p, int mode) noexcept
{
    if (g && g->active && g->npaths)
    {
        sync_sp();
        for (int i = 0; i < g->npaths; i++)
        {
            if (!strcmp(g->paths[i].p, p))
            {
                if ((g->paths[i].perm & mode) == mode)
                {
                    return 0;
                }
                errno = EACCES;
                return -1;
            }
        }
        errno = ENOENT;
        return -1;
    }
    return (int)syscall(SYS_faccessat, (long)AT_FDCWD, (long)p, (long)mode, 0L, 0L, 0L);
}
int faccessat(int, const char* p, int mode, int) noexcept
{
    return access(p, mode);
}
int eaccess(const char* p, int mode) noexcept
{
    return access(p, mode);
}
int euidaccess(const char* p, int mode) noexcept
{
    return access(p, mode);
}
ssize_t pread(int fd, void* b, size_t n, off_t at)
{
    if (!reg_fd(fd))
    {
        return syscall(SYS_pread64, (long)fd, (long)b, (long)n, (long)at, 0L, 0L);
    }
    auto& d = g->rfd[fd - RFD_BASE];
    size_t pos = d.pos;
    d.pos = (size_t)at;
    ssize_t k = reg_read(fd, b, n);
    d.pos = pos;
    return k;
}
ssize_t pread64(int fd, void* b, size_t n, off64_t at)
{
    return pread(fd, b, n, at);
}
ssize_t readv(int fd, const struct iovec* v, int n)
{
    if (!reg_fd(fd) && !sim_fd(fd) && !ipc_fd(fd))
    {
        return syscall(SYS_readv, (long)fd, (long)v, (long)n, 0L, 0L, 0L);
    }
    for (int i = 0; i < n; i++)
    {
        if (v[i].iov_len)
        {
            return read(fd, v[i].iov_base, v[i].iov_len);
        }
    }
    return 0;
}
int close(int fd)
{
    if (reg_fd(fd))
    {
        sync_sp();
        return reg_close(fd);
    }
    if (sim_fd(fd))
    {
        sync_sp();
        if (!g->fdopen[fd - FD_BASE])
        {
            viol("fd-misuse", "close of descriptor that is not open");
        }
        g->fdopen[fd - FD_BASE] = false;
        return 0;
    }
    if (ipc_fd(fd))
    {
        return ipc_close(fd);
    }
    return (int)syscall(SYS_close, (long)fd, 0L, 0L, 0L, 0L, 0L);
}
static int sim_stat(const char* p, struct stat* st)
{
    int f = reg_find(p);
    if (f >= 0)
    {
        reg_stat(f, st);
        return 0;
    }
    for (int i = 0; i < g->npaths; i++)
    {
        if (!strcmp(g->paths[i].p, p))
        {
            memset(st, 0, sizeof *st);
            st->st_mode = g->paths[i].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
            return 0;
        }
    }
    errno = ENOENT;
    return -1;
}
int stat(const char* p, struct stat* st)
{
    if (g && g->active && (g->npaths || g->nfiles))
    {
        return sim_stat(p, st);
    }
    return (int)syscall(SYS_newfstatat, (long)AT_FDCWD, (long)p, (long)st, 0L, 0L, 0L);
}
int lstat(const char* p, struct stat* st)
{
    if (g && g->active && (g->npaths || g->nfiles))
    {
        return sim_stat(p, st);
    }
    return (int)syscall(SYS_newfstatat, (long)AT_FDCWD, (long)p, (long)st, (long)AT_SYMLINK_NOFOLLOW, 0L, 0L);
}

// Like the C library, these two return one buffer shared by the whole process
static struct tm tm_buf;
struct tm* gmtime(const time_t* t)
{
    if (!g || !g->active)
    {
        return gmtime_r(t, &tm_buf);
    }
    sync_sp();
    mem((uptr)&tm_buf, sizeof tm_buf, K_WRITE, RA(__builtin_return_address(0)));
    struct tm* r = gmtime_r(t, &tm_buf);
    sync_sp();
    return r;
}
struct tm* localtime(const time_t* t)
{
    if (!g || !g->active)
    {
        return localtime_r(t, &tm_buf);
    }
    sync_sp();
    mem((uptr)&tm_buf, sizeof tm_buf, K_WRITE, RA(__builtin_return_address(0)));
    struct tm* r = localtime_r(t, &tm_buf);
    sync_sp();
    return r;
}

} // extern C

// used by memfn.cpp
extern "C" bool rt_mem_on(const void* a, const void* b, size_t n)
{
    return g && g->active && n && !g->inrt && !g->quiet && n < (1u << 20) && (known_addr((uptr)a) || known_addr((uptr)b));
}
extern "C" void rt_mem_access(const void* a, size_t n, int write, void* pc)
{
    mem((uptr)a, n, write ? K_WRITE : K_READ, RA(pc));
}

// =================================================================== harness API

namespace sim {

uint32_t choose(uint32_t n)
{
    Fiber* c = g->cur;
    u32 idx = ++c->widx;
    u32 v = 0;
    if (n <= 1)
    {
        return 0;
    }
    if (g->replay)
    {
        lookup(C_WORK, c->id, 0, idx, v);
        v %= n;
    }
    else
    {
        v = below(g->rng_work, n);
        if (v)
        {
            record(C_WORK, c->id, 0, idx, v);
        }
    }
    H(0x100 ^ v);
    return v;
}
bool chance(uint32_t num, uint32_t den)
{
    // value 1 = true. Encoded so that 0 is false.
    Fiber* c = g->cur;
    u32 idx = ++c->widx;
    u32 v = 0;
    if (g->replay)
    {
        lookup(C_WORK, c->id, 0, idx, v);
    }
    else
    {
        v = below(g->rng_work, den) < num;
        if (v)
        {
            record(C_WORK, c->id, 0, idx, v);
        }
    }
    H(0x101 ^ v);
    return v != 0;
}
void set_fault(Fault f, uint32_t one_in)
{
    g->fault_in[f] = one_in;
}
bool fault(Fault f)
{
    return fault_val(f, 1) != 0;
}
void count_fault(Fault f)
{
    g->res->faults[f]++;
}
AllocFaults::AllocFaults()
{
    g->cur->alloc_faults++;
}
AllocFaults::~AllocFaults()
{
    g->cur->alloc_faults--;
}
void set_writer_preference(bool on)
{
    g->writer_pref = on;
}
void long_limits()
{
    g->long_limits = true;
}
void set_step_cost_ns(uint64_t ns)
{
    g->step_cost = ns;
}
uint64_t now_ns()
{
    return g->now;
}
int64_t wall_ns()
{
    return (i64)g->now + g->wall_off;
}
uint64_t stamp()
{
    return ++g->stamp;
}
void jump_wall(int64_t d)
{
    g->wall_off += d;
    g->res->faults[F_WALLJUMP]++;
    tracef("[%10.4f] ** wall clock jumps by %.3f s", g->now / 1e6, d / 1e9);
    H((u64)d);
    expire_timers();
}
void sleep_ms(uint64_t ms)
{
    do_sleep((i64)(g->now + ms * 1000000ull), 0);
}
void quiesce()
{
    Waiter w{};
    sync_sp();
    block(W_QUIESCE, 0, -1, 0, &w);
}
void yield()
{
    sched_yield();
}
int self()
{
    return g->cur->id;
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < g->nf; i++)
    {
        n += g->f[i].state != 3;
    }
    return n;
}
int blocked_threads()
{
    int n = 0;
    for (int i = 0; i < g->nf; i++)
    {
        n += g->f[i].state == 2;
    }
    return n;
}
bool thread_blocked(int id)
{
    return id >= 0 && id < g->nf && g->f[id].state == 2;
}
const char* thread_wait(int id)
{
    return id >= 0 && id < g->nf && g->f[id].state == 2 && g->f[id].w ? wait_name(g->f[id].w->kind) : "";
}
void name(const char* n)
{
    snprintf(g->cur->nm, sizeof g->cur->nm, "%s", n);
}
int64_t live_allocs()
{
    return g->live;
}
int64_t live_bytes()
{
    return g->live_bytes;
}
uint64_t thread_count_created()
{
    return g->nf;
}
void probe(const char* name)
{
    Result* r = g->res;
    for (int i = 0; i < r->nprobes; i++)
    {
        if (!strcmp(r->probes[i].name, name))
        {
            r->probes[i].n++;
            return;
        }
    }
    if (r->nprobes < MAX_PROBES)
    {
        g->inrt++;
        snprintf(r->probes[r->nprobes].name, sizeof r->probes[0].name, "%s", name);
        g->inrt--;
        r->probes[r->nprobes++].n = 1;
    }
}
void note(const char* fmt, ...)
{
    char buf[400];
    g->inrt++;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    g->inrt--;
    for (char* p = buf; *p; p++)
    {
        H((u8)*p);
    }
    H(g->now);
    tracef("[%10.4f] T%d(%s) %s", g->now / 1e6, g->cur->id, g->cur->nm, buf);
}
void describe(const char* fmt, ...)
{
    Result* r = g->res;
    g->inrt++;
    size_t n = strlen(r->desc);
    va_list ap;
    va_start(ap, fmt);
    if (n + 8 < sizeof r->desc)
    {
        vsnprintf(r->desc + n, sizeof r->desc - n, fmt, ap);
    }
    va_end(ap);
    g->inrt--;
}
void violation(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolation(cls, fmt, ap);
}
void context(const char* what)
{
    g->ctx = what;
}
Quiet::Quiet()
{
    g->quiet++;
}
Quiet::~Quiet()
{
    g->quiet--;
}
void ignore_races(const void* p, size_t n)
{
    if (g->nign < 24)
    {
        g->ign[g->nign].a = (uptr)p;
        g->ign[g->nign++].b = (uptr)p + n;
    }
}
void allow_live_threads()
{
    g->leak_ok = true;
}
void post_signal(int sig)
{
    if (g->npend < 32)
    {
        g->pend[g->npend++].sig = sig;
        tracef("[%10.4f] signal %d becomes pending for the process", g->now / 1e6, sig);
    }
    sync_sp();
}
void run_exit_handlers()
{
    while (g_nexit > 0)
    {
        ExitHandler h = g_exit[--g_nexit];
        h.fn(h.arg);
    }
}
bool signal_handled(int sig)
{
    return g->sigh[sig] != SIG_DFL && g->sigh[sig] != SIG_IGN;
}
uint64_t signals_delivered(int sig)
{
    return g->sig_delivered[sig];
}
uint64_t signals_pending(int sig)
{
    u64 n = 0;
    for (int i = 0; i < g->npend; i++)
    {
        n += g->pend[i].sig == sig;
    }
    return n;
}
void stdin_push(const std::string& b)
{
    for (char ch : b)
    {
        g->in[g->in_w++ % sizeof g->in] = ch;
    }
    wake_all(sv((uptr)&g->in, 6), -1);
    io_changed();
    if (!g->quiet)
    {
        sync_sp();
    }
}
void stdin_close()
{
    g->in_eof = true;
    wake_all(sv((uptr)&g->in, 6), -1);
    io_changed();
    if (!g->quiet)
    {
        sync_sp();
    }
}
void stdin_terminal(bool t, int w)
{
    g->tty = t;
    g->width = w;
}
uint64_t stdin_reads_after_eof()
{
    return g->in_after_eof;
}
size_t stdin_unread()
{
    return g->in_w - g->in_r;
}
void stdin_echo(void (* f)(char))
{
    g->echo = f;
}
void stdin_settings(int k)
{
    struct termios* t = term();
    t->c_cc[VERASE] = k & 1 ? 8 : 127;
    t->c_iflag = k & 2 ? ICRNL : ICRNL | IXON;
    t->c_cflag = k & 4 ? CS8 | CREAD | HUPCL : CS8 | CREAD;
    memcpy(&g->term0, t, sizeof *t);
    g->raw = false;
}
bool stdin_raw_mode()
{
    return g->raw;
}
void fs_mkdir(const std::string& p)
{
    auto& x = g->paths[g->npaths++];
    snprintf(x.p, sizeof x.p, "%s", p.c_str());
    x.dir = true;
    x.perm = 7;
}
void fs_touch(const std::string& p)
{
    auto& x = g->paths[g->npaths++];
    snprintf(x.p, sizeof x.p, "%s", p.c_str());
    x.dir = false;
    x.perm = 6;
}
static bool same_dir(const char* a, const char* b)
{
    size_t la = strlen(a), lb = strlen(b);
    while (la > 1 && a[la - 1] == '/')
    {
        la--;
    }
    while (lb > 1 && b[lb - 1] == '/')
    {
        lb--;
    }
    return la == lb && !memcmp(a, b, la);
}
void fs_event(const std::string& dir, const std::string& nm, uint32_t mask)
{
    for (int i = 0; i < g->nwatch; i++)
    {
        auto& w = g->watch[i];
        if (w.live && (w.mask & mask) && same_dir(w.path, dir.c_str()))
        {
            push_ev(w.fd, w.wd, mask, nm.c_str());
        }
    }
    H(0xf5 ^ mask);
    if (!g->quiet)
    {
        sync_sp();
    }
}
void fs_rmdir(const std::string& dir)
{
    for (int i = 0; i < g->nwatch; i++)
    {
        auto& w = g->watch[i];
        if (w.live && same_dir(w.path, dir.c_str()))
        {
            w.live = false;
            if (w.mask & IN_DELETE_SELF)
            {
                push_ev(w.fd, w.wd, IN_DELETE_SELF, "");
            }
            push_ev(w.fd, w.wd, IN_IGNORED, "");
        }
    }
    for (int i = 0; i < g->npaths; i++)
    {
        auto& x = g->paths[i];
        size_t n = strlen(x.p);
        while (n > 1 && x.p[n - 1] != '/')
        {
            n--;
        }
        char parent[sizeof x.p];
        memcpy(parent, x.p, n);
        parent[n] = 0;
        if (same_dir(x.p, dir.c_str()) || (n > 1 && same_dir(parent, dir.c_str())))
        {
            x.p[0] = 0;
        }
    }
    H(0xfd);
    if (!g->quiet)
    {
        sync_sp();
    }
}
void fs_fail_init(bool on)
{
    g->fail_init = on;
}
void fs_fail_watch(bool on)
{
    g->fail_watch = on;
}
void fs_file(const std::string& p, const char* data, size_t n, int64_t bad_at, int open_err)
{
    auto& x = g->files[g->nfiles++];
    snprintf(x.p, sizeof x.p, "%s", p.c_str());
    x.data = data;
    x.n = n;
    x.bad_at = bad_at;
    x.open_err = open_err;
}
void fs_perm(const std::string& p, int perm)
{
    for (int i = 0; i < g->npaths; i++)
    {
        if (p == g->paths[i].p)
        {
            g->paths[i].perm = perm;
        }
    }
}
uint64_t fs_open_failures()
{
    return g->open_fails;
}
uint64_t faults(Fault f)
{
    return g->res->faults[f];
}
int fs_open_fds()
{
    int n = 0;
    for (auto& d : g->rfd)
    {
        n += d.open;
    }
    for (int i = 0; i < 32; i++)
    {
        n += g->fdopen[i];
    }
    for (auto& p : g->ipc)
    {
        n += p.open[0] + p.open[1];
    }
    return n;
}
int fs_watches()
{
    int n = 0;
    for (int i = 0; i < g->nwatch; i++)
    {
        n += g->watch[i].live && g->fdopen[g->watch[i].fd - FD_BASE];
    }
    return n;
}
void set_random_device(uint32_t v)
{
    g->random_device = v;
}

Scenario* scenarios_head = nullptr;
Scenario::Scenario(const char* p, const char* n, uint32_t w, void (* f)(), const char* o)
    : prop(p)
    , name(n)
    , weight(w)
    , fn(f)
    , only(o)
    , next(scenarios_head)
{
    scenarios_head = this;
}

Prepare* prepares_head = nullptr;
Prepare::Prepare(const char* p, void (* f)())
    : prop(p)
    , fn(f)
    , next(prepares_head)
{
    prepares_head = this;
}

} // namespace sim
