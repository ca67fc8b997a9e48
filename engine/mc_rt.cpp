// Controlled-scheduler stateless model checker runtime.
// Linked into harness binaries whose TUs were compiled with -fsanitize=thread (but NOT linked with libtsan):
// the __tsan_* hooks, the pthread/clock entry points and operator new/delete below are ours.
// This file itself is compiled without instrumentation.
#include "mc.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <link.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/single_threaded.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t  u8;

extern "C" char __executable_start, etext, __data_start, _end;

namespace
{
constexpr int NT      = 16;
constexpr int TIME_ID = 15; // pseudo thread: clock advance
constexpr u64 ARENA0 = 0x200000000000ull, ARENA_SZ = 64ull << 20;
constexpr u64 STACK0 = ARENA0 + ARENA_SZ, STACK_SZ = 512ull << 10, STACKS_SZ = STACK_SZ * NT;
constexpr u64 REGION_SZ = ARENA_SZ + STACKS_SZ;
constexpr u64 SHADOW0 = 0x300000000000ull;
constexpr u64 CLOCK_ADDR = 8, POINT_ADDR = 16;
constexpr int MAXPTS = 30000;
constexpr int MAXDEV = 46;
constexpr int MAXLVL = 10;
constexpr u32 LVL_CAP = 1u << 23;
constexpr u64 VBASE = 1000ull * 1000000000ull;

struct VC
{
    u32  c[NT];
    void zero() { memset(c, 0, sizeof c); }
    void join(const VC& o)
    {
        for (int i = 0; i < NT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum Op : u8 { OP_NONE, OP_START, OP_LOAD, OP_STORE, OP_RMW, OP_LOCK, OP_TRYLOCK, OP_CONDWAIT, OP_WAITING, OP_NOTIFY, OP_JOIN, OP_SLEEP, OP_YIELD, OP_CLOCK, OP_GUARD, OP_POINT, OP_SETTLE, OP_RDLOCK };
const char* const op_names[] = {"none", "start", "load", "store", "rmw", "lock", "trylock", "condwait", "waiting", "notify", "join", "sleep", "yield", "clock", "guard", "point", "settle", "rdlock"};

enum TState : u8 { T_FREE, T_LIVE, T_DONE };

struct Thr
{
    int    id;
    TState st;
    Op     op;
    bool   write, asleep, signalled, timed_out, yielding;
    u64    addr, addr2, deadline, pc, y_addr;
    int    join_target, quiet, guard_depth;
    VC     vc, acq_pending, rel_fence;
    std::atomic<int> go;
    pthread_t        real;
    bool             real_created;
    void* (*fn)(void*);
    void* arg;
    u64   spin_pc, spin_addr;
    u32   spin_ver;
    int   spin_n, clock_reads, run_len;
    u64   settle_limit;
    void* retval;
    void  reset(int i)
    {
        id = i; st = T_FREE; op = OP_NONE;
        write = asleep = signalled = timed_out = yielding = false;
        addr = addr2 = deadline = pc = y_addr = 0;
        join_target = -1; quiet = guard_depth = 0;
        vc.zero(); acq_pending.zero(); rel_fence.zero();
        go.store(0); real_created = false;
        spin_pc = spin_addr = 0; spin_ver = 0; spin_n = clock_reads = run_len = 0;
        settle_limit = 0; retval = nullptr;
    }
};

struct Cell // shadow of 8 bytes
{
    u32 exec;
    u8  wtid, wmask, freed, ratomic;
    u32 wclk, wpc;
    u32 rclk[NT];
    u32 rpc[8];
    u8  rmask[NT];
};
static_assert(sizeof(Cell) == 128, "");
struct HCell { u64 key; Cell c; };
constexpr u32 HC_SZ = 1u << 14;
HCell         g_hcells[HC_SZ];

struct Sync
{
    u64 key;
    u32 exec, version;
    int owner, count; // mutex: owner+1, recursion; rwlock: readers in count, writer owner
    VC  vc;
};
constexpr u32 SY_SZ = 1u << 15;
Sync          g_sync[SY_SZ];

struct Point
{
    u8  nopt, cur, def, chosen;
    bool cur_enabled, data;
    u16 asleep;
    u8  opt[NT];
    u64 hash;
};

struct Item
{
    u8  n, lvl;
    u64 hash;
    u32 d[MAXDEV]; // idx<<8 | choice
};

struct Viol
{
    Item item;
    char sig[96];
    char msg[1400];
};

struct WSlot
{
    Item               item;
    std::atomic<int>   busy;
    std::atomic<u64>   started; // real ns
    std::atomic<int>   pid;
};

struct Shm
{
    std::atomic<int> lock;
    std::atomic<int> stop, outstanding;
    int              top[MAXLVL];
    bool             overflow;
    u64              execs, points, nodes, ops, pruned, nondet, lvl_exec[MAXLVL], maxpts, maxthreads, races_checked;
    int              nviol;
    Viol             viol[1024];
    WSlot            slot[64];
    int              nout;
    u64              out[1 << 14];
    char             outtxt[8][600];
    int              nouttxt;
    int              bound;
    u64              deadline_real;
    bool             timed_out, nowarm;
    Item             stack[MAXLVL][LVL_CAP];
};
Shm* S;

Thr              g_thr[NT];
thread_local Thr* self = nullptr;
u32              g_exec = 0;
int              g_nthr = 0;
u64              g_vtime = VBASE;
u64              g_brk = ARENA0;
Point            g_pts[MAXPTS];
int              g_npts = 0;
long g_forced;
int              g_pruned_at = -1;
Item             g_item;
int              g_devi = 0;
u64              g_hash = 0;
u64              g_ops = 0;
bool             g_warm = false;
bool             g_nosleep = false; // no sleep sets (validation of the reduction)
bool             g_running = false, g_body_done = false, g_trace = false, g_replaying = false;
std::atomic<int> g_done{0};
mc::Config       g_cfg;
int              g_wslot = -1;
std::function<void()>* g_body = nullptr;
mc::Event        g_events[1 << 16];
size_t           g_nev = 0;
u64              g_outcome = 0;
pthread_key_t    g_key;
u64              g_races_checked = 0;
u32              g_nsync = 0;

// ---------------------------------------------------------------- real functions
int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int (*r_join)(pthread_t, void**);
int (*r_detach)(pthread_t);
int (*r_mlock)(pthread_mutex_t*);
int (*r_mtrylock)(pthread_mutex_t*);
int (*r_munlock)(pthread_mutex_t*);
int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*);
int (*r_ctimed)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int (*r_cclock)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int (*r_csignal)(pthread_cond_t*);
int (*r_cbcast)(pthread_cond_t*);
int (*r_rdlock)(pthread_rwlock_t*);
int (*r_wrlock)(pthread_rwlock_t*);
int (*r_rwunlock)(pthread_rwlock_t*);
int (*r_once)(pthread_once_t*, void (*)());
int (*r_gacq)(long long int*);
void (*r_grel)(long long int*);
void (*r_gabort)(long long int*);
void (*r_exaddref)(void*);
void (*r_exrelease)(void*);

template<typename F>
void load_sym(F& f, const char* n)
{
    f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
void load_real()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    load_sym(r_create, "pthread_create");
    load_sym(r_join, "pthread_join");
    load_sym(r_detach, "pthread_detach");
    load_sym(r_mlock, "pthread_mutex_lock");
    load_sym(r_mtrylock, "pthread_mutex_trylock");
    load_sym(r_munlock, "pthread_mutex_unlock");
    load_sym(r_cwait, "pthread_cond_wait");
    load_sym(r_ctimed, "pthread_cond_timedwait");
    load_sym(r_cclock, "pthread_cond_clockwait");
    load_sym(r_csignal, "pthread_cond_signal");
    load_sym(r_cbcast, "pthread_cond_broadcast");
    load_sym(r_rdlock, "pthread_rwlock_rdlock");
    load_sym(r_wrlock, "pthread_rwlock_wrlock");
    load_sym(r_rwunlock, "pthread_rwlock_unlock");
    load_sym(r_once, "pthread_once");
    load_sym(r_gacq, "__cxa_guard_acquire");
    load_sym(r_grel, "__cxa_guard_release");
    load_sym(r_gabort, "__cxa_guard_abort");
    load_sym(r_exaddref, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    load_sym(r_exrelease, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
}

u64 real_ns()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return u64(ts.tv_sec) * 1000000000ull + u64(ts.tv_nsec);
}
void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }

struct ShmLock
{
    ShmLock()
    {
        int n = 0;
        while (S->lock.exchange(1, std::memory_order_acquire))
            if (++n > 100)
                syscall(SYS_sched_yield);
    }
    ~ShmLock() { S->lock.store(0, std::memory_order_release); }
};

// ---------------------------------------------------------------- shadow / sync lookup
inline bool in_arena(u64 a) { return a - ARENA0 < ARENA_SZ; }
inline Cell* cell_of(u64 a)
{
    Cell* c;
    if (a - ARENA0 < REGION_SZ)
        c = reinterpret_cast<Cell*>(SHADOW0) + ((a - ARENA0) >> 3);
    else if (a >= u64(&__data_start) && a < u64(&_end))
    {
        const u64 k = a >> 3;
        u32       h = u32((k * 0x9E3779B97F4A7C15ull) >> 40) & (HC_SZ - 1);
        for (int i = 0;; ++i)
        {
            if (i == 16)
                return nullptr;
            HCell& hc = g_hcells[(h + u32(i)) & (HC_SZ - 1)];
            if (hc.c.exec != g_exec)
            {
                hc.key = k;
                c      = &hc.c;
                break;
            }
            if (hc.key == k)
            {
                c = &hc.c;
                break;
            }
        }
    }
    else
        return nullptr;
    if (c->exec != g_exec)
    {
        memset(c, 0, sizeof *c);
        c->exec = g_exec;
    }
    return c;
}

[[noreturn]] void internal_error(const char* m)
{
    fprintf(stderr, "mc internal error: %s\n", m);
    _exit(78);
}

Sync* sync_of(u64 a)
{
    u32 h = u32((a * 0x9E3779B97F4A7C15ull) >> 40) & (SY_SZ - 1);
    for (;;)
    {
        Sync& s = g_sync[h];
        if (s.exec != g_exec)
        {
            if (++g_nsync > SY_SZ / 2)
                internal_error("sync table full");
            s.key     = a;
            s.exec    = g_exec;
            s.version = 0;
            s.owner = s.count = 0;
            s.vc.zero();
            return &s;
        }
        if (s.key == a)
            return &s;
        h = (h + 1) & (SY_SZ - 1);
    }
}

// ---------------------------------------------------------------- failure
[[noreturn]] void mc_fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void gen_children();
void finish_item_stats();

std::string symbolize(u64 pc)
{
    struct Off
    {
        bool was = g_running;
        Off() { g_running = false; }
        ~Off() { g_running = was; }
    } off;
    char cmd[512], exe[256];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0)
        return "?";
    exe[n] = 0;
    snprintf(cmd, sizeof cmd, "addr2line -e %s -i -s -f -C 0x%llx 2>/dev/null", exe, (unsigned long long)(pc - u64(&__executable_start) - 1));
    FILE* f = popen(cmd, "r");
    if (!f)
        return "?";
    std::string out, line;
    char        buf[4096];
    bool        fn = true;
    int         k  = 0;
    while (fgets(buf, sizeof buf, f))
    {
        buf[strcspn(buf, "\n")] = 0;
        if (!fn)
        {
            if (k++ < 8)
            {
                if (!out.empty())
                    out += " < ";
                out += buf;
            }
        }
        fn = !fn;
    }
    pclose(f);
    return out;
}

void mc_fail(const char* kind, const char* fmt, ...)
{
    static bool failing = false;
    if (failing)
        _exit(78);
    failing = true;
    g_running = false; // stop instrumentation
    if (self)
        self->quiet = 1000;
    Viol v{};
    v.item = g_item;
    snprintf(v.sig, sizeof v.sig, "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(v.msg, sizeof v.msg, fmt, ap);
    va_end(ap);
    // full list of deviations that reproduces this execution (the item itself)
    if (g_replaying)
    {
        printf("REPLAY-RESULT kind=%s msg=%s\n", v.sig, v.msg);
        fflush(stdout);
        if (S && S->nviol < 1024)
            S->viol[S->nviol++] = v;
        _exit(77);
    }
    if (g_warm)
    {
        {
            ShmLock l;
            if (!S->nowarm && S->nviol < 1024)
                S->viol[S->nviol++] = v;
            S->nowarm = true;
        }
        _exit(77);
    }
    gen_children();
    finish_item_stats();
    {
        ShmLock l;
        if (S->nviol < 1024)
            S->viol[S->nviol++] = v;
    }
    if (g_wslot >= 0)
        S->slot[g_wslot].busy.store(0);
    S->outstanding.fetch_sub(1);
    _exit(77);
}

void on_signal(int sig, siginfo_t* si, void*)
{
    if (g_running && self)
    {
        void* bt[40];
        int   n = backtrace(bt, 40);
        char  buf[900];
        int   p = 0;
        if (g_replaying || true)
            for (int i = 2; i < n && p < 700; ++i)
                if (u64(bt[i]) >= u64(&__executable_start) && u64(bt[i]) < u64(&etext))
                    p += snprintf(buf + p, sizeof buf - size_t(p), " %llx", (unsigned long long)(u64(bt[i]) - u64(&__executable_start)));
        buf[p] = 0;
        mc_fail(sig == SIGABRT ? "abort" : "crash", "signal %d addr %p in thread %d, pcs:%s", sig, si->si_addr, self->id, buf);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

// ---------------------------------------------------------------- scheduler
inline void wake_sleepers(u64 addr, bool write)
{
    for (int i = 0; i < g_nthr; ++i)
    {
        Thr& t = g_thr[i];
        if (t.asleep && (write || t.write) && ((t.addr >> 3) == (addr >> 3) || (t.addr2 && (t.addr2 >> 3) == (addr >> 3))))
            t.asleep = false;
    }
}
// a spinning thread becomes an ordinary option again as soon as somebody else changes what it spins on
inline void unspin(u64 addr)
{
    for (int i = 0; i < g_nthr; ++i)
    {
        Thr& t = g_thr[i];
        if (t.yielding && &t != self && (!t.y_addr || (t.y_addr >> 3) == (addr >> 3)))
            t.yielding = false;
    }
}

inline bool enabled(Thr& t)
{
    if (t.st != T_LIVE)
        return false;
    switch (t.op)
    {
        case OP_LOCK: {
            Sync* s = sync_of(t.addr);
            return s->owner == 0 || (s->owner == t.id + 1 && t.join_target == 1 /*recursive*/);
        }
        case OP_RDLOCK: return sync_of(t.addr)->owner == 0;
        case OP_WAITING:
            if (!(t.signalled || (t.deadline && g_vtime >= t.deadline)))
                return false;
            return sync_of(t.addr2)->owner == 0;
        case OP_JOIN: return g_thr[t.join_target].st == T_DONE;
        case OP_SLEEP: return g_vtime >= t.deadline;
        case OP_GUARD: return sync_of(t.addr)->owner == 0;
        case OP_SETTLE: return false;
        default: return true;
    }
}

inline void hash_mix(u64 v) { g_hash = (g_hash ^ v) * 0x100000001b3ull; }

void advance_time(u64 to)
{
    if (to > g_vtime)
        g_vtime = to;
    for (int i = 0; i < g_nthr; ++i)
        g_thr[i].clock_reads = 0;
    wake_sleepers(CLOCK_ADDR, true);
    if (g_trace)
        fprintf(stderr, "  [time -> %.6f ms]\n", double(g_vtime - VBASE) / 1e6);
}

// selects the next thread to run; -1: execution over
int pick(Thr* cur)
{
    bool free_switch = false;
    for (;;)
    {
        u8  list[NT];
        int n = 0;
        int nyield = 0, yielder = -1;
        u64 dl = 0;
        bool cur_en = cur && enabled(*cur) && !cur->yielding;
        // fairness: after many steps in a row the others go first (without a cost); the thread itself stays an option
        const bool tired = cur_en && cur->run_len > 300;
        if (cur_en)
            list[n++] = u8(cur->id);
        Thr* settler = nullptr;
        for (int i = 0; i < g_nthr; ++i)
        {
            Thr& t = g_thr[i];
            if (t.st != T_LIVE)
                continue;
            if (t.op == OP_SETTLE)
                settler = &t;
            if (&t == cur && cur_en)
                continue;
            if (enabled(t))
            {
                if (t.yielding)
                {
                    ++nyield;
                    if (yielder < 0 || (cur && yielder <= cur->id && i > cur->id))
                        yielder = i;
                }
                else
                    list[n++] = u8(i);
            }
            else if ((t.op == OP_SLEEP || (t.op == OP_WAITING && !t.signalled)) && t.deadline > g_vtime)
            {
                if (!dl || t.deadline < dl)
                    dl = t.deadline;
            }
        }
        if (settler && settler->settle_limit && dl > settler->settle_limit)
            dl = 0;
        if (n == 0 && nyield)
        {
            Thr& y = g_thr[yielder];
            if (dl && y.spin_n > 6)
            {
                advance_time(dl);
                y.spin_n = 0;
                continue;
            }
            y.yielding  = false;
            if (&y != cur)
                y.run_len = 0;
            list[n++]   = u8(yielder);
            free_switch = true;
        }
        if (n == 0)
        {
            if (dl)
            {
                advance_time(dl);
                continue;
            }
            if (settler)
            {
                if (settler->settle_limit > g_vtime)
                    advance_time(settler->settle_limit);
                settler->op = OP_NONE;
                return settler->id;
            }
            bool alive = false;
            for (int i = 0; i < g_nthr; ++i)
                alive |= g_thr[i].st == T_LIVE;
            if (!alive)
                return -1;
            if (g_body_done && g_cfg.allow_leftover)
                return -1;
            char buf[700];
            int  p = 0;
            for (int i = 0; i < g_nthr; ++i)
                if (g_thr[i].st == T_LIVE)
                    p += snprintf(buf + p, sizeof buf - size_t(p), " T%d:%s%s", i, op_names[g_thr[i].op], g_thr[i].op == OP_LOCK && sync_of(g_thr[i].addr)->owner ? ("(held by T" + std::to_string(sync_of(g_thr[i].addr)->owner - 1) + ")").c_str() : "");
            mc_fail(g_body_done ? "stuck-thread" : "deadlock", "no thread can make progress:%s", buf);
        }
        if (n == 1 && tired && dl && cur->run_len > 3000)
        {
            cur->run_len = 0;
            advance_time(dl);
            continue;
        }
        if (tired && n > 1)
        {
            cur->run_len = 0;
            std::swap(list[0], list[n - 1]);
            std::sort(list, list + n - 1);
            free_switch = true;
        }
        else if (cur_en)
            cur->run_len++;
        bool time_opt = g_cfg.time_races && dl && !g_body_done;
        if (n == 1 && !time_opt)
        {
            Thr& t = g_thr[list[0]];
            if (++g_forced > 1000000)
                mc_fail("livelock", "T%d makes no progress: more than %ld steps in one execution", t.id, g_forced);
            if (t.asleep)
            {
                t.asleep = false;
                if (g_pruned_at < 0)
                    g_pruned_at = g_npts;
            }
            hash_mix(u64(t.id) << 8 | t.op);
            return t.id;
        }
        if (g_npts >= g_cfg.horizon || g_npts >= MAXPTS)
            mc_fail("livelock", "more than %d scheduling decisions in one execution", g_npts);
        Point& p      = g_pts[g_npts];
        p.nopt        = 0;
        p.cur         = cur ? u8(cur->id) : u8(255);
        p.cur_enabled = cur_en && !free_switch;
        p.data        = false;
        p.asleep      = 0;
        int def       = -1;
        for (int i = 0; i < n; ++i)
        {
            p.opt[p.nopt++] = list[i];
            if (g_thr[list[i]].asleep)
                p.asleep |= u16(1u << list[i]);
            else if (def < 0)
                def = list[i];
        }
        if (time_opt)
            p.opt[p.nopt++] = TIME_ID;
        if (def < 0)
        {
            def = list[0];
            if (g_pruned_at < 0)
                g_pruned_at = g_npts;
        }
        hash_mix(u64(def) << 16 | u64(p.nopt) << 8 | (cur ? cur->op : 0));
        if (cur && in_arena(cur->addr))
            hash_mix(cur->addr);
        p.hash = g_hash;
        p.def  = u8(def);
        int ch = def;
        if (g_devi < g_item.n && int(g_item.d[g_devi] >> 8) == g_npts)
        {
            ch = int(g_item.d[g_devi] & 255);
            bool ok = false;
            for (int i = 0; i < p.nopt; ++i)
                ok |= p.opt[i] == ch;
            ++g_devi;
            if (!ok || (g_devi == g_item.n && g_item.hash && g_item.hash != p.hash))
            {
                S->nondet++;
                if (g_replaying)
                    printf("REPLAY-DIVERGED at point %d\n", g_npts), fflush(stdout);
                if (!ok)
                    ch = def;
                if (g_pruned_at < 0)
                    g_pruned_at = 0;
            }
            if (g_nosleep) {}
            else if (ch != TIME_ID && p.cur_enabled && cur && ch != cur->id && !cur->asleep)
                cur->asleep = true;
            else if (ch == TIME_ID && p.cur_enabled && cur)
                cur->asleep = true;
        }
        p.chosen = u8(ch);
        ++g_npts;
        hash_mix(u64(ch) + 77);
        if (ch == TIME_ID)
        {
            advance_time(dl);
            free_switch = true;
            continue;
        }
        Thr& t = g_thr[ch];
        if (t.asleep)
        {
            t.asleep = false;
            if (g_pruned_at < 0)
                g_pruned_at = g_npts - 1;
        }
        return ch;
    }
}

void handover(Thr* cur, int next)
{
    if (cur && next == cur->id)
    {
        return;
    }
    if (next < 0)
    {
        g_done.store(1);
        futex_wake(&g_done);
    }
    else
    {
        Thr& t    = g_thr[next];
        t.run_len = 0;
        t.go.store(1, std::memory_order_release);
        futex_wake(&t.go);
    }
    if (!cur)
        return;
    while (cur->go.load(std::memory_order_acquire) == 0)
        futex_wait(&cur->go, 0);
    cur->go.store(0, std::memory_order_relaxed);
    cur->yielding = false;
}

// arrive at operation `op`; returns when this thread has been chosen to execute it
void sched_point(Op op, u64 addr, bool write, u64 pc)
{
    Thr* t   = self;
    t->op    = op;
    t->addr  = addr;
    t->write = write;
    t->pc    = pc;
    const int nx = pick(t);
    handover(t, nx);
    t->yielding = false;
    if (nx >= 0)
    {
        ++g_ops;
        if (addr)
            wake_sleepers(addr, write);
        if (t->addr2)
            wake_sleepers(t->addr2, true);
    }
    if (g_trace && op != OP_NONE)
    {
        std::string s = symbolize(pc);
        fprintf(stderr, "  T%d %s %llx @ %s\n", t->id, op_names[op], (unsigned long long)addr, s.c_str());
    }
}

inline bool active() { return self && g_running; }

// ---------------------------------------------------------------- race detection
[[noreturn]] void report_race(u64 a, bool write, u64 pc, u32 opc, int otid, bool owrite)
{
    const u64 base = u64(&__executable_start);
    std::string s1 = symbolize(pc), s2 = opc ? symbolize(base + opc) : "?";
    mc_fail("race", "data race on %llx: T%d %s at [%s] vs T%d %s at [%s]", (unsigned long long)a, self->id, write ? "write" : "read", s1.c_str(), otid, owrite ? "write" : "read", s2.c_str());
}
void access_granule(u64 a, u8 mask, bool write, bool atomic, u64 pc)
{
    Cell* c = cell_of(a);
    if (!c)
        return;
    Thr* t = self;
    if (c->freed)
        mc_fail("use-after-free", "T%d %s freed memory %llx at [%s]", t->id, write ? "writes" : "reads", (unsigned long long)a, symbolize(pc).c_str());
    ++g_races_checked;
    if (!g_cfg.races)
        return;
    const u32 pc32 = u32(pc - u64(&__executable_start));
    if ((c->wmask & mask) && c->wtid != t->id && c->wclk > t->vc.c[c->wtid])
        report_race(a, write, pc, c->wpc, c->wtid, true);
    if (write)
    {
        for (int i = 0; i < g_nthr; ++i)
            if (i != t->id && (c->rmask[i] & mask) && c->rclk[i] > t->vc.c[i])
                report_race(a, write, pc, c->rpc[i & 7], i, false);
    }
    if (atomic)
        return;
    if (write)
    {
        c->wtid = u8(t->id);
        c->wclk = t->vc.c[t->id];
        c->wpc  = pc32;
        c->wmask = mask;
    }
    else
    {
        if (c->rclk[t->id] == t->vc.c[t->id])
            c->rmask[t->id] |= mask;
        else
        {
            c->rmask[t->id] = mask;
            c->rclk[t->id]  = t->vc.c[t->id];
        }
        c->rpc[t->id & 7] = pc32;
    }
}
void mem_access(const void* p, size_t n, bool write, u64 pc)
{
    if (!active() || self->quiet)
        return;
    u64 a = u64(p);
    while (n)
    {
        const u64 off = a & 7;
        const u64 k   = std::min<u64>(8 - off, n);
        access_granule(a, u8(((1u << k) - 1) << off), write, false, pc);
        a += k;
        n -= k;
    }
}
inline void atomic_access(u64 a, size_t n, bool write, u64 pc)
{
    if (self->quiet)
        return;
    const u64 off = a & 7;
    const u64 k   = std::min<u64>(8 - off, n);
    access_granule(a, u8(((1u << k) - 1) << off), write, true, pc);
}

inline void acquire(Thr* t, Sync* s) { t->vc.join(s->vc); }
inline void tick(Thr* t) { t->vc.c[t->id]++; }
inline void release_store(Thr* t, Sync* s)
{
    s->vc = t->vc;
    tick(t);
}
inline void release_join(Thr* t, Sync* s)
{
    s->vc.join(t->vc);
    tick(t);
}
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

void hb_load(Thr* t, Sync* s, int mo)
{
    if (is_acq(mo))
        acquire(t, s);
    else
        t->acq_pending.join(s->vc);
}
void hb_store(Thr* t, Sync* s, int mo)
{
    s->version++;
    unspin(s->key);
    if (is_rel(mo))
        release_store(t, s);
    else
        s->vc = t->rel_fence;
}
void hb_rmw(Thr* t, Sync* s, int mo)
{
    s->version++;
    unspin(s->key);
    if (is_acq(mo))
        acquire(t, s);
    else
        t->acq_pending.join(s->vc);
    if (is_rel(mo))
        release_join(t, s);
    else
        s->vc.join(t->rel_fence);
}

// spin detection: called before an op that would have no effect (failed CAS / load)
void spin_check(u64 pc, u64 addr, int limit)
{
    Thr*  t = self;
    Sync* s = sync_of(addr);
    if (t->spin_pc == pc && t->spin_addr == addr && t->spin_ver == s->version)
    {
        if (++t->spin_n >= limit)
        {
            t->yielding = true;
            t->y_addr   = addr;
        }
    }
    else
    {
        t->spin_pc   = pc;
        t->spin_addr = addr;
        t->spin_ver  = s->version;
        t->spin_n    = 0;
    }
}

template<typename T>
T at_load(const volatile T* p, int mo, u64 pc)
{
    if (!active())
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    const u64 a = u64(p);
    spin_check(pc, a, 40);
    sched_point(OP_LOAD, a, false, pc);
    atomic_access(a, sizeof(T), false, pc);
    hb_load(self, sync_of(a), mo);
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
template<typename T>
void at_store(volatile T* p, T v, int mo, u64 pc)
{
    if (!active())
        return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
    const u64 a = u64(p);
    sched_point(OP_STORE, a, true, pc);
    atomic_access(a, sizeof(T), true, pc);
    hb_store(self, sync_of(a), mo);
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
}
template<typename T, typename F>
T at_rmw(volatile T* p, int mo, u64 pc, F f)
{
    if (!active())
    {
        T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        while (!__atomic_compare_exchange_n(p, &o, f(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
        return o;
    }
    const u64 a = u64(p);
    sched_point(OP_RMW, a, true, pc);
    atomic_access(a, sizeof(T), true, pc);
    hb_rmw(self, sync_of(a), mo);
    T o = *p;
    *p  = f(o);
    return o;
}
template<typename T>
int at_cas(volatile T* p, T* expected, T desired, int mo, int fmo, u64 pc)
{
    if (!active())
        return __atomic_compare_exchange_n(p, expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    const u64 a = u64(p);
    if (*p != *expected)
        spin_check(pc, a, 1);
    sched_point(OP_RMW, a, true, pc);
    if (*p == *expected)
    {
        atomic_access(a, sizeof(T), true, pc);
        hb_rmw(self, sync_of(a), mo);
        *p = desired;
        return 1;
    }
    atomic_access(a, sizeof(T), false, pc);
    hb_load(self, sync_of(a), fmo);
    *expected = *p;
    return 0;
}

// ---------------------------------------------------------------- threads
void thread_finish(Thr* t)
{
    t->st = T_DONE;
    if (t->id == 0)
        g_body_done = true;
    tick(t);
    if (g_trace)
        fprintf(stderr, "  T%d finished\n", t->id);
    self = nullptr;
    const int nx = pick(nullptr);
    handover(nullptr, nx);
}
void key_dtor(void* p)
{
    Thr* t = static_cast<Thr*>(p);
    if (self == t)
        thread_finish(t);
}
// C++ thread_local destructors registered by controlled threads (they run inside the execution, at thread end).
struct TlsDtor
{
    void (*fn)(void*);
    void* obj;
};
constexpr int TLS_CAP = 64;
struct Pooled
{
    pthread_t        real{};
    bool             created = false;
    std::atomic<int> idle{1};
    TlsDtor          dtors[TLS_CAP];
    int              ndtor = 0;
};
Pooled g_pool[NT];

void run_tls_dtors(int id)
{
    Pooled& q = g_pool[id];
    while (q.ndtor > 0)
    {
        const TlsDtor d = q.dtors[--q.ndtor];
        d.fn(d.obj);
    }
}
// Puts the thread-local block of the executable back into its initial state, so that a pooled OS thread looks like a new one.
int tls_reset_cb(dl_phdr_info* info, size_t, void*)
{
    for (int i = 0; i < info->dlpi_phnum; ++i)
    {
        const auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_TLS && info->dlpi_tls_data)
        {
            memcpy(info->dlpi_tls_data, reinterpret_cast<void*>(info->dlpi_addr + ph.p_vaddr), ph.p_filesz);
            memset(static_cast<char*>(info->dlpi_tls_data) + ph.p_filesz, 0, ph.p_memsz - ph.p_filesz);
        }
    }
    return 1; // only the executable itself
}
// Pooled OS threads: creating a kernel thread per controlled thread outruns the kernel's lazy freeing of stacks.
void* pool_main(void* p)
{
    Thr*    t = static_cast<Thr*>(p);
    Pooled& q = g_pool[t - g_thr];
    for (;;)
    {
        while (t->go.load(std::memory_order_acquire) == 0)
            futex_wait(&t->go, 0);
        t->go.store(0);
        self      = t;
        t->retval = t->fn(t->arg);
        run_tls_dtors(t->id);
        thread_finish(t);
        dl_iterate_phdr(tls_reset_cb, nullptr);
        q.idle.store(1);
        futex_wake(&q.idle);
    }
}
void* thread_main(void* p)
{
    Thr* t = static_cast<Thr*>(p);
    while (t->go.load(std::memory_order_acquire) == 0)
        futex_wait(&t->go, 0);
    t->go.store(0);
    self = t;
    pthread_setspecific(g_key, t);
    t->retval = t->fn(t->arg);
    run_tls_dtors(t->id);
    return t->retval;
}
void* body_main(void*)
{
    (*g_body)();
    return nullptr;
}

Thr* new_thread(void* (*fn)(void*), void* arg)
{
    if (g_nthr >= g_cfg.max_threads || g_nthr >= NT - 1)
        mc_fail("threads", "more than %d threads created in one execution", g_nthr);
    const int id = g_nthr;
    Thr&      t  = g_thr[id];
    t.reset(id);
    t.fn  = fn;
    t.arg = arg;
    t.op  = OP_START;
    t.vc.c[id] = 1;
    if (self)
    {
        t.vc.join(self->vc);
        tick(self);
    }
    t.st = T_LIVE;
    if (!g_cfg.fork_each)
    {
        Pooled& q = g_pool[id];
        q.ndtor   = 0;
        q.idle.store(0);
        if (!q.created)
        {
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, reinterpret_cast<void*>(STACK0 + STACK_SZ * u64(id)), STACK_SZ);
            if (r_create(&q.real, &at, pool_main, &t))
                internal_error("pthread_create");
            pthread_attr_destroy(&at);
            q.created = true;
        }
        ++g_nthr;
        t.real         = q.real;
        t.real_created = true;
        return &t;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void*>(STACK0 + STACK_SZ * u64(id)), STACK_SZ);
    ++g_nthr;
    if (r_create(&t.real, &at, thread_main, &t))
        internal_error("pthread_create");
    t.real_created = true;
    pthread_attr_destroy(&at);
    return &t;
}

void finish_item_stats()
{
    ShmLock l;
    S->execs++;
    if (g_item.lvl < MAXLVL)
        S->lvl_exec[g_item.lvl]++;
    S->points += u64(g_npts);
    const int from = g_item.n ? int(g_item.d[g_item.n - 1] >> 8) + 1 : 0;
    S->nodes += u64(std::max(0, g_npts - from));
    S->ops += g_ops;
    S->races_checked += g_races_checked;
    if (g_pruned_at >= 0)
        S->pruned++;
    if (u64(g_npts) > S->maxpts)
        S->maxpts = u64(g_npts);
    if (u64(g_nthr) > S->maxthreads)
        S->maxthreads = u64(g_nthr);
    if (g_outcome)
    {
        bool seen = false;
        for (int i = 0; i < S->nout && !seen; ++i)
            seen = S->out[i] == g_outcome;
        if (!seen && S->nout < (1 << 14))
            S->out[S->nout++] = g_outcome;
    }
}

void gen_children()
{
    if (g_replaying)
        return;
    const int from = g_item.n ? int(g_item.d[g_item.n - 1] >> 8) + 1 : 0;
    const int to   = g_pruned_at >= 0 ? std::min(g_pruned_at, g_npts) : g_npts;
    if (g_item.n >= MAXDEV)
    {
        S->overflow = true;
        return;
    }
    ShmLock l;
    for (int i = from; i < to; ++i)
    {
        const Point& p = g_pts[i];
        for (int k = 0; k < p.nopt; ++k)
        {
            const int o = p.data ? k : p.opt[k];
            if (o == p.chosen)
                continue;
            if (!p.data && o != TIME_ID && (p.asleep >> o & 1))
                continue;
            int cost = 0;
            if (!p.data)
            {
                if (p.cur_enabled && o != p.cur)
                    cost = 1;
                else if (o == TIME_ID)
                    cost = 1;
            }
            const int lvl = g_item.lvl + cost;
            if (lvl > S->bound || lvl >= MAXLVL)
                continue;
            if (S->top[lvl] >= int(LVL_CAP))
            {
                S->overflow = true;
                continue;
            }
            Item& it = S->stack[lvl][S->top[lvl]++];
            it       = g_item;
            it.lvl   = u8(lvl);
            it.hash  = p.hash;
            it.d[it.n++] = u32(i) << 8 | u32(o);
            S->outstanding.fetch_add(1);
        }
    }
}

void run_exec(const Item& it)
{
    ++g_exec;
    g_item = it;
    g_devi = 0;
    g_npts = 0; g_forced = 0;
    g_pruned_at = -1;
    g_hash      = 0xcbf29ce484222325ull;
    g_ops       = 0;
    g_nthr      = 0;
    g_vtime     = VBASE;
    g_brk       = ARENA0;
    g_body_done = false;
    g_nev       = 0;
    g_outcome   = 0;
    g_races_checked = 0;
    g_nsync     = 0;
    g_done.store(0);
    __libc_single_threaded = 0;
    g_running = true;
    Thr* t    = new_thread(body_main, nullptr);
    t->go.store(1);
    futex_wake(&t->go);
    while (g_done.load() == 0)
        futex_wait(&g_done, 0);
    g_running = false;
    bool leftover = false;
    for (int i = 0; i < g_nthr; ++i)
    {
        if (g_thr[i].st == T_LIVE)
            leftover = true;
        else if (!g_cfg.fork_each)
        {
            while (g_pool[i].idle.load() == 0)
                futex_wait(&g_pool[i].idle, 0);
        }
        else if (g_thr[i].real_created)
            r_join(g_thr[i].real, nullptr);
    }
    if (leftover && !g_cfg.fork_each)
    {
        fprintf(stderr, "mc: leftover threads need fork_each\n");
        _exit(78);
    }
}

void sandbox_signals()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags     = SA_SIGINFO | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL})
        sigaction(s, &sa, nullptr);
}

struct Scn
{
    std::string           name;
    mc::Config            cfg;
    std::function<void()> body;
};
std::vector<Scn>& scns()
{
    static std::vector<Scn> v;
    return v;
}

void run_one(const Item& it) // in a worker (or a forked child)
{
    run_exec(it);
    gen_children();
    finish_item_stats();
}

void pin(int k)
{
    cpu_set_t all, one;
    CPU_ZERO(&all);
    if (sched_getaffinity(0, sizeof all, &all))
        return;
    int cnt = CPU_COUNT(&all);
    if (cnt <= 0)
        return;
    k %= cnt;
    for (int i = 0; i < CPU_SETSIZE; ++i)
        if (CPU_ISSET(i, &all) && k-- == 0)
        {
            CPU_ZERO(&one);
            CPU_SET(i, &one);
            sched_setaffinity(0, sizeof one, &one);
            return;
        }
}

int worker_loop(int slot)
{
    g_wslot = slot;
    pin(slot);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    WSlot& w = S->slot[slot];
    int    idle = 0;
    if (!g_cfg.fork_each && !S->nowarm)
    { // initialise function-local statics once, outside of the recorded executions
        g_warm = true;
        w.item = Item{};
        w.started.store(real_ns());
        run_exec(Item{});
        g_warm = false;
    }
    for (;;)
    {
        if (S->stop.load())
            return 0;
        Item it;
        bool got = false;
        {
            ShmLock l;
            for (int lvl = 0; lvl <= S->bound && lvl < MAXLVL; ++lvl)
                if (S->top[lvl] > 0)
                {
                    it  = S->stack[lvl][--S->top[lvl]];
                    got = true;
                    break;
                }
        }
        if (!got)
        {
            if (S->outstanding.load() == 0)
                return 0;
            if (++idle > 20)
                usleep(50);
            else
                syscall(SYS_sched_yield);
            continue;
        }
        idle   = 0;
        const u64 now = real_ns();
        if (now > S->deadline_real)
        {
            S->timed_out = true;
            S->stop.store(1);
            return 0;
        }
        w.item = it;
        w.started.store(now);
        w.busy.store(1);
        if (g_cfg.fork_each)
        {
            const pid_t pid = fork();
            if (pid == 0)
            {
                run_one(it);
                S->outstanding.fetch_sub(1);
                w.busy.store(0);
                _exit(0);
            }
            int st = 0;
            while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77)))
                _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 79); // master records it (busy still set)
        }
        else
        {
            run_one(it);
            S->outstanding.fetch_sub(1);
            w.busy.store(0);
        }
    }
}

// replay one item in a fresh process; returns exit code of the child (77: violation), fills S->viol[0]
int replay_child(const Scn& sc, const Item& it, bool trace, int limit_s)
{
    S->nviol = 0;
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        pin(0);
        if (!trace)
        {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
        }
        g_replaying = true;
        alarm(unsigned(limit_s));
        signal(SIGALRM, SIG_DFL);
        if (!sc.cfg.fork_each && it.n)
            run_exec(Item{});
        g_trace = trace;
        run_exec(it);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

std::string json_escape(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\', o += c;
        else if (u8(c) < 32)
            o += ' ';
        else
            o += c;
    }
    return o;
}

std::string item_str(const Item& it)
{
    std::string s;
    for (int i = 0; i < it.n; ++i)
        s += (i ? "," : "") + std::to_string(it.d[i] >> 8) + ":" + std::to_string(it.d[i] & 255);
    return s;
}
} // namespace

// ================================================================ public API
namespace mc
{
void add(const std::string& name, Config cfg, std::function<void()> body) { scns().push_back({name, cfg, std::move(body)}); }
void rec(int code, long a, long b)
{
    if (g_nev >= sizeof g_events / sizeof g_events[0])
        mc_fail("log-overflow", "too many events");
    g_events[g_nev] = Event{self ? self->id : -1, code, a, b, long(g_vtime - VBASE), u32(g_nev)};
    if (g_trace)
        fprintf(stderr, "  T%d EVENT %d %ld %ld\n", self ? self->id : -1, code, a, b);
    ++g_nev;
}
static bool g_thorough = false; // tier
bool      thorough() { return g_thorough; }
bool      punctual() { return !g_cfg.time_races; }
EventList events() { return {g_events, g_nev}; }
uint32_t  seq() { return u32(g_nev); }
void      fail(const std::string& msg)
{
    std::string full = msg + " | log:";
    for (size_t i = 0; i < g_nev && full.size() < 1000; ++i)
        full += " T" + std::to_string(g_events[i].thread) + ":" + std::to_string(g_events[i].code) + "(" + std::to_string(g_events[i].a) + "," + std::to_string(g_events[i].b) + ")";
    mc_fail("property", "%s", full.c_str());
}
void outcome(const std::string& s)
{
    u64 h = 0xcbf29ce484222325ull;
    for (char c : s)
        h = (h ^ u8(c)) * 0x100000001b3ull;
    g_outcome = h ? h : 1;
    if (S && S->nouttxt < 8)
    {
        bool seen = false;
        for (int i = 0; i < S->nouttxt; ++i)
            seen |= s.compare(0, 599, S->outtxt[i]) == 0;
        if (!seen)
        {
            ShmLock l;
            if (S->nouttxt < 8)
                snprintf(S->outtxt[S->nouttxt++], 600, "%s", s.c_str());
        }
    }
}
int choose(int n)
{
    if (!active() || n <= 1)
        return 0;
    if (n > 255)
        mc_fail("harness", "choice among too many");
    if (g_npts >= MAXPTS)
        mc_fail("livelock", "too many choices");
    Point& p      = g_pts[g_npts];
    p.nopt        = u8(n);
    p.cur         = u8(self->id);
    p.cur_enabled = false;
    p.data        = true;
    p.asleep      = 0;
    hash_mix(u64(n) << 32);
    p.hash = g_hash;
    p.def  = 0;
    int ch = 0;
    if (g_devi < g_item.n && int(g_item.d[g_devi] >> 8) == g_npts)
        ch = int(g_item.d[g_devi++] & 255);
    p.chosen = u8(ch);
    ++g_npts;
    hash_mix(u64(ch) + 99);
    return ch;
}
void point()
{
    if (active())
        sched_point(OP_POINT, POINT_ADDR, true, u64(__builtin_return_address(0)));
}
int  tid() { return self ? self->id : -1; }
long vnow() { return long(g_vtime - VBASE); }
void quiet(bool on)
{
    if (self)
        self->quiet += on ? 1 : -1;
}
int live_threads()
{
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
        n += g_thr[i].st == T_LIVE;
    return n;
}
void settle_until(long vns)
{
    if (!active())
        return;
    self->settle_limit = vns ? VBASE + u64(vns) : 0;
    sched_point(OP_SETTLE, 0, false, 0);
    // everything that happened before is ordered before the settler
    for (int i = 0; i < g_nthr; ++i)
        if (i != self->id)
        {
            self->vc.join(g_thr[i].vc);
        }
    self->settle_limit = 0;
}
void settle() { settle_until(0); }
} // namespace mc

// ================================================================ instrumentation hooks
#define PC u64(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                     \
    void __tsan_read##N(void* p) { mem_access(p, N, false, PC); }                 \
    void __tsan_write##N(void* p) { mem_access(p, N, true, PC); }                 \
    void __tsan_unaligned_read##N(void* p) { mem_access(p, N, false, PC); }       \
    void __tsan_unaligned_write##N(void* p) { mem_access(p, N, true, PC); }       \
    void __tsan_volatile_read##N(void* p) { mem_access(p, N, false, PC); }        \
    void __tsan_volatile_write##N(void* p) { mem_access(p, N, true, PC); }        \
    void __tsan_unaligned_volatile_read##N(void* p) { mem_access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { mem_access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { mem_access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { mem_access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v)
{
    if (active() && *p != v)
        mem_access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { mem_access(p, 8, false, PC); }

#define ATOMICS(N, T)                                                                                                                        \
    T    __tsan_atomic##N##_load(const volatile T* p, int mo) { return at_load<T>(p, mo, PC); }                                              \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_store<T>(p, v, mo, PC); }                                                 \
    T    __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T) { return v; }); }                      \
    T    __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(o + v); }); }            \
    T    __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(o - v); }); }            \
    T    __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(o & v); }); }            \
    T    __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(o | v); }); }             \
    T    __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(o ^ v); }); }            \
    T    __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return at_rmw<T>(p, mo, PC, [v](T o) { return T(~(o & v)); }); }        \
    int  __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f) { return at_cas<T>(p, e, d, mo, f, PC); }       \
    int  __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f) { return at_cas<T>(p, e, d, mo, f, PC); }         \
    T    __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f)                                                     \
    {                                                                                                                                        \
        at_cas<T>(p, &e, d, mo, f, PC);                                                                                                      \
        return e;                                                                                                                            \
    }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo)
{
    if (!active())
        return;
    if (is_acq(mo))
        self->vc.join(self->acq_pending);
    if (is_rel(mo))
    {
        self->rel_fence = self->vc;
        tick(self);
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- pthread
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_mlock(m);
    }
    const u64 a = u64(m);
    Thr*      t = self;
    t->join_target = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP ? 1 : 0;
    {
        Cell* c = cell_of(a);
        if (c && c->freed)
            mc_fail("use-after-free", "T%d locks a destroyed mutex at [%s]", t->id, symbolize(PC).c_str());
    }
    sched_point(OP_LOCK, a, true, PC);
    Sync* s = sync_of(a);
    if (s->owner == t->id + 1)
        s->count++;
    else
    {
        s->owner = t->id + 1;
        s->count = 1;
        s->version++;
    }
    acquire(t, s);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_mtrylock(m);
    }
    const u64 a = u64(m);
    Thr*      t = self;
    sched_point(OP_TRYLOCK, a, true, PC);
    Sync* s = sync_of(a);
    if (s->owner == 0 || (s->owner == t->id + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP))
    {
        s->owner = t->id + 1;
        s->count++;
        s->version++;
        acquire(t, s);
        return 0;
    }
    if (s->owner > 0)
        g_thr[s->owner - 1].asleep = false; // the step of the owner may release it
    spin_check(PC, a, 1);
    return EBUSY;
}
static void unlock_impl(Thr* t, u64 a, u64 pc)
{
    Sync* s = sync_of(a);
    if (s->owner != t->id + 1)
        mc_fail("bad-unlock", "T%d unlocks a mutex it does not hold", t->id);
    if (--s->count == 0)
    {
        access_granule(a, 255, true, false, pc); // an unlock races with the end of the mutex' life
        s->owner = 0;
        s->version++;
        release_store(t, s);
        unspin(a);
    }
    wake_sleepers(a, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_munlock(m);
    }
    Cell* c = cell_of(u64(m));
    if (c && c->freed)
        mc_fail("use-after-free", "T%d unlocks a destroyed mutex at [%s]", self->id, symbolize(PC).c_str());
    unlock_impl(self, u64(m), PC);
    return 0;
}
static int cond_wait_impl(u64 c, pthread_mutex_t* m, u64 deadline, u64 pc)
{
    Thr*      t = self;
    const u64 a = u64(m);
    {
        Cell* cc = cell_of(c);
        if (cc && cc->freed)
            mc_fail("use-after-free", "T%d waits on a destroyed condition variable at [%s]", t->id, symbolize(pc).c_str());
    }
    t->addr2 = a;
    sched_point(OP_CONDWAIT, c, true, pc);
    Sync*     s    = sync_of(a);
    const int cnt  = s->count;
    s->count       = 1;
    unlock_impl(t, a, pc);
    t->signalled = t->timed_out = false;
    t->deadline  = deadline;
    sched_point(OP_WAITING, c, true, pc);
    t->addr2    = 0;
    t->deadline = 0;
    s           = sync_of(a);
    s->owner    = t->id + 1;
    s->count    = cnt;
    s->version++;
    acquire(t, s);
    wake_sleepers(a, true);
    return t->signalled ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!active())
    {
        load_real();
        return r_cwait(c, m);
    }
    return cond_wait_impl(u64(c), m, 0, PC);
}
static u64 ts_ns(const timespec* ts)
{
    long long v = (long long)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    return v < 1 ? 1 : u64(v);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!active())
    {
        load_real();
        return r_ctimed(c, m, ts);
    }
    return cond_wait_impl(u64(c), m, ts_ns(ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!active())
    {
        load_real();
        return r_cclock(c, m, k, ts);
    }
    return cond_wait_impl(u64(c), m, ts_ns(ts), PC);
}
static int notify_impl(u64 c, bool all, u64 pc)
{
    {
        Cell* cc = cell_of(c);
        if (cc && cc->freed)
            mc_fail("use-after-free", "T%d notifies a destroyed condition variable at [%s]", self->id, symbolize(pc).c_str());
    }
    sched_point(OP_NOTIFY, c, true, pc);
    int w[NT], n = 0;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].st == T_LIVE && g_thr[i].op == OP_WAITING && g_thr[i].addr == c && !g_thr[i].signalled)
            w[n++] = i;
    if (!n)
        return 0;
    if (all)
        for (int i = 0; i < n; ++i)
            g_thr[w[i]].signalled = true;
    else
        g_thr[w[n > 1 ? mc::choose(n) : 0]].signalled = true;
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!active())
    {
        load_real();
        return r_csignal(c);
    }
    return notify_impl(u64(c), false, PC);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!active())
    {
        load_real();
        return r_cbcast(c);
    }
    return notify_impl(u64(c), true, PC);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_rdlock(m);
    }
    sched_point(OP_RDLOCK, u64(m), true, PC);
    Sync* s = sync_of(u64(m));
    s->count++;
    s->version++;
    acquire(self, s);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_wrlock(m);
    }
    for (;;)
    {
        self->join_target = 0;
        sched_point(OP_LOCK, u64(m), true, PC);
        Sync* s = sync_of(u64(m));
        if (s->count == 0)
        {
            s->owner = self->id + 1;
            s->version++;
            acquire(self, s);
            return 0;
        }
        self->yielding = true;
        self->y_addr   = u64(m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
{
    if (!active())
    {
        load_real();
        return r_rwunlock(m);
    }
    unspin(u64(m));
    Sync* s = sync_of(u64(m));
    if (s->owner == self->id + 1)
    {
        s->owner = 0;
        s->version++;
        release_join(self, s);
    }
    else
    {
        s->count--;
        s->version++;
        release_join(self, s);
    }
    wake_sleepers(u64(m), true);
    return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
{
    load_real();
    if (!active())
        return r_create(out, at, fn, arg);
    Thr* t = new_thread(fn, arg);
    *out   = t->real;
    return 0;
}
static int find_thread(pthread_t p)
{
    for (int i = g_nthr - 1; i >= 0; --i)
        if (g_thr[i].real_created && pthread_equal(g_thr[i].real, p))
            return i;
    return -1;
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso);
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) noexcept
{
    if (!self)
        return __cxa_thread_atexit_impl(fn, obj, dso);
    Pooled& q = g_pool[self->id];
    if (q.ndtor >= TLS_CAP)
        internal_error("too many thread_local destructors");
    q.dtors[q.ndtor++] = {fn, obj};
    return 0;
}
int pthread_join(pthread_t p, void** ret)
{
    load_real();
    if (!active())
        return r_join(p, ret);
    const int i = find_thread(p);
    if (i < 0)
        internal_error("join of unknown thread");
    if (i == self->id)
        return EDEADLK;
    self->join_target = i;
    sched_point(OP_JOIN, 0, false, PC);
    self->vc.join(g_thr[i].vc);
    if (ret)
        *ret = g_thr[i].retval;
    return 0;
}
int pthread_detach(pthread_t p) noexcept
{
    load_real();
    if (!active())
        return r_detach(p);
    return 0;
}
int clock_gettime(clockid_t c, timespec* ts) noexcept
{
    if (!active())
        return int(syscall(SYS_clock_gettime, c, ts));
    if (g_cfg.time_races && !self->quiet)
        sched_point(OP_CLOCK, CLOCK_ADDR, false, PC);
    if (++self->clock_reads > 64)
    {
        // busy waiting on the clock: let others run, then let time pass
        bool others = false;
        for (int i = 0; i < g_nthr; ++i)
        {
            Thr& t = g_thr[i];
            if (i == self->id || t.st != T_LIVE)
                continue;
            // runnable, or about to be once this thread lets go of a lock
            others |= enabled(t) || ((t.op == OP_LOCK || t.op == OP_RDLOCK || t.op == OP_GUARD) && sync_of(t.addr)->owner == self->id + 1)
                   || (t.op == OP_WAITING && (t.signalled || (t.deadline && g_vtime >= t.deadline)) && sync_of(t.addr2)->owner == self->id + 1);
        }
        if (others)
        {
            self->yielding = true;
            self->y_addr   = 0;
            sched_point(OP_YIELD, 0, false, PC);
        }
        else
        {
            u64 to = g_vtime + 1000000;
            for (int i = 0; i < g_nthr; ++i)
            {
                Thr& t = g_thr[i];
                if (t.st == T_LIVE && (t.op == OP_WAITING || t.op == OP_SLEEP) && t.deadline > g_vtime && t.deadline < to)
                    to = t.deadline;
            }
            if (++self->spin_n > 2000)
                mc_fail("livelock", "thread T%d polls the clock forever", self->id);
            advance_time(to);
        }
    }
    ts->tv_sec  = time_t(g_vtime / 1000000000ull);
    ts->tv_nsec = long(g_vtime % 1000000000ull);
    return 0;
}
static void vsleep(u64 deadline, u64 pc)
{
    Thr* t = self;
    if (deadline <= g_vtime)
    {
        sched_point(OP_YIELD, 0, false, pc);
        return;
    }
    t->deadline = deadline;
    sched_point(OP_SLEEP, CLOCK_ADDR, false, pc);
    t->deadline = 0;
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (!active())
        return int(syscall(SYS_nanosleep, ts, rem));
    if (ts->tv_sec < 0 || ts->tv_nsec < 0)
    {
        errno = EINVAL;
        return -1;
    }
    vsleep(g_vtime + ts_ns(ts), PC);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem)
{
    if (!active())
        return int(syscall(SYS_clock_nanosleep, c, flags, ts, rem));
    vsleep((flags & TIMER_ABSTIME) ? ts_ns(ts) : g_vtime + ts_ns(ts), PC);
    return 0;
}
int usleep(useconds_t us)
{
    if (!active())
    {
        timespec ts{time_t(us / 1000000), long(us % 1000000) * 1000};
        return int(syscall(SYS_nanosleep, &ts, nullptr));
    }
    vsleep(g_vtime + u64(us) * 1000, PC);
    return 0;
}
int sched_yield() noexcept
{
    if (!active())
        return int(syscall(SYS_sched_yield));
    self->yielding = true;
    self->y_addr   = 0;
    sched_point(OP_YIELD, 0, false, PC);
    return 0;
}
// pthread_once / call_once
int pthread_once(pthread_once_t* o, void (*fn)())
{
    load_real();
    if (!active())
        return r_once(o, fn);
    const u64 a = u64(o);
    sched_point(OP_GUARD, a, true, PC);
    Sync* s = sync_of(a);
    acquire(self, s);
    if (*reinterpret_cast<int*>(o) == 2)
        return 0;
    s->owner = self->id + 1;
    try
    {
        fn();
    }
    catch (...)
    {
        s->owner = 0;
        throw;
    }
    *reinterpret_cast<int*>(o) = 2;
    s->owner = 0;
    release_store(self, s);
    wake_sleepers(a, true);
    return 0;
}
int __cxa_guard_acquire(long long int* g)
{
    load_real();
    if (!active())
        return r_gacq(g);
    const u64 a = u64(g);
    if (*reinterpret_cast<u8*>(g))
    {
        acquire(self, sync_of(a));
        return 0;
    }
    sched_point(OP_GUARD, a, true, PC);
    Sync* s = sync_of(a);
    acquire(self, s);
    if (*reinterpret_cast<u8*>(g))
        return 0;
    s->owner = self->id + 1;
    if (!g_cfg.fork_each)
        self->guard_depth++;
    return 1;
}
static void guard_done(long long int* g, bool ok)
{
    Sync* s  = sync_of(u64(g));
    s->owner = 0;
    s->version++;
    if (!g_cfg.fork_each)
        self->guard_depth--;
    if (ok)
        *reinterpret_cast<u8*>(g) = 1;
    release_join(self, s);
    wake_sleepers(u64(g), true);
}
void __cxa_guard_release(long long int* g)
{
    load_real();
    if (!active())
        return r_grel(g);
    guard_done(g, true);
}
void __cxa_guard_abort(long long int* g)
{
    load_real();
    if (!active())
        return r_gabort(g);
    guard_done(g, false);
}
// std::thread::hardware_concurrency(): default-sized pools have two threads
unsigned _ZNSt6thread20hardware_concurrencyEv() { return 2; }
// exception_ptr reference counting lives in libstdc++.so: give it happens-before edges
void _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv(void* p)
{
    load_real();
    r_exaddref(p);
}
void _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv(void* p)
{
    load_real();
    if (active())
    {
        const u64 a = u64(*reinterpret_cast<void**>(p));
        if (a)
        {
            Sync* s = sync_of(a ^ 0x5555000000000000ull);
            self->vc.join(s->vc);
            release_join(self, s);
        }
    }
    r_exrelease(p);
}
} // extern "C"

// ---------------------------------------------------------------- memory
namespace
{
struct Hdr
{
    u64 size;
    u32 magic;
    u32 foreign;
};
long          g_live_blocks;
constexpr u32 MAGIC_LIVE = 0xA11CE5u, MAGIC_DEAD = 0xDEADu;

void* mc_alloc(size_t n, size_t al, u64 pc)
{
    if (!active() || self->guard_depth)
    {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        return p;
    }
    if (al < 16)
        al = 16;
    u64 a = (g_brk + sizeof(Hdr) + al - 1) / al * al;
    u64 e = (a + n + 15) / 16 * 16;
    if (e + 64 > ARENA0 + ARENA_SZ)
        mc_fail("memory", "arena exhausted (runaway allocation)");
    g_brk  = e + 16; // red zone
    Hdr* h = reinterpret_cast<Hdr*>(a - sizeof(Hdr));
    h->size  = n;
    h->magic = MAGIC_LIVE;
    ++g_live_blocks;
    h->foreign = !(pc >= u64(&__executable_start) && pc < u64(&etext));
    memset(reinterpret_cast<void*>(a), 0xCD, n);
    return reinterpret_cast<void*>(a);
}
void mc_free(void* p, u64 pc)
{
    if (!p)
        return;
    const u64 a = u64(p);
    if (!in_arena(a))
        return free(p);
    if (!active())
        return;
    Hdr* h = reinterpret_cast<Hdr*>(a - sizeof(Hdr));
    if (h->magic == MAGIC_DEAD)
        mc_fail("double-free", "T%d frees %p twice at [%s]", self->id, p, symbolize(pc).c_str());
    if (h->magic != MAGIC_LIVE)
        mc_fail("bad-free", "T%d frees bad pointer %p at [%s]", self->id, p, symbolize(pc).c_str());
    h->magic = MAGIC_DEAD;
    --g_live_blocks;
    for (int i = 0; i < g_nthr; ++i)
        if (g_thr[i].asleep && g_thr[i].addr >= a && g_thr[i].addr < a + h->size)
            g_thr[i].asleep = false;
    if (!h->foreign)
        for (u64 x = a; x < a + h->size; x += 8)
        {
            if (!self->quiet)
                access_granule(x, u8(a + h->size - x >= 8 ? 255 : (1u << (a + h->size - x)) - 1), true, false, pc);
            cell_of(x)->freed = 1;
        }
    memset(p, 0xDD, h->size);
}
} // namespace
long mc::live_blocks() { return g_live_blocks; }
void* operator new(size_t n) { return mc_alloc(n, 16, PC); }
void* operator new[](size_t n) { return mc_alloc(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mc_alloc(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mc_alloc(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return mc_alloc(n, size_t(a), PC); }
void* operator new[](size_t n, std::align_val_t a) { return mc_alloc(n, size_t(a), PC); }
void  operator delete(void* p) noexcept { mc_free(p, PC); }
void  operator delete[](void* p) noexcept { mc_free(p, PC); }
void  operator delete(void* p, size_t) noexcept { mc_free(p, PC); }
void  operator delete[](void* p, size_t) noexcept { mc_free(p, PC); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { mc_free(p, PC); }
void  operator delete(void* p, std::align_val_t) noexcept { mc_free(p, PC); }
void  operator delete[](void* p, std::align_val_t) noexcept { mc_free(p, PC); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { mc_free(p, PC); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_free(p, PC); }

// ================================================================ driver
static bool load_known(const char* path, std::vector<std::string>& out)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char b[1024];
    while (fgets(b, sizeof b, f))
    {
        b[strcspn(b, "\n")] = 0;
        if (*b)
            out.push_back(b);
    }
    fclose(f);
    return true;
}

static std::string g_prop = "?";
bool mc::is(const char* p) { return g_prop == "?" || g_prop == p; }

int main(int argc, char** argv)
{
    load_real();
    __libc_single_threaded = 0;
    std::string tier = "quick", out, filter, replay, replay_dir = ".", known_file, prop = "?";
    int         workers = int(sysconf(_SC_NPROCESSORS_ONLN)), bound_override = -1;
    double      budget = 60;
    bool        list = false, trace = false, verbose = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        nx = [&] { return std::string{i + 1 < argc ? argv[++i] : ""}; };
        if (a == "--tier") tier = nx();
        else if (a == "--out") out = nx();
        else if (a == "--filter") filter = nx();
        else if (a == "--bound") bound_override = atoi(nx().c_str());
        else if (a == "--time") budget = atof(nx().c_str());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--replay-dir") replay_dir = nx();
        else if (a == "--known") known_file = nx();
        else if (a == "--property") prop = nx();
        else if (a == "--list") list = true;
        else if (a == "--trace") trace = true;
        else if (a == "-v") verbose = true;
        else if (a == "--no-reduction") g_nosleep = true;
    }
    g_prop = prop;
    mc::g_thorough = tier != "quick";
    workers = std::max(1, std::min(workers, 32));
    if (mmap(reinterpret_cast<void*>(ARENA0), REGION_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
        internal_error("mmap region");
    if (mmap(reinterpret_cast<void*>(SHADOW0), REGION_SZ / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
        internal_error("mmap shadow");
    pthread_key_create(&g_key, key_dtor);
    {
        void* bt[4];
        backtrace(bt, 4); // load libgcc now
    }
    if (list)
    {
        for (auto& s : scns())
            printf("%s\n", s.name.c_str());
        return 0;
    }
    std::vector<std::string> known;
    if (!known_file.empty())
        load_known(known_file.c_str(), known);

    auto map_shm = [&] {
        S = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (S == MAP_FAILED)
            internal_error("mmap shm");
    };
    sandbox_signals();

    if (!replay.empty())
    {
        // file: line1 scenario, line2 deviations
        FILE* f = fopen(replay.c_str(), "r");
        if (!f)
            internal_error("cannot open replay file");
        char sc[512] = {0}, dv[4096] = {0};
        if (!fgets(sc, sizeof sc, f))
            return 2;
        if (!fgets(dv, sizeof dv, f))
            dv[0] = 0;
        fclose(f);
        sc[strcspn(sc, "\n")] = 0;
        Item it{};
        for (char* p = dv; *p && *p != '\n';)
        {
            u32 idx = u32(strtoul(p, &p, 10));
            ++p;
            u32 ch = u32(strtoul(p, &p, 10));
            it.d[it.n++] = idx << 8 | ch;
            if (*p == ',')
                ++p;
        }
        map_shm();
        for (auto& s : scns())
            if (s.name == sc)
            {
                g_cfg  = s.cfg;
                g_body = &s.body;
                int rc = replay_child(s, it, true, 120);
                (void)trace;
                printf("replay exit %d\n", rc);
                return rc == 77 ? 1 : 0;
            }
        internal_error("unknown scenario");
    }

    std::vector<Scn*> todo;
    double            wsum = 0;
    // M01 (no race, no freed memory, no deadlock) is checked on every scenario with a preemption bound, whatever else the scenario decides
    for (auto& s : scns())
        if ((filter.empty() || s.name.find(filter) != std::string::npos) && (prop == "?" || !*s.cfg.tags || (" " + std::string{s.cfg.tags} + " ").find(" " + prop + " ") != std::string::npos || (prop == "M01" && std::max(s.cfg.quick_bound, s.cfg.thorough_bound) > 0))
            && (tier != "quick" || s.cfg.quick_bound >= 0 || bound_override >= 0))
        {
            todo.push_back(&s);
            wsum += s.cfg.weight;
        }
    std::string json = "{\"scenarios\":[";
    int         nviol = 0;
    const u64   t_start = real_ns();
    bool        first = true;
    for (Scn* sc : todo)
    {
        map_shm();
        g_cfg  = sc->cfg;
        g_body = &sc->body;
        int bound = tier == "quick" ? sc->cfg.quick_bound : sc->cfg.thorough_bound;
        if (bound_override >= 0)
            bound = bound_override;
        S->bound = std::min(bound, MAXLVL - 1);
        const double left  = budget - double(real_ns() - t_start) / 1e9;
        const double share = std::max(2.0, std::min(left / 2, (tier == "quick" ? 3 : 1) * left * sc->cfg.weight / std::max(0.001, wsum))); // most do not need their share
        wsum -= sc->cfg.weight;
        const u64 t0     = real_ns();
        S->deadline_real = t0 + u64(share * 1e9);
        S->stack[0][0]   = Item{};
        S->top[0]        = 1;
        S->outstanding   = 1;
        fflush(stdout);
        std::vector<pid_t> pids(size_t(workers), 0);
        auto               spawn = [&](int k) {
            const pid_t p = fork();
            if (p == 0)
                _exit(worker_loop(k));
            pids[size_t(k)] = p;
        };
        for (int k = 0; k < workers; ++k)
            spawn(k);
        int                                alive = workers, handled = 0, internal = 0;
        std::vector<Viol>                  found;
        std::vector<std::string>           knownhits;
        std::map<std::string, int>         bykind;
        auto match_known = [&](const Viol& v, std::string& which) {
            for (auto& k : known)
            {
                // "<scenario>|<kind>|<substring of message>"
                size_t a = k.find('|'), b = k.find('|', a + 1);
                if (a == std::string::npos || b == std::string::npos)
                    continue;
                if (k.substr(0, a) == sc->name && k.substr(a + 1, b - a - 1) == v.sig && std::string{v.msg}.find(k.substr(b + 1)) != std::string::npos)
                {
                    which = k;
                    return true;
                }
            }
            return false;
        };
        while (alive > 0)
        {
            int         st;
            const pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0)
            {
                usleep(2000);
                const u64 now = real_ns();
                for (int k = 0; k < workers; ++k)
                    if (pids[size_t(k)] && S->slot[k].busy.load() && now > S->slot[k].started.load() + 60ull * 1000000000ull)
                        kill(pids[size_t(k)], SIGKILL);
                continue;
            }
            if (p < 0)
                break;
            int k = -1;
            for (int i = 0; i < workers; ++i)
                if (pids[size_t(i)] == p)
                    k = i;
            if (k < 0)
                continue;
            pids[size_t(k)] = 0;
            --alive;
            if (S->slot[k].busy.load())
            { // died without reporting
                Viol v{};
                v.item = S->slot[k].item;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
                    snprintf(v.sig, sizeof v.sig, "hang"), snprintf(v.msg, sizeof v.msg, "execution did not finish within 60 s of real time");
                else if (WIFEXITED(st) && WEXITSTATUS(st) == 78)
                    ++internal, snprintf(v.sig, sizeof v.sig, "internal"), snprintf(v.msg, sizeof v.msg, "engine error");
                else
                    snprintf(v.sig, sizeof v.sig, "crash"), snprintf(v.msg, sizeof v.msg, "worker died, status %d", st);
                S->slot[k].busy.store(0);
                S->outstanding.fetch_sub(1);
                S->lock.store(0);
                ShmLock l;
                if (S->nviol < 1024)
                    S->viol[S->nviol++] = v;
            }
            bool stop = false;
            while (handled < S->nviol)
            {
                const Viol& v = S->viol[handled++];
                std::string which;
                if (match_known(v, which))
                {
                    bool dup = false;
                    for (auto& h : knownhits)
                        dup |= h == which;
                    if (!dup)
                        knownhits.push_back(which);
                    continue;
                }
                found.push_back(v);
                stop = true;
            }
            if (handled >= 900)
            {
                ShmLock l;
                if (handled == S->nviol)
                    handled = S->nviol = 0;
            }
            if (stop)
                S->stop.store(1);
            else if (!S->stop.load() && S->outstanding.load() > 0)
            {
                spawn(k);
                ++alive;
            }
        }
        Shm*         R = S;
        const double wall = double(real_ns() - t0) / 1e9;
        // completed bound: every level below the lowest level with remaining items
        int done_bound = R->bound;
        for (int l = 0; l <= R->bound; ++l)
            if (R->top[l] > 0)
            {
                done_bound = l - 1;
                break;
            }
        if (R->stop.load() && R->timed_out && done_bound == R->bound)
            done_bound = R->bound - 1;
        std::string vj;
        for (auto& v : found)
        {
            // shortest deviation first would be nicer; confirm by replaying twice
            map_shm();
            const int limit = strcmp(v.sig, "hang") == 0 ? 180 : 120;
            const int r1 = replay_child(*sc, v.item, false, limit);
            std::string s1 = S->nviol ? S->viol[0].sig : "";
            std::string m1 = S->nviol ? S->viol[0].msg : v.msg;
            const int r2 = replay_child(*sc, v.item, false, limit);
            std::string s2 = S->nviol ? S->viol[0].sig : "";
            munmap(S, sizeof(Shm));
            S = R;
            const bool confirmed = r1 != 0 && r1 == r2 && s1 == s2 && strcmp(v.sig, "internal") != 0;
            std::string file = prop + "-" + sc->name + ".replay";
            for (auto& c : file)
                if (c == '/' || c == '?')
                    c = '_';
            file = replay_dir + "/" + file;
            if (confirmed)
            {
                ++nviol;
                FILE* f = fopen(file.c_str(), "w");
                if (f)
                {
                    fprintf(f, "%s\n%s\nkind: %s\nmessage: %s\n", sc->name.c_str(), item_str(v.item).c_str(), v.sig, m1.c_str());
                    fclose(f);
                }
                printf("FOUND scenario=%s kind=%s replay=%s\n  %s\n", sc->name.c_str(), v.sig, file.c_str(), m1.c_str());
            }
            else
                printf("UNCONFIRMED scenario=%s kind=%s r1=%d r2=%d dev=%s %s\n", sc->name.c_str(), v.sig, r1, r2, item_str(v.item).c_str(), v.msg);
            vj += std::string(vj.empty() ? "" : ",") + "{\"kind\":\"" + json_escape(v.sig) + "\",\"confirmed\":" + (confirmed ? "true" : "false") + ",\"replay\":\"" + json_escape(file) + "\",\"msg\":\"" + json_escape(m1) + "\"}";
            if (confirmed)
                break;
        }
        for (auto& h : knownhits)
            printf("KNOWN scenario=%s %s\n", sc->name.c_str(), h.c_str());
        std::string kh;
        for (auto& h : knownhits)
            kh += std::string(kh.empty() ? "" : ",") + "\"" + json_escape(h) + "\"";
        std::string outs;
        for (int i = 0; i < R->nouttxt && i < 3; ++i)
            outs += std::string(outs.empty() ? "" : ",") + "\"" + json_escape(R->outtxt[i]) + "\"";
        std::string lv;
        for (int i = 0; i <= R->bound; ++i)
            lv += (i ? "," : "") + std::to_string(R->lvl_exec[i]);
        char buf[1200];
        snprintf(buf, sizeof buf, "{\"name\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"ops\":%llu,\"decisions\":%llu,\"redundant\":%llu,\"nondet\":%llu,\"bound\":%d,\"completed_bound\":%d,\"exhausted\":%s,\"by_preemptions\":[%s],\"max_decisions\":%llu,\"threads\":%llu,\"accesses_checked\":%llu,\"outcomes\":%d,\"wall_s\":%.2f,",
                 sc->name.c_str(), (unsigned long long)R->execs, (unsigned long long)R->nodes, (unsigned long long)R->ops, (unsigned long long)R->points, (unsigned long long)R->pruned, (unsigned long long)R->nondet, R->bound, done_bound, (done_bound == R->bound && !R->overflow) ? "true" : "false", lv.c_str(), (unsigned long long)R->maxpts, (unsigned long long)R->maxthreads, (unsigned long long)R->races_checked, R->nout, wall);
        json += std::string(first ? "" : ",") + buf + "\"violations\":[" + vj + "],\"known\":[" + kh + "],\"internal\":" + std::to_string(internal) + ",\"sample_outcomes\":[" + outs + "]}";
        first = false;
        if (verbose)
            printf("%-40s exec=%-8llu nodes=%-8llu pruned=%-7llu nondet=%llu bound=%d/%d [%s] maxpts=%llu thr=%llu outcomes=%d %.1fs (%.0f/s)%s\n", sc->name.c_str(), (unsigned long long)R->execs, (unsigned long long)R->nodes, (unsigned long long)R->pruned, (unsigned long long)R->nondet, done_bound, R->bound, lv.c_str(), (unsigned long long)R->maxpts, (unsigned long long)R->maxthreads, R->nout, wall, double(R->execs) / wall, R->overflow ? " OVERFLOW" : "");
        munmap(R, sizeof(Shm));
        fflush(stdout);
    }
    json += "]}\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (f)
        {
            fputs(json.c_str(), f);
            fclose(f);
        }
    }
    return nviol ? 1 : 0;
}
