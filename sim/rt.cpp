// Deterministic simulation runtime: baton-passing scheduler over real threads, seeded preemption at
// every instrumented memory access, vector-clock race detection, recorded decisions and replay.
// Flavours: -DSIM_TSAN (provides the __tsan_* entry points), -DSIM_MALLOC (interposes malloc).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#ifdef SIM_MALLOC
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
}
#endif

namespace sim {
// ---------------------------------------------------------------------------
// raw syscalls (the libc entry points are interposed)
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

struct Rng {
    uint64_t s[2];
    static uint64_t mixer(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t a, uint64_t b, uint64_t c)
    {
        uint64_t x = a * 0x9e3779b97f4a7c15ull + b * 0xd1342543de82ef95ull + c * 0x2545f4914f6cdd1dull + 1;
        s[0] = mixer(x);
        s[1] = mixer(x);
        if (!s[0] && !s[1])
            s[0] = 1;
    }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------------------
constexpr int MAXT = 64;
constexpr uint32_t MAX_PRE = 1 << 17, MAX_CH = 1 << 16, MAX_F = 4096, MAX_KIND = 160, MAX_PROBE = 160,
                   MAX_STATE = 4096, MAX_OPLOG = 1 << 16;
struct Pre {
    uint64_t step;
    uint32_t tid;
};
struct Ch {
    uint32_t kind, ord, val;
};
struct Shared {
    int status; // 0 running, 1 ok, 2 violation
    char cls[96];
    char msg[4096];
    uint64_t hash, ihash, steps, switches, now, access_points;
    uint32_t npre, nch, nf, nkind, nprobe, nstate, noplog, nops;
    uint32_t trace_overflow;
    Pre pre[MAX_PRE];
    Ch ch[MAX_CH];
    Ch f[MAX_F];
    char kname[MAX_KIND][40];
    uint64_t kfired[MAX_KIND], kseen[MAX_KIND];
    char pname[MAX_PROBE][56];
    uint64_t pcount[MAX_PROBE];
    uint64_t states[MAX_STATE];
    char oplog[MAX_OPLOG];
};
static Shared* sh;
static char* ush;
static size_t ush_size = 64u << 20;

struct VC {
    uint32_t c[MAXT];
};
enum St { FREE, RUNNABLE, BLOCKED, FINISHED };
struct Thread {
    St st = FREE;
    int fut = 0;
    bool idle = false; // parked pool worker
    VC vc;
    uint64_t wake_at = 0; // sleeping / timed wait
    bool timed = false;
    bool timed_out = false;
    const void* on = nullptr;
    const char* why = "";
    pthread_t pt{};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    int joiner = -1;
    double weight = 1.0;
    int quiet = 0;
    const void* spin_addr = nullptr;
    int spin_n = 0;
};
static Thread th[MAXT];
static __thread int tls_tid = -1;

struct Spec {
    std::string scenario;
    uint64_t seed = 0, run = 0;
    bool replay = false;
    std::vector<uint32_t> drop;
    std::vector<Pre> pre;
    std::map<std::pair<std::string, uint32_t>, uint32_t> ch, f;
};

struct Mutex {
    int owner = -1;
    int count = 0;
    VC vc{};
};
struct RwLock {
    int writer = -1;
    int readers = 0;
    VC vc{};
};

struct FKind {
    double p = 0;
    int left = 0;
    uint64_t at = 0; // ordinal (from 1) that fires in any case
    bool on = false;
};

struct G {
    bool active = false; // inside a run
    bool conc = false;   // more than one busy thread: instrumented slow path
    int cur = 0, nth = 1;
    int nbusy = 1;
    uint64_t step = 0, next_pre = ~0ull, switches = 0, step_cap = ~0ull;
    uint64_t mean = 1000;
    bool preempt = true, races = true, force = false;
    uint64_t crash_step = 0;
    int crash_sig = 0;
    bool burst = false;
    int burst_left = 0;
    Rng w, s, f, e;
    uint64_t now = 1700000000ull * 1000000000ull;
    uint64_t t0 = 0;
    int64_t clock_off = 0;
    uint64_t seqno = 0;
    bool foff = false;
    Spec* spec = nullptr;
    size_t rpre = 0;
    std::set<uint32_t>* drop = nullptr;
    std::unordered_map<const void*, Mutex>* mtx = nullptr;
    std::unordered_map<const void*, RwLock>* rw = nullptr;
    std::unordered_map<const void*, VC>* sync = nullptr;
    VC fence_vc{};
    int workers = 4;
    uint64_t garbage = 0;
    uint64_t gctr = 0;
    // alloc
    uint64_t fail_at = 0, nalloc = 0;
    size_t limit = 0, largest = 0;
    bool alloc_fired = false;
    bool tracking = false;
    int64_t live = 0, live_b = 0;
    int in_rt = 0; // runtime-internal allocations
    uint64_t maxsw = 200000;
};
static G g;
static FKind fk[MAX_KIND];

struct RtScope {
    RtScope() { g.in_rt++; }
    ~RtScope() { g.in_rt--; }
};

RtAlloc::RtAlloc() { g.in_rt++; }
RtAlloc::~RtAlloc() { g.in_rt--; }

static uint32_t kind_id(const char* k)
{
    for (uint32_t i = 0; i < sh->nkind; ++i)
        if (!strcmp(sh->kname[i], k))
            return i;
    if (sh->nkind >= MAX_KIND)
        abort();
    uint32_t i = sh->nkind++;
    strncpy(sh->kname[i], k, 39);
    sh->kname[i][39] = 0;
    return i;
}

// ---------------------------------------------------------------------------
static void fwait(int* p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void fwake(int* p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
}

static bool trace_folds;
static void fold(uint64_t& h, uint64_t v)
{
    if (__builtin_expect(trace_folds, 0) && &h == &sh->hash) {
        char b[64];
        int n = snprintf(b, sizeof b, "F step %llu: %llx\n", (unsigned long long)g.step, (unsigned long long)v);
        raw_syscall(SYS_write, 2, (long)b, n);
    }
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
}

static void update_conc()
{
    int n = 0;
    for (int i = 0; i < g.nth; ++i)
        if ((th[i].st == RUNNABLE || th[i].st == BLOCKED) && !th[i].idle)
            ++n;
    g.nbusy = n;
    g.conc = n >= 2 || g.force;
}

[[noreturn]] static void finish(int status)
{
    sh->status = status;
    sh->steps = g.step;
    sh->switches = g.switches;
    sh->now = g.now - g.t0;
    raw_syscall(SYS_exit_group, status == 1 ? 0 : 43);
    __builtin_unreachable();
}

void violation(const char* cls, const std::string& msg)
{
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    fold(sh->hash, 0xbad);
    finish(2);
}

// --- picking the next thread -------------------------------------------------
static int runnable_list(int* out, int except)
{
    int n = 0;
    for (int i = 0; i < g.nth; ++i)
        if (th[i].st == RUNNABLE && i != except)
            out[n++] = i;
    return n;
}

static void draw_next()
{
    if (g.spec->replay) {
        auto& v = g.spec->pre;
        while (g.rpre < v.size() && v[g.rpre].step < g.step)
            g.rpre++;
        g.next_pre = g.rpre < v.size() ? v[g.rpre].step : ~0ull;
        return;
    }
    if (!g.preempt) {
        g.next_pre = ~0ull;
        return;
    }
    uint64_t m = g.mean;
    if (g.burst_left > 0) {
        g.burst_left--;
        m = 12;
    } else if (g.burst && g.s.below(20) == 0)
        g.burst_left = 12;
    if (g.switches > 4000)
        m *= 1 + g.switches / 2000;
    double u = g.s.unit();
    uint64_t d = 1 + (uint64_t)(-__builtin_log(1.0 - u) * (double)m);
    g.next_pre = g.step + d;
}

static void do_switch(int t)
{
    int me = tls_tid;
    if (t == me)
        return;
    g.switches++;
    g.now += 1000;
    fold(sh->ihash, (g.step << 8) ^ (uint64_t)t);
    fold(sh->hash, (g.step << 8) ^ (uint64_t)t);
    g.cur = t;
    fwake(&th[t].fut);
    fwait(&th[me].fut);
}

static int pick_weighted(const int* l, int n)
{
    double tot = 0;
    for (int i = 0; i < n; ++i)
        tot += th[l[i]].weight;
    double u = g.s.unit() * tot;
    for (int i = 0; i < n; ++i) {
        u -= th[l[i]].weight;
        if (u <= 0)
            return i;
    }
    return n - 1;
}

// voluntary point where a preemption may happen (step counter already advanced)
static void preempt_here()
{
    if (g.step >= g.step_cap)
        violation("no-progress", "the run exceeded its step budget");
    int l[MAXT];
    if (g.spec->replay) {
        auto& v = g.spec->pre;
        int t = -1;
        if (g.rpre < v.size() && v[g.rpre].step == g.step)
            t = (int)v[g.rpre++].tid;
        draw_next();
        if (t >= 0 && t < g.nth && t != tls_tid && th[t].st == RUNNABLE && !th[tls_tid].quiet)
            do_switch(t);
        return;
    }
    draw_next();
    if (th[tls_tid].quiet)
        return;
    int n = runnable_list(l, tls_tid);
    if (!n)
        return;
    int t = l[pick_weighted(l, n)];
    if (sh->npre < MAX_PRE)
        sh->pre[sh->npre++] = {g.step, (uint32_t)t};
    else
        sh->trace_overflow = 1;
    do_switch(t);
}

static inline void step_point()
{
    if (++g.step >= g.next_pre || g.step >= g.step_cap)
        preempt_here();
    if (__builtin_expect(g.crash_sig, 0) && g.step >= g.crash_step && tls_tid >= 0 && !th[tls_tid].quiet) {
        int s = g.crash_sig;
        g.crash_sig = 0;
        raise(s);
    }
}
void crash_at(uint64_t step, int sig)
{
    g.crash_step = g.step + step;
    g.crash_sig = sig;
}
void set_cpu_limit(int sec)
{
    struct rlimit rl{(rlim_t)sec, (rlim_t)sec + 5};
    setrlimit(RLIMIT_CPU, &rl);
    alarm((unsigned)sec * 2);
}
bool crash_pending() { return g.crash_sig != 0; }


uint32_t choose_impl(const char* kind, uint32_t n, double p)
{
    if (n <= 1)
        return 0;
    RtScope rs;
    uint32_t k = kind_id(kind);
    uint32_t ord = (uint32_t)sh->kseen[k]++;
    uint32_t v = 0;
    if (g.spec->replay) {
        auto it = g.spec->ch.find({kind, ord});
        if (it != g.spec->ch.end())
            v = it->second % n;
    } else {
        double u = g.s.unit();
        v = (uint32_t)g.s.below(n);
        if (u >= p)
            v = 0;
    }
    if (v) {
        sh->kfired[k]++;
        if (sh->nch < MAX_CH)
            sh->ch[sh->nch++] = {k, ord, v};
        else
            sh->trace_overflow = 1;
    }
    fold(sh->ihash, ((uint64_t)k << 40) ^ v);
    fold(sh->hash, ((uint64_t)k << 40) ^ v);
    return v;
}
uint32_t choose(const char* kind, uint32_t n) { return choose_impl(kind, n, 2.0); }
uint32_t choose_p(const char* kind, uint32_t n, double p) { return choose_impl(kind, n, p); }

// current thread cannot go on: give the baton away, returns when it is runnable and scheduled again
static void give_away(bool exiting)
{
    for (;;) {
        int l[MAXT];
        int n = runnable_list(l, -1);
        if (n) {
            int t;
            if (!g.preempt && !g.spec->replay)
                t = l[0];
            else
                t = l[choose("next", (uint32_t)n)];
            if (exiting) {
                g.switches++;
                fold(sh->ihash, (g.step << 8) ^ (uint64_t)t);
                fold(sh->hash, (g.step << 8) ^ (uint64_t)t);
                g.cur = t;
                fwake(&th[t].fut);
                return;
            }
            if (t == tls_tid)
                return;
            do_switch(t);
            return;
        }
        // nobody runnable: jump the clock to the next timer
        int best = -1;
        for (int i = 0; i < g.nth; ++i)
            if (th[i].st == BLOCKED && th[i].timed && (best < 0 || th[i].wake_at < th[best].wake_at))
                best = i;
        if (best < 0) {
            std::string s = "no thread can make progress:";
            for (int i = 0; i < g.nth; ++i)
                if (th[i].st == BLOCKED && !th[i].idle)
                    s += " thread " + std::to_string(i) + " blocked in " + th[i].why + ";";
            violation("deadlock", s);
        }
        if (th[best].wake_at > g.now)
            g.now = th[best].wake_at;
        th[best].st = RUNNABLE;
        th[best].timed = false;
        th[best].timed_out = true;
    }
}

static void block(const void* on, const char* why, bool timed = false, uint64_t until = 0)
{
    Thread& t = th[tls_tid];
    t.st = BLOCKED;
    t.on = on;
    t.why = why;
    t.timed = timed;
    t.timed_out = false;
    t.wake_at = until;
    give_away(false);
    t.on = nullptr;
}
static void wake(int i)
{
    th[i].st = RUNNABLE;
    th[i].timed = false;
}
static int wake_on(const void* on, int maxn)
{
    int l[MAXT], n = 0;
    for (int i = 0; i < g.nth; ++i)
        if (th[i].st == BLOCKED && th[i].on == on)
            l[n++] = i;
    int done = 0;
    while (n && done < maxn) {
        uint32_t k = maxn >= n - done && maxn > MAXT ? 0 : choose("wake", (uint32_t)n);
        wake(l[k]);
        l[k] = l[n - 1];
        --n;
        ++done;
    }
    return done;
}

// --- vector clocks ------------------------------------------------------------
static void vjoin(VC& a, const VC& b)
{
    for (int i = 0; i < g.nth; ++i)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
static void tick() { th[tls_tid].vc.c[tls_tid]++; }
static void release_to(VC& v)
{
    vjoin(v, th[tls_tid].vc);
    tick();
}
static void acquire_from(const VC& v) { vjoin(th[tls_tid].vc, v); }

// --- shadow memory --------------------------------------------------------------
struct Slot {
    uint32_t clk;
    uint8_t tid; // +1, 0 = empty
    uint8_t mask;
    uint8_t flags; // 1 write, 2 atomic
    uint8_t pad;
    const void* pc;
};
constexpr int NS = 4;
struct Cell {
    Slot s[NS];
};
constexpr size_t PG = 4096, GR = PG / 8;
struct SPage {
    Cell c[GR];
};
constexpr uint32_t TAB = 1 << 18;
static uintptr_t* tab_key;
static SPage** tab_val;
static uint32_t tab_n;
static uintptr_t last_key = ~0ull;
static SPage* last_page;
static char* arena;
static size_t arena_left;

static SPage* spage(uintptr_t a, bool create)
{
    uintptr_t k = a / PG;
    if (k == last_key)
        return last_page;
    if (!tab_key) {
        if (!create)
            return nullptr;
        tab_key = (uintptr_t*)mmap(nullptr, TAB * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        tab_val = (SPage**)mmap(nullptr, TAB * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    uint32_t h = (uint32_t)((k * 0x9e3779b97f4a7c15ull) >> 40) & (TAB - 1);
    while (tab_key[h] && tab_key[h] != k)
        h = (h + 1) & (TAB - 1);
    if (!tab_key[h]) {
        if (!create || tab_n > TAB / 2)
            return nullptr;
        if (arena_left < sizeof(SPage)) {
            arena_left = sizeof(SPage) * 256;
            arena = (char*)mmap(nullptr, arena_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        tab_key[h] = k;
        tab_val[h] = (SPage*)arena;
        arena += sizeof(SPage);
        arena_left -= sizeof(SPage);
        tab_n++;
    }
    last_key = k;
    last_page = tab_val[h];
    return last_page;
}

static void clear_shadow(uintptr_t a, size_t n)
{
    if (!tab_key || !n)
        return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t pe = (a / PG + 1) * PG;
        uintptr_t x = pe < e ? pe : e;
        if (SPage* p = spage(a, false)) {
            size_t i0 = (a % PG) / 8, i1 = (x - 1) % PG / 8;
            memset((void*)&p->c[i0], 0, (i1 - i0 + 1) * sizeof(Cell));
        }
        a = x;
    }
}

static void report_race(const Slot& s, uint8_t flags, const void* pc)
{
    char b[512];
    snprintf(b, sizeof b,
             "conflicting unsynchronised accesses: thread %d %s at pc %p, thread %d %s at pc %p",
             s.tid - 1, (s.flags & 1) ? "write" : "read", s.pc, tls_tid, (flags & 1) ? "write" : "read", pc);
    violation("data-race", b);
}

static void race_cell(uintptr_t gran, uint8_t mask, uint8_t flags, const void* pc)
{
    SPage* p = spage(gran * 8, true);
    if (!p)
        return;
    Cell& c = p->c[gran % GR];
    int me = tls_tid;
    VC& vc = th[me].vc;
    int put = -1, old = -1;
    for (int i = 0; i < NS; ++i) {
        Slot& s = c.s[i];
        if (!s.tid) {
            if (put < 0)
                put = i;
            continue;
        }
        int ot = s.tid - 1;
        if (ot == me) {
            if (s.mask == mask && ((s.flags & 1) <= (flags & 1)) && ((s.flags & 2) >= (flags & 2)))
                put = i; // superseded
            continue;
        }
        if (!(s.mask & mask))
            continue;
        if (s.clk <= vc.c[ot]) {
            if ((flags & 1) && (s.mask & ~mask) == 0)
                old = i; // ordered before and fully overwritten
            else if (old < 0)
                old = i;
            continue;
        }
        if (!((s.flags | flags) & 1))
            continue;
        if ((s.flags & 2) && (flags & 2))
            continue;
        report_race(s, flags, pc);
    }
    if (put < 0)
        put = old >= 0 ? old : (int)(g.step % NS);
    c.s[put] = Slot{vc.c[me], (uint8_t)(me + 1), mask, flags, 0, pc};
}

static void race_range(uintptr_t a, size_t n, uint8_t flags, const void* pc)
{
    if (!g.races || th[tls_tid].quiet || !n)
        return;
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t gr = a / 8;
        size_t off = a % 8, len = e - a < 8 - off ? e - a : 8 - off;
        race_cell(gr, (uint8_t)(((1u << len) - 1) << off), flags, pc);
        a += len;
    }
}

static inline bool simthread() { return g.active && tls_tid >= 0; }

[[maybe_unused]] static void access_slow(uintptr_t a, size_t n, uint8_t flags, const void* pc)
{
    if (tls_tid < 0)
        return;
    sh->access_points++;
    if (__builtin_expect(trace_folds, 0)) {
        char b[80];
        int k = snprintf(b, sizeof b, "A %llu %d %p %zu\n", (unsigned long long)g.step, tls_tid, pc, n);
        raw_syscall(SYS_write, 2, (long)b, k);
    }
    step_point();
    race_range(a, n, flags, pc);
}

// --- public API -------------------------------------------------------------------
uint64_t wrand() { return g.w.next(); }
uint64_t wrand(uint64_t n) { return g.w.below(n); }
double wunit() { return g.w.unit(); }
bool keep_op()
{
    uint32_t i = sh->nops++;
    return !(g.drop && g.drop->count(i));
}
void fault_enable(const char* kind, double p, int m)
{
    uint32_t k = kind_id(kind);
    fk[k].p = p;
    fk[k].left = m;
    fk[k].on = true;
}
void fault_disable(const char* kind)
{
    uint32_t k = kind_id(kind);
    fk[k].on = false;
    fk[k].at = 0;
}
void fault_nth(const char* kind, uint64_t nth)
{
    uint32_t k = kind_id(kind);
    fk[k].at = nth ? sh->kseen[k] + nth : 0;
}
void faults_off() { g.foff = true; }
void faults_on() { g.foff = false; }
uint32_t fault_value(const char* kind, uint32_t n)
{
    if (!g.active)
        return 0;
    RtScope rs;
    uint32_t k = kind_id(kind);
    uint32_t ord = (uint32_t)sh->kseen[k]++;
    uint32_t v = 0;
    if (g.spec->replay) {
        auto it = g.spec->f.find({kind, ord});
        if (it != g.spec->f.end())
            v = 1 + (it->second - 1) % n;
        if (g.foff)
            v = 0;
    } else if (fk[k].on && !g.foff && fk[k].left > 0) {
        double u = g.f.unit();
        uint32_t x = 1 + (uint32_t)g.f.below(n);
        if (u < fk[k].p)
            v = x;
    }
    if (!g.spec->replay && !g.foff && fk[k].at && ord + 1 == fk[k].at)
        v = 1;
    if (v) {
        fk[k].left--;
        sh->kfired[k]++;
        if (sh->nf < MAX_F)
            sh->f[sh->nf++] = {k, ord, v};
        fold(sh->ihash, ((uint64_t)k << 40) ^ ord ^ ((uint64_t)v << 20));
        fold(sh->hash, ((uint64_t)k << 40) ^ ord ^ ((uint64_t)v << 20));
    }
    return v;
}
bool fault(const char* kind) { return fault_value(kind, 1) != 0; }
uint64_t fault_count(const char* kind) { return sh->kfired[kind_id(kind)]; }
uint64_t faults_fired() { return sh->nf; }
void mix(uint64_t v) { fold(sh->hash, v); }
void mix(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    fold(sh->hash, h);
}
void mix(const std::string& s) { mix(s.data(), s.size()); }
void probe(const char* name, uint64_t n)
{
    for (uint32_t i = 0; i < sh->nprobe; ++i)
        if (!strcmp(sh->pname[i], name)) {
            sh->pcount[i] += n;
            return;
        }
    if (sh->nprobe < MAX_PROBE) {
        snprintf(sh->pname[sh->nprobe], 56, "%s", name);
        sh->pcount[sh->nprobe++] = n;
    }
}
void state(uint64_t h)
{
    if (sh->nstate < MAX_STATE)
        sh->states[sh->nstate++] = h;
}
void op(const std::string& t)
{
    if (sh->noplog + t.size() + 2 < MAX_OPLOG) {
        memcpy(sh->oplog + sh->noplog, t.data(), t.size());
        sh->noplog += (uint32_t)t.size();
        sh->oplog[sh->noplog++] = '\n';
    }
    mix(t);
}
int self() { return tls_tid; }
void yield()
{
    if (simthread() && g.conc) {
        step_point();
        if (g.preempt && !g.spec->replay && !th[tls_tid].quiet && g.s.below(3) == 0 && g.next_pre > g.step + 1)
            g.next_pre = g.step + 1;
        step_point();
    }
}
void set_workers(int n) { g.workers = n < 1 ? 1 : n; }
void set_preempt(bool on)
{
    g.preempt = on;
    draw_next();
}
void set_rate(uint64_t m)
{
    g.mean = m < 2 ? 2 : m;
    draw_next();
}
void set_race_detect(bool on) { g.races = on; }
uint64_t steps() { return g.step; }
uint64_t switches() { return g.switches; }
uint64_t now_ns() { return g.now; }
void advance_ns(uint64_t d) { g.now += d; }
void set_clock_offset(int64_t ns) { g.clock_off = ns; }
uint64_t seq() { return ++g.seqno; }
bool in_run() { return g.active; }
void force_steps(bool on)
{
    g.force = on;
    update_conc();
}
void set_entropy(uint64_t s) { g.e.seed(s, 5, 5); }
void set_garbage(uint64_t s) { g.garbage = s; }
void set_step_cap(uint64_t c) { g.step_cap = c; }
uint64_t run_index() { return g.spec ? g.spec->run : 0; }
bool replaying() { return g.spec && g.spec->replay; }
Quiet::Quiet()
{
    if (tls_tid >= 0)
        th[tls_tid].quiet++;
}
Quiet::~Quiet()
{
    if (tls_tid >= 0)
        th[tls_tid].quiet--;
}
void NonReentrant::enter(const char* what)
{
    if (!simthread())
        return;
    if (owner >= 0 && owner != tls_tid)
        violation("concurrent-entry", std::string(name) + ": " + what + " entered by thread " + std::to_string(tls_tid) +
                                          " while thread " + std::to_string(owner) + " is inside " + fn);
    owner = tls_tid;
    depth++;
    fn = what;
    yield();
}
void NonReentrant::leave()
{
    if (!simthread())
        return;
    yield();
    if (--depth == 0)
        owner = -1;
}
void alloc_fail_at(uint64_t n)
{
    g.fail_at = n ? g.nalloc + n : 0;
    g.alloc_fired = false;
}
uint64_t alloc_count() { return g.nalloc; }
void alloc_count_reset() { g.nalloc = 0; }
void alloc_limit(size_t b)
{
    g.limit = b;
    g.largest = 0;
}
size_t alloc_largest() { return g.largest; }
bool alloc_failed() { return g.alloc_fired; }
int64_t live_blocks() { return g.live; }
int64_t live_bytes() { return g.live_b; }
void* shared(size_t n)
{
    if (n > ush_size)
        abort();
    return ush;
}

// --- real functions --------------------------------------------------------------
template <class F> static F real(F& slot, const char* name)
{
    if (!slot)
        slot = (F)dlsym(RTLD_NEXT, name);
    return slot;
}
#define REAL(name) static decltype(&::name) name##_r; auto r_##name = real(name##_r, #name)

// --- threads -----------------------------------------------------------------------
static void* trampoline(void* p)
{
    int id = (int)(intptr_t)p;
    fwait(&th[id].fut);
    tls_tid = id;
    {
        pthread_attr_t at;
        if (pthread_getattr_np(pthread_self(), &at) == 0) {
            void* sa;
            size_t ss;
            pthread_attr_getstack(&at, &sa, &ss);
            clear_shadow((uintptr_t)sa, ss);
            pthread_attr_destroy(&at);
        }
    }
    void* r = th[id].fn(th[id].arg);
    Thread& t = th[id];
    t.ret = r;
    t.st = FINISHED;
    tick();
    if (t.joiner >= 0)
        wake(t.joiner);
    update_conc();
    tls_tid = -1;
    give_away(true);
    return r;
}

static int create_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    REAL(pthread_create);
    if (g.nth >= MAXT)
        return EAGAIN;
    int id = g.nth;
    Thread& t = th[id];
    t.fut = 0;
    t.fn = fn;
    t.arg = arg;
    t.joiner = -1;
    t.quiet = 0;
    t.idle = false;
    memset(&t.vc, 0, sizeof t.vc);
    g.nth++;
    t.vc = th[tls_tid].vc;
    t.vc.c[id] = 1;
    tick();
    t.weight = g.spec->replay ? 1.0 : (g.s.below(4) == 0 ? 0.08 : 1.0);
    int rc = r_pthread_create(&t.pt, attr, trampoline, (void*)(intptr_t)id);
    if (rc) {
        g.nth--;
        return rc;
    }
    if (out)
        *out = t.pt;
    t.st = RUNNABLE;
    bool was = g.conc;
    update_conc();
    if (!was)
        draw_next();
    step_point();
    return 0;
}

// --- pool ------------------------------------------------------------------------
struct Job {
    std::vector<size_t> left;
    size_t outstanding = 0;
    std::exception_ptr exc;
    VC vsub{}, vdone{};
    const std::function<void(size_t)>* task = nullptr;
    int waiter = -1;
};
static std::vector<Job*>* jobs;
static int npool = 0;

static bool take_and_run(Job* j)
{
    if (j->left.empty())
        return false;
    size_t i;
    {
        RtScope rs;
        uint32_t k = choose("chunk", (uint32_t)j->left.size());
        i = j->left[k];
        j->left.erase(j->left.begin() + k);
    }
    j->outstanding++;
    acquire_from(j->vsub);
    try {
        (*j->task)(i);
    } catch (...) {
        if (!j->exc)
            j->exc = std::current_exception();
        j->left.clear();
    }
    release_to(j->vdone);
    j->outstanding--;
    if (j->left.empty() && j->outstanding == 0 && j->waiter >= 0)
        wake(j->waiter);
    return true;
}

static void* pool_main(void*)
{
    for (;;) {
        Job* c[64];
        int n = 0;
        for (Job* j : *jobs)
            if (!j->left.empty() && n < 64)
                c[n++] = j;
        if (!n) {
            th[tls_tid].idle = true;
            update_conc();
            block(&npool, "pool-idle");
            th[tls_tid].idle = false;
            update_conc();
            continue;
        }
        take_and_run(c[choose("job", (uint32_t)n)]);
    }
    return nullptr;
}

void run_tasks(size_t n, const std::function<void(size_t)>& task)
{
    if (!simthread() || n == 0) {
        for (size_t i = 0; i < n; ++i)
            task(i);
        return;
    }
    if (!jobs) {
        RtScope rs;
        jobs = new std::vector<Job*>();
    }
    if (n == 1 || g.workers <= 1) {
        if (n > 1 && g.preempt) {
            // one worker, but the chunks may still run in any order
            std::vector<size_t> left(n);
            for (size_t i = 0; i < n; ++i)
                left[i] = i;
            while (!left.empty()) {
                uint32_t k = choose("chunk", (uint32_t)left.size());
                size_t i = left[k];
                left.erase(left.begin() + k);
                task(i);
            }
        } else
            for (size_t i = 0; i < n; ++i)
                task(i);
        return;
    }
    Job j;
    j.task = &task;
    {
        RtScope rs;
        for (size_t i = 0; i < n; ++i)
            j.left.push_back(i);
        jobs->push_back(&j);
    }
    release_to(j.vsub);
    while (npool < g.workers - 1) {
        ++npool;
        pthread_t pt;
        if (create_thread(&pt, nullptr, pool_main, nullptr)) {
            --npool;
            break;
        }
    }
    for (int i = 0; i < g.nth; ++i)
        if (th[i].st == BLOCKED && th[i].on == &npool) {
            th[i].idle = false;
            wake(i);
        }
    bool was = g.conc;
    update_conc();
    if (!was)
        draw_next();
    step_point();
    // The owner usually takes part, but may also be late or do nothing at all.
    bool lazy = g.preempt && choose_p("owner-idle", 2, 0.1) && npool > 0;
    while (!lazy && take_and_run(&j))
        step_point();
    while (!j.left.empty() || j.outstanding) {
        j.waiter = tls_tid;
        block(&j, "parallel wait");
    }
    acquire_from(j.vdone);
    {
        RtScope rs;
        for (size_t i = 0; i < jobs->size(); ++i)
            if ((*jobs)[i] == &j) {
                jobs->erase(jobs->begin() + (long)i);
                break;
            }
    }
    update_conc();
    if (j.exc)
        std::rethrow_exception(j.exc);
}

} // namespace sim

using namespace sim;

// ============================================================================
// interposed libc / libpthread entry points
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!simthread()) {
        REAL(pthread_create);
        return r_pthread_create(out, attr, fn, arg);
    }
    return create_thread(out, attr, fn, arg);
}
static int find_thread(pthread_t t)
{
    for (int i = g.nth - 1; i >= 1; --i)
        if (th[i].st != FREE && pthread_equal(th[i].pt, t))
            return i;
    return -1;
}
int pthread_join(pthread_t t, void** ret)
{
    REAL(pthread_join);
    int i = simthread() ? find_thread(t) : -1;
    if (i >= 0) {
        step_point();
        while (th[i].st != FINISHED) {
            th[i].joiner = tls_tid;
            block(&th[i], "join");
        }
        acquire_from(th[i].vc);
        th[i].joiner = -1;
    }
    return r_pthread_join(t, ret);
}

static Mutex& mx(const void* p)
{
    RtScope rs;
    return (*g.mtx)[p];
}
static int sim_lock(pthread_mutex_t* m, bool try_, bool timed, uint64_t until)
{
    Mutex& x = mx(m);
    int kind = m->__data.__kind & 3;
    step_point();
    if (x.owner == tls_tid) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
            x.count++;
            return 0;
        }
        if (try_)
            return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP)
            return EDEADLK;
    }
    while (x.owner >= 0) {
        if (try_)
            return EBUSY;
        block(&x, x.owner == tls_tid ? "a mutex it already holds" : "mutex", timed, until);
        if (timed && th[tls_tid].timed_out)
            return ETIMEDOUT;
    }
    x.owner = tls_tid;
    x.count = 1;
    acquire_from(x.vc);
    return 0;
}
// returns true if the mutex is now free
static bool sim_unlock(const void* m)
{
    auto it = g.mtx->find(m);
    if (it == g.mtx->end() || it->second.owner != tls_tid)
        return true;
    Mutex& x = it->second;
    if (--x.count)
        return false;
    release_to(x.vc);
    x.owner = -1;
    wake_on(&x, 1 << 20);
    return true;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if (simthread()) {
        int rc = sim_lock(m, false, false, 0);
        if (rc)
            return rc;
    }
    return r_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if (simthread()) {
        int rc = sim_lock(m, true, false, 0);
        if (rc)
            return rc;
    }
    return r_pthread_mutex_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    int rc = r_pthread_mutex_unlock(m);
    if (simthread()) {
        sim_unlock(m);
        step_point();
    }
    return rc;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    REAL(pthread_mutex_destroy);
    if (simthread())
        g.mtx->erase(m);
    return r_pthread_mutex_destroy(m);
}
static uint64_t abs_ns(const struct timespec* ts) { return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    REAL(pthread_mutex_timedlock);
    if (simthread()) {
        int rc = sim_lock(m, false, true, abs_ns(ts));
        if (rc)
            return rc;
        REAL(pthread_mutex_lock);
        return r_pthread_mutex_lock(m);
    }
    return r_pthread_mutex_timedlock(m, ts);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t until)
{
    REAL(pthread_mutex_unlock);
    REAL(pthread_mutex_lock);
    r_pthread_mutex_unlock(m);
    sim_unlock(m);
    if (!choose_p("spurious", 2, 0.02))
        block(c, "condition variable", timed, until);
    bool to = timed && th[tls_tid].timed_out;
    th[tls_tid].timed_out = false;
    sim_lock(m, false, false, 0);
    r_pthread_mutex_lock(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (simthread())
        return cond_wait(c, m, false, 0);
    REAL(pthread_cond_wait);
    return r_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (simthread())
        return cond_wait(c, m, true, abs_ns(ts));
    REAL(pthread_cond_timedwait);
    return r_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (simthread())
        return cond_wait(c, m, true, abs_ns(ts));
    REAL(pthread_cond_clockwait);
    return r_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (simthread()) {
        step_point();
        wake_on(c, 1);
        return 0;
    }
    REAL(pthread_cond_signal);
    return r_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (simthread()) {
        step_point();
        wake_on(c, 1 << 20);
        return 0;
    }
    REAL(pthread_cond_broadcast);
    return r_pthread_cond_broadcast(c);
}
static RwLock& rwl(const void* p)
{
    RtScope rs;
    return (*g.rw)[p];
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_rdlock);
    if (simthread()) {
        RwLock& x = rwl(l);
        step_point();
        while (x.writer >= 0)
            block(&x, "rwlock");
        x.readers++;
        acquire_from(x.vc);
        return 0;
    }
    return r_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_wrlock);
    if (simthread()) {
        RwLock& x = rwl(l);
        step_point();
        while (x.writer >= 0 || x.readers > 0)
            block(&x, "rwlock");
        x.writer = tls_tid;
        acquire_from(x.vc);
        return 0;
    }
    return r_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_unlock);
    if (simthread()) {
        auto it = g.rw->find(l);
        if (it != g.rw->end()) {
            RwLock& x = it->second;
            if (x.writer == tls_tid)
                x.writer = -1;
            else if (x.readers > 0)
                x.readers--;
            release_to(x.vc);
            wake_on(&x, 1 << 20);
            step_point();
            return 0;
        }
    }
    return r_pthread_rwlock_unlock(l);
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    REAL(pthread_once);
    if (!simthread())
        return r_pthread_once(o, fn);
    step_point();
    // states kept in our own map: owner = running, count = 2 done
    Mutex& x = mx(o);
    for (;;) {
        if (x.count == 2) {
            acquire_from(x.vc);
            return 0;
        }
        if (x.owner < 0) {
            x.owner = tls_tid;
            try {
                fn();
            } catch (...) {
                x.owner = -1;
                release_to(x.vc);
                wake_on(&x, 1 << 20);
                throw;
            }
            x.owner = -1;
            x.count = 2;
            release_to(x.vc);
            wake_on(&x, 1 << 20);
            *o = 2;
            return 0;
        }
        block(&x, "once");
    }
}
int __cxa_guard_acquire(uint64_t* gp)
{
    char* b = (char*)gp;
    if (!simthread()) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
            return 0;
        return 1; // outside a run there is one thread
    }
    RtScope rs;
    VC* v = &(*g.sync)[gp];
    for (;;) {
        if (b[0]) {
            acquire_from(*v);
            return 0;
        }
        if (!b[1]) {
            b[1] = 1;
            return 1;
        }
        block(gp, "static initialisation");
        v = &(*g.sync)[gp];
    }
}
void __cxa_guard_release(uint64_t* gp)
{
    char* b = (char*)gp;
    b[0] = 1;
    b[1] = 0;
    if (simthread()) {
        RtScope rs;
        release_to((*g.sync)[gp]);
        wake_on(gp, 1 << 20);
    }
}
void __cxa_guard_abort(uint64_t* gp)
{
    char* b = (char*)gp;
    b[1] = 0;
    if (simthread())
        wake_on(gp, 1 << 20);
}

// --- time ------------------------------------------------------------------
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!g.active) {
        return (int)raw_syscall(SYS_clock_gettime, id, (long)ts);
    }
    g.now += 137;
    uint64_t t = g.now;
    if (id == CLOCK_REALTIME)
        t = (uint64_t)((int64_t)t + g.clock_off);
    ts->tv_sec = (time_t)(t / 1000000000ull);
    ts->tv_nsec = (long)(t % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
static int sim_sleep(uint64_t ns)
{
    block(&g.now, "sleep", true, g.now + ns);
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (simthread())
        return sim_sleep(abs_ns(ts));
    return (int)raw_syscall(SYS_nanosleep, (long)ts, (long)rem);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
    if (simthread()) {
        uint64_t t = abs_ns(ts);
        if (flags & TIMER_ABSTIME)
            t = t > g.now ? t - g.now : 0;
        return sim_sleep(t);
    }
    return (int)-raw_syscall(SYS_clock_nanosleep, c, flags, (long)ts, (long)rem);
}
int usleep(useconds_t us)
{
    struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
int sched_yield()
{
    if (simthread() && g.conc) {
        int l[MAXT];
        int n = runnable_list(l, tls_tid);
        g.step++;
        if (n && !th[tls_tid].quiet)
            do_switch(l[choose("yield", (uint32_t)n)]);
        return 0;
    }
    return (int)raw_syscall(SYS_sched_yield);
}
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; ++i)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (simthread() && n == SYS_futex) {
        int opn = (int)a[1] & 127;
        if (opn == FUTEX_WAIT || opn == FUTEX_WAIT_BITSET) {
            step_point();
            if (__atomic_load_n((int*)a[0], __ATOMIC_SEQ_CST) != (int)a[2]) {
                errno = EAGAIN;
                return -1;
            }
            if (a[3]) {
                uint64_t t = abs_ns((const struct timespec*)a[3]);
                if (opn == FUTEX_WAIT)
                    t += g.now;
                block((void*)a[0], "futex", true, t);
                if (th[tls_tid].timed_out) {
                    errno = ETIMEDOUT;
                    return -1;
                }
            } else
                block((void*)a[0], "futex");
            return 0;
        }
        if (opn == FUTEX_WAKE || opn == FUTEX_WAKE_BITSET) {
            step_point();
            return wake_on((void*)a[0], a[2] > 1000 ? 1 << 20 : (int)a[2]);
        }
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}
int sem_wait(sem_t* s)
{
    REAL(sem_wait);
    REAL(sem_trywait);
    if (!simthread())
        return r_sem_wait(s);
    step_point();
    while (r_sem_trywait(s) != 0)
        block(s, "semaphore");
    RtScope rs;
    acquire_from((*g.sync)[s]);
    return 0;
}
int sem_post(sem_t* s)
{
    REAL(sem_post);
    if (simthread()) {
        {
            RtScope rs;
            release_to((*g.sync)[s]);
        }
        int rc = r_sem_post(s);
        wake_on(s, 1);
        step_point();
        return rc;
    }
    return r_sem_post(s);
}
} // extern "C"

// --- entropy ----------------------------------------------------------------
namespace std {
random_device::result_type random_device::_M_getval()
{
    if (g.active)
        return (unsigned)g.e.next();
    return 4;
}
} // namespace std
extern "C" ssize_t getrandom(void* p, size_t n, unsigned)
{
    unsigned char* c = (unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        c[i] = (unsigned char)g.e.next();
    return (ssize_t)n;
}
extern "C" int getentropy(void* p, size_t n)
{
    getrandom(p, n, 0);
    return 0;
}

// --- allocation ----------------------------------------------------------------
// live-block tracking table (open addressing, mmapped)
namespace {
constexpr size_t TRK = 1 << 20;
uintptr_t* trk;
uint32_t* trk_sz;
void trk_add(void* p, size_t n)
{
    if (!trk || !p)
        return;
    size_t h = ((uintptr_t)p * 0x9e3779b97f4a7c15ull >> 44) & (TRK - 1);
    while (trk[h] > 1 && trk[h] != (uintptr_t)p)
        h = (h + 1) & (TRK - 1);
    trk[h] = (uintptr_t)p;
    trk_sz[h] = (uint32_t)n;
    g.live++;
    g.live_b += (int64_t)n;
}
void trk_del(void* p)
{
    if (!trk || !p)
        return;
    size_t h = ((uintptr_t)p * 0x9e3779b97f4a7c15ull >> 44) & (TRK - 1);
    while (trk[h]) {
        if (trk[h] == (uintptr_t)p) {
            trk[h] = 1;
            g.live--;
            g.live_b -= trk_sz[h];
            return;
        }
        h = (h + 1) & (TRK - 1);
    }
}
} // namespace
namespace sim {
void track_begin()
{
    if (!trk) {
        trk = (uintptr_t*)mmap(nullptr, TRK * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        trk_sz = (uint32_t*)mmap(nullptr, TRK * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    g.tracking = true;
    g.live = 0;
    g.live_b = 0;
}
} // namespace sim

static thread_local int tls_lib = 0;
sim::LibAlloc::LibAlloc() { ++tls_lib; }
sim::LibAlloc::~LibAlloc() { --tls_lib; }
static bool alloc_should_fail(size_t n)
{
    if (!g.active || tls_tid < 0 || g.in_rt || th[tls_tid].quiet || tls_lib)
        return false;
    g.nalloc++;
    if (n > g.largest)
        g.largest = n;
    if (g.limit && n > g.limit) {
        sim::probe("alloc-over-limit");
        return true;
    }
    if (g.fail_at && g.nalloc == g.fail_at) {
        g.alloc_fired = true;
        return true;
    }
    return false;
}
bool sim::alloc_point() { return alloc_should_fail(1); }
void* operator new(size_t n)
{
    if (alloc_should_fail(n))
        throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_should_fail(n) ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_should_fail(n) ? nullptr : malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a)
{
    if (alloc_should_fail(n))
        throw std::bad_alloc();
    void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }

#ifdef SIM_MALLOC
static void fill(void* p, size_t n)
{
    if (!g.active || !p || g.in_rt)
        return;
    if (tab_key)
        clear_shadow((uintptr_t)p, n);
    size_t m = n < (1u << 18) ? n : (1u << 18);
    uint64_t s = g.garbage * 0x9e3779b97f4a7c15ull + (g.gctr++) * 0xd1342543de82ef95ull;
    s ^= s >> 29;
    uint64_t pat;
    switch (g.garbage % 5) {
    case 0: pat = s; break;
    case 1: pat = 0xffffffffffffffffull; break;
    case 2: pat = 0x3f8000003f800000ull; break; // 1.0f
    case 3: pat = 0x0101010101010101ull; break;
    default: pat = s | 0x7f007f007f007f00ull; break;
    }
    char* c = (char*)p;
    while (m >= 8) {
        memcpy(c, &pat, 8);
        c += 8;
        m -= 8;
        if (g.garbage % 5 == 0)
            pat = pat * 6364136223846793005ull + 1442695040888963407ull;
    }
    memcpy(c, &pat, m);
}
extern "C" {
void* malloc(size_t n)
{
    void* p = __libc_malloc(n);
    fill(p, n);
    if (g.tracking && !g.in_rt)
        trk_add(p, n);
    return p;
}
void free(void* p)
{
    if (!p)
        return;
    if (g.tracking)
        trk_del(p);
    if (g.active && tab_key)
        clear_shadow((uintptr_t)p, malloc_usable_size(p));
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    void* p = __libc_calloc(a, b);
    if (p && g.active && tab_key)
        clear_shadow((uintptr_t)p, a * b);
    if (g.tracking && !g.in_rt)
        trk_add(p, a * b);
    return p;
}
void* realloc(void* q, size_t n)
{
    if (q && g.active && tab_key)
        clear_shadow((uintptr_t)q, malloc_usable_size(q));
    if (g.tracking)
        trk_del(q);
    void* p = __libc_realloc(q, n);
    if (p && g.active && tab_key)
        clear_shadow((uintptr_t)p, n);
    if (g.tracking && !g.in_rt)
        trk_add(p, n);
    return p;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    fill(p, n);
    if (g.tracking && !g.in_rt)
        trk_add(p, n);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = memalign(a, n);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
}
#endif

#ifdef SIM_TSAN
// ============================================================================
// the interface gcc -fsanitize=thread calls
#define PC __builtin_return_address(0)
#define ACC(a, n, fl)                                                                              \
    if (__builtin_expect(g.conc, 0))                                                               \
    access_slow((uintptr_t)(a), n, fl, PC)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* a) { ACC(a, 1, 0); }
void __tsan_read2(void* a) { ACC(a, 2, 0); }
void __tsan_read4(void* a) { ACC(a, 4, 0); }
void __tsan_read8(void* a) { ACC(a, 8, 0); }
void __tsan_read16(void* a) { ACC(a, 16, 0); }
void __tsan_write1(void* a) { ACC(a, 1, 1); }
void __tsan_write2(void* a) { ACC(a, 2, 1); }
void __tsan_write4(void* a) { ACC(a, 4, 1); }
void __tsan_write8(void* a) { ACC(a, 8, 1); }
void __tsan_write16(void* a) { ACC(a, 16, 1); }
void __tsan_unaligned_read2(void* a) { ACC(a, 2, 0); }
void __tsan_unaligned_read4(void* a) { ACC(a, 4, 0); }
void __tsan_unaligned_read8(void* a) { ACC(a, 8, 0); }
void __tsan_unaligned_read16(void* a) { ACC(a, 16, 0); }
void __tsan_unaligned_write2(void* a) { ACC(a, 2, 1); }
void __tsan_unaligned_write4(void* a) { ACC(a, 4, 1); }
void __tsan_unaligned_write8(void* a) { ACC(a, 8, 1); }
void __tsan_unaligned_write16(void* a) { ACC(a, 16, 1); }
void __tsan_volatile_read1(void* a) { ACC(a, 1, 0); }
void __tsan_volatile_read2(void* a) { ACC(a, 2, 0); }
void __tsan_volatile_read4(void* a) { ACC(a, 4, 0); }
void __tsan_volatile_read8(void* a) { ACC(a, 8, 0); }
void __tsan_volatile_write1(void* a) { ACC(a, 1, 1); }
void __tsan_volatile_write2(void* a) { ACC(a, 2, 1); }
void __tsan_volatile_write4(void* a) { ACC(a, 4, 1); }
void __tsan_volatile_write8(void* a) { ACC(a, 8, 1); }
void __tsan_read_range(void* a, size_t n) { ACC(a, n, 0); }
void __tsan_write_range(void* a, size_t n) { ACC(a, n, 1); }
void __tsan_vptr_update(void** p, void*) { ACC(p, 8, 1); }
void __tsan_vptr_read(void** p) { ACC(p, 8, 0); }
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}

// atomics: sequentially consistent execution; happens-before edges by the declared order
static void at_pre(const void* a, size_t n, bool wr, const void* pc)
{
    sh->access_points++;
    Thread& t = th[tls_tid];
    if (t.spin_addr == a) {
        if (++t.spin_n > 300) { // spinning: let somebody else run
            t.spin_n = 0;
            int l[MAXT];
            int k = runnable_list(l, tls_tid);
            g.step++;
            if (k && !t.quiet)
                do_switch(l[choose("spin", (uint32_t)k)]);
        }
    } else {
        t.spin_addr = a;
        t.spin_n = 0;
    }
    // atomics are the interesting places: give them extra weight
    if (!g.spec->replay && g.preempt && g.next_pre > g.step + 1 && g.next_pre != ~0ull && g.s.below(48) == 0)
        g.next_pre = g.step + 1;
    step_point();
    race_range((uintptr_t)a, n, (uint8_t)(wr ? 3 : 2), pc);
}
static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const void* a, int mo)
{
    if (!is_acq(mo))
        return;
    auto it = g.sync->find(a);
    if (it != g.sync->end())
        acquire_from(it->second);
}
static void at_store(const void* a, int mo, bool rmw)
{
    RtScope rs;
    if (is_rel(mo)) {
        VC& v = (*g.sync)[a];
        if (!rmw)
            memset(&v, 0, sizeof v);
        release_to(v);
    } else if (!rmw) {
        auto it = g.sync->find(a);
        if (it != g.sync->end())
            memset(&it->second, 0, sizeof(VC));
    }
}
#define ATOMICS(B, T)                                                                              \
    T __tsan_atomic##B##_load(const volatile T* a, int mo)                                         \
    {                                                                                              \
        if (__builtin_expect(!g.conc || tls_tid < 0, 1))                                           \
            return *a;                                                                             \
        at_pre((const void*)a, sizeof(T), false, PC);                                              \
        T r = *a;                                                                                  \
        at_load((const void*)a, mo);                                                               \
        return r;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                      \
    {                                                                                              \
        if (__builtin_expect(!g.conc || tls_tid < 0, 1)) {                                         \
            *a = v;                                                                                \
            return;                                                                                \
        }                                                                                          \
        at_pre((const void*)a, sizeof(T), true, PC);                                               \
        at_store((const void*)a, mo, false);                                                       \
        *a = v;                                                                                    \
    }                                                                                              \
    RMW(B, T, exchange, v)                                                                         \
    RMW(B, T, fetch_add, (T)(o + v))                                                               \
    RMW(B, T, fetch_sub, (T)(o - v))                                                               \
    RMW(B, T, fetch_and, (T)(o & v))                                                               \
    RMW(B, T, fetch_or, (T)(o | v))                                                                \
    RMW(B, T, fetch_xor, (T)(o ^ v))                                                               \
    RMW(B, T, fetch_nand, (T)(~(o & v)))                                                           \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo)      \
    {                                                                                              \
        bool c = g.conc && tls_tid >= 0;                                                           \
        if (c)                                                                                     \
            at_pre((const void*)a, sizeof(T), true, PC);                                           \
        T o = *a;                                                                                  \
        if (o == *e) {                                                                             \
            if (c) {                                                                               \
                at_load((const void*)a, mo);                                                       \
                at_store((const void*)a, mo, true);                                                \
            }                                                                                      \
            *a = v;                                                                                \
            return 1;                                                                              \
        }                                                                                          \
        if (c)                                                                                     \
            at_load((const void*)a, fmo);                                                          \
        *e = o;                                                                                    \
        return 0;                                                                                  \
    }                                                                                              \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo)        \
    {                                                                                              \
        return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo);                       \
    }                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo)            \
    {                                                                                              \
        T x = e;                                                                                   \
        __tsan_atomic##B##_compare_exchange_strong(a, &x, v, mo, fmo);                             \
        return x;                                                                                  \
    }
#define RMW(B, T, name, expr)                                                                      \
    T __tsan_atomic##B##_##name(volatile T* a, T v, int mo)                                        \
    {                                                                                              \
        bool c = g.conc && tls_tid >= 0;                                                           \
        if (c) {                                                                                   \
            at_pre((const void*)a, sizeof(T), true, PC);                                           \
            at_load((const void*)a, mo);                                                           \
            at_store((const void*)a, mo, true);                                                    \
        }                                                                                          \
        T o = *a;                                                                                  \
        *a = expr;                                                                                 \
        return o;                                                                                  \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!g.conc || tls_tid < 0)
        return;
    step_point();
    if (is_acq(mo))
        acquire_from(g.fence_vc);
    if (is_rel(mo))
        release_to(g.fence_vc);
}
void __tsan_atomic_signal_fence(int) {}

// memory functions of instrumented code (redirected with objcopy)
void* sim_memcpy(void* d, const void* s, size_t n)
{
    if (__builtin_expect(g.conc, 0) && tls_tid >= 0 && n) {
        access_slow((uintptr_t)s, n, 0, PC);
        access_slow((uintptr_t)d, n, 1, PC);
    }
    return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n)
{
    if (__builtin_expect(g.conc, 0) && tls_tid >= 0 && n) {
        access_slow((uintptr_t)s, n, 0, PC);
        access_slow((uintptr_t)d, n, 1, PC);
    }
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n)
{
    if (__builtin_expect(g.conc, 0) && tls_tid >= 0 && n)
        access_slow((uintptr_t)d, n, 1, PC);
    return memset(d, c, n);
}
}
#endif

// ============================================================================
// driver
namespace sim {
static std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
void add_scenario(const Scenario& s) { scenarios().push_back(s); }
static std::vector<void (*)()>& preps()
{
    static std::vector<void (*)()> v;
    return v;
}
Prep::Prep(void (*f)()) { preps().push_back(f); }

static void child(const Scenario& sc, Spec& spec)
{
    struct rlimit rl{60, 65};
    setrlimit(RLIMIT_CPU, &rl);
    alarm(150);
    struct rlimit co{0, 0};
    setrlimit(RLIMIT_CORE, &co);
    g.spec = &spec;
    g.w.seed(spec.seed, spec.run, 1);
    g.s.seed(spec.seed, spec.run, 2);
    g.f.seed(spec.seed, spec.run, 3);
    g.e.seed(spec.seed, spec.run, 4);
    g.garbage = 0;
    g.t0 = g.now;
    g.mtx = new std::unordered_map<const void*, Mutex>();
    g.rw = new std::unordered_map<const void*, RwLock>();
    g.sync = new std::unordered_map<const void*, VC>();
    g.drop = new std::set<uint32_t>(spec.drop.begin(), spec.drop.end());
    th[0].st = RUNNABLE;
    th[0].vc = VC{};
    th[0].vc.c[0] = 1;
    th[0].pt = pthread_self();
    tls_tid = 0;
    // schedule style of this run
    static const uint64_t rates[] = {20, 60, 200, 600, 2000, 8000, 40000};
    g.mean = rates[g.s.below(7)];
    g.burst = g.s.below(2);
    g.step_cap = 400000000ull;
    g.active = true;
    draw_next();
    try {
        sc.fn();
    } catch (const std::exception& e) {
        g.active = false;
        violation("escaped-exception", e.what());
    } catch (...) {
        g.active = false;
        violation("escaped-exception", "unknown exception");
    }
    g.active = false;
    fold(sh->hash, g.step);
    finish(1);
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o;
}

static void reset_shared() { memset((void*)sh, 0, offsetof(Shared, pre));
    memset(sh->kname, 0, sizeof sh->kname);
    memset(sh->kfired, 0, sizeof sh->kfired);
    memset(sh->kseen, 0, sizeof sh->kseen);
    memset(sh->pname, 0, sizeof sh->pname);
    memset(sh->pcount, 0, sizeof sh->pcount);
}

static volatile sig_atomic_t g_stop;
static int g_errfd = -1;
std::string child_stderr()
{
    char buf[65536];
    lseek(g_errfd, 0, SEEK_SET);
    ssize_t n = read(g_errfd, buf, sizeof buf);
    return std::string(buf, n > 0 ? (size_t)n : 0);
}
static std::string run_one(const Scenario& sc, Spec& spec, std::string& err)
{
    for (auto f : preps())
        f();
    preps().clear();
    reset_shared();
    fflush(stdout);
    if (g_errfd < 0) {
        g_errfd = (int)raw_syscall(SYS_memfd_create, (long)"err", 0);
    }
    (void)!ftruncate(g_errfd, 0);
    lseek(g_errfd, 0, SEEK_SET);
    pid_t p = fork();
    if (p == 0) {
        signal(SIGTERM, SIG_DFL);
        dup2(g_errfd, 2);
        if (trace_folds) {
            std::string p = "/tmp/o/trace-" + std::to_string(spec.run) + "-" + getenv("HUIRA_SIM_TRACE");
            dup2(creat(p.c_str(), 0644), 2);
        }
        int n = open("/dev/null", O_RDWR);
        dup2(n, 1);
        dup2(n, 0);
        child(sc, spec);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    std::string res;
    if (sh->status == 1)
        res = "";
    else if (sh->status == 2)
        res = std::string(sh->cls) + "|" + sh->msg;
    else if (!sc.own_exit) {
        char buf[16384];
        lseek(g_errfd, 0, SEEK_SET);
        ssize_t n = read(g_errfd, buf, sizeof buf - 1);
        buf[n > 0 ? n : 0] = 0;
        err = buf;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
            res = WTERMSIG(st) != SIGKILL ? "hang|the run does not end" : "killed|killed";
        else if (err.find("AddressSanitizer") != std::string::npos) {
            size_t a = err.find("AddressSanitizer");
            size_t e = err.find('\n', a);
            std::string line = err.substr(a, e - a);
            // class: first word after "AddressSanitizer: "
            std::string k = line.size() > 18 ? line.substr(18, line.find(' ', 18) - 18) : "asan";
            res = "memory-error:" + k + "|" + line;
        } else if (err.find("runtime error:") != std::string::npos) {
            size_t a = err.find("runtime error:");
            size_t b = err.rfind('\n', a);
            b = b == std::string::npos ? 0 : b + 1;
            size_t e = err.find('\n', a);
            res = "undefined-behaviour|" + err.substr(b, e - b);
        } else if (WIFSIGNALED(st))
            res = "crash|killed by signal " + std::to_string(WTERMSIG(st));
        else
            res = "exit|exited with status " + std::to_string(WEXITSTATUS(st));
        // keep the tail of stderr for the report
        if (WIFSIGNALED(st) && !err.empty()) {
            std::string t = err.size() > 600 ? err.substr(err.size() - 600) : err;
            if (res.compare(0, 6, "crash|") == 0)
                res += ": " + t;
        }
    }
    if (res.empty() && sc.post)
        res = sc.post(st);
    return res;
}

static void write_spec(FILE* f, const Spec& spec, const std::string& res)
{
    fprintf(f, "huira-sim-replay 1\nscenario %s\nseed %llu run %llu\n", spec.scenario.c_str(),
            (unsigned long long)spec.seed, (unsigned long long)spec.run);
    for (uint32_t d : spec.drop)
        fprintf(f, "drop %u\n", d);
    for (uint32_t i = 0; i < sh->npre; ++i)
        fprintf(f, "preempt %llu %u\n", (unsigned long long)sh->pre[i].step, sh->pre[i].tid);
    for (uint32_t i = 0; i < sh->nch; ++i)
        fprintf(f, "choice %s %u %u\n", sh->kname[sh->ch[i].kind], sh->ch[i].ord, sh->ch[i].val);
    for (uint32_t i = 0; i < sh->nf; ++i)
        fprintf(f, "fault %s %u %u\n", sh->kname[sh->f[i].kind], sh->f[i].ord, sh->f[i].val);
    fprintf(f, "# ops %u\n", sh->nops);
    std::string r = res;
    for (char& c : r)
        if (c == '\n')
            c = ' ';
    fprintf(f, "# violation %s\n# hash %016llx steps %llu switches %llu\n", r.c_str(),
            (unsigned long long)sh->hash, (unsigned long long)sh->steps, (unsigned long long)sh->switches);
    // operations
    std::string o(sh->oplog, sh->noplog);
    size_t p = 0;
    while (p < o.size()) {
        size_t e = o.find('\n', p);
        fprintf(f, "# op %s\n", o.substr(p, e - p).c_str());
        p = e + 1;
    }
}

static bool read_spec(const char* path, Spec& s)
{
    FILE* f = fopen(path, "r");
    if (!f)
        return false;
    char* line = nullptr;
    size_t cap = 0;
    s.replay = true;
    while (getline(&line, &cap, f) > 0) {
        char k[64];
        unsigned long long a, b;
        unsigned c, d;
        if (line[0] == '#')
            continue;
        if (sscanf(line, "scenario %63s", k) == 1)
            s.scenario = k;
        else if (sscanf(line, "seed %llu run %llu", &a, &b) == 2) {
            s.seed = a;
            s.run = b;
        } else if (sscanf(line, "drop %u", &c) == 1)
            s.drop.push_back(c);
        else if (sscanf(line, "preempt %llu %u", &a, &c) == 2)
            s.pre.push_back({a, c});
        else if (sscanf(line, "choice %63s %u %u", k, &c, &d) == 3)
            s.ch[{k, c}] = d;
        else if (sscanf(line, "fault %63s %u %u", k, &c, &d) == 3)
            s.f[{k, c}] = d;
    }
    free(line);
    fclose(f);
    return true;
}

static void print_result(FILE* f, const std::string& res)
{
    fprintf(f, "{\"violation\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu}\n", jesc(res).c_str(),
            (unsigned long long)sh->hash, (unsigned long long)sh->steps, (unsigned long long)sh->switches);
    fflush(f);
}

static double wall()
{
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

int main(int argc, char** argv)
{
    // same addresses in every process, where the system lets us
    if (!getenv("HUIRA_SIM_NOASLR")) {
        setenv("HUIRA_SIM_NOASLR", "1", 1);
        if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
            if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
                execv("/proc/self/exe", argv);
        }
    }
    setenv("TZ", "UTC", 1);
    trace_folds = getenv("HUIRA_SIM_TRACE") != nullptr;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ush = (char*)mmap(nullptr, ush_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") {
        for (auto& s : scenarios())
            printf("%s\n", s.name);
        return 0;
    }
    auto find = [&](const std::string& n) -> const Scenario* {
        for (auto& s : scenarios())
            if (n == s.name)
                return &s;
        fprintf(stderr, "no scenario %s\n", n.c_str());
        exit(2);
    };
    if (mode == "replay") { // replay FILE... : one JSON line per file
        for (int i = 2; i < argc; ++i) {
            Spec s;
            if (!read_spec(argv[i], s)) {
                fprintf(stderr, "cannot read %s\n", argv[i]);
                return 2;
            }
            std::string err;
            std::string r = run_one(*find(s.scenario), s, err);
            print_result(stdout, r);
            if (getenv("HUIRA_SIM_VERBOSE")) {
                fprintf(stderr, "%s\n", err.c_str());
                fwrite(sh->oplog, 1, sh->noplog, stderr);
            }
        }
        return 0;
    }
    if (mode == "minrun") { // reads replay paths on stdin, one JSON line per path (for the minimiser)
        char path[4096];
        while (fgets(path, sizeof path, stdin)) {
            path[strcspn(path, "\n")] = 0;
            Spec s;
            std::string err, r = "?";
            if (read_spec(path, s))
                r = run_one(*find(s.scenario), s, err);
            print_result(stdout, r);
        }
        return 0;
    }
    if (mode != "run") {
        fprintf(stderr, "usage: %s list | replay FILE | run SCENARIO SEED START STRIDE COUNT SECONDS OUTDIR [hashes]\n", argv[0]);
        return 2;
    }
    signal(SIGTERM, [](int) { g_stop = 1; });
    const Scenario* sc = find(argv[2]);
    uint64_t seed = strtoull(argv[3], nullptr, 10), start = strtoull(argv[4], nullptr, 10),
             stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10);
    double secs = atof(argv[7]);
    std::string out = argv[8];
    bool hashes = argc > 9;
    double t0 = wall();
    std::set<uint64_t> ih, st, hh;
    std::map<std::string, uint64_t> fired, seen, probes;
    std::map<std::string, int> classes;
    uint64_t runs = 0, steps = 0, sw = 0, simns = 0, nviol = 0, ap = 0, ops = 0;
    std::string sample;
    std::string hs;
    for (uint64_t i = 0; i < count; ++i) {
        if (g_stop || wall() - t0 > secs)
            break;
        Spec s;
        s.scenario = sc->name;
        s.seed = seed;
        s.run = start + i * stride;
        std::string err;
        std::string r = run_one(*sc, s, err);
        runs++;
        steps += sh->steps;
        sw += sh->switches;
        simns += sh->now;
        ap += sh->access_points;
        ops += sh->nops;
        if (ih.size() < 2000000)
            ih.insert(sh->ihash);
        if (hh.size() < 2000000 && (sh->npre + sh->nch + sh->nf > 0 || sh->nops >= 2))
            hh.insert(sh->hash);
        for (uint32_t k = 0; k < sh->nstate; ++k)
            if (st.size() < 2000000)
                st.insert(sh->states[k]);
        for (uint32_t k = 0; k < sh->nkind; ++k) {
            fired[sh->kname[k]] += sh->kfired[k];
            seen[sh->kname[k]] += sh->kseen[k];
        }
        for (uint32_t k = 0; k < sh->nprobe; ++k)
            probes[sh->pname[k]] += sh->pcount[k];
        if (hashes) {
            char b[64];
            snprintf(b, sizeof b, "%s\"%016llx\"", hs.empty() ? "" : ",", (unsigned long long)sh->hash);
            hs += b;
        }
        if (sample.size() < 1500 && sh->noplog)
            sample += "run " + std::to_string(s.run) + ": " + std::string(sh->oplog, sh->noplog < 400 ? sh->noplog : 400) + "\n";
        if (!r.empty()) {
            nviol++;
            std::string cls = r.substr(0, r.find('|'));
            if (classes[cls]++ < 3) {
                std::string path = out + "/v-" + sc->name + "-" + std::to_string(s.run) + ".replay";
                FILE* f = fopen(path.c_str(), "w");
                if (f) {
                    write_spec(f, s, r);
                    fclose(f);
                }
                printf("{\"event\":\"violation\",\"run\":%llu,\"result\":\"%s\",\"hash\":\"%016llx\",\"path\":\"%s\",\"overflow\":%u,\"stderr\":\"%s\"}\n",
                       (unsigned long long)s.run, jesc(r).c_str(), (unsigned long long)sh->hash, path.c_str(), sh->trace_overflow,
                       jesc(err.substr(0, 3000)).c_str());
            }
            if (nviol >= 60)
                break;
        }
    }
    printf("{\"event\":\"summary\",\"scenario\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"accesses\":%llu,\"ops\":%llu,\"violations\":%llu,\"wall\":%.3f,",
           sc->name, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)simns,
           (unsigned long long)ap, (unsigned long long)ops, (unsigned long long)nviol, wall() - t0);
    printf("\"fired\":{");
    bool first = true;
    for (auto& [k, v] : fired) {
        printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", k.c_str(), (unsigned long long)v, (unsigned long long)seen[k]);
        first = false;
    }
    printf("},\"probes\":{");
    first = true;
    for (auto& [k, v] : probes) {
        printf("%s\"%s\":%llu", first ? "" : ",", jesc(k).c_str(), (unsigned long long)v);
        first = false;
    }
    printf("},\"hashes\":[%s],\"sample\":\"%s\",", hs.c_str(), jesc(sample.substr(0, 2000)).c_str());
    std::string sp = out + "/sets-" + sc->name + "-" + std::to_string(start);
    FILE* f = fopen(sp.c_str(), "wb");
    if (f) {
        uint64_t n = ih.size();
        fwrite(&n, 8, 1, f);
        for (uint64_t v : ih)
            fwrite(&v, 8, 1, f);
        n = st.size();
        fwrite(&n, 8, 1, f);
        for (uint64_t v : st)
            fwrite(&v, 8, 1, f);
        n = hh.size();
        fwrite(&n, 8, 1, f);
        for (uint64_t v : hh)
            fwrite(&v, 8, 1, f);
        fclose(f);
    }
    printf("\"sets\":\"%s\"}\n", sp.c_str());
    return 0;
}
} // namespace sim
int main(int argc, char** argv) { return sim::main(argc, argv); }
