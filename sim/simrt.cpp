// Deterministic simulation runtime: fibers, scheduler, memory model, libc stand-ins, run driver.
// Never instrumented; all mutable state lives in one mapping at a fixed address (R), so that the data segments of the
// code under test can be restored to their initial image before every run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include <cerrno>
#include <csetjmp>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <link.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start, _end;

namespace sim
{
    const char* const kind_name[K_COUNT] = { "preempt", "next", "stale_load", "weak_cas_spurious", "wake_choice", "rwlock_policy", "short_write", "eintr_write", "hard_write_error", "eintr_sleep", "timer_latency", "stall", "wall_clock_step", "rdlock_eagain", "os_call_failure", "medium_fault" };

    static constexpr u64 RT_ADDR = 0x210000000000ull;
    static constexpr u64 ARENA = 0x220000000000ull, ARENA_SIZE = 16ull << 20;
    static constexpr u64 STACKS = 0x230000000000ull, STACK_SIZE = 512 << 10, STACK_STRIDE = 1 << 20;
    static constexpr u64 CELLS_A = 0x240000000000ull, CELLS_S = 0x250000000000ull, OKMAP = 0x260000000000ull;
    static constexpr u64 NOWAKE = ~u64(0);

    struct VC
    {
        u32 c[MAXF];
        void join(VC const& o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    };

    enum { F_NONE, F_RUN, F_BLOCK, F_SLEEP, F_DONE };
    struct Fiber
    {
        void* sp;
        int state;
        std::function<void()> fn;
        std::function<bool()> pred;
        int err;
        std::vector<char> tls;
        VC vc, acq_pend, rel_fence;
        bool has_rel_fence;
        u64 wake;
        bool wall; i64 wall_deadline;
        const void* wait_addr;
        bool timed_out;
        u32 cnt[K_COUNT];
        u32 consec;
        i64 prio;
        u64 hard;
        bool weak_hint, weak_failed;
    };

    struct Cell { u32 gen, pw, pr, aw, ar; };
    static constexpr u32 SHARED = 0x80000000u;
    static inline u32 epoch(int f, u32 clk) { return u32(f + 1) << 27 | clk; }

    struct Store { u8 val[16]; VC rel; bool has_rel; int f; u32 clk; };
    struct Loc
    {
        u64 addr; u32 size; u32 gen;
        u32 base; std::vector<Store> st;    // store i has index base + i
        u32 last[MAXF]; u32 stale[MAXF]; u32 last_sc;
    };

    struct Sync     // side state of a pthread object
    {
        u32 gen; VC vc, rvc;
        u8 readers[MAXF];
    };

    struct Dec { int kind, fiber; u32 counter, value; };
    struct Obj { u64 a; u64 n; bool live; };

    struct RT
    {
        // process
        Prop* props = nullptr;
        u64 data_lo = 0, data_hi = 0;
        std::vector<char> image;
        char* tls_addr = nullptr; size_t tls_size = 0; std::vector<char> tls_image;
        char* altstack = nullptr;
        FILE* real_err = nullptr;
        bool trace = false;
        std::vector<std::string> tracelog;
        // aggregate
        std::map<std::string, u64> probes;
        u64 agg_fired[K_COUNT]{}, agg_points = 0, agg_simtime = 0, agg_switches = 0;
        std::vector<u64> hashes;
        // run
        jmp_buf jb;
        bool in_run = false, failed = false, crashed = false;
        std::string fail_cls, fail_msg;
        Fiber f[MAXF];
        void* host_sp = nullptr; int host_err = 0;
        int cur = -1, nf = 0;
        u32 runnable = 0;
        u64 npoints = 0, cap = 0, now = 0, start_now = 0, next_wake = NOWAKE, crash_at = 0, seqno = 0, stalled = 0;
        bool replay = false;
        std::unordered_map<u64, u32> dmap;
        std::vector<Dec> decs;
        Rng rs{ 1 }, rf{ 1 };
        u32 rate[K_COUNT]{}; bool enabled[K_COUNT]{};
        u64 fired[K_COUNT]{};
        int policy = 0; u32 pre_prob = 0; std::vector<u64> pct; i64 pct_low = 0; u32 sync_prob = 0;
        u64 hash = 0, switches = 0;
        bool races = true, plain_pts = true;
        u32 gen = 0;
        std::vector<VC> shared;
        std::vector<Loc> locs; std::unordered_map<u64, u32> locmap;
        std::unordered_map<u64, Sync> syncs;
        VC sc_fence{};
        u64 arena_top = 0; std::vector<Obj> objs; u64 dirt = 0;
        Out outs[3]; int hard_mode = 0; bool hard_stuck = false; u64 hard_all = 0, out_total = 0;
        bool trap_resume = false; u64 storm = 0; u64 ntraps = 0; void (*trap_fn)() = nullptr;
        int rwpol = 0;
        i64 mono_off = 0; u64 mono_at = 0; int slew = 0; i64 wall_off = 0;
        u64 sc_points = 0;
    };
#define R (*reinterpret_cast<RT*>(RT_ADDR))

    static inline Fiber& cf() { return R.f[R.cur]; }

    // ------------------------------------------------------------------ context switch
    extern "C" void sim_swap(void** save, void* load);
    __asm__(
        ".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
        "  push %rbp\n  push %rbx\n  push %r12\n  push %r13\n  push %r14\n  push %r15\n"
        "  mov %rsp,(%rdi)\n  mov %rsi,%rsp\n"
        "  pop %r15\n  pop %r14\n  pop %r13\n  pop %r12\n  pop %rbx\n  pop %rbp\n  ret\n"
        ".size sim_swap,.-sim_swap\n");

    static void swap_to(int k) // k = -1: host
    {
        int from = R.cur;
        if (from == k) return;
        void** save;
        if (from < 0) { R.host_err = errno; save = &R.host_sp; }
        else { auto& f = R.f[from]; f.err = errno; save = &f.sp; f.consec = 0; if (R.tls_size) memcpy(f.tls.data(), R.tls_addr, R.tls_size); }
        R.cur = k;
        void* load;
        if (k < 0) load = R.host_sp;
        else { load = R.f[k].sp; if (R.tls_size) memcpy(R.tls_addr, R.f[k].tls.data(), R.tls_size); }
        R.switches++;
        sim_swap(save, load);
        // resumed here as `from`
        errno = from < 0 ? R.host_err : R.f[from].err;
    }

    static void schedule_next();

    static void fiber_main()
    {
        errno = cf().err;
        cf().fn();
        auto& f = cf();
        f.state = F_DONE;
        R.runnable &= ~(1u << R.cur);
        // wake predicate waiters lazily in schedule_next
        schedule_next();
        abort();
    }

    // ------------------------------------------------------------------ hash, notes
    static inline void hmix(u64 v) { R.hash = (R.hash ^ v) * 0x9fb21c651e98df25ull; R.hash ^= R.hash >> 29; }
    void mix(u64 v) { hmix(v); }
    u64 run_hash() { return R.hash; }
    bool tracing() { return R.trace; }
    void note(const char* fmt, ...)
    {
        if (!R.trace) return;
        char buf[512];
        va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        char head[64]; snprintf(head, sizeof head, "[%8llu t=%llu T%d] ", (unsigned long long)R.npoints, (unsigned long long)(R.now - R.start_now), R.cur);
        if (R.tracelog.size() < 4000) R.tracelog.push_back(std::string(head) + buf);
    }
    void probe(const char* name, u64 n) { if (n) R.probes[name] += n; }

    void fail(const char* cls, const char* fmt, ...)
    {
        if (!R.failed)
        {
            char buf[1024];
            va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            for (char* p = buf; *p; ++p) if (*p == '\n') *p = ' ';
            R.failed = true; R.fail_cls = cls; R.fail_msg = buf;
            for (char c : R.fail_cls) hmix(u8(c));
            if (R.trace) note("VIOLATION %s: %s", cls, buf);
        }
        if (!R.in_run) { dprintf(2, "sim: fail outside run: %s %s\n", R.fail_cls.c_str(), R.fail_msg.c_str()); _exit(3); }
        if (R.cur >= 0) { swap_to(-1); abort(); }
        longjmp(R.jb, 1);
    }

    // ------------------------------------------------------------------ decisions
    static inline u64 dkey(int kind, int fiber, u32 c) { return u64(kind) << 56 | u64(u8(fiber)) << 40 | c; }
    static u32 hostcnt[1];
    static u32 record(int kind, u32 v)
    {
        int f = R.cur < 0 ? 0 : R.cur;
        u32 c = R.f[f].cnt[kind]; (void)hostcnt;
        if (v) { R.decs.push_back({ kind, f, c, v }); }
        R.f[f].cnt[kind]++;
        return v;
    }
    static bool replayed(int kind, u32 n, u32& v)
    {
        if (!R.replay) return false;
        int f = R.cur < 0 ? 0 : R.cur;
        u32 c = R.f[f].cnt[kind]++;
        auto it = R.dmap.find(dkey(kind, f, c));
        v = it == R.dmap.end() ? 0 : it->second % n;
        if (v) R.decs.push_back({ kind, f, c, v });
        return true;
    }
    void fault_fired(Kind k, u64 n) { R.fired[k] += n; R.agg_fired[k] += n; }
    u64 fired(Kind k) { return R.fired[k]; }
    void rate(Kind k, u32 r) { R.rate[k] = r; R.enabled[k] = r != 0; }
    u32 decide(Kind k, u32 n)
    {
        if (n < 2 || !R.enabled[k]) return 0;
        u32 v;
        if (!replayed(k, n, v))
        {
            v = 0;
            if (R.rf.below(65536) < R.rate[k]) v = 1 + u32(R.rf.below(n - 1));
            record(k, v);
        }
        if (v) { fault_fired(k); hmix(u64(k) << 32 | v); if (R.trace) note("fault %s = %u", kind_name[k], v); }
        return v;
    }

    // ------------------------------------------------------------------ time and scheduling
    u64 now() { return R.now; }
    u64 seq() { return ++R.seqno; }
    u64 points() { return R.npoints; }
    u64 stalled_ns() { return R.stalled; }
    int self() { return R.cur; }
    bool crashed() { return R.crashed; }
    void step_cap(u64 n) { R.cap = n; }
    void track_races(bool on) { R.races = on; }
    void plain_points(bool on) { R.plain_pts = on; }
    int alive() { int n = 0; for (int i = 0; i < R.nf; ++i) n += R.f[i].state != F_DONE && R.f[i].state != F_NONE; return n; }
    void arm_crash(u64 pts) { R.crash_at = pts ? R.npoints + pts : 0; }

    static i64 mono_now() { i64 d = i64(R.now - R.mono_at); return i64(R.mono_at) + R.mono_off + d + (i64)((__int128)d * R.slew / 1000000); }
    static i64 wall_now() { return mono_now() + R.wall_off; }

    static void wake_due()
    {
        u64 nw = NOWAKE;
        for (int i = 0; i < R.nf; ++i)
        {
            auto& f = R.f[i];
            if (f.wake == NOWAKE) continue;
            if (f.state != F_SLEEP && f.state != F_BLOCK) { f.wake = NOWAKE; continue; }
            bool due = f.wall ? wall_now() >= f.wall_deadline : f.wake <= R.now;
            if (due)
            {
                f.timed_out = true; f.wake = NOWAKE; f.wall = false;
                f.state = F_RUN; R.runnable |= 1u << i;
            }
            else
            {
                u64 w = f.wall ? R.now + u64(f.wall_deadline - wall_now()) : f.wake;
                if (w < nw) nw = w;
            }
        }
        R.next_wake = nw;
    }
    static void check_preds()
    {
        for (int i = 0; i < R.nf; ++i)
            if (R.f[i].state == F_BLOCK && R.f[i].pred && R.f[i].pred()) { R.f[i].pred = nullptr; R.f[i].state = F_RUN; R.runnable |= 1u << i; }
    }
    void advance(u64 ns) { R.now += ns; if (R.now >= R.next_wake) wake_due(); }
    static bool jump_time()
    {
        wake_due();
        if (R.runnable) return true;
        if (R.next_wake == NOWAKE) return false;
        if (R.next_wake > R.now) R.now = R.next_wake;
        wake_due();
        return R.runnable != 0;
    }
    static int nth_other(u32 mask, int self, u32 n) // n-th (0-based) set bit cyclically after self
    {
        for (int d = 1; d <= MAXF; ++d)
        {
            int i = (self + d) % MAXF;
            if (mask >> i & 1) { if (n == 0) return i; --n; }
        }
        return -1;
    }

    static void schedule_next() // current fiber cannot run
    {
        check_preds();
        if (!R.runnable)
        {
            for (;;)
            {
                if (alive() == 0) { swap_to(-1); return; }
                if (jump_time()) break;
                check_preds();
                if (R.runnable) break;
                // deadlock
                std::string who;
                for (int i = 0; i < R.nf; ++i) if (R.f[i].state == F_BLOCK) who += " T" + std::to_string(i);
                fail("deadlock", "no thread can run and no timer is pending; blocked:%s", who.c_str());
            }
        }
        u32 n = __builtin_popcount(R.runnable);
        u32 v = 0;
        if (n > 1 && !replayed(K_NEXT, n, v))
        {
            v = R.policy == 1 ? 0 : u32(R.rs.below(n));
            if (R.policy == 1)
            {   // highest priority
                int best = -1; u32 bi = 0, j = 0;
                for (int d = 1; d <= MAXF; ++d) { int i = (R.cur + d) % MAXF; if (R.runnable >> i & 1) { if (best < 0 || R.f[i].prio > R.f[best].prio) best = i, bi = j; ++j; } }
                v = bi;
            }
            record(K_NEXT, v);
        }
        int k = nth_other(R.runnable, R.cur, v);
        hmix(0x1000 + k);
        if (k == R.cur) return;
        swap_to(k);
    }

    static void do_crash()
    {
        R.crashed = true;
        hmix(0xdead);
        if (R.trace) note("CRASH: the simulated process dies");
        swap_to(-1);
        abort();
    }
    void crash_now() { do_crash(); __builtin_unreachable(); }

    enum { P_PLAIN, P_ATOMIC, P_LIBC };
    static void sched_point(int cls)
    {
        if (R.cur < 0) return;
        auto& f = cf();
        ++R.npoints; R.now += 2;
        if (R.npoints > R.cap) fail("no-progress", "no completion within %llu scheduling points", (unsigned long long)R.cap);
        if (R.crash_at && R.npoints >= R.crash_at) do_crash();
        if (R.now >= R.next_wake) wake_due();
        if (R.next_wake != NOWAKE && (R.npoints & 2047) == 0) { if (R.now < R.next_wake) { R.stalled += R.next_wake - R.now; R.now = R.next_wake; } wake_due(); }
        if ((R.npoints & 15) == 0 || cls == P_LIBC) check_preds();
        u32 others = R.runnable & ~(1u << R.cur);
        if (!others) return;
        if (++f.consec > 400) // fairness: bounded monopoly
        {
            f.consec = 0;
            if (R.policy == 1) f.prio = --R.pct_low;
            int k = nth_other(others, R.cur, 0);
            hmix(0x2000 + k);
            swap_to(k);
            return;
        }
        u32 n = 1 + __builtin_popcount(others), v = 0;
        if (!replayed(K_PREEMPT, n, v))
        {
            switch (R.policy)
            {
            case 0: if (R.rs.below(65536) < R.pre_prob) v = 1 + u32(R.rs.below(n - 1)); break;
            case 1:
                for (auto& c : R.pct) if (c == R.npoints) { f.prio = --R.pct_low; }
                {
                    int best = R.cur; u32 bi = 0, j = 1;
                    for (int d = 1; d <= MAXF; ++d) { int i = (R.cur + d) % MAXF; if (others >> i & 1) { if (R.f[i].prio > R.f[best].prio) best = i, bi = j; ++j; } }
                    v = bi;
                }
                break;
            case 2: if (cls != P_PLAIN && R.rs.below(65536) < R.sync_prob) v = 1 + u32(R.rs.below(n - 1)); break;
            default: break;
            }
            record(K_PREEMPT, v);
        }
        if (v)
        {
            fault_fired(K_PREEMPT);
            int k = nth_other(others, R.cur, v - 1);
            hmix(0x3000 + k);
            if (R.trace) note("preempted -> T%d", k);
            swap_to(k);
        }
    }
    void point() { sched_point(P_LIBC); }

    static void block_self(int state)
    {
        auto& f = cf();
        f.state = state;
        R.runnable &= ~(1u << R.cur);
        schedule_next();
    }
    static void make_runnable(int i) { R.f[i].state = F_RUN; R.f[i].wait_addr = nullptr; R.f[i].wake = NOWAKE; R.f[i].wall = false; R.runnable |= 1u << i; }

    static void sleep_until(u64 t)
    {
        auto& f = cf();
        if (t <= R.now) return;
        f.wake = t; f.wall = false; f.timed_out = false;
        if (t < R.next_wake) R.next_wake = t;
        block_self(F_SLEEP);
    }
    void sleep_sim(u64 ns) { if (R.cur < 0) { R.now += ns; return; } sleep_until(R.now + ns); }
    void wait_until(std::function<bool()> pred)
    {
        sched_point(P_LIBC);
        while (!pred())
        {
            cf().pred = pred;
            block_self(F_BLOCK);
        }
    }
    static const u64 stall_tab[] = { 0, 700, 40000, 3000000, 250000000, 9000000000ull };
    static void maybe_stall()
    {
        if (R.cur < 0) return;
        if (u32 v = decide(K_STALL, 6)) { R.stalled += stall_tab[v]; sleep_until(R.now + stall_tab[v]); }
    }
    static void set_mono_base() { i64 m = mono_now(); R.mono_at = R.now; R.mono_off = m - i64(R.now); }
    void set_slew_ppm(int ppm) { set_mono_base(); R.slew = ppm; }
    void step_wall(i64 ns) { R.wall_off += ns; wake_due(); }
    static const i64 step_tab[] = { 0, -1000000, 1000000, -2000000000, 2000000000, -3600000000000, 3600000000000, -86400000000000 * 400, 86400000000000 * 400 };
    static void maybe_step()
    {
        if (R.cur < 0) return;
        if (u32 v = decide(K_CLKSTEP, 9)) step_wall(step_tab[v]);
    }
    void set_now(u64 ns) { R.now = R.start_now = ns; R.mono_at = ns; R.mono_off = 0; }

    int spawn(std::function<void()> fn)
    {
        int i = R.nf;
        if (i >= MAXF) { dprintf(2, "sim: too many fibers\n"); _exit(3); }
        R.nf++;
        auto& f = R.f[i];
        f.state = F_RUN; f.fn = std::move(fn); f.pred = nullptr; f.err = 0; f.wake = NOWAKE; f.wall = false; f.wait_addr = nullptr; f.consec = 0; f.hard = 0; f.weak_hint = f.weak_failed = false;
        f.tls.assign(R.tls_image.begin(), R.tls_image.end());
        if (R.cur >= 0) { f.vc = cf().vc; cf().vc.c[R.cur]++; } else memset(&f.vc, 0, sizeof f.vc);
        f.vc.c[i]++;
        memset(&f.acq_pend, 0, sizeof f.acq_pend); f.has_rel_fence = false;
        f.prio = 1000 + i64(R.rs.below(1000));
        R.runnable |= 1u << i;
        char* top = reinterpret_cast<char*>(STACKS + i * STACK_STRIDE + STACK_STRIDE);
        memset(top - 16384, int(R.dirt & 0xff), 16384 - 256);
        void** sp = reinterpret_cast<void**>(top - 256);
        *--sp = nullptr;                                    // alignment: fiber_main entered with rsp % 16 == 8
        *--sp = reinterpret_cast<void*>(&fiber_main);
        for (int k = 0; k < 6; ++k) *--sp = nullptr;
        f.sp = sp;
        return i;
    }

    Status run_all()
    {
        if (R.nf == 0) return DONE;
        if (R.tls_size) memcpy(R.tls_addr, R.tls_image.data(), R.tls_size);
        u32 n = __builtin_popcount(R.runnable), v = 0;
        if (n > 1 && !replayed(K_NEXT, n, v)) { v = u32(R.rs.below(n)); record(K_NEXT, v); }
        int k = nth_other(R.runnable, MAXF - 1, v);
        if (k >= 0) { hmix(0x1000 + k); swap_to(k); }
        if (R.failed) longjmp(R.jb, 1);
        return R.crashed ? CRASHED : DONE;
    }
    void reset_fibers()
    {
        for (int i = 0; i < MAXF; ++i) { R.f[i].state = F_NONE; R.f[i].fn = nullptr; R.f[i].pred = nullptr; R.f[i].wake = NOWAKE; memset(&R.f[i].vc, 0, sizeof(VC)); }
        R.nf = 0; R.runnable = 0; R.crashed = false; R.next_wake = NOWAKE; R.crash_at = 0;
        R.gen++; R.locs.clear(); R.locmap.clear(); R.syncs.clear(); R.shared.clear();
        memset(&R.sc_fence, 0, sizeof R.sc_fence);
    }

    // ------------------------------------------------------------------ arena
    void set_dirt(u64 seed) { R.dirt = seed; }
    static u8* okmap() { return reinterpret_cast<u8*>(OKMAP); }
    void* alloc(size_t size, size_t align, int dirt)
    {
        u64 a = (R.arena_top + 64 + align - 1) / align * align;
        if (a + size + 64 > ARENA_SIZE) { dprintf(2, "sim: arena full\n"); _exit(3); }
        u8* p = reinterpret_cast<u8*>(ARENA + a);
        u64 d = dirt >= 0 ? u64(dirt) : R.dirt;
        switch (dirt >= 0 ? 2 : d % 4)
        {
        case 0: memset(p, 0, size); break;
        case 1: memset(p, 0xff, size); break;
        case 2: memset(p, int(dirt >= 0 ? dirt : 0xa5), size); break;
        default: { Rng g(d ^ a); for (size_t i = 0; i < size; i += 8) { u64 v = g.next(); memcpy(p + i, &v, size - i < 8 ? size - i : 8); } }
        }
        memset(okmap() + a, 1, size);
        R.arena_top = a + size;
        R.objs.push_back({ ARENA + a, size, true });
        return p;
    }
    void release(void* p)
    {
        for (auto& o : R.objs) if (o.a == u64(p) && o.live) { o.live = false; memset(okmap() + (o.a - ARENA), 2, o.n); return; }
        dprintf(2, "sim: release of unknown object\n"); _exit(3);
    }
    bool is_live(const void* p, size_t n)
    {
        u64 a = u64(p);
        if (a < ARENA || a + n > ARENA + ARENA_SIZE) return false;
        for (size_t i = 0; i < n; ++i) if (okmap()[a - ARENA + i] != 1) return false;
        return true;
    }

    // ------------------------------------------------------------------ races
    static const char* where(u64 a)
    {
        static char buf[96];
        if (a >= ARENA && a < ARENA + ARENA_SIZE)
        {
            for (size_t i = 0; i < R.objs.size(); ++i)
            {
                auto& o = R.objs[i];
                if (a + 64 >= o.a && a < o.a + o.n + 64) { snprintf(buf, sizeof buf, "object #%zu%+lld (size %llu)", i, (long long)(a - o.a), (unsigned long long)o.n); if (a >= o.a && a < o.a + o.n) return buf; }
            }
            if (buf[0]) return buf;
            return "unallocated arena memory";
        }
        snprintf(buf, sizeof buf, "static storage +%llu", (unsigned long long)(a - R.data_lo));
        return buf;
    }
    static inline Cell* cell_of(u64 a)
    {
        if (a >= ARENA && a < ARENA + ARENA_SIZE) return reinterpret_cast<Cell*>(CELLS_A) + (a - ARENA);
        if (a >= R.data_lo && a < R.data_hi) return reinterpret_cast<Cell*>(CELLS_S) + (a - R.data_lo);
        return nullptr;
    }
    static inline bool ordered(u32 e, VC const& vc, int& other)
    {
        if (e == 0) return true;
        if (e & SHARED)
        {
            VC& s = R.shared[e & ~SHARED];
            for (int i = 0; i < MAXF; ++i) if (s.c[i] > vc.c[i]) { other = i; return false; }
            return true;
        }
        int f = int(e >> 27) - 1;
        other = f;
        return (e & 0x7ffffff) <= vc.c[f];
    }
    static inline void join_epoch(u32& e, int me, VC const& vc)
    {
        if (e & SHARED) { R.shared[e & ~SHARED].c[me] = vc.c[me]; return; }
        if (e == 0) { e = epoch(me, vc.c[me]); return; }
        int f = int(e >> 27) - 1; u32 clk = e & 0x7ffffff;
        if (f == me || clk <= vc.c[f]) { e = epoch(me, vc.c[me]); return; }
        VC s; memset(&s, 0, sizeof s); s.c[f] = clk; s.c[me] = vc.c[me];
        R.shared.push_back(s); e = SHARED | u32(R.shared.size() - 1);
    }
    enum { A_PR, A_PW, A_AR, A_AW };
    static void note_access(u64 a, u64 n, int kind)
    {
        if (R.cur < 0) return;
        Cell* c = cell_of(a);
        if (!c) return;
        if (a >= ARENA && a < ARENA + ARENA_SIZE)
        {
            for (u64 i = 0; i < n; ++i)
            {
                u8 s = okmap()[a - ARENA + i];
                if (s != 1) { fail(s == 2 ? "use-after-free" : "out-of-bounds", "%s of %llu bytes at %s", kind == A_PR || kind == A_AR ? "read" : "write", (unsigned long long)n, where(a + i)); }
            }
        }
        if (!R.races) return;
        if (!cell_of(a + n - 1)) return;
        int me = R.cur; auto& vc = cf().vc; int o = -1;
        for (u64 i = 0; i < n; ++i, ++c)
        {
            if (c->gen != R.gen) { c->gen = R.gen; c->pw = c->pr = c->aw = c->ar = 0; }
            const char* what = nullptr;
            switch (kind)
            {
            case A_PR:
                if (!ordered(c->pw, vc, o)) what = "plain read / plain write";
                else if (!ordered(c->aw, vc, o)) what = "plain read / atomic write";
                else join_epoch(c->pr, me, vc);
                break;
            case A_PW:
                if (!ordered(c->pw, vc, o)) what = "plain write / plain write";
                else if (!ordered(c->pr, vc, o)) what = "plain write / plain read";
                else if (!ordered(c->aw, vc, o)) what = "plain write / atomic write";
                else if (!ordered(c->ar, vc, o)) what = "plain write / atomic read";
                else { c->pw = epoch(me, vc.c[me]); c->pr = c->aw = c->ar = 0; }
                break;
            case A_AR:
                if (!ordered(c->pw, vc, o)) what = "atomic read / plain write";
                else join_epoch(c->ar, me, vc);
                break;
            case A_AW:
                if (!ordered(c->pw, vc, o)) what = "atomic write / plain write";
                else if (!ordered(c->pr, vc, o)) what = "atomic write / plain read";
                else join_epoch(c->aw, me, vc);
                break;
            }
            if (what) fail("data-race", "%s by T%d, unordered with T%d, at %s", what, me, o, where(a + i));
        }
    }
    static inline bool tracked(u64 a) { return (a >= ARENA && a < ARENA + ARENA_SIZE) || (a >= R.data_lo && a < R.data_hi); }
    static inline void plain(u64 a, u64 n, bool w)
    {
        if (R.cur < 0 || !tracked(a)) return;
        if (R.plain_pts) sched_point(P_PLAIN);
        else { ++R.npoints; R.now += 1; if (R.npoints > R.cap) fail("no-progress", "no completion within %llu steps", (unsigned long long)R.cap); if (R.crash_at && R.npoints >= R.crash_at) do_crash(); }
        note_access(a, n, w ? A_PW : A_PR);
    }
    void acc_read(const void* p, size_t n) { plain(u64(p), n, false); }
    void acc_write(void* p, size_t n) { plain(u64(p), n, true); }
    Token publish() { Token t; memset(&t, 0, sizeof t); if (R.cur >= 0) { memcpy(&t, &cf().vc, sizeof t); cf().vc.c[R.cur]++; } return t; }
    void observe(const Token& t) { if (R.cur >= 0) { VC v; memcpy(&v, &t, sizeof v); cf().vc.join(v); } }

    // ------------------------------------------------------------------ atomics
    enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
    static inline bool is_acq(int m) { return m == MO_ACQUIRE || m == MO_CONSUME || m == MO_ACQ_REL || m == MO_SEQ_CST; }
    static inline bool is_rel(int m) { return m == MO_RELEASE || m == MO_ACQ_REL || m == MO_SEQ_CST; }

    static Loc& loc_of(u64 a, u32 n)
    {
        auto it = R.locmap.find(a);
        u32 idx;
        if (it == R.locmap.end()) { idx = u32(R.locs.size()); R.locs.emplace_back(); R.locmap[a] = idx; R.locs[idx].addr = a; R.locs[idx].size = 0; R.locs[idx].base = 0; }
        else idx = it->second;
        auto& l = R.locs[idx];
        if (l.size != n || l.st.empty() || memcmp(l.st.back().val, reinterpret_cast<void*>(a), n) != 0)
        {
            l.size = n; l.base += u32(l.st.size()); l.st.clear();
            Store s; memset(&s, 0, sizeof s); memcpy(s.val, reinterpret_cast<void*>(a), n); s.f = -1;
            l.st.push_back(s);
            for (int i = 0; i < MAXF; ++i) l.last[i] = l.base, l.stale[i] = 0;
            l.last_sc = l.base;
        }
        return l;
    }
    static inline u32 newest(Loc& l) { return l.base + u32(l.st.size()) - 1; }
    static void sync_read(Store& s, int mo)
    {
        if (!s.has_rel) return;
        if (is_acq(mo)) cf().vc.join(s.rel); else cf().acq_pend.join(s.rel);
    }
    static void push_store(Loc& l, const void* v, int mo, Store* rmw_prev)
    {
        auto& f = cf();
        Store s; memset(&s, 0, sizeof s);
        memcpy(s.val, v, l.size);
        s.f = R.cur; s.clk = f.vc.c[R.cur];
        if (is_rel(mo)) { s.rel = f.vc; s.has_rel = true; }
        else if (f.has_rel_fence) { s.rel = f.rel_fence; s.has_rel = true; }
        if (rmw_prev && rmw_prev->has_rel) { if (s.has_rel) s.rel.join(rmw_prev->rel); else s.rel = rmw_prev->rel, s.has_rel = true; }
        memcpy(reinterpret_cast<void*>(l.addr), v, l.size);
        l.st.push_back(s);
        if (l.st.size() > 24)
        {
            l.st.erase(l.st.begin()); l.base++;
            for (int i = 0; i < MAXF; ++i) if (l.last[i] < l.base) l.last[i] = l.base;
            if (l.last_sc < l.base) l.last_sc = l.base;
        }
        u32 k = newest(l);
        l.last[R.cur] = k; l.stale[R.cur] = 0;
        if (mo == MO_SEQ_CST) l.last_sc = k;
        f.vc.c[R.cur]++;
    }
    static void at_event(u64 a, int what) { hmix((a - (a >= ARENA ? ARENA : R.data_lo)) * 16 + what + (u64(R.cur) << 40)); }

    static void at_load(u64 a, void* out, u32 n, int mo)
    {
        if (R.cur < 0) { memcpy(out, reinterpret_cast<void*>(a), n); return; }
        sched_point(P_ATOMIC);
        if (!tracked(a) || n > 16) { memcpy(out, reinterpret_cast<void*>(a), n); return; }
        note_access(a, n, A_AR);
        Loc& l = loc_of(a, n);
        auto& f = cf();
        u32 nw = newest(l), lb = l.last[R.cur];
        if (mo == MO_SEQ_CST && l.last_sc > lb) lb = l.last_sc;
        for (u32 i = nw; i > lb; --i)
        {
            auto& s = l.st[i - l.base];
            if (s.f >= 0 && s.clk <= f.vc.c[s.f]) { lb = i; break; }
        }
        u32 pick = nw;
        if (lb < nw && l.stale[R.cur] < 40)
        {
            u32 cand = nw - lb + 1, v = 0;
            if (!replayed(K_STALE, cand, v)) { v = R.rs.below(65536) < R.rate[K_STALE] ? 1 + u32(R.rs.below(cand - 1)) : 0; record(K_STALE, v); }
            if (v) { fault_fired(K_STALE); pick = nw - v; l.stale[R.cur]++; if (R.trace) note("atomic load reads a store %u back", v); }
        }
        if (pick == nw) l.stale[R.cur] = 0;
        auto& s = l.st[pick - l.base];
        memcpy(out, s.val, n);
        l.last[R.cur] = pick;
        sync_read(s, mo);
        at_event(a, 1 + (nw - pick));
    }
    static void at_store(u64 a, const void* v, u32 n, int mo)
    {
        if (R.cur < 0) { memcpy(reinterpret_cast<void*>(a), v, n); return; }
        sched_point(P_ATOMIC);
        if (!tracked(a) || n > 16) { memcpy(reinterpret_cast<void*>(a), v, n); return; }
        note_access(a, n, A_AW);
        Loc& l = loc_of(a, n);
        push_store(l, v, mo, nullptr);
        at_event(a, 2);
    }
    // f(old, out_new) returns whether to store
    template<class F> static void at_rmw(u64 a, u32 n, int mo, int mo_fail, void* old_out, F fn)
    {
        u8 nv[64]; u8 old[64];
        if (R.cur >= 0) sched_point(P_ATOMIC);
        memcpy(old, reinterpret_cast<void*>(a), n);
        if (R.cur < 0 || !tracked(a) || n > 16)
        {
            if (fn(old, nv)) memcpy(reinterpret_cast<void*>(a), nv, n);
            memcpy(old_out, old, n);
            return;
        }
        bool st = fn(old, nv);
        note_access(a, n, st ? A_AW : A_AR);
        Loc& l = loc_of(a, n);
        Store prev = l.st.back();
        l.last[R.cur] = newest(l);
        sync_read(prev, st ? mo : mo_fail);
        if (st) push_store(l, nv, mo, &prev);
        memcpy(old_out, old, n);
        at_event(a, st ? 3 : 4);
    }
    // compare exchange; returns success; *old_out = observed
    static bool at_cas(u64 a, const void* expected, const void* desired, u32 n, int mo, int mo_fail, bool weak, void* old_out)
    {
        bool ok = false, spurious = false;
        if (weak && R.cur >= 0)
        {
            u32 v = 0;
            if (!replayed(K_WEAKCAS, 2, v)) { v = R.rs.below(65536) < R.rate[K_WEAKCAS]; record(K_WEAKCAS, v); }
            cf().weak_failed = v != 0;
            if (v) { spurious = true; fault_fired(K_WEAKCAS); if (R.trace) note("weak compare-exchange fails spuriously"); }
        }
        at_rmw(a, n, mo, mo_fail, old_out, [&](const u8* old, u8* nv) {
            ok = !spurious && memcmp(old, expected, n) == 0;
            memcpy(nv, desired, n);
            return ok;
        });
        return ok;
    }
    static void at_fence(int mo)
    {
        if (R.cur < 0) return;
        sched_point(P_ATOMIC);
        auto& f = cf();
        if (is_acq(mo)) f.vc.join(f.acq_pend);
        if (mo == MO_SEQ_CST) { f.vc.join(R.sc_fence); R.sc_fence.join(f.vc); }
        if (is_rel(mo)) { f.rel_fence = f.vc; f.has_rel_fence = true; f.vc.c[R.cur]++; }
    }

    // ------------------------------------------------------------------ sync objects
    static Sync& sync_of(const void* p)
    {
        auto it = R.syncs.find(u64(p));
        if (it == R.syncs.end()) { Sync s; memset(&s, 0, sizeof s); it = R.syncs.emplace(u64(p), s).first; }
        return it->second;
    }
    static void check_storage(const void* p, size_t n, const char* what)
    {
        u64 a = u64(p);
        if (a >= ARENA && a < ARENA + ARENA_SIZE && !is_live(p, n)) fail("lock-storage", "%s at %s needs %zu bytes, more than its storage", what, where(a), n);
        note_access(a, n, A_AW);
    }
    static void wait_on(const void* p) { cf().wait_addr = p; cf().timed_out = false; block_self(F_BLOCK); }
    static void wake_waiters(const void* p, bool all)
    {
        int w[MAXF], n = 0;
        for (int d = 1; d <= MAXF; ++d) { int i = (R.cur + d) % MAXF; if (i < R.nf && R.f[i].state == F_BLOCK && R.f[i].wait_addr == p) w[n++] = i; }
        if (!n) return;
        if (all) { for (int i = 0; i < n; ++i) make_runnable(w[i]); return; }
        u32 v = 0;
        if (n > 1 && !replayed(K_WAKE, n, v)) { v = u32(R.rs.below(n)); record(K_WAKE, v); }
        make_runnable(w[v]);
    }
    void set_ceiling(int p) { R.rwpol = p; }

    struct MutexMem { int lock; unsigned count; int owner; unsigned nusers; int kind; };
    static void mutex_check(pthread_mutex_t* m)
    {
        check_storage(m, sizeof *m, "mutex");
        auto* x = reinterpret_cast<MutexMem*>(m);
        const u8* b = reinterpret_cast<const u8*>(m);
        bool bad = x->lock < 0 || x->lock > 1 || x->owner < 0 || x->owner > MAXF || x->kind < 0 || x->kind > 3;
        for (size_t i = 20; i < sizeof *m; ++i) bad |= b[i] != 0;
        if (bad) fail("lock-garbage", "mutex at %s used without being initialised", where(u64(m)));
    }
    static int mutex_lock(pthread_mutex_t* m, bool try_, i64 abs_wall)
    {
        sched_point(P_LIBC); maybe_stall();
        mutex_check(m);
        auto* x = reinterpret_cast<MutexMem*>(m);
        for (;;)
        {
            if (x->lock == 0)
            {
                x->lock = 1; x->owner = R.cur + 1; x->count = 1; x->nusers = 1;
                cf().vc.join(sync_of(m).vc);
                at_event(u64(m), 5);
                return 0;
            }
            if (x->owner == R.cur + 1)
            {
                if (x->kind == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; }
                if (x->kind == PTHREAD_MUTEX_ERRORCHECK) return try_ ? EBUSY : EDEADLK;
            }
            if (try_) { at_event(u64(m), 6); return EBUSY; }
            if (abs_wall >= 0) { if (wall_now() >= abs_wall) return ETIMEDOUT; cf().wall = true; cf().wall_deadline = abs_wall; cf().wake = 1; R.next_wake = R.now; wake_due(); }
            at_event(u64(m), 7);
            wait_on(m);
            mutex_check(m);
        }
    }
    static int mutex_unlock(pthread_mutex_t* m)
    {
        sched_point(P_LIBC);
        mutex_check(m);
        auto* x = reinterpret_cast<MutexMem*>(m);
        if (x->lock == 0 || x->owner != R.cur + 1) fail("bad-unlock", "T%d unlocks a mutex %s", R.cur, x->lock == 0 ? "nobody holds" : "another thread holds");
        if (x->kind == PTHREAD_MUTEX_RECURSIVE && --x->count) return 0;
        auto& s = sync_of(m);
        s.vc = cf().vc; cf().vc.c[R.cur]++;
        x->lock = 0; x->owner = 0; x->count = 0; x->nusers = 0;
        at_event(u64(m), 8);
        wake_waiters(m, false);
        sched_point(P_LIBC);
        return 0;
    }
    struct RwMem { unsigned readers, writer, w3, w4, w5, w6; int cur_writer; };
    static void rw_check(pthread_rwlock_t* m)
    {
        check_storage(m, sizeof *m, "rwlock");
        auto* x = reinterpret_cast<RwMem*>(m);
        const u8* b = reinterpret_cast<const u8*>(m);
        bool bad = x->readers > 4096 || x->writer > 1 || x->cur_writer < 0 || x->cur_writer > MAXF;
        for (size_t i = 8; i < 24; ++i) bad |= b[i] != 0;
        for (size_t i = 28; i < 48; ++i) bad |= b[i] != 0;
        bad |= b[48] > 2; // flags: preference kind
        if (bad) fail("lock-garbage", "rwlock at %s used without being initialised", where(u64(m)));
    }
    static bool writer_waiting(const void* m) { for (int i = 0; i < R.nf; ++i) if (R.f[i].state == F_BLOCK && R.f[i].wait_addr == static_cast<const char*>(m) + 1) return true; return false; }
    static int rw_rdlock(pthread_rwlock_t* m, bool try_, i64 abs_wall)
    {
        sched_point(P_LIBC); maybe_stall();
        rw_check(m);
        if (decide(K_EAGAIN, 2)) return EAGAIN;
        auto* x = reinterpret_cast<RwMem*>(m);
        for (;;)
        {
            auto& s = sync_of(m);
            if (x->readers == 0) memset(s.readers, 0, sizeof s.readers);
            bool mayenter = x->writer == 0;
            if (mayenter && R.rwpol == 1 && writer_waiting(m) && s.readers[R.cur] == 0 && x->readers > 0) mayenter = false;
            if (mayenter)
            {
                x->readers++; s.readers[R.cur]++;
                cf().vc.join(s.vc);
                at_event(u64(m), 9);
                return 0;
            }
            if (x->writer && x->cur_writer == R.cur + 1 && !try_) return EDEADLK;
            if (try_) return EBUSY;
            if (abs_wall >= 0) { if (wall_now() >= abs_wall) return ETIMEDOUT; cf().wall = true; cf().wall_deadline = abs_wall; cf().wake = 1; R.next_wake = R.now; wake_due(); }
            wait_on(m);
            rw_check(m);
        }
    }
    static int rw_wrlock(pthread_rwlock_t* m, bool try_, i64 abs_wall)
    {
        sched_point(P_LIBC); maybe_stall();
        rw_check(m);
        auto* x = reinterpret_cast<RwMem*>(m);
        for (;;)
        {
            if (x->writer == 0 && x->readers == 0)
            {
                auto& s = sync_of(m);
                x->writer = 1; x->cur_writer = R.cur + 1;
                cf().vc.join(s.vc); cf().vc.join(s.rvc);
                memset(s.readers, 0, sizeof s.readers);
                at_event(u64(m), 10);
                return 0;
            }
            if (x->writer && x->cur_writer == R.cur + 1 && !try_) return EDEADLK;
            if (try_) return EBUSY;
            if (abs_wall >= 0) { if (wall_now() >= abs_wall) return ETIMEDOUT; cf().wall = true; cf().wall_deadline = abs_wall; cf().wake = 1; R.next_wake = R.now; wake_due(); }
            cf().wait_addr = reinterpret_cast<char*>(m) + 1; cf().timed_out = false; block_self(F_BLOCK);
            rw_check(m);
        }
    }
    static int rw_unlock(pthread_rwlock_t* m)
    {
        sched_point(P_LIBC);
        rw_check(m);
        auto* x = reinterpret_cast<RwMem*>(m);
        auto& s = sync_of(m);
        if (x->writer)
        {
            if (x->cur_writer != R.cur + 1) fail("bad-unlock", "T%d unlocks a rwlock T%d holds exclusively", R.cur, x->cur_writer - 1);
            x->writer = 0; x->cur_writer = 0;
            s.vc = cf().vc; memset(&s.rvc, 0, sizeof s.rvc);
        }
        else
        {
            if (x->readers == 0 || s.readers[R.cur] == 0) fail("bad-unlock", "T%d unlocks a rwlock it does not hold", R.cur);
            x->readers--; s.readers[R.cur]--;
            s.rvc.join(cf().vc);
        }
        cf().vc.c[R.cur]++;
        at_event(u64(m), 11);
        if (x->readers == 0 && x->writer == 0)
        {
            // readers and writers compete for the free lock; who runs first is the scheduler's choice
            const void* w = reinterpret_cast<char*>(m) + 1;
            if (R.rwpol == 0) { wake_waiters(m, true); wake_waiters(w, false); }
            else if (R.rwpol == 1) { if (writer_waiting(m)) { wake_waiters(w, false); } wake_waiters(m, true); }
            else { wake_waiters(w, true); wake_waiters(m, true); }
        }
        else if (x->readers) wake_waiters(m, true);
        sched_point(P_LIBC);
        return 0;
    }

    // ------------------------------------------------------------------ output
    const Out& out(int fd) { return R.outs[fd]; }
    std::string out_of(int fd, int fiber) { std::string s; auto& o = R.outs[fd]; for (size_t i = 0; i < o.bytes.size(); ++i) if (o.who[i] == fiber) s += o.bytes[i]; return s; }
    void out_clear() { for (auto& o : R.outs) o.bytes.clear(), o.who.clear(), o.at.clear(); R.hard_stuck = false; R.hard_all = 0; for (auto& f : R.f) f.hard = 0; }
    void set_write_hard(int m) { R.hard_mode = m; }
    u64 out_total() { return R.out_total; }
    u64 hard_errors() { return R.cur >= 0 ? cf().hard : 0; }
    u64 hard_errors_all() { return R.hard_all; }
    u64 open_fds() { return 0; }

    static i64 do_write(int fd, const void* buf, size_t n)
    {
        sched_point(P_LIBC); maybe_stall();
        if (fd < 0 || fd > 2) { errno = EBADF; return -1; }
        if (n == 0) return 0;
        if (tracked(u64(buf))) note_access(u64(buf), n, A_PR);
        static const int errs[] = { 0, EIO, ENOSPC, EPIPE, EAGAIN, EBADF };
        if (R.hard_stuck) { errno = EIO; cf().hard++; R.hard_all++; return -1; }
        if (u32 v = decide(K_HARDW, 6)) { cf().hard++; R.hard_all++; if (R.hard_mode) R.hard_stuck = true; sched_point(P_LIBC); errno = errs[v]; return -1; }
        if (decide(K_EINTRW, 2)) { sched_point(P_LIBC); errno = EINTR; return -1; }
        size_t k = n;
        if (n > 1) if (u32 v = decide(K_SHORTW, n > 1u << 30 ? 1u << 30 : u32(n))) k = v;
        auto& o = R.outs[fd];
        o.bytes.append(static_cast<const char*>(buf), k);
        o.who.insert(o.who.end(), k, u8(R.cur));
        o.at.insert(o.at.end(), k, R.npoints);
        R.out_total += k;
        hmix(0x77 + k); for (size_t i = 0; i < k && i < 64; ++i) hmix(u8(o.bytes[o.bytes.size() - k + i]));
        if (R.trace) note("write(%d, %zu) -> %zu", fd, n, k);
        sched_point(P_LIBC);
        return i64(k);
    }
    static i64 do_write_all(int fd, const char* b, size_t n) // stdio stand-in: short writes are continued, errors reported
    {
        size_t done = 0;
        while (done < n) { i64 k = do_write(fd, b + done, n - done); if (k < 0) return done ? i64(done) : -1; done += size_t(k); }
        return i64(n);
    }
    static ssize_t cookie_write(void*, const char* b, size_t n)
    {
        if (R.cur < 0) return i64(syscall(SYS_write, 2, b, n));
        i64 k = do_write_all(2, b, n);
        return k < 0 ? 0 : k;
    }

    // ------------------------------------------------------------------ sleeping
    // returns 0 or EINTR; *rem = remaining ns
    static const u64 handler_tab[] = { 300, 5000, 90000, 2000000 };
    static const u64 late_tab[] = { 0, 60, 50000, 4000000, 1000000000 };
    static int do_sleep(u64 ns, u64* rem)
    {
        sched_point(P_LIBC); maybe_step();
        u64 deadline = R.now + ns;
        if (u32 v = decide(K_EINTRS, 33))
        {
            --v; // 0..31: eight positions, four handler durations
            u64 part = (v & 7) == 7 ? ns - (ns > 0) : u64((__int128)ns * (v & 7) / 7);
            if (R.storm) part = part % (R.storm + 1); // signals that keep coming: the next is never far
            sleep_until(R.now + part);
            u64 left = deadline > R.now ? deadline - R.now : 0;
            u64 h = handler_tab[v >> 3];
            R.stalled += h;
            sleep_until(R.now + h); maybe_step();
            *rem = left;
            return EINTR;
        }
        u64 late = late_tab[decide(K_LATE, 5)];
        R.stalled += late;
        sleep_until(deadline + late);
        maybe_step();
        *rem = 0;
        return 0;
    }

    static u64 clock_ns(clockid_t id)
    {
        switch (id)
        {
        case CLOCK_REALTIME: case 11 /*TAI*/: return u64(wall_now());
        case CLOCK_REALTIME_COARSE: return u64(wall_now()) / 4000000 * 4000000;
        case CLOCK_MONOTONIC: case CLOCK_BOOTTIME: return u64(mono_now());
        case CLOCK_MONOTONIC_COARSE: return u64(mono_now()) / 4000000 * 4000000;
        case CLOCK_MONOTONIC_RAW: return R.now;
        case CLOCK_PROCESS_CPUTIME_ID: return R.npoints * 2;
        case CLOCK_THREAD_CPUTIME_ID: { u64 n = 0; for (u32 c : cf().cnt) n += c; return n * 2; }
        }
        return NOWAKE;
    }

    void set_storm(u64 ns) { R.storm = ns; }
    void set_trap_resume(bool r) { R.trap_resume = r; }
    void on_trap(void (*fn)()) { R.trap_fn = fn; }
    u64 traps() { return R.ntraps; }
}

using namespace sim;

// ====================================================================== libc stand-ins
#define HOST (R.cur < 0)
static inline bool rt_up();
static bool g_up = false; // set once, before the data image is taken
static inline bool rt_up() { return g_up; }
#define OUTSIDE (!rt_up() || HOST)

extern "C"
{
    ssize_t write(int fd, const void* b, size_t n) { if (OUTSIDE) return syscall(SYS_write, fd, b, n); return do_write(fd, b, n); }
    ssize_t writev(int fd, const struct iovec* v, int c)
    {
        if (OUTSIDE) return syscall(SYS_writev, fd, v, c);
        std::string s; for (int i = 0; i < c; ++i) s.append(static_cast<char*>(v[i].iov_base), v[i].iov_len);
        return do_write(fd, s.data(), s.size());
    }
    int dprintf(int fd, const char* fmt, ...)
    {
        char buf[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        if (n > int(sizeof buf) - 1) n = sizeof buf - 1;
        if (OUTSIDE) return int(syscall(SYS_write, fd, buf, n));
        return int(do_write_all(fd, buf, size_t(n)));
    }
    ssize_t send(int fd, const void* b, size_t n, int) { if (OUTSIDE) { errno = ENOTSOCK; return -1; } (void)fd; (void)b; (void)n; errno = ENOTSOCK; return -1; }

    int clock_gettime(clockid_t id, struct timespec* ts)
    {
        if (OUTSIDE) return int(syscall(SYS_clock_gettime, id, ts));
        sched_point(P_LIBC); maybe_stall(); maybe_step();
        u64 v = clock_ns(id);
        if (v == NOWAKE) { errno = EINVAL; return -1; }
        R.now += 23;
        ts->tv_sec = time_t(v / 1000000000); ts->tv_nsec = long(v % 1000000000);
        if (tracked(u64(ts))) note_access(u64(ts), sizeof *ts, A_PW);
        hmix(v);
        maybe_stall(); sched_point(P_LIBC);
        return 0;
    }
    int clock_getres(clockid_t id, struct timespec* ts) { if (OUTSIDE) return int(syscall(SYS_clock_getres, id, ts)); if (ts) { ts->tv_sec = 0; ts->tv_nsec = id == CLOCK_MONOTONIC_COARSE || id == CLOCK_REALTIME_COARSE ? 4000000 : 1; } return 0; }
    int gettimeofday(struct timeval* tv, void*) noexcept
    {
        struct timespec ts;
        if (OUTSIDE) { syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); } else clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
    }
    time_t time(time_t* t) noexcept { struct timespec ts; if (OUTSIDE) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
    clock_t clock(void) noexcept { return clock_t(OUTSIDE ? 0 : R.npoints / 500); }

    int nanosleep(const struct timespec* req, struct timespec* rem)
    {
        if (OUTSIDE) return int(syscall(SYS_nanosleep, req, rem));
        if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) { errno = EINVAL; return -1; }
        u64 left;
        u64 ns = u64(req->tv_sec) > 9200000000ull ? 9200000000000000000ull : u64(req->tv_sec) * 1000000000u + u64(req->tv_nsec);
        if (do_sleep(ns, &left)) { if (rem) { rem->tv_sec = time_t(left / 1000000000); rem->tv_nsec = long(left % 1000000000); } errno = EINTR; return -1; }
        return 0;
    }
    int clock_nanosleep(clockid_t id, int flags, const struct timespec* req, struct timespec* rem)
    {
        if (OUTSIDE) return int(-syscall(SYS_clock_nanosleep, id, flags, req, rem));
        if (req->tv_nsec < 0 || req->tv_nsec > 999999999 || req->tv_sec < 0) return EINVAL;
        u64 ns = u64(req->tv_sec) > 9200000000ull ? 9200000000000000000ull : u64(req->tv_sec) * 1000000000u + u64(req->tv_nsec);
        u64 left;
        if (flags & TIMER_ABSTIME)
        {
            if (id == CLOCK_REALTIME)
            {
                sched_point(P_LIBC); maybe_step();
                while (wall_now() < i64(ns))
                {
                    if (decide(K_EINTRS, 2)) return EINTR;
                    auto& f = cf(); f.wall = true; f.wall_deadline = i64(ns); f.wake = 1; f.state = F_SLEEP; R.runnable &= ~(1u << R.cur); wake_due();
                    if (f.state == F_SLEEP) schedule_next();
                    maybe_step();
                }
                return 0;
            }
            u64 cur = clock_ns(id);
            ns = ns > cur ? ns - cur : 0;
            return do_sleep(ns, &left);
        }
        int e = do_sleep(ns, &left);
        if (e && rem) { rem->tv_sec = time_t(left / 1000000000); rem->tv_nsec = long(left % 1000000000); }
        return e;
    }
    int usleep(useconds_t us) { u64 left; if (OUTSIDE) { struct timespec t{ us / 1000000, long(us % 1000000) * 1000 }; return int(syscall(SYS_nanosleep, &t, nullptr)); } if (do_sleep(u64(us) * 1000, &left)) { errno = EINTR; return -1; } return 0; }
    unsigned sleep(unsigned s) { u64 left; if (OUTSIDE) { struct timespec t{ time_t(s), 0 }; syscall(SYS_nanosleep, &t, nullptr); return 0; } if (do_sleep(u64(s) * 1000000000u, &left)) return unsigned((left + 999999999) / 1000000000); return 0; }
    int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { if (OUTSIDE) return int(syscall(SYS_ppoll, p, n, ts, nullptr, 8)); u64 left; if (n) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return int(n); } if (ts && do_sleep(u64(ts->tv_sec) * 1000000000u + u64(ts->tv_nsec), &left)) { errno = EINTR; return -1; } return 0; }
    int pselect(int n, fd_set* a, fd_set* b, fd_set* c, const struct timespec* ts, const sigset_t*) { if (OUTSIDE) return int(syscall(SYS_pselect6, n, a, b, c, ts, nullptr)); u64 left; if (ts && do_sleep(u64(ts->tv_sec) * 1000000000u + u64(ts->tv_nsec), &left)) { errno = EINTR; return -1; } return 0; }
    int poll(struct pollfd* p, nfds_t n, int ms) { if (OUTSIDE) return int(syscall(SYS_poll, p, n, ms)); u64 left; if (n) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return int(n); } if (do_sleep(u64(ms < 0 ? 0 : ms) * 1000000, &left)) { errno = EINTR; return -1; } return 0; }
    int select(int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* tv) { if (OUTSIDE) return int(syscall(SYS_select, n, a, b, c, tv)); u64 left; if (tv && do_sleep(u64(tv->tv_sec) * 1000000000u + u64(tv->tv_usec) * 1000, &left)) { errno = EINTR; return -1; } return 0; }
    int sched_yield(void) noexcept
    {
        if (OUTSIDE) return int(syscall(SYS_sched_yield));
        cf().consec = 1000; R.now += 500; sched_point(P_LIBC); return 0;
    }
    pthread_t pthread_self(void) noexcept { if (!rt_up() || HOST) { pthread_t t; __asm__("mov %%fs:0x10,%0" : "=r"(t)); return t; } return pthread_t(0x5100 + R.cur); }
    pid_t gettid(void) noexcept { if (OUTSIDE) return pid_t(syscall(SYS_gettid)); return 5100 + R.cur; }

    int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
    {
        int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind);
        if (!OUTSIDE) { sched_point(P_LIBC); u64 p = u64(m); if (p >= ARENA && p < ARENA + ARENA_SIZE && !is_live(m, sizeof *m)) fail("lock-storage", "mutex needs %zu bytes, more than its storage", sizeof *m); note_access(p, sizeof *m, A_PW); }
        memset(m, 0, sizeof *m); reinterpret_cast<MutexMem*>(m)->kind = kind; return 0;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (OUTSIDE) return 0; sched_point(P_LIBC); return reinterpret_cast<MutexMem*>(m)->lock ? EBUSY : 0; }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (OUTSIDE) { auto x = reinterpret_cast<MutexMem*>(m); x->lock = 1; x->owner = 0; return 0; } return mutex_lock(m, false, -1); }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (OUTSIDE) { auto x = reinterpret_cast<MutexMem*>(m); if (x->lock) return EBUSY; x->lock = 1; return 0; } return mutex_lock(m, true, -1); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { if (OUTSIDE) return 0; return mutex_lock(m, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec); }
    int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) noexcept { if (OUTSIDE) return 0; i64 d = i64(t->tv_sec) * 1000000000 + t->tv_nsec; if (c != CLOCK_REALTIME) d += R.wall_off; return mutex_lock(m, false, d); }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (OUTSIDE) { auto x = reinterpret_cast<MutexMem*>(m); x->lock = 0; x->owner = 0; x->count = 0; x->nusers = 0; return 0; } return mutex_unlock(m); }

    int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t*) noexcept
    {
        if (!OUTSIDE) { sched_point(P_LIBC); u64 p = u64(m); if (p >= ARENA && p < ARENA + ARENA_SIZE && !is_live(m, sizeof *m)) fail("lock-storage", "rwlock needs %zu bytes, more than its storage", sizeof *m); note_access(p, sizeof *m, A_PW); }
        memset(m, 0, sizeof *m); return 0;
    }
    int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { if (!OUTSIDE) sched_point(P_LIBC); return 0; }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (OUTSIDE) { return 0; } return rw_rdlock(m, false, -1); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (OUTSIDE) return 0; return rw_rdlock(m, true, -1); }
    int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { if (OUTSIDE) return 0; return rw_rdlock(m, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (OUTSIDE) return 0; return rw_wrlock(m, false, -1); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (OUTSIDE) return 0; return rw_wrlock(m, true, -1); }
    int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { if (OUTSIDE) return 0; return rw_wrlock(m, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (OUTSIDE) return 0; return rw_unlock(m); }

    int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) noexcept { if (OUTSIDE) return 0; return rw_rdlock(m, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec + (c != CLOCK_REALTIME ? R.wall_off : 0)); }
    int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) noexcept { if (OUTSIDE) return 0; return rw_wrlock(m, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec + (c != CLOCK_REALTIME ? R.wall_off : 0)); }

    // semaphores: the count sits in the first word, where glibc keeps it
    int sem_init(sem_t* s, int, unsigned v) noexcept { if (!OUTSIDE) { sched_point(P_LIBC); check_storage(s, sizeof *s, "semaphore"); } memset(s, 0, sizeof *s); *reinterpret_cast<unsigned*>(s) = v; return 0; }
    int sem_destroy(sem_t*) noexcept { return 0; }
    static int sem_take(sem_t* s, bool try_, i64 abs_wall)
    {
        sched_point(P_LIBC); maybe_stall();
        check_storage(s, sizeof *s, "semaphore");
        auto& v = *reinterpret_cast<unsigned*>(s);
        while (v == 0)
        {
            if (try_) { errno = EAGAIN; return -1; }
            if (decide(K_EINTRS, 2)) { errno = EINTR; return -1; }
            if (abs_wall >= 0) { if (wall_now() >= abs_wall) { errno = ETIMEDOUT; return -1; } cf().wall = true; cf().wall_deadline = abs_wall; cf().wake = 1; R.next_wake = R.now; wake_due(); }
            wait_on(s);
        }
        --v; cf().vc.join(sync_of(s).vc);
        return 0;
    }
    int sem_wait(sem_t* s) { if (OUTSIDE) return 0; return sem_take(s, false, -1); }
    int sem_trywait(sem_t* s) noexcept { if (OUTSIDE) return 0; return sem_take(s, true, -1); }
    int sem_timedwait(sem_t* s, const struct timespec* t) { if (OUTSIDE) return 0; return sem_take(s, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec); }
    int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { if (OUTSIDE) return 0; return sem_take(s, false, i64(t->tv_sec) * 1000000000 + t->tv_nsec + (c != CLOCK_REALTIME ? R.wall_off : 0)); }
    int sem_post(sem_t* s) noexcept
    {
        if (OUTSIDE) return 0;
        sched_point(P_LIBC);
        check_storage(s, sizeof *s, "semaphore");
        sync_of(s).vc.join(cf().vc); cf().vc.c[R.cur]++;
        ++*reinterpret_cast<unsigned*>(s);
        wake_waiters(s, false);
        return 0;
    }
    int sem_getvalue(sem_t* s, int* v) noexcept { if (!OUTSIDE) sched_point(P_LIBC); *v = *reinterpret_cast<int*>(s); return 0; }

    int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
    {
        clockid_t id = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &id);
        memset(c, 0, sizeof *c); reinterpret_cast<u8*>(c)[sizeof *c - 1] = u8(id); return 0;
    }
    int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (OUTSIDE) return 0;
        check_storage(c, sizeof *c, "condition variable");
        // enqueue before releasing so no signal is lost
        cf().wait_addr = c; cf().state = F_BLOCK; R.runnable &= ~(1u << R.cur);
        auto* x = reinterpret_cast<MutexMem*>(m);
        sync_of(m).vc = cf().vc; cf().vc.c[R.cur]++; x->lock = 0; x->owner = 0; x->count = 0; x->nusers = 0; wake_waiters(m, false);
        schedule_next();
        return mutex_lock(m, false, -1);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* t)
    {
        if (OUTSIDE) return 0;
        check_storage(c, sizeof *c, "condition variable");
        cf().wait_addr = c; cf().state = F_BLOCK; R.runnable &= ~(1u << R.cur); cf().timed_out = false;
        cf().wall = true; cf().wall_deadline = i64(t->tv_sec) * 1000000000 + t->tv_nsec + (id != CLOCK_REALTIME ? R.wall_off : 0); cf().wake = 1; wake_due();
        auto* x = reinterpret_cast<MutexMem*>(m);
        sync_of(m).vc = cf().vc; cf().vc.c[R.cur]++; x->lock = 0; x->owner = 0; x->count = 0; x->nusers = 0; wake_waiters(m, false);
        if (cf().state == F_BLOCK) schedule_next();
        bool to = cf().timed_out;
        mutex_lock(m, false, -1);
        return to ? ETIMEDOUT : 0;
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return pthread_cond_clockwait(c, m, clockid_t(reinterpret_cast<u8*>(c)[sizeof *c - 1]), t); }
    int pthread_cond_signal(pthread_cond_t* c) noexcept { if (OUTSIDE) return 0; sched_point(P_LIBC); wake_waiters(c, false); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (OUTSIDE) return 0; sched_point(P_LIBC); wake_waiters(c, true); return 0; }
    int pthread_once(pthread_once_t* o, void (*fn)(void))
    {
        if (OUTSIDE) { if (*o != 2) { fn(); *o = 2; } return 0; }
        for (;;)
        {
            sched_point(P_LIBC);
            if (*o == 2) { cf().vc.join(sync_of(o).vc); return 0; }
            if (*o == 0) break;
            wait_on(o);
        }
        *o = 1; fn(); *o = 2; sync_of(o).vc = cf().vc; cf().vc.c[R.cur]++; wake_waiters(o, true);
        return 0;
    }
    int pthread_spin_init(pthread_spinlock_t* s, int) noexcept { *const_cast<int*>(s) = 0; return 0; }
    int pthread_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
    int pthread_spin_trylock(pthread_spinlock_t* s) noexcept { if (OUTSIDE) return 0; sched_point(P_LIBC); note_access(u64(s), 4, A_AW); if (*s) return EBUSY; *s = R.cur + 1; cf().vc.join(sync_of(const_cast<int*>(s)).vc); return 0; }
    int pthread_spin_lock(pthread_spinlock_t* s) noexcept { while (pthread_spin_trylock(s)) { cf().consec = 1000; } return 0; }
    int pthread_spin_unlock(pthread_spinlock_t* s) noexcept { if (OUTSIDE) return 0; sched_point(P_LIBC); note_access(u64(s), 4, A_AW); sync_of(const_cast<int*>(s)).vc = cf().vc; cf().vc.c[R.cur]++; *s = 0; return 0; }

    long syscall(long n, ...)
    {
        va_list ap; va_start(ap, n); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap);
        if (!OUTSIDE)
        {
            if (n == SYS_futex)
            {
                int op = int(a[1]) & 127; int* u = reinterpret_cast<int*>(a[0]);
                sched_point(P_LIBC);
                if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
                {
                    if (*u != int(a[2])) { errno = EAGAIN; return -1; }
                    auto* ts = reinterpret_cast<struct timespec*>(a[3]);
                    if (ts && op == FUTEX_WAIT) { u64 t = R.now + u64(ts->tv_sec) * 1000000000u + u64(ts->tv_nsec); cf().wake = t; if (t < R.next_wake) R.next_wake = t; }
                    wait_on(u);
                    if (cf().timed_out) { errno = ETIMEDOUT; return -1; }
                    return 0;
                }
                if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = 0; for (int i = 0; i < int(a[2]) && i < MAXF; ++i) { bool any = false; for (int j = 0; j < R.nf; ++j) any |= R.f[j].state == F_BLOCK && R.f[j].wait_addr == u; if (!any) break; wake_waiters(u, false); ++k; } return k; }
                errno = ENOSYS; return -1;
            }
            if (n == SYS_write) return do_write(int(a[0]), reinterpret_cast<void*>(a[1]), size_t(a[2]));
            if (n == SYS_gettid) return 5100 + R.cur;
            if (n == SYS_clock_gettime) return clock_gettime(clockid_t(a[0]), reinterpret_cast<timespec*>(a[1]));
            if (n == SYS_nanosleep) return nanosleep(reinterpret_cast<timespec*>(a[0]), reinterpret_cast<timespec*>(a[1]));
            if (n == SYS_sched_yield) return sched_yield();
            errno = ENOSYS; return -1;
        }
        long r;
        register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (r < 0 && r > -4096) { errno = int(-r); return -1; }
        return r;
    }

    // function-local statics of the code under test
    int __cxa_guard_acquire(u64* g)
    {
        u8* b = reinterpret_cast<u8*>(g);
        if (OUTSIDE) { return *b == 0; }
        for (;;)
        {
            sched_point(P_LIBC);
            if (b[0] == 1) { cf().vc.join(sync_of(g).vc); return 0; }
            if (b[1] == 0) { b[1] = u8(R.cur + 1); return 1; }
            wait_on(g);
        }
    }
    void __cxa_guard_release(u64* g)
    {
        u8* b = reinterpret_cast<u8*>(g);
        if (OUTSIDE) { *b = 1; return; }
        sync_of(g).vc = cf().vc; b[1] = 0;
        u8 one = 1; at_store(u64(b), &one, 1, MO_RELEASE);
        wake_waiters(g, true);
    }
    void __cxa_guard_abort(u64* g) { reinterpret_cast<u8*>(g)[1] = 0; }

    size_t sim_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; if (rt_up() && !HOST && tracked(u64(s))) plain(u64(s), n + 1, false); return n; }
    bool sim_weak_ok() { if (!rt_up() || HOST) return true; bool f = cf().weak_failed; cf().weak_failed = false; return !f; }
    void sim_weak_hint() { if (rt_up() && !HOST) cf().weak_hint = true; }

    // ------------------------------------------------------------------ TSan ABI
    void __tsan_init() { }
    void __tsan_func_entry(void*) { }
    void __tsan_func_exit() { }
    void __tsan_ignore_thread_begin() { }
    void __tsan_ignore_thread_end() { }
#define RW(N) \
    void __tsan_read##N(void* a) { plain(u64(a), N, false); } \
    void __tsan_write##N(void* a) { plain(u64(a), N, true); } \
    void __tsan_unaligned_read##N(void* a) { plain(u64(a), N, false); } \
    void __tsan_unaligned_write##N(void* a) { plain(u64(a), N, true); } \
    void __tsan_volatile_read##N(void* a) { plain(u64(a), N, false); } \
    void __tsan_volatile_write##N(void* a) { plain(u64(a), N, true); } \
    void __tsan_unaligned_volatile_read##N(void* a) { plain(u64(a), N, false); } \
    void __tsan_unaligned_volatile_write##N(void* a) { plain(u64(a), N, true); } \
    void __tsan_read_write##N(void* a) { plain(u64(a), N, false); plain(u64(a), N, true); } \
    void __tsan_unaligned_read_write##N(void* a) { plain(u64(a), N, false); plain(u64(a), N, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, size_t n) { if (n) plain(u64(a), n, false); }
    void __tsan_write_range(void* a, size_t n) { if (n) plain(u64(a), n, true); }
    void __tsan_vptr_update(void** a, void*) { plain(u64(a), 8, true); }
    void __tsan_vptr_read(void** a) { plain(u64(a), 8, false); }
    void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { plain(u64(s), n, false); plain(u64(d), n, true); } return memmove(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { plain(u64(s), n, false); plain(u64(d), n, true); } return memmove(d, s, n); }
    void* __tsan_memset(void* d, int v, size_t n) { if (n) plain(u64(d), n, true); return memset(d, v, n); }
    void __tsan_atomic_thread_fence(int mo) { if (rt_up()) at_fence(mo); }
    void __tsan_atomic_signal_fence(int) { }
}
typedef unsigned __int128 u128;
static inline bool take_weak() { if (!rt_up() || HOST) return false; bool w = cf().weak_hint; cf().weak_hint = false; return w; }
#define ATOMICS(B, T) \
    extern "C" T __tsan_atomic##B##_load(const volatile T* a, int mo) { T v; at_load(u64(a), &v, sizeof v, mo); return v; } \
    extern "C" void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { at_store(u64(a), &v, sizeof v, mo); } \
    extern "C" T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { T o; at_rmw(u64(a), sizeof v, mo, mo, &o, [&](const u8*, u8* n) { memcpy(n, &v, sizeof v); return true; }); return o; } \
    extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { T o; at_cas(u64(a), &c, &v, sizeof v, mo, fmo, take_weak(), &o); return o; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { T o; bool k = at_cas(u64(a), c, &v, sizeof v, mo, fmo, false, &o); if (!k) *c = o; return k; } \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { T o; bool k = at_cas(u64(a), c, &v, sizeof v, mo, fmo, true, &o); if (!k) *c = o; return k; }
#define FETCH(B, T, NAME, EXPR) \
    extern "C" T __tsan_atomic##B##_fetch_##NAME(volatile T* a, T v, int mo) { T o; at_rmw(u64(a), sizeof v, mo, mo, &o, [&](const u8* p, u8* n) { T x; memcpy(&x, p, sizeof x); T y = T(EXPR); memcpy(n, &y, sizeof y); return true; }); return o; }
#define ALLAT(B, T) ATOMICS(B, T) FETCH(B, T, add, x + v) FETCH(B, T, sub, x - v) FETCH(B, T, and, x & v) FETCH(B, T, or, x | v) FETCH(B, T, xor, x ^ v) FETCH(B, T, nand, ~(x & v))
ALLAT(8, u8) ALLAT(16, u16) ALLAT(32, u32) ALLAT(64, u64) ALLAT(128, u128)

// size-generic libcalls (types without an inline atomic instruction)
extern "C"
{
    void sim__atomic_load(size_t n, const void* p, void* r, int mo) __asm__("__atomic_load");
    void sim__atomic_load(size_t n, const void* p, void* r, int mo) { u8 b[64]; at_load(u64(p), b, u32(n), mo); memcpy(r, b, n); }
    void sim__atomic_store(size_t n, void* p, const void* v, int mo) __asm__("__atomic_store");
    void sim__atomic_store(size_t n, void* p, const void* v, int mo) { at_store(u64(p), v, u32(n), mo); }
    void sim__atomic_exchange(size_t n, void* p, const void* v, void* r, int mo) __asm__("__atomic_exchange");
    void sim__atomic_exchange(size_t n, void* p, const void* v, void* r, int mo) { u8 o[64], w[64]; memcpy(w, v, n); at_rmw(u64(p), u32(n), mo, mo, o, [&](const u8*, u8* nv) { memcpy(nv, w, n); return true; }); memcpy(r, o, n); }
    bool sim__atomic_compare_exchange(size_t n, void* p, void* e, const void* d, int mo, int fmo) __asm__("__atomic_compare_exchange");
    bool sim__atomic_compare_exchange(size_t n, void* p, void* e, const void* d, int mo, int fmo) { u8 o[64]; bool k = at_cas(u64(p), e, d, u32(n), mo, fmo, take_weak(), o); if (!k) memcpy(e, o, n); return k; }
    u128 sim__atomic_load_16(const void* p, int mo) __asm__("__atomic_load_16");
    u128 sim__atomic_load_16(const void* p, int mo) { u128 v; at_load(u64(p), &v, 16, mo); return v; }
    void sim__atomic_store_16(void* p, u128 v, int mo) __asm__("__atomic_store_16");
    void sim__atomic_store_16(void* p, u128 v, int mo) { at_store(u64(p), &v, 16, mo); }
    u128 sim__atomic_exchange_16(void* p, u128 v, int mo) __asm__("__atomic_exchange_16");
    u128 sim__atomic_exchange_16(void* p, u128 v, int mo) { u128 o; at_rmw(u64(p), 16, mo, mo, &o, [&](const u8*, u8* nv) { memcpy(nv, &v, 16); return true; }); return o; }
    bool sim__atomic_compare_exchange_16(void* p, void* e, u128 d, int mo, int fmo) __asm__("__atomic_compare_exchange_16");
    bool sim__atomic_compare_exchange_16(void* p, void* e, u128 d, int mo, int fmo) { u128 o; bool k = at_cas(u64(p), e, &d, 16, mo, fmo, take_weak(), &o); if (!k) memcpy(e, &o, 16); return k; }
    bool sim__atomic_is_lock_free(size_t n, const void*) __asm__("__atomic_is_lock_free");
    bool sim__atomic_is_lock_free(size_t n, const void*) { return n <= 16; }
}

// ====================================================================== driver
namespace sim
{
    Prop::Prop(const char* id, void (*g)(Rng&, Scn&, u64), void (*r)(const Scn&), const char* w) : id(id), gen(g), run(r), what(w), next(nullptr)
    {
        static Prop** tail = nullptr; (void)tail;
        extern Prop* g_props; next = g_props; g_props = this;
    }
    Prop* g_props = nullptr;

    static void on_signal(int sig, siginfo_t* si, void*)
    {
        if (!g_up || !R.in_run || R.cur < 0)
        {
            if (g_up && R.in_run && (sig == SIGSEGV || sig == SIGABRT || sig == SIGFPE || sig == SIGBUS || sig == SIGILL || sig == SIGTRAP))
            {
                // the host part of a run (setup or final checks calling the code under test)
                R.failed = true; R.fail_cls = "crash"; R.fail_msg = std::string("signal ") + std::to_string(sig) + " in host-side call";
                longjmp(R.jb, 1);
            }
            signal(sig, SIG_DFL); raise(sig); return;
        }
        if (sig == SIGTRAP)
        {
            R.ntraps++;
            hmix(0x7a9);
            if (R.trace) note("breakpoint trap (%s)", R.trap_resume ? "debugger resumes" : "process dies");
            if (R.trap_fn) R.trap_fn();
            if (R.trap_resume) return;
            do_crash();
        }
        if (sig == SIGVTALRM) { R.hash = 0; fail("hang", "the code ran for seconds without finishing the run"); }
        u64 a = u64(si->si_addr);
        const char* extra = "";
        if (a >= STACKS && a < STACKS + MAXF * STACK_STRIDE) extra = " (stack overflow)";
        fail("crash", "signal %d at address %s%s", sig, a < 65536 ? "near null" : "outside live memory", extra);
    }

    static void map_fixed(u64 at, u64 size)
    {
        void* p = mmap(reinterpret_cast<void*>(at), size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void*>(at)) { ::dprintf(2, "sim: cannot map %llx\n", (unsigned long long)at); _exit(3); }
    }
    static int find_tls(dl_phdr_info* info, size_t, void*)
    {
        if (info->dlpi_name && info->dlpi_name[0]) return 0; // main program has an empty name
        for (int i = 0; i < info->dlpi_phnum; ++i)
            if (info->dlpi_phdr[i].p_type == PT_TLS)
            {
                size_t sz = info->dlpi_phdr[i].p_memsz, al = info->dlpi_phdr[i].p_align; if (!al) al = 1;
                char* fs; __asm__("mov %%fs:0,%0" : "=r"(fs));
                size_t off = (sz + al - 1) / al * al;
                R.tls_addr = fs - off; R.tls_size = off;
            }
        return 1;
    }
    static void init()
    {
        map_fixed(RT_ADDR, (sizeof(RT) + 65535) & ~65535ull);
        new (reinterpret_cast<void*>(RT_ADDR)) RT();
        map_fixed(ARENA, ARENA_SIZE);
        map_fixed(OKMAP, ARENA_SIZE);
        map_fixed(CELLS_A, ARENA_SIZE * sizeof(Cell));
        R.data_lo = u64(&__data_start); R.data_hi = u64(&_end);
        map_fixed(CELLS_S, ((R.data_hi - R.data_lo) * sizeof(Cell) + 65535) & ~65535ull);
        map_fixed(STACKS, MAXF * STACK_STRIDE);
        for (int i = 0; i < MAXF; ++i) mprotect(reinterpret_cast<void*>(STACKS + i * STACK_STRIDE), STACK_STRIDE - STACK_SIZE, PROT_NONE);
        dl_iterate_phdr(find_tls, nullptr);
        if (R.tls_size) R.tls_image.assign(R.tls_addr, R.tls_addr + R.tls_size);
        for (auto& f : R.f) { f.state = F_NONE; f.wake = NOWAKE; f.tls.assign(R.tls_size, 0); }
        R.altstack = static_cast<char*>(mmap(nullptr, 262144, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        stack_t ss{}; ss.ss_sp = R.altstack; ss.ss_size = 262144; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
        for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM }) sigaction(s, &sa, nullptr);
        signal(SIGPIPE, SIG_IGN);
        cookie_io_functions_t io{}; io.write = cookie_write;
        R.real_err = stderr;
        FILE* ck = fopencookie(nullptr, "w", io); setvbuf(ck, nullptr, _IONBF, 0);
        stderr = ck;
        g_up = true;
        R.image.assign(&__data_start, &_end);
    }

    static u64 hash_str(const char* s) { u64 h = 0xcbf29ce484222325ull; for (; *s; ++s) h = (h ^ u8(*s)) * 0x100000001b3ull; return h; }
    static u64 run_seed(const char* prop, u64 seed, u64 index, u64 salt)
    {
        Rng g(hash_str(prop) ^ seed * 0x9e3779b97f4a7c15ull ^ (index + 1) * 0xd1342543de82ef95ull ^ salt * 0xc2b2ae3d27d4eb4full);
        g.next(); return g.next();
    }

    static const u32 stale_tab[5] = { 0, 4096, 16384, 40000, 58000 };
    static const u32 weak_tab[5] = { 0, 0, 4096, 16384, 32768 };

    // returns true if the run passed
    static bool run_one(Prop& p, const Scn& s, u64 sched_seed, bool replay, const std::vector<Dec>& decs)
    {
        // restore the image of the code under test and all per-run state
        if (memcmp(&__data_start, R.image.data(), R.image.size()) != 0) memcpy(&__data_start, R.image.data(), R.image.size());
        if (R.tls_size) memcpy(R.tls_addr, R.tls_image.data(), R.tls_size);
        R.failed = R.crashed = false; R.fail_cls.clear(); R.fail_msg.clear();
        R.cur = -1; R.npoints = 0; R.cap = 400000; R.now = R.start_now = 1000000000; R.seqno = 0; R.stalled = 0; R.next_wake = NOWAKE;
        reset_fibers();
        for (auto& f : R.f) { memset(f.cnt, 0, sizeof f.cnt); f.hard = 0; f.consec = 0; }
        R.replay = replay; R.dmap.clear(); R.decs.clear();
        if (replay) for (auto& d : decs) R.dmap[dkey(d.kind, d.fiber, d.counter)] = d.value;
        R.rs = Rng(sched_seed); R.rf = Rng(sched_seed ^ 0x5bd1e995);
        memset(R.rate, 0, sizeof R.rate); memset(R.enabled, 0, sizeof R.enabled); memset(R.fired, 0, sizeof R.fired);
        for (int k : { K_PREEMPT, K_NEXT, K_STALE, K_WEAKCAS, K_WAKE, K_RWPOLICY }) R.enabled[k] = true;
        R.pct.clear(); R.pct_low = 0;
        {
            Rng g(sched_seed ^ 0xabcdef);
            u64 pick = g.below(20);
            R.policy = pick < 10 ? 0 : pick < 16 ? 1 : pick < 19 ? 2 : 3;
            R.pre_prob = u32(65536u >> (1 + g.below(9)));
            R.sync_prob = u32(65536u >> (1 + g.below(4)));
            u64 d = 1 + g.below(5), len = u64(8) << g.below(12);
            for (u64 i = 0; i < d; ++i) R.pct.push_back(1 + g.below(len));
            R.rate[K_STALE] = stale_tab[g.below(5)];
            R.rate[K_WEAKCAS] = weak_tab[g.below(5)];
            R.rate[K_WAKE] = 32768;
            R.rwpol = 0;
        }
        R.hash = 0x12345; R.switches = 0; R.races = true; R.plain_pts = true;
        memset(okmap(), 0, R.arena_top + 64); R.arena_top = 64; R.objs.clear(); R.dirt = 2;
        for (auto& o : R.outs) o.bytes.clear(), o.who.clear(), o.at.clear();
        R.hard_mode = 0; R.hard_stuck = false; R.hard_all = 0; R.out_total = 0; R.trap_resume = false; R.storm = 0; R.ntraps = 0; R.trap_fn = nullptr;
        R.mono_off = 0; R.mono_at = R.now; R.slew = 0; R.wall_off = 1700000000000000000ll;
        R.tracelog.clear();
        struct itimerval tv{ { 0, 0 }, { 6, 0 } }; // generous CPU-time backstop for loops without scheduling points
        static u64 armed = 0; (void)armed;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        R.in_run = true;
        if (setjmp(R.jb) == 0) p.run(s);
        R.in_run = false; R.cur = -1;
        if (memcmp(&__data_start, R.image.data(), R.image.size()) != 0) memcpy(&__data_start, R.image.data(), R.image.size());
        hmix(R.npoints);
        if (R.failed && R.fail_cls == "hang") R.hash = 0; // cut off by CPU time: the place is not repeatable, the verdict is
        R.agg_points += R.npoints; R.agg_simtime += R.now - R.start_now; R.agg_switches += R.switches;
        return !R.failed;
    }

    static void dump_scn(std::string& o, const char* prop, const Scn& s)
    {
        o += "prop "; o += prop; o += "\n";
        for (auto& kv : s.p) o += "p " + kv.first + " " + std::to_string(kv.second) + "\n";
        for (size_t i = 0; i < s.fib.size(); ++i)
        {
            o += "fiber " + std::to_string(i) + "\n";
            for (auto& op : s.fib[i]) { o += "op " + std::to_string(op.code); for (i64 a : op.a) o += " " + std::to_string(a); o += "\n"; }
        }
    }
    static void dump_decs(std::string& o) { for (auto& d : R.decs) o += std::string("dec ") + kind_name[d.kind] + " " + std::to_string(d.fiber) + " " + std::to_string(d.counter) + " " + std::to_string(d.value) + "\n"; }
    static void put(const std::string& s) { size_t d = 0; while (d < s.size()) { long k = ::syscall(SYS_write, 1, s.data() + d, s.size() - d); if (k <= 0) _exit(3); d += size_t(k); } }
    static Prop* find(const char* id) { for (Prop* p = g_props; p; p = p->next) if (!strcmp(p->id, id)) return p; return nullptr; }
    static double wall() { struct timespec t; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return double(t.tv_sec) + t.tv_nsec * 1e-9; }
    static std::string result_line(bool ok)
    {
        char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)R.hash);
        return ok ? std::string("RESULT ok ") + h + " points=" + std::to_string(R.npoints) + "\n" : std::string("RESULT violation ") + h + " " + R.fail_cls + " | " + R.fail_msg + "\n";
    }

    static int cmd_batch(int argc, char** argv) // batch PROP SEED FROM STEP TO DEADLINE_S HASHFILE
    {
        if (argc < 9) return 2;
        Prop* p = find(argv[2]); if (!p) { put("ERROR no such property\n"); return 2; }
        u64 seed = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10), step = strtoull(argv[5], nullptr, 10), to = strtoull(argv[6], nullptr, 10);
        double deadline = wall() + atof(argv[7]);
        u64 runs = 0, nontrivial = 0, idx = from; int rc = 0;
        u64 det = 0;
        for (; idx < to; idx += step)
        {
            if ((runs & 15) == 0 && wall() > deadline) break;
            Rng g(run_seed(p->id, seed, idx, 1)); Scn s; p->gen(g, s, idx);
            u64 ss = run_seed(p->id, seed, idx, 2);
            bool ok = run_one(*p, s, ss, false, {});
            ++runs; if (R.switches > 2 || R.decs.size()) ++nontrivial;
            R.hashes.push_back(R.hash);
            if (!ok)
            {
                put("VIOL " + std::to_string(idx) + " " + result_line(false));
                rc = 1; break;
            }
            if ((idx / step) % 61 == 0) // determinism self-test inside the batch: the same run twice
            {
                u64 h = R.hash; auto probes = R.probes; u64 af[K_COUNT]; memcpy(af, R.agg_fired, sizeof af); auto ap = R.agg_points; auto at = R.agg_simtime; auto aw = R.agg_switches;
                Rng g2(run_seed(p->id, seed, idx, 1)); Scn s2; p->gen(g2, s2, idx);
                bool ok2 = run_one(*p, s2, ss, false, {});
                if (ok2 != ok || R.hash != h) { put("NONDET " + std::to_string(idx) + "\n"); rc = 3; break; }
                auto decs = R.decs;
                run_one(*p, s2, ss, true, decs); // and replayed from its recorded decisions
                if (R.failed || R.hash != h) { put("NONDET-REPLAY " + std::to_string(idx) + "\n"); rc = 3; break; }
                R.probes = probes; memcpy(R.agg_fired, af, sizeof af); R.agg_points = ap; R.agg_simtime = at; R.agg_switches = aw;
                ++det;
            }
        }
        std::string o = "STAT runs=" + std::to_string(runs) + " nontrivial=" + std::to_string(nontrivial) + " points=" + std::to_string(R.agg_points) + " simns=" + std::to_string(R.agg_simtime) + " switches=" + std::to_string(R.agg_switches) + " det=" + std::to_string(det) + "\n";
        for (int k = 0; k < K_COUNT; ++k) if (R.agg_fired[k]) o += std::string("FAULT ") + kind_name[k] + " " + std::to_string(R.agg_fired[k]) + "\n";
        for (auto& kv : R.probes) o += "PROBE " + kv.first + " " + std::to_string(kv.second) + "\n";
        put(o);
        int fd = ::open(argv[8], O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { const char* b = reinterpret_cast<const char*>(R.hashes.data()); size_t n = R.hashes.size() * 8, d = 0; while (d < n) { long k = ::syscall(SYS_write, fd, b + d, n - d); if (k <= 0) break; d += size_t(k); } ::close(fd); }
        put("END\n");
        return rc;
    }
    static int cmd_one(int argc, char** argv) // one PROP SEED INDEX [trace]
    {
        if (argc < 5) return 2;
        Prop* p = find(argv[2]); if (!p) return 2;
        u64 seed = strtoull(argv[3], nullptr, 10), idx = strtoull(argv[4], nullptr, 10);
        R.trace = argc > 5;
        Rng g(run_seed(p->id, seed, idx, 1)); Scn s; p->gen(g, s, idx);
        bool ok = run_one(*p, s, run_seed(p->id, seed, idx, 2), false, {});
        std::string o; dump_scn(o, p->id, s); dump_decs(o); o += result_line(ok);
        for (auto& t : R.tracelog) o += "TRACE " + t + "\n";
        put(o);
        return ok ? 0 : 1;
    }
    static bool load(FILE* f, std::string& prop, Scn& s, std::vector<Dec>& decs)
    {
        char line[4096]; bool any = false;
        while (fgets(line, sizeof line, f))
        {
            char a[256]; long long v[5]; int fb; unsigned c, val;
            if (!strncmp(line, "---", 3)) { any = true; break; }
            if (sscanf(line, "prop %255s", a) == 1) prop = a, any = true;
            else if (sscanf(line, "p %255s %lld", a, &v[0]) == 2) s.p[a] = v[0];
            else if (!strncmp(line, "fiber", 5)) s.fib.emplace_back();
            else if (sscanf(line, "op %lld %lld %lld %lld %lld", &v[0], &v[1], &v[2], &v[3], &v[4]) == 5) { if (s.fib.empty()) s.fib.emplace_back(); s.fib.back().push_back({ v[0], { v[1], v[2], v[3], v[4] } }); }
            else if (sscanf(line, "dec %255s %d %u %u", a, &fb, &c, &val) == 4) { for (int k = 0; k < K_COUNT; ++k) if (!strcmp(a, kind_name[k])) decs.push_back({ k, fb, c, val }); }
        }
        return any && !prop.empty();
    }
    static int cmd_replay(int argc, char** argv) // replay FILE [trace]
    {
        if (argc < 3) return 2;
        FILE* f = fopen(argv[2], "r"); if (!f) return 2;
        std::string prop; Scn s; std::vector<Dec> decs; bool okl = load(f, prop, s, decs); fclose(f);
        Prop* p = okl ? find(prop.c_str()) : nullptr; if (!p) { put("ERROR bad replay file\n"); return 2; }
        R.trace = argc > 3;
        bool ok = run_one(*p, s, 1, true, decs);
        std::string o = result_line(ok);
        for (auto& t : R.tracelog) o += "TRACE " + t + "\n";
        put(o);
        return ok ? 0 : 1;
    }
    // minimisation server: reads scenarios from a file of records separated by "---"; each record may carry
    // "reseed N M": try schedules N..M-1 at random instead of the recorded decisions.  Prints one line per record;
    // a violation found by reseeding is followed by its decisions and "END".
    static int cmd_many(int argc, char** argv)
    {
        if (argc < 3) return 2;
        FILE* f = fopen(argv[2], "r"); if (!f) return 2;
        const char* want = argc > 3 ? argv[3] : nullptr; // stop at the first record violating with this class
        for (int rec = 0;; ++rec)
        {
            std::string prop; Scn s; std::vector<Dec> decs; u64 lo = 0, hi = 0;
            // peek for reseed line handled through params
            if (!load(f, prop, s, decs)) break;
            auto it = s.p.find("~reseed_lo"); if (it != s.p.end()) lo = u64(it->second), s.p.erase(it);
            it = s.p.find("~reseed_hi"); if (it != s.p.end()) hi = u64(it->second), s.p.erase(it);
            Prop* p = find(prop.c_str()); if (!p) return 2;
            bool ok = true;
            if (hi > lo) { for (u64 k = lo; k < hi && ok; ++k) { ok = run_one(*p, s, run_seed(p->id, k, 77, 3), false, {}); if (!ok && want && R.fail_cls != want) ok = true; } }
            else ok = run_one(*p, s, 1, true, decs);
            std::string o = "REC " + std::to_string(rec) + " " + result_line(ok);
            if (!ok) { dump_decs(o); }
            o += "END\n";
            put(o);
            if (!ok && want && R.fail_cls == want) break;
        }
        fclose(f);
        return 0;
    }
}

int main(int argc, char** argv)
{
    init();
    if (argc < 2) { put("usage: batch|one|replay|many|list\n"); return 2; }
    if (!strcmp(argv[1], "batch")) return cmd_batch(argc, argv);
    if (!strcmp(argv[1], "one")) return cmd_one(argc, argv);
    if (!strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
    if (!strcmp(argv[1], "many")) return cmd_many(argc, argv);
    if (!strcmp(argv[1], "list")) { for (Prop* p = g_props; p; p = p->next) put(std::string(p->id) + "\t" + p->what + "\n"); return 0; }
    return 2;
}
