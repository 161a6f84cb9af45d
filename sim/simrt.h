// Deterministic simulation runtime: public interface for harnesses.
//
// One OS thread; every simulated thread is a fiber; a seeded scheduler decides at every tracked memory access, atomic
// operation and intercepted libc call of the code under test which fiber runs next, which store a load reads, and which
// faults fire.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
    using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;
    constexpr int MAXF = 8;

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed = 1) : s(seed) { }
        u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
        u64 below(u64 n) { return n ? next() % n : 0; }
        i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo) + 1)); }
        bool chance(u64 num, u64 den) { return below(den) < num; }
        // log-uniform in [1, hi]
        u64 logu(int bits) { u64 b = below(u64(bits) + 1); return b == 0 ? 1 : (u64(1) << (b - 1)) + below(u64(1) << (b - 1)); }
    };

    struct Op { i64 code; i64 a[4]; };

    // a scenario: named parameters and one operation list per simulated client; every consumer sanitises, so any
    // shrunk scenario is valid
    struct Scn
    {
        std::map<std::string, i64> p;
        std::vector<std::vector<Op>> fib;
        i64 get(const char* name, i64 lo, i64 hi) const
        {
            auto it = p.find(name);
            i64 v = it == p.end() ? lo : it->second;
            return v >= lo && v <= hi ? v : lo + i64((u64(v) - u64(lo)) % (u64(hi) - u64(lo) + 1));
        }
        void set(const char* name, i64 v) { p[name] = v; }
        int fibers() const { return int(fib.size()); }
    };
    inline i64 clampmod(i64 v, i64 lo, i64 hi) { return v >= lo && v <= hi ? v : lo + i64((u64(v) - u64(lo)) % (u64(hi) - u64(lo) + 1)); }

    enum Kind : int
    {
        K_PREEMPT,      // scheduling: preempt at a point
        K_NEXT,         // scheduling: who runs when the running fiber stops
        K_STALE,        // memory model: a load reads an older store it may legally read
        K_WEAKCAS,      // weak compare-exchange fails spuriously
        K_WAKE,         // which waiter an unlock wakes
        K_RWPOLICY,     // lock policy choice
        K_SHORTW,       // short write
        K_EINTRW,       // write interrupted
        K_HARDW,        // write fails hard
        K_EINTRS,       // sleep interrupted by a signal
        K_LATE,         // timer latency
        K_STALL,        // thread descheduled for a long simulated time
        K_CLKSTEP,      // wall clock stepped
        K_EAGAIN,       // rdlock reader limit / EAGAIN
        K_OSFAIL,       // other system call fails
        K_FAULT,        // harness-defined faults (disk, network)
        K_COUNT
    };
    extern const char* const kind_name[K_COUNT];

    struct Prop
    {
        const char* id;
        void (*gen)(Rng&, Scn&, u64 index);
        void (*run)(const Scn&);
        const char* what;   // one line for evidence
        Prop* next;
        Prop(const char* id, void (*g)(Rng&, Scn&, u64), void (*r)(const Scn&), const char* what);
    };
#define SIM_PROP(ID, WHAT) \
    static void gen_##ID(sim::Rng&, sim::Scn&, sim::u64); static void run_##ID(const sim::Scn&); \
    static sim::Prop prop_##ID(#ID, gen_##ID, run_##ID, WHAT);

    // ---- control (host or fiber)
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(COND, CLS, ...) do { if (!(COND)) ::sim::fail(CLS, __VA_ARGS__); } while (0)
    void probe(const char* name, u64 n = 1);        // reach counters for evidence
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // trace line, only kept when replaying with --trace
    bool tracing();

    int spawn(std::function<void()> fn);            // from host or from a fiber
    enum Status { DONE, CRASHED };
    Status run_all();                               // host: run every fiber to completion (fails on deadlock or no progress)
    void reset_fibers();                            // host: forget finished/crashed fibers (new epoch, everything ordered)
    int self();                                     // current fiber or -1
    int alive();                                    // fibers not finished
    void point();                                   // explicit scheduling point (counts as synchronisation class)
    void wait_until(std::function<bool()> pred);    // block this fiber until pred (must become true through other fibers/time)
    void sleep_sim(u64 ns);                         // harness sleep in simulated time
    [[noreturn]] void crash_now();                  // fiber: the simulated process dies here
    void arm_crash(u64 points);                     // the process dies at that many further scheduling points (0: never)
    bool crashed();
    u64 seq();                                      // global event sequence number (unique, increasing)
    u64 points();                                   // scheduling points so far
    u64 now();                                      // simulated hardware time, ns
    void set_now(u64 ns);                           // host, at setup
    u64 stalled_ns();                               // total simulated time injected by stalls and latency so far
    void advance(u64 ns);                           // let simulated time pass (wakes sleepers)
    void step_cap(u64 points);                      // fail("no-progress") beyond this many points
    void track_races(bool on);
    void set_storm(u64 ns);                         // interruptions of sleeps are at most this far apart (0 = anywhere)
    void rate(Kind k, u32 per65536);                // enable a fault kind for this run (0 = off)
    u32 decide(Kind k, u32 n);                      // harness-defined fault decision: 0 = no fault, else 1..n-1
    void fault_fired(Kind k, u64 n = 1);
    u64 fired(Kind k);                              // how often kind k fired in this run
    void set_slew_ppm(int ppm);
    void step_wall(i64 ns);
    void set_trap_resume(bool resume);              // what a breakpoint trap does: resume or kill the process
    void on_trap(void (*fn)());                     // called at each breakpoint trap
    u64 traps();                                    // breakpoint traps so far in this run
    void set_ceiling(int rw_policy);                // rwlock policy 0 reader-pref 1 writer-pref 2 barging
    void mix(u64 v);                                // fold a value into the run hash
    u64 run_hash();
    void plain_points(bool on);                     // whether plain accesses are scheduling points (default on)

    // ---- memory under test
    void* alloc(size_t size, size_t align = 16, int dirt = -1); // dirty, registered, red-zoned; dirt -1: per-run pattern
    void release(void* p);
    void set_dirt(u64 seed);
    bool is_live(const void* p, size_t n);
    template<class T> T* raw() { return static_cast<T*>(alloc(sizeof(T), alignof(T) < 16 ? 16 : alignof(T))); }
    template<class T> T* make() { auto p = raw<T>(); return new (p) T; }      // runs T's constructor in the caller's context
    void acc_read(const void* p, size_t n);         // tracked plain accesses by harness payload code
    void acc_write(void* p, size_t n);
    template<class T> T rd(const T* p) { acc_read(p, sizeof(T)); T v; memcpy(&v, p, sizeof(T)); return v; }
    template<class T> void wr(T* p, T v) { acc_write(p, sizeof(T)); memcpy(p, &v, sizeof(T)); }
    // happens-before edge helpers for harness-level messages
    struct Token { u32 c[MAXF]; };
    Token publish();
    void observe(const Token&);

    // ---- simulated stderr/stdout
    struct Out { std::string bytes; std::vector<u8> who; std::vector<u64> at; };
    const Out& out(int fd);
    std::string out_of(int fd, int fiber);
    void out_clear();
    void set_write_hard(int mode);                  // 0 transient hard errors, 1 sticky: once failed every later write fails
    u64 out_total();                                // bytes accepted so far
    u64 hard_errors();                              // hard write errors injected so far on the current fiber
    u64 hard_errors_all();

    // ---- OS resources
    u64 open_fds();
}
