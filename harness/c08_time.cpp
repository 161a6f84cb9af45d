// C08 monotonic timestamps; C09 sleeping.
#include "common.h"
#include "ce/ce.h"
using namespace h;

namespace
{
#ifdef _WIN32
    constexpr u64 GRAIN = 1000000;  // the operating system sleeps whole milliseconds
#else
    constexpr u64 GRAIN = 0;
#endif
    struct Reading { int f; u64 inv, ret, t0, t1, v; };
    void maybe_disturb(const Op& o)
    {
        static const i64 steps[] = { 1, -1, 1000000000, -1000000000, 3600000000000ll, -3600000000000ll, 86400000000000ll * 400, -86400000000000ll * 400 };
        if (o.a[3] & 8) { step_wall(steps[o.a[3] & 7]); fault_fired(K_CLKSTEP); }
    }
}

SIM_PROP(C08, "threads take monotonic timestamps under wall-clock steps, slewing, stalls and long uptimes")
void gen_C08(Rng& g, Scn& s, u64)
{
    s.set("stall", g.chance(1, 2) ? i64(g.below(6000)) : 0);
    s.set("step", g.chance(1, 2) ? i64(g.below(8000)) : 0);
    s.set("slew", g.chance(1, 2) ? g.range(-500, 500) : 0);
    i64 k = i64(g.below(6));
    s.set("uptime", k == 0 ? 0 : k == 1 ? i64(g.below(10000000000ull)) : k == 2 ? i64(4294967296ull - 50 + g.below(100)) : k == 3 ? i64(2147483648ull * 1000000000 - 3000000000ull + g.below(6000000000ull)) : k == 4 ? i64(4294967296ull * 1000000000 - 3000000000ull + g.below(6000000000ull)) : i64(g.below(u64(1) << 62)));
    if (g.chance(1, 3)) { u64 e = g.chance(1, 2) ? 1000000000 : 1000000; u64 u = u64(s.get("uptime", 0, i64(1) << 62)); u = u / e * e + e - g.logu(14) % 20000; s.set("uptime", i64(u % (u64(1) << 62))); } // just before a boundary
    fill_ops(g, s, int(g.range(1, 4)), 1, 10, [&](int, int) { Op o{}; o.code = i64(g.below(4)); o.a[0] = i64(g.below(8)); o.a[1] = i64(g.logu(g.chance(1, 2) ? 14 : 40)); o.a[3] = i64(g.below(32)); return o; });
}
void run_C08(const Scn& s)
{
    step_cap(200000);
    rate(K_STALL, u32(s.get("stall", 0, 8000)));
    rate(K_CLKSTEP, u32(s.get("step", 0, 20000)));
    set_now(1000000000 + u64(s.get("uptime", 0, (i64(1) << 62))));
    set_slew_ppm(int(s.get("slew", -500, 500)));
    std::vector<Reading> log;
    u64 freq = 0;
    spawn([&] { freq = ce::os::monotonic_frequency(); });
    run_all(); reset_fibers();
    SIM_CHECK(freq > 0, "frequency", "the reported monotonic frequency is zero");
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 16) break;
                if (o.code == 1) sleep_sim(u64(o.a[1]) % 5000000000000ull);
                if (o.code == 2) { point(); point(); }
                maybe_disturb(o);
                Reading r{ self(), seq(), 0, now(), 0, 0 };
                r.v = ce::os::monotonic_timestamp();
                r.t1 = now(); r.ret = seq();
                mix(r.v);
                log.push_back(r);
                u64 fq = ce::os::monotonic_frequency();
                SIM_CHECK(fq == freq, "frequency", "the reported frequency changed from %llu to %llu", (unsigned long long)freq, (unsigned long long)fq);
            }
        });
    run_all();
    for (auto& a : log) for (auto& b : log)
    {
        if (a.ret >= b.inv) continue;
        SIM_CHECK(b.v >= a.v, "went-back", "T%d read %llu, then later T%d read %llu", a.f, (unsigned long long)a.v, b.f, (unsigned long long)b.v);
        u64 d = b.v - a.v;
        u64 lo = u64(u128(b.t0 - a.t1) * freq / 1000000000), hi = u64(u128(b.t1 - a.t0) * freq / 1000000000) + 1;
        SIM_CHECK(d + 1 >= lo && d <= hi, "wrong-rate", "two readings %llu..%llu ns of hardware time apart differ by %llu counts at %llu Hz", (unsigned long long)(b.t0 - a.t1), (unsigned long long)(b.t1 - a.t0), (unsigned long long)d, (unsigned long long)freq);
        if (a.f != b.f) probe("cross_thread_pairs"); else probe("same_thread_pairs");
    }
}

SIM_PROP(C09, "threads sleep under signals, timer latency, stalls and wall-clock steps")
void gen_C09(Rng& g, Scn& s, u64)
{
    bool storm = g.chance(1, 500);
    s.set("eintr", storm ? i64(65500 + g.below(33)) : g.chance(2, 3) ? i64(g.below(60000)) : 0);
    s.set("storm", storm ? i64(g.range(1000, 40000)) : 0);
    s.set("late", g.chance(1, 2) ? i64(g.below(30000)) : 0);
    s.set("step", !storm && g.chance(1, 2) ? i64(g.below(20000)) : 0);
    s.set("stall", g.chance(1, 4) ? i64(g.below(4000)) : 0);
    s.set("uptime", i64(g.below(u64(1) << g.below(58))));
    static const u64 edges[] = { 0, 1, 2, 999, 1000, 999999, 1000000, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 4294967295ull, 4294967296ull, 4294967297ull, 5000000000ull, 60000000000ull, 2147483647999999999ull / 4, 86400000000000ull, 31557600000000000ull, 4294967296000000ull, 4294967295999999999ull / 8, 999999999999999999ull, 2147483647999999999ull, 2147483648000000000ull, 2147483649000000001ull, 3000000000000000007ull, 4294967295999999999ull, 4294967296000000001ull, 4500000000000000000ull };
    fill_ops(g, s, storm ? 1 : int(g.range(1, 4)), 1, storm ? 2 : 5, [&](int, int) { Op o{}; o.a[0] = i64(storm || g.chance(1, 2) ? edges[g.below(sizeof edges / sizeof *edges)] : g.logu(62)); o.a[3] = i64(g.below(64)); return o; });
}
void run_C09(const Scn& s)
{
    u64 storm = u64(s.get("storm", 0, 1000000));
    set_storm(storm); step_cap(storm ? 20000000 : 300000);
    rate(K_EINTRS, u32(s.get("eintr", 0, storm ? 65532 : 62000)));
    rate(K_LATE, u32(s.get("late", 0, 62000)));
    rate(K_CLKSTEP, u32(s.get("step", 0, 62000)));
    rate(K_STALL, u32(s.get("stall", 0, 8000)));
    set_now(1000000000 + u64(s.get("uptime", 0, i64(1) << 58)));
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 6) break;
                u64 ns = u64(clampmod(o.a[0], 0, 4500000000000000000ll));
                if (now() > (u64(1) << 61)) ns %= 1000000000000ull;
                maybe_disturb(o);
                u64 t0 = now(), st0 = stalled_ns(), p0 = points(), e0 = fired(K_EINTRS);
                ce::os::sleep_ns(ns);
                u64 el = now() - t0, slack = stalled_ns() - st0 + (points() - p0) * 60 + 2000 + GRAIN;
                u64 intr = fired(K_EINTRS) - e0;
                if (intr) probe("interrupted_sleeps"); if (intr > 1) probe("multiply_interrupted_sleeps"); if (intr > 1000) probe("sleeps_interrupted_over_1000_times");
                mix(el);
                SIM_CHECK(el >= ns, "early", "a sleep of %llu ns returned after %llu ns (%llu signal(s) interrupted it)", (unsigned long long)ns, (unsigned long long)el, (unsigned long long)intr);
                SIM_CHECK(el - ns <= slack, "late", "a sleep of %llu ns took %llu ns; interruptions and timer latency explain only %llu ns more", (unsigned long long)ns, (unsigned long long)el, (unsigned long long)slack);
            }
        });
    run_all();
}
