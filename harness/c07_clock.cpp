// C07 rational-rate clocks never drift.  Built twice: with the real POSIX time source, and (CLOCK_STUB) with a simulated
// hardware counter of arbitrary frequency and starting value in place of the OS layer.
#include "common.h"
#include "ce/clock.h"
using namespace h;

#ifdef CLOCK_STUB
static u64* g_counter;  // [0] counter value, [1] frequency; points into the arena, set at the start of every run
namespace ce { namespace os {
    uint64_t monotonic_timestamp() { point(); return g_counter[0]; }
    uint64_t monotonic_frequency() { return g_counter[1]; }
} }
static constexpr bool STUB = true;
#else
static constexpr bool STUB = false;
#endif

namespace
{
    template<class F> void by_rate(i64 r, F f)
    {
        using ce::clock;
        switch (r)
        {
        case 0: f((clock<60>*)nullptr, 60ull, 1ull); break;
        case 1: f((clock<1>*)nullptr, 1ull, 1ull); break;
        case 2: f((clock<1000>*)nullptr, 1000ull, 1ull); break;
        case 3: f((clock<1000000>*)nullptr, 1000000ull, 1ull); break;
        case 4: f((clock<1000000000>*)nullptr, 1000000000ull, 1ull); break;
        case 5: f((clock<30000, 1001>*)nullptr, 30000ull, 1001ull); break;
        case 6: f((clock<24000, 1001>*)nullptr, 24000ull, 1001ull); break;
        case 7: f((clock<48000>*)nullptr, 48000ull, 1ull); break;
        case 8: f((clock<44100>*)nullptr, 44100ull, 1ull); break;
        case 9: f((clock<10000000>*)nullptr, 10000000ull, 1ull); break;
        case 10: f((clock<1, 3>*)nullptr, 1ull, 3ull); break;
        case 11: f((clock<1, 60>*)nullptr, 1ull, 60ull); break;
        case 12: f((clock<7, 11>*)nullptr, 7ull, 11ull); break;
        case 13: f((clock<1000000007>*)nullptr, 1000000007ull, 1ull); break;
        case 14: f((clock<4294967291, 3>*)nullptr, 4294967291ull, 3ull); break;
        case 15: f((clock<18000000000>*)nullptr, 18000000000ull, 1ull); break;
        case 16: f((clock<25, 2>*)nullptr, 25ull, 2ull); break;
        case 17: f((clock<60000, 1001>*)nullptr, 60000ull, 1001ull); break;
        case 18: f((clock<1, 86400>*)nullptr, 1ull, 86400ull); break;
        case 19: f((clock<3, 7>*)nullptr, 3ull, 7ull); break;
        case 20: f((clock<65537, 65536>*)nullptr, 65537ull, 65536ull); break;
        case 21: f((clock<999983, 1009>*)nullptr, 999983ull, 1009ull); break;
        case 22: f((clock<1, 4294967311>*)nullptr, 1ull, 4294967311ull); break;
        case 23: f((clock<600000, 10000>*)nullptr, 600000ull, 10000ull); break;
        default: f((clock<2147483648, 3>*)nullptr, 2147483648ull, 3ull); break;
        }
    }
    constexpr int NRATES = 25;
    const u64 freqs[] = { 1, 2, 3, 7, 1000, 32768, 1193182, 3579545, 10000000, 14318180, 24000000, 1000000000, 2400000000ull, 3000000007ull, 4294967296ull, 5000000000ull };

    u64 ticks_of(u64 counts, u64 fn, u64 freq, u64 fd) { return u64((u128(counts) * fn) / (u128(freq) * fd)); }
    // one second's worth of counts (scaled by the denominator) times the rate must fit
    bool fits(u64 freq, u64 fn, u64 fd) { u128 d = u128(freq) * fd; return d < (u128(1) << 62) && (d - 1) * fn + d < (u128(1) << 64); }

    u64 gap(i64 kind, i64 arg, u64 freq, u64 fn, u64 fd)
    {
        u64 period = u64(u128(freq) * fd / fn); // counts per tick, rounded down
        switch (clampmod(kind, 0, 12))
        {
        case 0: return 0;
        case 1: return 1;
        case 2: return u64(arg & 15);
        case 3: return period ? period - 1 : 0;
        case 4: return period;
        case 5: return period + 1;
        case 6: return period * u64(arg & 7);
        case 7: return period ? u64(arg) % period : 0;
        case 8: return freq - (freq > 0);
        case 9: return freq * (1 + u64(arg & 7)) + u64(arg >> 3) % (freq + 1);
        case 10: return freq * fd * u64(1 + (arg & 3)) - u64(arg & 1);
        case 12: return u64(arg) << (arg % 20); // up to centuries
        default: return freq * u64(u64(arg) % 1000000) + u64(arg >> 7) % (freq + 1);
        }
    }

    template<class C> void client(C* c, const std::vector<Op>& ops, u64 fn, u64 fd, u64 freq)
    {
        // bracket of the instant the running clock was last reset, in counts
#ifdef CLOCK_STUB
        auto at = [] { return g_counter[0]; };
#else
        auto at = [freq] { return u64(u128(now()) * freq / 1000000000); };
#endif
        u64 r0 = at(); c->reset(); u64 r1 = at();
        u64 sum = 0, n = 0;
        for (auto& o : ops)
        {
            if (++n > 60) break;
            u64 d = gap(o.a[0], o.a[1], freq, fn, fd);
#ifdef CLOCK_STUB
            if (u128(g_counter[0] - r0 + d) * fn / (u128(freq) * fd) >= (u128(1) << 63) || g_counter[0] - r0 + d < d) d = 0;
            g_counter[0] += d;
#else
            u128 ns = u128(d) * 1000000000 / freq;
            if (ns + now() > 8000000000000000000ull || u128(u64(now()) + u64(ns)) * fn / (u128(1000000000) * fd) >= (u128(1) << 63)) ns = 0;
            sleep_sim(u64(ns));
#endif
            u64 p0 = at(), total = 0;
            switch (clampmod(o.code, 0, 9))
            {
            case 9:
                r0 = at(); c->reset(); r1 = at(); sum = 0;
                probe("resets");
                continue;
            case 5: case 6: case 7: case 8:
            {
                u64 cur = c->current();
                SIM_CHECK(cur >= sum, "tick-went-back", "the running tick count went from %llu to %llu", (unsigned long long)sum, (unsigned long long)cur);
                sum = total = cur;
                break;
            }
            default: { u64 e = c->elapsed(); sum += e; total = sum; probe(e ? "polls_with_ticks" : "polls_without_ticks"); }
            }
            u64 p1 = at();
            u64 lo = ticks_of(p0 - r1, fn, freq, fd), hi = ticks_of(p1 - r0, fn, freq, fd);
            if (lo == hi) probe("exact_checks");
            mix(total);
            SIM_CHECK(total >= lo && total <= hi, "drift", "clock %llu/%llu on a %llu Hz counter: %llu ticks after %llu..%llu counts, expected %llu%s%s", (unsigned long long)fn, (unsigned long long)fd, (unsigned long long)freq,
                (unsigned long long)total, (unsigned long long)(p0 - r1), (unsigned long long)(p1 - r0), (unsigned long long)lo, lo == hi ? "" : " or up to ", lo == hi ? "" : std::to_string(hi).c_str());
        }
    }
}

SIM_PROP(C07, "clocks of 25 rates polled at arbitrary instants, against exact 128-bit arithmetic")
void gen_C07(Rng& g, Scn& s, u64)
{
    s.set("rate", i64(g.below(NRATES)));
    s.set("freq", i64(g.below(sizeof freqs / sizeof *freqs))); s.set("anyfreq", g.chance(1, 3) ? i64(1 + (g.next() >> (29 + g.below(35)))) : 0);
    s.set("startkind", i64(g.below(4))); s.set("start", i64(g.next() >> 2));
    s.set("stall", g.chance(1, 2) ? i64(g.below(8000)) : 0);
    s.set("uptime", i64(g.below(u64(1) << g.below(56))));
    i64 fav = i64(g.below(12)); bool far = g.chance(1, 8);
    fill_ops(g, s, STUB ? 1 : int(g.range(1, 3)), 1, g.chance(1, 4) ? 55 : 14, [&](int, int) { Op o{}; o.code = g.chance(1, 30) ? 9 : i64(g.below(9)); o.a[0] = g.chance(1, 2) ? fav : i64(g.below(far ? 13 : 12)); o.a[1] = i64(g.next() >> 20); return o; });
}
void run_C07(const Scn& s)
{
    step_cap(200000);
    rate(K_STALL, u32(s.get("stall", 0, 8000)));
    by_rate(s.get("rate", 0, NRATES - 1), [&](auto* t, u64 fn, u64 fd) {
        using C = ce::remove_pointer_t<decltype(t)>;
#ifdef CLOCK_STUB
        u64 freq = freqs[s.get("freq", 0, sizeof freqs / sizeof *freqs - 1)];
        if (i64 any = s.get("anyfreq", 0, i64(1) << 35)) freq = u64(any);
        if (!fits(freq, fn, fd)) freq = 1000;
        g_counter = static_cast<u64*>(alloc(16, 16));
        u64 st = u64(s.get("start", 0, i64(1) << 62));
        i64 k = s.get("startkind", 0, 3);
        g_counter[0] = k == 0 ? st : k == 1 ? 0 : k == 2 ? ~u64(0) - st % 100000 : ~u64(0) - st;
        g_counter[1] = freq;
        if (k >= 2) probe("counter_near_wrap");
#else
        u64 freq = ce::os::monotonic_frequency();
        SIM_CHECK(freq > 0, "drift", "monotonic frequency is zero");
        set_now(1000000000 + u64(s.get("uptime", 0, i64(1) << 56)));
#endif
        for (size_t f = 0; f < s.fib.size() && f < (STUB ? 1 : 4); ++f)
            spawn([&, f, fn, fd, freq] { auto c = raw<C>(); client(c, s.fib[f], fn, fd, freq); });
        run_all();
    });
}
