// Shared harness helpers.  Harness code is never instrumented; only the repository's code and the standard headers it
// instantiates are.  No mutable statics here: per-run state lives on the host stack or heap.
#pragma once
#include "../sim/simrt.h"
#include <set>
#include <memory>
#include <unordered_set>

namespace h
{
    using namespace sim;
    typedef unsigned __int128 u128;

    template<class T> u128 bits(const T& v) { static_assert(sizeof(T) <= 16, ""); u128 b = 0; memcpy(&b, &v, sizeof v); return b; }

    // Wing-Gong linearizability search over a recorded history.  Events carry invoke/return sequence numbers;
    // Model::step(State&, const Ev&) applies an event and tells whether its recorded result is the one the model gives.
    template<class Ev, class State, class Step> bool linearizable(const std::vector<Ev>& evs, State init, Step step)
    {
        size_t n = evs.size();
        if (n > 60) { dprintf(2, "harness: history too long\n"); _Exit(3); }
        struct Key { u64 mask; State s; bool operator<(const Key& o) const { return mask != o.mask ? mask < o.mask : s < o.s; } };
        std::set<Key> seen;
        std::vector<Key> stack{ { 0, init } };
        u64 full = n == 64 ? ~u64(0) : (u64(1) << n) - 1;
        while (!stack.empty())
        {
            Key k = stack.back(); stack.pop_back();
            if (k.mask == full) return true;
            u64 minret = ~u64(0);
            for (size_t i = 0; i < n; ++i) if (!(k.mask >> i & 1) && evs[i].ret < minret) minret = evs[i].ret;
            for (size_t i = 0; i < n; ++i)
            {
                if (k.mask >> i & 1 || evs[i].inv > minret) continue;
                State s = k.s;
                if (!step(s, evs[i])) continue;
                Key nk{ k.mask | u64(1) << i, s };
                if (seen.insert(nk).second) stack.push_back(nk);
            }
        }
        return false;
    }

    inline std::string hex(u128 v, size_t n) { std::string s; const char* d = "0123456789abcdef"; for (size_t i = 0; i < n * 2; ++i) s.insert(s.begin(), d[int(v >> (4 * i)) & 15]); return s; }

    // random operation lists
    inline void fill_ops(Rng& g, Scn& s, int fibers, int min_ops, int max_ops, std::function<Op(int fiber, int i)> make)
    {
        s.fib.resize(size_t(fibers));
        for (int f = 0; f < fibers; ++f) { int n = int(g.range(min_ops, max_ops)); for (int i = 0; i < n; ++i) s.fib[size_t(f)].push_back(make(f, i)); }
    }

    inline void join(Token& a, const Token& b) { for (int i = 0; i < MAXF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
    // the calling client is descheduled for a while, now and then
    inline void stall_here() { static const u64 t[] = { 0, 700, 40000, 3000000, 250000000, 9000000000ull }; if (u32 v = decide(K_STALL, 6)) sleep_sim(t[v]); }
    // mutual exclusion between simulated clients that does not go through the code under test
    struct Lock
    {
        bool held = false; int readers = 0; Token w{}, r{};
        void acquire() { wait_until([this] { return !held && readers == 0; }); held = true; observe(w); observe(r); stall_here(); }
        void release() { Token t = publish(); join(w, t); held = false; point(); }
        void acquire_shared() { wait_until([this] { return !held; }); ++readers; observe(w); stall_here(); }
        void release_shared() { Token t = publish(); join(r, t); --readers; point(); }
    };
    // a change may stop a template from compiling for unusual argument types: the check is then built with usual ones only
#ifdef PLAIN_TYPES
#define EX(UNUSUAL, USUAL) USUAL
#else
#define EX(UNUSUAL, USUAL) UNUSUAL
#endif
    inline void no_traps()
    {
        on_trap([] {
            std::string s = out_of(2, self()); size_t at = s.rfind("FAILED ********"); if (at != s.npos) s = s.substr(at + 16);
            for (char& c : s) if (c == '\n') c = ' ';
            fail("trap", "a check inside the library failed and broke into the debugger: %s", s.substr(0, 200).c_str());
        });
    }
}
