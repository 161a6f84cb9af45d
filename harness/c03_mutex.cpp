// C03/C04 thread mutex, C05/C06 shared mutex.
#include "common.h"
#include "ce/mutex.h"
using namespace h;

namespace
{
    constexpr int WORDS = 3;
    struct Hold { int f; int m; bool ex, is_try, ok; u64 inv, got, rel, end; Token at, freed; }; // sequence numbers; rel/end 0 while held; clocks at the call and at its release

    template<class M> struct Guarded { u8 pre[24]; M m; u8 post[24]; };
    template<class M> struct World
    {
        std::vector<Guarded<M>*> g;
        u64* data[4];               // payload guarded by each mutex
        int writers[4]{}, readers[4]{};
        u64 version[4]{};
        std::vector<Hold> log;
        void make(int n, i64 dirt)
        {
            set_dirt(u64(dirt));
            // neighbours, or as far apart as a table of locks keyed by address would take for one
            size_t stride = sizeof(Guarded<M>); if (u64(dirt) % 3 == 0) stride = size_t(256) << u64(dirt) / 3 % 9;
            u8* row = static_cast<u8*>(alloc(stride * size_t(n - 1) + sizeof(Guarded<M>), 8));
            for (int i = 0; i < n; ++i)
            {
                auto p = reinterpret_cast<Guarded<M>*>(row + stride * size_t(i));
                memset(p->pre, 0x5c, sizeof p->pre); memset(p->post, 0x5c, sizeof p->post);
                ce::construct_mutex(p->m);
                g.push_back(p);
                data[i] = static_cast<u64*>(alloc(sizeof(u64) * WORDS, 16, 0));
            }
        }
        void check_guards() { for (auto p : g) for (size_t i = 0; i < sizeof p->pre; ++i) SIM_CHECK(p->pre[i] == 0x5c && p->post[i] == 0x5c, "outside-storage", "a mutex operation changed a byte outside the mutex"); }

        // critical sections: every word must agree, and (exclusively) is rewritten
        void enter(int m, bool ex)
        {
            if (ex)
            {
                SIM_CHECK(writers[m] == 0, "two-writers", "T%d was granted mutex %d exclusively while another thread holds it exclusively", self(), m);
                SIM_CHECK(readers[m] == 0, "writer-with-readers", "T%d was granted mutex %d exclusively while %d thread(s) hold it shared", self(), m, readers[m]);
                writers[m]++;
            }
            else
            {
                SIM_CHECK(writers[m] == 0, "reader-with-writer", "T%d was granted mutex %d shared while another thread holds it exclusively", self(), m);
                readers[m]++;
                if (readers[m] > 1) probe("concurrent_readers");
            }
        }
        void section(int m, bool ex, int work)
        {
            u64 v = rd(&data[m][0]);
            for (int i = 1; i < WORDS; ++i) SIM_CHECK(rd(&data[m][i]) == v, "torn-data", "data guarded by mutex %d is half written", m);
            SIM_CHECK(v == version[m], "lost-write", "data guarded by mutex %d is version %llu, the last holder wrote %llu", m, (unsigned long long)v, (unsigned long long)version[m]);
            if (ex)
            {
                u64 n = ++version[m];
                for (int i = 0; i < WORDS; ++i) { wr(&data[m][i], n); for (int k = 0; k < work; ++k) point(); }
            }
            else for (int k = 0; k < work; ++k) { point(); SIM_CHECK(rd(&data[m][k % WORDS]) == v, "changed-under-reader", "data changed under a shared hold of mutex %d", m); }
        }
        void leave(int m, bool ex) { if (ex) writers[m]--; else readers[m]--; }

        bool get(int m, bool ex, bool is_try)
        {
            size_t k = log.size(); log.push_back({ self(), m, ex, is_try, true, seq(), 0, 0, 0, publish(), Token{ } });
            bool ok = true;
            if constexpr (!requires_shared())
            {
                if (is_try) ok = ce::try_acquire_mutex(g[size_t(m)]->m); else ce::acquire_mutex(g[size_t(m)]->m);
            }
            else
            {
                if (ex) { if (is_try) ok = ce::try_acquire_mutex(g[size_t(m)]->m); else ce::acquire_mutex(g[size_t(m)]->m); }
                else { if (is_try) ok = ce::try_acquire_mutex_shared(g[size_t(m)]->m); else ce::acquire_mutex_shared(g[size_t(m)]->m); }
            }
            log[k].ok = ok; log[k].got = seq();
            mix(u64(m) << 8 | u64(ok) << 4 | u64(ex));
            if (ok) enter(m, ex); else { log[k].end = log[k].got; probe("failed_tries"); }
            return ok;
        }
        void put(int m, bool ex)
        {
            leave(m, ex);
            size_t k = log.size();
            for (size_t i = log.size(); i-- > 0;) if (log[i].f == self() && log[i].m == m && log[i].ok && log[i].end == 0) { k = i; break; }
            log[k].rel = seq(); log[k].freed = publish();
            if constexpr (!requires_shared()) ce::release_mutex(g[size_t(m)]->m);
            else if (ex) ce::release_mutex(g[size_t(m)]->m); else ce::release_mutex_shared(g[size_t(m)]->m);
            log[k].end = seq();
        }
        static constexpr bool requires_shared() { return __is_same(M, ce::thread_shared_mutex); }

        // a try may fail only if a conflicting acquisition overlaps it (or, for a shared try, a writer is waiting), or its
        // release is not yet visible to the trying thread (no synchronization orders it before the try)
        // independence_only: only the part that says distinct mutexes never exclude each other
        void check_tries(u64 eagain, bool independence_only)
        {
            for (auto& t : log)
            {
                if (!t.is_try || t.ok) continue;
                bool excuse = false;
                for (auto& o : log)
                {
                    if (&o == &t || o.m != t.m || o.f == t.f) continue;
                    if (!t.ex && !o.ex) continue;                     // readers do not conflict
                    if (o.is_try && !o.ok) continue;                  // a failed try holds nothing
                    if (o.inv < t.got && (o.end == 0 || o.end > t.inv)) excuse = true;
                    if (o.inv < t.got && !(t.at.c[o.f] > o.freed.c[o.f])) excuse = true; // released, but not ordered before the try
                }
                if (!t.ex && eagain) excuse = true;
                if (independence_only)
                {
                    bool other = false;
                    for (auto& o : log) if (&o != &t && o.inv < t.got && (o.end == 0 || o.end > t.inv)) { if (o.m == t.m) excuse = true; else other = true; }
                    if (!other) excuse = true;
                }
                SIM_CHECK(excuse, "try-failed-on-free", "T%d: try-acquire (%s) of mutex %d failed though no conflicting thread held or awaited it", t.f, t.ex ? "exclusive" : "shared", t.m);
            }
        }
    };

    void common_faults(const Scn& s)
    {
        rate(K_STALL, u32(s.get("stall", 0, 6000)));
        rate(K_EAGAIN, u32(s.get("eagain", 0, 20000)));
        set_ceiling(int(s.get("rwpol", 0, 2)));
        step_cap(300000);
    }
    void gen_common(Rng& g, Scn& s)
    {
        s.set("stall", g.chance(1, 4) ? i64(g.below(4000)) : 0);
        s.set("eagain", g.chance(1, 5) ? i64(g.below(20000)) : 0);
        s.set("rwpol", i64(g.below(3)));
        s.set("mutexes", g.range(1, 3));
        s.set("dirt", i64(g.next() >> 8));
        s.set("work", g.range(0, 3));
    }

    void gen_linger(Rng& g, Scn& s, u64 index) { s.set("linger", index % 15000 == 9000 ? g.range(60000, 150000) : index % 300 == 177 ? g.range(500, 6000) : g.range(0, 30)); }
    void gen_marathon(Rng& g, Scn& s, u64 index, int mode);
    void gen_laps(Rng& g, Scn& s, u64 index)
    {
        bool far = index % 20000 == 11000;
        if (index % 300 == 177 || index % 15000 == 9000) { s.set("mode", 3); s.set("rounds", g.range(1, 4)); gen_linger(g, s, index); return; } // long holds
        if (index % 300 != 211 && !far) return;
        gen_marathon(g, s, index, 2);
    }
    void gen_marathon(Rng& g, Scn& s, u64 index, int mode)
    {
        bool far = index % 20000 == 11000;
        if (index % 300 != 211 && !far) return;
        s.set("mode", mode); s.set("laps", far ? g.range(65530, 70000) : g.range(250, 700)); s.set("odd", i64(g.below(8))); s.set("stall", 0);
    }

    // clients on one or more mutexes
    template<class M> void run_clients(const Scn& s, bool shared, bool independence_only)
    {
        auto w = std::make_unique<World<M>>();
        int n = int(s.get("mutexes", 1, 3)), work = int(s.get("work", 0, 4));
        size_t nf = s.fib.size() < 6 ? s.fib.size() : 6;
        auto client = [&](size_t f) {
            int k = 0;
            for (auto& o : s.fib[f])
            {
                if (++k > 8) break;
                int m = int(clampmod(o.a[0], 0, n - 1));
                bool ex = !shared || !(o.a[1] & 1), tr = o.code & 1;
                if (w->get(m, ex, tr))
                {
                    w->section(m, ex, work);
                    int m2 = int(clampmod(o.a[2], 0, n - 1));
                    if (o.code & 2 && m2 > m) // nested, in order
                    {
                        bool ex2 = !shared || !(o.a[3] & 1);
                        if (w->get(m2, ex2, o.code & 4)) { w->section(m2, ex2, 0); w->put(m2, ex2); }
                    }
                    w->put(m, ex);
                }
            }
        };
        spawn([&] {
            w->make(n, s.get("dirt", 0, i64(1) << 60));
            for (size_t f = 1; f < nf; ++f) spawn([&, f] { client(f); });
            if (nf) client(0);
        });
        run_all();
        w->check_guards();
        w->check_tries(fired(K_EAGAIN), independence_only);
        u64 blocked = 0; for (auto& a : w->log) for (auto& b : w->log) blocked += a.m == b.m && a.f != b.f && a.ok && b.ok && a.inv < b.end && b.inv < a.end;
        probe("contended_pairs", blocked);
        reset_fibers();
        // destroyed, built again where it was (its memory untouched, or used for something else meanwhile), and used as if new
        i64 dirt = s.get("dirt", 0, i64(1) << 60); int again = int(dirt >> 8 & 3);
        spawn([&] {
            for (auto g : w->g) ce::destroy_mutex(g->m);
            for (int life = 0; life < again; ++life)
            {
                Rng r(u64(dirt) + u64(life));
                for (auto g : w->g) { u64 how = r.below(3); if (how) { u8 fill = u8(r.next()); auto b = reinterpret_cast<u8*>(&g->m); for (size_t i = 0; i < sizeof g->m; ++i) b[i] = how == 1 ? fill : u8(r.next()); acc_write(b, sizeof g->m); } ce::construct_mutex(g->m); }
                int left = 0; w->log.clear();
                for (int f = 0; f < 2; ++f) { ++left; spawn([&, f] { for (int m = 0; m < n; ++m) { bool ex = !shared || f == 0 || life & 1; w->get(m, ex, false); w->section(m, ex, 0); w->put(m, ex); } --left; }); }
                wait_until([&] { return left == 0; });
                for (int m = 0; m < n; ++m) { SIM_CHECK(w->get(m, true, true), "try-failed-on-free", "try-acquire failed on a mutex every thread has released"); w->section(m, true, 0); w->put(m, true); }
                for (auto g : w->g) ce::destroy_mutex(g->m);
                probe("rebuilt");
            }
        });
        run_all();
        w->check_guards();
    }

    // one thread holds until every other thread's tries have returned; nothing may wait, nothing may succeed, and the
    // holder's hold must survive the failed tries
    template<class M> void run_hold_tries(const Scn& s, bool shared)
    {
        auto w = std::make_unique<World<M>>();
        bool hold_ex = !shared || !(s.get("holdsh", 0, 1));
        size_t nf = s.fib.size() < 6 ? s.fib.size() : 6;
        int pending = 0;
        spawn([&] {
            w->make(2, s.get("dirt", 0, i64(1) << 60));
            if (s.get("usetry", 0, 1) && (hold_ex || fired(K_EAGAIN) == 0 && s.get("eagain", 0, 20000) == 0)) SIM_CHECK(w->get(0, hold_ex, true), "try-failed-on-free", "try-acquire of a fresh mutex failed");
            else w->get(0, hold_ex, false);
            for (size_t f = 1; f < nf; ++f)
            {
                pending++;
                spawn([&, f] {
                    int k = 0;
                    for (auto& o : s.fib[f])
                    {
                        if (++k > 8) break;
                        bool ex = !shared || !(o.a[1] & 1);
                        bool conflict = hold_ex || ex;
                        bool ok = w->get(0, ex, true);
                        if (conflict) SIM_CHECK(!ok, "try-succeeded-on-held", "try-acquire (%s) succeeded while another thread holds the mutex %s", ex ? "exclusive" : "shared", hold_ex ? "exclusively" : "shared");
                        if (ok) { if (o.a[2] & 1) point(); w->section(0, ex, 0); w->put(0, ex); }
                        if (o.a[3] & 1) { if (w->get(1, ex, true)) w->put(1, ex); }
                    }
                    pending--;
                });
            }
            wait_until([&] { return pending == 0; });
            w->section(0, hold_ex, 1);
            w->put(0, hold_ex);
            // free again: the next acquisition of either kind works at once
            SIM_CHECK(w->get(0, true, true), "try-failed-on-free", "try-acquire failed on a mutex every thread has released");
            w->section(0, true, 0); w->put(0, true);
        });
        run_all();
        w->check_guards();
        w->check_tries(fired(K_EAGAIN), false);
        probe("held_while_tried");
    }

    // a thread that holds one mutex waits for another thread to pass through a different mutex
    template<class M> void run_independent(const Scn& s, bool shared)
    {
        auto w = std::make_unique<World<M>>();
        bool passed = false;
        spawn([&] {
            w->make(3, s.get("dirt", 0, i64(1) << 60));
            int a = int(s.get("first", 0, 2));
            bool ex = !shared || s.get("holdsh", 0, 1) == 0;
            w->get(a, ex, false);
            spawn([&, a] { for (int b = 0; b < 3; ++b) if (b != a) { bool ok = w->get(b, true, s.get("usetry", 0, 1)); SIM_CHECK(ok, "try-failed-on-free", "try-acquire of mutex %d failed because mutex %d is held", b, a); w->section(b, true, 0); w->put(b, true); } passed = true; });
            wait_until([&] { return passed; });
            w->put(a, ex);
        });
        run_all();
        w->check_guards();
        probe("independent_mutexes");
    }

    // threads queue up behind a holder; after release all of them must get through
    template<class M> void run_queue(const Scn& s, bool shared)
    {
        auto w = std::make_unique<World<M>>();
        int rounds = int(s.get("rounds", 1, 4));
        size_t nf = s.fib.size() < 7 ? s.fib.size() : 7;
        int arrived = 0, done = 0; i64 linger = s.get("linger", 0, 200000); if (linger > 100) step_cap(20000000);
        spawn([&] {
            w->make(1, s.get("dirt", 0, i64(1) << 60));
            bool hold_ex = !shared || !(s.get("holdsh", 0, 1));
            w->get(0, hold_ex, false);
            for (size_t f = 1; f < nf; ++f)
                spawn([&, f] {
                    for (int r = 0; r < rounds; ++r)
                    {
                        size_t k = size_t(r) < s.fib[f].size() ? size_t(r) : 0;
                        bool ex = !shared || s.fib[f].empty() || !(s.fib[f][k].a[1] & 1);
                        arrived++;
                        w->get(0, ex, false);
                        w->section(0, ex, 1);
                        w->put(0, ex);
                    }
                    done++;
                });
            wait_until([&] { return arrived >= int(nf) - 1; });
            for (i64 i = 0; i < linger; ++i) point();
            w->section(0, hold_ex, 0);
            w->put(0, hold_ex);
            wait_until([&] { return done >= int(nf) - 1; });
        });
        run_all();
        w->check_guards();
        probe("queues_drained");
    }

    // so many acquisitions that any count kept of them runs over
    template<class M> void run_marathon(const Scn& s, bool shared)
    {
        auto w = std::make_unique<World<M>>();
        step_cap(20000000);
        size_t nf = s.fib.size() < 3 ? s.fib.size() : 3; u64 laps = u64(s.get("laps", 1, 70000)), exs = 0; u32 odd = u32(s.get("odd", 0, 7));
        int busy_ex = 0, busy_sh = 0;
        spawn([&] {
            w->make(1, s.get("dirt", 0, i64(1) << 60));
            for (size_t f = 0; f < nf; ++f)
                spawn([&, f] {
                    u64 mine = f == 0 ? laps : 1 + laps % 97;
                    for (u64 i = 0; i < mine; ++i)
                    {
                        bool ex = !shared || (odd & 1) == (i >> 3 & odd >> 1 & 1), tr = odd & 4 && i % 5 == 0, ok = true;
                        auto& m = w->g[0]->m;
                        if constexpr (__is_same(M, ce::thread_shared_mutex))
                        {
                            if (!ex) { if (tr) ok = ce::try_acquire_mutex_shared(m); else ce::acquire_mutex_shared(m); }
                            else if (tr) ok = ce::try_acquire_mutex(m); else ce::acquire_mutex(m);
                        }
                        else { if (tr) ok = ce::try_acquire_mutex(m); else ce::acquire_mutex(m); }
                        if (!ok) continue;
                        SIM_CHECK(busy_ex == 0 && (!ex || busy_sh == 0), "two-writers", "acquisition %llu (%s) was granted while %d thread(s) hold the mutex exclusively and %d shared", (unsigned long long)i, ex ? "exclusive" : "shared", busy_ex, busy_sh);
                        (ex ? busy_ex : busy_sh)++;
                        u64 v = rd(&w->data[0][0]);
                        SIM_CHECK(v == exs, "lost-write", "the guarded count is %llu after %llu updates", (unsigned long long)v, (unsigned long long)exs);
                        if (ex) { wr(&w->data[0][0], v + 1); ++exs; }
                        (ex ? busy_ex : busy_sh)--;
                        if constexpr (__is_same(M, ce::thread_shared_mutex)) { if (ex) ce::release_mutex(m); else ce::release_mutex_shared(m); } else ce::release_mutex(m);
                    }
                });
        });
        run_all();
        w->check_guards();
        probe("marathons");
    }

    // all readers are inside at the same time
    void run_coexist(const Scn& s)
    {
        auto w = std::make_unique<World<ce::thread_shared_mutex>>();
        size_t nf = s.fib.size() < 6 ? s.fib.size() : 6; if (nf < 2) nf = 2;
        size_t inside = 0, out = 0; bool tried = false;
        spawn([&] {
            w->make(1, s.get("dirt", 0, i64(1) << 60));
            for (size_t f = 0; f < nf; ++f)
                spawn([&, f] {
                    bool tr = f < s.fib.size() && !s.fib[f].empty() && s.fib[f][0].code & 1;
                    if (tr) { while (!w->get(0, false, true)) { SIM_CHECK(fired(K_EAGAIN) > 0, "readers-exclude", "a shared try failed though only readers hold the mutex"); point(); } }
                    else w->get(0, false, false);
                    inside++;
                    wait_until([&] { return inside == nf; });
                    w->section(0, false, 1);
                    if (f == 0) { SIM_CHECK(!w->get(0, true, true), "writer-with-readers", "exclusive try succeeded while readers hold the mutex"); tried = true; }
                    wait_until([&] { return tried; });
                    w->put(0, false);
                    out++;
                });
            wait_until([&] { return out == nf; });
            w->get(0, true, false); w->section(0, true, 0); w->put(0, true);
        });
        run_all();
        probe("readers_coexisted");
    }
}

SIM_PROP(C03, "clients on 1-3 thread mutexes: exclusion, data hand-over, independence, storage bounds")
void gen_C03(Rng& g, Scn& s, u64 index)
{
    gen_common(g, s);
    s.set("mode", g.chance(1, 8) ? 1 : 0); s.set("first", i64(g.below(3))); s.set("usetry", i64(g.below(2))); gen_laps(g, s, index);
    fill_ops(g, s, int(g.range(2, 5)), 1, 6, [&](int, int) { Op o{}; o.code = i64(g.below(8)); for (auto& a : o.a) a = i64(g.below(3)); return o; });
}
void run_C03(const Scn& s)
{
    common_faults(s);
    i64 mode = s.get("mode", 0, 3);
    if (mode == 3) run_queue<ce::thread_mutex>(s, false); else if (mode == 2) run_marathon<ce::thread_mutex>(s, false); else if (mode == 1) run_independent<ce::thread_mutex>(s, false); else run_clients<ce::thread_mutex>(s, false, true);
}

SIM_PROP(C04, "queues behind a holder drain; tries never wait, fail exactly while held and change nothing")
void gen_C04(Rng& g, Scn& s, u64 index)
{
    gen_common(g, s);
    s.set("mode", g.chance(1, 10) ? 3 : i64(g.below(3))); s.set("usetry", i64(g.below(2))); s.set("rounds", g.range(1, 4)); gen_linger(g, s, index); s.set("mutexes", g.chance(1, 2) ? 1 : g.range(2, 3));
    s.set("first", i64(g.below(3))); gen_marathon(g, s, index, 4);
    fill_ops(g, s, int(g.range(2, 6)), 1, 5, [&](int, int) { Op o{}; o.code = i64(g.below(8)); for (auto& a : o.a) a = i64(g.below(3)); return o; });
}
void run_C04(const Scn& s)
{
    common_faults(s);
    switch (s.get("mode", 0, 4)) { case 0: run_hold_tries<ce::thread_mutex>(s, false); break; case 1: run_queue<ce::thread_mutex>(s, false); break; case 3: run_independent<ce::thread_mutex>(s, false); break; case 4: run_marathon<ce::thread_mutex>(s, false); break; default: run_clients<ce::thread_mutex>(s, false, false); }
}

SIM_PROP(C05, "readers and writers on 1-3 shared mutexes: exclusion between modes, data hand-over both ways")
void gen_C05(Rng& g, Scn& s, u64 index)
{
    gen_common(g, s);
    s.set("mode", g.chance(1, 8) ? 1 : 0); s.set("first", i64(g.below(3))); s.set("usetry", i64(g.below(2))); s.set("holdsh", i64(g.below(2))); gen_laps(g, s, index);
    fill_ops(g, s, int(g.range(2, 6)), 1, 6, [&](int, int) { Op o{}; o.code = i64(g.below(8)); for (auto& a : o.a) a = i64(g.below(3)); return o; });
}
void run_C05(const Scn& s)
{
    common_faults(s);
    i64 mode = s.get("mode", 0, 3);
    if (mode == 3) run_queue<ce::thread_shared_mutex>(s, true); else if (mode == 2) run_marathon<ce::thread_shared_mutex>(s, true); else if (mode == 1) run_independent<ce::thread_shared_mutex>(s, true); else run_clients<ce::thread_shared_mutex>(s, true, true);
}

SIM_PROP(C06, "readers coexist, queues of both modes drain, tries of both modes never wait and fail only on conflict")
void gen_C06(Rng& g, Scn& s, u64 index)
{
    gen_common(g, s);
    s.set("mode", g.chance(1, 12) ? 4 : i64(g.below(4))); s.set("usetry", i64(g.below(2))); s.set("holdsh", i64(g.below(2))); s.set("rounds", g.range(1, 4)); gen_linger(g, s, index); s.set("mutexes", g.chance(1, 2) ? 1 : g.range(2, 3));
    s.set("first", i64(g.below(3))); gen_marathon(g, s, index, 5);
    fill_ops(g, s, int(g.range(2, 6)), 1, 5, [&](int, int) { Op o{}; o.code = i64(g.below(8)); for (auto& a : o.a) a = i64(g.below(3)); return o; });
}
void run_C06(const Scn& s)
{
    common_faults(s);
    using M = ce::thread_shared_mutex;
    switch (s.get("mode", 0, 5)) { case 0: run_hold_tries<M>(s, true); break; case 1: run_queue<M>(s, true); break; case 2: run_coexist(s); break; case 4: run_independent<M>(s, true); break; case 5: run_marathon<M>(s, true); break; default: run_clients<M>(s, true, false); }
}
