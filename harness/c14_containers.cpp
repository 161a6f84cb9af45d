// C14 pool queues, C15 dictionary, C16 min priority queue, C17 bulk containers: shared by mutually excluded clients.
#include "common.h"
#include <deque>
#include "ce/ce.h"
#include "ce/pool.h"
#include "ce/dictionary.h"
using namespace h;

namespace
{
    struct Rec { u64 id; u64 inv; u32 pad[3]; };            // payload that shows tearing and mixing
    struct Byte3 { u8 b[3]; };
    template<class T> T mk(u64 v) { return T(v); }
    template<> Rec mk<Rec>(u64 v) { return { v, ~v, { u32(v), u32(v * 3), u32(v >> 7) } }; }
    template<> Byte3 mk<Byte3>(u64 v) { return { { u8(v), u8(v >> 8), u8(v * 7) } }; }
    template<class T> bool same(const T& a, const T& b) { return a == b; }
    bool same(const Rec& a, const Rec& b) { return a.id == b.id && a.inv == b.inv && !memcmp(a.pad, b.pad, sizeof a.pad); }
    bool same(const Byte3& a, const Byte3& b) { return !memcmp(a.b, b.b, 3); }
    void stalls(const Scn& s) { rate(K_STALL, u32(s.get("stall", 0, 4000))); }
}

// ------------------------------------------------------------------------------------------------ C14
namespace
{
    constexpr int NQ = 4;
    struct PoolWorld
    {
        Lock lock;
        virtual ~PoolWorld() { }
        virtual void init() = 0;
        virtual void op(const Op& o, u64 v) = 0;
        virtual void finish() = 0;
    };
    template<size_t N, class T, class I> struct PoolW : PoolWorld
    {
        typedef ce::pool<N, T, I> P;
        typedef typename P::queue_t Q;
        P* p; Q* q[NQ];
        std::deque<u64> m[NQ];
        std::vector<std::pair<u64, u64>> held;          // node index, value
        size_t live() const { size_t n = held.size(); for (auto& d : m) n += d.size(); return n; }
        void init() override
        {
            p = raw<P>(); new (p) P; p->reset();
            for (auto& x : q) { x = raw<Q>(); new (x) Q; *reinterpret_cast<u8*>(x) = 1; x->reset(); } // reset() has to clear whatever is there
        }
        void look(int i)
        {
            bool e = p->is_empty(*q[i]);
            SIM_CHECK(e == m[i].empty(), "lost-item", "queue %d says %s with %zu items in it", i, e ? "empty" : "not empty", m[i].size());
            if (e) return;
            SIM_CHECK(same(p->head(*q[i]), mk<T>(m[i].front())), "wrong-head", "the head of queue %d (%zu items) is not the item that belongs there", i, m[i].size());
            SIM_CHECK(same(p->tail(*q[i]), mk<T>(m[i].back())), "wrong-tail", "the tail of queue %d (%zu items) is not the item that belongs there", i, m[i].size());
        }
        void op(const Op& o, u64 v) override
        {
            int i = int(clampmod(o.a[0], 0, NQ - 1));
            bool full = live() == N - 1;
            switch (clampmod(o.code, 0, 15))
            {
            case 14: case 15: // a burst: many items in, or many out
                for (size_t k = size_t(u64(o.a[1]) % N) + 1; k--;)
                    if (o.code & 1) { if (m[i].empty()) break; look(i); SIM_CHECK(p->remove_head(*q[i]), "lost-item", "queue %d ran out with %zu items missing", i, m[i].size()); m[i].pop_front(); }
                    else
                    {
                        bool front = o.a[1] >> 20 & k & 1, room = live() < N - 1; u64 e = v + k * 65537; T item = mk<T>(e);
                        bool ok = front ? p->insert_head(*q[i], item) : p->append_tail(*q[i], item);
                        SIM_CHECK(ok == room, "capacity", "an insertion %s with %zu of %zu nodes in use", ok ? "succeeded" : "failed", live(), N - 1);
                        if (!ok) break;
                        if (front) m[i].push_front(e); else m[i].push_back(e);
                    }
                probe("bursts");
                break;
            case 13: // an item that sits in another queue of the pool, or in this one
                if (int j = int(clampmod(o.a[1], 0, NQ - 1)); !m[j].empty())
                {
                    bool front = o.a[1] & 4;
                    u64 e = o.a[1] & 8 ? m[j].front() : m[j].back();
                    T& item = o.a[1] & 8 ? p->head(*q[j]) : p->tail(*q[j]);
                    bool ok = front ? p->insert_head(*q[i], item) : p->append_tail(*q[i], item); probe("own_items");
                    SIM_CHECK(ok == !full, "capacity", "an insertion %s with %zu of %zu nodes in use", ok ? "succeeded" : "failed", live(), N - 1);
                    if (ok) { if (front) m[i].push_front(e); else m[i].push_back(e); }
                }
                break;
            case 0: case 1:
            {
                T item = mk<T>(v);
                bool ok = p->insert_head(*q[i], item); probe("inserts");
                SIM_CHECK(ok == !full, "capacity", "insert_head %s with %zu of %zu nodes in use", ok ? "succeeded" : "failed", live(), N - 1);
                if (ok) m[i].push_front(v); else probe("inserts_when_full");
                break;
            }
            case 2: case 3: case 4:
            {
                T item = mk<T>(v);
                bool ok = p->append_tail(*q[i], item); probe("appends");
                SIM_CHECK(ok == !full, "capacity", "append_tail %s with %zu of %zu nodes in use", ok ? "succeeded" : "failed", live(), N - 1);
                if (ok) m[i].push_back(v); else probe("inserts_when_full");
                break;
            }
            case 5: case 6: case 7:
            {
                bool ok = p->remove_head(*q[i]); probe("removals");
                SIM_CHECK(ok == !m[i].empty(), "wrong-result", "remove_head returned %d on a queue of %zu items", ok, m[i].size());
                if (ok) m[i].pop_front();
                break;
            }
            case 8:
            {
                u64 n = u64(p->alloc_index()); probe("allocs");
                SIM_CHECK((n == 0) == full, "capacity", "alloc_index gave %llu with %zu of %zu nodes in use", (unsigned long long)n, live(), N - 1);
                if (n)
                {
                    SIM_CHECK(n < N, "bad-node", "alloc_index gave node %llu of a pool of %zu", (unsigned long long)n, N);
                    for (auto& h : held) SIM_CHECK(h.first != n, "two-owners", "alloc_index gave node %llu, which is still in use", (unsigned long long)n);
                    p->data[n] = mk<T>(v); held.push_back({ n, v });
                }
                break;
            }
            case 9:
                if (!held.empty())
                {
                    auto it = held.begin() + long(u64(o.a[1]) % held.size());
                    SIM_CHECK(same(p->data[it->first], mk<T>(it->second)), "two-owners", "the data of an allocated node changed while it was in use");
                    p->free_index(typename P::index_t(it->first)); held.erase(it); probe("frees");
                }
                else p->free_index(typename P::index_t(0));
                break;
            case 10: while (!m[i].empty()) { look(i); SIM_CHECK(p->remove_head(*q[i]), "lost-item", "queue %d ran out with %zu items missing", i, m[i].size()); m[i].pop_front(); } probe("drains"); break;
            case 11:    // start over with items still queued
                if (o.a[1] % 4 == 0)
                {
                    p->reset(); for (auto& x : q) x->reset();
                    for (auto& d : m) d.clear();
                    held.clear(); probe("resets");
                }
                break;
            default: SIM_CHECK(P::capacity() == N, "capacity", "capacity() gives %zu for a pool of %zu", size_t(P::capacity()), N); break;
            }
            for (int k = 0; k < NQ; ++k) look(k);
            for (auto& h : held) SIM_CHECK(same(p->data[h.first], mk<T>(h.second)), "two-owners", "the data of an allocated node changed while it was in use");
        }
        void finish() override
        {
            for (int i = 0; i < NQ; ++i)
            {
                while (!m[i].empty()) { look(i); SIM_CHECK(p->remove_head(*q[i]), "lost-item", "queue %d ran out early", i); m[i].pop_front(); }
                SIM_CHECK(p->is_empty(*q[i]) && !p->remove_head(*q[i]), "extra-item", "queue %d holds more than was put in", i);
            }
            for (auto& h : held) p->free_index(typename P::index_t(h.first));
            held.clear();
            // every node is available again
            for (size_t n = 0; n < N - 1; ++n) { T t = mk<T>(n); SIM_CHECK(p->append_tail(*q[n % NQ], t), "leak", "only %zu of %zu nodes are available after everything was removed", n, N - 1); m[n % NQ].push_back(n); }
            T t = mk<T>(1); SIM_CHECK(!p->append_tail(*q[0], t), "capacity", "more than %zu nodes handed out", N - 1);
            for (int i = 0; i < NQ; ++i) while (!m[i].empty()) { look(i); p->remove_head(*q[i]); m[i].pop_front(); }
        }
    };
    constexpr int NPOOL = 12, BIGPOOL = 7;
    PoolWorld* make_pool(i64 k)
    {
        switch (k)
        {
        case 0: return new PoolW<2, u64, u16>;
        case 1: return new PoolW<3, Rec, u16>;
        case 2: return new PoolW<4, u32, u8>;
        case 3: return new PoolW<6, Byte3, u16>;
        case 4: return new PoolW<8, Rec, u8>;
        case 5: return new PoolW<17, u64, u32>;
        case 6: return new PoolW<12, Rec, u64>;
        case 7: return new PoolW<256, u64, u8>;
        case 8: return new PoolW<300, Rec, u16>;
        case 9: return new PoolW<1500, u32, u16>;
        case 10: return new PoolW<65536, u16, u16>;
        default: return new PoolW<70000, Byte3, u32>;
        }
    }
}

SIM_PROP(C14, "clients share pools under a lock: queue and raw node operations against independent deques")
void gen_C14(Rng& g, Scn& s, u64 idx)
{
    bool big = idx % 50 == 7, huge = idx % 2000 == 7;
    s.set("pool", big ? huge ? i64(g.range(10, 11)) : i64(g.range(BIGPOOL, 9)) : i64(g.below(BIGPOOL))); s.set("pool2", i64(g.below(BIGPOOL)));
    s.set("stall", g.chance(1, 4) ? i64(g.below(2000)) : 0);
    u64 bias = g.below(3);
    int fibers = int(g.range(2, 4));
    fill_ops(g, s, fibers, big && !huge ? 60 : 4, big && !huge ? 140 : 24, [&](int, int) {
        Op o{}; o.code = g.chance(1, huge ? 4 : big ? 12 : 60) ? i64(14 + g.below(2)) : bias == 0 ? i64(g.below(14)) : bias == 1 ? (g.chance(3, 4) ? i64(g.below(5)) : i64(g.below(11))) : i64(g.below(10));
        o.a[0] = i64(g.below(bias == 2 ? 2 : NQ)); o.a[1] = i64(g.next() >> 40); o.a[2] = i64(g.below(4) == 0); return o; });
}
void run_C14(const Scn& s)
{
    no_traps(); stalls(s);
    std::unique_ptr<PoolWorld> w[2] = { std::unique_ptr<PoolWorld>(make_pool(s.get("pool", 0, NPOOL - 1))), std::unique_ptr<PoolWorld>(make_pool(s.get("pool2", 0, NPOOL - 1))) };
    if (s.get("pool", 0, NPOOL - 1) >= BIGPOOL || s.get("pool2", 0, NPOOL - 1) >= BIGPOOL) step_cap(60000000);
    u64 next = 0;
    spawn([&] {
        w[0]->init(); w[1]->init(); Token t = publish();
        for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
            spawn([&, f, t] {
                observe(t); int n = 0;
                for (auto& o : s.fib[f])
                {
                    if (++n > 160) break;
                    auto& x = *w[o.a[2] & 1];
                    x.lock.acquire(); x.op(o, 1000 + ++next * 65537); x.lock.release();
                }
            });
    });
    run_all();
    reset_fibers();
    spawn([&] { w[0]->finish(); w[1]->finish(); });
    run_all();
}

// ------------------------------------------------------------------------------------------------ lifetime-tracked elements (C15, C17)
namespace
{
    struct Registry
    {
        std::unordered_set<const void*> live; const char* op = "";
        bool on = true;
    };
    Registry* g17;
    void born(const void* p) { SIM_CHECK(g17->live.insert(p).second, "constructed-twice", "%s constructs an element over a living one", g17->op); }
    void died(const void* p) { SIM_CHECK(g17->live.erase(p) == 1, "destroyed-twice", "%s destroys an element that is not alive", g17->op); }
    void used(const void* p, const char* what) { SIM_CHECK(g17->live.count(p) == 1, "not-constructed", "%s %s an element that is not alive", g17->op, what); }
    struct El
    {
        i64 v; const void* self;
        El() : v(-1), self(this) { born(this); }
        El(i64 x) : v(x), self(this) { born(this); }
        El(const El& o) : v(o.v), self(this) { used(&o, "copies from"); born(this); }
        El(El&& o) : v(o.v), self(this) { used(&o, "moves from"); o.v = -2; born(this); }
        El& operator=(const El& o) { used(&o, "assigns from"); used(this, "assigns to"); v = o.v; return *this; }
        El& operator=(El&& o) { used(&o, "moves from"); used(this, "assigns to"); i64 t = o.v; o.v = -2; v = t; return *this; }
        ~El() { died(this); v = -3; }
        i64 val() const { used(this, "reads"); SIM_CHECK(self == this, "relocated", "%s relocates an element without constructing it", g17->op); return v; }
    };
    struct ElNd // no default constructor
    {
        i64 v; const void* self; i64 more[2];
        ElNd(i64 x) : v(x), self(this), more{ x, ~x } { born(this); }
        ElNd(const ElNd& o) : v(o.v), self(this), more{ o.v, ~o.v } { used(&o, "copies from"); born(this); }
        ElNd& operator=(const ElNd& o) { used(&o, "assigns from"); used(this, "assigns to"); v = o.v; more[0] = v; more[1] = ~v; return *this; }
        ~ElNd() { died(this); v = -3; }
        i64 val() const { used(this, "reads"); SIM_CHECK(self == this, "relocated", "%s relocates an element without constructing it", g17->op); return more[0] == v && more[1] == ~v ? v : -9; }
    };
    struct ElDef : El { ElDef() : El() { } ElDef(i64 x) : El(x) { } ElDef(const ElDef&) = default; ElDef& operator=(const ElDef&) = default; };
    struct ElAs // assignable, but not copy constructible
    {
        i64 v; const void* self;
        ElAs() : v(-1), self(this) { born(this); }
        ElAs(i64 x) : v(x), self(this) { born(this); }
        ElAs(const ElAs&) = delete;
        ElAs& operator=(const ElAs& o) { used(&o, "assigns from"); used(this, "assigns to"); v = o.v; return *this; }
        ~ElAs() { died(this); v = -3; }
        i64 val() const { used(this, "reads"); SIM_CHECK(self == this, "relocated", "%s relocates an element without constructing it", g17->op); return v; }
    };
    struct ElAg { El e; i64 w; i64 val() const { return e.val(); } }; // an aggregate
    struct ElNc // neither copy nor default constructible, plain to assign
    {
        i64 v, n;
        ElNc(i64 x) : v(x), n(~x) { }
        ElNc(const ElNc&) = delete;
        ElNc& operator=(const ElNc&) = default;
        i64 val() const { return n == ~v ? v : -9; }
    };
    struct ElIv { i64 v = -1, n = 0; ElIv() = default; ElIv(i64 x) : v(x), n(~x) { } i64 val() const { return n == ~v ? v : -9; } }; // plain but for its member values
    i64 val(i64 v) { return v; }
    i64 val(int v) { return v; }
    template<class T> i64 val(const T& e) { return e.val(); }
    int arg_of(int*); i64 arg_of(...);
}

// ------------------------------------------------------------------------------------------------ C15
namespace
{
    struct DictWorld
    {
        Lock lock;
        virtual ~DictWorld() { }
        virtual void init() = 0;
        virtual void bind(u64 key, u64 v, int how) = 0;     // under the exclusive lock
        virtual void look(u64 key, int how) = 0;            // under the shared lock
        virtual void finish() = 0;
    };
    // keys that differ only in their high or low bits, negative and extreme ones
    int g_keymap = 0;
    template<class K> K mkkey(u64 k)
    {
        constexpr int bits = int(sizeof(K) * 8);
        switch (g_keymap)
        {
        case 1: return K(k << (bits - 13));
        case 2: return K(0 - k);
        case 3: return K(~k);
        case 4: return K(k & 1 ? k >> 1 : ~u64(0) - (k >> 1));
        case 5: return K((k & 3) << (bits / 2) | k >> 2);
        default: return K(k);
        }
    }
    template<> double mkkey<double>(u64 k) { return k ? double(i64(k) - 20) / 8 + (k == 20 ? 100 : 0) : g_keymap & 1 ? -0.0 : 0.0; }
    bool same(const El& a, i64 b) { return a.val() == b; }
    template<class T> struct ValArg { static T mk(u64 v) { return ::mk<T>(v); } };
    template<> struct ValArg<El> { static i64 mk(u64 v) { return i64(v); } };
    enum class Ek : u16 { };
    template<> const char* mkkey<const char*>(u64 k) { static const char* const names[] = { "", "a", "bb", "ccc", "dddd" }; return k == 0 ? nullptr : k < 6 ? names[k - 1] : reinterpret_cast<const char*>(size_t(k) * 8); }
    template<int N, class T, class K, bool Tracked = false> struct DictW : DictWorld
    {
        typedef ce::dictionary<N, T, K> D;
        typedef typename D::ptr_t Ptr;
        D* d;
        struct Ent { Ptr p; T* at; u64 v; };
        std::map<u64, Ent> m; std::unordered_set<size_t> taken;
        void init() override { g17->op = "construction"; d = raw<D>(); new (d) D{ }; alive(); }
        void alive() // every value slot of the dictionary holds exactly one living value, nothing else is left over
        {
            if (Tracked) SIM_CHECK(g17->live.size() == size_t(N), "lifetime", "after %s %zu values are alive in a dictionary of %d value slots", g17->op, g17->live.size(), N);
        }
        void finish() override
        {
            g17->op = "destruction"; d->~D();
            SIM_CHECK(g17->live.empty(), "leak", "%zu values are still alive after the dictionary was destroyed", g17->live.size());
        }
        void check(u64 key, Ptr p, const char* who)
        {
            auto it = m.find(key);
            SIM_CHECK((p != Ptr::nil) == (it != m.end()), "wrong-find", "%s: key %llu is %s but is %s", who, (unsigned long long)key, p != Ptr::nil ? "found" : "not found", it != m.end() ? "bound" : "not bound");
            if (it == m.end()) return;
            SIM_CHECK(p == it->second.p, "moved", "%s: the entry reference of key %llu changed", who, (unsigned long long)key);
            const D& c = *d;
            SIM_CHECK(&c[p] == it->second.at, "moved", "%s: the entry of key %llu moved", who, (unsigned long long)key);
            SIM_CHECK(same(c[p], ValArg<T>::mk(it->second.v)), "wrong-value", "%s: key %llu refers to a value that is not the latest bound one", who, (unsigned long long)key);
        }
        void bind(u64 key, u64 v, int how) override
        {
            size_t before = d->size; bool known = m.count(key);
            g17->op = "bind";
            Ptr p = d->bind(mkkey<K>(key), ValArg<T>::mk(v)); probe("binds"); alive();
            bool full = m.size() >= size_t(N - 1);
            if (!known && full)
            {
                probe("binds_when_full");
                SIM_CHECK(p == Ptr::nil, "overfull", "binding key %llu succeeded with all %d entries in use", (unsigned long long)key, N - 1);
                SIM_CHECK(d->size == before, "changed", "a failed bind changed the size");
                return;
            }
            SIM_CHECK(p != Ptr::nil, "bind-failed", "binding key %llu failed with %zu of %d keys bound", (unsigned long long)key, m.size(), N - 1);
            if (known)
            {
                probe("rebinds");
                SIM_CHECK(d->size == before, "changed", "rebinding key %llu changed the size from %zu to %zu", (unsigned long long)key, before, size_t(d->size));
                SIM_CHECK(p == m[key].p, "moved", "rebinding key %llu changed its entry reference", (unsigned long long)key);
                m[key].v = v;
            }
            else
            {
                if (N < 1000) for (auto& e : m) SIM_CHECK(e.second.p != p, "aliased", "keys %llu and %llu share an entry", (unsigned long long)e.first, (unsigned long long)key);
                else SIM_CHECK(taken.insert(size_t(p)).second, "aliased", "two keys share an entry");
                SIM_CHECK(size_t(p) < size_t(N), "bad-entry", "entry reference out of range");
                m[key] = { p, &(*d)[p], v };
            }
            if (how & 1) { u64 v2 = v * 31 + 7; (*d)[p] = ValArg<T>::mk(v2); m[key].v = v2; } // update in place through the reference
            check(key, d->find(mkkey<K>(key)), "bind");
        }
        void look(u64 key, int how) override
        {
            const D& c = *d;
            check(key, c.find(mkkey<K>(key)), "find"); probe("finds"); if (key == 0) probe("finds_of_zero");
            if ((how & 1) && m.count(key)) SIM_CHECK(same(c[c.find(mkkey<K>(key))], ValArg<T>::mk(m[key].v)), "wrong-value", "lookup by reference");
            if (how & 2) for (auto& e : m) check(e.first, c.find(mkkey<K>(e.first)), "scan");
        }
    };
    constexpr int NDICT = 18, BIGDICT = 13, HUGEDICT = 17;
    DictWorld* make_dict(i64 k)
    {
        switch (k)
        {
        case 0: return new DictW<2, u64, u32>;
        case 1: return new DictW<3, Rec, u64>;
        case 2: return new DictW<5, Rec, int>;
        case 3: return new DictW<9, u64, EX(Ek, u16)>;
        case 4: return new DictW<6, Byte3, EX(const char*, u8)>;
        case 5: return new DictW<17, u32, u64>;
        case 6: return new DictW<33, Rec, u32>;
        case 7: return new DictW<1, u64, u32>;
        case 8: return new DictW<4, El, u32, true>;
        case 9: return new DictW<9, El, u64, true>;
        case 10: return new DictW<12, Rec, i64>;
        case 11: return new DictW<24, u32, EX(Ek, u32)>;
        case 12: return new DictW<8, Rec, EX(double, u64)>;
        case 13: return new DictW<300, u32, u32>;
        case 14: return new DictW<260, El, u64, true>;
        case 15: return new DictW<256, u64, EX(i64, u64)>;
        case 16: return new DictW<257, Rec, u32>;
        default: return new DictW<5003, u64, u32>;
        }
    }
}

SIM_PROP(C15, "clients bind and look up keys (zero included) in one dictionary under a shared lock")
void gen_C15(Rng& g, Scn& s, u64 idx)
{
    bool huge = idx % 60000 == 7, big = huge || idx % 300 == 7;
    s.set("dict", huge ? HUGEDICT : big ? i64(g.range(BIGDICT, HUGEDICT - 1)) : i64(g.below(BIGDICT))); s.set("keymap", g.chance(1, 2) ? 0 : i64(g.below(6)));
    s.set("stall", g.chance(1, 4) ? i64(g.below(2000)) : 0);
    s.set("keys", huge ? i64(g.range(4200, 5200)) : big ? i64(g.range(200, 400)) : i64(g.range(1, 40)));
    u64 wr = g.range(1, 3);
    fill_ops(g, s, int(g.range(2, 4)), 3, 16, [&](int, int) { Op o{}; o.code = g.chance(1, huge ? 3 : big ? 8 : 200) ? 2 : g.below(4) < wr; o.a[0] = i64(g.below(huge ? 5200 : big ? 400 : 40)); o.a[1] = i64(g.next() >> 44); o.a[2] = huge ? i64(g.below(2)) : i64(g.below(8)); return o; });
}
void run_C15(const Scn& s)
{
    no_traps(); stalls(s);
    auto reg = std::make_unique<Registry>(); g17 = reg.get();
    std::unique_ptr<DictWorld> w(make_dict(s.get("dict", 0, NDICT - 1)));
    if (s.get("dict", 0, NDICT - 1) >= BIGDICT) step_cap(400000000);
    u64 keys = u64(s.get("keys", 1, 5200)), next = 0, burst = 0; g_keymap = int(s.get("keymap", 0, 5));
    spawn([&] {
        w->init(); Token t = publish();
        for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
            spawn([&, f, t] {
                observe(t); int n = 0;
                for (auto& o : s.fib[f])
                {
                    if (++n > 40) break;
                    u64 key = u64(o.a[0]) % keys;
                    if (o.code & 2) { w->lock.acquire(); for (u64 k = 0; k < keys; k += 1 + u64(o.a[2])) { if (++burst > 12000) break; w->bind((key + k) % keys, 77 + ++next * 65539, 0); } w->lock.release(); probe("bind_bursts"); }
                    else if (o.code & 1) { w->lock.acquire(); w->bind(key, 77 + ++next * 65539, int(o.a[2])); w->lock.release(); }
                    else { w->lock.acquire_shared(); w->look(key, int(o.a[2])); w->lock.release_shared(); }
                }
            });
    });
    run_all();
    reset_fibers();
    spawn([&] { for (u64 k = 0; k < keys; ++k) w->look(k, keys > 40 ? 1 : 3); w->finish(); });
    run_all();
}

// ------------------------------------------------------------------------------------------------ C16
namespace
{
#ifdef PLAIN_TYPES
#define ORDER(T) friend bool operator>(T a, T b) { return b < a; } friend bool operator<=(T a, T b) { return !(b < a); } friend bool operator>=(T a, T b) { return !(a < b); } friend bool operator==(T a, T b) { return !(a < b) && !(b < a); } friend bool operator!=(T a, T b) { return a < b || b < a; }
#else
#define ORDER(T) // an item needs no more than <
#endif
    struct Timer { u64 due; u32 id; u32 chk; bool operator<(const Timer& o) const { return due < o.due; } ORDER(Timer) };
    struct SmallT { u8 due; u8 id; bool operator<(const SmallT& o) const { return due < o.due; } ORDER(SmallT) };
    struct TimerWorld
    {
        Lock lock; std::multimap<u64, u64> m;   // key -> id
        virtual ~TimerWorld() { }
        virtual size_t cap() const = 0;
        virtual void init() = 0;
        virtual bool put(u64 key, u64 id) = 0;
        virtual std::pair<u64, u64> take() = 0;
        virtual std::pair<u64, u64> peek() = 0;
        virtual bool empty() = 0;
        virtual u64 key(u64 k) = 0;
        virtual bool ids() = 0;
        void arm(u64 k, u64 id)
        {
            k = key(k); if (!ids()) id = 0; bool full = m.size() == cap();
            bool ok = put(k, id); probe("armed");
            SIM_CHECK(ok == !full, "capacity", "enqueue %s with %zu of %zu items present", ok ? "succeeded" : "failed", m.size(), cap());
            if (ok) m.emplace(k, id); else probe("enqueues_when_full");
            look();
        }
        void look()
        {
            SIM_CHECK(empty() == m.empty(), "lost-item", "the queue says %s with %zu items present", empty() ? "empty" : "not empty", m.size());
            if (!m.empty()) { auto p = peek(); check(p, "head"); }
        }
        void check(std::pair<u64, u64> p, const char* what)
        {
            SIM_CHECK(p.first == m.begin()->first, "wrong-order", "%s gives key %llu while %llu is present (%zu items)", what, (unsigned long long)p.first, (unsigned long long)m.begin()->first, m.size());
            auto r = m.equal_range(p.first);
            for (auto i = r.first; i != r.second; ++i) if (i->second == p.second) return;
            fail("not-present", "%s gives an item that is not present (lost, repeated or mixed up)", what);
        }
        u64 fire()
        {
            auto p = take(); probe("fired"); check(p, "dequeue");
            auto r = m.equal_range(p.first);
            for (auto i = r.first; i != r.second; ++i) if (i->second == p.second) { m.erase(i); break; }
            look();
            return p.first;
        }
    };
    template<class T> struct Conv;
    template<> struct Conv<Timer> { static Timer mk(u64 k, u64 id) { return { k, u32(id), u32(k * 31 + id) }; } static std::pair<u64, u64> un(Timer t) { SIM_CHECK(t.chk == u32(t.due * 31 + t.id), "not-present", "an item came out mangled"); return { t.due, t.id }; } static u64 key(u64 k) { return k; } static bool ids() { return true; } };
    template<> struct Conv<SmallT> { static SmallT mk(u64 k, u64 id) { return { u8(k), u8(id) }; } static std::pair<u64, u64> un(SmallT t) { return { t.due, t.id }; } static u64 key(u64 k) { return u8(k); } static bool ids() { return true; } };
    template<> struct Conv<int> { static int mk(u64 k, u64) { return int(i64(k) - 100); } static std::pair<u64, u64> un(int t) { return { u64(i64(t) + 100), 0 }; } static u64 key(u64 k) { return k & 0xfffff; } static bool ids() { return false; } };
    template<> struct Conv<double> { static double mk(u64 k, u64) { return double(k) / 8; } static std::pair<u64, u64> un(double t) { return { u64(t * 8), 0 }; } static u64 key(u64 k) { return k & 0xfffffff; } static bool ids() { return false; } };
    template<size_t N, class T> struct TimerW : TimerWorld
    {
        typedef ce::min_priority_queue<N, T> Q; Q* q;
        size_t cap() const override { return N; }
        void init() override { q = raw<Q>(); q->size = 0; }
        bool put(u64 k, u64 id) override { return q->enqueue(Conv<T>::mk(k, id)); }
        std::pair<u64, u64> take() override { return Conv<T>::un(q->dequeue()); }
        std::pair<u64, u64> peek() override { return Conv<T>::un(q->head()); }
        bool empty() override { return q->empty(); }
        u64 key(u64 k) override { return Conv<T>::key(k); }
        bool ids() override { return Conv<T>::ids(); }
    };
    constexpr int NTIM = 12, BIGTIM = 9;
    TimerWorld* make_timers(i64 k)
    {
        switch (k)
        {
        case 0: return new TimerW<1, Timer>;
        case 1: return new TimerW<2, Timer>;
        case 2: return new TimerW<3, int>;
        case 3: return new TimerW<4, SmallT>;
        case 4: return new TimerW<7, Timer>;
        case 5: return new TimerW<8, double>;
        case 6: return new TimerW<15, SmallT>;
        case 7: return new TimerW<16, Timer>;
        case 8: return new TimerW<64, Timer>;
        case 9: return new TimerW<300, Timer>;
        case 10: return new TimerW<1100, Timer>;
        default: return new TimerW<70000, int>;
        }
    }
}

SIM_PROP(C16, "producers arm timers, dispatchers fire them in simulated time, consumers drain: against a multimap")
void gen_C16(Rng& g, Scn& s, u64 idx)
{
    bool big = idx % 100 == 7, huge = idx % 4000 == 7;
    s.set("kind", huge ? NTIM - 1 : big ? i64(g.range(BIGTIM, NTIM - 2)) : i64(g.below(BIGTIM)));
    s.set("stall", g.chance(1, 3) ? i64(g.below(4000)) : 0);
    s.set("timers", g.chance(1, 2));
    s.set("span", i64(g.logu(12)));
    u64 w = g.range(2, 6);
    fill_ops(g, s, int(g.range(2, 4)), 4, 28, [&](int, int) { Op o{}; o.code = big && g.chance(1, 4) ? i64(4 + g.below(3) / 2) : g.below(8) < w ? 0 : i64(1 + g.below(3)); o.a[0] = i64(g.next() >> 20); o.a[1] = i64(g.below(6)); return o; });
}
void run_C16(const Scn& s)
{
    no_traps(); stalls(s);
    std::unique_ptr<TimerWorld> w(make_timers(s.get("kind", 0, NTIM - 1)));
    if (s.get("kind", 0, NTIM - 1) >= BIGTIM) step_cap(60000000);
    u64 span = u64(s.get("span", 1, 1 << 20)), next = 0; bool timers = s.get("timers", 0, 1);
    size_t busy = 0; bool started = false;
    spawn([&] {
        w->init(); Token t = publish();
        for (size_t f = 0; f < s.fib.size() && f < 4; ++f)
        {
            ++busy;
            spawn([&, f, t] {
                observe(t); int n = 0;
                for (auto& o : s.fib[f])
                {
                    if (++n > 60) break;
                    u64 k = u64(o.a[0]) % span;
                    switch (clampmod(o.code, 0, 5))
                    {
                    case 4: { w->lock.acquire(); Rng r(u64(o.a[0])); for (u64 i = 1 + r.below(w->cap()); i--;) { u64 k2 = o.a[1] & 1 ? r.below(1 << 20) : r.below(span); w->arm(timers ? now() + k2 : k2, ++next); } w->lock.release(); probe("bursts"); break; }
                    case 5: { w->lock.acquire(); if (!timers) for (u64 i = u64(o.a[0]) % w->cap() + 1; i-- && !w->m.empty();) w->fire(); w->lock.release(); break; }
                    case 0: w->lock.acquire(); w->arm(timers ? now() + k : k, ++next); w->lock.release(); break;
                    case 1: w->lock.acquire(); if (!w->m.empty() && !timers) w->fire(); w->lock.release(); break;
                    case 2: sleep_sim(k % 97); break;
                    default: w->lock.acquire(); if (!timers) for (i64 i = clampmod(o.a[1], 0, 6); i > 0 && !w->m.empty(); --i) w->fire(); w->lock.release(); break;
                    }
                }
                --busy;
            });
        }
        started = true;
        if (timers && w->ids() && w->key(1000) == 1000)
            spawn([&, t] { // the dispatcher: fires whatever is due
                observe(t);
                for (int guard = 0; guard < 4000; ++guard)
                {
                    w->lock.acquire();
                    u64 nap = 5;
                    while (!w->m.empty() && !w->empty())
                    {
                        u64 due = w->peek().first;
                        if (due > now()) { nap = due - now(); break; }
                        u64 d = w->fire(); probe("timers_fired");
                        SIM_CHECK(d <= now(), "early", "a timer fired before it was due");
                    }
                    bool done = busy == 0 && w->m.empty();
                    w->lock.release();
                    if (done) return;
                    sleep_sim(nap > 200 ? 200 : nap);
                }
            });
    });
    run_all();
    reset_fibers();
    spawn([&] { while (!w->m.empty()) w->fire(); SIM_CHECK(w->empty(), "extra-item", "items remain after everything was delivered"); });
    run_all();
}

// ------------------------------------------------------------------------------------------------ C17
namespace
{
    constexpr int NB = 3;
    constexpr i64 ANY = -777;   // a trivially constructed element nobody has assigned yet
    struct BulkWorld
    {
        Lock lock[NB];
        virtual ~BulkWorld() { }
        virtual void init() = 0;
        virtual void op(const Op& o, i64 v) = 0;
        virtual bool two(const Op& o) = 0;
        virtual void finish() = 0;
    };
    template<size_t N, class T, bool Def, bool Tracked, bool Copy = true, bool Known = Tracked> struct BulkW : BulkWorld
    {
        typedef ce::bulk<N, T> B;
        typedef decltype(arg_of(static_cast<T*>(nullptr))) Arg;
        B* b[NB]; std::vector<i64> m[NB];
        void init() override { g17->op = "construction"; for (auto& x : b) { x = raw<B>(); if (!Tracked) memset(static_cast<void*>(x), 0x5b, sizeof *x); new (x) B; } }
        bool two(const Op& o) override { i64 c = clampmod(o.code, 0, 15); return c == 10 || c == 11 || c == 15; }
        void check(int i)
        {
            const B& c = *b[i];
            SIM_CHECK(c.size == m[i].size(), "wrong-size", "after %s the size is %zu instead of %zu", g17->op, size_t(c.size), m[i].size());
            SIM_CHECK(c.room() == N - m[i].size() && B::capacity() == N && size_t(c.end() - c.begin()) == m[i].size(), "wrong-size", "after %s room or range are wrong", g17->op);
            B& nc = *b[i];
            auto s1 = make_span(nc); auto s2 = make_span(c);
            SIM_CHECK(nc.begin() == c.begin() && nc.end() == c.end() && s1.size == c.size && s2.size == c.size && s1.data == c.begin() && s2.data == c.begin() && &nc[0] == c.begin() && &c[0] == c.begin(), "wrong-range", "after %s the ranges and spans of the container do not agree", g17->op);
            if (c.size) SIM_CHECK(&c.back() == c.begin() + (m[i].size() - 1) && &nc.back() == &c.back(), "wrong-range", "after %s back() is not the last element", g17->op);
            size_t k = 0;
            for (auto& e : c)
            {
                i64 got = val(e);
                if (m[i][k] == ANY) m[i][k] = got;
                SIM_CHECK(got == m[i][k], "wrong-content", "after %s element %zu of %zu is %lld instead of %lld", g17->op, k, m[i].size(), (long long)got, (long long)m[i][k]);
                ++k;
            }
            if (Tracked)
            {
                const T* base = c.begin(); // exactly the elements within the size are alive
                for (size_t j = 0; j < N; ++j) SIM_CHECK(g17->live.count(base + j) == (j < m[i].size()), "lifetime", "after %s element slot %zu of size %zu is %s", g17->op, j, m[i].size(), g17->live.count(base + j) ? "alive" : "not alive");
            }
        }
        void op(const Op& o, i64 v) override
        {
            int i = int(clampmod(o.a[0], 0, NB - 1)), j = int(clampmod(o.a[1], 0, NB - 1));
            auto& x = *b[i]; auto& r = m[i];
            size_t n = size_t(u64(o.a[2]) % (N + 3)); if (o.a[3]) n = ~size_t(0) - size_t(u64(o.a[3]) % (N + 3));
            switch (clampmod(o.code, 0, 16))
            {
            case 16: if (o.a[3]) break; for (size_t k = 0; k < n; ++k) { g17->op = "append"; bool ok = x.append(Arg(v + i64(k) * 100000)); SIM_CHECK(ok == (r.size() < N), "wrong-result", "append returned %d at size %zu of %zu", ok, r.size(), N); if (!ok) break; r.push_back(v + i64(k) * 100000); } break;
            case 0: case 1: case 2: { g17->op = "append"; bool ok = x.append(Arg(v)); SIM_CHECK(ok == (r.size() < N), "wrong-result", "append returned %d at size %zu of %zu", ok, r.size(), N); if (ok) r.push_back(v); else probe("fails_at_capacity"); break; }
            case 3: if constexpr (Def) { g17->op = "append_n"; bool ok = n == 1 ? x.append_n() : x.append_n(n); SIM_CHECK(ok == (n <= N - r.size()), "wrong-result", "append_n(%zu) returned %d at size %zu of %zu", n, ok, r.size(), N); if (ok) r.resize(r.size() + n, Known ? -1 : ANY); else probe("fails_at_capacity"); } break;
            case 4: case 5: if constexpr (Def) { g17->op = "resize"; bool ok = x.resize(n); SIM_CHECK(ok == (n <= N), "wrong-result", "resize(%zu) returned %d with capacity %zu", n, ok, N); if (ok) r.resize(n, Known ? -1 : ANY); else probe("fails_at_capacity"); } break;
            case 6: g17->op = "clear"; x.clear(); r.clear(); break;
            case 7: { g17->op = "unordered removal"; bool ok = x.remove_at(n); SIM_CHECK(ok == (n < r.size()), "wrong-result", "remove_at(%zu) returned %d at size %zu", n, ok, r.size()); if (ok) { r[n] = r.back(); r.pop_back(); } else probe("fails_out_of_range"); break; }
            case 8: case 9: { g17->op = "ordered removal"; bool ok = x.template remove_at<true>(n); SIM_CHECK(ok == (n < r.size()), "wrong-result", "remove_at<true>(%zu) returned %d at size %zu", n, ok, r.size()); if (ok) r.erase(r.begin() + long(n)); else probe("fails_out_of_range"); break; }
            case 10: case 11: { g17->op = "copy assignment"; x = *b[j]; r = m[j]; check(j); probe("copy_assignments"); break; }
            case 12: { g17->op = "destruction"; x.~B(); new (&x) B; r.clear(); break; }
            case 13: if (!r.empty()) { g17->op = "element assignment"; x[n % r.size()] = T{ Arg(v) }; r[n % r.size()] = v; } break;
            case 14: if constexpr (Copy) { g17->op = "append of an own element"; if (!r.empty() && r.size() < N && r[n % r.size()] != ANY) { i64 e = r[n % r.size()]; bool ok = x.append(x[n % r.size()]); SIM_CHECK(ok, "wrong-result", "append failed below capacity"); r.push_back(e); } break; }
            default: if (i != j) { g17->op = "copy construction"; x.~B(); memset(static_cast<void*>(&x), int(v) & 255, sizeof x); new (&x) B(*b[j]); r = m[j]; check(j); probe("copy_constructions"); } break;
            }
            probe("ops"); check(i);
        }
        void finish() override
        {
            for (int i = 0; i < NB; ++i) { check(i); g17->op = "destruction"; b[i]->~B(); }
            SIM_CHECK(g17->live.empty(), "leak", "%zu elements are still alive after everything was destroyed", g17->live.size());
        }
    };
    constexpr int NBULK = 17, BIGBULK = 14;
    BulkWorld* make_bulk(i64 k)
    {
        switch (k)
        {
        case 0: return new BulkW<1, El, true, true>;
        case 1: return new BulkW<2, EX(ElNd, El), EX(false, true), true>;
        case 2: return new BulkW<5, El, true, true>;
        case 3: return new BulkW<6, EX(ElNd, El), EX(false, true), true>;
        case 4: return new BulkW<4, i64, true, false>;
        case 5: return new BulkW<9, ElDef, true, true>;
        case 6: return new BulkW<7, int, true, false>;
        case 7: return new BulkW<16, EX(ElNd, El), EX(false, true), true>;
        case 8: return new BulkW<5, EX(ElAs, El), true, true, false>;
        case 9: return new BulkW<3, EX(ElNc, ElIv), false, false, false>;
        case 10: return new BulkW<4, EX(ElAg, El), true, true>;
        case 11: return new BulkW<5, ElIv, true, false, true, true>;
        case 12: return new BulkW<9, ElIv, true, false, true, true>;
        case 13: return new BulkW<8, EX(ElAs, El), true, true, false>;
        case 14: return new BulkW<300, i64, true, false>;
        case 15: return new BulkW<260, El, true, true>;
        default: return new BulkW<270, EX(ElNd, El), EX(false, true), true>;
        }
    }
}

SIM_PROP(C17, "clients work on three bulk containers of lifetime-tracked elements, against reference sequences")
void gen_C17(Rng& g, Scn& s, u64 idx)
{
    bool big = idx % 100 == 7;
    s.set("kind", big ? i64(g.range(BIGBULK, NBULK - 1)) : i64(g.below(BIGBULK)));
    s.set("stall", g.chance(1, 4) ? i64(g.below(2000)) : 0);
    fill_ops(g, s, int(g.range(2, 4)), 3, 20, [&](int, int) { Op o{}; o.code = i64(g.below(16)); o.a[0] = i64(g.below(NB)); o.a[1] = i64(g.below(NB)); o.a[2] = i64(g.below(big ? 900 : 64)); o.a[3] = g.chance(1, 12) ? 1 + i64(g.below(big ? 900 : 64)) : 0; if (big && g.chance(1, 6)) o.code = 16; return o; });
}
void run_C17(const Scn& s)
{
    no_traps(); stalls(s);
    auto reg = std::make_unique<Registry>(); g17 = reg.get();
    std::unique_ptr<BulkWorld> w(make_bulk(s.get("kind", 0, NBULK - 1)));
    if (s.get("kind", 0, NBULK - 1) >= BIGBULK) step_cap(60000000);
    i64 next = 0;
    Lock all;   // one lock: the registry names the operation in progress
    spawn([&] {
        w->init(); Token t = publish();
        for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
            spawn([&, f, t] {
                observe(t); int n = 0;
                for (auto& o : s.fib[f])
                {
                    if (++n > 40) break;
                    all.acquire(); w->op(o, 100 + ++next); all.release();
                }
            });
    });
    run_all();
    reset_fibers();
    spawn([&] { w->finish(); });
    run_all();
}
