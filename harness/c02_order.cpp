// C02 sequential consistency across several atomics, and publication of plain data.
#include "common.h"
#include "ce/atomic.h"
#include <type_traits>
using namespace h;
#ifdef ATOMIC_MSVC // has no bitwise operations
namespace ce { template<class T> T atomic_fetch_xor(atomic<T>& a, T) { return atomic_load(a); } template<class T> T atomic_fetch_or(atomic<T>& a, T) { return atomic_load(a); } template<class T> T atomic_fetch_and(atomic<T>& a, T) { return atomic_load(a); } }
#define BITWISE false
#else
#define BITWISE true
#endif

namespace
{
    enum { LOAD, STORE, XCHG, CASOK, CASFAIL, ADD, SUB, XOR, OR, AND, NOPS };
    const char* const opn[] = { "load", "store", "exchange", "cas", "cas-stale", "fetch_add", "fetch_sub", "fetch_xor", "fetch_or", "fetch_and" };
    constexpr int NV = 4;
    struct Rec { int f, op, var; i64 arg, exp, out; bool ok; };

    template<class T> struct Cells { ce::atomic<T>* a[NV]; };
    // two halves that must agree: a torn value is none of the values ever stored
    template<class E> struct Pair { E a, b; bool operator==(const Pair& o) const { return a == o.a && b == o.b; } };
    // an aggregate with arithmetic of its own
    struct Num { i64 n; bool operator==(const Num& o) const { return n == o.n; } };
    Num operator+(Num a, Num b) { return { a.n + b.n }; }
    Num operator-(Num a, Num b) { return { a.n - b.n }; }
    Num& operator+=(Num& a, Num b) { return a = a + b; }
    Num& operator-=(Num& a, Num b) { return a = a - b; }

    enum Class { C_MEM, C_VAL, C_INT };
    template<class T> struct Tr { static constexpr Class cls = T(0.5f) == T(0) ? C_INT : C_VAL; static i64 to(T v) { return i64(v); } static T from(i64 v) { return T(v); } static T delta(i64 v) { return T(v); } };
    template<> struct Tr<bool> { static constexpr Class cls = C_VAL; static i64 to(bool v) { return v; } static bool from(i64 v) { return v != 0; } static int delta(i64 v) { return int(v); } };
    template<> struct Tr<char*> { static constexpr Class cls = C_VAL; static i64 to(char* v) { return i64(u64(v)); } static char* from(i64 v) { return reinterpret_cast<char*>(u64(v)); } static i64 delta(i64 v) { return v; } };
    template<class E> struct Tr<Pair<E>> { static constexpr Class cls = C_MEM; static i64 to(Pair<E> v) { return v.b == E(~v.a) ? i64(v.a) : -12345; } static Pair<E> from(i64 v) { return { E(v), E(~E(v)) }; } };
    template<> struct Tr<Num> { static constexpr Class cls = C_VAL; static i64 to(Num v) { return v.n; } static Num from(i64 v) { return { v }; } static Num delta(i64 v) { return { v }; } };
    template<class T> i64 as_int(T v) { return Tr<T>::to(v); }
    template<class T> T from_int(i64 v) { return Tr<T>::from(v); }
#ifdef ATOMIC_MSVC
    template<class T> constexpr bool can_cas = sizeof(T) <= 8 && !(sizeof(T) & (sizeof(T) - 1));
    template<class T> constexpr bool can_add = Tr<T>::cls != C_MEM && !std::is_same<T, bool>::value;
#else
    template<class T> constexpr bool can_cas = true;
    template<class T> constexpr bool can_add = Tr<T>::cls != C_MEM;
#endif
    template<class T> int usable(int op)
    {
        if (op >= XOR && Tr<T>::cls != C_INT) return LOAD;
        if ((op == ADD || op == SUB) && !can_add<T>) return LOAD;
        if ((op == CASOK || op == CASFAIL) && !can_cas<T>) return op == CASOK ? LOAD : XCHG;
        return op;
    }

    template<class T> Rec exec(Cells<T>& c, const Op& o, i64 uniq, i64 last, bool small)
    {
        Rec r{}; r.f = self(); r.op = int(clampmod(o.code, 0, NOPS - 1)); r.var = int(clampmod(o.a[0], 0, NV - 1));
        r.op = usable<T>(r.op);
        i64 few = clampmod(o.a[2], 0, 3); // small: few values, so that writes often store what is already there
        r.arg = as_int(from_int<T>(small ? few : uniq)); r.ok = true;
        auto& a = *c.a[r.var];
        switch (r.op)
        {
        case LOAD: r.out = as_int(ce::atomic_load(a)); break;
        case STORE: ce::atomic_store(a, from_int<T>(r.arg)); break;
        case XCHG: r.out = as_int(ce::atomic_exchange(a, from_int<T>(r.arg))); break;
        case CASOK: case CASFAIL:
        {
            r.exp = as_int(from_int<T>(r.op == CASOK ? last : small ? (few + 1) % 3 : -7));
            T e = from_int<T>(r.exp);
            if constexpr (can_cas<T>) r.ok = ce::atomic_compare_exchange(a, e, from_int<T>(r.arg));
            r.out = as_int(e);
            break;
        }
        case ADD: r.arg = small ? few : 0; if constexpr (can_add<T>) r.out = as_int(ce::atomic_fetch_add(a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(r.arg)))); break;
        case SUB: r.arg = small ? few : 0; if constexpr (can_add<T>) r.out = as_int(ce::atomic_fetch_sub(a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(r.arg)))); break;
        default:
            if constexpr (Tr<T>::cls == C_INT)
            {
                r.arg = small && BITWISE ? few : r.op == AND ? -1 : 0;
                if (r.op == XOR) r.out = as_int(ce::atomic_fetch_xor(a, T(r.arg)));
                else if (r.op == OR) r.out = as_int(ce::atomic_fetch_or(a, T(r.arg)));
                else r.out = as_int(ce::atomic_fetch_and(a, T(r.arg)));
            }
        }
        return r;
    }
    template<class T> bool step(i64* mem, const Rec& r)
    {
        i64& m = mem[r.var];
        switch (r.op)
        {
        case STORE: m = r.arg; return true;
        case LOAD: return r.out == m;
        case ADD: case SUB: case XOR: case OR: case AND: if (r.out != m) return false; m = r.op == ADD ? m + r.arg : r.op == SUB ? m - r.arg : r.op == XOR ? m ^ r.arg : r.op == OR ? m | r.arg : m & r.arg; m = as_int(from_int<T>(m)); return true;
        case XCHG: if (r.out != m) return false; m = r.arg; return true;
        default:
            if (r.ok) { if (m != r.exp || r.out != r.exp) return false; m = r.arg; return true; }
            return m != r.exp && r.out == m;
        }
    }
    template<class T> void run_litmus(const Scn& s)
    {
        Cells<T> c;
        bool together = s.get("together", 0, 1);
        i64 init = as_int(from_int<T>(s.get("init", 0, 3)));
        u8* block = static_cast<u8*>(alloc(NV * 16, 16));
        for (int i = 0; i < NV; ++i) { void* p = together ? static_cast<void*>(block + i * 16) : alloc(sizeof(T), 16); c.a[i] = new (p) ce::atomic<T>(from_int<T>(init)); }
        size_t nf = s.fib.size() < 4 ? s.fib.size() : 4; bool small = s.get("small", 0, 1);
        std::vector<std::vector<Rec>> hist(nf);
        for (size_t f = 0; f < nf; ++f)
            spawn([&, f] {
                i64 n = 0; i64 last[NV] = { init, init, init, init };
                for (auto& o : s.fib[f])
                {
                    if (++n > 5) break;
                    int var = int(clampmod(o.a[0], 0, NV - 1));
                    Rec r = exec(c, o, 1 + i64(f) * 8 + n, last[var], small);
                    last[var] = r.op == STORE || r.op == XCHG || ((r.op == CASOK || r.op == CASFAIL) && r.ok) ? r.arg : r.out;
                    if (r.op >= ADD) { i64 m = r.out; Rec k = r; step<T>(&m - k.var, k); last[var] = m; }
                    mix(u64(r.out)); mix(r.ok);
                    hist[f].push_back(r);
                }
            });
        run_all();
        // one total order, consistent with every thread's program order, must explain every result and the final values
        std::set<std::vector<i64>> seen;
        struct L { static bool go(const std::vector<std::vector<Rec>>& h, std::vector<size_t> pos, std::vector<i64> mem, const i64* fin, std::set<std::vector<i64>>& seen)
        {
            std::vector<i64> key(mem); for (auto p : pos) key.push_back(i64(p));
            if (!seen.insert(key).second) return false;
            bool done = true;
            for (size_t f = 0; f < h.size(); ++f)
            {
                if (pos[f] >= h[f].size()) continue;
                done = false;
                auto m = mem;
                if (!step<T>(m.data(), h[f][pos[f]])) continue;
                auto p = pos; p[f]++;
                if (go(h, p, m, fin, seen)) return true;
            }
            if (!done) return false;
            for (int i = 0; i < NV; ++i) if (mem[size_t(i)] != fin[i]) return false;
            return true;
        } };
        i64 fv[NV]; for (int i = 0; i < NV; ++i) fv[i] = as_int(ce::atomic_load(*c.a[i]));
        if (!L::go(hist, std::vector<size_t>(nf), std::vector<i64>(NV, init), fv, seen))
        {
            std::string d;
            for (auto& h : hist) { for (auto& r : h) { d += " T" + std::to_string(r.f) + "." + opn[r.op] + "(x" + std::to_string(r.var); if (r.op == STORE || r.op == XCHG || r.op >= ADD) d += "," + std::to_string(r.arg); if (r.op == CASOK || r.op == CASFAIL) d += "," + std::to_string(r.exp) + "->" + std::to_string(r.arg) + (r.ok ? " ok" : " no"); d += ")"; if (r.op != STORE) d += "=" + std::to_string(r.out); } d += ";"; }
            fail("not-sc", "no single total order of the operations explains the results:%s final %lld %lld %lld %lld", d.c_str(), (long long)fv[0], (long long)fv[1], (long long)fv[2], (long long)fv[3]);
        }
    }

    // publication: writers put plain data in place, then publish through an atomic write; readers that see the written
    // value with any atomic operation must see the data, without a race
    template<class T> void run_publish(const Scn& s)
    {
        auto a = new (alloc(sizeof(ce::atomic<T>), 16)) ce::atomic<T>(from_int<T>(0));
        constexpr int SLOTS = 32;
        struct P { u64 w[2]; };
        P* data = static_cast<P*>(alloc(sizeof(P) * SLOTS, 16, 0));
        size_t nf = s.fib.size() < 4 ? s.fib.size() : 4;
        for (size_t f = 0; f < nf; ++f)
            spawn([&, f] {
                i64 n = 0, known = 0;
                auto saw = [&](i64 v) {
                    if (v == 0) return;
                    SIM_CHECK(v > 0 && v < SLOTS, "torn-value", "an atomic read returned %lld, never written", (long long)v);
                    known = v;
                    u64 x = rd(&data[v].w[0]), y = rd(&data[v].w[1]);
                    probe("published_reads");
                    SIM_CHECK(x == u64(v) * 77 && y == ~(u64(v) * 77), "stale-publication", "a thread read published value %lld but not the data written before it", (long long)v);
                };
                for (auto& o : s.fib[f])
                {
                    if (++n > 6) break;
                    int op = int(clampmod(o.code, 0, NOPS - 1));
                    op = usable<T>(op);
                    i64 id = 1 + i64(f) * 7 + n;
                    bool writes = op == STORE || op == XCHG || op == CASOK || op == CASFAIL;
                    if (writes) { wr(&data[id].w[0], u64(id) * 77); wr(&data[id].w[1], ~(u64(id) * 77)); }
                    if (op == LOAD) saw(as_int(ce::atomic_load(*a)));
                    else if (op == STORE) ce::atomic_store(*a, from_int<T>(id));
                    else if (op == XCHG) saw(as_int(ce::atomic_exchange(*a, from_int<T>(id))));
                    else if (op == CASOK || op == CASFAIL)
                    {
                        T e = from_int<T>(op == CASOK ? known : 0x55);
                        bool ok = false;
                        if constexpr (can_cas<T>) ok = ce::atomic_compare_exchange(*a, e, from_int<T>(id));
                        saw(as_int(e)); if (ok && op == CASFAIL) fail("bad-cas", "a compare-exchange succeeded against a value never stored");
                    }
                    else if (op == ADD) { if constexpr (can_add<T>) saw(as_int(ce::atomic_fetch_add(*a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(0))))); }
                    else if (op == SUB) { if constexpr (can_add<T>) saw(as_int(ce::atomic_fetch_sub(*a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(0))))); }
                    else if constexpr (Tr<T>::cls == C_INT)
                    {
                        if (op == XOR) saw(as_int(ce::atomic_fetch_xor(*a, T(0)))); else if (op == OR) saw(as_int(ce::atomic_fetch_or(*a, T(0)))); else saw(as_int(ce::atomic_fetch_and(*a, T(-1))));
                    }
                }
            });
        run_all();
    }

    // one-shot hand-over by every read-modify-write kind: writer i contributes its slot, then bumps with one fetch kind;
    // whoever observes k contributions with any operation may read the first k contributors' data
    template<class T> void run_rmw_publish(const Scn& s)
    {
        auto a = new (alloc(sizeof(ce::atomic<T>), 16)) ce::atomic<T>(from_int<T>(0));
        size_t nf = s.fib.size() < 4 ? s.fib.size() : 4;
        u64* data = static_cast<u64*>(alloc(sizeof(u64) * 8, 16, 0));
        int kind = int(s.get("kind", 0, 4));
        if (!BITWISE || Tr<T>::cls != C_INT) kind = kind & 1;
        for (size_t f = 0; f < nf; ++f)
            spawn([&, f] {
                i64 bit = 1 << f;
                auto saw = [&](T v) { i64 m = as_int(v); m = kind == 1 ? -m : kind == 4 ? ~m & 15 : m; for (size_t i = 0; i < nf; ++i) if (i != f && (m >> i & 1)) { SIM_CHECK(rd(&data[i]) == i + 100, "stale-publication", "contribution %zu is visible but its data is not", i); probe("published_reads"); } };
                wr(&data[f], u64(f + 100));
                T old = from_int<T>(0);
                switch (kind)
                {
                case 0: if constexpr (can_add<T>) old = ce::atomic_fetch_add(*a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(bit))); break;
                case 1: if constexpr (can_add<T>) old = ce::atomic_fetch_sub(*a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(bit))); break;
                default:
                    if constexpr (Tr<T>::cls == C_INT)
                    {
                        if (kind == 2) old = ce::atomic_fetch_or(*a, T(bit));
                        else if (kind == 3) old = ce::atomic_fetch_xor(*a, T(bit));
                        else { T m = T(15 & ~(1 << f)); ce::atomic_fetch_xor(*a, T(0)); old = ce::atomic_fetch_and(*a, m); }
                    }
                }
                if (kind != 4) saw(old);
                for (size_t i = 0; i < s.fib[f].size() && i < 4; ++i) if (kind != 4) saw(ce::atomic_load(*a));
            });
        run_all();
    }
    // a flag: the first thread writes data and raises it; whoever sees it raised, by any operation, may read the data
    void run_flag(const Scn& s)
    {
        auto a = new (alloc(sizeof(ce::atomic<bool>), 16)) ce::atomic<bool>(false);
        u64* data = static_cast<u64*>(alloc(16, 16, 0));
        size_t nf = s.fib.size() < 4 ? s.fib.size() : 4;
        for (size_t f = 0; f < nf; ++f)
            spawn([&, f] {
                if (f == 0) { wr(&data[0], u64(77)); wr(&data[1], u64(78)); }
                auto saw = [&](bool v) { if (v) { probe("published_reads"); SIM_CHECK(rd(&data[0]) == 77 && rd(&data[1]) == 78, "stale-publication", "the flag is up but the data written before it is not visible"); } };
                size_t n = 0;
                for (auto& o : s.fib[f])
                {
                    if (++n > 5) break;
                    int op = usable<bool>(int(clampmod(o.code, 0, NOPS - 1)));
                    bool e;
                    if (f == 0) switch (op)
                    {
                    case XCHG: saw(ce::atomic_exchange(*a, true)); break;
                    case CASOK: case CASFAIL: e = false; saw(ce::atomic_compare_exchange(*a, e, true) ? false : e); break;
                    case ADD: if constexpr (can_add<bool>) saw(ce::atomic_fetch_add(*a, 1)); break;
                    default: ce::atomic_store(*a, true);
                    }
                    else switch (op)
                    {
                    case XCHG: saw(ce::atomic_exchange(*a, false)); break;
                    case CASOK: e = true; saw(ce::atomic_compare_exchange(*a, e, true) ? true : e); break;
                    case CASFAIL: e = false; saw(ce::atomic_compare_exchange(*a, e, false) ? false : e); break;
                    case ADD: if constexpr (can_add<bool>) saw(ce::atomic_fetch_add(*a, 0)); break;
                    case SUB: if constexpr (can_add<bool>) saw(ce::atomic_fetch_sub(*a, 0)); break;
                    default: saw(ce::atomic_load(*a));
                    }
                }
            });
        run_all();
    }
    template<class T> void run_mode(const Scn& s) { i64 m = s.get("mode", 0, 2); if (!can_add<T> && m == 2) m = 1; if (m > 0 && std::is_same<T, bool>::value) return run_flag(s); if (m == 0) run_litmus<T>(s); else if (m == 1) run_publish<T>(s); else run_rmw_publish<T>(s); }
}

namespace
{
    // the classic two- to four-thread shapes, every access made by an operation kind of its own
    void litmus(Rng& g, Scn& s)
    {
        static const char* const shapes[] = {
            "Wx Ry|Wy Rx", "Wx Wy|Ry Rx", "Rx Wy|Ry Wx", "Wx|Wy|Rx Ry|Ry Rx", "Wx|Rx Wy|Ry Rx", "Wx Wy|Wy Wx|Rx Ry", "Wx Wy|Wy Rx", "Wx|Rx Ry|Wy Rx", "Wx Ry|Wy Rz|Wz Rx" };
        // stores, stores and exchanges, everything; reads by loads alone or by anything that reads
        int wmode = int(g.below(3)), rmode = int(g.below(2));
        std::vector<Op> ops; s.fib.clear(); s.fib.emplace_back();
        int map[4] = { 0, 1, 2, 3 }; for (int i = 3; i > 0; --i) std::swap(map[i], map[g.below(u64(i + 1))]);
        for (const char* c = shapes[g.below(g.chance(1, 2) ? 2 : sizeof shapes / sizeof *shapes)]; *c; ++c)
        {
            if (*c == '|') { s.fib.emplace_back(); continue; }
            if (*c == ' ') continue;
            static const int w[] = { STORE, XCHG, CASOK, ADD, SUB, XOR, OR, AND }, r[] = { CASFAIL, ADD, SUB, XOR, OR, AND, CASOK };
            Op o{}; o.a[0] = map[c[1] - 'x']; o.a[1] = 0;
            if (*c == 'W') { o.code = wmode == 0 && g.chance(1, 2) ? STORE : w[g.below(8)]; o.a[2] = g.range(1, 3); }
            else { o.code = rmode == 0 || g.chance(1, 2) ? LOAD : r[g.below(7)]; o.a[2] = o.code == AND ? 3 : 0; }
            s.fib.back().push_back(o); ++c;
        }
        s.set("small", 1);
        s.set("init", g.chance(1, 2) ? 0 : 3);
    }
}
SIM_PROP(C02, "random litmus programs over four atomics plus message-passing programs, under a weak-memory scheduler")
void gen_C02(Rng& g, Scn& s, u64)
{
    i64 m = i64(g.below(8));
    s.set("mode", m < 4 ? 0 : m < 7 ? 1 : 2);
    s.set("type", i64(g.below(14)));
    s.set("kind", i64(g.below(4)));
    s.set("together", i64(g.below(2)));
    s.set("small", i64(g.below(2)));
    if (m < 4 && g.chance(1, 2)) { litmus(g, s); return; }
    int vars = int(g.range(1, 4));
    bool simple = g.chance(1, 2);
    int nf = int(g.range(2, 4));
    fill_ops(g, s, nf, 1, nf == 2 ? 4 : 3, [&](int, int) { Op o{}; o.code = simple ? i64(g.below(2)) : i64(g.below(NOPS)); o.a[0] = i64(g.below(u64(vars))); o.a[1] = i64(g.below(2)); o.a[2] = g.chance(1, 2) ? 0 : i64(g.below(4)); return o; });
}
void run_C02(const Scn& s)
{
    step_cap(100000);
    switch (s.get("type", 0, 13))
    {
    case 0: run_mode<u32>(s); break; case 1: run_mode<u64>(s); break; case 2: run_mode<u8>(s); break;
    case 3: run_mode<float>(s); break; case 4: run_mode<double>(s); break; case 5: run_mode<int16_t>(s); break;
    case 6: run_mode<bool>(s); break; case 7: run_mode<char*>(s); break; case 8: run_mode<Pair<int8_t>>(s); break;
    case 9: run_mode<Pair<int16_t>>(s); break; case 10: run_mode<Pair<int32_t>>(s); break; case 11: run_mode<Pair<i64>>(s); break;
    case 12: run_mode<Num>(s); break; default: run_mode<signed char>(s); break;
    }
}
