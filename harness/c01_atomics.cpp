// C01 atomics are linearizable; C02 atomics are sequentially consistent and publish.
#include "common.h"
#include "ce/atomic.h"
#include <type_traits>
using namespace h;

namespace
{
    enum { LOAD, STORE, XCHG, CAS, ADD, SUB, XOR, AND, OR, NOPS };
    const char* const opname[] = { "load", "store", "exchange", "compare_exchange", "fetch_add", "fetch_sub", "fetch_xor", "fetch_and", "fetch_or" };

    struct S8 { u32 a, b; bool operator==(const S8& o) const { return a == o.a && b == o.b; } };
    struct S16 { u64 a, b; bool operator==(const S16& o) const { return a == o.a && b == o.b; } };
    struct S12 { u32 a[3]; bool operator==(const S12& o) const { return a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2]; } };
    struct S3 { u8 a[3]; bool operator==(const S3& o) const { return a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2]; } };

    // with arithmetic of their own
    template<class E, int N> struct V { E e[N]; bool operator==(const V& o) const { for (int i = 0; i < N; ++i) if (e[i] != o.e[i]) return false; return true; } };
    template<class E, int N> V<E, N> operator+(V<E, N> a, V<E, N> b) { for (int i = 0; i < N; ++i) a.e[i] = E(a.e[i] + b.e[i]); return a; }
    template<class E, int N> V<E, N> operator-(V<E, N> a, V<E, N> b) { for (int i = 0; i < N; ++i) a.e[i] = E(a.e[i] - b.e[i]); return a; }
    template<class E, int N> V<E, N>& operator+=(V<E, N>& a, V<E, N> b) { return a = a + b; }
    template<class E, int N> V<E, N>& operator-=(V<E, N>& a, V<E, N> b) { return a = a - b; }

    enum Class { C_MEM, C_VAL, C_INT };
    template<class T> struct Tr { static constexpr Class cls = C_INT; static T val(i64 i) { if (i == 7) return T(-1); u64 p = u64(i & 7) * 0x1122334455667788ull ^ (i & 8 ? 0x8000000000000001ull * 0x01010101u : 0); return T(p); } using D = int64_t; static D delta(i64 i) { return D(i - 5); } };
    template<> struct Tr<bool> { static constexpr Class cls = C_VAL; static bool val(i64 i) { return i & 1; } using D = int; static D delta(i64 i) { return int(i % 3) - 1; } };
    template<> struct Tr<float> { static constexpr Class cls = C_VAL; static float val(i64 i) { if (i > 7 && i < 12) { static const u32 odd[] = { 0x7fc01234u, 0x80000000u, 0, 0x7f800000u }; float f; memcpy(&f, &odd[i - 8], 4); return f; } return 1.0f + float(i) * 1.1234567f; } using D = float; static D delta(i64 i) { return 0.3f * float(i + 1); } };
    template<> struct Tr<double> { static constexpr Class cls = C_VAL; static double val(i64 i) { if (i > 7 && i < 12) { static const u64 odd[] = { 0x7ff8000000001234u, 0x8000000000000000u, 0, 0x7ff0000000000000u }; double f; memcpy(&f, &odd[i - 8], 8); return f; } return 1.0 + double(i) * 1.123456789; } using D = double; static D delta(i64 i) { return 0.3 * double(i + 1); } };
    template<> struct Tr<int*> { static constexpr Class cls = C_VAL; static int* val(i64 i) { return reinterpret_cast<int*>(u64(i) * 0x0102030405000ull + 0x1000); } using D = ptrdiff_t; static D delta(i64 i) { return i - 5; } };
    template<> struct Tr<S8> { static constexpr Class cls = C_MEM; static S8 val(i64 i) { return { u32(i * 0x11111111), u32(~(i * 0x11111111)) }; } };
    template<> struct Tr<S16> { static constexpr Class cls = C_MEM; static S16 val(i64 i) { return { u64(i) * 0x1111111111111111ull, ~(u64(i) * 0x1111111111111111ull) }; } };
    template<> struct Tr<S12> { static constexpr Class cls = C_MEM; static S12 val(i64 i) { return { { u32(i * 0x11111111), u32(i * 0x01010101), u32(~i) } }; } };
    template<> struct Tr<S3> { static constexpr Class cls = C_MEM; static S3 val(i64 i) { return { { u8(i * 0x11), u8(i * 0x13), u8(~i) } }; } };

    template<class E, int N> struct Tr<V<E, N>>
    {
        static constexpr Class cls = C_VAL; using D = V<E, N>;
        static D val(i64 i) { D d; for (int k = 0; k < N; ++k) d.e[k] = E(u64(i * (k + 1)) * 0x1122334455667789ull + u64(k)); return d; }
        static D delta(i64 i) { D d; for (int k = 0; k < N; ++k) d.e[k] = E((i - 5) * (k + 1)); return d; }
    };

    struct Ev { int f, op; u64 inv, ret; u128 arg, exp, out; bool ok; i64 raw; };

    template<class T> T addv(T o, i64 raw, bool sub)
    {
        if constexpr (Tr<T>::cls == C_INT) { u64 d = u64(Tr<T>::delta(raw)); return T(sub ? u64(o) - d : u64(o) + d); }
        else if constexpr (Tr<T>::cls == C_VAL) { T n = o; if (sub) n -= Tr<T>::delta(raw); else n += Tr<T>::delta(raw); return n; }
        else return o;
    }
    template<class T> bool model(u128& st, const Ev& e)
    {
        T o; memcpy(&o, &st, sizeof o);
        T n = o;
        switch (e.op)
        {
        case LOAD: return e.out == st;
        case STORE: st = e.arg; return true;
        case XCHG: if (e.out != st) return false; st = e.arg; return true;
        case CAS:
            if (e.ok) { if (st != e.exp || e.out != e.exp) return false; st = e.arg; return true; }
            return st != e.exp && e.out == st;
        case ADD: n = addv(o, e.raw, false); break;
        case SUB: n = addv(o, e.raw, true); break;
        default:
            if constexpr (Tr<T>::cls == C_INT) { T v; memcpy(&v, &e.arg, sizeof v); n = e.op == XOR ? T(o ^ v) : e.op == AND ? T(o & v) : T(o | v); }
        }
        if (e.out != st) return false;
        st = bits(n);
        return true;
    }

#ifdef ATOMIC_MSVC
    template<class T> constexpr bool can_cas = sizeof(T) <= 8 && !(sizeof(T) & (sizeof(T) - 1));
    template<class T> constexpr int kinds = Tr<T>::cls == C_MEM || std::is_same<T, bool>::value ? (can_cas<T> ? ADD : CAS) : XOR;
#else
    template<class T> constexpr bool can_cas = true;
    template<class T> constexpr int kinds = Tr<T>::cls == C_MEM ? ADD : Tr<T>::cls == C_VAL ? XOR : NOPS;
#endif
    // executes one operation on the real code, recording it
    template<class T> Ev exec(ce::atomic<T>& a, int op, i64 raw, i64 rawexp, const T* seen)
    {
        Ev e{}; e.f = self(); e.op = op; e.raw = raw;
        T v = Tr<T>::val(raw);
        T x = rawexp >= 12 && seen ? *seen : Tr<T>::val(rawexp);
        e.arg = bits(v); e.exp = bits(x);
        T slot[1]; T* px = self() >= 0 ? static_cast<T*>(alloc(sizeof(T), 16)) : slot; *px = x;
        e.inv = seq();
        T out = v; e.ok = true;
        switch (op)
        {
        case LOAD: out = ce::atomic_load(a); break;
        case STORE: ce::atomic_store(a, v); break;
        case XCHG: out = ce::atomic_exchange(a, v); break;
        case CAS: if constexpr (can_cas<T>) { e.ok = ce::atomic_compare_exchange(a, *px, v); out = *px; } break;
        case ADD: if constexpr (kinds<T> > ADD) out = ce::atomic_fetch_add(a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(raw))); break;
        case SUB: if constexpr (kinds<T> > SUB) out = ce::atomic_fetch_sub(a, static_cast<ce::atomic_val_t<T>>(Tr<T>::delta(raw))); break;
#ifndef ATOMIC_MSVC // has no bitwise operations
        case XOR: if constexpr (Tr<T>::cls == C_INT) out = ce::atomic_fetch_xor(a, v); break;
        case AND: if constexpr (Tr<T>::cls == C_INT) out = ce::atomic_fetch_and(a, v); break;
        case OR: if constexpr (Tr<T>::cls == C_INT) out = ce::atomic_fetch_or(a, v); break;
#endif
        }
        e.ret = seq();
        e.out = bits(out);
        return e;
    }
    template<class T> int clamp_op(i64 c) { int op = int(clampmod(c, 0, kinds<T> - 1)); return op == CAS && !can_cas<T> ? LOAD : op; }

    template<class T> struct Box { u8 before[16]; alignas(sizeof(T) == 1 ? 1 : sizeof(T) == 2 ? 2 : sizeof(T) == 4 ? 4 : sizeof(T) == 8 ? 8 : sizeof(T) == 16 ? 16 : alignof(T)) ce::atomic<T> a; u8 after[16]; };

    std::string describe(const std::vector<Ev>& evs, size_t n)
    {
        std::string s;
        for (auto& e : evs)
        {
            s += " T" + std::to_string(e.f) + "." + opname[e.op] + "(";
            if (e.op == CAS) s += "exp=" + hex(e.exp, n) + ",";
            if (e.op == ADD || e.op == SUB) s += "#" + std::to_string(e.raw); else if (e.op != LOAD) s += hex(e.arg, n);
            s += ")";
            if (e.op != STORE) s += "=" + std::string(e.op == CAS ? (e.ok ? "true," : "false,") : "") + hex(e.out, n);
            s += "@" + std::to_string(e.inv) + "-" + std::to_string(e.ret);
        }
        return s;
    }

    template<class T> void run_type(const Scn& s)
    {
        i64 init = s.get("init", 0, 12);
        auto box = static_cast<Box<T>*>(alloc(sizeof(Box<T>), 16, 0xcd));
        if (init == 12) new (&box->a) ce::atomic<T>(); else new (&box->a) ce::atomic<T>(Tr<T>::val(init));
        T iv = init == 12 ? T() : Tr<T>::val(init);
        std::vector<Ev> evs;
        for (size_t f = 0; f < s.fib.size() && f < 4; ++f)
            spawn([&, f] {
                T seen = iv;
                size_t k = 0;
                for (auto& o : s.fib[f])
                {
                    if (++k > 6) break;
                    Ev e = exec<T>(box->a, clamp_op<T>(o.code), clampmod(o.a[0], 0, 11), clampmod(o.a[1], 0, 15), &seen);
                    T out; memcpy(&out, &e.out, sizeof out); seen = e.op == STORE ? Tr<T>::val(e.raw) : out;
                    if (e.op == ADD || e.op == SUB) seen = addv(out, e.raw, e.op == SUB);
                    if (e.op == CAS) { probe(e.ok ? "cas_success" : "cas_failure"); SIM_CHECK(!e.ok || e.out == e.exp, "expected-clobbered", "a successful compare-exchange changed the expected argument from %s to %s", hex(e.exp, sizeof(T)).c_str(), hex(e.out, sizeof(T)).c_str()); }
                    mix(u64(e.out) ^ u64(e.out >> 64)); mix(e.ok);
                    evs.push_back(e);
                }
            });
        run_all();
        Ev fin = exec<T>(box->a, LOAD, 0, 0, nullptr); fin.f = 9; evs.push_back(fin);
        for (int i = 0; i < 16; ++i) SIM_CHECK(box->before[i] == 0xcd && box->after[i] == 0xcd, "outside-object", "an atomic operation on a %zu-byte object changed a byte outside it", sizeof(T));
        u64 overlap = 0; for (auto& x : evs) for (auto& y : evs) overlap += x.inv < y.inv && y.inv < x.ret;
        probe("overlapping_ops", overlap);
        if (!linearizable(evs, bits(iv), [](u128& st, const Ev& e) { return model<T>(st, e); }))
            fail("not-linearizable", "no order of these operations on a %zu-byte atomic starting at %s explains the results:%s", sizeof(T), hex(bits(iv), sizeof(T)).c_str(), describe(evs, sizeof(T)).c_str());
    }

    // contended update loops: many threads hammer one counter; nothing may be lost
    template<class T> void run_count(const Scn& s)
    {
        using A = ce::atomic<T>;
        auto a = static_cast<A*>(alloc(sizeof(A), 16)); new (a) A(T(0));
        int loops = int(s.get("loops", 1, 12));
        std::vector<std::vector<T>> seen(4);
        int nf = int(s.fib.size() < 4 ? s.fib.size() : 4);
        for (int f = 0; f < nf; ++f)
            spawn([&, f] {
                bool use_cas = s.fib[size_t(f)].size() & 1;
                for (int i = 0; i < loops; ++i)
                {
                    T o;
                    if (use_cas) { o = ce::atomic_load(*a); int guard = 0; while (!ce::atomic_compare_exchange(*a, o, T(o + T(1)))) SIM_CHECK(++guard < 20000, "livelock", "compare-exchange loop made no progress"); }
                    else o = ce::atomic_fetch_add(*a, static_cast<ce::atomic_val_t<T>>(1));
                    seen[size_t(f)].push_back(o);
                }
            });
        run_all();
        std::vector<int> hit(size_t(nf * loops), 0);
        for (auto& v : seen) for (size_t i = 0; i < v.size(); ++i)
        {
            i64 x = i64(v[i]);
            SIM_CHECK(x >= 0 && x < i64(hit.size()), "lost-update", "a fetch returned %lld out of %zu increments", (long long)x, hit.size());
            SIM_CHECK(!hit[size_t(x)]++, "lost-update", "two increments both replaced value %lld", (long long)x);
            SIM_CHECK(i == 0 || v[i] > v[i - 1], "lost-update", "a thread saw the counter go back");
        }
        SIM_CHECK(i64(ce::atomic_load(*a)) == i64(hit.size()), "lost-update", "counter is %lld after %zu increments", (long long)ce::atomic_load(*a), hit.size());
    }

    template<class F> void by_type(i64 t, F f)
    {
        switch (t)
        {
        case 0: f(bool()); break; case 1: f(u8()); break; case 2: f(i64()); break; case 3: f(u16()); break; case 4: f(u32()); break;
        case 5: f(u64()); break; case 6: f(int8_t()); break; case 7: f(int16_t()); break; case 8: f(int32_t()); break;
        case 9: f(static_cast<int*>(nullptr)); break; case 10: f(float()); break; case 11: f(double()); break;
#ifndef PLAIN_TYPES
        case 12: f(S8()); break; case 13: f(S16()); break; case 14: f(S12()); break; case 15: f(S3()); break;
        case 16: f(V<int32_t, 2>()); break; case 17: f(V<int32_t, 3>()); break; case 18: f(V<uint8_t, 2>()); break; case 19: f(V<uint8_t, 1>()); break; case 20: f(V<int16_t, 2>()); break;
        case 21: f(V<u8, 5>()); break;
#endif
        default:
#if defined(PLAIN_TYPES)
            f(u32()); break;
#elif defined(ATOMIC_MSVC) // has no arithmetic on 16 bytes
            f(V<u8, 3>()); break;
#else
            f(V<i64, 2>()); break;
#endif
        }
    }
}

SIM_PROP(C01, "random operation histories on one atomic object of 23 types by 2-4 threads, checked linearizable (Wing-Gong search); contended counters")
void gen_C01(Rng& g, Scn& s, u64)
{
    s.set("mode", g.chance(1, 6) ? 1 : 0);
    s.set("type", i64(g.below(23)));
    s.set("init", g.range(0, 12));
    s.set("loops", g.range(1, 12));
    i64 fav = i64(g.below(NOPS));
    int range = int(g.range(2, 12));
    fill_ops(g, s, int(g.range(2, 4)), 1, 5, [&](int, int) { Op o{}; o.code = g.chance(1, 3) ? fav : i64(g.below(NOPS)); o.a[0] = i64(g.below(u64(range))); o.a[1] = g.chance(1, 2) ? 13 : i64(g.below(u64(range))); return o; });
}
void run_C01(const Scn& s)
{
    step_cap(200000);
    i64 t = s.get("type", 0, 22);
    if (s.get("mode", 0, 1) == 0) by_type(t, [&](auto v) { run_type<decltype(v)>(s); });
    else switch (t % 8)
    {
    case 0: run_count<u8>(s); break; case 1: run_count<u16>(s); break; case 2: run_count<u32>(s); break; case 3: run_count<u64>(s); break;
    case 4: run_count<float>(s); break; case 5: run_count<double>(s); break; case 6: run_count<int32_t>(s); break; default: run_count<int64_t>(s); break;
    }
}
