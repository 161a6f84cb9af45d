// C10 debug output, C11 structured log records, C12 failed checks.
#include "common.h"
#include <array>
#include <algorithm>
#include <climits>
#ifdef USER_HOOKS // variant hooks: the program brings its own hooks
namespace hooks { void log(int level, int argc, char const* argv[][2]); bool error(int level, int argc, char const* argv[][2]); }
#define CE_USER_LOG_HOOK(...) ::hooks::log(__VA_ARGS__)
#define CE_USER_ERROR_HOOK(...) ::hooks::error(__VA_ARGS__)
#endif
#include <charconv>
#include "ce/ce.h"
using namespace h;
typedef std::string S;

namespace
{
    void io_faults(const Scn& s)
    {
        rate(K_SHORTW, u32(s.get("short", 0, 60000)));
        rate(K_EINTRW, u32(s.get("eintr", 0, 50000)));
        rate(K_HARDW, u32(s.get("hard", 0, 30000)));
        rate(K_STALL, u32(s.get("stall", 0, 4000)));
        set_write_hard(int(s.get("sticky", 0, 1)));
        step_cap(400000);
    }
    void gen_io(Rng& g, Scn& s, bool hard)
    {
        s.set("short", g.chance(2, 3) ? i64(g.below(50000)) : 0);
        s.set("eintr", g.chance(1, 2) ? i64(g.below(40000)) : 0);
        s.set("hard", hard && g.chance(1, 3) ? i64(g.below(20000)) : 0);
        s.set("stall", g.chance(1, 5) ? i64(g.below(3000)) : 0);
        s.set("sticky", i64(g.below(2)));
        s.set("crash", g.chance(1, 3) ? i64(g.logu(10)) : 0);
    }
    S clip(const S& s) { S r; for (char c : s.substr(0, 160)) { if (c == '\n') r += "\\n"; else if (u8(c) < 32 || u8(c) > 126) r += '?'; else r += c; } if (s.size() > 160) r += "..."; return r; }
    // bytes a fiber has put on stderr from a position in its own stream
    struct Watch
    {
        size_t pos[MAXF]{};
        S take(int f) { S all = out_of(2, f); S r = all.substr(pos[f]); pos[f] = all.size(); return r; }
    };
    bool is_prefix(const S& p, const S& t) { return p.size() <= t.size() && t.compare(0, p.size(), p) == 0; }

    S make_text(i64 kind, i64 len, i64 salt)
    {
        S t;
        static const i64 lens[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 4097, 10000, 70000, 1048575, 1048577, 2097159, 1572864 };
        i64 n = kind >= 8 ? lens[24 + u64(len) % 4] : kind & 1 ? lens[u64(len) % 24] : i64(u64(len) % 300);
        Rng g{ u64(salt) };
        for (i64 i = 0; i < n; ++i) { u64 r = g.next(); char c = kind & 2 ? char(1 + r % 255) : r % 17 == 0 ? '\n' : r % 23 == 0 ? '%' : char('a' + r % 26); t += c; }
        return t;
    }
}

SIM_PROP(C10, "threads print texts of every size under short writes, interrupted calls, hard errors and crashes")
void gen_C10(Rng& g, Scn& s, u64)
{
    gen_io(g, s, true);
    bool big = g.chance(1, 10);
    if (g.chance(1, 1500))
    {   // one very long text
        s.set("short", g.chance(1, 2) ? i64(g.below(2000)) : 0); s.set("eintr", g.chance(1, 2) ? i64(g.below(2000)) : 0); s.set("hard", g.chance(1, 3) ? i64(g.below(200)) : 0);
        fill_ops(g, s, int(g.range(1, 2)), 1, 2, [&](int, int) { Op o{}; o.code = i64(g.below(9)); o.a[0] = i64(8 + g.below(3)); o.a[1] = i64(g.below(4)); o.a[2] = i64(g.next() >> 8); return o; });
        return;
    }
    fill_ops(g, s, int(g.range(1, 4)), 1, big ? 3 : 7, [&](int, int) { Op o{}; o.code = i64(g.below(10)); o.a[0] = i64(g.below(big ? 4 : 4)); o.a[1] = big ? i64(g.below(24)) : g.chance(1, 3) ? i64(g.below(20)) : i64(g.below(300)); o.a[2] = i64(g.next() >> 8); return o; });
}
void run_C10(const Scn& s)
{
    io_faults(s); step_cap(20000000);
    plain_points(false);
    if (i64 c = s.get("crash", 0, 4096)) arm_crash(u64(c));
    Watch w;
    std::vector<S> text(MAXF); std::vector<int> inflight(MAXF, 0); std::vector<S> done(MAXF);
    bool clean = s.get("hard", 0, 30000) == 0;
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0, me = self();
            for (auto& o : s.fib[f])
            {
                if (++n > 8) break;
                bool null = clampmod(o.code, 0, 9) == 9;
                S t = null ? S() : make_text(o.a[0], o.a[1], o.a[2]);
                char* p = nullptr;
                if (!null) { p = static_cast<char*>(alloc(t.size() + 1, 1)); memcpy(p, t.c_str(), t.size() + 1); }
                u64 e0 = hard_errors();
                text[size_t(me)] = t; inflight[size_t(me)] = 1;
                ce::os::debug_out(p);
                inflight[size_t(me)] = 0;
                S got = w.take(me);
                bool hard = hard_errors() != e0;
                if (hard) probe("texts_with_hard_errors");
                probe("texts"); if (t.size() > 1000000) probe("texts_over_1000000"); if (t.size() > 4096) probe("texts_over_4096");
                SIM_CHECK(is_prefix(got, t), "garbled", "printing a text of %zu bytes put other bytes on the stream: got \"%s\" for \"%s\"", t.size(), clip(got).c_str(), clip(t).c_str());
                SIM_CHECK(hard || got.size() == t.size(), "lost-output", "printing a text of %zu bytes put only %zu bytes on the stream before the call returned", t.size(), got.size());
                if (p) SIM_CHECK(memcmp(p, t.c_str(), t.size() + 1) == 0, "changed-text", "the printed text was modified");
                done[size_t(me)] += got;
            }
        });
    Status st = run_all();
    if (st == CRASHED)
    {
        probe("crashes");
        for (int f = 0; f < MAXF; ++f)
        {
            S all = out_of(2, f);
            S rest = all.substr(done[size_t(f)].size());
            SIM_CHECK(all.compare(0, done[size_t(f)].size(), done[size_t(f)]) == 0, "lost-output", "text printed before a crash is not on the stream");
            SIM_CHECK(is_prefix(rest, inflight[size_t(f)] ? text[size_t(f)] : S()), "garbled", "bytes of no printed text are on the stream after a crash");
        }
    }
    (void)clean;
    SIM_CHECK(out(1).bytes.empty(), "garbled", "debug output went to standard output");
}

namespace
{
    constexpr int NLOGS = 64;
    enum Plain { plain_a = 5, plain_b = -70000 };
    enum class Scoped : unsigned char { x = 250 };
    enum class Wide : unsigned long long { x = 9876543210123456789ull }; enum class Deep : long long { x = -5000000000000000001ll }; enum class Mid : unsigned { x = 4000000000u };
    struct Pair2 { int x, y; };
    struct Opaque { int q; };
    struct Ranged { signed char a; unsigned char b; short c; unsigned short d; long e; unsigned long f; long long g; unsigned long long h; int i; unsigned j; };
    int add2(int a, int b) { return a + b; }
    template<class A, class B> int pick(int v) { return v + int(sizeof(A) * 16 + sizeof(B)); }
    template<int A, int B> struct Two { int v; int operator[](int i) const { return v * A + i * B; } };
    // a text object of the size its type asks for takes the longest values of that type
    template<class...T> void in_bounds(const S& want, T... v)
    {
        typedef decltype(ce::as_string{ v... }) A;
        A* t = new (alloc(sizeof(A), alignof(A))) A{ v... };
        if (want != t->as) fail("wrong-record", "the text of a message is \"%s\" instead of \"%s\"", clip(t->as).c_str(), clip(want).c_str());
        t->~A(); release(t); probe("texts-in-bounds");
    }
    S shortest(double v) { char b[64]; for (int n = 1; n <= 17; ++n) { snprintf(b, sizeof b, "%.*g", n, v); if (strtod(b, nullptr) == v) break; } return b; }
    // executes one log statement and returns the record the documentation promises
    S log_statement(i64 k, int a, int b, u64 u, const char* s, const S& sv, bool& volatile_ok)
    {
        (void)volatile_ok;
        auto d = [](auto v) { return std::to_string(v); };
        auto rec = [](const char* lvl, const char* name, std::initializer_list<std::pair<S, S>> kv) { S r = S(lvl) + ": { \"$\": \"" + name + "\""; for (auto& p : kv) r += ", \"" + p.first + "\": \"" + p.second + "\""; return r + " }\n"; };
        switch (k)
        {
        case 0: CE_LOG(fatal, a); return rec("F", "fatal", { { "a", d(a) } });
        case 1: CE_LOG(error, a, b); return rec("E", "error", { { "a", d(a) }, { "b", d(b) } });
        case 2: CE_LOG(warn, a, a + b); return rec("W", "warn", { { "a", d(a) }, { "a + b", d(a + b) } });
        case 3: CE_LOG(note, u); return rec("N", "note", { { "u", d(u) } });
        case 4: CE_LOG(info, "Hello World", a, b, u); return rec("I", "info", { { "\"Hello World\"", "Hello World" }, { "a", d(a) }, { "b", d(b) }, { "u", d(u) } });
        case 5: CE_LOG(debug, s); return rec("D", "debug", { { "s", sv } });
        case 6: CE_LOG(spam, s, a, s); return rec("S", "spam", { { "s", sv }, { "a", d(a) }, { "s", sv } });
        case 7: CE_LOG(more, b); return rec("M", "more", { { "b", d(b) } });
        case 8: CE_LOG(snowball, "x", a); return rec("M", "snowball", { { "\"x\"", "x" }, { "a", d(a) } });
        case 9: CE_LOG(info); return rec("I", "info", { });
        case 10: CE_LOG(warn, true, 'c', a); return rec("W", "warn", { { "true", "#<T>" }, { "'c'", "c" }, { "a", d(a) } });
        case 11: CE_LOG(info, int8_t(a), uint8_t(a), int16_t(a), uint16_t(a)); return rec("I", "info", { { "int8_t(a)", d(int(int8_t(a))) }, { "uint8_t(a)", d(int(uint8_t(a))) }, { "int16_t(a)", d(int(int16_t(a))) }, { "uint16_t(a)", d(int(uint16_t(a))) } });
        case 12: CE_LOG(info, i64(u), u64(u), uint32_t(a)); return rec("I", "info", { { "i64(u)", d(i64(u)) }, { "u64(u)", d(u) }, { "uint32_t(a)", d(uint32_t(a)) } });
        case 13: CE_LOG_MSG(info, "The answer is ", a, "!"); return rec("I", "info", { { "$msg", "The answer is " + d(a) + "!" } });
        case 14: CE_LOG_MSG(error, s); return rec("E", "error", { { "$msg", sv } });
        case 15: CE_LOG_MSG(note, a, ", ", b, ", ", u); return rec("N", "note", { { "$msg", d(a) + ", " + d(b) + ", " + d(u) } });
        case 16: CE_LOG(info, (a + 1), (b , a)); return rec("I", "info", { { "(a + 1)", d(a + 1) }, { "(b , a)", d(a) } });
        case 17: CE_LOG(info, a*b%97   ,   -a); return rec("I", "info", { { "a*b%97", d(a * b % 97) }, { "-a", d(-a) } });
        case 18: CE_LOG(fatal, u, u, u, u, u, u, u, u, u, u, u, u); { S v = d(u); return rec("F", "fatal", { { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v }, { "u", v } }); }
        case 19: CE_LOG(debug, "a,b", "q)", 1); return rec("D", "debug", { { "\"a,b\"", "a,b" }, { "\"q)\"", "q)" }, { "1", "1" } });
        case 20: CE_LOG(error, nullptr, false); return rec("E", "error", { { "nullptr", "#<nil>" }, { "false", "#<F>" } });
        case 21: CE_LOG(warn, (ce::vec2<int32_t, void>{ a, b })); return rec("W", "warn", { { "(ce::vec2<int32_t, void>{ a, b })", "[" + d(a) + ", " + d(b) + "]" } });
        case 22: { ce::vec3<int32_t, void> v{ a, b, 7 }; CE_LOG(note, v, v.y); return rec("N", "note", { { "v", "[" + d(a) + ", " + d(b) + ", 7]" }, { "v.y", d(b) } }); }
        case 23: CE_LOG(spam, a > b ? a : b, b); return rec("S", "spam", { { "a > b ? a : b", d(a > b ? a : b) }, { "b", d(b) } });
        case 24: { int c = a; CE_LOG(info, c, c + 1, b - c); return rec("I", "info", { { "c", d(c) }, { "c + 1", d(c + 1) }, { "b - c", d(b - c) } }); }
        case 26: case 27: case 28: case 29:
        {   // the hook itself, any level and any number of pairs
            int level = int(k == 26 ? clampmod(a, -3, 11) : k == 27 ? a : clampmod(b, 0, 8)), n = int(clampmod(b, 0, 5));
            char const* v[6][2]{ { "$", "x" }, { "a", s }, { "", "1" }, { "c", "" }, { "d e", "<>" }, { nullptr, nullptr } };
            ce::os::log(level, n, v);
            S r = S(1, "FEWNIDSM"[level < 0 ? 0 : level > 7 ? 7 : level]) + ": {";
            for (int i = 0; i < n; ++i) r += S(i ? ", " : " ") + "\"" + v[i][0] + "\": \"" + v[i][1] + "\"";
            return r + " }\n";
        }
        case 30: { double q = a + 0.25 * (1 + (b & 2)); float r = float(b % 1000) + 0.5f; CE_LOG(info, q, r); return rec("I", "info", { { "q", shortest(q) }, { "r", shortest(r) } }); }
        case 31: { Plain e = a & 1 ? plain_a : plain_b; if (b & 1) { CE_LOG(debug, Wide::x, Deep::x, Mid::x); return rec("D", "debug", { { "Wide::x", "#<enum 9876543210123456789>" }, { "Deep::x", "#<enum -5000000000000000001>" }, { "Mid::x", "#<enum 4000000000>" } }); }
            CE_LOG(debug, e, Scoped::x); return rec("D", "debug", { { "e", "#<enum " + d(int(e)) + ">" }, { "Scoped::x", "#<enum 250>" } }); }
        case 32: { int* at = a & 1 ? reinterpret_cast<int*>(u & 0xffffffffffff) : nullptr; CE_LOG(note, at, a); return rec("N", "note", { { "at", at ? "#<ptr " + d(u64(at)) + ">" : "#<nil>" }, { "a", d(a) } }); }
        case 33: { char buf[24]; snprintf(buf, sizeof buf, "<%d>", a); CE_LOG(error, buf, b); return rec("E", "error", { { "buf", buf }, { "b", d(b) } }); }
        case 34: { S m = sv.substr(0, 1000); CE_LOG_MSG(warn, "[", m.c_str(), "] ", b, ' ', true); return rec("W", "warn", { { "$msg", "[" + m + "] " + d(b) + " #<T>" } }); }
        case 35: CE_LOG_MSG(fatal, u, "/", i64(u), "/", short(a), "/", (unsigned char)(b)); return rec("F", "fatal", { { "$msg", d(u) + "/" + d(i64(u)) + "/" + d(int(short(a))) + "/" + d(int((unsigned char)(b))) } });
        case 36: { CE_LOG(spam, (a < b), std::max(a, b)); return rec("S", "spam", { { "(a < b)", S("#<") + (a < b ? "T" : "F") + ">" }, { "std::max(a, b)", d(std::max(a, b)) } }); }
        case 37: { i64 ext[] = { INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, 0, -1, 9, -10, 99, 100, 999999999, -1000000000, 10000000000, -99999999999 }; i64 v = ext[u64(a + 4000) % 14]; CE_LOG(info, v, u64(v), int(v), unsigned(v)); return rec("I", "info", { { "v", d(v) }, { "u64(v)", d(u64(v)) }, { "int(v)", d(int(v)) }, { "unsigned(v)", d(unsigned(v)) } }); }
        case 38: { int once = 0; auto next = [&] { return ++once; }; CE_LOG(more, next(), a); if (once != 1) fail("wrong-record", "a logged expression was evaluated %d times", once); return rec("M", "more", { { "next()", "1" }, { "a", d(a) } }); }
        case 40: CE_LOG(info, Pair2{a, b}.x, a); return rec("I", "info", { { "Pair2{a, b}.x", d(a) }, { "a", d(a) } });
        case 41: { int v[4] = { a, b, a + b, a - b }; CE_LOG(warn, v[add2(1, a & 1)], v[(a, 0)], *(v + 3)); return rec("W", "warn", { { "v[add2(1, a & 1)]", d(v[1 + (a & 1)]) }, { "v[(a, 0)]", d(a) }, { "*(v + 3)", d(a - b) } }); }
        case 42: CE_LOG(error, ',', ')', '"', a, '\'', '\\', b); return rec("E", "error", { { "','", "," }, { "')'", ")" }, { "'\"'", "\"" }, { "a", d(a) }, { "'\\''", "'" }, { "'\\\\'", "\\" }, { "b", d(b) } });
        case 43: CE_LOG(note, "say \"a, b\"", b, "back\\", a, "(", "[{"); return rec("N", "note", { { "\"say \\\"a, b\\\"\"", "say \"a, b\"" }, { "b", d(b) }, { "\"back\\\\\"", "back\\" }, { "a", d(a) }, { "\"(\"", "(" }, { "\"[{\"", "[{" } });
        case 44: CE_LOG(debug, long(a), (unsigned long)u, (long long)b, (unsigned long long)u, (signed char)b); return rec("D", "debug", { { "long(a)", d(a) }, { "(unsigned long)u", d(u) }, { "(long long)b", d(b) }, { "(unsigned long long)u", d(u) }, { "(signed char)b", d(int((signed char)b)) } });
        case 45: { int v[3] = { a, b, 0 }; CE_LOG(spam, v, b); return rec("S", "spam", { { "v", "#<ptr " + d(u64(v)) + ">" }, { "b", d(b) } }); }
        case 46: CE_LOG(fatal, ((a), (b)), (Pair2{ a, b }.y), add2(a, add2(b, 1))); return rec("F", "fatal", { { "((a), (b))", d(b) }, { "(Pair2{ a, b }.y)", d(b) }, { "add2(a, add2(b, 1))", d(a + b + 1) } });
        case 47:
        {   // where the object is shown to be is the library's business
            Opaque o{ a }; size_t from = out_of(2, self()).size(); CE_LOG(info, o, a); S all = out_of(2, self()).substr(from); size_t at = all.find("#<ref "); S got = "#<ref N>";
            if (at != S::npos) { size_t e = at + 6; while (e < all.size() && all[e] >= '0' && all[e] <= '9') ++e; if (e > at + 6 || e == all.size()) got = all.substr(at, e - at) + ">"; }
            return rec("I", "info", { { "o", got }, { "a", d(a) } });
        }
        case 48: case 49: case 50:
        {
            Ranged lo{ -128, 255, -32768, 65535, LONG_MIN, ULONG_MAX, LLONG_MIN, ULLONG_MAX, INT_MIN, UINT_MAX };
            switch (k)
            {
            case 48: in_bounds(d(int(lo.a)), lo.a); in_bounds(d(lo.e), lo.e); in_bounds(d(lo.f), lo.f); in_bounds(d(lo.g) + d(lo.h), lo.g, lo.h); CE_LOG(info, lo.a, lo.e); return rec("I", "info", { { "lo.a", "-128" }, { "lo.e", d(lo.e) } });
            case 49: in_bounds(d(int(lo.c)), lo.c); in_bounds(d(int(lo.d)) + d(int(lo.b)), lo.d, lo.b); in_bounds(d(lo.i), lo.i); in_bounds(d(lo.j) + "c", lo.j, 'c'); CE_LOG(info, lo.c, lo.d, lo.b, lo.i, lo.j); return rec("I", "info", { { "lo.c", d(lo.c) }, { "lo.d", d(lo.d) }, { "lo.b", d(int(lo.b)) }, { "lo.i", d(lo.i) }, { "lo.j", d(lo.j) } });
            default: CE_LOG_MSG(warn, lo.a, lo.b, lo.c, lo.d, lo.e, lo.f, lo.g, lo.h, lo.i, lo.j); return rec("W", "warn", { { "$msg", "-128255-3276865535" + d(lo.e) + d(lo.f) + d(lo.g) + d(lo.h) + d(lo.i) + d(lo.j) } });
            }
        }
        case 51: CE_LOG(more, a , b,a,  b ); return rec("M", "more", { { "a", d(a) }, { "b", d(b) }, { "a", d(a) }, { "b", d(b) } });
        case 52: CE_LOG(debug, a == b, a <= b, a != 7 && b != 7, !a); { auto t = [](bool v) { return S(v ? "#<T>" : "#<F>"); }; return rec("D", "debug", { { "a == b", t(a == b) }, { "a <= b", t(a <= b) }, { "a != 7 && b != 7", t(a != 7 && b != 7) }, { "!a", t(!a) } }); }
        case 54: { int été = a, straße = b; CE_LOG(info, été, a, straße  , a + été); return rec("I", "info", { { "été", d(a) }, { "a", d(a) }, { "straße", d(b) }, { "a + été", d(a + a) } }); }
        case 55: CE_LOG(note, "é", "日本", "\x01 \t", a); return rec("N", "note", { { "\"é\"", "é" }, { "\"日本\"", "日本" }, { "\"\\x01 \\t\"", "\x01 \t" }, { "a", d(a) } });
        case 56: case 57:
        {   // any double and float
            static const double ds[] = { 0, -0.0, 1e300, -2.2250738585072014e-308, 1.7976931348623157e308, 5e-324, 123456789012345678.0, 0.1, 1e21, 1e22, 1e-7, 1e15 + 0.3, 3, -1 / 3.0, __builtin_inf(), -__builtin_inf(), __builtin_nan("") };
            double q; memcpy(&q, &u, 8); if (k == 57) q = ds[u64(a + 4000) % 17]; if (q != q) q = ds[16];
            u32 w = u32(u * 0x9e3779b97f4a7c15ull >> 32); float r; memcpy(&r, &w, 4); if (r != r) r = 1;
            char x[64], y[64]; *std::to_chars(x, x + 60, q).ptr = 0; *std::to_chars(y, y + 60, r).ptr = 0;
            if (b & 1) { CE_LOG(info, q, r, b); return rec("I", "info", { { "q", x }, { "r", y }, { "b", d(b) } }); }
            CE_LOG_MSG(note, q, " ", r, b & 2, (ce::vec2<double, void>{ q, 1 })); return rec("N", "note", { { "$msg", S(x) + " " + y + d(b & 2) + "[" + x + ", 1]" } });
        }
        case 62: { CE_LOG(debug, a, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, u, b); S r = "D: { \"$\": \"debug\", \"a\": \"" + d(a) + "\""; for (int i = 0; i < 24; ++i) r += ", \"u\": \"" + d(u) + "\""; return r + ", \"b\": \"" + d(b) + "\" }\n"; }
        case 63:
        {   // the hook itself with a long list
            int n = int(clampmod(a, 5, 40)); if (b % 7 == 0) n = 300;
            std::vector<std::array<char const*, 2>> v(size_t(n) + 1); std::vector<S> vals(v.size());
            for (int i = 0; i < n; ++i) { vals[size_t(i)] = d(b + i); v[size_t(i)] = { i & 1 ? "odd" : "even", vals[size_t(i)].c_str() }; }
            ce::os::log(5, n, reinterpret_cast<char const* (*)[2]>(v.data()));
            S r = "D: {";
            for (int i = 0; i < n; ++i) r += S(i ? ", " : " ") + "\"" + (i & 1 ? "odd" : "even") + "\": \"" + vals[size_t(i)] + "\"";
            return r + " }\n";
        }
        case 53: { const char cs[8] = { 'a', 'b', char('a' + (a & 15)), 0, 'z', 0 }; char const* cp = cs; CE_LOG(note, cp, cs); return rec("N", "note", { { "cp", cs }, { "cs", cs } }); }
        case 58: CE_LOG(info, a, pick<int, char>(b)); return rec("I", "info", { { "a", d(a) }, { "pick<int, char>(b)", d(b + 65) } });
        case 59: CE_LOG(warn, pick<short, long>(a)); return rec("W", "warn", { { "pick<short, long>(a)", d(a + 40) } });
        case 60: CE_LOG(debug, "<", a < b, b > a, Two<2, 3>{ a }[b]); { auto t = [](bool v) { return S(v ? "#<T>" : "#<F>"); }; return rec("D", "debug", { { "\"<\"", "<" }, { "a < b", t(a < b) }, { "b > a", t(b > a) }, { "Two<2, 3>{ a }[b]", d(a * 2 + b * 3) } }); }
        case 61:
        {   // a C string counts to its end or, from 1024 characters on, any part of it
            char* w = const_cast<char*>(s); size_t from = out_of(2, self()).size();
            if (a & 1) CE_LOG_MSG(note, "[", s, "]", b, w, "."); else CE_LOG_MSG(note, "[", w, "]", b, s, ".");
            S all = out_of(2, self()).substr(from); size_t n = sv.size(), cut = n;
            if (n >= 1024) { size_t e = all.find(']'); if (e != S::npos) cut = e >= 1024 + 28 && e <= n + 28 ? e - 28 : n; }
            return rec("N", "note", { { "$msg", "[" + sv.substr(0, cut) + "]" + d(b) + sv.substr(0, cut) + "." } });
        }
        case 39: CE_LOG_MSG(debug, ""); return rec("D", "debug", { { "$msg", "" } });
        default: CE_LOG(fatal, "only text"); return rec("F", "fatal", { { "\"only text\"", "only text" } });
        }
    }
    int small(i64 v) { return int(clampmod(v, -100000, 100000)); }
}

SIM_PROP(C11, "threads emit log records of 64 shapes and all levels under short and interrupted writes and crashes")
void gen_C11(Rng& g, Scn& s, u64)
{
    gen_io(g, s, false);
    if (g.chance(1, 8)) { s.set("hard", i64(g.below(6000))); s.set("sticky", 1); }
    fill_ops(g, s, int(g.range(1, 4)), 1, 5, [&](int, int) { Op o{}; o.code = i64(g.below(NLOGS)); o.a[0] = g.range(-2000, 2000); o.a[1] = g.range(-100000, 100000); o.a[2] = i64(g.next() >> g.below(63)); o.a[3] = i64(g.below(g.chance(1, 8) ? 3000 : 30)); return o; });
}
void run_C11(const Scn& s)
{
    io_faults(s);
    set_write_hard(1);
    if (i64 c = s.get("crash", 0, 4096)) arm_crash(u64(c));
    std::vector<S> expect(MAXF), inflight(MAXF);
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0; size_t me = size_t(self());
            for (auto& o : s.fib[f])
            {
                if (++n > 6) break;
                S sv; i64 len = clampmod(o.a[3], 0, 4000); for (i64 i = 0; i < len; ++i) sv += char('A' + (i * 7 + o.a[2] % 23 + 23) % 26);
                char* p = static_cast<char*>(alloc(sv.size() + 1, 1)); memcpy(p, sv.c_str(), sv.size() + 1);
                bool dummy = false;
                S e = log_statement(clampmod(o.code, 0, NLOGS - 1), small(o.a[0]), small(o.a[1]), u64(o.a[2]), p, sv, dummy);
                expect[me] += e;
                probe("records");
                S got = out_of(2, int(me));
                if (hard_errors()) { SIM_CHECK(is_prefix(got, expect[me]), "garbled-record", "after a stream failure T%zu's output is not a prefix of its records: \"%s\"", me, clip(got).c_str()); }
                else if (got != expect[me])
                {
                    size_t i = 0; while (i < got.size() && i < expect[me].size() && got[i] == expect[me][i]) ++i;
                    size_t b = i > 60 ? i - 60 : 0;
                    fail("wrong-record", "T%zu's log output differs from the documented record: got \"%s\" expected \"%s\"", me, clip(got.substr(b)).c_str(), clip(expect[me].substr(b)).c_str());
                }
            }
        });
    Status st = run_all();
    if (st == CRASHED)
    {
        probe("crashes");
        for (int f = 0; f < MAXF; ++f) { S got = out_of(2, f); SIM_CHECK(hard_errors_all() || (got.size() >= expect[size_t(f)].size() && is_prefix(expect[size_t(f)], got)), "lost-output", "a record completed before the crash is not whole on the stream"); }
    }
    SIM_CHECK(out(1).bytes.empty(), "garbled-record", "log output went to standard output");
}

namespace
{
    constexpr int NCHECKS = 23;
    enum class Colour : short { red = -3, green = 200 };
    struct Want { S line; bool fires; };
    struct Check12
    {
        // set before each statement, looked at from the trap
        S report[MAXF]; bool expect_trap[MAXF]{}; int trapped[MAXF]{}; size_t from[MAXF]{}; u64 hard0[MAXF]{};
        int evals[MAXF]{}; bool veto[MAXF]{};
    };
    Check12* g12; // host-heap object of the run
    constexpr bool silent = CE_ERROR_LEVEL == 0;   // variant level0: checks only evaluate

    // the log record of a failed check, from its report "file(line): kind: what: (names) = (values)"
    S record_of(const S& report)
    {
        size_t k = report.find("): ") + 1, w = report.find(": ", k + 2), m = report.find(": (", w), v = report.find(") = (", m);
        S kind = report.substr(k + 2, w - k - 2), what = m == w ? S() : report.substr(w + 2, m - w - 2), names = report.substr(m + 3, v - m - 3), values = report.substr(v + 5, report.size() - v - 7);
        S r = "F: { \"" + kind + "\": \"" + report.substr(0, k) + "\", \"" + what + "\": \"" + names + "\"";
        if (!names.empty()) { r += ", \"...\": \""; for (size_t i = 0; i < values.size(); ++i) if (values[i] == ',' && values[i + 1] == ' ') { r += "\", \"...\": \""; ++i; } else r += values[i]; r += "\""; }
        return r + " }\n";
    }
    void at_trap()
    {
        int f = self();
        g12->trapped[f]++;
        SIM_CHECK(g12->expect_trap[f], "spurious-trap", "T%d broke into the debugger though its check holds", f);
        S got = out_of(2, f).substr(g12->from[f]);
        if (hard_errors() != g12->hard0[f]) { probe("traps_with_broken_stream"); return; }
        size_t a = got.find("******** FAILED ********\n");
        SIM_CHECK(a != S::npos, "unreported", "T%d broke into the debugger before the failure banner reached the stream: \"%s\"", f, clip(got).c_str());
        SIM_CHECK(got.find(g12->report[f], a) != S::npos, "unreported", "T%d broke into the debugger before the report was complete on the stream: \"%s\", expected \"%s\"", f, clip(got.substr(a)).c_str(), clip(g12->report[f]).c_str());
        SIM_CHECK(got.find(record_of(g12->report[f])) != S::npos, "unrecorded", "T%d's failure is not in the log: \"%s\", expected \"%s\"", f, clip(got).c_str(), clip(record_of(g12->report[f])).c_str());
        probe("traps_fully_reported");
    }
    S itos(i64 v) { return std::to_string(v); }
    void must_report(int f)
    {
        S got = out_of(2, f).substr(g12->from[f]);
        if (hard_errors() != g12->hard0[f]) { probe("traps_with_broken_stream"); return; }
        size_t a = got.find("******** FAILED ********\n");
        SIM_CHECK(a != S::npos, "unreported", "T%d's failure banner is not on the stream: \"%s\"", f, clip(got).c_str());
        SIM_CHECK(got.find(g12->report[f], a) != S::npos, "unreported", "T%d's report is not complete on the stream: \"%s\", expected \"%s\"", f, clip(got.substr(a)).c_str(), clip(g12->report[f]).c_str());
        SIM_CHECK(got.find(record_of(g12->report[f])) != S::npos, "unrecorded", "T%d's failure is not in the log: \"%s\", expected \"%s\"", f, clip(got).c_str(), clip(record_of(g12->report[f])).c_str());
        probe("vetoed_failures_reported");
    }
#define HERE_LINE(N) (S(__FILE__) + "(" + itos(N) + "): ")
#define SITE(LINE, TEXT, FIRES) arm(HERE_LINE(LINE) + TEXT + "\n", FIRES)
}

SIM_PROP(C12, "failing and passing checks of 22 shapes on concurrent threads under stream faults, with and without a debugger")
void gen_C12(Rng& g, Scn& s, u64)
{
    gen_io(g, s, true);
    s.set("resume", i64(g.chance(3, 4)));
    s.set("crash", 0);
    fill_ops(g, s, int(g.range(1, 4)), 1, 5, [&](int, int) { Op o{}; o.code = i64(g.below(NCHECKS)); o.a[0] = g.range(-3, 3); o.a[1] = g.range(-100000, 100000); o.a[2] = i64(g.below(8)); o.a[3] = i64(g.below(20)); return o; });
}
void run_C12(const Scn& s)
{
    io_faults(s);
    set_trap_resume(s.get("resume", 0, 1));
    on_trap(at_trap);
    auto st = std::make_unique<Check12>(); g12 = st.get();
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0, me = self();
            for (auto& o : s.fib[f])
            {
                if (++n > 6) break;
                int a = small(o.a[0]), b = small(o.a[1]);
                S sv; for (i64 i = 0; i < clampmod(o.a[3], 0, 60); ++i) sv += char('a' + i % 26);
                char* p = static_cast<char*>(alloc(sv.size() + 1, 1)); memcpy(p, sv.c_str(), sv.size() + 1);
                auto& c = *g12;
                int result = -1, want = -1; bool fires = false, counted = false, vetoed = false;
                auto arm = [&](S report, bool) { if (silent && report.find("): CE_ERROR: ") == S::npos) fires = false; vetoed = fires && c.veto[me] && report.find("): CE_ERROR: ") == S::npos; /* CE_ERROR asks nobody */ if (vetoed) fires = false; c.report[me] = report; c.expect_trap[me] = fires; c.trapped[me] = 0; c.from[me] = out_of(2, me).size(); c.hard0[me] = hard_errors(); c.evals[me] = 0; };
                auto ev = [&](bool v) { c.evals[me]++; return v; };
#ifdef USER_HOOKS
                c.veto[me] = (o.a[2] & 3) == 1;
#endif
                switch (clampmod(o.code, 0, NCHECKS - 1))
                {
                case 0: fires = !(a > 0); SITE(__LINE__, "CE_ASSERT: a > 0: () = ()", fires); CE_ASSERT(a > 0); break;
                case 1: fires = !(a > 0); SITE(__LINE__, "CE_ASSERT: a > 0: (a) = (" + itos(a) + ")", fires); CE_ASSERT(a > 0, a); break;
                case 2: fires = !(a > 0); SITE(__LINE__, "CE_ASSERT: a > 0: (a, a + b) = (" + itos(a) + ", " + itos(a + b) + ")", fires); CE_ASSERT(a > 0, a, a + b); break;
                case 3: fires = !(a > 0); SITE(__LINE__, "CE_ASSERT: a > 0: (\"too small\", p, b) = (too small, " + sv + ", " + itos(b) + ")", fires); CE_ASSERT(a > 0, "too small", p, b); break;
                case 4: fires = !(a > 0); want = a > 0; SITE(__LINE__, "CE_VERIFY: a > 0: () = ()", fires); result = CE_VERIFY(a > 0); break;
                case 5: fires = !(a > 0); want = a > 0; SITE(__LINE__, "CE_VERIFY: a > 0: (b, p) = (" + itos(b) + ", " + sv + ")", fires); result = CE_VERIFY(a > 0, b, p); break;
                case 6: fires = a > 0; want = a > 0; SITE(__LINE__, "CE_REJECT: a > 0: () = ()", fires); result = CE_REJECT(a > 0); break;
                case 7: fires = a > 0; want = a > 0; SITE(__LINE__, "CE_REJECT: a > 0: (a, b) = (" + itos(a) + ", " + itos(b) + ")", fires); result = CE_REJECT(a > 0, a, b); break;
                case 8: fires = !(a > 0); counted = true; want = a > 0; SITE(__LINE__, "CE_VERIFY: ev(a > 0): (a) = (" + itos(a) + ")", fires); result = CE_VERIFY(ev(a > 0), a); break;
                case 9: fires = !(a > 0); counted = true; SITE(__LINE__, "CE_ASSERT: ev(a > 0): (b) = (" + itos(b) + ")", fires); CE_ASSERT(ev(a > 0), b); break;
                case 10: fires = a > 0; counted = true; want = a > 0; SITE(__LINE__, "CE_REJECT: ev(a > 0): (b) = (" + itos(b) + ")", fires); result = CE_REJECT(ev(a > 0), b); break;
                case 11: fires = true; SITE(__LINE__, "CE_ERROR: : () = ()", fires); CE_ERROR(); break;
                case 12: fires = true; SITE(__LINE__, "CE_ERROR: : (\"bad\", a, p) = (bad, " + itos(a) + ", " + sv + ")", fires); CE_ERROR("bad", a, p); break;
                case 13: fires = !(a > 0 && b > 0); SITE(__LINE__, "CE_ASSERT: a > 0 && b > 0: (a, b, a, b, a, b, a, b, a) = (" + itos(a) + ", " + itos(b) + ", " + itos(a) + ", " + itos(b) + ", " + itos(a) + ", " + itos(b) + ", " + itos(a) + ", " + itos(b) + ", " + itos(a) + ")", fires); CE_ASSERT(a > 0 && b > 0, a, b, a, b, a, b, a, b, a); break;
                case 22: { fires = !(a > 0 || b > 0); S both = itos(a) + ", " + itos(b), l; for (int i = 0; i < 11; ++i) l += (i ? ", " : "") + both; SITE(__LINE__, "CE_ASSERT: a > 0 || b > 0: (a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b) = (" + l + ")", fires); CE_ASSERT(a > 0 || b > 0, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b, a, b); break; }
                case 14: { fires = !(a > 0); want = a > 0; int uses = 0; auto use = [&](int v) { ++uses; return v; }; SITE(__LINE__, "CE_VERIFY: ev(a > 0): (use(b)) = (" + itos(b) + ")", fires); counted = true; result = CE_VERIFY(ev(a > 0), use(b)); SIM_CHECK(uses == (fires || vetoed ? 1 : 0), "evaluations", "an argument of a %s check was evaluated %d times", fires ? "failed" : "passing", uses); break; }
                case 15: { fires = a > 0; Colour k = b > 0 ? Colour::red : Colour::green; SITE(__LINE__, "CE_REJECT: a > 0: (k, nullptr, b > 0, 'x') = (#<enum " + itos(int(k)) + ">, #<nil>, #<" + (b > 0 ? "T" : "F") + ">, x)", fires); want = a > 0; result = CE_REJECT(a > 0, k, nullptr, b > 0, 'x'); break; }
                case 16: { fires = !p[0]; want = p[0] != 0; SITE(__LINE__, "CE_VERIFY: p[0] != 0 ? true : false: (p) = (" + sv + ")", fires); result = CE_VERIFY(p[0] != 0 ? true : false, p); break; }
                case 17: { int k = 0; for (; k < 3; ++k) { fires = k >= a; SITE(__LINE__, "CE_ASSERT: k < a: (k) = (" + itos(k) + ")", fires); CE_ASSERT(k < a, k); SIM_CHECK(c.trapped[me] == (fires ? 1 : 0), "trap-count", "a %s check broke into the debugger %d times", fires ? "failed" : "passing", c.trapped[me]); if (vetoed) must_report(me); else if (!fires) SIM_CHECK(out_of(2, me).size() == c.from[me], "noisy", "a passing check printed"); } break; }
                case 18: { fires = !(a > 0); want = a > 0 ? int(b > 0) : 0; SITE(__LINE__, "CE_VERIFY: a > 0: (b) = (" + itos(b) + ")", fires); result = CE_VERIFY(a > 0, b) && b > 0; break; }
                case 20: case 21:
                {   // the hook itself: a report with any level and any number of pairs, or none at all
                    char const* v[48][2]{ { "CE_VERIFY", "here(1)" }, { "x", "u, v" }, { "", "1" }, { "", p }, { "", "" } };
                    for (int i = 5; i < 48; ++i) v[i][0] = "", v[i][1] = i & 1 ? "odd" : "even";
                    int cnt = int(b % 8 == 0 ? clampmod(b, 0, 47) : clampmod(b, 0, 5)); bool none = (b & 64) != 0;
                    S want_text = "******** FAILED ********\n";
                    if (!none && cnt > 1) { want_text += S("here(1): CE_VERIFY: x: (u, v) = ("); for (int i = 2; i < cnt; ++i) want_text += S(i > 2 ? ", " : "") + v[i][1]; want_text += ")\n"; }
                    arm("", false); want = a == 0;
                    result = ce::os::error(a, cnt, none ? nullptr : v);
                    S got = out_of(2, me).substr(c.from[me]);
                    SIM_CHECK(hard_errors() != c.hard0[me] ? is_prefix(got, want_text) || !got.empty() : got == want_text, "unreported", "the error hook printed \"%s\" instead of \"%s\"", clip(got).c_str(), clip(want_text).c_str());
                    SIM_CHECK(c.trapped[me] == 0 && result == want, "wrong-result", "the error hook gave %d at level %d", result, a);
                    probe("hook_calls");
                    continue;
                }
                default: fires = !(a > 0); want = a > 0 ? 2 : 1; SITE(__LINE__, "CE_VERIFY: a > 0: (u64(b)) = (" + std::to_string(u64(i64(b))) + ")", fires); if (CE_VERIFY(a > 0, u64(b))) result = 2; else result = 1; break;
                }
                probe(fires ? "failing_checks" : "passing_checks");
                SIM_CHECK(c.trapped[me] == (fires ? 1 : 0), "trap-count", "a %s check broke into the debugger %d times", fires ? "failed" : "passing", c.trapped[me]);
                SIM_CHECK(result == want, "wrong-result", "the check yielded %d instead of %d", result, want);
                if (counted) SIM_CHECK(c.evals[me] == 1, "evaluations", "the condition was evaluated %d times", c.evals[me]);
                if (vetoed) must_report(me);
                else if (!fires) SIM_CHECK(out_of(2, me).size() == c.from[me], "noisy", "a passing check printed \"%s\"", clip(out_of(2, me).substr(c.from[me])).c_str());
            }
        });
    run_all();
}

#ifdef USER_HOOKS
namespace hooks
{
    void log(int level, int argc, char const* argv[][2])
    {
        SIM_CHECK(argc >= 0 && argv, "wrong-record", "the log hook was given a list of %d pairs", argc);
        ce::os::log(level, argc, argv);
    }
    bool error(int level, int argc, char const* argv[][2])
    {
        SIM_CHECK(level == 0 && argc >= 2 && argv, "unreported", "the error hook was given level %d and a list of %d pairs", level, argc);
        ce::os::error(level, argc, argv);
        return !g12->veto[self()];
    }
}
#endif
