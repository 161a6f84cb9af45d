// C21 checksums over chunked, corrupted streams; C22 reflected state over a disk that tears and loses unsynced writes.
#include "common.h"
#include "ce/ce.h"
#include "ce/io.h"
using namespace h;

// ------------------------------------------------------------------------------------------------ C21
namespace
{
    struct Sum // one checksum state, continued chunk by chunk
    {
        virtual ~Sum() { }
        virtual u64 start() = 0;
        virtual u64 bytes(u64 st, size_t n, const u8* p) = 0;
        virtual u64 words(u64 st, size_t n, const u32* p) = 0;
        virtual u64 longs(u64 st, size_t n, const u64* p) = 0;
        virtual u64 shorts(u64 st, size_t n, const u16* p) { (void)st; (void)n; (void)p; return 0; }
        virtual bool has_shorts() { return false; }
        virtual u64 reference(const std::string& s) = 0; // bit by bit, from the definition
    };
    template<u32 P> struct Crc : Sum
    {
        using T = ce::crc32_t<P>;
        u64 start() override { return u64(T::initial); }
        u64 bytes(u64 st, size_t n, const u8* p) override { return u64(ce::crc32(T(u32(st)), n, p)); }
        u64 words(u64 st, size_t n, const u32* p) override { return u64(ce::crc32(T(u32(st)), n, p)); }
        u64 longs(u64 st, size_t n, const u64* p) override { return u64(ce::crc32(T(u32(st)), n, p)); }
        u64 reference(const std::string& s) override
        {
            u32 v = ~0u;
            for (unsigned char c : s) { v ^= c; for (int i = 0; i < 8; ++i) v = v & 1 ? v >> 1 ^ P : v >> 1; }
            return u32(~v);
        }
    };
    template<class W> struct Fnv : Sum
    {
        static W go(size_t n, const u8* p, W b) { if constexpr (sizeof(W) == 4) return ce::hash::fnv1a32(n, p, b); else return ce::hash::fnv1a64(n, p, b); }
        template<class U> static W run(size_t n, const U* p, W b) { if constexpr (sizeof(W) == 4) return ce::hash::fnv1a32(n, p, b); else return ce::hash::fnv1a64(n, p, b); }
        u64 start() override { if constexpr (sizeof(W) == 4) return ce::hash::fnv1a32<u8>(0, nullptr); else return ce::hash::fnv1a64<u8>(0, nullptr); }
        u64 bytes(u64 st, size_t n, const u8* p) override { return run(n, p, W(st)); }
        u64 words(u64 st, size_t n, const u32* p) override { return run(n, p, W(st)); }
        u64 longs(u64 st, size_t n, const u64* p) override { return run(n, p, W(st)); }
        u64 shorts(u64 st, size_t n, const u16* p) override { return run(n, p, W(st)); }
        bool has_shorts() override { return true; }
        u64 reference(const std::string& s) override
        {
            u64 v = sizeof(W) == 4 ? 0x811c9dc5u : 0xcbf29ce484222325ull, pr = sizeof(W) == 4 ? 0x01000193u : 0x00000100000001B3ull;
            for (unsigned char c : s) v = W((v ^ c) * pr);
            return v;
        }
    };
    constexpr int NSUM = 7;
    std::unique_ptr<Sum> make_sum(i64 k)
    {
        switch (k)
        {
        case 0: case 1: return std::unique_ptr<Sum>(new Crc<0x82f63b78u>);
        case 2: return std::unique_ptr<Sum>(new Crc<0xedb88320u>);
        case 3: return std::unique_ptr<Sum>(new Crc<0xeb31d82eu>);
        case 4: return std::unique_ptr<Sum>(new Crc<0x80000001u>);
        case 5: return std::unique_ptr<Sum>(new Fnv<u32>);
        default: return std::unique_ptr<Sum>(new Fnv<u64>);
        }
    }
    // feed a whole message in chunks a reader happens to get: every short read is a fault decision
    u64 feed(Sum& sum, const std::string& msg, Rng& g)
    {
        u64 st = sum.start(); size_t at = 0;
        while (at < msg.size())
        {
            size_t left = msg.size() - at, n = left;
            if (decide(K_SHORTW, 2)) n = 1 + g.below(left < 40 ? left : g.below(2) ? 40 : left);
            size_t unit = size_t(1) << g.below(4);
            if (unit == 2 && !sum.has_shorts()) unit = 1;
            if (n < unit) unit = 1;
            n = n / unit * unit;
            size_t skew = g.below(16) & ~(unit - 1);
            u8* block = static_cast<u8*>(alloc(skew + n, 16)), *buf = block + skew;
            acc_write(buf, n); memcpy(buf, msg.data() + at, n);
            auto some = [&](size_t count) { return unit == 8 ? sum.longs(st, count, reinterpret_cast<u64*>(buf)) : unit == 4 ? sum.words(st, count, reinterpret_cast<u32*>(buf)) : unit == 2 ? sum.shorts(st, count, reinterpret_cast<u16*>(buf)) : sum.bytes(st, count, buf); };
            u64 empty = g.chance(1, 8) ? some(0) : st; // an empty read changes nothing
            SIM_CHECK(empty == st, "empty-chunk", "an empty chunk changed the checksum state");
            st = some(n / unit);
            at += n;
            release(block);
            probe(unit == 8 ? "chunks64" : unit == 4 ? "chunks32" : unit == 2 ? "chunks16" : "chunks8");
        }
        return st;
    }
    // the forms for literals and terminated text
    template<size_t N> void literal(const std::string& msg)
    {
        char* lit = static_cast<char*>(alloc(N, 1)); acc_write(lit, N);
        memcpy(lit, msg.data(), N - 1); lit[N - 1] = 0;
        Crc<0x82f63b78u> crc; u64 want = crc.reference(msg.substr(0, N - 1)), got = ce::crc32c(*reinterpret_cast<const char(*)[N]>(lit));
        SIM_CHECK(got == want, "checksum", "crc32c of a literal of %zu bytes gave %llx instead of %llx", N - 1, (unsigned long long)got, (unsigned long long)want);
        release(lit); probe("literals");
    }
    void literals(const std::string& msg)
    {
        if (msg.size() >= 0) literal<1>(msg);
        if (msg.size() >= 1) literal<2>(msg);
        if (msg.size() >= 9) literal<10>(msg);
        if (msg.size() >= 43) literal<44>(msg);
        if (msg.size() >= 300) literal<301>(msg);
        std::string text = msg.substr(0, msg.find('\0'));
        char* z = static_cast<char*>(alloc(text.size() + 1, 1)); acc_write(z, text.size() + 1); memcpy(z, text.c_str(), text.size() + 1);
        Fnv<u32> fnv; u64 want = fnv.reference(text), got = ce::hash::fnv1a(z);
        SIM_CHECK(got == want, "checksum", "fnv1a of a text of %zu bytes gave %llx instead of %llx", text.size(), (unsigned long long)got, (unsigned long long)want);
        release(z); probe("texts");
    }
    struct Frame { std::string wire; int damage; std::string sent; };
}
SIM_PROP(C21, "senders and receivers checksum interleaved streams cut by short reads, over a medium that corrupts frames")
void gen_C21(Rng& g, Scn& s, u64 index)
{
    s.set("sum", i64(g.below(NSUM))); s.set("short", g.chance(1, 5) ? 65536 : i64(g.below(60000))); s.set("damage", g.chance(1, 3) ? 0 : i64(g.below(60000)));
    bool big = index % 50 == 49;
    fill_ops(g, s, int(g.range(1, 3)), 1, 4, [&](int, int) { Op o{}; o.code = index % 250 == 123 ? i64((u64(256) << (2 * g.below(5))) - 1 + g.below(3)) : index % 2000 == 1999 ? i64(65500 + g.below(4500)) : big ? i64(g.below(4097)) : i64(g.below(g.chance(1, 2) ? 20 : 200)); o.a[0] = i64(g.next() >> 2); o.a[1] = i64(g.below(6)); return o; });
}
void run_C21(const Scn& s)
{
    step_cap(40000000);
    int kind = int(s.get("sum", 0, NSUM - 1));
    rate(K_SHORTW, u32(s.get("short", 0, 65536))); rate(K_FAULT, u32(s.get("damage", 0, 65536)));
    size_t n = s.fib.size() < 3 ? s.fib.size() : 3;
    struct Chan { std::vector<Frame> q; size_t got = 0; bool closed = false; Token tok{}; };
    std::vector<Chan> ch(n);
    for (size_t f = 0; f < n; ++f)
    {
        spawn([&, f] { // sender
            auto sum = make_sum(kind); int cnt = 0;
            for (auto& o : s.fib[f])
            {
                if (++cnt > 5) break;
                Rng g(u64(o.a[0])); Frame fr;
                size_t len = size_t(clampmod(o.code, 0, 70000));
                for (size_t i = 0; i < len; ++i) fr.sent += char(clampmod(o.a[1], 0, 5) == 0 ? 0 : clampmod(o.a[1], 0, 5) == 1 ? 255 : g.next());
                u64 want = sum->reference(fr.sent), have = feed(*sum, fr.sent, g);
                SIM_CHECK(have == want, "checksum", "a stream of %zu bytes has checksum %llx however chunked; these chunks gave %llx", len, (unsigned long long)want, (unsigned long long)have);
                if (o.a[1] % 3 == 0 || len < 64) literals(fr.sent);
                fr.wire = fr.sent; for (int i = 0; i < 4; ++i) fr.wire += char(have >> (8 * i));
                size_t bits = fr.wire.size() * 8; fr.damage = 0;
                auto flip = [&](size_t b) { fr.wire[b / 8] = char(fr.wire[b / 8] ^ 1 << b % 8); };
                switch (decide(K_FAULT, 5))
                {
                case 0: break;
                case 1: flip(g.below(bits)); fr.damage = 1; break;
                case 2: case 3:
                {
                    std::set<size_t> where; size_t k = 2 + g.below(2); while (where.size() < k) where.insert(g.chance(1, 4) ? bits - 1 - g.below(32) : g.below(bits));
                    for (size_t b : where) flip(b);
                    fr.damage = int(k); break;
                }
                default: // a burst: any pattern over at most 32 successive bits
                {
                    size_t from = g.below(bits), w = 1 + g.below(32); if (from + w > bits) w = bits - from;
                    flip(from); for (size_t b = from + 1; b < from + w; ++b) if (g.next() & 1) flip(b);
                    fr.damage = 32; break;
                }
                }
                Token t = publish(); join(ch[f].tok, t); ch[f].q.push_back(fr); point();
            }
            ch[f].closed = true;
        });
        spawn([&, f] { // receiver
            auto sum = make_sum(kind); Rng g(f * 31 + 7);
            auto& c = ch[f];
            for (;;)
            {
                wait_until([&] { return c.got < c.q.size() || c.closed; });
                if (c.got >= c.q.size()) break;
                observe(c.tok); Frame fr = c.q[c.got++];
                std::string body = fr.wire.substr(0, fr.wire.size() - 4); u32 tail; memcpy(&tail, fr.wire.data() + body.size(), 4);
                bool accept = u32(feed(*sum, body, g)) == tail;
                if (fr.damage == 0) { SIM_CHECK(accept, "refused", "an undamaged stream of %zu bytes was refused", body.size()); probe("accepted"); }
                else if (kind <= 1) { SIM_CHECK(!accept, "undetected", "damage of kind %d to a stream of %zu bytes was not detected", fr.damage, body.size()); probe("detected"); }
            }
        });
    }
    run_all();
    for (auto& c : ch) SIM_CHECK(c.got == c.q.size(), "lost", "a frame was not received");
}

// ------------------------------------------------------------------------------------------------ C22
enum class Mode : unsigned char { idle, busy, gone = 77 };
struct Part { short a; ce::vec2<short> at; ce::vec<3, int> spin; bool on; };
struct Group { ce::list<Part, 3> parts; unsigned char tag[2][3]; ce::vec2<int> box[2]; double weight; };
struct World { ce::uint64_t time; ce::list<Group, 2> groups; Mode mode; float rate; ce::vec<4, ce::int64_t> wide; ce::list<int, 5> free_ids; };
struct Meters { int v; };
struct Tiny { int only; };
struct Crowd { signed char a, b; unsigned short c; unsigned int d; long long e; ce::list<Tiny, 4> f; Meters g[2]; char h_long_name_x9; int écart, straße; ce::list<ce::list<short, 2>, 3> ll; int one[1]; ce::list<ce::vec2<short>, 1> pts; };
struct Vecs { ce::vec<1, int> v1; ce::vec<3, unsigned char> rgb; ce::vec<4, unsigned short> quad; ce::vec2<double> d2; ce::vec<3, Tiny> tri; ce::vec2<Tiny> duo; ce::list<ce::vec<3, signed char>, 2> cols; ce::vec<3, float> arr[2]; ce::vec<4, bool> flags; };
struct Long { unsigned char blob[260]; ce::list<short, 300> many; ce::list<Tiny, 270> crowd; int a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20; short a_name_long_enough_that_sixty_four_characters_would_not_be_room_for_it; };
#define TWENTY(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20)
CE_IO_AS(ce::vec2<int>, int[2]);
CE_IO_BIND(Part, a, at, spin, on);
CE_IO_BIND(Group, parts, tag, box, weight);
CE_IO_BIND(World, time, groups, mode, rate, wide, free_ids);
CE_IO_AS(Meters, int);
CE_IO_BIND(Tiny, only);
CE_IO_BIND(Crowd, a, b, c,d  , e,
    f, g, h_long_name_x9, écart,straße	, ll, one, pts);
CE_IO_BIND(Vecs,v1,rgb,quad,d2,tri,duo,cols,arr,flags);
CE_IO_BIND(Long, blob, many, crowd, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a_name_long_enough_that_sixty_four_characters_would_not_be_room_for_it);

namespace
{
    struct Pen // token text, written by hand below for the reference, by the visitor for the real thing
    {
        std::string s;
        void raw(char c) { s += c; }
        void num(u64 v) { s.append(reinterpret_cast<char*>(&v), 8); }
        void enter() { raw('{'); }
        void leave() { raw('}'); }
        void open(u64 n, bool var) { raw(var ? '<' : '['); num(n); }
        void close(bool var) { raw(var ? '>' : ']'); }
        void name(const char* n) { raw('n'); s += n; raw('\0'); }
        template<class T> void atom(const T& v) { raw('a'); raw(char(sizeof v)); s.append(reinterpret_cast<const char*>(&v), sizeof v); }
    };
    // the reference: what visiting must produce, spelled out member by member
    void ref(Pen& p, const Part& v)
    {
        p.enter(); p.name("a"); p.atom(v.a); p.name("at"); p.enter(); p.name("x"); p.atom(v.at.x); p.name("y"); p.atom(v.at.y); p.leave();
        p.name("spin"); p.open(3, false); p.atom(v.spin.x); p.atom(v.spin.y); p.atom(v.spin.z); p.close(false); p.name("on"); p.atom(v.on); p.leave();
    }
    void ref(Pen& p, const Group& v)
    {
        p.enter(); p.name("parts"); p.open(v.parts.size, true); for (size_t i = 0; i < v.parts.size; ++i) ref(p, v.parts.data[i]); p.close(true);
        p.name("tag"); p.open(2, false); for (auto& r : v.tag) { p.open(3, false); for (auto& c : r) p.atom(c); p.close(false); } p.close(false);
        p.name("box"); p.open(2, false); for (auto& b : v.box) { p.open(2, false); p.atom(b.x); p.atom(b.y); p.close(false); } p.close(false);
        p.name("weight"); p.atom(v.weight); p.leave();
    }
    void ref(Pen& p, const World& v)
    {
        p.enter(); p.name("time"); p.atom(v.time); p.name("groups"); p.open(v.groups.size, true); for (size_t i = 0; i < v.groups.size; ++i) ref(p, v.groups.data[i]); p.close(true);
        p.name("mode"); p.atom(v.mode); p.name("rate"); p.atom(v.rate); p.name("wide"); p.open(4, false); p.atom(v.wide.x); p.atom(v.wide.y); p.atom(v.wide.z); p.atom(v.wide.w); p.close(false);
        p.name("free_ids"); p.open(v.free_ids.size, true); for (size_t i = 0; i < v.free_ids.size; ++i) p.atom(v.free_ids.data[i]); p.close(true); p.leave();
    }
    void ref(Pen& p, const Crowd& v)
    {
        p.enter(); p.name("a"); p.atom(v.a); p.name("b"); p.atom(v.b); p.name("c"); p.atom(v.c); p.name("d"); p.atom(v.d); p.name("e"); p.atom(v.e);
        p.name("f"); p.open(v.f.size, true); for (size_t i = 0; i < v.f.size; ++i) { p.enter(); p.name("only"); p.atom(v.f.data[i].only); p.leave(); } p.close(true);
        p.name("g"); p.open(2, false); p.atom(v.g[0].v); p.atom(v.g[1].v); p.close(false); p.name("h_long_name_x9"); p.atom(v.h_long_name_x9); p.name("écart"); p.atom(v.écart); p.name("straße"); p.atom(v.straße);
        p.name("ll"); p.open(v.ll.size, true); for (size_t i = 0; i < v.ll.size; ++i) { auto& l = v.ll.data[i]; p.open(l.size, true); for (size_t j = 0; j < l.size; ++j) p.atom(l.data[j]); p.close(true); } p.close(true);
        p.name("one"); p.open(1, false); p.atom(v.one[0]); p.close(false);
        p.name("pts"); p.open(v.pts.size, true); for (size_t i = 0; i < v.pts.size; ++i) { p.enter(); p.name("x"); p.atom(v.pts.data[i].x); p.name("y"); p.atom(v.pts.data[i].y); p.leave(); } p.close(true); p.leave();
    }
    void ref(Pen& p, const Tiny& v) { p.enter(); p.name("only"); p.atom(v.only); p.leave(); }
    template<class T> void ref3(Pen& p, const T& v) { p.open(3, false); p.atom(v.x); p.atom(v.y); p.atom(v.z); p.close(false); }
    template<class T> void ref4(Pen& p, const T& v) { p.open(4, false); p.atom(v.x); p.atom(v.y); p.atom(v.z); p.atom(v.w); p.close(false); }
    void ref(Pen& p, const Vecs& v)
    {
        p.enter(); p.name("v1"); p.open(1, false); p.atom(v.v1.x); p.close(false); p.name("rgb"); ref3(p, v.rgb); p.name("quad"); ref4(p, v.quad);
        p.name("d2"); p.enter(); p.name("x"); p.atom(v.d2.x); p.name("y"); p.atom(v.d2.y); p.leave();
        p.name("tri"); p.open(3, false); ref(p, v.tri.x); ref(p, v.tri.y); ref(p, v.tri.z); p.close(false);
        p.name("duo"); p.enter(); p.name("x"); ref(p, v.duo.x); p.name("y"); ref(p, v.duo.y); p.leave();
        p.name("cols"); p.open(v.cols.size, true); for (size_t i = 0; i < v.cols.size; ++i) ref3(p, v.cols.data[i]); p.close(true);
        p.name("arr"); p.open(2, false); for (auto& a : v.arr) ref3(p, a); p.close(false); p.name("flags"); ref4(p, v.flags); p.leave();
    }
    void ref(Pen& p, const Long& v)
    {
        p.enter(); p.name("blob"); p.open(260, false); for (auto& c : v.blob) p.atom(c); p.close(false);
        p.name("many"); p.open(v.many.size, true); for (size_t i = 0; i < v.many.size; ++i) p.atom(v.many.data[i]); p.close(true);
        p.name("crowd"); p.open(v.crowd.size, true); for (size_t i = 0; i < v.crowd.size; ++i) { p.enter(); p.name("only"); p.atom(v.crowd.data[i].only); p.leave(); } p.close(true);
#define X(N) p.name("a" #N); p.atom(v.a##N);
        TWENTY(X)
#undef X
        p.name("a_name_long_enough_that_sixty_four_characters_would_not_be_room_for_it"); p.atom(v.a_name_long_enough_that_sixty_four_characters_would_not_be_room_for_it); p.leave();
    }
    struct Saver : ce::io<Saver>
    {
        Pen p;
        void enter_class() { p.enter(); }
        void leave_class() { p.leave(); }
        void enter_array(size_t& n, bool var) { p.open(n, var); }
        void leave_array(size_t&, bool var) { p.close(var); }
        void name(char const* n) { p.name(n); }
        template<class T> void atom(T& v) { acc_read(&v, sizeof v); p.atom(v); }
    };
    struct Loader : ce::io<Loader>
    {
        const std::string& s; size_t at = 0; bool ok = true;
        explicit Loader(const std::string& t) : s(t) { }
        char get() { if (at >= s.size()) { ok = false; return 0; } return s[at++]; }
        u64 num() { u64 v = 0; if (s.size() - at < 8) ok = false; else { memcpy(&v, s.data() + at, 8); at += 8; } return v; }
        void enter_class() { if (get() != '{') ok = false; }
        void leave_class() { if (get() != '}') ok = false; }
        void enter_array(size_t& n, bool var) { if (get() != (var ? '<' : '[')) ok = false; u64 v = num(); if (var) n = ok && v < 301 ? v : 0; else if (n != v) ok = false; }
        void leave_array(size_t&, bool var) { if (get() != (var ? '>' : ']')) ok = false; }
        void name(char const* n) { if (get() != 'n') ok = false; for (; *n; ++n) if (get() != *n) ok = false; if (get()) ok = false; }
        template<class T> void atom(T& v) { if (get() != 'a') ok = false; if (get() != char(sizeof v)) ok = false; if (s.size() - at < sizeof v) ok = false; else { acc_write(&v, sizeof v); memcpy(static_cast<void*>(&v), s.data() + at, sizeof v); at += sizeof v; } }
    };
    std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c > 32 && c < 127) o += char(c); else { char b[8]; snprintf(b, 8, "\\%02x", c); o += b; } } return o; }
    struct State { World w; Crowd c; Vecs v; Long* l; };
    void scramble(State& st, Rng& g)
    {
        auto part = [&](Part& p) { p.a = short(g.next()); p.at = { short(g.next()), short(g.next()) }; p.spin = { int(g.next()), int(g.next()), int(g.next()) }; p.on = g.next() & 1; };
        auto group = [&](Group& q) { q.parts.size = g.below(4); for (auto& p : q.parts.data) part(p); for (auto& r : q.tag) for (auto& c : r) c = u8(g.next()); for (auto& b : q.box) b = { int(g.next()), int(g.next()) }; q.weight = double(i64(g.next())) / 3; };
        switch (st.l && g.chance(1, 3) ? 4 : g.chance(1, 5) ? 5 : g.below(4))
        {
        case 5:
        {
            auto& v = st.v; auto u = [&] { return u8(g.next()); };
            v.v1.x = int(g.next()); v.rgb = { u(), u(), u() }; v.quad = { u16(g.next()), u16(g.next()), u16(g.next()), u16(g.next()) }; v.d2 = { double(i64(g.next())) / 7, -double(u()) };
            v.tri = { { int(g.next()) }, { int(g.next()) }, { int(g.next()) } }; v.duo = { { int(g.next()) }, { int(g.next()) } };
            v.cols.size = g.below(3); for (auto& c : v.cols.data) c = { static_cast<signed char>(u()), static_cast<signed char>(u()), static_cast<signed char>(u()) };
            for (auto& a : v.arr) a = { float(u()), float(u()) / 3, -float(u()) }; v.flags = { (u() & 1) != 0, (u() & 1) != 0, (u() & 1) != 0, (u() & 1) != 0 };
            break;
        }
        case 4:
            for (auto& b : st.l->blob) b = u8(g.next());
            st.l->many.size = g.chance(1, 2) ? g.below(301) : g.below(4); for (auto& v : st.l->many.data) v = short(g.next());
            st.l->crowd.size = g.chance(1, 2) ? g.below(271) : g.below(4); for (auto& t : st.l->crowd.data) t.only = int(g.next());
#define X(N) st.l->a##N = int(g.next());
            TWENTY(X)
#undef X
            st.l->a_name_long_enough_that_sixty_four_characters_would_not_be_room_for_it = short(g.next()); break;
        case 0: st.w.groups.size = g.below(3); for (auto& q : st.w.groups.data) group(q); break;
        case 1: st.w.time = g.next(); st.w.mode = Mode(g.below(256)); st.w.rate = float(g.below(1000)) / 7; st.w.wide = { i64(g.next()), i64(g.next()), i64(g.next()), i64(g.next()) }; break;
        case 2: st.w.free_ids.size = g.below(6); for (auto& i : st.w.free_ids.data) i = int(g.next()); break;
        default: st.c.a = static_cast<signed char>(g.next()); st.c.b = static_cast<signed char>(g.next()); st.c.c = u16(g.next()); st.c.d = u32(g.next()); st.c.e = i64(g.next()); st.c.écart = int(g.next()); st.c.straße = int(g.next()); st.c.ll.size = g.below(4); for (auto& l : st.c.ll.data) { l.size = g.below(3); for (auto& v : l.data) v = short(g.next()); } st.c.one[0] = int(g.next()); st.c.pts.size = g.below(2); st.c.pts.data[0] = { short(g.next()), short(g.next()) }; st.c.f.size = g.below(5); for (auto& t : st.c.f.data) t.only = int(g.next()); for (auto& m : st.c.g) m.v = int(g.next()); st.c.h_long_name_x9 = char(g.next()); break;
        }
    }
    std::string reference(const State& st) { Pen p; ref(p, st.w); ref(p, st.c); ref(p, st.v); if (st.l) ref(p, *st.l); return p.s; }

    // a disk: writes land in a cache; a crash keeps, loses or tears every 16-byte sector that was not synced
    struct Disk
    {
        std::string media, cache; std::set<size_t> dirty;
        explicit Disk(size_t n) : media(n, '\0'), cache(n, '\0') { }
        size_t write(size_t at, const std::string& b)
        {
            size_t n = b.size();
            if (u32 v = decide(K_SHORTW, 4)) n = n * v / 4;
            if (n > cache.size() - at) n = cache.size() - at;
            for (size_t i = 0; i < n; ++i) { cache[at + i] = b[i]; dirty.insert((at + i) / 16); }
            point();
            return n;
        }
        void sync() { point(); media = cache; dirty.clear(); point(); }
        void crash(Rng& g)
        {
            for (size_t d : dirty) switch (g.below(3)) { case 0: break; case 1: media.replace(d * 16, 16, cache, d * 16, 16); break; default: { size_t k = g.below(17); media.replace(d * 16, k, cache, d * 16, k); break; } }
            cache = media; dirty.clear();
        }
    };
    constexpr size_t SLOT = 14336;
    std::string frame(u64 seqno, const std::string& body)
    {
        std::string f(16, '\0'); u64 n = body.size(); memcpy(&f[0], &seqno, 8); memcpy(&f[8], &n, 8); f += body;
        u8* p = static_cast<u8*>(alloc(f.size() + 1)); acc_write(p, f.size()); memcpy(p, f.data(), f.size());
        u32 c = u32(ce::crc32(ce::crc32c_t::initial, f.size(), p)); release(p);
        f.append(reinterpret_cast<char*>(&c), 4);
        return f;
    }
    bool unframe(const std::string& slot, u64& seqno, std::string& body)
    {
        u64 n; memcpy(&seqno, slot.data(), 8); memcpy(&n, slot.data() + 8, 8);
        if (n > SLOT - 20 || seqno == 0) return false;
        u8* p = static_cast<u8*>(alloc(n + 17)); acc_write(p, n + 16); memcpy(p, slot.data(), n + 16);
        u32 c = u32(ce::crc32(ce::crc32c_t::initial, n + 16, p)), t; release(p);
        memcpy(&t, slot.data() + 16 + n, 4);
        body = slot.substr(16, n);
        return c == t;
    }
}
SIM_PROP(C22, "clients change reflected state while one checkpoints it to two slots of a disk; crashes at arbitrary points, recovery, repeat")
void gen_C22(Rng& g, Scn& s, u64 index)
{
    s.set("crashes", i64(g.below(4))); s.set("long", i64(index % 12 == 7)); s.set("crashat", i64(g.below(g.chance(1, 2) ? 1500 : 12000))); s.set("short", g.chance(1, 2) ? 0 : i64(g.below(40000))); s.set("stall", g.chance(1, 6) ? i64(g.below(4000)) : 0); s.set("disk", i64(g.below(1 << 30)));
    fill_ops(g, s, int(g.range(1, 3)), 1, 5, [&](int f, int) { Op o{}; o.code = f == 0 ? i64(1 + g.below(3)) : 0; o.a[0] = i64(g.next() >> 2); return o; });
}
void run_C22(const Scn& s)
{
    step_cap(20000000);
    rate(K_SHORTW, u32(s.get("short", 0, 50000))); rate(K_STALL, u32(s.get("stall", 0, 5000)));
    int crashes = int(s.get("crashes", 0, 4)); i64 crashat = s.get("crashat", 0, 20000);
    Disk disk(SLOT * 2); Rng dg(u64(s.get("disk", 0, i64(1) << 30)));
    std::map<u64, std::string> saved; u64 acked = 0;
    for (int epoch = 0; ; ++epoch)
    {
        State* st = nullptr; u64 seqno = 0; Lock lock; int busy = 1;
        spawn([&] { // recovery
            st = make<State>(); st->l = s.get("long", 0, 1) ? make<Long>() : nullptr; { Rng z(99); for (int i = 0; i < 12; ++i) scramble(*st, z); } // stale contents a restore must overwrite
            std::string best; bool found = false;
            for (int k = 0; k < 2; ++k) { u64 q; std::string b; if (unframe(disk.media.substr(size_t(k) * SLOT, SLOT), q, b) && q > seqno) { seqno = q; best = b; found = true; } }
            SIM_CHECK(seqno >= acked, "lost-checkpoint", "recovery found checkpoint %llu; %llu was acknowledged", (unsigned long long)seqno, (unsigned long long)acked);
            if (found)
            {
                auto it = saved.find(seqno);
                SIM_CHECK(it != saved.end() && it->second == best, "mixture", "recovery accepted a checkpoint that was never written");
                Loader l(best); l.item(st->w); l.item(st->c); l.item(st->v); if (st->l) l.item(*st->l);
                SIM_CHECK(l.ok && l.at == best.size(), "restore", "reading a checkpoint back did not match its own structure");
                SIM_CHECK(reference(*st) == best, "restore", "the restored value differs from the saved one");
                probe("restored");
            }
            else { memset(static_cast<void*>(&st->w), 0, sizeof st->w); memset(static_cast<void*>(&st->c), 0, sizeof st->c); memset(static_cast<void*>(&st->v), 0, sizeof st->v); if (st->l) memset(static_cast<void*>(st->l), 0, sizeof *st->l); }
        });
        run_all(); reset_fibers();
        size_t n = s.fib.size() < 4 ? s.fib.size() : 4;
        for (size_t f = 0; f < n; ++f)
            spawn([&, f] {
                int cnt = 0;
                for (auto& o : s.fib[f])
                {
                    if (++cnt > 8) break;
                    Rng g(u64(o.a[0]) + u64(epoch));
                    stall_here();
                    lock.acquire();
                    if (clampmod(o.code, 0, 3) < 2)
                    {
                        for (u64 i = 0, k = 1 + g.below(4); i < k; ++i) scramble(*st, g);
                        lock.release();
                        continue;
                    }
                    Saver v; v.item(st->w); v.item(st->c); v.item(st->v); if (st->l) v.item(*st->l);
                    std::string want = reference(*st), got = v.p.s; v.p.s = std::string();
                    if (got != want)
                    {
                        size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
                        fail("visit", "the visitor's record departs from the declaration at byte %zu of %zu (got %s, want %s)", i, want.size(), esc(got.substr(i > 20 ? i - 20 : 0, 40)).c_str(), esc(want.substr(i > 20 ? i - 20 : 0, 40)).c_str());
                    }
                    probe("saved");
                    u64 q = seqno + 1; saved[q] = want;
                    std::string b = frame(q, want); size_t base = (q & 1) * SLOT, at = 0;
                    while (at < b.size()) at += disk.write(base + at, b.substr(at));
                    disk.sync();
                    seqno = q; acked = q; probe("acknowledged");
                    lock.release();
                }
            });
        bool crash = epoch < crashes;
        if (crash) arm_crash(u64(crashat) + 1);
        Status r = run_all();
        if (crash) arm_crash(0);
        reset_fibers();
        if (r == DONE && (!crash || epoch > crashes)) break;
        if (r == DONE && crash) { disk.crash(dg); continue; } // the process ends; unsynced sectors meet the same fate
        fault_fired(K_FAULT); probe("crashes");
        disk.crash(dg);
    }
}
