// C18 no hidden shared state: concurrent calls on distinct objects; C19 const operations on shared objects.
#include "common.h"
#include "ce/ce.h"
#include "ce/pool.h"
#include "ce/dictionary.h"
#include "ce/cdt.h"
#include "ce/io.h"
#include "ce/nameof.h"
#include "ce/sort.h"
#include "ce/zorder.h"
#include "ce/lziii.h"
#include "ce/clock.h"
#include "ce/mutex.h"
#include "ce/atomic.h"
using namespace h;

enum class Shade { dark, mid, light, blinding = 200 };
struct Leg { int a; short b; ce::vec2<int> at; };
struct Beast { int legs; ce::list<Leg, 4> leg; ce::vec<3, int> mood; unsigned char tag[3]; };
CE_IO_BIND(Leg, a, b, at);
CE_IO_BIND(Beast, legs, leg, mood, tag);
enum class Odd : unsigned char { none };

namespace
{
    struct Dig
    {
        u64 v = 0x2545f4914f6cdd1dull;
        void add(u64 x) { v = (v ^ x) * 0x9fb21c651e98df25ull; v ^= v >> 32; }
        void bytes(const void* p, size_t n) { auto b = static_cast<const u8*>(p); for (size_t i = 0; i < n; ++i) add(b[i]); add(n); }
        void text(const char* a, const char* e) { bytes(a, size_t(e - a)); }
        void str(const char* s) { bytes(s, strlen(s)); }
    };
    // memory of the calling client, released with the scratch
    struct Scratch
    {
        std::vector<void*> ps;
        template<class T> T* get(size_t n = 1) { void* p = alloc(sizeof(T) * n, 16); ps.push_back(p); return static_cast<T*>(p); }
        ~Scratch() { for (void* p : ps) release(p); }
    };

    struct Text : ce::io<Text>
    {
        char as[1200]{ }; char const* prefix{ "" }; char* at = as;
        void enter_class() { at = ce::to_text(at, prefix, '{'); prefix = " "; }
        void leave_class() { at = ce::to_text(at, " }"); }
        void enter_array(size_t&, bool) { at = ce::to_text(at, prefix, '['); prefix = ""; }
        void leave_array(size_t&, bool) { at = ce::to_text(at, ']'); prefix = ", "; }
        void name(char const* n) { at = ce::to_text(at, prefix, n); prefix = ": "; }
        template<class T> void atom(T& d) { at = ce::to_text(at, prefix, d); prefix = ", "; }
    };
    // a visitor that writes nothing but its own digest, for shared objects
    struct Digester : ce::io<Digester>
    {
        Dig* d;
        void enter_class() { d->add(1); }
        void leave_class() { d->add(2); }
        void enter_array(size_t& n, bool v) { d->add(3 + n * 4 + v); }
        void leave_array(size_t&, bool) { d->add(5); }
        void name(char const* n) { d->str(n); }
        template<class T> void atom(T& x) { T c = x; d->bytes(&c, sizeof c); }
    };
    bool g_large; // a run with large sizes: most runs have small ones only
    size_t upto(Rng& g, size_t usual, size_t large) { if (!g_large || g.below(4) == 0) return g.below(usual); return g.below(2) ? g.below(large) : large - 1 - g.below(large / 4 + 1); }
    template<class P> void fill_bytes(P* p, size_t n, Rng& g) { for (size_t i = 0; i < n; ++i) wr(p + i, P(g.next())); }

    typedef ce::cdt<4, 64> Mesh;
    void mesh_digest(const Mesh& m, Dig& d)
    {
        d.add(m.size);
        for (auto f : m.faces()) { for (auto& p : f.ps) d.add(u64(u32(p.x)) << 32 | u32(p.y)); for (auto e : f.es) d.add(u64(e)); for (bool c : f.cs) d.add(c); d.add(f.data); }
        for (auto e : m.edges()) { d.add(u64(u32(e.u.x)) << 32 | u32(e.u.y)); d.add(u64(u32(e.v.x)) << 32 | u32(e.v.y)); d.add(u64(e.primary) * 2 + e.constrained); }
    }
    int coord(Rng& g) { static const int r[] = { 3, 40, 3000, 400000 }; int k = r[g.below(4)]; return int(g.range(-k, k)); }

    int trapped[MAXF]; // breakpoints of each client
    struct Cell { u32 a; u16 b; u16 c; bool operator==(const Cell& o) const { return a == o.a && b == o.b && c == o.c; } };
    // text this client alone sent to the error stream while f ran
    template<class F> void printed(Dig& d, F f) { size_t from = out_of(2, self()).size(); int t = trapped[self()]; f(); std::string o = out_of(2, self()).substr(from); d.bytes(o.data(), o.size()); d.add(u64(trapped[self()] - t)); }
    template<class M> void mesh_walk(M& m, Rng& g, Dig& d)
    {
        for (int i = 0; i < 5; ++i)
        {
            u32 f = 24 + 4 * u32(g.below(m.size * 2 - 6)), e = f + u32(g.below(3));
            auto a = m.edge_vert_a(e), b = m.edge_vert_b(e), o = m.edge_vert_o(e); d.add(u32(a.x)); d.add(u32(b.y)); d.add(u32(o.x)); d.add(M::next_edge(e)); if (m.es[e].e) d.add(m.can_flip(e));
            auto x = m[Mesh::edge_id_t(e)]; d.add(u32(x.u.x)); d.add(u32(x.v.y)); d.add(x.primary * 2 + x.constrained);
            auto t = m[Mesh::face_id_t(f)]; d.add(u32(t.ps[i % 3].x)); d.add(u64(t.es[1]));
            d.add(u32(m.locate({ coord(g), coord(g) }, u32(g.below(99))))); d.add(m.locate_insertion_node(i64(g.range(-300, 300)) * 2, i64(g.range(-300, 300)) * 2, e));
        }
    }

    constexpr int NW = 53;
    void work(int kind, u64 sd0, Dig& d)
    {
        Rng g(sd0); Scratch s;
        switch (kind)
        {
        case 0: { char* t = s.get<char>(64); for (int i = 0; i < 3; ++i) { d.text(t, ce::to_text(t, i64(g.next() >> g.below(64)))); d.text(t, ce::to_text(t, g.next() >> g.below(64))); } break; }
        case 1: { char* t = s.get<char>(64); for (int i = 0; i < 3; ++i) { d.text(t, ce::to_text(t, int(g.next() >> g.below(32)))); d.text(t, ce::to_text(t, u32(g.next()))); d.text(t, ce::to_text(t, short(g.next()))); d.text(t, ce::to_text(t, u16(g.next()))); d.text(t, ce::to_text(t, static_cast<signed char>(g.next()))); d.text(t, ce::to_text(t, u8(g.next()))); } break; }
        case 2: { char* t = s.get<char>(80); for (int i = 0; i < 3; ++i) { double x; u64 b = g.next(); memcpy(&x, &b, 8); d.text(t, ce::to_text(t, x)); float f = float(g.range(-100000, 100000)) / 64; d.text(t, ce::to_text(t, f)); d.text(t, ce::to_text(t, double(g.range(-1000000, 1000000)) / 1024)); } break; }
        case 3: { char* t = s.get<char>(400); d.text(t, ce::to_text(t, "a", int(g.next()), ' ', g.next(), true, ", ", ce::vec3<int>{ int(g.next()), 2, -3 }, Odd(g.below(256)), nullptr)); break; }
        case 4: { int a = int(g.next()); u64 b = g.next(); auto x = ce::as_string{ a, ": ", b, " and ", short(a) }; d.str(x.as); auto y = ce::as_string{ ce::vec2<int>{ a, int(b) } }; d.str(y.as); break; }
        case 5: { Beast* b = s.get<Beast>(); new (b) Beast{ }; b->legs = int(g.next()); b->leg.resize(g.below(5)); for (auto& l : b->leg) l = { int(g.next()), short(g.next()), { int(g.next()), int(g.next()) } }; b->mood = { 1, 2, int(g.next()) }; for (auto& c : b->tag) c = u8(g.next()); Text* t = s.get<Text>(); new (t) Text; t->item("b", *b); d.text(t->as, t->at); break; }
        case 6: { d.str(ce::nameof(Shade(g.below(256)))); d.str(ce::nameof<Beast>()); d.add(u64(ce::as_enum(g.below(2) ? "mid" : "blinding", Shade::dark))); d.add(u64(ce::as_enum<Shade>(g.below(2) ? "nope" : "light"))); break; }
        case 7: { size_t n = upto(g, 40, 3000); u8* p = s.get<u8>(n + 1); fill_bytes(p, n, g); auto c = ce::crc32(ce::crc32c_t::initial, n / 2, p); d.add(u32(ce::crc32(c, n - n / 2, p + n / 2))); using K = ce::crc32_t<0xedb88320>; d.add(u32(ce::crc32(K::initial, n, p))); size_t m = upto(g, 5, 400); u64* q = s.get<u64>(m + 1); fill_bytes(q, m, g); d.add(u32(ce::crc32(ce::crc32c_t::initial, m, q))); u32* w = s.get<u32>(m + 1); fill_bytes(w, m, g); d.add(u32(ce::crc32(ce::crc32c_t::initial, m, w))); break; }
        case 8: { size_t n = upto(g, 40, 3000); u8* p = s.get<u8>(n + 1); fill_bytes(p, n, g); d.add(ce::hash::fnv1a32(n, p)); d.add(ce::hash::fnv1a64(n, p)); u64* q = s.get<u64>(3); fill_bytes(q, 3, g); d.add(ce::hash::fnv1a64(3, q)); d.add(ce::hash::fnv1a("the text")); d.add(ce::crc32c("abc")); break; }
        case 9: { auto* r = s.get<ce::xoroshiro64ss>(); u8 sd[5] = { u8(g.next()), 1, 2, 3, u8(g.next()) }; seed(*r, 5, sd); for (int i = 0; i < 6; ++i) { d.add(next(*r)); d.add(next64(*r)); d.add(next32(*r)); } break; }
        case 10: { auto* r = s.get<ce::xoroshiro128pp>(); u8 sd[5] = { u8(g.next()), 1, 2, 3, u8(g.next()) }; seed(*r, 5, sd); for (int i = 0; i < 6; ++i) { d.add(next(*r)); d.add(next32(*r)); } break; }
        case 11: { auto* r = s.get<ce::pcg32_64_t>(); seed(*r, g.next()); for (int i = 0; i < 6; ++i) { d.add(next(*r)); d.add(next_ranged(*r, 1 + u32(g.below(1000)))); d.add(next_unbiased(*r, 1 + u32(g.below(1000)))); } u8 sd[3] = { 1, 2, u8(g.next()) }; seed(*r, 3, sd); d.add(u64(*r)); break; }
        case 12: { size_t n = upto(g, 30, 700); int r = g.below(2) ? 20 : 5000; int* a = s.get<int>(n + 1); for (size_t i = 0; i < n; ++i) wr(a + i, int(g.below(u64(r)))); ce::intro_sort<4>(a, a + n); d.bytes(a, n * 4); for (int k = 0; k < 5; ++k) { d.add(u64(ce::lower_bound(a, a + n, k * 4) - a)); d.add(u64(ce::upper_bound(a, a + n, k * 4) - a)); } break; }
        case 13: { size_t n = upto(g, 20, 90); u64* a = s.get<u64>(n + 1); for (size_t i = 0; i < n; ++i) wr(a + i, u64(g.next())); ce::insertion_sort(a, a + n); d.bytes(a, n * 8); ce::intro_sort(a, a + n); d.bytes(a, n * 8); n = upto(g, 20, 700); u64* b = s.get<u64>(n + 1); for (size_t i = 0; i < n; ++i) wr(b + i, u64(g.next())); ce::intro_sort(b, b + n); d.bytes(b, n * 8); break; }
        case 14: { for (int i = 0; i < 4; ++i) { int x = int(g.range(-100000, 100000)), y = int(g.range(-100000, 100000)); auto p = ce::to_polar(x, y); d.add(u32(p.x)); d.add(u32(p.y)); auto c = ce::to_cartesian(x, int(g.next())); d.add(u32(c.x)); d.add(u32(c.y)); d.add(u32(ce::sin_2pi(1 << 20, y))); d.add(u32(ce::atan2_2pi(x, y))); } break; }
        case 15: { for (int i = 0; i < 6; ++i) { i64 v = i64(g.next() >> (2 + g.below(50))); d.add(u32(ce::isqrt(v))); d.add(u32(ce::hypot(int(g.range(-9999, 9999)), int(g.range(-9999, 9999))))); d.add(ce::in_range_rr_segment(int(g.range(-99, 99)), int(g.range(-99, 99)), i64(g.below(900)), int(g.range(-99, 99)), int(g.range(-99, 99)))); d.add(ce::in_range_rr_edge(int(g.range(-99, 99)), int(g.range(-99, 99)), i64(g.below(900)), 50, -20)); d.add(ce::in_range_rr_ray(int(g.range(-99, 99)), 4, 9, -5, 20)); d.add(ce::in_range_rr_line(int(g.range(-99, 99)), 4, 9, -5, 20)); } break; }
        case 16: { size_t n = upto(g, 8, 120); auto* p = s.get<ce::vec2<int>>(n + 1); for (size_t i = 0; i < n; ++i) wr(p + i, ce::vec2<int>{ int(g.range(-9, 9)), int(g.range(-9, 9)) }); for (int i = 0; i < 6; ++i) d.add(ce::in_polygon(ce::vec2<int>{ int(g.range(-9, 9)), int(g.range(-9, 9)) }, n, p)); ce::vec2<int> r; d.add(ce::intersect(ce::vec2<int>{ 0, int(g.below(9)) }, ce::vec2<int>{ 100000, 5 }, ce::vec2<int>{ 50, -100000 }, ce::vec2<int>{ 40, 100000 }, r)); d.add(u32(r.x)); d.add(u32(r.y)); break; }
        case 17: { size_t n = upto(g, 24, 300); u64* z = s.get<u64>(n + 1); u64* o = s.get<u64>(n + 1); for (size_t i = 0; i < n; ++i) wr(z + i, ce::z_encode(int(g.next()), int(g.next()))); ce::insertion_sort(z, z + n); int a = int(g.next()), b = int(g.next()), c = int(g.next()), e = int(g.next()); u64 lo = ce::z_encode(a < b ? a : b, c < e ? c : e), hi = ce::z_encode(a < b ? b : a, c < e ? e : c); size_t k = ce::z_query(o, lo, hi, n, z); d.add(k); for (size_t i = 0; i < k && i < n; ++i) { d.add(o[i]); d.add(ce::z_inside(lo, hi, o[i])); } d.add(u64(ce::z_lower_bound(z, z + n, lo) - z)); break; }
        case 18: { u8* e = s.get<u8>(1100); size_t n = 0, out = 0; for (int blk = 0, all = int(3 + upto(g, 1, 60)); blk < all; ++blk) { u8 c = u8(g.next()) | (blk == 0 ? 0x0f : 0); wr(e + n++, c); for (int b = 0; b < 8; ++b) if (c >> b & 1) { wr(e + n++, u8('a' + g.below(20))); ++out; } else { size_t off = 1 + g.below(out < 64 ? out : 64); size_t v = 4096 - off; size_t len = g.below(4); wr(e + n++, u8(v & 255)); wr(e + n++, u8(len * 16 | v >> 8)); out += len + 3; } } size_t k = ce::lziii::size(n, e); d.add(k); if (k < 12000) { u8* o = s.get<u8>(k + 1); ce::lziii::decode(k, o, e); d.bytes(o, k); } break; }
        case 19: { char* t = s.get<char>(1100); size_t n = upto(g, 48, 1000); for (size_t i = 0; i < n; ++i) wr(t + i, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[g.below(64)]); wr(t + n, '\0'); size_t k = ce::base64::size(t); d.add(k); u8* o = s.get<u8>(k + 1); ce::base64::decode(k, o, t); d.bytes(o, k); break; }
        case 20: { Mesh* m = s.get<Mesh>(); m->reset(); for (int i = 0, n = int(2 + upto(g, 10, 60)); i < n; ++i) d.add(m->insert_point({ coord(g), coord(g) }, g.below(400))); mesh_digest(*m, d); for (int i = 0; i < 4; ++i) d.add(m->locate(coord(g), coord(g), u32(g.below(300)))); break; }
        case 21: { Mesh* m = s.get<Mesh>(); m->reset(); int r = g.below(2) ? 3000 : 6; for (int i = 0, n = int(2 + upto(g, 1, 8)); i < n; ++i) d.add(m->insert_edge({ int(g.range(-r, r)) * 32, int(g.range(-r, r)) * 32 }, { int(g.range(-r, r)) * 32, int(g.range(-r, r)) * 32 }, 0)); m->fill(m->locate(coord(g), coord(g), 0), 7); mesh_digest(*m, d); break; }
        case 22: { auto* p = s.get<ce::pool<8, int>>(); p->reset(); ce::pool<8, int>::queue_t q[2]; for (auto& x : q) x.reset(); for (int i = 0; i < 14; ++i) { auto& x = q[g.below(2)]; switch (g.below(3)) { case 0: d.add(p->append_tail(x, i)); break; case 1: d.add(p->insert_head(x, i)); break; default: if (!p->is_empty(x)) d.add(u32(p->head(x))); d.add(p->remove_head(x)); } } break; }
        case 23: { auto* t = s.get<ce::dictionary<8, u64, u32>>(); new (t) ce::dictionary<8, u64, u32>{ }; for (int i = 0; i < 14; ++i) { u32 k = u32(1 + g.below(9)); d.add(u64(t->bind(k, g.next() & 1023))); auto f = t->find(u32(1 + g.below(9))); d.add(u64(f)); if (u64(f)) d.add((*t)[f]); } break; }
        case 24: { auto* q = s.get<ce::min_priority_queue<8, int>>(); q->size = 0; for (int i = 0; i < 16; ++i) if (g.below(3)) d.add(q->enqueue(int(g.below(50)))); else if (!q->empty()) { d.add(u32(q->head())); d.add(u32(q->dequeue())); } break; }
        case 25: { auto* b = s.get<ce::bulk<9, int>>(); new (b) ce::bulk<9, int>; for (int i = 0; i < 14; ++i) switch (g.below(4)) { case 0: case 1: d.add(b->append(i)); break; case 2: d.add(b->remove_at(g.below(9))); break; default: d.add(b->remove_at<true>(g.below(9))); } ce::bulk<9, int> c(*b); for (int v : c) d.add(u32(v)); break; }
        case 26: { auto* b = s.get<ce::bitset<77>>(); b->reset(); for (int i = 0; i < 20; ++i) { size_t k = g.below(77); switch (g.below(4)) { case 0: b->set(k); break; case 1: b->reset(k); break; case 2: b->set(k, g.below(2)); break; default: d.add((*b)[k]); } } for (size_t i = 0; i < 77; ++i) d.add((*b)[i]); break; }
        case 27: { auto n = CE_AS_NAMES_EX(4, "alpha, b + c, f(x, y), \"q,\""); for (int i = 0; i < 4; ++i) d.str(n[i]); static constexpr ce::names_t<sizeof("one,two , three"), 3> nn{ "one,two , three" }; for (auto x : nn.names) d.str(x); break; }
        case 28: { ce::vec2<int> a{ int(g.range(-99, 99)), int(g.range(-99, 99)) }, b{ int(g.range(-99, 99)), 7 }; d.add(u64(ce::dotx(a, b))); d.add(u64(ce::crossx(a, b))); d.add(u64(ce::sqrx(a))); d.add(ce::inside(a, b)); d.add(ce::ball_hits_edge(a, 900, b, { 5, 6 })); auto n = ce::normal(ce::vec3<float>{ 1.0f, float(a.x), float(b.x) }); d.bytes(&n.x, 4); auto q = ce::muldiv(a, 7, 3); d.add(u32(q.x)); break; }
        case 29: { auto* r = s.get<ce::xoroshiro128pp>(); u8 sd[4] = { 9, u8(g.next()), 1, 2 }; seed(*r, 4, sd); for (int i = 0; i < 4; ++i) { d.add(next64(*r)); d.add(next32(*r)); } auto* p = s.get<ce::pcg32_64_t>(); seed(*p, g.next()); for (int i = 0; i < 4; ++i) d.add(next_unbiased(*p, 0xc0000000u + u32(g.below(0x3fffffff)))); d.add(u64(*p)); break; }
        case 30: { for (int i = 0; i < 8; ++i) { char c = char(g.next()); d.add(ce::ascii::is_base10(c) | ce::ascii::is_base16(c) << 1 | ce::ascii::is_base64(c) << 2 | ce::ascii::is_alpha(c) << 3 | ce::ascii::is_upper(c) << 4 | ce::ascii::is_lower(c) << 5); } d.add(ce::base64::size(size_t(g.below(99)))); break; }
        case 31: { for (int i = 0; i < 3; ++i) { int x = int(g.range(-100000, 100000)), y = int(g.range(-100000, 100000)); d.add(u32(ce::cos_2pi(x, int(g.next())))); d.add(u32(ce::polar_mag(x, y))); d.add(u32(ce::polar_ang(x, y))); d.add(u32(ce::degrees_to_angle(int(g.below(360))))); d.add(ce::in_range_rr(x, y, i64(g.next() >> 30))); d.add(ce::ball_hits_ray({ x, y }, i64(g.next() >> 30), { y, 5 }, { 6, x })); d.add(ce::in_range_rr_edge(int(g.range(-9, 9)), int(g.range(-9, 9)), 30, 9, 9)); d.add(ce::in_range_rr_line(int(g.range(-9, 9)), int(g.range(-9, 9)), 30, 9, 9)); } auto m = ce::muldiv(ce::vec2<int>{ int(g.below(999)), -5 }, i64(g.next() >> 20), i64(g.next() >> g.below(50))); d.add(u32(m.x)); d.add(u32(m.y)); break; }
        case 32: { auto* q = s.get<ce::thread_mutex>(); construct_mutex(*q); bool a = try_acquire_mutex(*q); d.add(a); if (a) release_mutex(*q); acquire_mutex(*q); release_mutex(*q); destroy_mutex(*q); auto* w = s.get<ce::thread_shared_mutex>(); construct_mutex(*w); acquire_mutex_shared(*w); d.add(try_acquire_mutex_shared(*w)); release_mutex_shared(*w); d.add(try_acquire_mutex(*w)); release_mutex_shared(*w); d.add(try_acquire_mutex(*w)); release_mutex(*w); acquire_mutex(*w); d.add(try_acquire_mutex_shared(*w)); release_mutex(*w); destroy_mutex(*w); break; }
        case 33: { using V2 = ce::vec2<int>; using V3 = ce::vec3<int>; V2 a{ int(g.range(-99, 99)), int(g.range(-99, 99)) }, b{ int(g.range(-9, 9)), 3 }; V3 u{ int(g.range(-99, 99)), 2, int(g.range(-9, 9)) }, v{ 4, int(g.range(-9, 9)), 7 }; auto w = u; w += v; w -= u; w *= 3; w /= 2; auto z = a; z += b; z -= a; z *= 5; z /= 3; d.add(u32(w.x)); d.add(u32(w.z)); d.add(u32(z.x)); d.add(u32(z.y)); d.add((a == b) | (a != b) << 1 | (u == v) << 2 | (u != v) << 3 | (a == 3) << 4 | (u != 4) << 5); auto c = crossx(u, v); d.add(u64(c.x)); d.add(u64(dotx(u, v))); d.add(u64(ce::sqrx(int(g.range(-9, 9))))); d.add(u64(ce::sqrx(i64(g.range(-9, 9))))); d.add(u64(ce::dotx(7, int(g.range(-9, 9))))); float f = ce::dotx(float(a.x), 2.5f) + ce::sqrx(float(b.x)); d.bytes(&f, 4); break; }
        case 34: { auto* b = s.get<ce::bulk<7, u64>>(); new (b) ce::bulk<7, u64>; for (int i = 0; i < 12; ++i) { b->append(g.next()); if (b->size) { d.add((*b)[b->size - 1]); (*b)[g.below(b->size)] = 5; } if (!g.below(3)) b->remove_at(0); } d.add(b->room()); const auto& cb = *b; for (auto& x : cb) d.add(x); if (cb.size) d.add(cb[0]); auto sp = make_span(*b); for (auto& x : sp) x += 1; for (auto& x : cb) d.add(x); auto* l = s.get<ce::list<int, 6>>(); new (l) ce::list<int, 6>{ }; l->resize(g.below(7)); for (auto& x : *l) x = int(g.next()); for (auto& x : *l) d.add(u32(x)); break; }
        case 35: { auto* t = s.get<ce::dictionary<6, u64, u32>>(); new (t) ce::dictionary<6, u64, u32>{ }; for (int i = 0; i < 6; ++i) t->bind(u32(i), g.next()); (*t)[3u] = 9; const auto& c = *t; for (u32 i = 0; i < 5; ++i) { auto f = c.find(i); if (u64(f)) { d.add(c[f]); d.add(c[i]); } } t->optimize(); d.add(t->size); break; }
        case 36: { static const char* const nm[] = { "dark", "mid", "light", "blinding", "dar", "darkk", "" }; for (int i = 0; i < 3; ++i) { d.add(u64(ce::as_enum(nm[g.below(7)], Shade(7)))); d.str(ce::nameof(Shade(g.below(300)))); d.str(ce::nameof(Odd(g.below(256)))); } d.str(ce::nameof<int>()); d.str(ce::nameof<Leg>()); auto x = ce::as_string{ Shade(g.below(4)), ce::nameof(Shade::light), 'c', -1LL, 5ull, 1.5f, false, static_cast<void*>(nullptr) }; d.str(x.as); break; }
        case 38: { int a = int(g.next()); u64 b = g.next(); printed(d, [&] { CE_LOG(info, a, b, Shade(b % 4)); CE_LOG(error); CE_LOG(spam, ce::vec2<int>{ a, 3 }, "text", a + 1); }); break; }
        case 39: { int a = int(g.next()); printed(d, [&] { CE_LOG_MSG(warn, "a is ", a, ", ", u8(a), '.'); CE_LOG_MSG(note, nullptr, a > 0, short(a)); }); break; }
        case 40: { int a = int(g.below(9)); const char* w = g.below(2) ? "short" : "rather a longer piece of text than the other one"; bool ok[6]; printed(d, [&] { ok[0] = CE_VERIFY(a > 4, a, w); ok[1] = CE_VERIFY(a < 99); ok[2] = CE_REJECT(a > 6, a + 1, Shade(a)); ok[3] = CE_REJECT(a > 77, w); CE_ASSERT(a != 2, a * 3, w); ok[4] = CE_VERIFY(a > 8); ok[5] = CE_REJECT(true, a, a, a); }); for (bool o : ok) d.add(o); break; }
        case 41: { char k[3][8], v[3][12]; for (int i = 0; i < 3; ++i) { *ce::to_text(k[i], "k", int(g.below(9999))) = 0; *ce::to_text(v[i], u32(g.next())) = 0; } char const* av[4][2] = { { k[0], v[0] }, { k[1], v[1] }, { k[2], v[2] }, { nullptr, nullptr } }; printed(d, [&] { for (int i = 0; i < 3; ++i) { ce::os::log(int(g.below(10)) - 1, int(g.below(4)), av); d.add(ce::os::error(int(g.below(3)), int(g.below(4)), g.below(5) ? av : nullptr)); ce::os::debug_out(k[i]); } }); break; }
        case 42: { u64 a = ce::os::monotonic_timestamp(), f = ce::os::monotonic_frequency(), b = ce::os::monotonic_timestamp(); d.add(b >= a); d.add(f); ce::os::sleep_ns(g.below(3000)); u64 c = ce::os::monotonic_timestamp(); ce::os::sleep_ns(1000000000 + g.below(3000000000)); u64 e = ce::os::monotonic_timestamp(); d.add(c >= b); d.add(e - c >= 1000000000 && e > c); break; }
        case 43: { auto* c = s.get<ce::clock<1000>>(); c->reset(); u64 t = 0; for (int i = 0; i < 4; ++i) { u64 k = c->timestamp, r = c->residual, n = c->elapsed(), q = c->timestamp - k; d.add(n == (u128(q) * 1000 + r) / c->frequency); d.add(c->residual == u64((u128(q) * 1000 + r) % c->frequency)); t += n; d.add(c->tick == t); if (g.below(2)) ce::os::sleep_ns(g.below(5000000)); } d.add(c->current() >= t); d.add(c->frequency); break; }
        case 44: { auto v = ce::os::map_span<u8>("no/such/file"); d.add(v.size); d.add(v.data != nullptr); ce::os::file_t f{ nullptr }; d.add(ce::os::open_file(f, "no/such/file")); d.add(f.os_handle != nullptr); ce::span<u8 const> m{ 3, nullptr }; d.add(ce::os::map_span(m, "another")); d.add(m.size); break; }
        case 45: { Mesh* m = s.get<Mesh>(); m->reset(); for (int i = 0, n = int(2 + g.below(5)); i < n; ++i) m->insert_point({ coord(g), coord(g) }, g.below(400)); mesh_walk(*m, g, d); break; }
        case 46: { using B = ce::bulk<9, int>; B* b = s.get<B>(3); for (int i = 0; i < 3; ++i) new (b + i) B; for (int i = 0; i < 10; ++i) { B& x = b[g.below(3)]; B& y = b[g.below(3)]; switch (g.below(5)) { case 0: x.append(i); x.append(i + 1); break; case 1: x = y; break; case 2: { size_t o = x.size; if (x.append_n(g.below(4))) for (size_t k = o; k < x.size; ++k) x[k] = int(k); break; } case 3: d.add(x.resize(g.below(x.size + 1))); break; default: if (g.below(4) == 0) x.clear(); } } for (int i = 0; i < 3; ++i) { const B& x = b[i]; d.add(x.size); for (int v : x) d.add(u32(v)); if (x.size) { d.add(u32(x.back())); b[i].back() = 1; } auto sp = make_span(x); d.add(sp.size); d.add(B::capacity()); } break; }
        case 47: { struct Bag { ce::list<ce::bulk<3, int>, 4> l; }; auto* p = s.get<Bag>(); new (p) Bag{ }; for (int i = 0; i < 8; ++i) switch (g.below(4)) { case 0: case 1: if (p->l.append()) for (int k = 0; k < int(g.below(4)); ++k) p->l.back().append(k + i); break; case 2: d.add(p->l.remove_at<true>(g.below(4))); break; default: { auto c = p->l; p->l.clear(); p->l = c; } } for (auto& x : p->l) for (int v : x) d.add(u32(v)); p->~Bag(); break; }
        case 48: { auto* a = s.get<ce::atomic<u32>>(); new (a) ce::atomic<u32>(u32(g.next())); auto* c = s.get<ce::atomic<EX(Cell, u64)>>(); new (c) ce::atomic<EX(Cell, u64)>(EX((Cell{ u32(g.next()), 1, 2 }), g.next())); auto* f = s.get<ce::atomic<float>>(); new (f) ce::atomic<float>(1.5f); for (int i = 0; i < 4; ++i) { d.add(atomic_fetch_add(*a, u32(g.below(9)))); d.add(atomic_fetch_xor(*a, u32(g.next()))); d.add(atomic_exchange(*a, u32(g.next()))); u32 e = i & 1 ? atomic_load(*a) : 7; d.add(atomic_compare_exchange(*a, e, 12u)); d.add(e); auto x = atomic_load(*c), y = x; y EX(.b,) = u16(g.next()); atomic_store(*c, y); x = atomic_exchange(*c, EX((Cell{ y.a + 1, y.b, 9 }), y + 1)); d.add(x EX(.b,)); float v = atomic_fetch_add(*f, 2.25f); d.bytes(&v, 4); v = atomic_fetch_sub(*f, 1.0f); d.bytes(&v, 4); } break; }
        case 49: { auto x = ce::as_string{ reinterpret_cast<void*>(u64(g.next())), ' ', reinterpret_cast<int*>(u64(g.below(65536))), "ab", u8(g.next()), i64(g.next()) }; d.str(x.as); struct Plain { int q; } pl{ 1 }; auto y = ce::as_string{ pl }; d.add(y.as[0]); auto z = ce::as_string{ true, Shade::mid, Odd::none }; d.str(z.as); break; }
        case 50: { using Q = ce::thread_mutex; auto* q = s.get<Q>(2); for (int i = 0; i < 2; ++i) construct_mutex(q[i]); for (int i = 0; i < 3; ++i) { acquire_mutex(q[0]); d.add(try_acquire_mutex(q[1])); release_mutex(q[1]); release_mutex(q[0]); } for (int i = 0; i < 2; ++i) destroy_mutex(q[i]); auto* w = s.get<ce::thread_shared_mutex>(2); for (int i = 0; i < 2; ++i) construct_mutex(w[i]); acquire_mutex(w[0]); acquire_mutex_shared(w[1]); d.add(try_acquire_mutex_shared(w[1])); release_mutex_shared(w[1]); release_mutex_shared(w[1]); release_mutex(w[0]); d.add(try_acquire_mutex(w[0])); release_mutex(w[0]); for (int i = 0; i < 2; ++i) destroy_mutex(w[i]); break; }
        case 51: // containers of some size
        {
            auto* t = s.get<ce::dictionary<120, u64, u64>>(); new (t) ce::dictionary<120, u64, u64>{ }; for (int i = 0, n = int(g.below(130)); i < n; ++i) d.add(u64(t->bind(g.below(200) << 33, g.next() & 1023))); for (u64 i = 0; i < 200; i += 7) d.add(u64(t->find(i << 33)));
            auto* q = s.get<ce::min_priority_queue<150, u64>>(); q->size = 0; for (int i = 0, n = int(g.below(160)); i < n; ++i) d.add(q->enqueue(g.below(900))); while (!q->empty()) d.add(q->dequeue());
            auto* b = s.get<ce::bulk<150, int>>(); new (b) ce::bulk<150, int>; for (int i = 0, n = int(g.below(160)); i < n; ++i) d.add(b->append(i)); d.add(b->remove_at(g.below(150))); d.add(b->remove_at<true>(g.below(150))); ce::bulk<150, int> c(*b); c.resize(g.below(c.size + 1)); for (int v : c) d.add(u32(v));
            auto* p = s.get<ce::pool<300, int>>(); p->reset(); ce::pool<300, int>::queue_t pq; pq.reset(); for (int i = 0, n = int(g.below(310)); i < n; ++i) d.add(g.below(2) ? p->append_tail(pq, i) : p->insert_head(pq, i)); while (!p->is_empty(pq)) { d.add(u32(p->head(pq))); p->remove_head(pq); }
            auto* z = s.get<ce::bitset<2000>>(); z->reset(); for (int i = 0; i < 100; ++i) z->set(g.below(2000)); for (size_t i = 0; i < 2000; i += 3) d.add((*z)[i]);
            break;
        }
        default: { ce::span<int const> sp{ 5, s.get<int>(5) }; for (int i = 0; i < 5; ++i) wr(const_cast<int*>(sp.data) + i, int(g.next())); for (int v : skip(sp, g.below(7))) d.add(u32(v)); for (int v : trim(sp, g.below(7))) d.add(u32(v)); break; }
        }
    }
}

SIM_PROP(C18, "clients call 53 kinds of library work on their own objects at once; results against the same work alone")
void gen_C18(Rng& g, Scn& s, u64)
{
    bool focus = g.chance(1, 2); i64 k = i64(g.below(NW)); // half the runs: the same kind of work on every client
    fill_ops(g, s, int(g.range(2, 4)), 1, 3, [&](int, int) { Op o{}; o.code = focus ? k : i64(g.below(NW)); o.a[0] = i64(g.next() >> 8); return o; });
    s.set("stall", g.chance(1, 6) ? i64(g.below(2000)) : 0); s.set("alone_last", g.chance(1, 2)); s.set("large", g.chance(1, 12));
}
void run_C18(const Scn& s)
{
    g_large = s.get("large", 0, 1);
    bool last = s.get("alone_last", 0, 1); // the calls made alone come first or last: what is set up at a first use must be set up safely
    rate(K_STALL, u32(s.get("stall", 0, 4000))); step_cap(6000000); set_trap_resume(true);
    memset(trapped, 0, sizeof trapped); on_trap([] { ++trapped[self()]; });
    std::vector<std::vector<u64>> alone(s.fib.size()), together(s.fib.size());
    auto by_itself = [&] {
        for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        {
            int n = 0;
            for (auto& o : s.fib[f]) { if (++n > 5) break; Dig d; work(int(clampmod(o.code, 0, NW - 1)), u64(o.a[0]), d); alone[f].push_back(d.v); }
        }
    };
    if (!last) { spawn(by_itself); run_all(); reset_fibers(); }
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 5) break;
                stall_here();
                Dig d; work(int(clampmod(o.code, 0, NW - 1)), u64(o.a[0]), d); together[f].push_back(d.v);
                probe("calls");
            }
        });
    run_all();
    if (last) { reset_fibers(); spawn(by_itself); run_all(); }
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        for (size_t n = 0; n < together[f].size(); ++n)
            SIM_CHECK(together[f][n] == alone[f][n], "influenced", "work of kind %d gave another result next to other clients than alone", int(clampmod(s.fib[f][n].code, 0, NW - 1)));
}

// ------------------------------------------------------------------------------------------------ C19
namespace
{
    typedef ce::pool<8, int> Pool;
    typedef ce::dictionary<9, u64, u32> Dict;
    struct Shared
    {
        Mesh mesh; Dict dict; Pool pool; Pool::queue_t q[2]; ce::bulk<12, int> bulk; ce::bitset<70> bits; ce::min_priority_queue<8, int> pq;
        int sorted[20]; u64 z[24]; ce::vec2<int> poly[7]; Beast beast; u8 data[48]; char b64[33]; u8 lz[16]; ce::pcg32_64_t pcg; ce::span<int const> sp; ce::atomic<u32> count; ce::atomic<EX(Cell, u64)> cell; ce::atomic<float> ratio; ce::clock<1000> clock;
        struct Large
        {
            ce::dictionary<200, u64, u32> dict; ce::bulk<250, int> bulk; ce::bitset<3000> bits; ce::min_priority_queue<200, int> pq; ce::pool<300, int> pool; ce::pool<300, int>::queue_t q;
            int sorted[600]; u64 z[300]; ce::vec2<int> poly[90]; u8 data[2000]; char b64[801];
        } large; bool is_large;
    };
    void build_large(Shared::Large& w, Rng& g)
    {
        new (&w.dict) ce::dictionary<200, u64, u32>{ }; for (int i = 0, n = int(g.below(210)); i < n; ++i) w.dict.bind(u32(g.below(300)), g.next());
        new (&w.bulk) ce::bulk<250, int>; for (int i = 0, n = int(g.below(251)); i < n; ++i) w.bulk.append(i * 3);
        w.bits.reset(); for (int i = 0; i < 300; ++i) w.bits.set(g.below(3000));
        w.pq.size = 0; for (int i = 0, n = int(g.below(200)); i < n; ++i) w.pq.enqueue(int(g.below(99)));
        w.pool.reset(); w.q.reset(); for (int i = 0, n = int(g.below(300)); i < n; ++i) w.pool.append_tail(w.q, i);
        int k = 0; for (auto& x : w.sorted) x = k += int(g.below(3));
        u64 z = 0; for (auto& x : w.z) x = z += g.next() >> 9;
        for (auto& p : w.poly) p = { int(g.range(-99, 99)), int(g.range(-99, 99)) };
        for (auto& b : w.data) b = u8(g.next());
        for (int i = 0; i < 800; ++i) w.b64[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[g.below(64)];
        w.b64[800] = 0;
    }
    void build(Shared& w, u64 sd0)
    {
        Rng g(sd0); w.is_large = g.chance(1, 8); if (w.is_large) build_large(w.large, g);
        w.mesh.reset(); for (int i = 0, n = int(g.below(w.is_large ? 60 : 14)); i < n; ++i) if (i % 4 == 3) w.mesh.insert_edge({ int(g.range(-3000, 3000)) * 32, int(g.range(-3000, 3000)) * 32 }, { int(g.range(-3000, 3000)) * 32, int(g.range(-3000, 3000)) * 32 }, 0); else w.mesh.insert_point({ coord(g), coord(g) }, 0);
        new (&w.dict) Dict{ }; for (int i = 0, n = int(g.below(9)); i < n; ++i) w.dict.bind(u32(g.below(14)), g.next());
        w.pool.reset(); for (auto& q : w.q) { q.reset(); for (int i = 0, n = int(g.below(4)); i < n; ++i) w.pool.append_tail(q, i); }
        new (&w.bulk) ce::bulk<12, int>; for (int i = 0, n = int(g.below(13)); i < n; ++i) w.bulk.append(i * 3);
        w.bits.reset(); for (int i = 0; i < 30; ++i) w.bits.set(g.below(70));
        w.pq.size = 0; for (int i = 0, n = int(g.below(8)); i < n; ++i) w.pq.enqueue(int(g.below(99)));
        for (auto& x : w.sorted) x = int(g.below(40));
        ce::insertion_sort(w.sorted, w.sorted + 20);
        for (auto& x : w.z) x = ce::z_encode(int(g.next()), int(g.next()));
        ce::insertion_sort(w.z, w.z + 24);
        for (auto& p : w.poly) p = { int(g.range(-9, 9)), int(g.range(-9, 9)) };
        new (&w.beast) Beast{ }; w.beast.leg.resize(g.below(5)); for (auto& l : w.beast.leg) l = { int(g.next()), 4, { 5, 6 } }; w.beast.mood = { 1, 2, int(g.next()) }; w.beast.tag[1] = u8(g.next());
        for (auto& b : w.data) b = u8(g.next());
        for (int i = 0; i < 32; ++i) w.b64[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[g.below(64)];
        w.b64[32] = 0;
        static const u8 lz[16] = { 0x1f, 'a', 'b', 'c', 'd', 'e', 0xfc, 0x1f, 0xfe, 0x0f, 0xfb, 0x2f, 0x01, 'z', 0, 0 };
        memcpy(w.lz, lz, 16);
        w.pcg = ce::pcg32_64_t(g.next());
        w.sp = { 20, w.sorted };
        new (&w.count) ce::atomic<u32>(u32(g.next())); new (&w.cell) ce::atomic<EX(Cell, u64)>(EX((Cell{ 1, u16(g.next()), 2 }), g.next())); new (&w.ratio) ce::atomic<float>(0.75f); w.clock.reset(); w.clock.tick = g.next(); w.clock.residual = 7;
    }
    void query_large(const Shared::Large& w, Rng& g, Scratch& s, Dig& d)
    {
        switch (g.below(8))
        {
        case 0: for (u32 i = 0; i < 20; ++i) { u32 k = u32(g.below(310)); auto p = w.dict.find(k); d.add(u64(p)); if (u64(p)) { d.add(w.dict[p]); d.add(w.dict[k]); } } break;
        case 1: for (int v : w.bulk) d.add(u32(v)); if (w.bulk.size) { d.add(u32(w.bulk.back())); d.add(u32(w.bulk[g.below(w.bulk.size)])); } d.add(make_span(w.bulk).size); break;
        case 2: for (int i = 0; i < 99; ++i) d.add(w.bits[g.below(3000)]); break;
        case 3: d.add(w.pq.empty()); if (!w.pq.empty()) d.add(u32(w.pq.head())); d.add(w.pool.is_empty(w.q)); break;
        case 4: for (int i = 0; i < 8; ++i) { int k = int(g.below(800)); d.add(u64(ce::lower_bound(w.sorted, w.sorted + 600, k) - w.sorted)); d.add(u64(ce::upper_bound(w.sorted, w.sorted + 600, k) - w.sorted)); } for (int i = 0; i < 9; ++i) d.add(ce::in_polygon(ce::vec2<int>{ int(g.range(-99, 99)), int(g.range(-99, 99)) }, 90, w.poly)); break;
        case 5: { u64* o = s.get<u64>(301); int a = int(g.next()), b = int(g.next()), c = int(g.next()), e = int(g.next()); u64 lo = ce::z_encode(a < b ? a : b, c < e ? c : e), hi = ce::z_encode(a < b ? b : a, c < e ? e : c); size_t k = ce::z_query(o, lo, hi, 300, w.z); d.bytes(o, k * 8); d.add(u64(ce::z_lower_bound(w.z, w.z + 300, lo) - w.z)); break; }
        case 6: d.add(u32(ce::crc32(ce::crc32c_t::initial, 2000, w.data))); d.add(ce::hash::fnv1a64(2000, w.data)); break;
        default: { size_t k = ce::base64::size(w.b64); u8* o = s.get<u8>(k + 1); ce::base64::decode(k, o, w.b64); d.bytes(o, k); break; }
        }
    }
    constexpr int NR = 26;
    void query(const Shared& w, int kind, u64 sd, Dig& d)
    {
        Rng g(sd); Scratch s;
        if (w.is_large && g.chance(1, 2)) return query_large(w.large, g, s, d);
        switch (kind)
        {
        case 0: for (int i = 0; i < 4; ++i) d.add(w.mesh.locate(coord(g), coord(g), u32(g.below(400)))); break;
        case 1: mesh_digest(w.mesh, d); break;
        case 2: for (int i = 0; i < 4; ++i) { auto x = w.mesh[Mesh::edge_id_t(24 + i)]; d.add(u32(x.u.x)); d.add(u32(x.v.y)); d.add(x.primary * 2 + x.constrained); auto f = w.mesh[Mesh::face_id_t(24 + 4 * (i & 1))]; d.add(u32(f.ps[i % 3].x)); d.add(u64(f.es[1])); d.add(u32(w.mesh.locate({ coord(g), coord(g) }, u32(g.below(99))))); } break;
        case 3: for (int i = 0; i < 5; ++i) { auto p = w.dict.find(u32(g.below(16))); d.add(u64(p)); if (u64(p)) d.add(w.dict[p]); } break;
        case 4: for (auto& q : w.q) d.add(w.pool.is_empty(q)); d.add(Pool::capacity()); break;
        case 5: for (int v : w.bulk) d.add(u32(v)); d.add(w.bulk.room()); if (w.bulk.size) d.add(u32(w.bulk[w.bulk.size - 1])); d.add(make_span(w.bulk).size); break;
        case 6: for (int i = 0; i < 12; ++i) d.add(w.bits[g.below(70)]); d.add(w.bits.get_size()); break;
        case 7: d.add(w.pq.empty()); if (!w.pq.empty()) d.add(u32(w.pq.head())); break;
        case 8: for (int i = 0; i < 4; ++i) { int k = int(g.below(42)); d.add(u64(ce::lower_bound(w.sorted, w.sorted + 20, k) - w.sorted)); d.add(u64(ce::upper_bound(w.sorted, w.sorted + 20, k) - w.sorted)); } break;
        case 9: { u64* o = s.get<u64>(25); int a = int(g.next()), b = int(g.next()), c = int(g.next()), e = int(g.next()); u64 lo = ce::z_encode(a < b ? a : b, c < e ? c : e), hi = ce::z_encode(a < b ? b : a, c < e ? e : c); size_t k = ce::z_query(o, lo, hi, 24, w.z); d.bytes(o, k * 8); d.add(u64(ce::z_lower_bound(w.z, w.z + 24, lo) - w.z)); break; }
        case 10: for (int i = 0; i < 5; ++i) d.add(ce::in_polygon(ce::vec2<int>{ int(g.range(-9, 9)), int(g.range(-9, 9)) }, 7, w.poly)); break;
        case 11: { Digester v; v.d = &d; v.item(const_cast<Beast&>(w.beast)); break; }
        case 12: d.add(u32(ce::crc32(ce::crc32c_t::initial, 48, w.data))); d.add(ce::hash::fnv1a64(48, w.data)); break;
        case 13: { size_t k = ce::base64::size(w.b64); u8* o = s.get<u8>(k + 1); ce::base64::decode(k, o, w.b64); d.bytes(o, k); break; }
        case 14: { size_t k = ce::lziii::size(12, w.lz); d.add(k); if (k < 200) { u8* o = s.get<u8>(k + 1); ce::lziii::decode(k, o, w.lz); d.bytes(o, k); } break; }
        case 15: d.add(read(w.pcg)); d.add(u64(step(w.pcg))); break;
        case 16: { for (int v : w.sp) d.add(u32(v)); d.add(skip(w.sp, 3).size); d.add(trim(w.sp, 2).size); break; }
        case 17: mesh_walk(w.mesh, g, d); break;
        case 18: { ce::bulk<12, int> c(w.bulk), e; for (int v : c) d.add(u32(v)); e = w.bulk; d.add(e.size); if (w.bulk.size) { d.add(u32(w.bulk.back())); d.add(u32(w.bulk.begin()[0])); d.add(u32(w.bulk.end()[-1])); } break; }
        case 19: for (u32 i = 0; i < 14; ++i) { auto p = w.dict.find(i); if (u64(p)) d.add(w.dict[i]); } break;
        case 20: { Dict c(w.dict); for (u32 i = 0; i < 14; ++i) d.add(u64(c.find(i))); Beast b(w.beast); d.add(u32(b.legs)); for (auto& l : b.leg) d.add(u32(l.a)); auto q = w.q[0]; d.add(w.pool.is_empty(q)); auto pq = w.pq; while (!pq.empty()) d.add(u32(pq.dequeue())); break; }
        case 21: d.add(atomic_load(w.count)); d.add(atomic_load(w.cell)EX(.b,)); { float f = atomic_load(w.ratio); d.bytes(&f, 4); } break;
        case 22: { auto x = ce::as_string{ w.poly[g.below(7)], ' ', w.b64, w.sorted[g.below(20)], ", ", w.z[g.below(24)] }; d.str(x.as); break; }
        case 23: { ce::clock<1000> c = w.clock; d.add(c.tick); d.add(w.clock.residual); d.add(c.frequency); break; }
        case 24: { using B = ce::bulk<12, int>; B* e = s.get<B>(); new (e) B; for (int i = 0, n = int(g.below(13)); i < n; ++i) e->append(i); *e = w.bulk; for (int v : *e) d.add(u32(v)); d.add(B::capacity()); *e = *e; Beast b; b = w.beast; for (auto& l : b.leg) d.add(u32(l.a)); break; }
        default: { char* t = s.get<char>(200); d.text(t, ce::to_text(t, w.poly[g.below(7)])); d.text(t, ce::to_text(t, w.b64)); d.str(ce::nameof(Shade(g.below(3)))); break; }
        }
    }
}

SIM_PROP(C19, "readers run 26 kinds of const operations on one shared set of objects; answers against a lone reader's")
void gen_C19(Rng& g, Scn& s, u64)
{
    s.set("world", i64(g.next() >> 16));
    bool focus = g.chance(1, 2); i64 k = i64(g.below(NR));
    fill_ops(g, s, int(g.range(2, 5)), 1, 4, [&](int, int) { Op o{}; o.code = focus ? k : i64(g.below(NR)); o.a[0] = i64(g.next() >> 8); return o; });
    s.set("stall", g.chance(1, 6) ? i64(g.below(2000)) : 0); s.set("lone_last", g.chance(1, 2));
}
void run_C19(const Scn& s)
{
    bool last = s.get("lone_last", 0, 1);
    rate(K_STALL, u32(s.get("stall", 0, 4000))); step_cap(6000000);
    Shared* w = nullptr; std::string image;
    std::vector<std::vector<u64>> alone(s.fib.size());
    auto it = s.p.find("world"); u64 sd = it == s.p.end() ? 0 : u64(it->second);
    std::vector<std::vector<u64>> among(s.fib.size());
    auto unchanged = [&](int k) { SIM_CHECK(!memcmp(w, image.data(), sizeof *w), "written", "a const operation (kind %d) changed the shared object", k); };
    auto lone = [&] {
        for (size_t f = 0; f < s.fib.size() && f < 6; ++f)
        {
            int n = 0;
            for (auto& o : s.fib[f]) { if (++n > 6) break; int k = int(clampmod(o.code, 0, NR - 1)); Dig d; query(*w, k, u64(o.a[0]), d); alone[f].push_back(d.v); unchanged(k); }
        }
    };
    spawn([&] {
        w = raw<Shared>(); build(*w, sd);
        image.assign(reinterpret_cast<char*>(w), sizeof *w);
        if (!last) lone();
    });
    run_all(); reset_fibers();
    for (size_t f = 0; f < s.fib.size() && f < 6; ++f)
        spawn([&, f] {
            int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 6) break;
                int k = int(clampmod(o.code, 0, NR - 1));
                stall_here();
                Dig d; query(*w, k, u64(o.a[0]), d); among[f].push_back(d.v);
                probe("queries");
                unchanged(k);
            }
        });
    run_all();
    if (last) { reset_fibers(); spawn(lone); run_all(); }
    for (size_t f = 0; f < s.fib.size() && f < 6; ++f)
        for (size_t n = 0; n < among[f].size(); ++n)
            SIM_CHECK(among[f][n] == alone[f][n], "different-answer", "query of kind %d got another answer among other readers than alone", int(clampmod(s.fib[f][n].code, 0, NR - 1)));
}
