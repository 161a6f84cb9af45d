// C20 mesh replicas are a deterministic state machine; C23 point insertions keep a valid Delaunay mesh, also when full;
// C24 constrained edges persist and fill stops exactly at them.
#include "common.h"
#include <algorithm>
#include <cmath>
#include "ce/ce.h"
#include "ce/cdt.h"
using namespace h;

namespace
{
    struct F { i64 x[3], y[3]; u32 e[3]; bool c[3]; u32 data; };
    struct M
    {
        virtual ~M() { }
        virtual void place(int dirt) = 0;
        virtual void drop() = 0;
        virtual size_t bytes() const = 0;
        virtual char* mem() const = 0;
        virtual int q() const = 0;
        virtual size_t limit() const = 0;
        virtual size_t size() const = 0;
        virtual void reset() = 0;
        virtual u64 point(i64 x, i64 y, size_t hint) = 0;
        virtual u64 point_units(i64 x, i64 y, size_t hint) = 0;
        virtual u64 edge(i64 x, i64 y, i64 u, i64 v, size_t hint) = 0;
        virtual void fill(u32 n, u32 info) = 0;
        virtual u32 locate(i64 x, i64 y, u32 hint) const = 0;
        virtual u64 view() const = 0;
        virtual std::vector<F> faces() const = 0;
        virtual void check_views() const = 0;
        virtual u32 refine(i64 x, i64 y, u32 n) const = 0;
        virtual u64 locate_node(i64 x, i64 y, size_t hint) const = 0;
        virtual bool can_flip(u32 n) const = 0;
    };
    template<size_t Q, size_t N> struct MT : M
    {
        typedef ce::cdt<Q, N> T;
        T* t = nullptr;
        void place(int dirt) override { t = static_cast<T*>(alloc(sizeof(T), 16, dirt)); }
        void drop() override { release(t); t = nullptr; }
        size_t bytes() const override { return sizeof(T); }
        char* mem() const override { return reinterpret_cast<char*>(t); }
        int q() const override { return int(Q); }
        size_t limit() const override { return N < 8192 ? N : 8192; }
        size_t size() const override { return t->size; }
        void reset() override { t->reset(); }
        u64 point(i64 x, i64 y, size_t hint) override { return t->insert_point(ce::vec2<ce::int32_t>{ int(x), int(y) }, hint); }
        u64 point_units(i64 x, i64 y, size_t hint) override { return t->insert_point(ce::int64_t(x), ce::int64_t(y), hint); }
        u64 edge(i64 x, i64 y, i64 u, i64 v, size_t hint) override { return t->insert_edge(ce::vec2<ce::int32_t>{ int(x), int(y) }, ce::vec2<ce::int32_t>{ int(u), int(v) }, hint); }
        void fill(u32 n, u32 info) override { t->fill(n, u16(info)); }
        u32 locate(i64 x, i64 y, u32 hint) const override { return t->locate(ce::vec2<ce::int32_t>{ int(x), int(y) }, hint); }
        u64 view() const override // everything the const interface shows
        {
            u64 v = 0x9ae16a3b2f90404full; const T& m = *t;
            auto add = [&](u64 x) { v = (v ^ x) * 0x9fb21c651e98df25ull; v ^= v >> 32; };
            add(m.size);
            for (auto f : m.faces()) { for (auto& p : f.ps) add(u64(u32(p.x)) << 32 | u32(p.y)); for (auto e : f.es) add(u64(e)); for (bool c : f.cs) add(c); add(f.data); }
            for (auto e : m.edges()) { add(u64(u32(e.u.x)) << 32 | u32(e.u.y)); add(u64(u32(e.v.x)) << 32 | u32(e.v.y)); add(u64(e.primary) * 2 + e.constrained); }
            return v;
        }
        std::vector<F> faces() const override
        {
            std::vector<F> r;
            for (size_t n = 6; n < 2 * t->size; ++n)
            {
                auto f = (*static_cast<const T*>(t))[typename T::face_id_t(n * 4)]; F g;
                for (int i = 0; i < 3; ++i) { g.x[i] = f.ps[i].x; g.y[i] = f.ps[i].y; g.e[i] = u32(f.es[i]); g.c[i] = f.cs[i]; }
                g.data = f.data; r.push_back(g);
            }
            return r;
        }
        void check_views() const override // the edge view, the face view and single entries all show the same mesh
        {
            const T& m = *t; auto fs = faces();
            size_t k = 0;
            for (auto f : m.faces())
            {
                SIM_CHECK(k < fs.size(), "views", "the face view has more than %zu faces", fs.size());
                auto& g = fs[k++]; bool ok = f.data == g.data;
                for (int i = 0; i < 3; ++i) ok &= f.ps[i].x == g.x[i] && f.ps[i].y == g.y[i] && u32(f.es[i]) == g.e[i] && f.cs[i] == g.c[i];
                SIM_CHECK(ok, "views", "the face view shows face %zu differently from the face itself", (k + 5) * 4);
            }
            SIM_CHECK(k == fs.size(), "views", "the face view shows %zu of %zu faces", k, fs.size());
            std::vector<char> primary(fs.size() * 3); k = 0;
            for (auto e : m.edges())
            {
                SIM_CHECK(k < primary.size(), "views", "the edge view has more than %zu edges", primary.size());
                size_t n = k / 3; int i = int(k % 3), a = (i + 1) % 3, b = (i + 2) % 3; u32 en = u32(n + 6) * 4 + u32(i); auto& g = fs[n];
                SIM_CHECK(e.u.x == g.x[a] && e.u.y == g.y[a] && e.v.x == g.x[b] && e.v.y == g.y[b] && e.constrained == g.c[i], "views", "the edge view shows edge %u differently from its face", en);
                auto d = m[typename T::edge_id_t(en)];
                SIM_CHECK(d.u == e.u && d.v == e.v && d.primary == e.primary && d.constrained == e.constrained, "views", "edge %u and the edge view differ", en);
                auto va = m.edge_vert_a(en), vb = m.edge_vert_b(en), vo = m.edge_vert_o(en);
                SIM_CHECK(va == e.u && vb == e.v && vo.x == g.x[i] && vo.y == g.y[i], "views", "the vertices of edge %u are shown differently", en);
                SIM_CHECK(ce::is_edge(en) && !ce::is_face(en) && ce::is_face(en | 3) && !ce::is_edge(en | 3) && T::next_edge(en) == en - size_t(i) + size_t(a), "views", "node %u of a face is taken for another", en);
                primary[k++] = e.primary;
            }
            SIM_CHECK(k == primary.size(), "views", "the edge view shows %zu of %zu edges", k, primary.size());
            for (k = 0; k < primary.size(); ++k)
            {
                u32 tw = fs[k / 3].e[k % 3];
                SIM_CHECK(tw == 0 ? primary[k] == 1 : primary[k] + primary[(tw / 4 - 6) * 3 + tw % 4] == 1, "views", "%s of an edge is primary", tw && primary[k] ? "more than one side" : "no side");
            }
        }
        u32 refine(i64 x, i64 y, u32 n) const override { return u32(static_cast<const T*>(t)->refine(x, y, typename T::index_t(n))); }
        u64 locate_node(i64 x, i64 y, size_t hint) const override { return static_cast<const T*>(t)->locate_insertion_node(x, y, hint); }
        bool can_flip(u32 n) const override { return static_cast<const T*>(t)->can_flip(n); }
    };
    constexpr int NSHAPE = 12;
    std::unique_ptr<M> shape(i64 k)
    {
        switch (k)
        {
        case 0: return std::unique_ptr<M>(new MT<0, 8>);
        case 1: return std::unique_ptr<M>(new MT<4, 4>);
        case 2: return std::unique_ptr<M>(new MT<4, 5>);
        case 3: return std::unique_ptr<M>(new MT<1, 6>);
        case 4: return std::unique_ptr<M>(new MT<10, 16>);
        case 5: return std::unique_ptr<M>(new MT<0, 24>);
        case 6: return std::unique_ptr<M>(new MT<4, 32>);
        case 7: return std::unique_ptr<M>(new MT<7, 40>);
        case 8: return std::unique_ptr<M>(new MT<2, 64>);
        case 9: return std::unique_ptr<M>(new MT<4, 700>);
        case 10: return std::unique_ptr<M>(new MT<4, 8192>);
        default: return std::unique_ptr<M>(new MT<3, 10000>);
        }
    }
    // coordinates: a[0], a[1] carry raw entropy; the spread parameter folds them into the wanted range (user units)
    struct Spread { int k; int q; i64 lim; };
    i64 fold(i64 raw, const Spread& s)
    {
        i64 one = i64(1) << s.q;
        switch (s.k)
        {
        case 0: return (i64(u64(raw) % 7) - 3) * 2 * one;                                       // a tiny grid
        case 1: return (i64(u64(raw) % 41) - 20) * 2 * one + i64(u64(raw) >> 20) % (2 * one);   // small, off-grid
        case 2: return (i64(u64(raw) % 2001) - 1000) * one;
        case 3: { static const i64 c[] = { -32768, -32767, -32766, -32764, -2, 0, 2, 1, 32764, 32765, 32766, 32767 }; i64 v = c[u64(raw) % 12]; return v * one; } // extremes
        case 4: return (i64(u64(raw) % 65536) - 32768) * one + i64(u64(raw) >> 20) % one;       // everywhere
        case 5: return (i64(u64(raw) % 13) - 6) * 2500 * 2 * one / 2 / 2 * 2;                   // a coarse grid over most of the square
        default: { u64 r = u64(raw); return (r & 3) == 0 ? fold(i64(r >> 2), { 3, s.q, 0 }) : (r & 3) == 1 ? fold(i64(r >> 2), { 4, s.q, 0 }) : fold(i64(r >> 2), { 1, s.q, 0 }); }
        }
    }
    i64 shrink(i64 v, i64 lim) { while (v > lim || v < -lim) v /= 2; return v; }

    i64 unit(i64 v, int q) { return (v >> q) & ~i64(1); }

    // ------------------------------------------------------------------------------------------ mesh checks
    typedef __int128 i128;
    void check_mesh(const M& m, bool delaunay)
    {
        if (m.size() < 1000 || m.size() % 8 == 0 || m.size() == m.limit()) m.check_views();
        i64 one = i64(1) << m.q(), lo = -32768 * one, hi = 32767 * one;
        auto fs = m.faces();
        SIM_CHECK(fs.size() == 2 * (m.size() - 3), "mesh", "a mesh of %zu vertices shows %zu faces", m.size(), fs.size());
        i128 area = 0; int hull = 0;
        std::set<std::pair<i64, i64>> vs;
        for (size_t k = 0; k < fs.size(); ++k)
        {
            auto& f = fs[k]; u32 fn = u32(k + 6) * 4;
            for (int i = 0; i < 3; ++i)
            {
                vs.insert({ f.x[i], f.y[i] });
                SIM_CHECK(f.x[i] >= lo && f.x[i] <= hi && f.y[i] >= lo && f.y[i] <= hi, "mesh", "face %u has a vertex outside the square", fn);
            }
            i128 a = i128(f.x[1] - f.x[0]) * (f.y[2] - f.y[0]) - i128(f.y[1] - f.y[0]) * (f.x[2] - f.x[0]);
            SIM_CHECK(a < 0, "orientation", "face %u of %zu is %s", fn, fs.size(), a == 0 ? "degenerate" : "turned over");
            area -= a;
            for (int i = 0; i < 3; ++i)
            {
                int b = (i + 1) % 3, c = (i + 2) % 3;
                if (f.e[i] == 0)
                {
                    ++hull;
                    SIM_CHECK((f.x[b] == f.x[c] && (f.x[b] == lo || f.x[b] == hi)) || (f.y[b] == f.y[c] && (f.y[b] == lo || f.y[b] == hi)), "neighbours", "edge %u has no neighbour but is not on the rim", fn + i);
                    SIM_CHECK(f.c[i], "neighbours", "rim edge %u is not constrained", fn + i);
                    continue;
                }
                u32 t = f.e[i];
                SIM_CHECK(t % 4 != 3 && t >= 24 && t / 4 - 6 < fs.size() && t / 4 != fn / 4, "neighbours", "edge %u names %u as its twin", fn + i, t);
                auto& g = fs[t / 4 - 6]; int ti = int(t % 4), tb = (ti + 1) % 3, tc = (ti + 2) % 3;
                SIM_CHECK(g.e[ti] == fn + i, "neighbours", "edge %u names %u, which names %u", fn + i, t, g.e[ti]);
                SIM_CHECK(g.x[tb] == f.x[c] && g.y[tb] == f.y[c] && g.x[tc] == f.x[b] && g.y[tc] == f.y[b], "neighbours", "edge %u and its twin %u have different ends", fn + i, t);
                SIM_CHECK(g.c[ti] == f.c[i], "neighbours", "edge %u and its twin disagree on the constraint", fn + i);
                if (delaunay && !f.c[i])
                {
                    i128 ax = (f.x[0] - g.x[ti]) >> m.q(), ay = (f.y[0] - g.y[ti]) >> m.q(), bx = (f.x[1] - g.x[ti]) >> m.q(), by = (f.y[1] - g.y[ti]) >> m.q(), cx = (f.x[2] - g.x[ti]) >> m.q(), cy = (f.y[2] - g.y[ti]) >> m.q();
                    i128 d = (ax * ax + ay * ay) * (bx * cy - by * cx) + (bx * bx + by * by) * (cx * ay - cy * ax) + (cx * cx + cy * cy) * (ax * by - ay * bx);
                    SIM_CHECK(d >= 0, "delaunay", "the vertex across edge %u lies inside the circle of its face", fn + i);
                }
            }
        }
        SIM_CHECK(area == 2 * i128(65535 * one) * (65535 * one), "mesh", "the faces do not tile the square");
        SIM_CHECK(hull == 4, "mesh", "%d rim edges", hull);
        SIM_CHECK(vs.size() == m.size(), "mesh", "%zu distinct vertices in a mesh of size %zu", vs.size(), m.size());
    }
    bool sos_inside(i64 ax, i64 ay, i64 bx, i64 by)
    {
        i128 l = i128(ax) * by, r = i128(ay) * bx;
        return l != r ? l < r : ay != by ? by < ay : ax < bx;
    }
    u32 brute(const std::vector<F>& fs, i64 x, i64 y)
    {
        u32 r = 0;
        for (size_t k = 0; k < fs.size(); ++k)
        {
            auto& f = fs[k];
            i64 ax = f.x[0] - x, ay = f.y[0] - y, bx = f.x[1] - x, by = f.y[1] - y, cx = f.x[2] - x, cy = f.y[2] - y;
            if (sos_inside(ax, ay, bx, by) && sos_inside(bx, by, cx, cy) && sos_inside(cx, cy, ax, ay)) { if (r) return 1; r = u32(k + 6) * 4 + 3; }
        }
        return r;
    }
    std::set<std::pair<i64, i64>> vertices(const M& m) { std::set<std::pair<i64, i64>> v; for (auto& f : m.faces()) for (int i = 0; i < 3; ++i) v.insert({ f.x[i], f.y[i] }); return v; }

    struct Hints // what a client remembers from earlier, perhaps long stale
    {
        u32 seen[4] = { }; int n = 0;
        void keep(u32 v) { seen[n++ % 4] = v; }
        u32 pick(i64 raw, size_t size) const
        {
            u64 r = u64(raw);
            switch (r % 6) { case 0: return 0; case 1: case 2: return seen[(r >> 8) % 4]; case 3: return u32((r >> 8) % (size * 8 + 40)); case 4: return u32(r >> 8) & 0xffff; default: return u32(r >> 8); }
        }
    };
}

// ------------------------------------------------------------------------------------------------ C23
SIM_PROP(C23, "clients insert points into a shared mesh until it is full, with stale hints, while others locate; mesh checked after every insertion")
void gen_C23(Rng& g, Scn& s, u64 index)
{
    bool big = index % 400 == 399, huge = index % 2000 == 1500;
    s.set("shape", huge ? 9 + i64(g.below(3)) : big ? 9 : i64(g.below(9))); s.set("spread", huge ? i64(2 + 2 * g.below(2)) : i64(g.below(7))); s.set("stall", g.chance(1, 6) ? i64(g.below(3000)) : 0); s.set("check", big ? 40 : 1);
    bool few = g.chance(1, 2);
    fill_ops(g, s, int(g.range(1, 4)), 2, big ? 250 : huge ? 16 : few ? 6 : 24, [&](int, int) { Op o{}; o.code = huge && g.below(3) == 0 ? 3 : g.below(4) ? 0 : i64(1 + g.below(2)); for (auto& a : o.a) a = i64(g.next() >> 2); return o; });
}
void run_C23(const Scn& s)
{
    rate(K_STALL, u32(s.get("stall", 0, 4000))); step_cap(200000000); set_trap_resume(true); no_traps();
    auto m = shape(s.get("shape", 0, NSHAPE - 1));
    Spread sp{ int(s.get("spread", 0, 6)), m->q(), 0 };
    int every = int(s.get("check", 1, 64)); int count = 0;
    Lock lock; std::set<std::pair<i64, i64>> model;
    i64 one = i64(1) << m->q();
    spawn([&] { m->place(-1); m->reset(); check_mesh(*m, true); model = vertices(*m); });
    run_all(); reset_fibers();
    for (size_t f = 0; f < s.fib.size() && f < MAXF; ++f)
        spawn([&, f] {
            Hints hints; int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 400) break;
                i64 x = fold(o.a[0], sp), y = fold(o.a[1], sp);
                if (clampmod(o.code, 0, 3) == 3)
                {   // many points at once, from one client
                    lock.acquire();
                    Rng g(u64(o.a[3])); size_t k = 50 + g.below(3000);
                    while (k--)
                    {
                        x = fold(i64(g.next() >> 2), sp); y = fold(i64(g.next() >> 2), sp);
                        i64 ux = unit(x, m->q()), uy = unit(y, m->q()); std::pair<i64, i64> v{ ux * one, uy * one };
                        bool rim = ux == -32768 || uy == -32768, dup = model.count(v); size_t size = m->size();
                        bool want = dup || (!rim && size < m->limit());
                        bool ok = m->point(x, y, g.below(3) ? size * 8 - 1 - g.below(40) : hints.pick(i64(g.next() >> 2), size));
                        SIM_CHECK(ok == want, "result", "inserting %s point (%lld,%lld) into a mesh of %zu of %zu vertices returned %d", dup ? "an existing" : rim ? "a rim" : "a new", (long long)ux, (long long)uy, size, m->limit(), ok);
                        SIM_CHECK(m->size() == size + (ok && !dup), "result", "an insertion changed the size from %zu to %zu", size, m->size());
                        if (ok && !dup) { model.insert(v); probe("inserted"); if (size + 1 == m->limit()) { probe("filled-to-the-limit"); check_mesh(*m, true); SIM_CHECK(vertices(*m) == model, "vertices", "the mesh's vertices are not the inserted points"); } }
                        else if (!dup) { probe("full"); if (!rim) k /= 4; }
                    }
                    check_mesh(*m, true); SIM_CHECK(vertices(*m) == model, "vertices", "the mesh's vertices are not the inserted points");
                    lock.release();
                }
                else if (clampmod(o.code, 0, 3) == 0)
                {
                    lock.acquire();
                    bool outside = (u64(o.a[3]) & 31) == 7 && m->q() < 8; // now and then a point beyond the square
                    if (outside) x += (x < 0 ? -1 : 1) * 70000 * one;
                    bool raw = !outside && (u64(o.a[3]) >> 8 & 3) == 0; // by the mesh's own grid, odd places too
                    i64 ux = raw ? x >> m->q() : unit(x, m->q()), uy = raw ? y >> m->q() : unit(y, m->q());
                    if (raw) { if (u64(o.a[3]) >> 10 & 1 && ux < 32767) ++ux; if (u64(o.a[3]) >> 11 & 1 && uy < 32767) ++uy; probe("by-units"); }
                    std::pair<i64, i64> v{ ux * one, uy * one };
                    bool rim = !outside && (ux == -32768 || uy == -32768 || ux == 32767 || uy == 32767);
                    bool dup = model.count(v);
                    u64 before = m->view(); size_t size = m->size();
                    bool want = !outside && (dup || (!rim && size < m->limit()));
                    bool ok = raw ? m->point_units(ux, uy, hints.pick(o.a[2], size)) != 0 : m->point(x, y, hints.pick(o.a[2], size)) != 0;
                    SIM_CHECK(ok == want, "result", "inserting %s point (%lld,%lld) into a mesh of %zu of %zu vertices returned %d", outside ? "an outside" : dup ? "an existing" : rim ? "a rim" : "a new", (long long)ux, (long long)uy, size, m->limit(), ok);
                    if (!ok || dup)
                    {
                        SIM_CHECK(m->view() == before, "changed", "an insertion that %s changed the mesh", dup ? "repeats a vertex" : "was refused");
                        probe(outside ? "outside" : dup ? "duplicate" : rim ? "rim" : "full");
                    }
                    else
                    {
                        model.insert(v); probe("inserted");
                        SIM_CHECK(m->size() == size + 1, "result", "an insertion grew the mesh from %zu to %zu", size, m->size());
                        if (++count % every == 0 || size + 1 == m->limit()) { check_mesh(*m, true); SIM_CHECK(vertices(*m) == model, "vertices", "the mesh's vertices are not the inserted points"); }
                    }
                    lock.release();
                }
                else
                {
                    lock.acquire_shared();
                    if (clampmod(o.code, 0, 3) == 2) { x += i64(u64(o.a[3]) % 7) - 3; y += i64(u64(o.a[3]) / 7 % 7) - 3; }
                    x = x < -40000 * one ? -40000 * one : x > 40000 * one ? 40000 * one : x;
                    u32 hint = hints.pick(o.a[2], m->size());
                    u32 r = m->locate(x, y, hint), want = brute(m->faces(), x, y);
                    SIM_CHECK(r == want, "location", "location of (%lld,%lld) from hint %u is %u; the face is %u", (long long)x, (long long)y, hint, r, want);
                    hints.keep(r); probe(r ? "located" : "located-outside");
                    // where a point of the mesh's own grid would be inserted
                    i64 ux = unit(x, m->q()), uy = unit(y, m->q());
                    u64 node = m->locate_node(ux, uy, hint); bool in = ux >= -32768 && ux <= 32767 && uy >= -32768 && uy <= 32767;
                    auto fs = m->faces();
                    SIM_CHECK(node ? in && node >= 24 && node / 4 - 6 < fs.size() : !in, "location", "the node to insert (%lld,%lld) at is %llu, from hint %u", (long long)ux, (long long)uy, (unsigned long long)node, hint);
                    if (node)
                    {
                        auto& t = fs[node / 4 - 6]; int on = 0, at = -1; bool closed = true;
                        for (int i = 0; i < 3; ++i)
                        {
                            i64 ax = (t.x[(i + 1) % 3] >> m->q()) - ux, ay = (t.y[(i + 1) % 3] >> m->q()) - uy, bx = (t.x[(i + 2) % 3] >> m->q()) - ux, by = (t.y[(i + 2) % 3] >> m->q()) - uy;
                            i64 c = ax * by - ay * bx; if (c > 0) closed = false; if (c == 0) ++on, at = i;
                        }
                        SIM_CHECK(closed, "location", "the node to insert (%lld,%lld) at is %llu, a face the point is not in", (long long)ux, (long long)uy, (unsigned long long)node);
                        u32 fn = u32(node & ~u64(3)), part = m->refine(ux, uy, fn), wantp = on == 0 ? fn + 3 : on == 1 ? fn + u32(at) : 0;
                        SIM_CHECK(part == wantp, "location", "(%lld,%lld) is on part %u of face %u, not %u", (long long)ux, (long long)uy, wantp, fn, part);
                        probe(on == 0 ? "refined-inside" : on == 1 ? "refined-on-edge" : "refined-at-vertex");
                    }
                    lock.release_shared();
                }
            }
        });
    run_all();
    check_mesh(*m, true);
    SIM_CHECK(vertices(*m) == model, "vertices", "the mesh's vertices are not the inserted points");
}

// ------------------------------------------------------------------------------------------------ C24
namespace
{
    // a point put into a region that constraints bound and one fill value covers leaves that value on all of it
    void check_inherited(const std::vector<F>& before, const std::vector<F>& after)
    {
        std::vector<int> comp(before.size(), -1); std::vector<i64> value; bool varied = false;
        for (size_t k = 0; k < before.size(); ++k)
        {
            varied |= before[k].data != before[0].data;
            if (comp[k] >= 0) continue;
            int id = int(value.size()); value.push_back(before[k].data); comp[k] = id;
            std::vector<size_t> st{ k };
            while (!st.empty()) { size_t j = st.back(); st.pop_back(); if (before[j].data != value[size_t(id)]) value[size_t(id)] = -1; for (int i = 0; i < 3; ++i) if (!before[j].c[i]) { size_t n = before[j].e[i] / 4 - 6; if (comp[n] < 0) { comp[n] = id; st.push_back(n); } } }
        }
        for (size_t k = 0; k < after.size(); ++k)
        {
            auto& f = after[k]; i64 x = f.x[0] + f.x[1] + f.x[2], y = f.y[0] + f.y[1] + f.y[2]; // three times its centre
            if (!varied) { SIM_CHECK(f.data == before[0].data, "inherited", "a new point left face %zu with value %u in a mesh filled with %u", (k + 6) * 4, f.data, before[0].data); continue; }
            for (size_t j = 0; j < before.size(); ++j)
            {
                auto& b = before[j]; i64 ax = 3 * b.x[0] - x, ay = 3 * b.y[0] - y, bx = 3 * b.x[1] - x, by = 3 * b.y[1] - y, cx = 3 * b.x[2] - x, cy = 3 * b.y[2] - y;
                if (!sos_inside(ax, ay, bx, by) || !sos_inside(bx, by, cx, cy) || !sos_inside(cx, cy, ax, ay)) continue;
                if (i64 v = value[size_t(comp[j])]; v >= 0) { SIM_CHECK(f.data == v, "inherited", "a new point left face %zu with value %u in a region filled with %lld", (k + 6) * 4, f.data, (long long)v); probe("inherited"); }
            }
        }
    }
}
SIM_PROP(C24, "clients insert constraint edges and fill regions of a shared mesh; constraint paths and filled regions checked after every command")
void gen_C24(Rng& g, Scn& s, u64 index)
{
    bool big = index % 300 == 299, huge = index % 3000 == 1700;
    s.set("shape", huge ? 9 + i64(g.below(3)) : big ? 9 : g.chance(1, 4) ? i64(g.below(9)) : i64(5 + g.below(4))); s.set("spread", i64(g.below(7))); s.set("stall", g.chance(1, 6) ? i64(g.below(3000)) : 0);
    fill_ops(g, s, int(g.range(1, 3)), 1, big ? 120 : huge ? 8 : g.chance(1, 2) ? 4 : 12, [&](int, int i) { Op o{}; o.code = huge && i < 2 ? 4 : big && g.below(3) ? 0 : i64(g.below(4)); for (auto& a : o.a) a = i64(g.next() >> 2); return o; });
}
void run_C24(const Scn& s)
{
    rate(K_STALL, u32(s.get("stall", 0, 4000))); step_cap(200000000); set_trap_resume(true); no_traps();
    auto m = shape(s.get("shape", 0, NSHAPE - 1));
    Spread sp{ int(s.get("spread", 0, 6)), m->q(), 0 };
    i64 one = i64(1) << m->q();
    Lock lock;
    typedef std::pair<i64, i64> V;
    struct Kept { V a, b; double d; };
    std::vector<Kept> kept;
    spawn([&] { m->place(-1); m->reset(); });
    run_all(); reset_fibers();
    // How far from the straight line between its ends an inserted edge strays: the least corridor in which constrained
    // edges join the ends.  Crossings may bend an edge when it goes in; nothing that comes later moves it any further.
    auto corridor = [&](const Kept& k, const std::vector<std::pair<V, V>>& cs) {
        double dx = double(k.b.first - k.a.first), dy = double(k.b.second - k.a.second), len = dx * dx + dy * dy;
        auto off = [&](V v) { double x = double(v.first - k.a.first), y = double(v.second - k.a.second), t = len > 0 ? (x * dx + y * dy) / len : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; x -= t * dx; y -= t * dy; return sqrt(x * x + y * y) / double(one); };
        std::vector<std::pair<double, size_t>> by;
        for (size_t i = 0; i < cs.size(); ++i) { double d = std::max(off(cs[i].first), off(cs[i].second)); if (d <= k.d + 0.001) by.push_back({ d, i }); }
        std::sort(by.begin(), by.end());
        std::map<V, V> up; V none{ INT64_MIN, 0 };
        std::function<V(V)> root = [&](V v) { auto it = up.find(v); if (it == up.end()) { up[v] = none; return v; } if (it->second == none) return v; V r = root(it->second); up[v] = r; return r; };
        if (k.a == k.b) return 0.0;
        for (auto& e : by) { V a = root(cs[e.second].first), b = root(cs[e.second].second); if (a != b) up[a] = b; if (root(k.a) == root(k.b)) return e.first; }
        return 1e18;
    };
    auto constrained = [&] { std::vector<std::pair<V, V>> cs; for (auto& f : m->faces()) for (int i = 0; i < 3; ++i) if (f.c[i]) cs.push_back({ { f.x[(i + 1) % 3], f.y[(i + 1) % 3] }, { f.x[(i + 2) % 3], f.y[(i + 2) % 3] } }); return cs; };
    // an edge that crosses no constraint and no other edge right at a vertex on its way: nothing can keep it out
    auto free_edge = [&](const std::vector<F>& before, const std::vector<F>& after, V a, V b) {
        for (V v : { a, b }) { bool was = false; for (auto& f : before) for (int i = 0; i < 3; ++i) was |= V{ f.x[i], f.y[i] } == v; if (!was && (v.first == -32768 * one || v.second == -32768 * one)) return false; } // no points go on the rim
        auto side = [](V p, V q, V r) { i128 d = i128(q.first - p.first) * (r.second - p.second) - i128(q.second - p.second) * (r.first - p.first); return d < 0 ? -1 : d > 0 ? 1 : 0; };
        auto cross = [&](V c, V d) { return side(a, b, c) * side(a, b, d) < 0 && side(c, d, a) * side(c, d, b) < 0; };
        for (auto& f : before) for (int i = 0; i < 3; ++i) if (f.c[i] && cross({ f.x[(i + 1) % 3], f.y[(i + 1) % 3] }, { f.x[(i + 2) % 3], f.y[(i + 2) % 3] })) return false;
        double dx = double(b.first - a.first), dy = double(b.second - a.second), len = dx * dx + dy * dy;
        auto along = [&](V v) { return ((double(v.first - a.first)) * dx + (double(v.second - a.second)) * dy) / len; };
        std::vector<double> at;
        for (auto v : vertices(*m)) { double t = along(v); double x = double(v.first - a.first) - t * dx, y = double(v.second - a.second) - t * dy; if (sqrt(x * x + y * y) < 4 * double(one)) at.push_back(t); }
        for (auto& f : after) for (int i = 0; i < 3; ++i)
        {
            V c{ f.x[(i + 1) % 3], f.y[(i + 1) % 3] }, d{ f.x[(i + 2) % 3], f.y[(i + 2) % 3] };
            if (!cross(c, d)) continue;
            double px = double(d.first - c.first), py = double(d.second - c.second), den = dx * py - dy * px;
            double t = den == 0 ? 0 : (double(c.first - a.first) * py - double(c.second - a.second) * px) / den;
            for (double w : at) if (fabs(t - w) * sqrt(len) < 4 * double(one)) return false;
        }
        probe("edges-that-had-to-go-in");
        return true;
    };
    int turn = 0;
    auto paths = [&] {
        if (kept.empty()) return;
        auto cs = constrained();
        if (cs.size() > 300 && ++turn % 8) return;
        for (auto& k : kept) SIM_CHECK(corridor(k, cs) <= k.d + 0.001, "constraint-lost", "the ends of an inserted edge, (%lld,%lld) and (%lld,%lld), are no longer joined by constrained edges where they were when it was inserted", (long long)(k.a.first / one), (long long)(k.a.second / one), (long long)(k.b.first / one), (long long)(k.b.second / one));
    };
    for (size_t f = 0; f < s.fib.size() && f < MAXF; ++f)
        spawn([&, f] {
            Hints hints; int n = 0;
            for (auto& o : s.fib[f])
            {
                if (++n > 200) break;
                i64 x = shrink(fold(o.a[0], sp), 32768 * one), y = shrink(fold(o.a[1], sp), 32768 * one);
                Rng g(u64(o.a[3]));
                lock.acquire();
                size_t size = m->size();
                switch (clampmod(o.code, 0, 4))
                {
                case 4: { size_t k = 200 + g.below(3000); u32 d = m->faces()[0].data; bool same = kept.empty(); for (auto& b : m->faces()) same &= b.data == d; while (k--) m->point(fold(i64(g.next() >> 2), sp), fold(i64(g.next() >> 2), sp), m->size() * 8 - 1 - g.below(40)); check_mesh(*m, false); paths(); if (same) for (auto& b : m->faces()) SIM_CHECK(b.data == d, "inherited", "new points left a face with value %u in a mesh filled with %u", b.data, d); probe("point-bursts"); break; }
                case 0: { note("point (%lld,%lld)", (long long)(x/one),(long long)(y/one)); auto before = m->faces(); bool ok = m->point(x, y, hints.pick(o.a[2], size)); check_mesh(*m, false); paths(); probe("points"); if (ok && before.size() < 120) check_inherited(before, m->faces()); break; }
                case 1: case 2:
                {
                    i64 u = shrink(fold(i64(g.next() >> 2), sp), 32768 * one), v = shrink(fold(i64(g.next() >> 2), sp), 32768 * one);
                    // now and then along an edge the mesh already has, or across one that can give way, or from a point to itself
                    int sure = 0; auto before = m->faces();
                    if (u64 how = g.below(8); how < 4)
                    {
                        auto& t = before[g.below(before.size())]; int i = int(g.below(3)), j = (i + 1) % 3, k = (i + 2) % 3;
                        auto fits = [&](i64 px, i64 py) { return unit(px, m->q()) * one == px && unit(py, m->q()) * one == py; };
                        if (how < 2 && fits(t.x[j], t.y[j]) && fits(t.x[k], t.y[k])) { x = t.x[j]; y = t.y[j]; u = t.x[k]; v = t.y[k]; sure = 1; }
                        else if (how == 2 && t.e[i] && !t.c[i])
                        {
                            auto& w = before[t.e[i] / 4 - 6]; int o2 = int(t.e[i] % 4);
                            auto turn = [](i64 ax, i64 ay, i64 bx, i64 by, i64 cx, i64 cy) { i128 d = i128(bx - ax) * (cy - ay) - i128(by - ay) * (cx - ax); return d < 0 ? -1 : d > 0; };
                            bool convex = turn(t.x[i], t.y[i], t.x[j], t.y[j], w.x[o2], w.y[o2]) < 0 && turn(w.x[o2], w.y[o2], t.x[k], t.y[k], t.x[i], t.y[i]) < 0;
                            SIM_CHECK(m->can_flip((u32(&t - &before[0]) + 6) * 4 + u32(i)) == convex, "result", "an edge is said to %s give way, but the faces at it are %s", convex ? "not" : "", convex ? "convex" : "not convex");
                            if (convex && fits(t.x[i], t.y[i]) && fits(w.x[o2], w.y[o2])) { x = t.x[i]; y = t.y[i]; u = w.x[o2]; v = w.y[o2]; sure = 2; }
                        }
                        else if (how == 3) { u = x; v = y; i64 ux = unit(x, m->q()) * one, uy = unit(y, m->q()) * one; if (vertices(*m).count({ ux, uy }) || (size < m->limit() && ux != -32768 * one && uy != -32768 * one)) sure = 3; }
                    }
                    note("edge (%lld,%lld) - (%lld,%lld)", (long long)(x/one),(long long)(y/one),(long long)(u/one),(long long)(v/one));
                    bool ok = m->edge(x, y, u, v, hints.pick(o.a[2], size));

                    check_mesh(*m, false);
                    V a{ unit(x, m->q()) * one, unit(y, m->q()) * one }, b{ unit(u, m->q()) * one, unit(v, m->q()) * one };
                    if (!ok && size + 40 < m->limit() && free_edge(before, m->faces(), a, b)) fail("refused", "an edge from (%lld,%lld) to (%lld,%lld) was refused by a mesh of %zu of %zu vertices though it crosses no constraint", (long long)(a.first / one), (long long)(a.second / one), (long long)(b.first / one), (long long)(b.second / one), size, m->limit());
                    if (sure)
                    {
                        SIM_CHECK(ok, "refused", "%s was refused", sure == 1 ? "a constraint along an edge of the mesh" : sure == 2 ? "a constraint across one edge that can be turned" : "a constraint from a point to itself");
                        bool there = sure == 3; if (sure < 3) { SIM_CHECK(m->size() == size, "changed", "a constraint between two vertices side by side added vertices"); for (auto& f : m->faces()) for (int i = 0; i < 3; ++i) there |= f.c[i] && V{ f.x[(i + 1) % 3], f.y[(i + 1) % 3] } == a && V{ f.x[(i + 2) % 3], f.y[(i + 2) % 3] } == b; }
                        SIM_CHECK(there, "constraint-lost", "an inserted edge is not a constrained edge of the mesh");
                        probe(sure == 1 ? "edges-along" : sure == 2 ? "edges-across-one" : "edges-of-no-length");
                    }
                    if (ok)
                    {
                        auto vs = vertices(*m); SIM_CHECK(vs.count(a) && vs.count(b), "vertices", "an end of an inserted edge is not a vertex");
                        Kept k{ a, b, 1e9 }; k.d = corridor(k, constrained());
                        // every vertex the insertion had to pass through may be off the line by its rounding to the grid
                        SIM_CHECK(k.d <= 1.5 * double(vs.size()) + 1, "constraint-lost", "no chain of constrained edges along the line joins the ends of the edge just inserted, (%lld,%lld) and (%lld,%lld)", (long long)(a.first / one), (long long)(a.second / one), (long long)(b.first / one), (long long)(b.second / one));
                        probe(k.d < 0.001 ? "edges-straight" : k.d < 2 ? "edges-within-2" : k.d < 16 ? "edges-within-16" : "edges-beyond-16");
                        kept.push_back(k);
                    }
                    probe(ok ? "edges" : "edges-refused"); if (m->size() > size + 2) probe("edges-split");
                    paths();
                    break;
                }
                default:
                {
                    auto before = m->faces();
                    u32 node = g.below(8) ? m->locate(x, y, hints.pick(o.a[2], size)) : 24 + u32(g.below(before.size() * 4));
                    u32 info = u32(g.below(g.below(3) ? 3 : 65536));
                    if (node && g.chance(1, 4)) info = before[node / 4 - 6].data ^ 1u << g.below(16); // close to what is there
                    hints.keep(node);
                    m->fill(node, info);
                    std::vector<u32> want; for (auto& b : before) want.push_back(b.data);
                    if (node)
                    {
                        std::vector<size_t> st{ node / 4 - 6 };
                        if (want[st[0]] == info) st.clear(); else want[st[0]] = info;
                        size_t region = st.size();
                        while (!st.empty()) { size_t k = st.back(); st.pop_back(); for (int i = 0; i < 3; ++i) if (!before[k].c[i]) { size_t j = before[k].e[i] / 4 - 6; if (want[j] != info) { want[j] = info; st.push_back(j); ++region; } } }
                        probe(region < before.size() ? "fills-bounded" : "fills-all");
                    }
                    auto after = m->faces();
                    for (size_t k = 0; k < after.size(); ++k) SIM_CHECK(after[k].data == want[k], "filled", "after filling with %u from node %u face %zu has %u, not %u", info, node, (k + 6) * 4, after[k].data, want[k]);
                    for (size_t k = 0; k < after.size(); ++k) for (int i = 0; i < 3; ++i) SIM_CHECK(after[k].e[i] == before[k].e[i] && after[k].c[i] == before[k].c[i] && after[k].x[i] == before[k].x[i] && after[k].y[i] == before[k].y[i], "changed", "a fill changed the mesh itself");
                    break;
                }
                }
                lock.release();
            }
        });
    run_all();
}

// ------------------------------------------------------------------------------------------------ C20
namespace
{
    struct Cmd { int code; i64 a[5]; size_t hint; };
    u64 apply(M& m, const Cmd& c)
    {
        u64 r = 0;
        switch (c.code)
        {
        case 0: m.reset(); break;
        case 1: r = m.point(c.a[0], c.a[1], c.hint); break;
        case 2: r = m.point_units(c.a[0], c.a[1], c.hint); break;
        case 3: note("edge %lld %lld %lld %lld hint %zu", (long long)c.a[0], (long long)c.a[1], (long long)c.a[2], (long long)c.a[3], c.hint); r = m.edge(c.a[0], c.a[1], c.a[2], c.a[3], c.hint); break;
        default: m.fill(m.locate(c.a[0], c.a[1], u32(c.hint)), u32(c.a[4])); break;
        }
        return r;
    }
}
SIM_PROP(C20, "2-4 mesh replicas apply one command log at their own speed, crash at arbitrary points and recover from byte snapshots or the log, while readers query them")
void gen_C20(Rng& g, Scn& s, u64 index)
{
    bool big = index % 250 == 123; // a few long logs
    s.set("shape", big ? 7 + i64(g.below(3)) : g.chance(1, 3) ? i64(g.below(9)) : i64(4 + g.below(5))); s.set("spread", i64(g.below(6))); s.set("replicas", i64(g.range(2, 4))); s.set("snap", i64(g.range(1, 6)));
    s.set("crashes", i64(g.below(3))); s.set("crashat", i64(g.below(big ? 3000000 : g.chance(1, 2) ? 3000 : 60000))); s.set("stall", g.chance(1, 4) ? i64(g.below(5000)) : 0); s.set("readers", i64(g.below(3))); s.set("dirt", i64(g.below(1 << 20)));
    int n = big ? int(g.range(60, 260)) : int(g.range(1, g.chance(1, 2) ? 5 : 16));
    fill_ops(g, s, 1, n, n, [&](int, int i) { Op o{}; o.code = i && g.chance(1, big ? 300 : 20) ? 0 : big && g.chance(1, 2) ? 1 : i64(1 + g.below(4)); for (auto& a : o.a) a = i64(g.next() >> 2); return o; });
}
void run_C20(const Scn& s)
{
    step_cap(400000000); set_trap_resume(true);
    int shp = int(s.get("shape", 0, NSHAPE - 1)), R = int(s.get("replicas", 1, 5)), every = int(s.get("snap", 1, 8)), readers = int(s.get("readers", 0, 3));
    std::vector<Cmd> log; log.push_back({ 0, { }, 0 });
    std::vector<std::vector<u64>> answers; std::vector<std::vector<Cmd>> asks;
    {
        auto m = shape(shp); Spread sp{ int(s.get("spread", 0, 5)), m->q(), 0 }; i64 lim = 32768 * (i64(1) << m->q());
        if (!s.fib.empty()) for (auto& o : s.fib[0])
        {
            if (log.size() > 300) break;
            Rng g(u64(o.a[3])); Cmd c{ int(clampmod(o.code, 0, 4)), { fold(o.a[0], sp), fold(o.a[1], sp), fold(i64(g.next() >> 2), sp), fold(i64(g.next() >> 2), sp), i64(g.below(5)) }, 0 };
            if (c.code == 3) for (int i = 0; i < 4; ++i) c.a[i] = shrink(c.a[i], lim);
            if (c.code == 2) for (int i = 0; i < 2; ++i) c.a[i] = c.a[i] >> m->q();
            c.hint = g.below(5) == 0 ? 0 : g.below(3) ? size_t(g.below(400)) : size_t(u32(g.next()));
            log.push_back(c);
        }
        Rng g(u64(s.get("dirt", 0, 1 << 20)) + 77);
        for (size_t i = 0; i <= log.size(); ++i) { asks.emplace_back(); for (int k = 0; k < 2; ++k) asks.back().push_back({ 9, { fold(i64(g.next() >> 2), sp) + i64(g.below(5)), fold(i64(g.next() >> 2), sp) + i64(g.below(5)) }, size_t(g.below(300)) }); }
        answers.assign(log.size() + 1, std::vector<u64>(2, ~u64(0)));
    }
    struct Rep { std::unique_ptr<M> m; size_t at = 0; std::string snap; size_t snap_at = 0; Lock lock; bool live = false; };
    std::vector<Rep> rs{ size_t(R) };
    std::vector<u64> state(log.size() + 1, 0), result(log.size() + 1, 0); std::vector<bool> known(log.size() + 1, false);
    for (auto& r : rs) r.m = shape(shp);
    int crashes = int(s.get("crashes", 0, 3)); i64 crashat = s.get("crashat", 0, 4000000);
    Rng dirt(u64(s.get("dirt", 0, 1 << 20)));
    for (int epoch = 0; ; ++epoch)
    {
        bool crash = epoch < crashes;
        rate(K_STALL, u32(s.get("stall", 0, 6000)));
        for (int k = 0; k < R; ++k)
        {
            auto& r = rs[size_t(k)];
            r.m = shape(shp); r.live = false; r.lock = Lock{ }; // only the snapshot and the log survive
            int d = int(dirt.below(256)); bool use = !r.snap.empty() && dirt.below(4), scratch = dirt.below(2), former = dirt.below(4) == 0;
            spawn([&, k, d, use, scratch, former] {
                auto& r = rs[size_t(k)];
                Rng own(u64(d) * 8191 + u64(k)); std::unique_ptr<M> mine;
                r.lock.acquire();
                r.m->place(d); r.at = 0;
                if (former)
                {   // its memory held another mesh before
                    r.m->reset();
                    for (u64 n = own.below(4); n--;) { u64 w = own.next(); i64 x = (i64(w % 4001) - 2000) * (i64(1) << r.m->q()), y = (i64(w / 4096 % 4001) - 2000) * (i64(1) << r.m->q()); if (w >> 60 < 4) r.m->point(x, y, 0); else if (w >> 60 < 8) r.m->edge(x, y, y / 2, -x, 0); else r.m->fill(24 + u32(own.below(8)), u32(own.below(7))); }
                    probe("memory-of-another-mesh");
                }
                if (use) { memcpy(r.m->mem(), r.snap.data(), r.snap.size()); acc_write(r.m->mem(), r.snap.size()); r.at = r.snap_at; probe("restored"); SIM_CHECK(r.m->view() == state[r.at], "snapshot", "a restored byte copy shows another mesh than the one it was taken of"); }
                else if (epoch) probe("replayed");
                r.live = r.at > 0;
                r.lock.release();
                while (r.at < log.size())
                {
                    stall_here();
                    if (scratch && own.below(3) == 0)
                    {   // this thread also works on a mesh of its own
                        if (!mine) { mine.reset(new MT<0, 24>); mine->place(d ^ 255); mine->reset(); }
                        u64 w = own.next(); i64 x = i64(w % 4001) - 2000, y = i64(w / 4096 % 4001) - 2000;
                        if (w >> 60 < 8) mine->point(x, y, own.below(200)); else if (w >> 60 < 11) mine->point_units(x, y, own.below(200)); else if (w >> 60 < 14) mine->edge(x, y, y / 2, -x, own.below(200)); else mine->fill(mine->locate(x, y, u32(own.below(200))), u32(own.below(3)));
                        probe("worked-on-another-mesh");
                    }
                    r.lock.acquire();
                    u64 res = apply(*r.m, log[r.at]);
                    u64 v = r.m->view(); size_t i = ++r.at; r.live = true;
                    if (!known[i]) { known[i] = true; state[i] = v; result[i] = res; }
                    else
                    {
                        SIM_CHECK(res == result[i], "result-differs", "command %zu (kind %d) returned %llu on one replica and %llu on another", i, log[i - 1].code, (unsigned long long)result[i], (unsigned long long)res);
                        SIM_CHECK(v == state[i], "diverged", "after command %zu (kind %d) two replicas hold different meshes", i, log[i - 1].code);
                        probe("compared");
                    }
                    if (i % size_t(every) == 0) { std::string b(r.m->mem(), r.m->bytes()); acc_read(r.m->mem(), r.m->bytes()); r.snap.swap(b); r.snap_at = i; }
                    r.lock.release();
                }
            });
        }
        for (int k = 0; k < readers; ++k)
            spawn([&, k] {
                for (int j = 0; j < 6; ++j)
                {
                    auto& r = rs[size_t(j + k) % rs.size()];
                    r.lock.acquire_shared();
                    if (r.live)
                    {
                        auto& ask = asks[r.at][size_t(k + j) % 2]; auto& ans = answers[r.at][size_t(k + j) % 2];
                        std::string image(r.m->mem(), r.m->bytes());
                        u64 v = r.m->locate(ask.a[0], ask.a[1], u32(ask.hint));
                        SIM_CHECK(!memcmp(image.data(), r.m->mem(), image.size()), "query-writes", "a query changed the mesh");
                        if (ans == ~u64(0)) ans = v;
                        SIM_CHECK(ans == v, "answer-differs", "one query gave %llu and %llu on two replicas after the same commands", (unsigned long long)ans, (unsigned long long)v);
                        probe("queried");
                    }
                    r.lock.release_shared();
                    stall_here();
                }
            });
        if (crash) arm_crash(u64(crashat) + 1);
        Status st = run_all();
        reset_fibers();
        if (st == DONE) { if (!crash) break; else { arm_crash(0); break; } }
        fault_fired(K_FAULT); probe("crashes");
    }
    for (auto& r : rs) SIM_CHECK(r.at == log.size(), "incomplete", "a replica stopped before the end of the log");
}
