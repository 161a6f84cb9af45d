// C13 opening, mapping and closing files: all or nothing, nothing leaked.
#include "common.h"
#include "ce/ce.h"
#if CE_API_WIN32
#include "win32/kernel.h"
#endif
#include <fcntl.h>
using namespace h;

namespace
{
    struct Known { const char* utf8; const char16_t* wide; size_t len; u64 size; };
#define TEN "0123456789"
#define FIFTY TEN "abcdefghij" "\u00e9\u4e2d\U0001F600xyz/" TEN TEN
#define NAMED(S) S, u"" S, sizeof(u"" S) / 2 - 1
    const Known known[] = {
        { NAMED("a.bin"), 100 }, { NAMED("empty"), 0 }, { NAMED("one"), 1 }, { NAMED("\u00e9t\u00e9/\u4e2d\u6587.dat"), 255 }, { NAMED("\U0001F600\U0010FFFF.x"), 77 }, { NAMED("big"), (u64(5) << 32) + 12 }, { NAMED("4g"), u64(1) << 32 }, { NAMED("d/\u07ff\u0800\uffee"), 33 }, { NAMED("\\\\?\\C:\\" FIFTY FIFTY FIFTY FIFTY FIFTY FIFTY FIFTY ".dat"), 44 }, { NAMED("\u0080\u00ff/\u7fff\u8000\ud7ff\ue000\U00010000\U000FFFFF"), 9 },
    };
    constexpr int NK = 10;
    std::string content(int k, u64 n) { std::string s; for (u64 i = 0; i < n && i < 200; ++i) s += char(i * 7 + u64(k) * 31 + 1); return s; }
    int count_fds() { int n = 0; for (int i = 0; i < 64; ++i) n += fcntl(i, F_GETFD) != -1; return n; }
}

SIM_PROP(C13, "threads open, map, unmap and close files while system calls fail at any point and files change size")
void gen_C13(Rng& g, Scn& s, u64)
{
    s.set("osfail", g.chance(1, 3) ? 0 : i64(g.below(g.chance(1, 2) ? 4000 : 40000)));
    fill_ops(g, s, int(g.range(1, 4)), 1, 6, [&](int, int) { Op o{}; o.code = i64(g.below(10)); for (auto& a : o.a) a = i64(g.next() >> 8); return o; });
}
void run_C13(const Scn& s)
{
    step_cap(300000); no_traps();
    rate(K_OSFAIL, u32(s.get("osfail", 0, 60000)));
#if CE_API_WIN32
    bool sizes_change = false;
    for (auto& f : s.fib) for (auto& o : f) sizes_change |= clampmod(o.code, 0, 9) == 9;
    for (int i = 0; i < NK; ++i) k32::add_file(known[i].wide, known[i].len, content(i, known[i].size), known[i].size);
#endif
    int fds = count_fds();
    for (size_t f = 0; f < s.fib.size() && f < 5; ++f)
        spawn([&, f] {
            ce::os::file_t file{ }; int file_k = -1; bool opened = false; int n = 0;
            struct Held { ce::span<ce::uint8_t const>* sp; int k; };
            std::vector<Held> held;
            auto emptied = [&](ce::span<ce::uint8_t const>& sp, const char* what) { SIM_CHECK(sp.size == 0 && sp.data == nullptr, "span-not-emptied", "%s failed but left the span at size %zu", what, size_t(sp.size)); };
            auto good = [&](ce::span<ce::uint8_t const>& sp, int k, const char* what)
            {
#if CE_API_WIN32
                k32::View v{ };
                SIM_CHECK(k >= 0, "phantom", "%s of a file that does not exist succeeded", what);
                SIM_CHECK(k32::view_at(sp.data, v) && v.file == k && v.owner == self(), "wrong-view", "%s succeeded but the span is not a view of the file", what);
                SIM_CHECK(sizes_change ? sp.size <= v.size : sp.size == v.size, "wrong-view", "%s gave a span of %llu bytes for a view of %llu", what, (unsigned long long)sp.size, (unsigned long long)v.size);
                SIM_CHECK(sizes_change || v.size == known[k].size, "wrong-view", "%s gave %llu of %llu bytes", what, (unsigned long long)v.size, (unsigned long long)known[k].size);
                std::string c = content(k, known[k].size); size_t m = c.size() < sp.size ? c.size() : size_t(sp.size);
                for (size_t i = 0; i < m; ++i) SIM_CHECK(rd(sp.data + i) == u8(c[i]), "wrong-bytes", "byte %zu of the view differs from the file", i);
                probe("mapped");
#else
                (void)sp; (void)k; fail("phantom", "%s succeeded where no file exists", what);
#endif
            };
            for (auto& o : s.fib[f])
            {
                if (++n > 10) break;
                Rng g(u64(o.a[0])); int k = int(g.below(NK + 1)); const char* path = k < NK ? known[k].utf8 : "/nonexistent/ce-sim/nothing"; if (!CE_API_WIN32) path = g.below(2) ? "/nonexistent/ce-sim/nothing" : ""; int real = k < NK ? k : -1;
                char* own_path = static_cast<char*>(alloc(strlen(path) + 1, 1)); memcpy(own_path, path, strlen(path) + 1); path = own_path; // read to its end and no further
                auto* sp = static_cast<ce::span<ce::uint8_t const>*>(alloc(sizeof(ce::span<ce::uint8_t const>), 8)); // dirty
#if CE_API_WIN32
                u64 inj = k32::injected_of(self()); auto clean = [&] { return k32::injected_of(self()) == inj; };
#else
                real = -1;
#endif
                switch (clampmod(o.code, 0, 9))
                {
                case 0: case 1:
                {
                    if (opened) break;
                    bool ok = ce::os::open_file(file, path);
#if CE_API_WIN32
                    SIM_CHECK(ok == (real >= 0 && clean()), "open", "opening %s file returned %d", real >= 0 ? "an existing" : "a missing", ok);
                    SIM_CHECK(k32::handles_of(self()) == (ok ? 1 : 0), "leak", "opening left %d handles", k32::handles_of(self()));
#else
                    SIM_CHECK(!ok, "phantom", "opening a file that does not exist succeeded");
#endif
                    if (ok) { opened = true; file_k = real; } else probe("open-failed");
                    break;
                }
                case 2:
                {
                    bool was = opened; bool ok = ce::os::close_file(file);
                    SIM_CHECK(ok == was, "close", "closing %s file returned %d", was ? "an open" : "no", ok);
                    opened = false;
#if CE_API_WIN32
                    SIM_CHECK(k32::handles_of(self()) == 0, "leak", "closing left %d handles", k32::handles_of(self()));
                    SIM_CHECK(!k32::handle_open(file.os_handle), "close", "the closed file still names an open handle");
#endif
                    break;
                }
                case 3: case 4:
                {
                    if (!opened && g.below(2)) { ce::os::open_file(file, "/nonexistent/ce-sim/nothing"); }
                    bool ok = ce::os::map_span(*sp, file);
                    if (ok) { SIM_CHECK(opened, "phantom", "mapping without an open file succeeded"); good(*sp, file_k, "mapping"); held.push_back({ sp, file_k }); sp = nullptr; }
                    else
                    {
                        emptied(*sp, "mapping"); probe("map-failed");
#if CE_API_WIN32
                        SIM_CHECK(!(opened && clean() && !sizes_change && known[file_k].size), "refused", "mapping an open file failed though no call did");
#endif
                    }
                    break;
                }
                case 5: case 6:
                {
                    bool ok = ce::os::map_span(*sp, path);
                    if (ok) { good(*sp, real, "mapping by path"); held.push_back({ sp, real }); sp = nullptr; }
                    else
                    {
                        emptied(*sp, "mapping by path"); probe("path-map-failed");
#if CE_API_WIN32
                        SIM_CHECK(!(real >= 0 && clean() && !sizes_change && known[real].size), "refused", "mapping an existing file failed though no call did");
#endif
                    }
                    break;
                }
                case 7:
                {
                    if (held.empty())
                    {
                        static const ce::uint8_t own[16]{ };
                        switch (g.below(4)) // an empty span, or one that shows memory which was never mapped
                        {
                        case 0: sp->size = 0; sp->data = nullptr; break;
                        case 1: sp->size = 0; sp->data = own; break;
                        case 2: sp->size = 1 + g.below(16); sp->data = nullptr; break;
                        default: sp->size = 1 + g.below(16); sp->data = own; break;
                        }
                        SIM_CHECK(!ce::os::unmap_span(*sp), "unmap", "unmapping a span that is no view succeeded"); emptied(*sp, "unmapping"); probe("unmap-failed");
                        break;
                    }
                    auto hd = held.back(); held.pop_back();
                    bool ok = ce::os::unmap_span(*hd.sp);
                    SIM_CHECK(ok, "unmap", "unmapping a mapped view failed");
                    SIM_CHECK(hd.sp->size == 0 && hd.sp->data == nullptr, "span-not-emptied", "an unmapped span still shows %llu bytes", (unsigned long long)hd.sp->size);
                    release(hd.sp);
                    break;
                }
                case 8:
                {
                    size_t want = 1 + g.below(20000); auto p = ce::os::virtual_alloc(want);
#if CE_API_WIN32
                    SIM_CHECK((p != nullptr) == clean(), "alloc", "an allocation of %zu bytes returned %p", want, static_cast<void*>(p));
#endif
                    if (p) { SIM_CHECK(is_live(p, want), "alloc", "allocated memory is smaller than asked"); for (size_t i = 0; i < want; i += 1 + want / 50) { SIM_CHECK(rd(p + i) == 0, "alloc", "allocated memory is not zero"); wr(p + i, ce::uint8_t(i)); } probe("allocated"); }
                    break;
                }
                default:
#if CE_API_WIN32
                    if (known[k % NK].size < 1000) k32::resize_file(k % NK, g.below(300));
#endif
                    point(); break;
                }
                if (sp) release(sp);
                release(own_path);
#if CE_API_WIN32
                SIM_CHECK(k32::handles_of(self()) == (opened ? 1 : 0), "leak", "%d handles are open; the caller holds %d", k32::handles_of(self()), opened ? 1 : 0);
                SIM_CHECK(k32::views_of(self()) == int(held.size()), "leak", "%d views are mapped; the caller received %zu", k32::views_of(self()), held.size());
#endif
            }
            for (auto& hd : held) SIM_CHECK(ce::os::unmap_span(*hd.sp), "unmap", "unmapping a mapped view failed");
            if (opened) SIM_CHECK(ce::os::close_file(file), "close", "closing an open file failed");
        });
    run_all();
#if CE_API_WIN32
    SIM_CHECK(k32::handles() == 0, "leak", "%d handles remain after everything was closed", k32::handles());
    SIM_CHECK(k32::views() == 0, "leak", "%d views remain after everything was unmapped", k32::views());
#endif
    SIM_CHECK(count_fds() == fds, "leak", "%d file descriptors before, %d after", fds, count_fds());
}
