"""What each check builds and how much it explores: quick/thorough = (simulated runs, wall-clock cap in seconds)."""
STUB = ["thread scheduler, pthread mutex/rwlock/cond/once, futex, clocks, sleeps, write(2)/stderr, breakpoint trap: simulated (sim/simrt.cpp)",
        "C/C++11 memory model: simulated load/store buffers per location with vector clocks"]
A = ["clang 18 x86-64 compiles the repository as shipped (C++17, no exceptions/RTTI)",
     "the simulator interposes every source of nondeterminism the code reaches; code it does not instrument (libc internals other than the stand-ins) is deterministic",
     "exploration samples schedules, faults and inputs; it does not enumerate them"]


def P(harness, quick, thorough, real, what, stub=None, assumptions=None, **kw):
    d = dict(harness=harness, quick=quick, thorough=thorough, real=real, what=what, stub=STUB + (stub or []), assumptions=A + (assumptions or []))
    d.update(kw)
    return d


WIN = dict(name="win32", raw=["win32/kernel.cpp"], flags=["-D_WIN32", "-fms-extensions", "-fshort-wchar"], includes=["harness/win32"], optional=True, share=0.5)
WINSTUB = ["variant win32: windows.h and the kernel behind it (SRW locks, performance counter, SleepEx, debug output, files, mappings): simulated (harness/win32)"]

MSVC = dict(name="msvc", raw=["msvc/atomics.cpp"], libs=[], flags=["-DSIM_VOLATILE_ATOMIC"], hflags=["-DATOMIC_MSVC", '-DCE_USER_ATOMIC_INCLUDE="atomic_wrap.h"', "-Wno-c++11-narrowing"], includes=["harness/msvc"], optional=True, share=0.4)
MSVCSTUB = ["variant msvc: Microsoft's interlocked intrinsics (harness/msvc), volatile accesses as x86 loads and stores"]

PROPS = {
    "C01": P(["c01_atomics.cpp"], (1500000, 60), (20000000, 500), ["lib/h/ce/atomic.h", "lib/h/ce/atomic_std.h", "lib/h/ce/atomic_msvc_x86.h (msvc variant)", "libstdc++ std::atomic (instrumented)"],
             "random operation histories on one atomic object of 23 types by 2-4 threads, checked linearizable", stub=MSVCSTUB, variants=[dict(name="posix"), MSVC, dict(name="cpp20", flags=["-std=c++20"], optional=True, share=0.25)]),
    "C02": P(["c02_order.cpp"], (2000000, 60), (20000000, 500), ["lib/h/ce/atomic.h", "lib/h/ce/atomic_std.h", "lib/h/ce/atomic_msvc_x86.h (msvc variant)", "libstdc++ std::atomic (instrumented)"],
             "random litmus programs and message-passing programs, searched for one total order", stub=MSVCSTUB, variants=[dict(name="posix"), MSVC, dict(name="cpp20", flags=["-std=c++20"], optional=True, share=0.25)]),
    "C03": P(["c03_mutex.cpp"], (700000, 60), (12000000, 500), ["lib/h/ce/mutex.h", "lib/mutex_std.cpp", "libstdc++ std::mutex / std::shared_mutex wrappers (instrumented)"],
             "clients on 1-3 thread mutexes: exclusion, hand-over, independence, storage bounds", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C04": P(["c03_mutex.cpp"], (700000, 60), (12000000, 500), ["lib/h/ce/mutex.h", "lib/mutex_std.cpp", "libstdc++ std::mutex / std::shared_mutex wrappers (instrumented)"],
             "queues behind a holder drain; tries never wait, fail exactly while held, change nothing", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C05": P(["c03_mutex.cpp"], (700000, 60), (12000000, 500), ["lib/h/ce/mutex.h", "lib/mutex_std.cpp", "libstdc++ std::mutex / std::shared_mutex wrappers (instrumented)"],
             "readers and writers on shared mutexes: exclusion between modes, hand-over both ways", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C06": P(["c03_mutex.cpp"], (700000, 60), (12000000, 500), ["lib/h/ce/mutex.h", "lib/mutex_std.cpp", "libstdc++ std::mutex / std::shared_mutex wrappers (instrumented)"],
             "readers coexist, queues of both modes drain, tries never wait and fail only on conflict", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C07": P(["c07_clock.cpp"], (1000000, 60), (12000000, 500), ["lib/h/ce/clock.h", "lib/os_posix.cpp (posix variant)"],
             "clocks of 25 rates polled at arbitrary instants, against exact 128-bit arithmetic", stub=["variant counter: the OS time source is a simulated counter of arbitrary frequency and starting value"],
             variants=[dict(name="posix"), WIN, dict(name="counter", libs=[], hflags=["-DCLOCK_STUB"])]),
    "C08": P(["c08_time.cpp"], (1500000, 60), (12000000, 500), ["lib/os_posix.cpp"], "monotonic timestamps under wall-clock steps, slewing, stalls and long uptimes", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C09": P(["c08_time.cpp"], (1500000, 60), (12000000, 500), ["lib/os_posix.cpp"], "sleeping under signals, timer latency, stalls and wall-clock steps", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C10": P(["c10_output.cpp"], (300000, 60), (8000000, 500), ["lib/os_posix.cpp"], "texts of every size under short writes, interrupted calls, hard errors and crashes", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
    "C11": P(["c10_output.cpp"], (700000, 60), (8000000, 500), ["lib/os.cpp", "lib/os_posix.cpp", "lib/to_text.cpp", "lib/h/ce/ce.h (log macros, as_string, names)"], "log records of 64 shapes and all levels under short and interrupted writes and crashes", stub=WINSTUB, variants=[dict(name="posix"), WIN, dict(name="hooks", hflags=["-DUSER_HOOKS"], share=0.3)], names=True),
    "C12": P(["c10_output.cpp"], (700000, 60), (8000000, 500), ["lib/os.cpp", "lib/os_posix.cpp", "lib/to_text.cpp", "lib/h/ce/ce.h (check macros, error_hook)"], "failing and passing checks on concurrent threads under stream faults, with and without a debugger", stub=WINSTUB, variants=[dict(name="posix"), WIN, dict(name="hooks", hflags=["-DUSER_HOOKS"], share=0.3), dict(name="level0", hflags=["-DCE_USER_ERROR_LEVEL=0"], share=0.15)], names=True),
    "C14": P(["c14_containers.cpp"], (500000, 60), (8000000, 500), ["lib/h/ce/pool.h"], "clients share pools under a lock: queue and raw node operations against independent deques"),
    "C15": P(["c14_containers.cpp"], (500000, 60), (8000000, 500), ["lib/h/ce/dictionary.h"], "clients bind and look up keys (zero included) in one dictionary under a shared lock"),
    "C16": P(["c14_containers.cpp"], (800000, 60), (12000000, 500), ["lib/h/ce/ce.h (heap_raise, heap_lower, min_priority_queue)"], "producers arm timers, dispatchers fire them in simulated time, consumers drain, against a multimap"),
    "C17": P(["c14_containers.cpp"], (800000, 60), (12000000, 500), ["lib/h/ce/ce.h (bulk, construct_at, destroy_at, construct_copy, assign_items)"], "clients work on bulk containers of lifetime-tracked elements, against reference sequences"),
    "C18": P(["c18_isolation.cpp"], (400000, 60), (8000000, 500), ["every header in lib/h/ce", "lib/*.cpp", "lib/to_text_from_integer.h"], "clients call 53 kinds of library work on their own objects at once; results against the same work alone; race detection on every access", stub=WINSTUB, variants=[dict(name="posix"), dict(WIN, share=0.25, hflags=["-D__MM_MALLOC_H"])]),
    "C19": P(["c18_isolation.cpp"], (250000, 60), (6000000, 500), ["const operations of every header in lib/h/ce"], "readers run 26 kinds of const operations on one shared set of objects; answers against a lone reader's; race detection"),
    "C20": P(["c20_mesh.cpp"], (100000, 60), (4000000, 500), ["lib/h/ce/cdt.h", "lib/h/ce/math.h"], "2-4 mesh replicas apply one log at their own speeds, crash and recover from byte snapshots or the log, with concurrent readers"),
    "C23": P(["c20_mesh.cpp"], (40000, 150), (1500000, 500), ["lib/h/ce/cdt.h", "lib/h/ce/math.h"], "clients fill shared meshes with points to exhaustion under stale hints; every mesh invariant after every insertion"),
    "C24": P(["c20_mesh.cpp"], (40000, 150), (1500000, 500), ["lib/h/ce/cdt.h", "lib/h/ce/math.h"], "clients insert constraint edges and fill regions; constraint chains and filled regions against a reference flood"),
    "C21": P(["c21_stream.cpp"], (800000, 60), (12000000, 500), ["lib/h/ce/ce.h (crc32, crc tables, fnv1a)"], "senders and receivers checksum chunked streams over a corrupting medium, against bitwise references", stub=["medium with bit flips and bursts; reader with short reads: harness"]),
    "C22": P(["c21_stream.cpp"], (300000, 60), (6000000, 500), ["lib/h/ce/io.h", "lib/h/ce/ce.h (list, vec, crc32)"], "reflected state checkpointed to a crashing disk and restored, visitor order against a hand-written reference", stub=["disk with write cache, sector tearing and loss, short writes: harness"], names=True),
    "C13": P(["c13_files.cpp"], (800000, 60), (8000000, 500), ["lib/os_posix.cpp (file stubs)", "lib/os_win32.cpp (win32 variant)"], "threads open, map, unmap and close files while any call may fail and files change size", stub=WINSTUB, variants=[dict(name="posix"), WIN]),
}
