#!/usr/bin/env python3
"""Deterministic-simulation checks for jeaiii/ce.

  check.py run PROP [--tier quick|thorough]     decide one property (exit 0 held, 1 VIOLATION, 3 machinery error)
  check.py build HARNESS OUT                    build one simulator binary
  check.py selftest                             build everything once, determinism self-test

Everything is built from /repo's current working tree into a scratch directory that is removed afterwards.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, atexit, random, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CE_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
NPROC = int(os.environ.get("CE_JOBS", "0")) or min(8, os.cpu_count() or 4)
BASE = ["-std=c++17", "-g", "-fno-rtti", "-fno-exceptions", "-w"]

sys.path.insert(0, HERE)
from props import PROPS   # id -> dict(harness, quick, thorough, variants, real, stub, assumptions, rule)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def must(cmd, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r


def instrument(src, obj, includes, flags, work, opt="-O1"):
    """stage 1: unoptimised IR with sanitize_thread attributes; rewrite; stage 2: optimise + TSan instrumentation."""
    ll = obj + ".ll"
    must([CXX] + BASE + [opt, "-fsanitize=thread,array-bounds", "-fsanitize-trap=array-bounds", "-fsanitize-ignorelist=" + os.path.join(HERE, "sim/ignore.txt")] +
         ["-I" + i for i in includes] + flags + ["-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", ll], cwd=work)
    with open(ll) as f:
        t = f.read()
    # a weak compare-exchange may fail spuriously: tell the runtime it is weak, and let it veto the success bit
    out, weak, nweak = [], set(), 0
    vol = "-DSIM_VOLATILE_ATOMIC" in flags   # Microsoft's reading of volatile on x86: one plain access of the whole object
    for l in t.split("\n"):
        if l.startswith("define "):
            weak = set()
        if vol:
            l = re.sub(r"^(\s+%\S+ = load) volatile ((?:i8|i16|i32|i64|float|double|ptr), ptr [^,]+), align (\d+)", r"\1 atomic volatile \2 seq_cst, align \3", l)
            l = re.sub(r"^(\s+store) volatile ((?:i8|i16|i32|i64|float|double|ptr) .+, ptr [^,]+), align (\d+)", r"\1 atomic volatile \2 release, align \3", l)
        m = re.match(r"\s+(%\S+) = cmpxchg weak ", l)
        if m:
            out.append("  call void @sim_weak_hint()")
            weak.add(m.group(1))
            nweak += 1
        m = re.match(r"\s+(%\S+) = extractvalue \{ i\d+, i1 \} (%[^\s,]+), 1", l)
        if m and m.group(2) in weak:
            r, q = m.group(1), m.group(1)[1:].strip('"')
            out.append(l.replace(r + " =", f'%"{q}.raw" =', 1))
            out.append(f'  %"{q}.ok" = call i1 @sim_weak_ok()')
            out.append(f'  {r} = and i1 %"{q}.raw", %"{q}.ok"')
            continue
        out.append(l)
    t = "\n".join(out)
    if nweak:
        t += "\ndeclare void @sim_weak_hint()\ndeclare zeroext i1 @sim_weak_ok()\n"
    t = t.replace("@strlen(", "@sim_strlen(")
    with open(ll, "w") as f:
        f.write(t)
    must([CXX, opt, "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1", "-mllvm", "-tsan-instrument-read-before-write=1",
          "-w", "-c", ll, "-o", obj], cwd=work)
    os.unlink(ll)


def build(spec, out, work):
    """build the simulator binary for one harness spec"""
    inc = [os.path.join(REPO, "lib/h")]
    flags = spec.get("flags", [])
    jobs = []
    objs = []
    def job(fn, *a):
        jobs.append((fn, a))
    simo = os.path.join(work, "simrt.o")
    objs.append(simo)
    job(lambda: must([CXX, "-std=c++17", "-O2", "-g", "-fno-rtti", "-fno-exceptions", "-w", "-c", os.path.join(HERE, "sim/simrt.cpp"), "-o", simo], cwd=work))
    pre = spec.get("includes", [])
    libs = sorted(glob.glob(os.path.join(REPO, "lib/*.cpp")))
    if spec.get("libs") is not None:
        libs = [l for l in libs if os.path.basename(l) in spec["libs"]]
    for s in libs:
        o = os.path.join(work, "lib_" + os.path.basename(s) + ".o")
        objs.append(o)
        job(instrument, s, o, [os.path.join(HERE, i) for i in pre] + inc, flags, work)
    for hname in spec.get("raw", []):        # simulated kernels: not instrumented, their memory is not the program's
        o = os.path.join(work, "r_" + os.path.basename(hname) + ".o")
        objs.append(o)
        job(must, [CXX] + BASE + ["-O1"] + ["-I" + os.path.join(HERE, i) for i in pre] + flags + ["-c", os.path.join(HERE, "harness", hname), "-o", o])
    for hname in spec["harness"]:
        o = os.path.join(work, "h_" + os.path.basename(hname) + ".o")
        objs.append(o)
        job(instrument, os.path.join(HERE, "harness", hname), o, [os.path.join(HERE, i) for i in pre] + inc, flags + spec.get("hflags", []), work)
    with ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(fn, *a) for fn, a in jobs]:
            f.result()
    must([CXX, "-no-pie", "-fuse-ld=lld" if shutil.which("ld.lld-18") or shutil.which("ld.lld") else "-no-pie"] + objs + ["-o", out, "-lpthread"], cwd=work)


# ---------------------------------------------------------------------------------------------- running
def run_batch(exe, prop, seed, lo, hi, deadline, work, NPROC=NPROC):
    procs = []
    for w in range(NPROC):
        hf = os.path.join(work, f"hash.{prop}.{w}")
        p = subprocess.Popen([exe, "batch", prop, str(seed), str(lo + w), str(NPROC), str(hi), str(deadline), hf],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work)
        procs.append((w, hf, p))
    res = dict(runs=0, nontrivial=0, points=0, simns=0, switches=0, det=0, faults={}, probes={}, hashes=set(), viol=[], errors=[])
    for w, hf, p in procs:
        out, err = p.communicate()
        ended = False
        for line in out.splitlines():
            t = line.split()
            if line.startswith("VIOL "):
                res["viol"].append((int(t[1]), line))
            elif line.startswith("NONDET"):
                res["errors"].append(line)
            elif line.startswith("STAT "):
                for kv in t[1:]:
                    k, v = kv.split("=")
                    res[k] += int(v)
            elif line.startswith("FAULT "):
                res["faults"][t[1]] = res["faults"].get(t[1], 0) + int(t[2])
            elif line.startswith("PROBE "):
                res["probes"][t[1]] = res["probes"].get(t[1], 0) + int(t[2])
            elif line == "END":
                ended = True
        if not ended:
            res["errors"].append(f"worker {w} ended with {p.returncode}: {err[-500:]} {out[-300:]}")
        if os.path.exists(hf):
            with open(hf, "rb") as f:
                b = f.read()
            res["hashes"].update(b[i:i + 8] for i in range(0, len(b) - 7, 8))
            os.unlink(hf)
    return res


def parse_run(text):
    """scenario + decisions + result from `one` output"""
    head, decs, result = [], [], None
    for l in text.splitlines():
        if l.startswith("dec "):
            decs.append(l)
        elif l.startswith("RESULT "):
            result = l
        elif l.startswith(("prop ", "p ", "fiber ", "op ")):
            head.append(l)
    return head, decs, result


def result_key(line):
    m = re.match(r"RESULT (\S+) (\S+)(?: (\S+) \| (.*))?", line or "")
    return (m.group(1), m.group(2), m.group(3), m.group(4)) if m else None


class Scn:
    def __init__(self, head):
        self.prop = ""
        self.p = []
        self.fib = []
        for l in head:
            t = l.split()
            if t[0] == "prop":
                self.prop = t[1]
            elif t[0] == "p":
                self.p.append((t[1], int(t[2])))
            elif t[0] == "fiber":
                self.fib.append([])
            elif t[0] == "op":
                self.fib[-1].append([int(x) for x in t[1:]])

    def copy(self):
        s = Scn([])
        s.prop, s.p, s.fib = self.prop, list(self.p), [[list(o) for o in f] for f in self.fib]
        return s

    def text(self, extra=()):
        o = ["prop " + self.prop] + [f"p {k} {v}" for k, v in self.p] + [f"p {k} {v}" for k, v in extra]
        for i, f in enumerate(self.fib):
            o.append(f"fiber {i}")
            o += ["op " + " ".join(map(str, x)) for x in f]
        return "\n".join(o) + "\n"

    def size(self):
        return sum(len(f) for f in self.fib) * 10 + len(self.fib)


def many(exe, work, records, cls, timeout=60):
    """run records (texts); index and decisions of the first that violates with class cls"""
    path = os.path.join(work, "many.txt")
    with open(path, "w") as f:
        f.write("---\n".join(records))
    try:
        r = subprocess.run([exe, "many", path, cls], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        return None
    rec, decs = None, []
    hit = None
    for l in r.stdout.splitlines():
        if l.startswith("REC "):
            t = l.split(" ", 2)
            rec, decs = int(t[1]), []
            k = result_key(t[2])
            hit = (rec, k) if k and k[0] == "violation" and k[2] == cls else None
        elif l.startswith("dec "):
            decs.append(l)
        elif l == "END" and hit:
            return hit[0], hit[1], decs
    return None


def minimise(exe, work, head, decs, key, budget):
    t0 = time.time()
    s = Scn(head)
    best = (s, decs, key)
    cls = key[2]
    left = lambda: budget - (time.time() - t0)
    tries = 0

    def attempt(cands, reseed=300):
        """each candidate with the current decisions, then with random schedules"""
        nonlocal best, tries
        if not cands or left() <= 0:
            return False
        recs = [c.text() + "\n".join(best[1]) + "\n" for c in cands]
        tries += len(recs)
        r = many(exe, work, recs, cls, timeout=max(1, left()))
        if r:
            best = (cands[r[0]], r[2], r[1])
            return True
        if left() <= 0:
            return False
        recs = [c.text([("~reseed_lo", 0), ("~reseed_hi", reseed)]) for c in cands]
        tries += len(recs) * reseed
        r = many(exe, work, recs, cls, timeout=max(1, left()))
        if r:
            best = (cands[r[0]], r[2], r[1])
            return True
        return False

    # operations and clients
    changed = True
    while changed and left() > 0:
        changed = False
        s = best[0]
        c = []
        for i in range(len(s.fib)):                      # drop a whole client
            if s.fib[i]:
                n = s.copy(); n.fib[i] = []; c.append(n)
        while s.fib and not s.fib[-1] and len(s.fib) > 1:
            n = s.copy(); n.fib.pop(); c.insert(0, n); s = n
        s = best[0]
        if attempt(c):
            changed = True
            continue
        c = []
        for i, f in enumerate(s.fib):                    # halves, then single operations
            if len(f) > 3:
                for a, b in ((0, len(f) // 2), (len(f) // 2, len(f))):
                    n = s.copy(); del n.fib[i][a:b]; c.append(n)
        if attempt(c):
            changed = True
            continue
        c = []
        for i, f in enumerate(s.fib):
            for j in range(len(f)):
                n = s.copy(); del n.fib[i][j]; c.append(n)
        if attempt(c[:200], 60):
            changed = True
    # parameters and arguments towards zero
    rounds = 0
    changed = True
    while changed and left() > 0 and rounds < 12:
        changed = False
        rounds += 1
        s = best[0]
        c = []
        for k, (name, v) in enumerate(s.p):
            for nv in {0, v // 2}:
                if nv != v and abs(nv) < abs(v):
                    n = s.copy(); n.p[k] = (name, nv); c.append(n)
        for i, f in enumerate(s.fib):
            for j, o in enumerate(f):
                for k in range(1, len(o)):
                    if o[k]:
                        n = s.copy(); n.fib[i][j][k] = 0; c.append(n)
        random.Random(rounds).shuffle(c)
        if attempt(c[:80], 20):
            changed = True
    # decisions: ddmin
    s, decs, key = best
    n = 2
    while len(decs) >= 1 and left() > 0:
        size = max(1, len(decs) // n)
        chunks = [decs[i:i + size] for i in range(0, len(decs), size)]
        recs = []
        for i in range(len(chunks)):
            recs.append(s.text() + "\n".join(x for j, ch in enumerate(chunks) if j != i for x in ch) + "\n")
        tries += len(recs)
        r = many(exe, work, recs, cls, timeout=max(1, left()))
        if r and len(r[2]) < len(decs):
            decs, key = r[2], r[1]
            n = max(2, n - 1)
        else:
            if size == 1:
                break
            n = min(len(decs), n * 2)
    return s, decs, key, tries


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*)/ (.*)", l)
                if m:
                    out.append((m.group(1), m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def run(prop, tier):
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="cesim.")
    atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
    variants = spec.get("variants") or [dict(name="posix")]
    exes = []
    notes = []
    def make(iv):
        i, v = iv
        d = os.path.join(work, f"v{i}")
        os.mkdir(d)
        exe = os.path.join(d, "sim")
        sp = dict(spec); sp.update(v)
        try:
            build(sp, exe, d)
        except BuildError as e:
            sp["hflags"] = sp.get("hflags", []) + ["-DPLAIN_TYPES"]     # without unusual argument types
            try:
                build(sp, exe, d)
                notes.append(f"variant {v['name']} builds with usual argument types only")
            except BuildError:
                return v, exe, e
        return v, exe, None
    def names_error(e):
        """a statement whose names the library works out at compile time is refused although a plain one is accepted"""
        if not spec.get("names") or "must be initialized by a constant expression" not in str(e):
            return None
        probe = os.path.join(work, "probe.cpp")
        with open(probe, "w") as f:
            f.write('#include "ce/ce.h"\n#include "ce/io.h"\nstruct P { int x, y; };\nCE_IO_BIND(P, x, y);\nvoid f(int a, int b) { CE_LOG(info, a, b); CE_ASSERT(a > b, a); }\n')
        r = sh([CXX] + BASE + ["-fsyntax-only", "-I" + os.path.join(REPO, "lib/h"), probe])
        if r.returncode:
            return None
        return next((l for l in str(e).splitlines() if "must be initialized by a constant expression" in l), None)
    with ThreadPoolExecutor(4) as ex:
        built = list(ex.map(make, [(i, v) for i, v in enumerate(variants) if v.get("tier") != "thorough" or tier == "thorough"]))
    for v, exe, e in built:
        if e and v.get("optional"):
            notes.append(f"variant {v['name']} did not build and was skipped")
            print(f"note: variant {v['name']} does not build, skipped: {str(e)[-600:]}")
        elif e and names_error(e):
            rdir = os.environ.get("CE_REPLAY_DIR", os.path.join(HERE, "evidence", "replay"))
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{v['name']}-build.txt")
            with open(path, "w") as f:
                f.write(f"prop {prop}\n# property={prop} variant={v['name']} build\n# no run can start: the library refuses, at compile time, the names of a valid statement\n")
                f.write("".join("# " + l + "\n" for l in str(e).splitlines()[:60]))
            print(f"variant={v['name']} names-refused: {names_error(e)}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        elif e:
            print(f"BUILD-ERROR: {e}")
            return 3
        else:
            exes.append((v["name"], exe, v.get("share", 1.0)))
    build_s = time.time() - t0
    runs_n, cap_s = spec[tier]
    total = dict(runs=0, nontrivial=0, points=0, simns=0, switches=0, det=0, faults={}, probes={}, hashes=set())
    viols = []
    unrepeatable = []        # machinery errors
    ts = time.time()
    for name, exe, share in exes:
        lo, hi = 0, max(NPROC, int(runs_n * share))
        res = run_batch(exe, prop, seed, lo, hi, cap_s * share, work)
        for k in ("runs", "nontrivial", "points", "simns", "switches", "det"):
            total[k] += res[k]
        for k in ("faults", "probes"):
            for a, b in res[k].items():
                total[k][a] = total[k].get(a, 0) + b
        total["hashes"] |= {(name, x) for x in res["hashes"]} if len(exes) > 1 else res["hashes"]
        unrepeatable += [f"{name}: {e}" for e in res["errors"]]
        for idx, line in sorted(res["viol"]):
            viols.append((name, exe, idx, line))
    search_s = time.time() - ts
    rc = 0
    violations = []
    kf = [k for k in known_findings() if k[0] == prop]
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k[3]}")
    reported = set()
    viols.sort(key=lambda v: " hang " in v[3])       # cheap ones first
    for name, exe, idx, line in viols:
        # gate: two fresh processes must give the same violation and the same run hash
        a = subprocess.run([exe, "one", prop, str(seed), str(idx)], stdout=subprocess.PIPE, text=True)
        b = subprocess.run([exe, "one", prop, str(seed), str(idx)], stdout=subprocess.PIPE, text=True)
        head, decs, ra = parse_run(a.stdout)
        _, _, rb = parse_run(b.stdout)
        key = result_key(ra)
        if not key or key[0] != "violation" or ra != rb:
            unrepeatable.append(f"run {idx} does not repeat: {ra} / {rb} / {line}")
            continue
        if any(k[1] == key[2] and k[2].search(key[3] or "") for k in kf):
            continue
        if (name, key[2]) in reported:
            continue
        if rc:
            break
        s, d, key2, tries = minimise(exe, work, head, decs, key, 40 if tier == "quick" else 120)
        rdir = os.environ.get("CE_REPLAY_DIR", os.path.join(HERE, "evidence", "replay"))
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{name}-{seed}-{idx}.txt")
        body = s.text() + "\n".join(d) + ("\n" if d else "")
        with open(path, "w") as f:
            f.write(body)
        x = subprocess.run([exe, "replay", path, "trace"], stdout=subprocess.PIPE, text=True)
        y = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
        rx = next((l for l in x.stdout.splitlines() if l.startswith("RESULT")), "")
        ry = next((l for l in y.stdout.splitlines() if l.startswith("RESULT")), "")
        kx = result_key(rx)
        if not kx or kx[0] != "violation" or kx[2] != key[2] or rx != ry:
            # fall back to the unminimised run
            with open(path, "w") as f:
                f.write("\n".join(head + decs) + "\n")
            x = subprocess.run([exe, "replay", path, "trace"], stdout=subprocess.PIPE, text=True)
            y = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
            rx = next((l for l in x.stdout.splitlines() if l.startswith("RESULT")), "")
            ry = next((l for l in y.stdout.splitlines() if l.startswith("RESULT")), "")
            kx = result_key(rx)
            if not kx or kx[0] != "violation" or rx != ry:
                unrepeatable.append(f"replay of {path} does not reproduce: {rx} / {ry}")
                os.unlink(path)
                continue
        with open(path, "a") as f:
            f.write(f"# property={prop} variant={name} seed={seed} run={idx}\n# {rx}\n# replay: {os.path.join(HERE, 'check.py')} replay {path}\n")
            f.write(f"# minimised from {sum(map(len, Scn(head).fib))} ops / {len(decs)} decisions to {sum(map(len, s.fib))} ops / {len(d)} decisions in {tries} runs\n")
            for l in x.stdout.splitlines():
                if l.startswith("TRACE "):
                    f.write("# " + l + "\n")
        print(f"seed={seed} run={idx} variant={name} {kx[2]}: {kx[3]}")
        print(f"VIOLATION property={prop} replay={path}")
        violations.append(dict(run=idx, variant=name, **{"class": kx[2]}, message=kx[3], replay=path))
        reported.add((name, key[2]))
        rc = 1
    if unrepeatable:
        print("MACHINERY-ERROR:", "; ".join(unrepeatable)[:2000])
        if rc == 0:
            return 3
    wall = time.time() - t0
    # evidence
    hours = max(search_s, 1e-6) / 3600
    samples = []
    for name, exe, share in exes:
        for i in (0, 1, 2):
            o = subprocess.run([exe, "one", prop, str(seed), str(i)], stdout=subprocess.PIPE, text=True).stdout
            hd, dc, rs = parse_run(o)
            samples.append(dict(variant=name, run=i, scenario=hd[:40], decisions=len(dc), first_decisions=dc[:8], result=rs))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total["runs"], distinct_nontrivial=len(total["hashes"]),
            rule="one evaluation = one simulated run (scenario x schedule x faults, all derived from the seed and run index); two runs are distinct when their run hash over scheduling switches, atomic and lock events, fault decisions, written bytes and recorded results differs; non-trivial = the run contains more than two context switches or at least one scheduling, memory-model or fault decision",
            samples=samples,
            nontrivial_runs=total["nontrivial"],
            runs_per_hour=int(total["runs"] / hours), seeds_per_hour=int(total["runs"] / hours),
            scheduling_points=total["points"], context_switches=total["switches"],
            simulated_seconds=round(total["simns"] / 1e9, 3),
            faults_injected=total["faults"], reach_probes=total["probes"],
            determinism_selftests=total["det"], distinct_measure="run hash (interleaving, memory-model choices, faults, outputs)",
            variants=[e[0] for e in exes],
            real_code=spec["real"], stubs=spec["stub"], what=spec["what"], notes=notes,
            build_s=round(build_s, 1), search_s=round(search_s, 1)),
        assumptions=spec["assumptions"], wall_s=round(wall, 1), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f"OK property={prop} tier={tier} runs={total['runs']} distinct={len(total['hashes'])} points={total['points']} build={build_s:.1f}s search={search_s:.1f}s faults={total['faults']}")
        if os.environ.get("CE_VERBOSE"):
            print("probes", total["probes"])
    return rc


def selftest(props):
    """the same seed gives the same runs whatever the number of worker processes and their neighbours"""
    work = tempfile.mkdtemp(prefix="cesim.")
    atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
    rc = 0
    for p in props:
        spec = dict(PROPS[p])
        spec.update((spec.get("variants") or [{}])[0])
        d = os.path.join(work, p)
        os.mkdir(d)
        exe = os.path.join(d, "sim")
        build(spec, exe, d)
        got = []
        for n in (1, 3, 8):
            r = run_batch(exe, p, 7, 0, 600, 60, d, n)
            got.append((r["runs"], r["points"], r["simns"], r["switches"], sorted(r["faults"].items()), sorted(r["probes"].items()), len(r["hashes"]), hash(frozenset(r["hashes"])), sorted(r["viol"]), r["errors"]))
        same = all(g == got[0] for g in got)
        print(f"selftest {p}: {'repeatable' if same else 'NOT REPEATABLE'} ({got[0][0]} runs, {got[0][6]} distinct) under 1, 3 and 8 workers")
        if not same:
            print(got)
            rc = 1
    return rc


def find_prop_of(path):
    for l in open(path):
        if l.startswith("prop "):
            return l.split()[1]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "run":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        try:
            return run(a[1], tier)
        except BuildError as e:
            print("BUILD-ERROR:", e)
            return 3
    if a[0] == "replay":
        prop = find_prop_of(a[1])
        var = "posix"
        if any(l.startswith("# property=") and l.rstrip().endswith(" build") for l in open(a[1])):
            return run(prop, "quick")
        for l in open(a[1]):
            m = re.match(r"# property=\S+ variant=(\S+)", l)
            if m:
                var = m.group(1)
        spec = dict(PROPS[prop])
        for v in spec.get("variants") or []:
            if v["name"] == var:
                spec.update(v)
        work = tempfile.mkdtemp(prefix="cesim.")
        atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
        exe = os.path.join(work, "sim")
        try:
            build(spec, exe, work)
        except BuildError:
            spec["hflags"] = spec.get("hflags", []) + ["-DPLAIN_TYPES"]
            build(spec, exe, work)
        return subprocess.run([exe, "replay", a[1], "trace"]).returncode
    if a[0] == "build":      # build PROP OUT [variant]
        spec = dict(PROPS[a[1]])
        if len(a) > 3:
            for v in spec.get("variants") or []:
                if v["name"] == a[3]:
                    spec.update(v)
        work = tempfile.mkdtemp(prefix="cesim.")
        atexit.register(lambda: shutil.rmtree(work, ignore_errors=True))
        build(spec, os.path.abspath(a[2]), work)
        return 0
    if a[0] == "selftest":
        return selftest(a[1:] or ["C01", "C03", "C10", "C20"])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
