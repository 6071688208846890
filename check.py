#!/usr/bin/env python3
"""Build the simulator from /repo's current tree, explore one property, gate,
minimise and replay whatever it finds, and write the evidence file."""
import hashlib, json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RSIM_REPO", "/repo")
BUILD = os.environ.get("RSIM_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
JOBS = os.cpu_count() or 4
VARIANTS = ("epoll", "poll", "kqueue", "guard")   # the three socket back ends; the first once more, with run-time checks and preemption

REDIRECT = """read write recv recvfrom send sendto readv writev recvmsg sendmsg accept accept4 socket connect bind
listen close fcntl ioctl dup dup2 dup3 getsockopt setsockopt socketpair pipe epoll_create epoll_create1 epoll_ctl
epoll_wait epoll_pwait poll ppoll kqueue kevent shutdown gethostbyname2 gethostbyname malloc calloc realloc reallocarray free
posix_memalign aligned_alloc strdup strndup mmap munmap mprotect _exit abort __assert_fail
pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize pthread_create pthread_join pthread_detach
pthread_self pthread_equal pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal
pthread_cond_broadcast sched_yield""".split()

REDIRECT_EXAMPLE = "printf puts putchar fprintf sleep usleep nanosleep kill getpid sigwait pthread_sigmask sigprocmask signal sigaction exit".split()

CFLAGS = ["-std=gnu11", "-O1", "-g", "-w", "-fsanitize=address", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fno-stack-protector", "-ftrivial-auto-var-init=pattern", "-fPIC"]
CXXFLAGS = ["-std=gnu++20", "-O1", "-g1", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-stack-protector", "-fno-omit-frame-pointer"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fail(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    os._exit(3)


def gen_config(dst, guard=False):
    src = open(os.path.join(REPO, "config.h.cmake")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"VERSION\s+\"?(\d+)\.(\d+)\.(\d+)", cm)
    ver = {}
    for part in ("MAJOR", "MINOR", "REL"):
        mm = re.search(r"RCPR_VERSION_%s\s+\"?(\d+)" % part, cm)
        ver[part] = mm.group(1) if mm else None
    if None in ver.values():
        if m:
            ver = dict(zip(("MAJOR", "MINOR", "REL"), m.groups()))
        else:
            ver = {"MAJOR": "0", "MINOR": "4", "REL": "2"}
    for k, v in ver.items():
        src = src.replace("@RCPR_VERSION_%s@" % k, v)
    on = {"RCPR_VTABLE_RUNTIME_ENFORCEMENT" if guard else "RCPR_VTABLE_CHECK_ASSERT", "RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC"}
    src = re.sub(r"#cmakedefine\s+(\w+)(.*)", lambda g: ("#define %s%s" % (g.group(1), g.group(2))) if g.group(1) in on else "/* #undef %s */" % g.group(1), src)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    open(dst, "w").write(src)


def walk(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if os.path.splitext(f)[1] in exts:
                r.append(os.path.join(d, f))
    return r


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


# what the library keeps between calls lies together, so that every run can start with it as it is when a process starts
SECTIONS = ["--rename-section", ".bss=rcpr_lib_state,alloc,load,data,contents"] + [a for n in (".data", ".data.rel", ".data.rel.local") for a in ("--rename-section", n + "=rcpr_lib_state")]


def build_lib(guard):
    """the library for the simulator; guard: built with run-time checking of function tables, and traced so that threads can be preempted anywhere.  Returns {variant: archive}"""
    inc = os.path.join(BUILD, "include-guard" if guard else "include")
    gen_config(os.path.join(inc, "rcpr", "config.h"), guard)
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include")]
    src = walk(os.path.join(REPO, "src"), {".c"})
    if guard:
        src = [s for s in src if "/platform/kqueue/" not in s]
    fdir = os.path.join(REPO, "src/fiber/platform/sysv/x86_64")
    asm = walk(fdir, {".s", ".S"})
    hdrs = walk(os.path.join(REPO, "include"), {".h"})
    # the example server, run as it is: its main function is called by the simulator
    demo = walk(os.path.join(REPO, "examples/echo_server"), {".c"})
    alls = src + demo + asm + walk(os.path.join(REPO, "src"), {".h", ".inc"}) + hdrs + [os.path.join(REPO, "config.h.cmake"), os.path.join(REPO, "CMakeLists.txt"), __file__]
    flags = CFLAGS + (["-fsanitize-coverage=trace-pc"] if guard else [])   # a scheduling point at every basic block
    key = digest(alls, " ".join(flags))
    prefix = "guard-" if guard else "lib-"
    odir = os.path.join(BUILD, prefix + key)
    variants = (("guard", "epoll"),) if guard else (("epoll", "epoll"), ("poll", "poll"), ("kqueue", "kqueue"))
    if not os.path.exists(os.path.join(odir, "ok")):
        for d in os.listdir(BUILD):
            if d.startswith(prefix):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(odir)
        redef = os.path.join(odir, "redefine.txt")
        with open(redef, "w") as f:
            for s in REDIRECT:
                f.write("%s sim_%s\n" % (s, s))
            f.write("fcntl64 sim_fcntl64\n")
        redef_demo = os.path.join(odir, "redefine-example.txt")
        with open(redef_demo, "w") as f:
            for s in REDIRECT + REDIRECT_EXAMPLE:
                f.write("%s sim_%s\n" % (s, s))
            f.write("main sim_echo_server_main\n")
        def one(s):
            o = os.path.join(odir, os.path.relpath(s, REPO).replace("/", "__") + ".o")
            if s.endswith(".c"):
                p = sh(["gcc"] + flags + incs + (["-I" + os.path.join(SIM, "bsd")] if "/platform/kqueue/" in s else []) + ["-c", s, "-o", o])
            else:
                p = sh(["gcc", "-I" + os.path.dirname(s), "-Wa,-I" + os.path.dirname(s), "-c", s, "-o", o], cwd=os.path.dirname(s))
            if p.returncode:
                return None, p.stdout
            p = sh(["objcopy", "--redefine-syms=" + (redef_demo if s in demo else redef)] + SECTIONS + [o])
            if p.returncode:
                return None, p.stdout
            return o, ""
        with ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(one, src + demo + asm))
        bad = [r[1] for r, s in zip(res, src + demo + asm) if r[0] is None and "/platform/kqueue/" not in s]
        if bad:
            fail("the library does not build for the simulator:\n" + "\n".join(bad)[:4000])
        for variant, back in variants:
            objs = [r[0] for r, s in zip(res, src + demo + asm) if "/psock/platform/" not in s or ("/psock/platform/%s/" % back) in s]
            lib = os.path.join(odir, "librcpr_%s.a" % variant)
            if os.path.exists(lib):
                os.unlink(lib)
            if None in objs:
                continue    # the system's own build here has no kqueue back end, and would not notice
            p = sh(["ar", "rcs", lib] + objs)
            if p.returncode:
                fail(p.stdout)
        open(os.path.join(odir, "ok"), "w").write("ok")
    return {v: l for v, l in ((v, os.path.join(odir, "librcpr_%s.a" % v)) for v, _ in variants) if os.path.exists(l)}


def build(want=("epoll", "poll")):
    """returns {variant: binary}"""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    want = tuple(want) if "guard" in want else tuple(v for v in ("epoll", "poll", "kqueue") if v in want)
    libs = {}
    if want != ("guard",):
        libs.update(build_lib(False))
    if "guard" in want:
        libs.update(build_lib(True))
    inc = os.path.join(BUILD, "include")
    gen_config(os.path.join(inc, "rcpr", "config.h"))
    incs = ["-I" + inc, "-I" + os.path.join(REPO, "include")]
    hdrs = walk(os.path.join(REPO, "include"), {".h"})
    # harness objects
    hx = walk(SIM, {".cpp"})
    hh = walk(SIM, {".hpp"})
    hdir = os.path.join(BUILD, "sim")
    os.makedirs(hdir, exist_ok=True)
    base = digest(hh + hdrs + walk(os.path.join(REPO, "src"), {".h"}), " ".join(CXXFLAGS))
    def one(s):
        k = digest([s], base)
        outs = []
        for variant in VARIANTS:
            if variant != "epoll" and os.path.basename(s) != "core.cpp":
                outs.append(outs[0]); continue
            if variant not in want and variant != "epoll":
                outs.append(None); continue
            o = os.path.join(hdir, "%s-%s-%s.o" % (os.path.basename(s)[:-4], variant, k))
            if not os.path.exists(o):
                stem = "%s-%s-" % (os.path.basename(s)[:-4], variant)
                for f in os.listdir(hdir):
                    if f.startswith(stem):
                        os.unlink(os.path.join(hdir, f))
                fl = [] if variant == "epoll" else ["-DSIM_" + variant.upper()]
                p = sh(["g++"] + CXXFLAGS + fl + incs + ["-I" + SIM, "-I" + os.path.join(REPO, "src"), "-c", s, "-o", o + ".tmp"])
                if p.returncode:
                    return None, p.stdout
                os.rename(o + ".tmp", o)
            outs.append(o)
        return outs, ""
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, hx))
    bad = [r[1] for r in res if r[0] is None]
    if bad:
        fail("the simulator does not build:\n" + "\n".join(bad)[:6000])
    bins = {}
    def link(vi):
        i, variant = vi
        out = os.path.join(BUILD, "rsim-" + variant)
        p = sh(["g++", "-fsanitize=address", "-g1", "-no-pie", "-o", out + ".tmp"] + [r[0][i] for r in res] + (["-Wl,-u,sim_echo_server_main"] if walk(os.path.join(REPO, "examples/echo_server"), {".c"}) else []) + [libs[variant], "-lpthread"])
        if p.returncode:
            return variant, None, p.stdout
        os.rename(out + ".tmp", out)
        return variant, out, ""
    with ThreadPoolExecutor(4) as ex:
        for variant, out, err in ex.map(link, [(i, v) for i, v in enumerate(VARIANTS) if v in want and v in libs]):
            if out is None and variant == "kqueue":
                continue
            if out is None:
                fail("the simulator does not link:\n" + err[:4000])
            bins[variant] = out
    return bins, time.time() - t0


def load_known():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


META = json.load(open(os.path.join(HERE, "checks.json")))


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        b, t = build(VARIANTS)
        print("built in %.1f s: %s" % (t, ", ".join(sorted(b.values()))))
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        plat = "epoll"
        for line in open(sys.argv[2]):
            if line.startswith("platform "):
                plat = line.split()[1]
        b, _ = build((plat,))
        return subprocess.run([b[plat], "replay", sys.argv[2]]).returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = META[prop]
    budget = float(os.environ.get("RSIM_SECONDS", meta.get(tier + "_s", 30 if tier == "quick" else 600)))
    t0 = time.time()
    bins, tb = build(meta.get("platforms", ["epoll"]))
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    plats = [p for p in meta.get("platforms", ["epoll"]) if p in bins]
    results, violation = [], None
    for i, plat in enumerate(plats):
        share = meta.get("shares", [1.0 / len(plats)] * len(plats))[i]
        out = os.path.join(rdir, "%s-%s-%s" % (prop, plat, tier))
        for ext in (".json", ".replay"):
            if os.path.exists(out + ext):
                os.unlink(out + ext)
        p = subprocess.run([bins[plat], "explore", prop, str(seed), "%.1f" % (budget * share), str(JOBS), str(meta.get("max_runs", 10 ** 12)), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode not in (0, 1):
            sys.stdout.write(p.stdout); sys.stderr.write(p.stderr)
            fail("exploration of %s on %s ended with status %d: %s" % (prop, plat, p.returncode, p.stderr[-1000:]))
        results.append(json.load(open(out + ".json")))
        if p.returncode == 1:
            # last gate: a fresh process replays the file exactly
            r = subprocess.run([bins[plat], "replay", out + ".replay", "-q"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.returncode != 1:
                fail("replay of %s did not reproduce: %s" % (out + ".replay", r.stdout + r.stderr))
            violation = (out + ".replay", p.stdout.strip().splitlines()[-1])
            break
    # known findings of this property
    known = [k for k in load_known() if k[0] == prop]
    kf_lines = []
    if known and not violation:
        for plat in plats[:1]:
            p = subprocess.run([bins[plat], "probe", prop], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            st = {}
            for line in p.stdout.splitlines():
                m = re.match(r"PROBE (\S+) ([01]) ?(.*)", line)
                if m:
                    st[m.group(1)] = (m.group(2), m.group(3))
            for (_, kid, desc) in known:
                if kid not in st:
                    fail("known finding %s of %s has no probe" % (kid, prop))
                if st[kid][0] == "1":
                    kf_lines.append("KNOWN-FINDING: property=%s %s (%s)" % (prop, desc, kid))
    wall = time.time() - t0
    runs = sum(r["runs"] for r in results)
    rwall = sum(r["wall_s"] for r in results)
    faults = {}
    scen = {}
    for r in results:
        for k, v in r["faults"].items():
            f = faults.setdefault(k, {"runs_armed": 0, "fired": 0})
            f["runs_armed"] += v["runs_armed"]; f["fired"] += v["fired"]
        for k, v in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_histories"] for r in results),
            "rule": "one evaluation = one simulated run of one scenario, every decision (workload, schedule, readiness order, fragmentation, fault) drawn from a PRNG seeded by VERIF_SEED; distinct = different hash over the complete event history (all operations, results, scheduling decisions and injected faults); runs with identical histories are counted once. " + meta.get("rule", ""),
            "samples": [s for r in results for s in r["samples"]],
            "runs_per_hour": int(runs / rwall * 3600) if rwall > 0 else 0,
            "seeds_per_hour": int(runs / rwall * 3600) if rwall > 0 else 0,
            "simulated_steps": sum(r["steps"] for r in results),
            "simulated_time": "the library reads no clock and arms no timer, so simulated time is counted in steps (system calls, allocations, scheduling points), see simulated_steps",
            "decisions_taken": sum(r["choices"] for r in results),
            "longest_run": {"decisions": max(r["longest_run_choices"] for r in results), "steps": max(r["longest_run_steps"] for r in results)},
            "distinct_abstract_states": sum(r["distinct_states"] for r in results),
            "runs_with_faults": sum(r["faulty_runs"] for r in results),
            "faults_injected": sum(r["faults_injected"] for r in results),
            "fault_kinds": faults,
            "runs_per_scenario": scen,
            "platform_variants": {r["platform"]: r["runs"] for r in results},
            "real_components": meta.get("real", "all of the library's C and assembly sources, compiled from the working tree"),
            "stubbed_components": meta.get("stub", "system calls, heap, stack mappings and POSIX threads (simulated)"),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    tmp = ev_path + ".tmp"
    json.dump(evd, open(tmp, "w"), indent=1)
    os.replace(tmp, ev_path)
    for l in kf_lines:
        print(l)
    print("%s %s: %d runs, %d distinct histories, %d faults injected, build %.1f s, total %.1f s" % (prop, tier, runs, evd["coverage"]["distinct_nontrivial"], evd["coverage"]["faults_injected"], tb, wall))
    if violation:
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
