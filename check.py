#!/usr/bin/env python3
"""Builds the simulators from the working tree of the repository and runs the
seeded search for one property.

  check.py PROPERTY [quick|thorough] [--secs S] [--workers N] [--seed N]
  check.py --replay FILE          replays a reported violation
  check.py --determinism P[,P..]  runs the same seeds at several worker counts
                                  and compares the digests of all runs
  check.py --setup                checks that the toolchain can build everything

Exit status: 0 the property held on everything explored, 1 violation (with a
VIOLATION line), 2 the check itself failed.
"""
import argparse, atexit, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/mearaj/bips/zzverif"
LIB = ["C%02d" % i for i in range(1, 15)] + ["C25", "C26"]
GUI = ["C%02d" % i for i in range(15, 20)]
# Data races are not part of C01 and C03, and C13's nodes are separate
# processes: these run on the plain build only.
PLAIN_ONLY = {"C01", "C03", "C13", "C25"}
QUICK_SECS = 40
THOROUGH_SECS = 780
HANG = 90  # seconds in one run, which usually takes milliseconds

scratch = tempfile.mkdtemp(prefix="verif-sim-")
procs = []


def cleanup():
    for p in procs:
        if p.poll() is None:
            try:
                p.kill()
                p.wait(10)
            except Exception:
                pass
    shutil.rmtree(scratch, ignore_errors=True)


atexit.register(cleanup)
for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(s, lambda *a: sys.exit(2))


def fail(msg):
    print("check failed: " + msg, file=sys.stderr, flush=True)
    sys.exit(2)


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "VERIF_"))}
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", CGO_ENABLED="1",
             PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    cache = os.path.join(e["HOME"], ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=cache)
        t.close()
    except OSError:
        e["GOCACHE"] = os.path.join(scratch, "gocache")
    return e


ENV = env()


def run(cmd, cwd, extra=None, timeout=600):
    e = dict(ENV)
    e.update(extra or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timed out: " + " ".join(cmd)
    return r.returncode, r.stdout


class Build:
    def __init__(self):
        self.bins = {}
        self.sites = {}

    def instr(self, target):
        exe = os.path.join(scratch, "instr")
        if not os.path.exists(exe):
            rc, out = run(["go", "build", "-o", exe, "."], os.path.join(VERIF, "sim", "instr"), {"GOFLAGS": ""})
            if rc:
                fail("building the instrumenter:\n" + out)
        d = os.path.join(scratch, target)
        plain = []  # files left uninstrumented because their instrumented form does not compile
        for _ in range(6):
            rc, out = run([exe, "-repo", REPO, "-sim", os.path.join(VERIF, "sim"), "-out", d, "-target", target, "-plain", ",".join(plain)], REPO)
            if rc:
                fail("instrumenting:\n" + out)
            rc, vet = run(["go", "build", "-modfile", d + "/go.mod", "-overlay", d + "/overlay.json", "-o", os.devnull, "./zzverif/" + ("libsim" if target == "lib" else "guisim")], REPO)
            if rc == 0:
                break
            # "<scratch>/lib/src/bip32/x.go:12:3: ..."
            bad = set(re.findall(r"(?m)([\w./-]+\.go):\d+", vet))
            new = [os.path.relpath(b if os.path.isabs(b) else os.path.join(REPO, b), REPO) for b in bad]
            new = [re.sub(r"^.*?/%s/src/" % target, "", b) for b in new]
            new = [b for b in new if not b.startswith("zzverif/") and b not in plain]
            if not new:
                fail("building the simulated system:\n" + vet)
            plain += new
            print("note: left uninstrumented: " + ", ".join(new), file=sys.stderr)
        else:
            fail("building the simulated system:\n" + vet)
        m = re.search(r"(\d+) scheduling points", out)
        self.sites[target] = int(m.group(1))
        return d

    def get(self, name):
        if name in self.bins:
            return self.bins[name]
        target = "gui" if name == "gui" else "lib"
        d = os.path.join(scratch, target)
        if target not in self.sites:
            d = self.instr(target)
        exe = os.path.join(scratch, "sim-" + name)
        sim = "guisim" if target == "gui" else "libsim"
        nr = "-race=false " if name == "race" else ""
        cmd = ["go", "build", "-modfile", d + "/go.mod", "-overlay", d + "/overlay.json"]
        cmd += ["-gcflags=%s/%s=%s-l" % (MOD, p, nr) for p in ("simrt", "simsync")]
        if name == "race":
            cmd += ["-race"] + ["-gcflags=%s/%s=-race=false" % (MOD, p) for p in ("core", "ref", "libsim")]
        rc, out = run(cmd + ["-o", exe, "./zzverif/" + sim], REPO)
        if rc:
            fail("building the %s simulator:\n%s" % (name, out))
        self.bins[name] = exe
        return exe


B = Build()


def builds_for(prop):
    if prop in GUI:
        return ["gui"]
    if prop in PLAIN_ONLY:
        return ["plain"]
    return ["race", "plain"]


def sim_env(tag):
    log = os.path.join(scratch, "race-" + tag)
    return {"VERIF_RACELOG": log, "TZ": "UTC", "LANG": "C",
            "GORACE": "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3 log_path=" + log}


def sim(build, args, tag, timeout):
    exe = B.get(build)
    prop = args[args.index("-prop") + 1] if "-prop" in args else json.load(open(args[args.index("-in") + 1]))["property"]
    args = args + ["-known", ",".join(k[1] for k in known() if k[0] == prop)]
    return run([exe] + args + ["-sites", str(B.sites["gui" if build == "gui" else "lib"]), "-build", build], scratch, sim_env(tag), timeout)


def died(out):
    """Whether the output is that of a Go process which the runtime ended."""
    m = re.search(r"(?m)^(fatal error: .*|panic: .*|SIGSEGV.*|unexpected fault.*|runtime: goroutine stack exceeds.*)$", out)
    if not m or "signal: killed" in out:
        return None
    return m.group(1)


def replay(path, quiet=False):
    r = json.load(open(path))
    build = r.get("build") or builds_for(r["property"])[0]
    if r["class"] == "process-hang":
        rc, out = sim(build, ["replay", "-in", os.path.abspath(path)], "replay", HANG)
        if not quiet:
            print(out[-2000:])
        return rc == 124
    rc, out = sim(build, ["replay", "-in", os.path.abspath(path)], "replay", 240)
    if r["class"] == "process-death":
        d = died(out)
        ok = rc == 2 and d is not None
        if not quiet:
            print(out[-6000:])
        return ok
    if not quiet:
        print(out[-20000:])
    return rc == 0 and "REPRODUCED" in out and "NOT-REPRODUCED" not in out


def search(prop, tier, seed, secs, workers, hashes=False, maxruns=None, only=None):
    builds = only or builds_for(prop)
    for b in builds:
        B.get(b)
    ws = []
    for k in range(workers):
        b = builds[k % len(builds)]
        tag = "%s-%d-%d" % (prop, workers, k)
        out = os.path.join(scratch, tag + ".json")
        prog = os.path.join(scratch, tag + ".at")
        cmd = [B.get(b), "run", "-prop", prop, "-seed", str(seed), "-start", str(k), "-stride", str(workers), "-secs", str(secs),
               "-out", out, "-progress", prog, "-build", b, "-sites", str(B.sites["gui" if b == "gui" else "lib"])]
        cmd += ["-known", ",".join(k_[1] for k_ in known() if k_[0] == prop)]
        if tier == "thorough":
            cmd.append("-thorough")
        if hashes:
            cmd.append("-hashes")
        if maxruns:
            cmd += ["-max", str(maxruns)]
        e = dict(ENV)
        e.update(sim_env(tag))
        e["GOMAXPROCS"] = "1"
        err = open(os.path.join(scratch, tag + ".err"), "w+")
        p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=err, stderr=err)
        procs.append(p)
        ws.append(dict(p=p, out=out, prog=prog, err=err, build=b, at=None, since=time.time(), k=k))
    t_found = None
    while any(w["p"].poll() is None for w in ws):
        time.sleep(0.1)
        now = time.time()
        for w in ws:
            if w["p"].poll() is not None:
                if t_found is None and (w["p"].returncode != 0 or (os.path.exists(w["out"]) and '"found":{' in open(w["out"]).read())):
                    t_found = now
                continue
            try:
                at = open(w["prog"]).read()
            except OSError:
                at = None
            if at != w["at"]:
                w["at"], w["since"] = at, now
            elif now - w["since"] > HANG and not w.get("cut"):
                w["p"].kill()
                w["p"].wait()
                w["hang"] = True
        if t_found and now - t_found > 4:
            for w in ws:
                if w["p"].poll() is None:
                    w["p"].kill()
                    w["p"].wait()
                    w["cut"] = True
    stats, found = [], []
    for w in ws:
        rc = w["p"].returncode
        if w.get("cut"):
            continue
        if w.get("hang"):
            f = regen(w, prop, tier, seed, int(w["at"] or 0))
            f.update(**{"class": "process-hang", "detail": "the process hangs outside of all scheduling points, for more than %d s" % HANG, "build": w["build"]})
            found.append(f)
            continue
        if rc == 0:
            st = json.load(open(w["out"]))
            st["build"] = w["build"]
            stats.append(st)
            if st.get("found"):
                found.append(st["found"])
            continue
        w["err"].seek(0)
        txt = w["err"].read()
        d = died(txt)
        if rc == 2 and d and os.path.exists(w["prog"]):
            f = regen(w, prop, tier, seed, int(open(w["prog"]).read()))
            f.update(**{"class": "process-death", "detail": "the process dies: " + d + " " + where(txt), "build": w["build"]})
            found.append(f)
            continue
        fail("worker %d of %s ended with status %s:\n%s" % (w["k"], prop, rc, txt[-4000:]))
    return stats, sorted(found, key=lambda f: f["index"])


def regen(w, prop, tier, seed, ix):
    """The scenario of a run."""
    rc, out = sim(w["build"], ["gen", "-prop", prop, "-seed", str(seed), "-start", str(ix)] + (["-thorough"] if tier == "thorough" else []), "gen", 120)
    if rc:
        fail("run %d: %s" % (ix, out[-2000:]))
    return json.loads(out)


def where(txt):
    fs = re.findall(r"(?m)^github\.com/mearaj/bips/((?!zzverif)[\w./()*]+)\(", txt)
    return "in " + " < ".join(fs[:4]) if fs else ""


def known():
    """Known findings: lines 'finding: property=<id> class=<class> ## text'. The
    class names one specific history, which the simulator recognises."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) class=(\S+) ## (.*)$", l.strip())
        if m:
            out.append(m.groups())
    return out


def report(prop, found, seed):
    """Minimises and replays the first reproducible violation."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    notes = []
    for n, f in enumerate(found[:4]):
        raw = os.path.join(scratch, "found%d.json" % n)
        json.dump(f, open(raw, "w"))
        print("found: run %d of %s (%s build) [%s] %s" % (f["index"], prop, f.get("build"), f["class"], f["detail"][:600]), flush=True)
        cands = []
        mini = os.path.join(scratch, "min%d.json" % n)
        if not f["class"].startswith("process-"):
            rc, out = sim(f["build"], ["min", "-in", raw, "-out", mini, "-secs", "30"], "min%d" % n, 200)
            if rc == 0 and os.path.exists(mini):
                cands.append(mini)
        cands.append(raw)
        for c in cands:
            if replay(c, quiet=True):
                dst = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
                shutil.copyfile(c, dst)
                r = json.load(open(dst))
                print("property %s is broken [%s]: %s" % (prop, r["class"], r["detail"][:2000]))
                if r.get("shrunk"):
                    print("minimised " + r["shrunk"])
                print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
                return r
        notes.append("run %d [%s] %s" % (f["index"], f["class"], f["detail"][:400]))
    fail("violations found that do not replay in a fresh process: " + "; ".join(notes))


RULES = {
    "lib": "One evaluation is one simulated execution: a scenario (callers, operations, arguments, faults, restarts) and its schedule generated from the root seed and the run's index, executed by the real library code under the simulator. It is non-trivial if the scheduler preempted a caller inside the code at least once or an injected fault took effect; distinct if the digest of its schedule decisions (who was preempted where) and fired faults differs from that of every other execution of this check.",
    "gui": "One evaluation is one simulated session of the desktop tool: a history of edits, clicks, frames, clock advances, faults and a close, generated from the root seed and the run's index, executed by the real UI code on a simulated window. It is non-trivial if at least one input event or fault took effect; distinct if the digest of its sequence of events and fired faults differs from that of every other session of this check.",
}
REAL = {"lib": ["bip32", "bip39 (with word lists)", "bip44", "util", "btcec, btcutil/base58, pbkdf2 and the Go standard library as linked"],
        "gui": ["examples/ui/one (all of it)", "util, bip32, bip39, bip44", "gioui.org layout, widget, input router and accessibility tree"]}
STUB = {"lib": ["randomness source (simulated reader behind crypto/rand.Reader)", "scheduler, sync, channels' hand-over, clock, map order, process exit", "disk and network of the simulated nodes"],
        "gui": ["gioui.org/app window, event loop and display", "clock and frame timing", "randomness source", "process exit"]}


def evidence(prop, tier, seed, stats, wall, found, t_build):
    kind = "gui" if prop in GUI else "lib"
    shapes = set()
    pairs = None
    tot = {k: 0 for k in ("runs", "steps", "ops", "preemptions", "faults_fired", "map_iters")}
    simsec = 0.0
    faults, probes, samples = {}, {}, []
    per = {}
    for st in stats:
        shapes.update(st.get("shapes") or [])
        ps = st.get("pairs") or []
        pairs = ps if pairs is None else [a | b for a, b in zip(pairs, ps)]
        for k in tot:
            tot[k] += st[k]
        simsec += st["sim_seconds"]
        for src, dst in ((st.get("faults"), faults), (st.get("probes"), probes)):
            for k, v in (src or {}).items():
                dst[k] = dst.get(k, 0) + v
        if st.get("samples") and len(samples) < 3:
            samples.append(json.loads(st["samples"][0]))
        per[st["build"]] = per.get(st["build"], 0) + st["runs"]
    secs = max([st["wall"] for st in stats] or [1])
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(shapes), "rule": RULES[kind], "samples": samples,
        "runs_per_hour": int(tot["runs"] / max(secs, 0.01) * 3600),
        "seeds": "root seed %d, one derived seed per run" % seed,
        "scheduler_steps": tot["steps"], "operations": tot["ops"], "preemptions": tot["preemptions"],
        "faults_fired": tot["faults_fired"], "faults": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
        "simulated_time": ("%.1f s of window time" % simsec) if kind == "gui" else "logical: %d scheduling steps (the library reads no clock)" % tot["steps"],
        "switch_site_pairs": sum(bin(x).count("1") for x in (pairs or [])),
        "runs_by_build": per, "real_components": REAL[kind], "stubbed_components": STUB[kind],
        "search_seconds": round(secs, 1), "build_seconds": round(t_build, 1),
    }
    if kind == "lib":
        cov["scheduling_points_in_code"] = B.sites.get("lib", 0)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the reference model in sim/ref is right (it is checked against the published BIP-32 and BIP-39 vectors before every search)",
                          "code outside the repository's own module is not preempted in the middle of a call"],
          "wall_s": round(wall, 2), "violations": found}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", choices=["quick", "thorough"])
    ap.add_argument("--secs", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--determinism")
    ap.add_argument("--runs", type=int, default=40)
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        for b in ("race", "plain", "gui"):
            print("built the %s simulator: %d scheduling points" % (b, B.get(b) and B.sites["gui" if b == "gui" else "lib"]))
        return 0
    if a.replay:
        ok = replay(a.replay)
        r = json.load(open(a.replay))
        if ok:
            print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
            return 1
        print("the violation does not occur on this tree")
        return 0
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        fail("VERIF_SEED is not a number")
    seed &= (1 << 63) - 1
    ncpu = len(os.sched_getaffinity(0))
    workers = a.workers or max(2, min(16, ncpu))
    if a.determinism:
        return determinism(a.determinism.split(","), seed, a.runs)
    prop = a.prop
    if prop not in LIB + GUI:
        fail("unknown property %r" % prop)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    secs = a.secs or (THOROUGH_SECS if tier == "thorough" else QUICK_SECS)
    for b in builds_for(prop):
        B.get(b)
    t_build = time.time() - t0
    if tier == "thorough" and not a.secs:
        secs = max(60, secs - t_build)
    stats, found = search(prop, tier, seed, secs, workers)
    if not stats and not found:
        fail("no worker reported")
    if stats and not found and sum(s["runs"] for s in stats) < workers:
        fail("too few runs completed: %d" % sum(s["runs"] for s in stats))
    rep = None
    for k in known():
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if found:
        rep = report(prop, found, seed)
    evidence(prop, tier, seed, stats, time.time() - t0, 1 if rep else 0, t_build)
    n = sum(s["runs"] for s in stats)
    print("%s %s seed=%d: %d simulated runs, %d operations, %d faults fired, %.0f s" % (
        prop, tier, seed, n, sum(s["ops"] for s in stats), sum(s["faults_fired"] for s in stats), time.time() - t0))
    return 1 if rep else 0


def determinism(props, seed, runs):
    bad = 0
    for prop in props:
        for b in builds_for(prop):
            got = []
            for workers in (1, 3, 8):
                n = (runs + workers - 1) // workers
                stats, found = search(prop, "quick", seed, 600, workers, hashes=True, maxruns=n, only=[b])
                h = {}
                for st in stats:
                    for l in st.get("hashes") or []:
                        i, rest = l.split(" ", 1)
                        h[int(i)] = rest
                got.append(h)
            common = set(got[0]) & set(got[1]) & set(got[2])
            diff = [i for i in sorted(common) if len({g[i] for g in got}) > 1]
            print("%s %s: %d runs compared at 1, 3 and 8 workers, %d differ %s" % (prop, b, len(common), len(diff), diff[:5]), flush=True)
            bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
