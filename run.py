#!/usr/bin/env python3
"""Build and run the simulation that decides one property.

    run.py <ID> [quick|thorough]      search; rewrites evidence/<ID>.json
    run.py <ID> replay <file>         replay a recorded violation
    run.py --build-all                build everything (setup)

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VIF_REPO", "/repo")
BUILD = os.environ.get("VIF_SIM_BUILD", os.path.join(VERIF, "build"))
NCPU = min(8, os.cpu_count() or 1)

sys.path.insert(0, VERIF)
from checks import CHECKS, COMMON_FLAGS  # noqa: E402


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


def build(check):
    name = check["harness"]
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name)
    hdir, sdir = os.path.join(VERIF, "harness"), os.path.join(VERIF, "simrt")
    flags = COMMON_FLAGS + check.get("flags", [])
    libs = check.get("libs", [])
    srcs = [os.path.join(hdir, name + ".cpp")] + [f for f in tree(hdir) if f.endswith(".hpp")] + tree(sdir)
    deps = srcs + tree(os.path.join(REPO, "include")) + [os.path.join(REPO, x) for x in check.get("repo_sources", [])] + \
        [f for x in check.get("repo_trees", []) for f in tree(os.path.join(REPO, x))]
    key = digest(deps, " ".join(flags + libs) + REPO)
    stamp = exe + ".key"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    for f in (exe, stamp):
        if os.path.exists(f):
            os.unlink(f)
    objs, jobs = [], []
    for s in ("simrt", "simrt_thread", "simrt_alloc", "simrt_io"):
        o = os.path.join(d, s + ".o")
        objs.append(o)
        jobs.append((s, ["g++", "-std=c++17", "-O2", "-g1", "-w", "-fno-threadsafe-statics", "-c",
                         os.path.join(sdir, s + ".cpp"), "-o", o]))
    units = [(name, os.path.join(hdir, name + ".cpp"), [])] + \
        [(os.path.basename(x), os.path.join(REPO, x), fl) for x, fl in check.get("repo_units", [])]
    hobjs = []
    for u, src, fl in units:
        o = os.path.join(d, u + ".h.o")
        hobjs.append(o)
        jobs.append((u, ["g++"] + flags + fl + ["-I" + os.path.join(REPO, "include"), "-I" + hdir,
                                                '-DVIF_REPO_DIR="%s"' % REPO, "-c", src, "-o", o]))
    procs = [(n, c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, c in jobs]
    bad = None
    for n, c, p in procs:
        out = p.communicate()[0]
        if p.returncode:
            bad = (n, out)
    if bad:
        raise CheckError("cannot compile %s:\n%s" % (bad[0], bad[1][-6000:]))
    for o in hobjs:
        r = sh(["objcopy"] + [x for f in ("memcpy", "memmove", "memset", "memcmp")
                              for x in ("--redefine-sym", "%s=simrt_%s" % (f, f))] + [o])
        if r.returncode:
            raise CheckError("objcopy: " + r.stdout)
    r = sh(["g++", "-no-pie", "-rdynamic"] + hobjs + objs + ["-o", exe + ".tmp"] + libs + ["-lpthread", "-ldl"])
    if r.returncode:
        raise CheckError("cannot link: " + r.stdout[-6000:])
    os.rename(exe + ".tmp", exe)
    with open(stamp, "w") as f:
        f.write(key)
    return exe


def env_for(cpu=None):
    e = dict(os.environ)
    e.pop("SIM_REEXEC", None)
    if cpu is not None:
        e["SIM_CPU"] = str(cpu)
    return e


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(NCPU))


def symbolise(exe, text):
    def one(m):
        a = int(m.group(1), 16) + 0x400000 - 1
        r = sh(["addr2line", "-Cfpe", exe, hex(a)])
        s = r.stdout.strip().split("\n")[0]
        return "+0x%s[%s]" % (m.group(1), s[:160])
    return re.sub(r"\+0x([0-9a-f]+)", one, text)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


def search(pid, check, exe, seed, budget, work, known):
    cp = cpus()
    n = min(NCPU, len(cp)) or 1
    procs = []
    for w in range(n):
        out = os.path.join(work, "out%d.json" % w)
        cmd = [exe, "run", pid, "--seed", str(seed), "--from", str(w), "--stride", str(n),
               "--time", "%g" % budget, "--max", str(check.get("max_runs", 10**9)),
               "--out", out, "--vfile", os.path.join(work, "v%d" % w), "--hashes", os.path.join(work, "h%d" % w)]
        if known:
            cmd += ["--known", ",".join(known)]
        procs.append((w, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                               env=env_for(cp[w % len(cp)]))))
    res, found = [], []
    pending = list(procs)
    deadline = time.time() + budget + 120
    while pending:
        for x in list(pending):
            w, out, p = x
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(x)
            txt = p.communicate()[0]
            if rc not in (0, 1):
                for _, _, q in pending:
                    q.terminate()
                raise CheckError("worker %d failed with code %s: %s" % (w, rc, txt[-2000:]))
            with open(out) as f:
                r = json.load(f)
            r["worker"] = w
            res.append(r)
            if r["violation"]:
                found.append((r["vrun"], w, r["violation"]))
        if found and pending:
            # let the others finish shortly: the lowest run number wins only among what was found
            for _, _, q in pending:
                q.terminate()
            for w, out, q in pending:
                q.communicate()
            pending = []
        if time.time() > deadline:
            for _, _, q in pending:
                q.terminate()
            raise CheckError("workers did not finish in time")
        time.sleep(0.02)
    return res, sorted(found), n


def verify_determinism(pid, exe, seed, work, n, k, known):
    """Run the first k runs again in one fresh process and compare the hash of each history."""
    first = {}
    for w in range(n):
        p = os.path.join(work, "h%d" % w)
        if os.path.exists(p):
            for line in open(p):
                a = line.split()
                if len(a) == 2 and len(a[1]) == 16:
                    first[int(a[0])] = a[1]
    hp = os.path.join(work, "again")
    cmd = [exe, "run", pid, "--seed", str(seed), "--max", str(k), "--time", "60", "--out",
           os.path.join(work, "again.json"), "--hashes", hp]
    if known:
        cmd += ["--known", ",".join(known)]
    r = sh(cmd, env=env_for())
    if r.returncode not in (0, 1):
        raise CheckError("determinism run failed: " + r.stdout[-1000:])
    same = diff = 0
    for line in open(hp):
        a = line.split()
        if int(a[0]) in first:
            if first[int(a[0])] == a[1]:
                same += 1
            else:
                diff += 1
    if diff:
        raise CheckError("not deterministic: %d runs of %d differ when run again" % (diff, same+diff))
    return same


def main():
    if sys.argv[1:2] == ["--build-all"]:
        done = set()
        for pid, c in CHECKS.items():
            if c["harness"] not in done:
                done.add(c["harness"])
                build(c)
                print("built", c["harness"])
        return 0
    pid = sys.argv[1]
    check = CHECKS[pid]
    if sys.argv[2:3] == ["replay"]:
        exe = build(check)
        r = sh([exe, "replay", pid, sys.argv[3], "--trace"], env=env_for())
        print(symbolise(exe, r.stdout))
        return r.returncode
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = build(check)
    t_build = time.time() - t0
    budget = float(os.environ.get("VIF_SIM_TIME", check.get(tier, {"quick": 40, "thorough": 600}[tier])))
    kf = [k for k in known_findings(pid) if k.get("status") == "known"]
    known = [k["class"] for k in kf]
    work = tempfile.mkdtemp(prefix="vifsim_", dir="/tmp")
    try:
        res, found, n = search(pid, check, exe, seed, budget, work, known)
        same = verify_determinism(pid, exe, seed, work, n, 25 if tier == "quick" else 300, known) if not found else 0
        viol = None
        if found:
            vrun, w, cls = found[0]
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            raw = os.path.join(work, "v%d" % w)
            rep = os.path.join(rdir, "%s-%s-seed%d-run%d.replay" % (pid, cls, seed, vrun))
            # gate 1: a fresh process reproduces the recorded run, then minimise
            r = sh([exe, "min", pid, raw, rep, "--time", "20" if tier == "quick" else "90"], env=env_for())
            if r.returncode != 1:
                # not minimised: the recorded tapes have to do
                print("not minimised: " + r.stdout[-2000:])
                shutil.copyfile(raw, rep)
            msg = r.stdout
            # gate 2: fresh processes replay the minimised file to the same end
            hs = set()
            for _ in range(2):
                r = sh([exe, "replay", pid, rep], env=env_for())
                m = re.search(r"replay class=(\S+) hash=([0-9a-f]+)", r.stdout)
                if r.returncode != 1 or not m or m.group(1) != cls:
                    raise CheckError("replay of %s does not reproduce: %s" % (rep, r.stdout[-2000:]))
                hs.add(m.group(2))
            if len(hs) != 1:
                raise CheckError("replay of %s is not deterministic" % rep)
            viol = (cls, rep, symbolise(exe, msg))
        wall = time.time() - t0
        evidence(pid, check, tier, seed, res, same, n, wall, t_build, viol, kf)
        for k in kf:
            hit = sum(r["known"].get(k["class"], 0) for r in res)
            if hit:
                print("KNOWN-FINDING: property=%s %s (reached in %d runs)" % (pid, k["what"], hit))
        tot = sum(r["runs"] for r in res)
        if viol:
            print(viol[2])
            print("VIOLATION property=%s replay=%s" % (pid, viol[1]))
            return 1
        print("%s: held on %d simulated runs (%.0f s)" % (pid, tot, wall))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(pid, check, tier, seed, res, same, n, wall, t_build, viol, kf):
    def add(k):
        return sum(r[k] for r in res)
    faults, probes = {}, {}
    for r in res:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
    runs = add("runs")
    searched = max([r["wall"] for r in res] + [1e-9])
    samples = [s for r in sorted(res, key=lambda x: x["worker"]) for s in r["samples"]][:6]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": check["level"],
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": add("distinct"),
            "rule": res[0]["rule"] + ". Distinct: by the hash of the recorded history (choices observed by the code, I/O "
                    "results, thread switches, end state), counted per worker; workers explore disjoint seeds.",
            "samples": samples,
            "simulated_runs_per_hour": round(runs/searched*3600),
            "seeds_per_hour": round(runs/searched*3600),
            "simulated_time_s": add("simtime"),
            "simulated_processes": add("processes"),
            "simulated_threads": add("threads"),
            "peak_threads": max(r["peak_threads"] for r in res),
            "steps": add("steps"),
            "longest_run_steps": max(r["longest_run_steps"] for r in res),
            "synchronisation_events": add("syncs"),
            "context_switches": add("switches"),
            "io_operations": add("io_ops"),
            "distinct_interleavings": add("interleavings"),
            "interleaving_measure": "hash of the sequence of (from, to, step number) of all thread switches of the run",
            "faults_injected": faults,
            "runs_with_faults": add("faulty_runs"),
            "probes": probes,
            "workers": n,
            "determinism_reruns_identical": same,
            "real_components": check.get("real", []),
            "stub_components": check.get("stub", []),
            "build_s": round(t_build, 2),
            "known_findings": [k["class"] for k in kf],
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    sys.exit(rc)
