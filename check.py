#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

  check.py PROP              run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE     execute a replay file against the current /repo tree
  check.py --determinism     run the seeds of every property twice and with different partitions; compare event logs
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. 2: the check itself could not decide."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props as P

REPO = os.environ.get("GGSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = max(2, min(8, os.cpu_count() or 4))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def die(msg, code=2):
    print("check error: " + msg, flush=True)
    sys.exit(code)


# ---------------------------------------------------------------- build
def lib_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))


def tree_hash(extra):
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*.[ch]pp") + glob.glob(REPO + "/src/*.h") + glob.glob(HERE + "/sim/*")):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def build(scn, variant):
    """Compile the simulator scenario together with the library sources of the current tree."""
    v = P.VARIANTS[variant]
    s = P.SCENARIOS[scn]
    cxx = s.get("cxx", {}).get(variant) or v["flags"]
    key = tree_hash((scn, variant, v, cxx, s))
    d = os.path.join(BUILD, "%s-%s-%s" % (scn, variant, key))
    exe = os.path.join(d, "sim")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (scn, variant))):
        try:
            if time.time() - os.path.getmtime(old) > 7200:
                shutil.rmtree(old, ignore_errors=True)
        except FileNotFoundError:  # another build of this check removed it first
            pass
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD)
    jobs = []
    common = ["-std=c++17", "-w", "-I" + REPO + "/src", "-I" + HERE + "/sim"]
    for f in lib_sources():
        jobs.append((f, cxx + s.get("libflags", [])))
    for f in ["main.cpp"] + s["sources"]:
        fl = cxx
        if f in s.get("special", {}):
            fl = s["special"][f]
        jobs.append((os.path.join(HERE, "sim", f), fl))
    objs = []

    def one(j):
        f, fl = j
        o = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest()[:8] + ".o")
        r = sh([v.get("compiler", "g++")] + common + fl + ["-c", f, "-o", o])
        return o, r, f

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for o, r, f in ex.map(one, jobs):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                die("cannot compile %s\n%s" % (f, r.stderr.decode(errors="replace")[-3000:]))
            objs.append(o)
    link = s.get("link", {}).get(variant, v.get("link", cxx))
    r = sh([v.get("compiler", "g++")] + link + objs + ["-o", os.path.join(tmp, "sim")] + s.get("libs", []))
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        die("cannot link %s\n%s" % (scn, r.stderr.decode(errors="replace")[-3000:]))
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def locales():
    """Compile the foreign locales the ambient scenario switches to (from the system's locale sources)."""
    d = os.path.join(BUILD, "locales")
    want = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("fr_FR", "UTF-8"), ("de_DE", "ISO-8859-1")]
    os.makedirs(d, exist_ok=True)

    def one(w):
        t = os.path.join(d, "%s.%s" % w)
        if os.path.isdir(t):
            return
        tmp = tempfile.mkdtemp(prefix="l-", dir=d)
        sh(["localedef", "-i", w[0], "-f", w[1], os.path.join(tmp, "x")])
        if os.path.isdir(os.path.join(tmp, "x")):
            try:
                os.rename(os.path.join(tmp, "x"), t)
            except OSError:
                pass
        shutil.rmtree(tmp, ignore_errors=True)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, want))
    return d


def env_for(scn):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC"}
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    if P.SCENARIOS[scn].get("locales"):
        e["LOCPATH"] = locales()
    return e


# ---------------------------------------------------------------- running
def crash_class(rc, err):
    t = err.decode(errors="replace")
    m = re.search(r"runtime error: ([^\n]*)", t)
    if m:
        return "undefined", re.sub(r"0x[0-9a-f]+", "ADDR", t[max(0, m.start() - 160):m.end()].strip().splitlines()[-1])
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", t)
    if m:
        return "memory-" + m.group(1), m.group(0)
    m = re.search(r"([^\n]*Assertion [^\n]*failed[^\n]*)", t)
    if m:
        return "assert", m.group(1)
    m = re.search(r"(terminate called[^\n]*\n?[^\n]*)", t)
    if m:
        return "terminate", m.group(1).replace("\n", " ")
    sig = -rc if rc < 0 else rc
    return "crash-%d" % sig, "process ended with %d: %s" % (rc, t[-300:])


class Chunk:
    def __init__(self, exe, prop, base, first, count, env, work, seconds, scn):
        self.__dict__.update(locals())

    def run(self, stop):
        out = os.path.join(self.work, "o%d-" % self.first)
        st = out + ".status"
        p = subprocess.Popen([self.exe, "run", self.prop, str(self.base), str(self.first), str(self.count), st, out, str(self.seconds)],
                             stdout=subprocess.DEVNULL, stderr=open(out + ".err", "wb"), env=self.env)
        last, t_last, hang = None, time.time(), False
        while True:
            try:
                p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = self.status(st)
            if cur != last:
                last, t_last = cur, time.time()
            elif time.time() - t_last > P.HANG_S:
                hang = True
                p.kill()
                p.wait()
                break
            if stop.is_set() and not hang:
                p.kill()
                p.wait()
                return None
        rs, idx = self.status(st)
        err = open(out + ".err", "rb").read()
        res = {"counters": {}, "hashes": set(), "sigs": set(), "viol": None}
        if os.path.exists(out) and not hang and p.returncode in (0, 10):
            for line in open(out):
                k, _, v = line.rstrip("\n").partition(" ")
                if k == "c":
                    n, x = v.rsplit(" ", 1)
                    res["counters"][n] = int(x)
                elif k == "viol":
                    seed, rest = v.split(" ", 1)
                    cls, det = rest.split(" :: ", 1)
                    res["viol"] = (int(seed), idx - 1, cls, det)
                else:
                    res[k] = float(v)
            for k in ("hashes", "sigs"):
                b = open(out + "." + k, "rb").read()
                res[k] = set(struct.unpack("<%dQ" % (len(b) // 8), b))
        else:
            cls, det = ("hang", "no progress within one run for %d s" % P.HANG_S) if hang else crash_class(p.returncode, err)
            if not idx:
                die("simulator did not start: " + err.decode(errors="replace")[-500:])
            res["viol"] = (rs, idx - 1, self.prop + "/" + cls, det)
            res["runs"] = idx - self.first
        res["first"] = self.first
        for f in glob.glob(out + "*"):
            os.unlink(f)
        return res

    @staticmethod
    def status(st):
        try:
            with open(st, "rb") as f:
                b = f.read(16)
            return struct.unpack("<QQ", b) if len(b) == 16 else (0, 0)
        except OSError:
            return (0, 0)


def exec_plan(exe, prop, plan, env):
    try:
        r = sh([exe, "exec", plan], env=env, timeout=P.HANG_S)
    except subprocess.TimeoutExpired:
        return prop + "/hang", "", "no progress for %d s" % P.HANG_S
    m = re.search(rb"RESULT (ok|viol) ?(\S*) ?hash=(\w+)(?: :: (.*))?", r.stdout)
    if m and r.returncode in (0, 10):
        if m.group(1) == b"ok":
            return None, m.group(3).decode(), ""
        return m.group(2).decode(), m.group(3).decode(), (m.group(4) or b"").decode(errors="replace")
    if r.returncode == 3:
        die("plan not accepted: " + r.stderr.decode(errors="replace"))
    cls, det = crash_class(r.returncode, r.stderr)
    return prop + "/" + cls, "", det


def exec_range(exe, prop, base, first, last, env, work):
    ch = Chunk(exe, prop, base, first, last - first + 1, env, work, 600, None)
    r = ch.run(threading.Event())
    v = r["viol"]
    return (v[2], "", v[3]) if v and v[1] == last else (v[2], "early", v[3]) if v else (None, "", "")


def read_plan(path):
    head, steps = [], []
    for line in open(path):
        (steps if line.startswith("s ") else head).append(line)
    return head, steps


def minimise(exe, prop, plan, cls, env, work, budget):
    head, steps = read_plan(plan)
    t0 = time.time()
    tmp = os.path.join(work, "min")
    tried = [0]

    def bad(st):
        with open(tmp, "w") as f:
            f.writelines(head + st)
        tried[0] += 1
        return exec_plan(exe, prop, tmp, env)[0] == cls

    n = 2
    while len(steps) >= 2 and time.time() - t0 < budget:
        size = max(1, len(steps) // n)
        done = False
        for i in range(0, len(steps), size):
            cand = steps[:i] + steps[i + size:]
            if cand and bad(cand):
                steps, n, done = cand, max(2, n - 1), True
                break
            if time.time() - t0 > budget:
                break
        if not done:
            if size == 1:
                break
            n = min(len(steps), n * 2)
    # shrink arguments
    for i in range(len(steps)):
        f = steps[i].split()
        for j in range(2, 8):
            for cand in ("0", str(int(int(f[j]) / 1000)), str(int(int(f[j]) / 2))):
                if f[j] == "0" or time.time() - t0 > budget:
                    break
                if cand == f[j]:
                    continue
                g = f[:j] + [cand] + f[j + 1:]
                if bad(steps[:i] + [" ".join(g) + "\n"] + steps[i + 1:]):
                    f = g
                    steps[i] = " ".join(f) + "\n"
                    break
    with open(tmp, "w") as f:
        f.writelines(head + steps)
    return tmp, tried[0]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/ :: (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(known, cls, det):
    for k, rx, desc in known:
        if k == cls and rx.search(det):
            return desc
    return None


def prefetch(prop, variants):
    scn = P.PROPS[prop]["scenario"]
    with cf.ThreadPoolExecutor(4) as ex:
        return dict(zip(variants, ex.map(lambda v: build(scn, v), variants)))


def check(prop):
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = P.PROPS[prop]
    scn = cfg["scenario"]
    plan_runs = cfg["thorough" if tier == "thorough" else "quick"]  # {variant: (runs, seconds cap)}
    env = env_for(scn)
    exes = prefetch(prop, list(plan_runs))
    known = known_findings(prop)
    shown = set()
    work = tempfile.mkdtemp(prefix="ggsim-")
    agg = {"counters": {}, "hashes": set(), "sigs": set(), "runs": 0, "steps": 0, "nontrivial": 0, "checks": 0, "faults": 0, "simtime": 0.0}
    per_variant = {}
    viols = []
    offset = 0
    build_s = time.time() - t_start
    sim_s = 0.0
    try:
        for variant, (runs, cap) in plan_runs.items():
            t_v = time.time()
            exe = exes[variant]
            per = max(1, min(cfg.get("chunk", 1000), runs // (JOBS * 2)))
            todo = [(offset + i, min(per, runs - i)) for i in range(0, runs, per)]
            stop = threading.Event()
            vr = {"runs": 0}

            def job(t):
                first, count = t
                res = []
                while count > 0:
                    left = cap - (time.time() - t_v)
                    if left <= 0 or stop.is_set():
                        break
                    r = Chunk(exe, prop, base, first, count, env, work, left, scn).run(stop)
                    if r is None:
                        break
                    res.append(r)
                    v = r["viol"]
                    if v is None:
                        break
                    d = is_known(known, v[2], v[3])
                    if d is None:
                        stop.set()
                        break
                    shown.add(d)
                    count -= v[1] + 1 - first
                    first = v[1] + 1
                return res

            with cf.ThreadPoolExecutor(JOBS) as ex:
                for rs in ex.map(job, todo):
                    for r in rs:
                        for k in ("runs", "steps", "nontrivial", "checks", "faults", "simtime"):
                            agg[k] += r.get(k, 0)
                        vr["runs"] += int(r.get("runs", 0))
                        for k, x in r["counters"].items():
                            agg["counters"][k] = agg["counters"].get(k, 0) + x
                        for k in ("hashes", "sigs"):
                            if len(agg[k]) < 20_000_000:
                                agg[k] |= r[k]
                        if r["viol"] and not is_known(known, r["viol"][2], r["viol"][3]):
                            viols.append((r["viol"], variant, r["first"]))
            vr["wall_s"] = round(time.time() - t_v, 2)
            sim_s += time.time() - t_v
            per_variant[variant] = vr
            offset += 10_000_000
            if viols:
                break
        result = None
        if viols:
            viols.sort(key=lambda v: v[0][1])
            result = settle(prop, scn, viols, exes, base, env, work)
        sample = sample_plans(exes[next(iter(plan_runs))], prop, base, env)
        write_evidence(prop, cfg, tier, base, agg, per_variant, sim_s, build_s, sample, result, t_start)
        for d in sorted(shown):
            print("KNOWN-FINDING: property=%s %s" % (prop, d), flush=True)
        if result:
            print("%s" % result["summary"])
            print("VIOLATION property=%s replay=%s" % (prop, result["replay"]), flush=True)
            return 1
        print("%s held: %d simulated runs, %d oracle evaluations, %d faults injected, %.0f s" % (prop, agg["runs"], agg["checks"], agg["faults"], time.time() - t_start))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def settle(prop, scn, viols, exes, base, env, work):
    """Gate: a violation counts only if fresh processes reproduce it; then minimise and write the replay file."""
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    notes = []
    for (seed, idx, cls, det), variant, first in viols[:6]:
        exe = exes[variant]
        plan = os.path.join(work, "plan")
        r = sh([exe, "gen", prop, str(seed)], env=env)
        if r.returncode:
            notes.append("gen failed for %d" % seed)
            continue
        with open(plan, "wb") as f:
            f.write(r.stdout)
        a = exec_plan(exe, prop, plan, env)
        b = exec_plan(exe, prop, plan, env)
        if a[0] is not None and a[0] == b[0] and a[1] == b[1]:
            mini, tried = minimise(exe, prop, plan, a[0], env, work, P.MINIMISE_S)
            c = exec_plan(exe, prop, mini, env)
            if c[0] != a[0]:
                mini, c = plan, a
            out = os.path.join(rdir, "%s-%d.replay" % (prop, seed))
            head, steps = read_plan(mini)
            with open(out, "w") as f:
                f.write("# property %s violated: class %s\n# %s\n# event-log hash %s; minimised from the plan of run seed %d (%d candidates executed)\n# replay: python3 check.py --replay %s\nvariant %s\n" % (prop, c[0], c[2].replace("\n", " ")[:600], c[1], seed, tried, out, variant))
                f.writelines(head + steps)
            return {"replay": out, "summary": "%s [%s, run seed %d] %s" % (c[0], variant, seed, c[2]), "steps": len(steps), "class": c[0], "detail": c[2]}
        # not a function of this plan alone: it may need the runs before it in the same process
        lo, hi = first, idx
        x = exec_range(exe, prop, base, lo, hi, env, work)
        y = exec_range(exe, prop, base, lo, hi, env, work)
        if x[0] and x[:2] == y[:2] and x[1] == "":
            t0 = time.time()
            while lo < hi and time.time() - t0 < P.MINIMISE_S:
                mid = (lo + hi + 1) // 2
                z = exec_range(exe, prop, base, mid, hi, env, work)
                if z[0] == x[0] and z[1] == "":
                    lo = mid
                else:
                    break
            out = os.path.join(rdir, "%s-%d.replay" % (prop, seed))
            with open(out, "w") as f:
                f.write("# property %s violated: class %s\n# %s\n# needs the history of runs %d..%d in one process\n# replay: python3 check.py --replay %s\nvariant %s\nprop %s\nscn %s\nrange %d %d %d\n" % (prop, x[0], x[2][:600], lo, hi, out, variant, prop, scn, base, lo, hi))
            return {"replay": out, "summary": "%s [%s, runs %d..%d in one process] %s" % (x[0], variant, lo, hi, x[2]), "steps": hi - lo + 1, "class": x[0], "detail": x[2]}
        notes.append("run %d (seed %d): %s %s -- replays gave %s / %s / %s" % (idx, seed, cls, det, a, b, x))
    die("violation seen but not reproducible, so not reported:\n  " + "\n  ".join(notes))


def sample_plans(exe, prop, base, env):
    r = sh([exe, "seedof", prop, str(base), "0"], env=env)
    out = []
    try:
        seed = r.stdout.decode().strip()
        t = sh([exe, "gen", prop, seed], env=env).stdout.decode().splitlines()
        out.append({"run_seed": int(seed), "plan": t[:14] + (["... %d more steps" % (len(t) - 14)] if len(t) > 14 else [])})
    except ValueError:
        pass
    return out


def write_evidence(prop, cfg, tier, base, agg, per_variant, sim_s, build_s, sample, result, t_start):
    c = agg["counters"]
    hours = max(sim_s, 1e-6) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": int(agg["runs"]),
            "distinct_nontrivial": len(agg["hashes"]),
            "rule": "one evaluation is one simulated run (one seed: one generated schedule of operations and faults executed against the real library). "
                    "Non-trivial: the oracle was evaluated at least once and at least one injected fault or scheduling event fired in the run; distinct: different event-log hash. " + cfg.get("rule", ""),
            "samples": sample,
            "oracle_evaluations": int(agg["checks"]),
            "nontrivial_runs": int(agg["nontrivial"]),
            "schedule_steps": int(agg["steps"]),
            "simulated_runs_per_hour": int(agg["runs"] / hours),
            "seeds_per_hour": int(agg["runs"] / hours),
            "simulated_time_covered_s": agg["simtime"],
            "faults_injected_total": int(agg["faults"]),
            "faults_injected": {k[6:]: v for k, v in sorted(c.items()) if k.startswith("fault.")},
            "events": {k: v for k, v in sorted(c.items()) if not k.startswith("fault.")},
            "distinct_states": len(agg["sigs"]),
            "distinct_states_measure": cfg["measure"],
            "variants": per_variant,
            "build_s": round(build_s, 1),
            "real_components": cfg["real"],
            "simulated_components": cfg["stub"],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t_start, 2),
        "violations": 1 if result else 0,
    }
    if result:
        ev["coverage"]["violation"] = {k: result[k] for k in ("class", "detail", "replay", "steps")}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def replay(path):
    variant = prop = scn = rng = None
    body = []
    for line in open(path):
        if line.startswith("#"):
            continue
        if line.startswith("variant "):
            variant = line.split()[1]
            continue
        if line.startswith("prop "):
            prop = line.split()[1]
        if line.startswith("scn "):
            scn = line.split()[1]
        if line.startswith("range "):
            rng = [int(x) for x in line.split()[1:]]
        body.append(line)
    exe = build(scn, variant)
    env = env_for(scn)
    work = tempfile.mkdtemp(prefix="ggsim-")
    try:
        if rng:
            cls, h, det = exec_range(exe, prop, rng[0], rng[1], rng[2], env, work)
        else:
            p = os.path.join(work, "p")
            with open(p, "w") as f:
                f.writelines(body)
            cls, h, det = exec_plan(exe, prop, p, env)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if cls is None:
        print("no violation (event-log hash %s)" % h)
        return 0
    print("%s (event-log hash %s) %s" % (cls, h, det))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def determinism(n):
    bad = 0
    for prop, cfg in P.PROPS.items():
        scn = cfg["scenario"]
        env = env_for(scn)
        for variant in cfg["quick"]:
            exe = build(scn, variant)
            k = n if variant == "plain" else n // 10

            def part(a, b, e):
                return sh([exe, "hash", prop, "1", str(a), str(b - a)], env=e).stdout

            whole = part(0, k, env)
            again = part(0, k, dict(env, JUNK="x" * 3000))
            with cf.ThreadPoolExecutor(8) as ex:
                q = max(1, k // 8)
                parts = b"".join(ex.map(lambda i: part(i, min(i + q, k), env), range(0, k, q)))
            ok = whole == again == parts and whole.count(b"\n") == k
            bad += not ok
            print("%s %-5s %d seeds: %s" % (prop, variant, k, "identical event logs in 3 partitions" if ok else "DIFFERENT"), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "--determinism":
        sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 2000))
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        for p, cfg in P.PROPS.items():
            prefetch(p, list(cfg["quick"]))
            env_for(cfg["scenario"])
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in P.PROPS:
        die("usage: check.py PROP | --replay FILE | --determinism [N] | --setup")
    sys.exit(check(sys.argv[1]))
