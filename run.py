#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide one property
   run.py replay FILE           run one recorded violation again
   run.py try 'JOB'             run one job given as an expression of tools/jobs.py

Every job is a TLC run over a module of spec/ whose cases (states or behaviours
of the specification, printed as << "E", json >>) go to a driver that performs
them on the real code of /repo and compares what it sees with what the
specification says."""
import array, glob, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = "/repo"
TARGET = os.path.join(V, "harness", "target")
SLOTS = 8


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         stdout=subprocess.PIPE, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode()
    e.pop("PWD", None)
    e["RUSTFLAGS"] = "-Awarnings"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("VWNONE", None)
    for k in ("CARGO_PROFILE_DEV_DEBUG", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


ENV = None
# what the driver sees of the environment: the specification knows these values
DRIVER_ENV = dict(HOME="/home/vw u", VWSEG="v1/v 2")


def fail(msg):
    print("ERROR:", msg)
    sys.exit(2)


def build(features):
    """builds the driver against the working tree of /repo"""
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")]
    if features:
        cmd += ["--features", features]
    lock = os.path.join(V, "harness", "Cargo.lock")
    before = open(lock, "rb").read()
    p = subprocess.run(cmd, env=dict(ENV, CARGO_TARGET_DIR=TARGET), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, cwd=os.path.join(V, "harness"))
    if open(lock, "rb").read() != before:
        open(lock, "wb").write(before)
    if p.returncode:
        print(p.stdout.decode(errors="replace")[-4000:])
        fail("the driver does not build against /repo")
    return time.time() - t


def build_cli():
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "vimwiki-cli",
                        "--bin", "vimwiki"],
                       env=dict(ENV, CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_DEBUG="0"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
    if p.returncode:
        print(p.stdout.decode(errors="replace")[-4000:])
        fail("the command line tool does not build")
    return time.time() - t


class Job:
    """One TLC run (or, for simulation, `procs` of them with different seeds)."""

    def __init__(self, name, module, consts, op, next="Next", init="Init", inv=("EmitSound",), sim=None, depth=None,
                 procs=8, workers=4, opts=None, driver=None, xss=None, props=(), spec=None, constraint=None,
                 timeout=700, alone=False):
        self.__dict__.update(locals())
        self.opts = opts or {}
        # short runs: fewer processes with more behaviours each, and no time spent on compiling well
        self.short = bool(sim) and sim * procs <= 1600
        if self.short:
            self.sim, self.procs = max(1, sim * procs // 4), 4
        if alone:      # one driver takes all cases
            self.sim, self.procs = sim, 1

    def slots(self):
        return self.procs if self.sim else self.workers


def tlc_cmd(job, d, seed, cfg):
    j = ["java"] + (["-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC"] if job.short else ["-XX:+UseParallelGC"])
    j += ["-Xmx%s" % ("1500m" if job.sim else "6g"), "-Xss%s" % (job.xss or "64m"), "-cp",
         "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
         "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if job.sim:
        j += ["-workers", "1", "-simulate", "num=%d" % job.sim, "-depth", str(job.depth), "-seed", str(seed)]
    else:
        j += ["-workers", str(job.workers)]
    return j + ["-config", cfg, job.module + ".tla"]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("{") or v.startswith("<<") else '"%s"' % v
    raise ValueError(v)


def run_one(job, d, seed, nthreads):
    """one TLC process into one driver; returns a result dict"""
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for f in glob.glob(os.path.join(V, "spec", "*.tla")):
        shutil.copy(f, d)
    cfg = []
    if job.spec:
        cfg.append("SPECIFICATION " + job.spec)
    else:
        cfg += ["INIT " + job.init, "NEXT " + job.next]
    for k, v in job.consts.items():
        cfg.append("CONSTANT %s = %s" % (k, tla(v)))
    cfg += ["INVARIANT " + i for i in job.inv] + ["PROPERTY " + p for p in job.props]
    if job.constraint:
        cfg.append("CONSTRAINT " + job.constraint)
    cfg.append("CHECK_DEADLOCK FALSE")
    open(os.path.join(d, "R.cfg"), "w").write("\n".join(cfg) + "\n")
    drv = driver_cmd(job, d, nthreads)
    log = open(os.path.join(d, "log"), "wb")
    t0 = time.time()
    tp = subprocess.Popen(tlc_cmd(job, d, seed, "R.cfg"), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    dp = subprocess.Popen(drv, cwd=d, stdin=tp.stdout, stdout=subprocess.PIPE, stderr=log, env=dict(ENV, **DRIVER_ENV))
    tp.stdout.close()
    timed_out = []

    def stop():
        timed_out.append(1)
        tp.send_signal(signal.SIGKILL)
    timer = threading.Timer(job.timeout, stop)
    timer.start()
    out = dp.communicate()[0]
    if dp.returncode != 0:
        tp.kill()
    trc = tp.wait()
    timer.cancel()
    log.close()
    text = open(os.path.join(d, "log"), errors="replace").read()
    r = dict(job=job, dir=d, wall=time.time() - t0, timed_out=bool(timed_out))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", text)
    if m:
        r["generated"], r["states"], r["left"] = [int(x.replace(",", "")) for x in m[-1]]
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        r["generated"] = r["states"] = int(m[-1].replace(",", "")) if m else 0
        r["left"] = None
    if dp.returncode != 0:
        cur = sorted(glob.glob(os.path.join(d, "cur*")))
        lines = [open(c, errors="replace").read() for c in cur]
        r["crash"] = dict(rc=dp.returncode, lines=[l for l in lines if l])
        r["sum"] = dict(cases=0, distinct=0, tags={}, samples=[], nfail=0, failures=[])
        r["log"] = text[-1500:]
        return r
    r["sum"] = json.loads(out.decode().strip().split("\n")[-1])
    hung = any("hang" in (f.get("diff") or {}) for f in r["sum"]["failures"] if isinstance(f.get("diff"), dict))
    if trc != 0 and not timed_out and not hung:
        r["error"] = "TLC ended with %d: %s" % (trc, "\n".join(text.splitlines()[-40:]))
    elif re.search(r"^Error:", text, re.M) and not hung:
        r["error"] = text[text.index("Error:"):][:3000]
    return r


def driver_cmd(job, d, nthreads):
    if job.driver:
        return [sys.executable, os.path.join(V, "tools", job.driver), job.op, "dir=" + d] + \
               ["%s=%s" % kv for kv in job.opts.items()]
    return [os.path.join(TARGET, "debug", "vwharness"), job.op, "threads=%d" % nthreads, "cur=" + d,
            "hashes=" + os.path.join(d, "hashes")] + ["%s=%s" % kv for kv in job.opts.items()]


class Pool:
    def __init__(self, n):
        self.free = n
        self.cv = threading.Condition()

    def take(self, k):
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


def run_jobs(pid, jobs, seed):
    pool = Pool(SLOTS)
    work = os.path.join(V, "work", pid)
    if os.path.isdir(work):
        shutil.rmtree(work)
    os.makedirs(work)
    units = []
    for j in jobs:
        if j.sim:
            for k in range(j.procs):
                units.append((j, os.path.join(work, "%s.%d" % (j.name, k)), seed * 1000 + k + 1, 1))
        else:
            units.append((j, os.path.join(work, j.name), seed, j.workers))
    results = [None] * len(units)

    def go(i):
        j, d, s, k = units[i]
        try:
            results[i] = run_one(j, d, s, 1 if k == 1 else min(6, k))
        except Exception as e:  # noqa
            import traceback
            results[i] = dict(job=j, dir=d, wall=0, error=traceback.format_exc(), states=0, generated=0, left=None,
                              sum=dict(cases=0, distinct=0, tags={}, samples=[], nfail=0, failures=[]))
        finally:
            pool.give(k)
    ths = []
    for i, u in enumerate(units):
        pool.take(u[3])
        t = threading.Thread(target=go, args=(i,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return results, work


def crash_failures(r):
    """which of the cases in flight crashes the driver"""
    out = []
    for l in r["crash"]["lines"]:
        p = subprocess.run(driver_cmd(r["job"], r["dir"], 1), input=l.encode() + b"\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=dict(ENV, **DRIVER_ENV), cwd=r["dir"])
        if p.returncode != 0:
            out.append(dict(len=len(l), case=l[:2000], line=l,
                            diff=dict(crash=p.returncode, stderr=p.stderr.decode(errors="replace")[-400:])))
    return out


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(k, pid, f):
    if k.get("status") != "known" or k["property"] != pid:
        return False
    c = f["case"] if isinstance(f["case"], str) else json.dumps(f["case"], sort_keys=True)
    dd = json.dumps(f["diff"], sort_keys=True, ensure_ascii=False)
    if "case" in k and k["case"] != c:
        return False
    if "case_re" in k and not re.search(k["case_re"], c):
        return False
    if "diff_re" in k and not re.search(k["diff_re"], dd):
        return False
    return True


def attempt(J):
    """for working on the machinery: one job, no evidence, no verdict"""
    js = eval(sys.argv[2], dict(vars(J), Job=Job))
    js = js if isinstance(js, list) else [js]
    if any(not j.driver or j.driver == "cli.py" for j in js):
        print("build %.0f s" % build("html"))
    if any(j.driver == "cli.py" for j in js):
        print("build of the tool %.0f s" % build_cli())
    results, work = run_jobs("try", js, int(os.environ.get("VERIF_SEED", "1")))
    agg = {}
    for r in results:
        a = agg.setdefault(r["job"].name, dict(wall=0, states=0, cases=0, distinct=0, nfail=0, tags={}))
        a["wall"] = max(a["wall"], round(r["wall"], 1))
        a["states"] += r["states"]
        for k in ("cases", "distinct", "nfail"):
            a[k] += r["sum"][k]
        for k, v in r["sum"]["tags"].items():
            a["tags"][k] = a["tags"].get(k, 0) + v
    for k, a in agg.items():
        print(k, a)
    told = set()
    for r in results:
        if r.get("error") and len(told) >= 2:
            continue
        if r.get("crash"):
            print("CRASH", r["crash"]["rc"], crash_failures(r), r["log"])
        if r.get("error"):
            e = "\n".join(l for l in r["error"].splitlines()[2:] if not re.match("Parsing|Semantic pro|Starting|Finished|$", l))[:1500]
            if e not in told:
                told.add(e)
                print("ERROR", e)
        for f in r["sum"]["failures"][:int(os.environ.get("SHOW", "6"))]:
            print("  ", json.dumps(f["case"], ensure_ascii=False)[:500])
            print("      ", json.dumps(f["diff"], ensure_ascii=False)[:700])


def main():
    global ENV
    if len(sys.argv) < 2:
        fail("usage: run.py ID [quick|thorough] | run.py replay FILE")
    ENV = env()
    import jobs as J
    if sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        job = [j for j in J.checks(f["property"], f["tier"])["jobs"] if j.name == f["job"]][0]
        if J.checks(f["property"], f["tier"]).get("cli"):
            build_cli()
        if not job.driver or job.driver == "cli.py":
            build("html" if job.driver else J.checks(f["property"], f["tier"]).get("features"))
        d = os.path.join(V, "work", "replay")
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(driver_cmd(job, d, 1), input=f["line"].encode() + b"\n", stdout=subprocess.PIPE, env=dict(ENV, **DRIVER_ENV), cwd=d)
        print(p.stdout.decode(errors="replace"))
        sys.exit(0 if p.returncode == 0 and json.loads(p.stdout.decode().strip().split("\n")[-1])["nfail"] == 0 else 1)
    if sys.argv[1] == "try":
        return attempt(J)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = J.checks(pid, tier)
    bt = 0
    if spec.get("cli"):
        bt += build_cli()
    if spec.get("cli") or any(not j.driver for j in spec["jobs"]):
        bt += build("html" if spec.get("cli") else spec.get("features"))
    results, work = run_jobs(pid, spec["jobs"], seed)
    errors = [(r["job"].name, r["error"]) for r in results if r.get("error")]
    failures = []
    per_job, tags, samples = {}, {}, []
    total_states = total_gen = total_cases = 0
    hashes = {}
    for r in results:
        j = r["job"]
        if r.get("crash"):
            cf = crash_failures(r)
            if not cf:
                errors.append((j.name, "the driver ended with %s: %s" % (r["crash"]["rc"], r.get("log"))))
            r["sum"]["failures"] += cf
        s = r["sum"]
        for f in s["failures"]:
            f["job"] = j.name
            failures.append(f)
        hp = os.path.join(r["dir"], "hashes")
        key = (j.op, json.dumps(j.opts, sort_keys=True))
        hs = hashes.setdefault(key, set())
        if os.path.exists(hp):
            a = array.array("Q")
            a.frombytes(open(hp, "rb").read())
            hs.update(a)
        else:
            hs.update((r["dir"], i) for i in range(s["distinct"]))
        pj = per_job.setdefault(j.name, dict(module=j.module, mode="simulation" if j.sim else "exhaustive",
                                             constants=j.consts, operation=j.op, tlc_runs=0, states=0, transitions=0,
                                             cases=0, wall_s=0.0, complete=True))
        pj["tlc_runs"] += 1
        pj["states"] += r["states"]
        pj["transitions"] += r["generated"]
        pj["cases"] += s["cases"]
        pj["wall_s"] = round(max(pj["wall_s"], r["wall"]), 1)
        if r["timed_out"] or (not j.sim and r["left"] != 0):
            pj["complete"] = False
        total_states += r["states"]
        total_gen += r["generated"]
        total_cases += s["cases"]
        for k, n in s["tags"].items():
            tags[k] = tags.get(k, 0) + n
        samples += s["samples"][:3]
    distinct = sum(len(h) for h in hashes.values())
    need = spec.get("need", [])
    known = known_findings()
    viol, seen_known = [], {}
    for f in sorted(failures, key=lambda f: f["len"]):
        ks = [k for k in known if matches(k, pid, f)]
        if ks:
            seen_known.setdefault(ks[0]["id"], ks[0])
        else:
            viol.append(f)
    for k in known:
        if k["property"] == pid and k.get("status") == "known":
            print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], "" if k["id"] in seen_known else " (not met in this run)"))
    shown = []
    for n, f in enumerate(viol[:10]):
        p = os.path.join(work, "violation-%d.json" % (n + 1))
        json.dump(dict(property=pid, tier=tier, job=f["job"], case=f["case"], diff=f["diff"], line=f["line"],
                       replay="python3 /verif/run.py replay " + p), open(p, "w"), indent=1, ensure_ascii=False)
        shown.append(p)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  case", json.dumps(f["case"], ensure_ascii=False)[:600])
        print("  diff", json.dumps(f["diff"], ensure_ascii=False)[:600])
    if len(samples) > 12:
        samples = samples[:: max(1, len(samples) // 12)][:12]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=total_states, transitions=total_gen, traces_validated_against_impl=distinct,
                            cases_replayed=total_cases, samples=samples,
                            kinds_seen=dict(sorted(tags.items())), jobs=per_job, build_s=round(bt, 1)),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    ev["coverage"]["exhaustive"] = all(p["complete"] and p["mode"] == "exhaustive" for p in per_job.values())
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)
    missing = [k for k in need if not tags.get(k)]
    print("%s %s: %d states, %d cases (%d distinct) replayed, %d violations, %.0f s (build %.0f s)" %
          (pid, tier, total_states, total_cases, distinct, len(viol), time.time() - t0, bt))
    for d in glob.glob(os.path.join(work, "*", "states")) + glob.glob(os.path.join(work, "*", "hashes")):
        shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)
    if viol:
        sys.exit(1)
    if errors:
        for n, e in errors:
            print("ERROR in", n, e)
        sys.exit(2)
    if distinct == 0 or missing:
        fail("nothing explored" if distinct == 0 else "never seen: %s" % missing)
    sys.exit(0)


if __name__ == "__main__":
    main()
