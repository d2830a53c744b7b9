"""Runner: generated-input search for one property, spread over worker processes.

A check module (checks/<ID>.py) provides
  RULE          how cases are made and what makes one non-trivial
  prepare()     builds what it needs (optional)
  targets()     list of Target
A Target has a Hypothesis strategy producing JSON-able cases and run(case, rec), which raises Violation.
"""
import hashlib, struct, importlib, json, os, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REPLAYS = os.path.join(VERIF, ".replays")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HORUS_PY = "/opt/horus-venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.json")
NPROC = 8
CASE_TIMEOUT = 120          # seconds without an answer for one (milliseconds-sized) case


class Violation(Exception):
    """The property does not hold for this case."""
    def __init__(self, msg, kind="oracle"):
        super().__init__(msg)
        self.kind = kind


class Hang(Exception):
    pass


class HarnessError(Exception):
    """The check itself cannot give an answer."""


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Rec:
    def __init__(self):
        self.labels = {}
        self.nt = False
        self.evals = 1

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def extra(self, n):
        """further inputs tried inside this case (enumerated neighbours and the like)"""
        self.evals += n


class Target:
    def __init__(self, name, strategy, run, quick=500, thorough=10000, shards=None, setup=None, known=None, explicit=(), explicit_thorough=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.setup = setup
        self.known = known
        self.explicit = list(explicit)      # cases always run first
        self.explicit_thorough = list(explicit if explicit_thorough is None else explicit_thorough)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def subseed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


def known_findings(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [f for f in d.get("findings", []) if f["property"] == prop]


def _load(prop):
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    return importlib.import_module("checks." + prop)


# ------------------------------------------------------------------------------------------------ worker
def _alarm(sig, frm):
    raise Hang("no answer within %d s" % CASE_TIMEOUT)


def run_case(target, case, rec):
    """Runs one case; anything the code under test lets escape is a violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        target.run(case, rec)
    except (Violation, HarnessError):
        raise
    except Hang as e:
        raise Violation("hang: " + str(e), "hang")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = e.__traceback__
        frames = []
        while tb is not None:
            frames.append(os.path.abspath(tb.tb_frame.f_code.co_filename))
            tb = tb.tb_next
        if not any(f.startswith(REPO + os.sep) for f in frames):
            if isinstance(e, (TypeError, LookupError, AttributeError, ValueError, ArithmeticError, struct.error)):
                # a result of an unforeseen shape
                raise Violation("what was returned cannot be judged: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), "exception")
            raise HarnessError("the check itself failed: " + traceback.format_exc()[-3000:])
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), "exception")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(prop, tname, shard, nshards, seed, tier, out, budget, shrink=True):
    import logging
    logging.disable(logging.CRITICAL)
    mod = _load(prop)
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
    # Hypothesis's splicing of earlier choice sequences mostly yields misaligned (all-simplest) duplicates with these generators
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    t = next(t for t in mod.targets() if t.name == tname)
    total = t.quick if tier == "quick" else t.thorough
    n = max(1, (total + nshards - 1) // nshards)
    if t.setup:
        t.setup()
    res = {"evaluations": 0, "labels": {}, "samples": [], "failure": None, "skipped": 0, "known": {}, "raw": 0}
    hashes = set()
    state = {"fail": None, "hang": None, "nsamp": 0}
    t0 = time.monotonic()

    def one(case):
        if state["hang"] is not None:
            if canon(case) == state["hang"]:
                raise Violation(state["hangmsg"], "hang")
            return
        if state["fail"] is None and time.monotonic() - t0 > budget:
            res["skipped"] += 1
            return
        if state["fail"] is not None and time.monotonic() - state["t"] > 120:
            # enough shrinking: only the best failure so far still fails
            if canon(case) == canon(state["fail"]["case"]):
                raise Violation(state["fail"]["message"], state["fail"]["kind"])
            return
        rec = Rec()
        try:
            run_case(t, case, rec)
        except Violation as v:
            if t.known:
                k = t.known(case, v)
                if k:
                    res["known"][k] = res["known"].get(k, 0) + 1
                    return
            if state["fail"] is None:
                state["t"] = time.monotonic()
            state["fail"] = {"case": case, "message": str(v), "kind": v.kind}
            if v.kind == "hang":
                state["hang"] = canon(case)
                state["hangmsg"] = str(v)
            raise
        if state["fail"] is None:
            res["raw"] += 1
            res["evaluations"] += rec.evals
            for k, c in rec.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + c
            if rec.nt:
                h = hashlib.sha256(canon(case).encode()).hexdigest()[:16]
                if h not in hashes:
                    hashes.add(h)
                    state["nsamp"] += 1
                    c = canon(case)
                    if state["nsamp"] in (1, 20, 100) and len(res["samples"]) < 2 and len(c) < 3000:
                        res["samples"].append({"target": tname, "case": case, "labels": sorted(rec.labels)})

    try:
        for c in (t.explicit if tier == "quick" else t.explicit_thorough)[shard::nshards]:
            one(c)
        if state["fail"] is None and t.strategy is not None:
            phases = [Phase.generate] + ([Phase.shrink] if shrink else [])
            st = settings(max_examples=n, database=None, deadline=None, derandomize=False, phases=phases,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          verbosity=Verbosity.quiet, print_blob=False)
            test = hseed(subseed(seed, prop, tname, shard))(st(given(t.strategy)(one)))
            test()
    except HarnessError:
        traceback.print_exc()
        sys.exit(2)
    except BaseException as e:
        if state["fail"] is None:
            traceback.print_exc()
            sys.exit(2)
        state["fail"]["raised"] = type(e).__name__
    res["failure"] = state["fail"]
    res["hashes"] = sorted(hashes)
    res["wall"] = time.monotonic() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    return 0


def replay(prop, path):
    """Exit 1 and print the message if the saved case fails, 0 if it does not."""
    import logging
    logging.disable(logging.CRITICAL)
    d = json.load(open(path))
    mod = _load(prop)
    if hasattr(mod, "prepare"):
        mod.prepare()
    t = next(t for t in mod.targets() if t.name == d["target"])
    if t.setup:
        t.setup()
    if d.get("mode") == "shard":
        out = path + ".rerun.%d" % os.getpid()
        worker(prop, d["target"], d["shard"], d["nshards"], d["seed"], d["tier"], out, 600, shrink=False)
        r = json.load(open(out))
        os.unlink(out)
        if r["failure"]:
            print(r["failure"]["message"])
            return 1
        return 0
    try:
        run_case(t, d["case"], Rec())
    except Violation as v:
        print("[%s] %s" % (v.kind, v))
        return 1
    return 0


# ------------------------------------------------------------------------------------------------ parent
def _env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["TZ"] = "ACST-9:30ACDT,M10.1.0,M4.1.0/3"          # a receiver far from Greenwich, with summer time: telemetry is in UTC all the same
    e["PYTHONPATH"] = VERIF
    e.pop("PYTHONSTARTUP", None)
    return e


def _spawn(args, log):
    return subprocess.Popen([HORUS_PY, "-B", os.path.join(VERIF, "run.py")] + args, stdout=open(log, "wb"),
                            stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=_env(), start_new_session=True, cwd=VERIF)


def _killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def main(argv):
    if argv and argv[0] == "--worker":
        _, prop, tname, shard, nshards, seed, tier, out, budget = argv[:9]
        return worker(prop, tname, int(shard), int(nshards), int(seed), tier, out, float(budget), "noshrink" not in argv)
    prop = argv[0]
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    only = argv[argv.index("--target") + 1] if "--target" in argv else None
    t0 = time.monotonic()
    import tempfile, shutil
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    os.environ["TMPDIR"] = work         # whatever a worker leaves behind goes with it
    try:
        return _drive(prop, seed, tier, only, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _drive(prop, seed, tier, only, t0, work):
    try:
        mod = _load(prop)
        if hasattr(mod, "prepare"):
            mod.prepare()
        targets = mod.targets()
    except Exception:
        traceback.print_exc()
        print("ERROR: %s: cannot build or load what the check needs" % prop)
        return 2
    if only:
        targets = [t for t in targets if t.name == only]
    tprep = time.monotonic() - t0
    budget = getattr(mod, "QUICK_BUDGET", 150) if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 3000)
    jobs = []
    for t in targets:
        if not (t.quick if tier == "quick" else t.thorough):    # only there to replay listed findings
            continue
        ns = t.shards or NPROC
        for s in range(ns):
            jobs.append((t.name, s, ns))
    jobs.sort(key=lambda j: j[1])
    running, done, failures = [], [], []
    err, stopped = None, False          # stopped: workers were ended because another one found a failure
    deadline = time.monotonic() + (600 if tier == "quick" else 4 * 3600)
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < NPROC and not failures and err is None:
            tn, s, ns = queue.pop(0)
            out = os.path.join(work, "%s.%d.json" % (tn, s))
            p = _spawn(["--worker", prop, tn, str(s), str(ns), str(seed), tier, out, str(budget)], out + ".log")
            running.append((p, tn, s, ns, out))
        if failures or err is not None:
            queue = []
        for r in list(running):
            if r[0].poll() is not None:
                running.remove(r)
                _killpg(r[0])
                p, tn, s, ns, out = r
                if os.path.exists(out):
                    d = json.load(open(out))
                    done.append((tn, d))
                    if d["failure"]:
                        failures.append((tn, s, ns, d["failure"]))
                elif not (p.returncode == -9 and stopped):
                    err = "worker %s/%d exited %s\n%s" % (tn, s, p.returncode, open(out + ".log", errors="replace").read()[-3000:])
        if failures and running and time.monotonic() - t0 > 60:
            stopped = True
            for r in running:
                _killpg(r[0])
        if time.monotonic() > deadline:
            for r in running:
                _killpg(r[0])
            err = err or "time limit"
        time.sleep(0.02)

    os.makedirs(REPLAYS, exist_ok=True)
    violations, unconfirmed = [], []
    tried = {}
    failures.sort(key=lambda f: len(canon(f[3]["case"])))
    for tn, s, ns, f in failures:
        if tried.get(tn, 0) >= 2 or violations:
            continue
        tried[tn] = tried.get(tn, 0) + 1
        body = {"property": prop, "target": tn, "case": f["case"], "message": f["message"], "kind": f["kind"], "seed": seed, "tier": tier}
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, tn, hashlib.sha256(canon(f["case"]).encode()).hexdigest()[:10]))
        json.dump(body, open(path, "w"), indent=1)
        n = _confirm(prop, path, work, 3)
        if n == 3 or (n >= 1 and f["kind"] == "sanitizer"):
            violations.append((path, f))
            continue
        # the failure may need the cases before it: run the whole shard again, twice
        body["mode"], body["shard"], body["nshards"] = "shard", s, ns
        json.dump(body, open(path, "w"), indent=1)
        m = _confirm(prop, path, work, 2)
        if m == 2:
            violations.append((path, f))
        else:
            unconfirmed.append({"target": tn, "message": f["message"][:500], "replays": n, "reruns": m})
            sys.stderr.write("unconfirmed failure in %s (%d/3, %d/2): %s\n" % (tn, n, m, f["message"][:2000]))

    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": [], "labels": {}, "targets": {}}
    hs = set()
    known = {}
    for tn, d in done:
        cov["evaluations"] += d["evaluations"]
        hs.update(tn + h for h in d["hashes"])
        for k, c in d["labels"].items():
            k = tn + ":" + k
            cov["labels"][k] = cov["labels"].get(k, 0) + c
        tt = cov["targets"].setdefault(tn, {"cases": 0, "evaluations": 0, "budget_skipped": 0, "cpu_s": 0})
        tt["cases"] += d["raw"]
        tt["evaluations"] += d["evaluations"]
        tt["budget_skipped"] += d["skipped"]
        tt["cpu_s"] = round(tt["cpu_s"] + d["wall"], 1)
        for smp in d["samples"]:
            if sum(1 for x in cov["samples"] if x["target"] == tn) < 2:
                cov["samples"].append(smp)
        for k, c in d["known"].items():
            known[k] = known.get(k, 0) + c
    cov["distinct_nontrivial"] = len(hs)
    if known:
        cov["excluded_known_findings"] = known
    if unconfirmed:
        cov["unconfirmed_failures"] = unconfirmed
    if hasattr(mod, "extra_evidence"):
        cov.update(mod.extra_evidence())
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2), "violations": len(violations)}
    if not cov["samples"]:
        cov["samples"] = [{"note": "no completed non-trivial case"}]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in known_findings(prop):
        # each listed finding is one saved case; it is reported as long as that case still fails
        p = os.path.join(work, "kf.json")
        json.dump({"target": f["target"], "case": f["case"]}, open(p, "w"))
        if _confirm(prop, p, work, 1):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for path, f in violations:
        print(f["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, prep %.1fs, wall %.1fs" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], tprep, time.monotonic() - t0))
    if violations:
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    if cov["distinct_nontrivial"] == 0:
        print("ERROR: no non-trivial case was generated")
        return 2
    return 0


def _confirm(prop, path, work, times):
    ps = []
    for i in range(times):
        log = os.path.join(work, "replay.%d.log" % i)
        ps.append((_spawn([prop, "--replay", path], log), log))
    n = 0
    for p, log in ps:
        try:
            rc = p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            rc = None
        _killpg(p)
        if rc == 1:
            n += 1
        elif rc != 0:
            sys.stderr.write(open(log, errors="replace").read()[-1500:])
    return n
