"""Shards the cases of one property over processes, collects what the monitors observed, writes the evidence file."""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MAX_FAIL_PER_WORKER = 12
HANG_CPU_S = 150.0


class HarnessError(Exception):
    """the harness, not the code under test, is wrong: ends the check with exit 2"""


class CaseTimeout(BaseException):
    pass


def spawn_env(sanitize=False):
    from . import build
    env = dict(os.environ)
    ext = build.ensure(san=sanitize)
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_EXT_DIR=ext, PYTHONWARNINGS="ignore",
               JOBLIB_MULTIPROCESSING="1")
    env["PYTHONPATH"] = os.pathsep.join([os.path.join(VERIF, "vlib", "site"), build.repo(), VERIF])
    if sanitize:
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        env["LD_PRELOAD"] = lib + ":" + ub
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:" \
                              "detect_odr_violation=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=77"
    return env


def case_rng(pid, seed, i):
    import numpy as np
    h = hashlib.sha256(("%s/%s/%s" % (pid, seed, i)).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


class Obs(object):
    """what the monitors report during one case"""

    def __init__(self):
        self.events = {}
        self.sigs = set()
        self.fails = []
        self.samples = []
        self.n_checks = 0

    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def nontrivial(self, *sig):
        self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def fail(self, key, msg=""):
        self.fails.append((str(key), str(msg() if callable(msg) else msg)[:1500]))

    def check(self, cond, key, msg=""):
        self.n_checks += 1
        if not cond:
            self.fail(key, msg)
        return bool(cond)

    def check_exact(self, cond, key, msg=""):
        """check that relies on the branch and bound of AD3 having solved the problems of this case"""
        if not cond and WATCH[0] is not None and WATCH[0].gave_up():
            self.ev("solver-gave-up")
            return True
        return self.check(cond, key, msg)


WATCH = [None]


def watch_solver():
    if WATCH[0] is None:
        from .oracle import SolverWatch
        WATCH[0] = SolverWatch()
    WATCH[0].reset()
    # every case starts with the solver options and floating point settings of a fresh process
    import cvxopt.solvers
    import numpy
    cvxopt.solvers.options.clear()
    numpy.seterr(divide="warn", over="warn", under="ignore", invalid="warn")


def run_one(mod, pid, seed, tier, i):
    """returns (obs, harness_error or None)"""
    import numpy as np
    obs = Obs()
    watch_solver()
    rng = case_rng(pid, seed, i)
    np.random.seed(int(rng.integers(2 ** 31)))
    cap = getattr(mod, "CASE_CPU_S", HANG_CPU_S)

    def on_alarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, cap)
    try:
        mod.case(rng, i, obs, tier)
        return obs, None
    except CaseTimeout:
        obs.fail("no-termination", "case %d used more than %.0f s of CPU: %s" % (i, cap, traceback.format_exc()[-1200:]))
        return obs, None
    except HarnessError:
        return obs, traceback.format_exc()
    except (ImportError, MemoryError, SyntaxError):
        return obs, traceback.format_exc()
    except KeyboardInterrupt:
        obs.fail("exception:KeyboardInterrupt", traceback.format_exc()[-1400:])
        return obs, None
    except Exception as e:
        obs.fail("exception:%s" % type(e).__name__, traceback.format_exc()[-1400:])
        return obs, None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(pid, seed, tier, k, n, total, cap_s, out):
    mod = importlib.import_module("checks." + pid.lower())
    f = open(out, "w", buffering=1)
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    t0 = time.time()
    events, sigs, samples, checks, done, nfail = {}, set(), [], 0, 0, 0
    herr = None
    truncated = False
    known = load_known(pid)
    for i in range(k, total, n):
        if time.time() - t0 > cap_s:
            truncated = True
            break
        f.write(json.dumps({"start": i}) + "\n")
        obs, herr = run_one(mod, pid, seed, tier, i)
        done += 1
        checks += obs.n_checks
        for a, b in obs.events.items():
            events[a] = events.get(a, 0) + b
        sigs |= obs.sigs
        if obs.samples and len(samples) < 4:
            samples.append({"case": i, "what": obs.samples[0]})
        seen = set()
        for key, msg in obs.fails:
            if key in seen:
                continue
            seen.add(key)
            nfail += key not in known
            f.write(json.dumps({"fail": i, "key": key, "msg": msg}) + "\n")
        if herr:
            f.write(json.dumps({"harness": i, "err": herr}) + "\n")
            break
        if nfail >= MAX_FAIL_PER_WORKER and not getattr(mod, "KEEP_GOING", False):
            break
    f.write(json.dumps({"end": 1, "events": events, "sigs": sorted(sigs), "samples": samples, "checks": checks,
                        "done": done, "truncated": truncated}) + "\n")
    f.close()
    os.dup2(real_out, 1)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p)).get("findings", []):
        if e["property"] == pid and e.get("status") == "known":
            out[e["key"]] = e["what"]
    return out


def cpu_of(pid):
    try:
        s = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / float(os.sysconf("SC_CLK_TCK"))
    except Exception:
        return 0.0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    only = None
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    a = argv[1:]
    while a:
        if a[0] == "--tier":
            tier = a[1]; a = a[2:]
        elif a[0] == "--seed":
            seed = int(a[1]); a = a[2:]
        elif a[0] == "--replay":
            replay = a[1]; a = a[2:]
        elif a[0] == "--case":
            only = int(a[1]); a = a[2:]
        elif a[0] == "--worker":
            return worker(pid, seed, tier, int(a[1]), int(a[2]), int(a[3]), float(a[4]), a[5])
        elif a[0] == "--one":
            mod = importlib.import_module("checks." + pid.lower())
            obs, herr = run_one(mod, pid, seed, tier, int(a[1]))
            known = load_known(pid)
            for key, msg in obs.fails:
                print(("KNOWN " if key in known else "FAIL ") + key + "\n" + msg)
            print("events", obs.events, "checks", obs.n_checks)
            for s in obs.samples:
                print("sample", s)
            if herr:
                print(herr)
                return 2
            return 1 if any(k not in known for k, _ in obs.fails) else 0
        else:
            raise SystemExit("bad argument %r" % a[0])
    t0 = time.time()
    sys.path.insert(0, VERIF)
    meta = read_meta(pid)
    env = spawn_env(meta.get("SANITIZE", False))
    env["VERIF_TIER"] = tier
    base = [PY, "-W", "ignore", os.path.join(VERIF, "run_check.py"), pid, "--tier", tier, "--seed", str(seed)]
    if replay:
        r = json.load(open(replay))
        base = [PY, "-W", "ignore", os.path.join(VERIF, "run_check.py"), pid, "--tier", r["tier"], "--seed",
                str(r["seed"])]
        rc = subprocess.call(base + ["--one", str(r["case"])], env=env, cwd=VERIF)
        if rc == 1 or rc < 0 or rc == 77:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return rc
    if only is not None:
        return subprocess.call(base + ["--one", str(only)], env=env, cwd=VERIF)
    total = int(meta["CASES"][tier] * scale)
    cap_s = meta.get("CAP_S", {"quick": 420, "thorough": 7200})[tier]
    with tempfile.TemporaryDirectory(prefix="verif-%s-" % pid) as td:
        env["VERIF_SCRATCH"] = td
        procs = []
        for k in range(workers):
            out = os.path.join(td, "w%d.jsonl" % k)
            err = open(os.path.join(td, "w%d.err" % k), "wb")
            p = subprocess.Popen(base + ["--worker", str(k), str(workers), str(total), str(cap_s), out],
                                 env=env, cwd=VERIF, stderr=err, start_new_session=True)
            procs.append((p, out, err.name))
        results = supervise(procs, cap_s)
        return conclude(pid, tier, seed, meta, results, t0, total)


def supervise(procs, cap_s):
    """waits; a worker that burns CPU on one case without end inside C code is ended and reported"""
    last = {}
    hung = {}
    try:
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(0.3)
            for p, out, _ in procs:
                if p.poll() is not None:
                    continue
                try:
                    size = os.path.getsize(out)
                except OSError:
                    size = -1
                cpu = cpu_of(p.pid)
                now = time.time()
                if p.pid not in last or last[p.pid][0] != size:
                    last[p.pid] = (size, cpu, now)
                elif cpu - last[p.pid][1] > HANG_CPU_S * 2 + 60 or now - last[p.pid][2] > 800:
                    hung[p.pid] = cpu - last[p.pid][1] > HANG_CPU_S
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
    finally:
        for p, _, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    res = []
    for p, out, err in procs:
        recs = []
        try:
            for l in open(out):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        res.append(dict(rc=p.returncode, recs=recs, err=open(err, errors="replace").read()[-6000:],
                        hung=hung.get(p.pid)))
    return res


def read_meta(pid):
    """reads the constants of a check module without importing what it tests"""
    import ast
    src = open(os.path.join(VERIF, "checks", pid.lower() + ".py")).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def conclude(pid, tier, seed, meta, results, t0, total):
    known = load_known(pid)
    events, sigs, samples, checks, done = {}, set(), [], 0, 0
    fails, harness = [], []
    truncated = False
    for r in results:
        end = None
        cur = None
        for rec in r["recs"]:
            if "start" in rec:
                cur = rec["start"]
            elif "fail" in rec:
                fails.append((rec["fail"], rec["key"], rec["msg"]))
            elif "harness" in rec:
                harness.append(rec["err"])
            elif "end" in rec:
                end = rec
        if end is None:
            if r["hung"]:
                fails.append((cur, "no-termination", "case burned CPU without end"))
            elif cur is not None and (r["rc"] < 0 or r["rc"] == 77) and not r["hung"] is False:
                key = "native-crash"
                if "AddressSanitizer" in r["err"] or "runtime error" in r["err"]:
                    key = "sanitizer-report"
                if r["rc"] == -9:
                    harness.append("worker was killed (memory?)\n" + r["err"])
                else:
                    fails.append((cur, key, "exit %s\n%s" % (r["rc"], r["err"][-3000:])))
            else:
                harness.append("worker ended with %s\n%s" % (r["rc"], r["err"]))
            continue
        for a, b in end["events"].items():
            events[a] = events.get(a, 0) + b
        sigs |= set(end["sigs"])
        samples += end["samples"]
        checks += end["checks"]
        done += end["done"]
        truncated |= end["truncated"]
    status = 0
    new = [f for f in fails if f[1] not in known]
    old = {}
    for f in fails:
        if f[1] in known:
            old.setdefault(f[1], f)
    for key in sorted(old):
        print("KNOWN-FINDING: property=%s %s [case %s]" % (pid, known[key], old[key][0]))
    n_viol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    seen = set()
    for case, key, msg in sorted(new, key=lambda f: (str(f[1]), f[0] if f[0] is not None else -1)):
        n_viol += 1
        if key in seen or len(seen) >= 6:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-s%d-c%s.json" % (
            pid, "".join(c if c.isalnum() else "_" for c in key)[:60], seed, case))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, case=case, key=key, msg=msg), f, indent=1)
        print("%s: case %s: %s" % (key, case, msg[-700:]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    missing = []
    for kind, n in meta.get("MIN_EVENTS", {}).items():
        if events.get(kind, 0) < n * (total / float(meta["CASES"][tier])):
            missing.append("%s=%d<%d" % (kind, events.get(kind, 0), n))
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get("LEVEL", "exploration"),
              coverage=dict(evaluations=done, distinct_nontrivial=len(sigs), rule=meta["RULE"],
                            samples=samples[:8] or ["none"], oracle_checks=checks, observed_events=events),
              assumptions=meta.get("ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=n_viol)
    if truncated:
        ev["coverage"]["stopped_by_time_cap"] = True
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s tier=%s seed=%d: %d/%d cases, %d oracle checks, %d distinct non-trivial, %.1f s" % (
        pid, tier, seed, done, total, checks, len(sigs), time.time() - t0))
    for h in harness[:2]:
        print("HARNESS: " + h[-1500:])
    if status:
        return 1
    if harness or missing:
        print("INCONCLUSIVE: %s %s" % (", ".join(missing), "harness error" if harness else ""))
        return 2
    return 0
