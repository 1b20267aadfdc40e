#!/opt/venv/bin/python
"""trybug.py ID [--notests] [--check P01,P05] [--seed 1]: confirm /verif/seeded/ID in a scratch copy and run checks.

Patch applies, builds, stable tests pass, demo passes on the clean copy and fails with the patch; then the check of
the property of meta.json (or the given ones) is run with VERIF_REPO on the scratch copy."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--notests", action="store_true")
ap.add_argument("--nocheck", action="store_true")
ap.add_argument("--check")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bug = os.path.join(here, "seeded", a.id)
meta = json.load(open(os.path.join(bug, "meta.json")))
top = tempfile.mkdtemp(prefix="trybug-", dir="/tmp")
copy = os.path.join(top, "repo")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


try:
    subprocess.check_call(["cp", "-a", "/repo", copy])
    for f in ("build.sh", "test.sh", "build_repo.py", "results.py", "BASELINE.json"):
        s = open("/opt/vp/" + f).read()
        if f.endswith((".sh", "_repo.py")):
            s = re.sub(r"(?<![\w/])/repo\b", copy, s.replace("/opt/vp", top))
        open(os.path.join(top, f), "w").write(s)
    demo_dir = os.path.join(top, "demo")
    shutil.copytree(bug, demo_dir)
    for f in os.listdir(demo_dir):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(demo_dir, f))
    env = dict(os.environ)
    r = sh("bash %s/demo.sh" % demo_dir, cwd=copy, timeout=300)
    ok = r.returncode == 0
    print("demo on clean tree: rc %d %s" % (r.returncode, "" if ok else "** BAD **\n" + r.stdout[-1500:]))
    r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (bug, bug), cwd=copy)
    if r.returncode:
        print("** patch does not apply **\n" + r.stdout)
        sys.exit(1)
    r = sh("bash %s/build.sh" % top)
    if r.returncode:
        print("** build fails **\n" + r.stdout[-1500:])
        sys.exit(1)
    r = sh("bash %s/demo.sh" % demo_dir, cwd=copy, timeout=300)
    print("demo with patch: rc %d %s\n   %s" % (r.returncode, "" if r.returncode else "** BAD **",
                                             "\n   ".join(r.stdout.strip().splitlines()[-2:])))
    if not a.notests:
        r = sh("bash %s/test.sh %s/out.json" % (top, top))
        res = json.load(open(top + "/out.json"))
        missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"]))
        print("stable tests: %s" % ("all pass" if not missing else "** BROKEN ** %r" % missing[:5]))
    if not a.nocheck:
        env["VERIF_REPO"] = copy
        for p in (a.check or meta["property"]).split(","):
            ev = os.path.join(here, "evidence", p + ".json")
            old = open(ev).read() if os.path.exists(ev) else None
            r = sh("timeout 900 ./run_check.py %s --tier %s --seed %s" % (p, a.tier, a.seed), cwd=here, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("check %s: rc %d %s   %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "** MISSED **",
                                                r.stdout.strip().splitlines()[-1]))
            for l in v[:4]:
                print("   ", l)
            if old is not None:
                with open(ev, "w") as f:
                    f.write(old)
            rec = os.path.join(here, "tools", "catches.json")
            log = json.load(open(rec)) if os.path.exists(rec) else {}
            keys = sorted({l.split("replay/")[1].split("-s")[0] for l in v})
            log.setdefault(a.id, {})[p] = keys[:4] if r.returncode == 1 and v else None
            with open(rec, "w") as f:
                json.dump(log, f, indent=1, sort_keys=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-2000:])
finally:
    shutil.rmtree(top)
