#!/usr/bin/env python3
"""Try planted bugs: in a mount namespace with a scratch copy at /repo, confirm that a planted
bug builds, passes the stable tests, that its demo tells the two trees apart, and whether the check of its
property reports it.  Development only; no check uses it.

  plant.py [--no-confirm] [--check P,P] [--seed N] [--tier T] ID...      (ID: folder under seeded/, or a path)
"""
import json, os, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--no-confirm", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--check", default="")
ap.add_argument("--seed", default="1")
ap.add_argument("--tier", default="quick")
ap.add_argument("-j", type=int, default=3)
ap.add_argument("ids", nargs="*")
a = ap.parse_args()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def one(i):
    d = i if os.path.isdir(i) else os.path.join(V, "seeded", i)
    d = os.path.abspath(d)
    name = os.path.basename(d)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant-" + name + "-", dir="/tmp")
    out = []
    def ns(script, timeout=1200):
        pre = "mount --bind %s/repo /repo && mount --bind %s/vp /opt/vp/work && mount --bind %s/ev /verif/evidence && cd /repo && " % (w, w, w)
        return subprocess.run(["unshare", "-Urm", "bash", "-c", pre + script], capture_output=True, text=True, errors="replace", timeout=timeout)
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.mkdir(w + "/vp"); os.mkdir(w + "/ev")
        shutil.copytree(d, w + "/demo")
        for f in os.listdir(w + "/demo"):
            if f.endswith(".diff") or f == "meta.json":
                os.remove(w + "/demo/" + f)
        ok = True
        if not a.no_confirm:
            r = ns("bash /opt/vp/build.sh && bash %s/demo/demo.sh" % w)
            if r.returncode:
                out.append("DEMO FAILS ON CLEAN: " + (r.stdout + r.stderr)[-800:]); ok = False
        r = subprocess.run(["git", "-C", w + "/repo", "apply", d + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return name, "PATCH DOES NOT APPLY " + r.stderr[:300]
        if not a.no_confirm:
            r = ns("bash /opt/vp/build.sh")
            if r.returncode:
                return name, "DOES NOT BUILD " + r.stderr[:600]
            r = ns("bash %s/demo/demo.sh" % w)
            if r.returncode == 0:
                out.append("DEMO PASSES WITH BUG"); ok = False
            r = ns("bash /opt/vp/test.sh %s/res.json" % w)
            res = json.load(open(w + "/res.json"))
            passed = set(res.get("passed", res.get("pass", [])))
            bad = sorted(stable - passed)
            if bad:
                out.append("TESTS FAIL: %s" % bad[:4]); ok = False
            if ok:
                out.append("confirmed")
        if not a.no_check:
            for p in (a.check.split(",") if a.check else [meta["property"]]):
                r = ns("VERIF_SEED=%s VERIF_TIER=%s python3 /verif/bin/check.py %s %s" % (a.seed, a.tier, p, a.tier))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
                if r.returncode == 1 and v:
                    out.append("caught by " + p)
                elif r.returncode == 0:
                    out.append("MISSED by " + p)
                else:
                    out.append("BROKEN %s rc=%s %s" % (p, r.returncode, (r.stdout + r.stderr)[-1500:]))
        return name, "; ".join(out)
    except subprocess.TimeoutExpired as e:
        return name, "TIMEOUT " + str(e)[-200:]
    finally:
        shutil.rmtree(w, ignore_errors=True)

ids = a.ids or sorted(os.listdir(V + "/seeded"))
with ThreadPoolExecutor(a.j) as ex:
    for n, s in ex.map(one, ids):
        print("%-28s %s" % (n, s), flush=True)
