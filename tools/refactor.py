#!/usr/bin/env python3
"""Run the checks on behaviour-preserving rewrites of /repo's files (refactors/src/<variant>/...): every
check has to stay quiet.  Works in a mount namespace on a scratch copy.  Development only.

  refactor.py [-j K] [--seed N] [--tests] [VARIANT[/pkg/file.go]]...    (default: every variant, one run per file)
"""
import json, os, shutil, subprocess, sys, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = V + "/refactors/src"
CHECKS = {
    "xsync/map.go": "C01 C02 C03 C04", "xsync/shared_map.go": "C04", "xsync/resourcemanager.go": "C05",
    "xsync/spinlock.go": "C06 C08 C21", "xonce/value.go": "C07", "xonce/chan.go": "C07", "xonce/once.go": "C07",
    "xring/xring.go": "C08", "xbytes/pool.go": "C09", "xtask/do.go": "C10 C12", "xtask/retry.go": "C11", "xerror/err.go": "C11 C05",
    "xworker/xworker.go": "C12", "xbarrier/readbarrier.go": "C13", "xbarrier/writebarrier.go": "C13 C14 C15",
    "xmapreduce/xmapreduce.go": "C14 C15", "xstream/xstream.go": "C16 C17 C18 C19 C20", "xstream/ring.go": "C16",
    "xstream/collection.go": "C19", "xstream/option.go": "C17", "xstring/stringjoiner.go": "C21", "xbinary/xbinary.go": "C22",
    "xio/buffer.go": "C23", "xstring/xstring.go": "C24 C25 C26 C27", "xmath/xmath.go": "C28", "internal/hack/xstring.go": "C24",
}
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3)
ap.add_argument("--seed", default="1")
ap.add_argument("--tests", action="store_true")
ap.add_argument("what", nargs="*")
a = ap.parse_args()

def files(v):
    out = []
    for d, _, fs in os.walk(os.path.join(R, v)):
        out += [os.path.relpath(os.path.join(d, f), R) for f in fs if f.endswith(".go")]
    return sorted(out)

todo = []
for w in a.what or sorted(os.listdir(R)):
    todo += [w] if w.endswith(".go") else files(w)
# these packages are replaced as a whole
seen = []
for t in todo:
    v, rel = t.split("/", 1)
    g = (v, next((k for k in ("xstream", "xbarrier") if rel.startswith(k + "/")), rel))
    if g not in seen:
        seen.append(g)

def one(g):
    v, rel = g
    fs = [f.split("/", 1)[1] for f in files(v)]
    fs = [f for f in fs if f == rel or f.startswith(rel + "/")]
    w = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    out = []
    def ns(script, timeout=1200):
        pre = "mount --bind %s/repo /repo && mount --bind %s/vp /opt/vp/work && mount --bind %s/ev /verif/evidence && cd /repo && " % (w, w, w)
        return subprocess.run(["unshare", "-Urm", "bash", "-c", pre + script], capture_output=True, text=True, errors="replace", timeout=timeout)
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        os.mkdir(w + "/vp"); os.mkdir(w + "/ev")
        for f in fs:
            shutil.copy(os.path.join(R, v, f), os.path.join(w, "repo", f))
        r = ns("bash /opt/vp/build.sh")
        if r.returncode:
            return g, "DOES NOT BUILD " + (r.stdout + r.stderr)[-1500:]
        if a.tests:
            r = ns("bash /opt/vp/test.sh %s/res.json" % w)
            try:
                res = json.load(open(w + "/res.json"))
                bad = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res.get("passed", res.get("pass", []))))
                if bad:
                    out.append("tests fail: %d %s" % (len(bad), bad[:3]))
            except Exception as e:
                out.append("tests: %s" % e)
        checks = []
        for f in fs:
            checks += [c for c in CHECKS[f].split() if c not in checks]
        for p in checks:
            r = ns("VERIF_SEED=%s VERIF_TIER=quick python3 /verif/bin/check.py %s quick" % (a.seed, p))
            note = " NATIVE" if "native schedules" in r.stderr else ""
            if r.returncode == 0 and "VIOLATION" not in r.stdout:
                out.append(p + " quiet" + note)
            else:
                out.append("\n   ALARM %s rc=%d%s %s" % (p, r.returncode, note, (r.stdout + r.stderr)[-2500:]))
        return g, "; ".join(out)
    except subprocess.TimeoutExpired as e:
        return g, "TIMEOUT " + str(e)[-200:]
    finally:
        shutil.rmtree(w, ignore_errors=True)

with ThreadPoolExecutor(a.j) as ex:
    for g, s in ex.map(one, seen):
        print("%-34s %s" % ("/".join(g), s), flush=True)
