#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv, props


def known_findings():
    out = {}
    p = os.path.join(mbv.VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property="):
                pid = ln.split("property=")[1].split()[0]
                out.setdefault(pid, []).append(ln.split(None, 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = mbv.Ctx(prop, tier, seed)
    try:
        p = props.PROPS[prop]
        try:
            p.run(c)
        except mbv.CheckError as e:
            if not c.violations:
                raise
            c.notes.append("stopped after the violation: " + str(e)[:500])
        c.evidence(p.level, p.rule, p.assumptions)
        for k in sorted(set(c.known)):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        for text, path in c.violations:
            print("  " + text[:600])
        seen = set()
        for text, path in c.violations:
            if path not in seen:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                seen.add(path)
        if c.violations:
            return 1
        print("OK property=%s %s" % (prop, {k: v for k, v in sorted(c.cov.items())}))
        return 0
    except mbv.CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.close()


sys.exit(main())
