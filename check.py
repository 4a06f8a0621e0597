#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough] [--repo DIR]   decides one property statically"""
import faulthandler; faulthandler.dump_traceback_later(int(__import__("os").environ.get("FH","0")) or 10**6,exit=True)
import argparse, importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)


def run_one(prop, tier, seed, prog, write=True):
    from analysis.report import Report
    mod = importlib.import_module("analysis.rules." + prop.lower())
    rep = Report(prop, tier, seed)
    t0 = time.time()
    mod.run(prog, rep)
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    new = []
    hit = []
    for v in rep.violations:
        m = [k for k in known if k["key"] == v["key"]]
        if m:
            hit.append((v, m[0]))
        else:
            new.append(v)
    edir = os.path.join(VERIF, "evidence")
    vpath = os.path.join(edir, prop + ".violations.json")
    total = sum(rep.counts.values())
    disc = sum(rep.discharged.values())
    if write:
        os.makedirs(edir, exist_ok=True)
        if os.path.exists(vpath):
            os.remove(vpath)
        if new:
            with open(vpath, "w") as f:
                json.dump({"property": prop, "repo": prog.repo, "violations": new}, f, indent=1)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static analysis of the resolved program (clang AST and control flow graphs of all translation units of "
                               "/repo/src and headers); no code of the repository is executed. " + (mod.__doc__ or "").strip(),
                "translation_units": len(prog.tus), "functions_analysed": len(prog.fns), "records": len(prog.records),
                "obligations": total, "discharged": disc,
                "obligations_by_rule": dict(rep.counts), "rules": rep.rules,
                "samples": {k: v for k, v in rep.samples.items()},
                "known_findings_matched": [v["key"] for v, _ in hit], "notes": rep.notes,
                "violations": [{k: v[k] for k in ("rule", "loc", "construct", "message")} for v in new],
            },
            "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new),
        }
        tmp = os.path.join(edir, prop + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(edir, prop + ".json"))
    return rep, new, hit, vpath


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.repo:
        os.environ["TIRO_REPO"] = a.repo
    from analysis import model
    from analysis.facts import AnalysisBroken
    rc = 0
    ids = a.id
    if ids == ["all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "analysis/rules")) if f.startswith("c") and f.endswith(".py"))
    try:
        prog = model.load()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error while loading the program")
        return 3
    for prop in ids:
        try:
            rep, new, hit, vpath = run_one(prop, a.tier, seed, prog, a.repo is None)
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
            rc = 3
            continue
        except Exception:
            traceback.print_exc()
            print("ANALYSIS-BROKEN property=%s: internal error" % prop)
            rc = 3
            continue
        print("%s: %d obligations, %d discharged, rules: %s" % (prop, sum(rep.counts.values()), sum(rep.discharged.values()),
              ", ".join("%s=%d" % kv for kv in sorted(rep.counts.items()))))
        for v, k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for v in new:
            print("  %s: [%s] %s: %s" % (v["loc"], v["rule"], v["construct"], v["message"]))
            for s in v["path"]:
                print("      " + s)
        if new:
            print("VIOLATION property=%s replay=%s" % (prop, vpath))
            if rc == 0:
                rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
