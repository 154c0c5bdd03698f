#!/usr/bin/env python3
"""check.py --property Cnn [--tier quick|thorough]
Decides one property of /repo's current working tree by static analysis of its MIR."""
import argparse
import json
import multiprocessing
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build                                   # noqa: E402
from build import VERIF, BuildError            # noqa: E402
import props                                   # noqa: E402

PROG = {}


def analyse(job):
    """runs one analysis job (in a worker process)"""
    from interp import Interp, Unsupported, Violation
    from mir import Program
    cfg, entry, cls, kw, rules, path, deadline = job
    budget = max(60, (deadline - time.time()) / 3)
    t0 = time.time()
    res = {"config": cfg, "entry": entry, "part": kw.get("part", ""), "violations": [], "unsupported": [],
           "obligations": {}, "stats": {}, "functions": [], "other_rules": {}}
    try:
        if path not in PROG:
            PROG[path] = Program(path)
        prog = PROG[path]
        if entry not in prog.entries:
            res["unsupported"].append("entry %s is missing from the dump" % entry)
            return res
        def explore(order, secs, cap=None):
            kw2 = dict(kw)
            cost = kw2.pop("cost", None)
            sp = cls(entry, **kw2)
            I = Interp(prog, sp)
            I.rules, I.collect, I.cost, I.round_cap = rules, True, cost, cap
            I.deadline = min(deadline, time.time() + secs)
            if order == "count":
                I.alike = {}
            sp.init(I)
            I.run(order)
            return I
        # where the exploration gives up, searches for a counterexample: if they find one, it is the verdict
        late = "time budget exceeded"
        I = explore(None, min(90, budget))
        for order in ("small", "count") if I.unsupported and not I.violations else ():
            I2 = explore(order, 40)
            if I2.violations:
                I2.unsupported = I.unsupported
                I = I2
                break
        if late in I.unsupported and not I.violations and budget > 90:
            # the exploration goes on where it stopped
            I.unsupported.remove(late)
            I.deadline = min(deadline, time.time() + budget)
            I.run()
        if rules and "cost" in rules and I.cost and not I.unsupported and not I.violations:
            heads = I.unbounded() if I.cost.get("rounds") else []
            if heads:
                # is it one call that goes round, or a coincidence of states of different calls?
                I3 = explore("small", budget, 12)
                I.violations = [v for v in I3.violations if v["rule"] == "cost"]
                for v in I.violations:
                    v["where"] = v["where"] + ["rounds of " + h for h in heads]
                if not I.violations and I3.unsupported:
                    I.unsupported = I3.unsupported
            if not I.violations and not I.unsupported:
                I.obligations = {}
                if I.cost.get("rounds"):
                    I.obligations["loop-head states with a bounded number of rounds"] = max(1, len(I.visited))
                if I.cost.get("noalloc"):
                    I.obligations["calls followed that do not allocate"] = I.stats.get("calls", 0)
        if not I.unsupported and not I.violations:
            res["unranked"], n = I.termination()
            res["loop_edges"] = len(I.edges)
            if rules and "diverges" in rules and n:
                I.obligations["cyclic parts with a measure"] = n
        res["violations"] = I.violations
        res["unsupported"] = I.unsupported
        res["obligations"] = I.obligations
        res["stats"] = I.stats
        res["other_rules"] = I.other
        res["functions"] = sorted({prog.fns[f]["path"] for f in prog.used if prog.fns[f].get("crate") == "treena"})
        res["std_functions"] = len({f for f in prog.used if prog.fns[f].get("crate") not in ("treena", "vpharness")})
        res["modelled"] = sorted(I.calls_seen)
        res["panic_sites"] = len(I.panics_seen)
        prog.used = set()
    except Unsupported as u:
        res["unsupported"].append(str(u))
    except RecursionError:
        res["unsupported"].append("recursion limit of the analyser")
    except (AssertionError, KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        res["unsupported"].append("analyser error %r at %s" % (e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.property
    p = props.PROPS[pid]
    t0 = time.time()
    tmp = build.scratch()
    results, findings = [], []
    try:
        exe = build.driver()
        configs = [("debug", dict())]
        if p.release or tier == "thorough":
            configs.append(("release", dict(release=True)))
        if tier == "thorough":
            for w in p.extra_ids:
                configs.append(("id-" + w, dict(cfgs=("vp_" + w,))))
        jobs = []
        dumps = {}
        if p.jobs or p.static:
            for name, kw in configs:
                dumps[name] = build.dump(exe, tmp, name, **kw)
        deadline = time.time() + (700 if tier == "quick" else 3000)
        for name in dumps:
            for entry, cls, kw, *own in p.jobs:
                jobs.append((name, entry, cls, kw, own[0] if own else p.rules, dumps[name], deadline))
        if jobs:
            with multiprocessing.Pool(min(8, len(jobs))) as pool:
                results = pool.map(analyse, jobs, chunksize=1)
        for fn in p.static:
            ctx = {"dumps": dumps, "tmp": tmp, "exe": exe, "tier": tier, "repo": build.REPO}
            results.append(fn(ctx))
    except BuildError as e:
        print("ERROR: %s" % e)
        return 3
    finally:
        build.rm_scratch(tmp)

    known = load_known(pid)
    viol, suppressed, unsup = [], [], []
    for r in results:
        for v in r["violations"]:
            v["config"] = r.get("config", "")
            k = key_of(v)
            (suppressed if k in known else viol).append(v)
        if p.rules and "diverges" in p.rules:
            r["unsupported"] = r["unsupported"] + r.get("unranked", [])
        for u in r["unsupported"]:
            unsup.append("%s/%s: %s" % (r.get("config", ""), r["entry"], u))
    obl = {}
    for r in results:
        for k, n in r["obligations"].items():
            key = r["entry"] + (":" + r["part"] if r.get("part") else "") + ": " + k
            obl[key] = obl.get(key, 0) + n
    # an anchor that vanished must not make the check pass vacuously
    for r in results:
        if r["violations"] or r["unsupported"]:
            continue
        for k in r.get("floors", ()):
            if not r["obligations"].get(k):
                unsup.append("%s/%s: no obligation of kind '%s' was reached" % (r.get("config", ""), r["entry"], k))
        if not r.get("floors") and not sum(r["obligations"].values()):
            unsup.append("%s/%s: nothing was decided" % (r.get("config", ""), r["entry"]))

    wall = round(time.time() - t0, 2)
    st = lambda k: sum(r["stats"].get(k, 0) for r in results)
    funcs = sorted({f for r in results for f in r["functions"]})
    total = sum(obl.values())
    cov = {
        "obligations": total + len(viol) + len(suppressed),
        "discharged": total,
        "checker_cmd": "python3 engine/check.py --property %s --tier %s" % (pid, tier),
        "trusted_base": props.TRUSTED,
        "rule": p.rule_text,
        "explanation": p.rule_text,
        "configurations": [c[0] for c in configs],
        "analysis_jobs": len(results),
        "entry_points": sorted({r["entry"] for r in results}),
        "treena_functions_analysed": funcs,
        "treena_function_count": len(funcs),
        "abstract_states": st("states"), "case_distinctions": st("forks"),
        "loop_head_states": st("loop_heads"), "states_subsumed_at_loop_heads": st("joins"),
        "mir_steps": st("steps"), "path_ends": st("ends"),
        "largest_abstract_forest": max([r["stats"].get("max_nodes", 0) for r in results] or [0]),
        "obligations_by_kind": obl,
        "modelled_std_functions": sorted({m for r in results for m in r.get("modelled", ())}),
        "static_facts": [f for r in results for f in r.get("facts", ())],
        "undecided": unsup[:20],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": p.level,
          "coverage": cov, "assumptions": p.assumptions, "wall_s": wall, "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for v in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["message"]))
    if a.v:
        for r in results:
            print("  %-8s %-28s %-22s %6.1fs %s viol=%d unsup=%d other=%s obl=%s" % (
                r.get("config", ""), r["entry"], r.get("part", ""), r.get("wall_s", 0), r["stats"].get("states", 0),
                len(r["violations"]), len(r["unsupported"]), r.get("other_rules"), r["obligations"]))
    if viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", pid + ".txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write(render(v) + "\n")
        for v in viol[:3]:
            print(render(v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if unsup:
        for u in unsup[:12]:
            print("UNDECIDED %s: %s" % (pid, u))
        return 2
    print("%s holds: %d obligations, %d abstract states, %d treena functions, %.1f s" % (pid, total, st("states"), len(funcs), wall))
    return 0


def key_of(v):
    return "%s|%s|%s" % (v["entry"], v["rule"], v["message"])


def load_known(pid):
    out = set()
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                out.add(line.split(" key=", 1)[1].strip())
    return out


def render(v):
    r = ["[%s] %s: %s  (entry %s%s)" % (v["rule"], "rule violated", v["message"], v["entry"],
                                        ", " + v["config"] if v.get("config") else "")]
    if v.get("panic"):
        r.append("   panic: %s" % v["panic"])
        for w in (v.get("panic_at") or [])[:4]:
            r.append("     raised in %s" % w)
    for w in (v.get("where") or [])[:4]:
        r.append("   in %s" % w)
    if v.get("path"):
        r.append("   on the abstract path: " + " / ".join(v["path"]))
    for f, s in (v.get("shape") or {}).items():
        r.append("   forest %s:" % f)
        r += ["      " + x for x in s]
    return "\n".join(r)


if __name__ == "__main__":
    sys.exit(main())
