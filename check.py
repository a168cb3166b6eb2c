#!/usr/bin/env python3
"""Decide one property: check.py C01 [--tier quick|thorough] | check.py --replay FILE | check.py --setup"""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
from vlib.core import ToolError, log

EVIDENCE = os.path.join(core.VERIF, "evidence")
REPLAYS = os.path.join(core.VERIF, "replays")


def known_findings(prop):
    """The listed findings of the property: name -> text."""
    res = {}
    with open(os.path.join(core.VERIF, "known_findings.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("finding:"):
                _, p, name, text = line.rstrip("\n").split(" ", 3)
                if p == "property=" + prop:
                    res[name] = text
    return res


def suites_of(prop):
    from vlib.props import PROPS
    if prop not in PROPS:
        raise ToolError(f"no check for property {prop}")
    return PROPS[prop]


def check(prop, tier, seed):
    t0 = time.time()
    core.build()
    known = known_findings(prop)
    shown = set()
    violations = []
    states = transitions = validated = 0
    samples, runs, info = [], [], {}
    for s in suites_of(prop):
        for r in s.models(prop, tier):
            states += r["distinct"]
            transitions += r["generated"]
            runs.append({"model": r["module"], "distinct_states": r["distinct"], "states": r["generated"]})
        cases, i = s.generate(tier, seed)
        info[s.name] = dict(i, cases=len(cases))
        t1 = time.time()
        records = s.execute(cases)
        log(f"{s.name}: {len(cases)} cases executed in {time.time() - t1:.1f}s")
        bad, results = s.validate(records, prop)
        for r in results:
            states += r["distinct"]
            transitions += r["generated"]
            runs.append({"trace_validation": r["module"], "distinct_states": r["distinct"], "states": r["generated"]})
        validated += len(records)
        for k in sorted({0, len(cases) // 3, len(cases) * 2 // 3, len(cases) - 1}):
            if len(cases) > k >= 0:
                samples.append({"suite": s.name, "case": s.describe(cases[k])})
        new = []
        for n, detail in bad:
            kf = detail.get("known")
            if kf and kf in known:
                shown.add(kf)
            else:
                new.append(n)
        new = sorted(set(new))
        # a rejected record counts if the program behaves like that again
        for n in new[:8]:
            rec = s.execute([cases[n]])
            again, _ = s.validate(rec, prop)
            again = [d for _, d in again if not (d.get("known") and d["known"] in known)]
            if again:
                violations.append((s, cases[n], rec[0], again[0]))
                if len(violations) >= 3:
                    break
            else:
                log(f"{s.name}: case {n} was rejected, but not when executed alone")
        if new and not violations:
            # it only shows in the company of the other cases
            violations.append((s, {"batch": [cases[n] for n in new[:8]]}, records[new[0]], bad[0][1]))
        if violations:
            break
    for name in sorted(shown):
        print(f"KNOWN-FINDING: property={prop} {name} {known[name]}")
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions,
                       "traces_validated_against_impl": validated, "samples": samples,
                       "program_runs": core._stats["cli_runs"], "tlc_runs": runs, "suites": info},
          "assumptions": ["TLC, its Json module and the JSON projection in vlib/obs.py are trusted",
                          "behaviour outside of the explored inputs is not observed"],
          "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for k, (s, case, rec, detail) in enumerate(violations):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{k}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "suite": s.name, "case": case, "observed": rec,
                       "expected": detail}, f, indent=1, ensure_ascii=False)
            f.write("\n")
        print(f"VIOLATION property={prop} replay={path}")
        log(f"{s.name}: {s.describe(case)[:600]}")
    log(f"{prop}: {'VIOLATED' if violations else 'holds'} ({validated} traces, {states} states, "
        f"{time.time() - t0:.0f}s)")
    return 1 if violations else 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    core.build()
    s = [x for x in suites_of(d["property"]) if x.name == d["suite"]][0]
    cases = d["case"]["batch"] if "batch" in d["case"] else [d["case"]]
    rec = s.execute(cases)
    bad, _ = s.validate(rec, d["property"])
    if bad:
        print(json.dumps({"expected": bad[0][1], "observed": rec[bad[0][0]]}, indent=1, ensure_ascii=False))
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the case is accepted")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            core.build()
            return 0
        if a.replay:
            return replay(a.replay)
        return check(a.property, a.tier, a.seed)
    except ToolError as e:
        log(f"ERROR: {e}")
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == "__main__":
    sys.exit(main())
