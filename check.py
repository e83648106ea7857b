#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Rebuilds what the property's engine needs from /repo's working tree, explores the property's
spaces completely, confirms what it finds by running it again, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION line; anything else: the check itself failed.
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engines import common
from engines.common import CheckError

ENGINES = {**{f"C{i:02d}": "mc" for i in list(range(1, 12)) + list(range(13, 21)) + [25, 26]},
           "C12": "derive", "C21": "sched", "C22": "features", "C23": "platforms", "C24": "reject"}
FAULTS = {"C07", "C08"}


def known_findings(prop):
    """lines 'known: property=<id> key=<key> <what fails>'; 'fixed:' lines suppress nothing and are not read"""
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("known: property=%s " % prop):
            key, what = line.split(" key=", 1)[1].strip().split(" ", 1)
            out.append((key, what))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if prop not in ENGINES or tier not in ("quick", "thorough"):
        raise CheckError("unknown property or tier")
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    evidence = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(evidence):
        os.remove(evidence)
    engine = importlib.import_module("engines." + ENGINES[prop])
    r = engine.run(prop, tier)   # spaces, violations, and how a known finding is tried again
    spaces = r["spaces"]
    tot = lambda k: sum(int(s.get(k, 0)) for s in spaces)
    samples = []
    for s in spaces:
        samples += ["%s: %s" % (s["name"], x) for x in s.get("samples", [])[:2]]
    exhaustive = not any(s.get("capped") for s in spaces) and not r["violations"]
    rule = "; ".join("%s = %s" % (s["name"], s["what"]) for s in {s["name"]: s for s in spaces}.values())
    if prop in FAULTS:
        cov = {"evaluations": tot("executions"), "distinct_nontrivial": tot("states"),
               "rule": "every execution is one history of environment answers; two are distinct when their choices or observations differ. " + rule}
    else:
        cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("validated"), "executions": tot("executions")}
    cov["samples"] = samples[:24]
    cov["exhaustive"] = exhaustive
    cov["repeated_identically"] = tot("repeated")
    cov["spaces"] = spaces
    for k in ("bounds", "builds"):
        if k in r:
            cov[k] = r[k]
    known = []
    for key, what in known_findings(prop):
        fails, text = engine.known(key)
        known.append({"key": key, "what": what, "still_fails": fails, "observed": text})
        if fails:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, what))
        else:
            print("note: the known finding %s of %s no longer fails (%s)" % (key, prop, text))
    cov["known_findings"] = known
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
          "level": "fault_enumeration" if prop in FAULTS else "model_checking", "coverage": cov,
          "assumptions": r.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(r["violations"])}
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not r["violations"] and (tot("executions") == 0 or tot("states") == 0):
        raise CheckError("nothing was explored")
    for s in spaces:
        if s.get("executions", 0) == 0 and not s.get("capped") and not r["violations"]:
            raise CheckError("space %s explored nothing" % s["name"])
    print("%s %s: %d executions, %d states, %d transitions, %d compared with the implementation, %.1f s%s" % (
        prop, tier, tot("executions"), tot("states"), tot("transitions"), tot("validated"), time.time() - t0, "" if exhaustive else ", not exhaustive"))
    if r["violations"]:
        v = r["violations"][0]
        path = os.path.join(HERE, "evidence", "replays", prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": r["violations"][:10]}, f, indent=1)
            f.write("\n")
        print("%s violated in %s: %s" % (prop, v.get("space"), v.get("msg", "")[:1500]))
        if v.get("label"):
            print("  case: %s" % v["label"][:600])
        if v.get("command"):
            print("  replay: %s" % v["command"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("check error: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
