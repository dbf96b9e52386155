#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree.
Exit 0: held; 1: VIOLATION; 2: the check could not run."""
import hashlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

ASSUME = ["TLC and the JVM evaluate the specification correctly",
          "the harness reports what the library returned (its dump is checked against the specification on every accepted case)",
          "inputs outside the enumerated and sampled families behave like those inside"]


def known(prop):
    """{key: text} of the known findings of a property"""
    out = {}
    p = os.path.join(vlib.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                key, text = l.split(" ", 3)[2:]
                out[key.replace("key=", "")] = text.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import parsechecks
    if prop in parsechecks.P:
        vlib.build()
        r = parsechecks.Runner(prop, tier, seed)
    else:
        import compilechecks
        r = compilechecks.runner(prop, tier, seed)
    r.run()
    kn = known(prop)
    fresh, seen = [], set()
    for v in r.violations:
        k = v.get("key") or hashlib.sha1(v.get("src", json.dumps(v, sort_keys=True, default=str)).encode("utf-8", "surrogatepass")).hexdigest()[:12]
        if k in kn:
            seen.add(k)
        else:
            fresh.append((k, v))
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": r.states, "transitions": r.transitions, "traces_validated_against_impl": r.traces,
                       "samples": r.samples[:12], "runs": r.detail, "outcomes": r.kinds, "corrupted_recordings_rejected": r.selftest},
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(vlib.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(vlib.VERIF, "replays", prop)
        os.makedirs(d, exist_ok=True)
        for k, v in fresh[:20]:
            p = os.path.join(d, k + ".json")
            with open(p, "w") as f:
                json.dump(dict(v, property=prop), f, indent=1, default=str)
            if k == fresh[0][0]:
                print("VIOLATION property=%s replay=%s" % (prop, p))
        for k, v in fresh[:5]:
            print("  %s: %s\n    input: %r" % (v.get("aspect", ""), v["what"][:600], (v.get("src") or v.get("input") or "")[:400]))
        print("  %d violating cases" % len(fresh))
        return 1
    print("%s: held on %d cases (%d states, %.0f s)" % (prop, r.traces, r.states, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vlib.ToolError as e:
        sys.stderr.write("check could not run: %s\n" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
