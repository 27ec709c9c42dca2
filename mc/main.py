"""Entry point: python -m mc.main <property> [--tier T] [--replay FILE]."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


def load_known(prop):
    known, path = {}, os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # known: property=P07 id=K1 <what fails>
            if line.startswith("known: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    known[parts[2][len("id="):]] = parts[3]
    return known


def import_dcor(mode):
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    if mode == "pure":
        _stub_numba()
    import dcor
    where = os.path.dirname(os.path.abspath(dcor.__file__))
    if where != os.path.join(REPO, "dcor"):
        print(f"error: dcor imported from {where}", file=sys.stderr)
        sys.exit(2)
    return dcor


def _stub_numba():
    """Run the kernels uncompiled (for checks that do not need them)."""
    import numba
    import numpy as np

    def fake_jit(*args, **kwargs):
        if len(args) == 1 and callable(args[0]) and hasattr(args[0], "__code__"):
            return args[0]
        return lambda f: f

    def fake_guvectorize(*args, **kwargs):
        def deco(f):
            def g(x, y, flag, res=None):
                out = np.zeros(np.shape(x)[0])
                for i in range(len(out)):
                    f(np.asarray(x[i], float), np.asarray(y[i], float), flag,
                      out[i:i + 1])
                if res is not None:
                    res[...] = out
                    return res
                return out
            return g
        return deco

    for name in ("njit", "jit"):
        setattr(numba, name, fake_jit)
    numba.guvectorize = fake_guvectorize


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.property
    t0 = time.time()

    spec_mode = importlib.import_module("mc.modes").MODES.get(prop, "jit")
    os.environ.setdefault("MC_TIER", tier)
    from mc import core

    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def write_evidence(cov, violations, wall):
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": "model_checking", "coverage": cov,
            "assumptions": ASSUME, "wall_s": round(wall, 2),
            "violations": violations,
        }
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

    ASSUME = [
        "the real code in /repo's working tree is executed at every explored "
        "state; values outside the enumerated alphabets are not covered",
        "numpy, scipy, numba, joblib and CPython are trusted",
    ]

    try:
        dcor = import_dcor(spec_mode)
    except SystemExit:
        raise
    except BaseException as e:
        path = os.path.join(replays, f"{prop}-import.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": "import",
                       "message": "the package cannot be imported",
                       "trace": traceback.format_exc()}, f, indent=1)
        print(traceback.format_exc()[-1500:])
        write_evidence({"states": 0, "transitions": 0,
                        "traces_validated_against_impl": 0, "samples": []},
                       1, time.time() - t0)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    t_import = time.time() - t0

    mod = importlib.import_module(f"mc.props.{prop.lower()}")
    harnesses = mod.harnesses(tier)
    if args.only:
        harnesses = [h for h in harnesses if h.name in args.only.split(",")]

    if args.replay:
        rec = json.load(open(args.replay))
        h = {h.name: h for h in mod.harnesses(rec.get("tier", tier))}[rec["harness"]]
        status, msg, names, details = core.replay(h, rec["prefix"])
        print(json.dumps({"status": status, "message": msg, "choices": names,
                          "details": details}, indent=1))
        return 1 if status != "ok" else 0

    known = load_known(prop)
    limit = 600 if tier == "quick" else 4 * 3600
    limit = float(os.environ.get("MC_LIMIT", limit))
    merged, violations, errors = core.run_all(prop, harnesses, tier, limit, known)

    per = {}
    outcomes = 0
    samples = []
    for h in harnesses:
        m = merged.get(h.name)
        if not m:
            continue
        per[h.name] = {
            "what": h.note, "deviation_bound": h.bound,
            "choice_tree_states": m["states"], "calls_of_real_code": m["calls"],
            "executions": m["executions"], "oracle_comparisons": m["checks"],
            "distinct_outcomes": len(m["outcomes"]),
            "completed": not m["capped"], "wall_s": round(m["wall"], 1),
        }
        outcomes += len(m["outcomes"])
        samples += m["samples"][:3]
    cov = {
        "states": sum(p["choice_tree_states"] for p in per.values()),
        "transitions": sum(p["calls_of_real_code"] for p in per.values()),
        "traces_validated_against_impl": sum(p["executions"] for p in per.values()),
        "oracle_comparisons": sum(p["oracle_comparisons"] for p in per.values()),
        "distinct_outcomes": outcomes,
        "exhaustive": bool(per) and all(p["completed"] for p in per.values()) and not violations,
        "harnesses": per,
        "samples": samples[:12],
        "state_meaning": "nodes of the tree of choices (partial histories) visited",
        "transition_meaning": "calls of the real code made while exploring",
        "trace_meaning": "complete executions of the real code compared with the oracle",
        "import_s": round(t_import, 1), "numba": spec_mode,
    }

    for h, p in per.items():
        print(f"  {h}: states={p['choice_tree_states']} calls={p['calls_of_real_code']} "
              f"executions={p['executions']} outcomes={p['distinct_outcomes']} "
              f"bound={p['deviation_bound']} completed={p['completed']} "
              f"{p['wall_s']}s")
    seen_known = {}
    for m in merged.values():
        seen_known.update(m["known"])
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {k} {known[k]}")

    if violations:
        by = {h.name: h for h in harnesses}
        order = {h.name: i for i, h in enumerate(harnesses)}
        violations.sort(key=lambda v: (order[v["harness"]], v["prefix"]))
        v = violations[0]
        iso = None
        if not v.get("hang"):
            iso = core.replay(by[v["harness"]], v["prefix"])
            v["reproduced_in_fresh_process"] = iso[0] != "ok"
            if not v["choices"]:
                v["choices"] = iso[2]
            v["fresh_process_result"] = [iso[0], iso[1]]
        v.update(property=prop, tier=tier, seed=seed,
                 replay_cmd=f"bash run.sh {prop} --replay <this file>")
        digest = hashlib.sha1(json.dumps(
            [v["harness"], v["prefix"]]).encode()).hexdigest()[:10]
        path = os.path.join(replays, f"{prop}-{digest}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        write_evidence(cov, len(violations), time.time() - t0)
        print(f"  harness {v['harness']}: {v['message']}")
        for n, val in v["choices"][:30]:
            print(f"    {n} = {val}")
        if iso is not None and iso[0] == "ok":
            print("    (depends on the previous history of the process)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    write_evidence(cov, 0, time.time() - t0)
    print(f"OK property={prop} states={cov['states']} transitions={cov['transitions']} "
          f"executions={cov['traces_validated_against_impl']} "
          f"exhaustive={cov['exhaustive']} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
