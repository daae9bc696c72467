"""Entry point of every check:  python -m mc.main C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


def preload():
    """Third-party modules come from their normal bytecode; rsbeams itself is always compiled from source."""
    import numpy, scipy, scipy.constants, scipy.optimize, scipy.stats, scipy.interpolate, scipy.integrate  # noqa


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true", help="go on after a harness with a violation (development)")
    ap.add_argument("--only", help="run one harness only (development)")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    root = tempfile.mkdtemp(prefix="mc-%s-" % a.property)
    os.environ["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"])
    here = os.getcwd()
    try:
        return _main(a, seed, t0, root)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def _main(a, seed, t0, root):
    import resource
    from mc import core
    preload()
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    sys.pycache_prefix = os.path.join(root, "pyc")      # never trust cached bytecode of /repo
    sys.path.insert(0, core.REPO)
    import rsbeams
    if os.path.realpath(rsbeams.__file__) != os.path.realpath(os.path.join(core.REPO, "rsbeams", "__init__.py")):
        print("rsbeams is not imported from %s but from %s" % (core.REPO, rsbeams.__file__))
        return 2
    pid = a.property
    out_dir = os.path.join(core.VERIF, "out")
    os.makedirs(out_dir, exist_ok=True)
    known = [k for k in json.load(open(os.path.join(core.VERIF, "known_findings.json")))["findings"]
             if k["property"] == pid]
    mod = importlib.import_module("checks." + pid.lower())
    harnesses = mod.harnesses(a.tier)
    if a.replay:
        rec = json.load(open(a.replay))
        h = [h for h in mod.harnesses(rec.get("tier", "quick")) if h.name == rec["harness"]][0]
        ch, err = core.run_once(h, [tuple(c) for c in rec["choices"]], root)
        for l, v in ch.describe():
            print("  %-28s %s" % (l, v))
        print("observed: %s" % (ch.obs,))
        print("REPRODUCED: " + err if err else "no violation")
        return 1 if err else 0
    total = core.Stats()
    per = {}
    known_hit, new = {}, []
    for h in harnesses:
        if a.only and h.name != a.only:
            continue
        t1 = time.time()
        st = core.run_harness(h, root)
        per[h.name] = {"states": st.states, "transitions": st.transitions, "traces": st.traces,
                       "distinct_outcomes": len(st.outcomes), "deviation_bound": h.bound,
                       "exhaustive_within_bound": not st.capped and not st.violations,
                       "choice_points": st.labels, "wall_s": round(time.time() - t1, 2)}
        total.add(st)
        if st.violations:
            # least deviations first, then shortest; must reproduce when replayed from its recorded choices
            st.violations.sort(key=lambda v: (v["cost"], len(v["choices"]), json.dumps(v["choices"])))
            for v in st.violations:
                reproduced = 0
                for _ in range(1 if v["message"].startswith(core.HANG) else 2):
                    _c, err = core.run_once(h, v["choices"], root)
                    if err:
                        reproduced += 1
                        v["message"] = err
                v["reproduced"] = reproduced
                if not reproduced:
                    v["message"] += " (only after earlier executions in the same process: state leaks between them)"
                for k in known:
                    if k["harness"] == v["harness"] and all(t in v["message"] for t in k["match"]):
                        known_hit.setdefault(k["id"], k)
                        break
                else:
                    new.append(v)
            if new and not a.all:
                break       # one is enough: the others may take long or hang
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": total.states, "transitions": total.transitions,
           "traces_validated_against_impl": total.traces,
           "distinct_outcomes": len(total.outcomes),
           "rule": "states and transitions: nodes and edges of the tree of answers to the harness' choice points; every "
                   "sequence of answers within the deviation bound is one trace, executed on the real code and "
                   "compared with the reference model at every step; distinct_outcomes: different observed results",
           "exhaustive": not total.capped and not total.violations,
           "samples": total.samples[:8], "harnesses": per}
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    ev_dir = os.path.join(core.VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for name, p in per.items():
        print("%s %-26s states=%d transitions=%d traces=%d outcomes=%d bound=%s %.1fs" % (
            pid, name, p["states"], p["transitions"], p["traces"], p["distinct_outcomes"], p["deviation_bound"],
            p["wall_s"]))
    for k in known:
        if k["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    seen = set()
    for v in new:
        if v["harness"] in seen:
            continue
        seen.add(v["harness"])
        key = hashlib.sha1(json.dumps([v["harness"], v["choices"]]).encode()).hexdigest()[:10]
        path = os.path.join(out_dir, "%s-%s-%s.json" % (pid, v["harness"], key))
        rec = dict(v, property=pid, tier=a.tier,
                   how_to_replay="cd /verif && ./check %s --replay %s" % (pid, path))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        print("--- %s/%s: %s" % (pid, v["harness"], v["message"]))
        for l, val in v["trace"]:
            print("      %-26s %s" % (l, val))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s tier=%s %s wall=%.1fs" % (pid, a.tier, "VIOLATED" if new else "held", time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
