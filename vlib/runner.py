"""
Runs one check: explores its harnesses, confirms and classifies
violations, writes evidence and replay files.
"""

import argparse
import fnmatch
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import explore

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = explore.REPO

BUDGET = {"quick": 420.0, "thorough": 820.0}


def load_known():
    """entries of known_findings.jsonl that suppress something"""
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as fd:
            for line in fd:
                line = line.strip()
                if not line or line.startswith("fixed:") or \
                   line.startswith("#"):
                    continue
                known.append(json.loads(line))
    return known


def is_known(known, prop, vio):
    for k in known:
        if k["property"] != prop or k["key"] != vio["key"]:
            continue
        if k.get("harness") and k["harness"] != vio["harness"]:
            continue
        # every listed label has to be part of the failing history
        want = k.get("labels", [])
        have = vio["labels"]
        if all(any(fnmatch.fnmatchcase(h, w) for h in have) for w in want):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--harness", help="only this harness")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args(argv)

    prop = args.property
    t0 = time.time()
    tmproot = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower())
    try:
        return _main(args, prop, t0, tmproot)
    except Exception:
        # never mistaken for a verdict
        traceback.print_exc()
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(tmproot, ignore_errors=True)


def _main(args, prop, t0, tmproot):
    sys.path.insert(0, REPO)
    os.environ["VERIF_TMPROOT"] = tmproot
    mod = importlib.import_module("checks." + prop.lower())
    if hasattr(mod, "setup"):
        mod.setup(tmproot)
    harnesses = mod.harnesses(args.tier)
    byname = {h.name: h for h in harnesses}
    if args.list:
        for h in harnesses:
            print(h.name)
        return 0

    if args.replay:
        with open(args.replay) as fd:
            rep = json.load(fd)
        h = byname[rep["harness"]]
        vio = explore.rerun(h, rep["executions"], tmproot)
        if vio is None:
            print("replay: the property held")
            return 0
        print("replay: %s: %s" % (vio["key"], vio["message"]))
        for lab in vio.get("labels") or ():
            print("   ", lab)
        if vio.get("detail"):
            print(vio["detail"])
        return 1

    if args.harness:
        harnesses = [h for h in harnesses
                     if h.name.startswith(args.harness)]

    known = load_known()
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[args.tier]))
    ex = explore.Explorer(harnesses, deadline=t0 + budget, tmproot=tmproot)
    results = ex.explore()

    errors = []
    nviol = 0
    seen_known = {}
    confirmed = []
    for name, R in results.items():
        errors.extend(R.errors)
        # fewest deviations first
        R.violations.sort(key=lambda v: (sum(1 for c in v["choices"] if c),
                                         len(v["choices"]), v["choices"]))
        taken = set()
        for v in R.violations:
            k = is_known(known, prop, v)
            if k is not None:
                seen_known.setdefault(json.dumps(k, sort_keys=True), k)
                continue
            if v["key"] in taken:
                continue
            taken.add(v["key"])
            if len(confirmed) >= 8:
                continue
            h = byname[name]
            execs = [v["choices"]]
            again = explore.rerun(h, execs, tmproot)
            if again is None:
                execs = v["history"]
                again = explore.rerun(h, execs, tmproot)
            if again is None or again["key"] == "divergence":
                errors.append("violation did not reproduce: %s %s %s\n%s" %
                              (name, v["key"], v["labels"],
                               again and again["message"]))
                continue
            again["executions"] = execs
            k = is_known(known, prop, dict(again, harness=name)) \
                if again.get("labels") else None
            if k is not None:
                continue
            confirmed.append(again)

    # a listed finding that the exploration no longer meets is just not
    # printed
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    rdir = os.path.join(VERIF, "evidence", "replays")
    for i, v in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as fd:
            json.dump(dict(property=prop, harness=v["harness"],
                           key=v["key"], message=v["message"],
                           labels=v.get("labels"),
                           executions=v["executions"],
                           detail=v.get("detail"),
                           how="./check %s --replay %s" % (prop, path)),
                      fd, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  harness=%s key=%s" % (v["harness"], v["key"]))
        print("  %s" % v["message"])
        for lab in (v.get("labels") or ())[:30]:
            print("    %s" % lab)
        nviol += 1

    # evidence
    states = set()
    trans = execs = 0
    samples = []
    per = {}
    for name, R in results.items():
        states |= {name.encode() + s for s in R.states}
        trans += R.transitions
        execs += R.executions
        samples.extend(R.samples[:2])
        h = byname[name]
        per[name] = dict(executions=R.executions, skipped=R.skipped,
                         transitions=R.transitions, states=len(R.states),
                         max_choice_points=R.maxdepth,
                         deviation_bound=h.bound,
                         distinct_outcomes=len(R.outcomes),
                         outcomes=dict((str(k)[:120], n) for k, n in
                                       R.outcomes.most_common(12)))
        if h.describe:
            per[name]["space"] = h.describe
    wall = time.time() - t0
    cov = dict(states=len(states), transitions=trans,
               traces_validated_against_impl=execs,
               samples=samples[:12],
               exhaustive=not ex.capped and not errors,
               capped=ex.capped,
               harnesses=per,
               explanation="executions of the real code under enumeration "
               "of every choice sequence of each harness (within the stated "
               "deviation bound; None = no bound); states = distinct "
               "model/implementation states reached, transitions = "
               "oracle-checked comparisons, traces = complete executions "
               "compared with the reference model")
    ev = dict(property=prop, tier=args.tier,
              seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, sort_keys=True)

    print("%s: %d executions, %d states, %d transitions, %.1f s%s" %
          (prop, execs, len(states), trans, wall,
           " (CAPPED)" if ex.capped else ""))
    if args.verbose:
        for name, p in per.items():
            print("  %-30s exec=%d skip=%d trans=%d states=%d outcomes=%d "
                  "depth=%d" % (name, p["executions"], p["skipped"],
                                p["transitions"], p["states"],
                                p["distinct_outcomes"],
                                p["max_choice_points"]))
            for o, n in list(p["outcomes"].items())[:6]:
                print("        %6d %s" % (n, o))
    if nviol:
        return 1
    if errors:
        for e in errors[:5]:
            sys.stderr.write("ERROR: %s\n" % e)
        return 2
    if execs == 0:
        sys.stderr.write("ERROR: nothing explored\n")
        return 2
    return 0
