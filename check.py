#!/opt/venv/bin/python
"""Decides one property:  check.py <property id> [quick|thorough]   |   check.py --replay <file>

exit 0  the property held on everything explored (inconclusive parts are listed, never counted as success)
exit 1  VIOLATION, replayed on the unpatched code of /repo
exit 2  the check could not decide anything (broken encoding, nothing reached); with VERIF_STRICT=1 also any gap
        (unreproducible counterexample, a case that reached nothing, a case that ran out of memory)
"""
import importlib
from fractions import Fraction
import json
import os
import sys
import time

if not sys.flags.utf8_mode:  # text files and messages must not depend on the caller's locale
    os.environ["PYTHONUTF8"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

from symx import runner  # noqa: E402

EVID = os.path.join(HERE, "evidence")


def load_known():
    """known_findings.txt: 'finding: property=<id> case=<case> label=<label> :: text' suppresses exactly that"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("finding:"):
                head, _, text = line[len("finding:"):].partition("::")
                out.append((dict(x.split("=", 1) for x in head.split()), text.strip()))
    return out


def main():
    if sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"props.{pid}")
    cases = mod.cases(tier)
    total = getattr(mod, "TOTAL", {"quick": 240, "thorough": 3000})[tier]
    results, wall = runner.run_cases(cases, tier, seed, total)
    known = [k for k in load_known() if k[0].get("property") == pid]
    agg = {}
    viol, arte, inc, cut, fatal, errs, notes = [], [], [], [], [], [], []
    probed = unprobed = 0
    paths = decisions = wok = wmis = wskip = left = 0
    funcs, samples, reached_missing, incomplete = set(), [], [], []
    per_case = []
    by_name = {c.name: c for c in cases}
    for r in results:
        if "fatal" in r:
            fatal.append(f"{r['case']}: {r['fatal']}")
            continue
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
        c = by_name[r["case"]]
        viol += r["violations"]
        (notes if getattr(c, "soft", False) else arte).extend(r["artefacts"])
        inc += [f"{r['case']}: {x}" for x in r["inconclusive"]]
        cut += [f"{r['case']}: {x}" for x in r["cut"]]
        errs += r["errors"]
        paths += r["paths"]
        decisions += r["decisions"]
        wok += r["witness_ok"]
        wmis += r["witness_mismatch"]
        wskip += r["witness_skip"]
        left += r["left"]
        probed += r["probed"]
        funcs |= set(r["functions"])
        samples += r["samples"][:1]
        if not r["complete"] and not r["violations"]:
            incomplete.append(f"{r['case']} ({r['left']} branches not explored)")
        miss = [x for x in c.must_reach if x not in r["reached"]]
        if miss and not r["violations"]:
            reached_missing.append(f"{r['case']}: {miss}")
            unprobed += not r["probed"]
        per_case.append(dict(case=r["case"], bounds=r["bounds"], paths=r["paths"], complete=r["complete"],
                             obligations=r["stats"]["obligations"], discharged=r["stats"]["discharged"],
                             queries=r["stats"]["queries"], solver_s=round(r["stats"]["solver_s"], 2),
                             wall_s=round(r["wall"], 1), witness_ok=r["witness_ok"],
                             witness_mismatch=r["witness_mismatch"], mismatch_notes=r["mismatch_notes"][:2],
                             labels=r["labels"]))
    real_viol, known_hit = [], []
    for v in viol:
        k = next((k for k in known if k[0].get("case") in (v["case"], "*") and k[0].get("label") == v["label"]), None)
        (known_hit if k else real_viol).append((v, k))
    discharged = agg.get("discharged", 0)
    decided = discharged > 0 and paths > 0
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=paths, transitions=decisions, traces_validated_against_impl=wok, samples=samples[:6],
            explanation="bounded symbolic execution of the current /repo source: one 'state' is one completed "
                        "symbolic path (a set of inputs), one 'transition' one decided branch; every assertion on "
                        "every path is an SMT query over all values of the symbolic inputs",
            functions_encoded=sorted(funcs), cases=per_case,
            solver=agg, obligations=agg.get("obligations", 0), discharged=discharged,
            witness_traces_agreeing=wok, witness_traces_disagreeing=wmis, witness_traces_skipped=wskip,
            inconclusive=sorted(set(inc))[:40], inconclusive_count=len(inc), cut_paths=sorted(set(cut))[:40],
            cut_count=len(cut), concrete_probes_beyond_the_encoding=probed, incomplete_cases=incomplete, unreproduced_candidates=arte[:10],
            overapproximation_candidates=len(notes), fatal=fatal, vacuous=reached_missing,
            exhaustive=bool(not incomplete and not inc and not cut and not fatal and not arte)),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + GLOBAL_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(real_viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{tier}] paths={paths} obligations={agg.get('obligations', 0)} discharged={discharged} "
          f"queries={agg.get('queries', 0)} unknown={agg.get('unknown', 0)} solver={agg.get('solver_s', 0):.1f}s "
          f"wall={wall:.1f}s witnesses={wok} ok / {wmis} differ")
    for x in sorted(set(inc))[:8]:
        print("INCONCLUSIVE", x)
    for x in sorted(set(cut))[:8]:
        print("CUT", x)
    for x in incomplete[:12]:
        print("INCOMPLETE", x)
    for v, k in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k[1]}")
    if real_viol:
        v = real_viol[0][0]
        rp = os.path.join(EVID, "replay", f"{pid}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w", encoding="utf-8") as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1, default=str)
        print(f"violated: case={v['case']} assertion={v['label']} {v['detail']}")
        print(f"  inputs: {json.dumps(v['values'], default=lambda x: str(float(x)) if isinstance(x, Fraction) else str(x))} choices: {v['choices']}")
        print(f"  real code: {v['failures']}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    # What is printed below weakens the answer (and the evidence says so), but it is not a violation: a candidate the
    # real code does not confirm is a gap of the encoding, a case that reached nothing decides nothing.  The check
    # gives no answer (exit 2) only when it could not run or when most of its cases decided nothing.
    strict = bool(os.environ.get("VERIF_STRICT"))
    bad = False
    for x in fatal + errs:
        print("ERROR", x)
    for x in reached_missing:
        print("VACUOUS", x)
    for a in arte[:4]:
        print("UNREPRODUCED", json.dumps(a, default=str)[:600])
    if strict and (fatal or errs or reached_missing or arte):
        bad = True
    if len(fatal) + unprobed > len(cases) / 2:
        print("ERROR most cases decided nothing")
        bad = True
    if probed:
        print(f"NOTE {probed} runs of the real code on models of paths the encoding could not follow: decided by execution only")
    if not decided:
        print("ERROR nothing decided")
        bad = True
    return 2 if bad else 0


GLOBAL_ASSUMPTIONS = [
    "numbers are mathematical reals (Python floats are taken as the exact rational they denote); rounding is covered "
    "only where a case says so",
    "numpy/math/yaml/IO are replaced by the stand-ins in symx/shims.py; plotting back ends by recorders",
    "the polynomial normal form (symx/poly.py, sympy gcd/factorisation), z3 and cvc5 are trusted",
    "module state starts fresh on every symbolic path",
]


def do_replay(path):
    d = json.load(open(path, encoding="utf-8"))
    mod = importlib.import_module(f"props.{d['property']}")
    case = next(c for c in mod.cases(d.get("tier", "quick")) if c.name == d["case"])
    st, fails, _ = runner.run_concrete(case, d["values"], d["choices"], fresh=True)
    print(st, fails)
    return 1 if st in ("fail", "crash") else 0


if __name__ == "__main__":
    sys.exit(main())
