#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property on /repo's current working tree.

1. sym    : every contract of the property is verified on the current sources (pvc, z3; cvc5 as second opinion)
2. audit  : the same contracts are evaluated at run time on the un-instrumented code (seeded)
3. replay : every refuted obligation is replayed on the un-instrumented code
exit 0: holds on everything decided; exit 1 + VIOLATION line: refuted.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("PVC_PYTHON", "/opt/venv/bin/python")
REPO = os.environ.get("PVC_REPO", "/repo")


def worker(mode, prop, opt, timeout):
    fd, out = tempfile.mkstemp(prefix="pvc.", suffix=".json")
    with os.fdopen(fd, "w") as f:          # the options; overwritten by the result
        json.dump(dict(opt, out=out), f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PVC_REPO=REPO)
    env.pop("PYTHONPATH", None)
    p = subprocess.Popen([PY, "-m", "pvc.worker", mode, prop, out], cwd=VERIF, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    return p, out, time.time() + timeout


def collect(w):
    p, out, deadline = w
    err = b""
    try:
        _, err = p.communicate(timeout=max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
    try:
        with open(out) as f:
            doc = json.load(f)
        if "out" in doc:
            raise ValueError("no result")
    except Exception:
        doc = {"fatal": "worker produced no result: " + err.decode(errors="replace")[-2000:]}
    try:
        os.unlink(out)
    except OSError:
        pass
    return doc


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f)["findings"]:
                if k["property"] == prop and k.get("status") == "known":
                    out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", nargs="*")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    thorough = a.tier == "thorough"
    budget = 2400 if thorough else 300
    base = {"tier": a.tier, "seed": a.seed, "only": a.only}
    wa = worker("audit", prop, dict(base, budget=(900 if thorough else 150), scale=(20 if thorough else 1), nproc=4), 1000 if thorough else 240)
    ws = worker("sym", prop, dict(base, budget=budget, cross=thorough, nproc=8), budget + 90)
    sym, audit = collect(ws), collect(wa)

    failures = []     # (unit, obligation, inputs, detail, reproduced, source)
    undecided = []
    units, obligations, discharged = 0, 0, 0
    byback = {}
    solver_s = 0.0
    per_unit = []
    functions = set()
    bounded = []
    proofs = 0
    if "fatal" in sym:
        undecided.append({"unit": "*", "why": sym["fatal"]})
        sym = {"results": []}
    todo = []
    witnessed = 0
    for r in sym["results"]:
        if "error" in r:
            undecided.append({"unit": r["unit"], "why": r["error"][-600:]})
            continue
        units += 1
        n = sum(o["ok"] + o["fail"] + o["undec"] for o in r["obligations"].values())
        ok = sum(o["ok"] for o in r["obligations"].values())
        obligations += n
        discharged += ok
        solver_s += r["solver_s"]
        functions.update(r["funcs"])
        for k, v in r["by"].items():
            byback[k] = byback.get(k, 0) + v
        if r["level"] == "bounded":
            bounded.append({"contract": r["unit"], "bound": r["note"], "obligations": n, "discharged": ok})
        else:
            proofs += ok
        per_unit.append({"contract": r["unit"], "level": r["level"], "paths": r["paths"], "obligations": n, "discharged": ok,
                         "named": sorted(r["obligations"]), "wall_s": round(r["wall_s"], 2), "cvc5_agrees": r["n_cross_unsat"]})
        for nm, why in r["undecided"]:
            undecided.append({"unit": r["unit"], "obligation": nm, "why": why})
        if ok == 0 and not r["failures"] and not r["n_undecided"]:
            undecided.append({"unit": r["unit"], "why": "vacuous: no obligation reached"})
        for f in r["failures"]:
            todo.append((r["unit"], f))
        for f in r.get("witnesses", ()):
            todo.append((r["unit"], dict(f, kind="witness", detail=f["why"])))
    if todo:
        # a few of every obligation of every unit, then the rest
        per = {}
        for n, (u, f) in enumerate(todo):
            k = (u, f["obligation"], f.get("why"))
            per[k] = per.get(k, 0) + 1
            f["rank"] = (f.get("kind") == "witness", per[k])
        todo.sort(key=lambda t: t[1]["rank"])
        todo = todo[:400]
        items = [{"unit": u, "inputs": f["inputs"], "tries": 12} for u, f in todo]
        rep = collect(worker("replay", prop, dict(base, items=items, budget=100), 200))
        res = rep.get("results", [{"result": "error", "detail": rep.get("fatal", "")}] * len(todo))
        for (u, f), r in zip(todo, res):
            if r["result"] == "violated":
                failures.append(dict(unit=u, obligation=r["obligation"], inputs=r["inputs"], detail=r["detail"], reproduced=True, source="undecided path" if f.get("kind") == "witness" else "proof",
                                     refuted=f["obligation"], solver_model=f["inputs"]))
            elif f.get("kind") == "witness":
                witnessed += r["result"] == "holds"
            elif f.get("kind") == "exception":
                undecided.append({"unit": u, "obligation": f["obligation"], "why": "exception on a symbolic path, not reproduced: " + f["detail"][-500:]})
            else:
                failures.append(dict(unit=u, obligation=f["obligation"], inputs=f["inputs"], detail=f["detail"], reproduced=False, source="proof",
                                     verifier_output=f.get("smt")))
    runs = checks = 0
    if "fatal" in audit:
        # the code under test cannot even be loaded / driven: nothing was decided by the audit
        undecided.append({"unit": "*", "why": "audit: " + audit["fatal"]})
        audit = {"results": []}
    for r in audit["results"]:
        if "error" in r:
            undecided.append({"unit": r["unit"], "why": "audit: " + r["error"][-600:]})
            continue
        runs += r["runs"]
        checks += r["checks"]
        for f in r["failures"]:
            failures.append(dict(unit=r["unit"], obligation=f["obligation"], inputs=f["inputs"], detail=f["detail"], reproduced=True, source="audit"))

    # ---- where the proof is undecided (a construct pvc has no model for, a timeout) the bounded check stands in, run deeper
    deeper = 0
    if undecided and not failures:
        names = sorted({u["unit"] for u in undecided})
        only = a.only if "*" in names else names
        more = collect(worker("audit", prop, dict(base, only=only, seed=a.seed + 7919, budget=120, scale=(40 if thorough else 12), nproc=8), 200))
        for r in more.get("results", ()):
            if "error" in r:
                continue
            deeper += r["runs"]
            checks += r["checks"]
            for f in r["failures"]:
                failures.append(dict(unit=r["unit"], obligation=f["obligation"], inputs=f["inputs"], detail=f["detail"], reproduced=True, source="audit"))
        runs += deeper

    # ---- known findings
    known = known_findings(prop)
    viol = []
    seen = set()
    for f in failures:
        k = [x for x in known if x["unit"] == f["unit"] and x["obligation"] == f["obligation"]]
        if k:
            seen.add(k[0]["id"])
            continue
        viol.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # ---- evidence
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "hs", "meta.json")) as f:
        meta = json.load(f)
    m = meta["properties"].get(prop, {})
    level = m.get("level", "proof")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3 run.py %s --tier %s" % (prop, a.tier),
        "trusted_base": meta["trusted_base"] + m.get("trusted", []),
        "contracts": len(per_unit), "unbounded_discharged": proofs, "bounded_stand_ins": bounded,
        "functions_under_contract": sorted(functions), "discharged_by": byback, "solver_s": round(solver_s, 2),
        "undecided": undecided[:30], "n_undecided": len(undecided), "per_contract": per_unit,
        "runtime_audit": {"runs": runs, "contract_checks": checks, "runs_for_undecided_contracts": deeper, "undecided_paths_replayed": witnessed, "note": "seeded executions of the same contracts on the un-instrumented code; not part of the proof"},
        "explanation": m.get("note", ""),
        "samples": [dict(contract=p["contract"], obligations=p["named"][:4]) for p in per_unit[:3]],
    }
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "assumptions": meta["assumptions"] + m.get("assumptions", []),
          "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("property %s: %d contracts, %d obligations, %d discharged, %d undecided; audit %d runs; %.1fs"
          % (prop, len(per_unit), obligations, discharged, len(undecided), runs, time.time() - t0))
    for u in undecided[:10]:
        print("  undecided:", json.dumps(u)[:400])
    if viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        viol.sort(key=lambda v: (not v["reproduced"], v["source"] != "proof"))
        v = viol[0]
        path = os.path.join(rd, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": v["unit"], "obligation": v["obligation"], "inputs": v["inputs"], "detail": v["detail"],
                       "reproduced": v["reproduced"], "source": v["source"], "all": viol[:20],
                       "how": "python3 replay.py " + path}, f, indent=1, default=str)
        for w in viol[:5]:
            print("  refuted: contract %s, obligation %r, reproduced=%s (%s)\n     inputs %s\n     %s"
                  % (w["unit"], w["obligation"], w["reproduced"], w["source"], json.dumps(w["inputs"], default=str)[:500], str(w["detail"])[-600:].replace("\n", "\n     ")))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["reproduced"] else " no-failing-input-found"))
        return 1
    if obligations == 0 and runs == 0:
        # nothing could be decided at all: this is an error of the check, not a verdict
        print("ERROR: nothing was checked")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
