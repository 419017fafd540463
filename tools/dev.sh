#!/bin/bash
# tools/dev.sh sym|audit C07 [unit...]   developer view
mode=$1; prop=$2; shift 2
only=$(python3 -c 'import json,sys; print(json.dumps(sys.argv[1:]))' "$@")
cd "$(dirname "$0")/.." || exit 1
echo "{\"out\":\"/tmp/dev.$$.json\",\"only\":$only,\"tier\":\"${TIER:-quick}\"}" > /tmp/dev.$$.json
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pvc.worker $mode $prop /tmp/dev.$$.json
python3 - /tmp/dev.$$.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
if "fatal" in d: print(d["fatal"]); sys.exit()
n=0; shown=0
for r in d["results"]:
    if "error" in r: print("ERR", r["unit"], r["error"]); continue
    if "obligations" in r:
        ok=sum(o["ok"] for o in r["obligations"].values()); f=sum(o["fail"] for o in r["obligations"].values())
        n+=ok
        flag = "OK  " if not f and not r["n_undecided"] and ok else "BAD "
        print(flag, r["unit"], "paths",r["paths"],"done",r["done"],"ok",ok,"fail",f,"undec",r["n_undecided"],"q",r["queries"],"%.1fs (solver %.1f)"%(r["wall_s"],r["solver_s"]))
        if f or r["n_undecided"]: shown+=1
        if shown<=4:
            for x in r["failures"][:1]: print("   FAIL", x["obligation"], str(x["inputs"])[:400], x["detail"][-900:])
            for x in r["undecided"][:2]: print("   UNDEC", str(x)[:600])
    else:
        print("OK  " if not r["failures"] and r["runs"] else "BAD ", r["unit"], "runs",r["runs"],"skip",r["skipped"],"checks",r["checks"],"%.1fs"%r["wall_s"])
        if r["failures"]: shown+=1
        if shown<=4:
            for x in r["failures"][:1]: print("   FAIL", x["obligation"], str(x["inputs"])[:500], x["detail"][-1200:])
print("total ok", n, "wall", d.get("wall_s"))
P
rm -f /tmp/dev.$$.json
