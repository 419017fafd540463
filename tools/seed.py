#!/usr/bin/env python3
"""tools/seed.py [id...]: (re)build and confirm the planted bugs described in tools/seeds_src.py, in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds_src import SEEDS
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
DEMO = '#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nt="$(mktemp -d)"\ntrap \'rm -rf "$t"\' EXIT\nTMPDIR="$t" /opt/venv/bin/python "$d/demo.py" "$t"\n'


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    todo = sys.argv[1:] or [s["id"] for s in SEEDS]
    for s in SEEDS:
        if s["id"] not in todo:
            continue
        tmp = tempfile.mkdtemp(prefix="seed.")
        repo = os.path.join(tmp, "repo")
        sh("cp -a /repo %s" % repo, "/")
        try:
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write(s["demo"].lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            a = sh("bash %s/demo.sh" % d, repo)
            for file, old, new in s["edits"]:
                p = os.path.join(repo, file)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], file, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            b = sh("bash %s/demo.sh" % d, repo)
            diff = sh("git diff", repo).stdout
            with open(os.path.join(d, "patch.diff"), "w") as f:
                f.write(diff)
            r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests" % repo, repo)
            t = "rc %d" % r.returncode if not r.returncode else "failed " + r.stdout[-1500:]
            print(s["id"], s["property"], "clean exit", a.returncode, "patched exit", b.returncode, "tests:", t.strip().split("\n")[-1])
            if a.returncode or not b.returncode:
                print("   BAD DEMO", a.stdout[-800:], b.stdout[-800:])
            if "failed" in t or "error" in t:
                print(t)
        finally:
            shutil.rmtree(tmp)


main()
