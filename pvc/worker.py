"""Worker processes: ``sym`` (proofs), ``audit`` (run-time contract checks), ``replay``.  Prints one JSON document."""
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(mode, prop):
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    if mode == "sym":
        from pvc import instr
        instr.install(VERIF)
    else:
        repo = os.environ.get("PVC_REPO", "/repo")
        sys.path.insert(0, repo)
    import pyflp
    return importlib.import_module("hs." + prop.lower())


def run_sym(u, cross, deadline):
    from pvc.engine import Explorer
    from pvc.harness import SymH
    t = time.time()
    ex = Explorer(lambda c: u.fn(SymH(c), **u.kw), max_paths=u.max_paths, max_s=max(1.0, min(u.max_s, deadline - t)), cross=cross)
    ex.run()
    st = ex.stats
    return {"unit": u.name, "level": u.level, "funcs": u.funcs, "note": u.note, "paths": ex.paths, "done": ex.done_paths,
            "obligations": ex.obligations, "failures": [dict(f) for f in ex.failures], "undecided": ex.undec[:20], "witnesses": ex.witnesses,
            "n_undecided": len(ex.undec), "queries": st.queries, "solver_s": st.solver_s, "by": st.by,
            "cross": [c for c in ex.cross_results if c[1] != "unsat"][:5], "n_cross": len(ex.cross_results),
            "n_cross_unsat": sum(1 for c in ex.cross_results if c[1] == "unsat"), "wall_s": time.time() - t}


def run_audit(u, seed, n, deadline):
    from pvc.harness import RandomH, Violated, Skip, unavailable
    import warnings
    warnings.simplefilter("ignore")
    t = time.time()
    out = {"unit": u.name, "runs": 0, "skipped": 0, "checks": 0, "failures": []}
    for i in range(n):
        if time.time() > deadline:
            break
        h = RandomH("%s/%s/%s" % (seed, u.name, i))
        try:
            u.fn(h, **u.kw)
            out["runs"] += 1
        except Skip:
            out["skipped"] += 1
        except Violated as e:
            out["failures"].append({"obligation": e.name, "detail": str(e.detail)[:2000], "inputs": h.used})
        except Exception as e:
            if unavailable(e):
                out["skipped"] += 1
            else:
                out["failures"].append({"obligation": "no unexpected exception", "detail": traceback.format_exc()[-3000:], "inputs": h.used})
        finally:
            h.cleanup()
        out["checks"] += sum(h.proved.values())
        if len(out["failures"]) >= 2:
            break
    out["wall_s"] = time.time() - t
    return out


def run_replay(u, inputs, tries=0):
    """the contract on those inputs; with ``tries``, inputs that are not given are also drawn at random"""
    from pvc.harness import ConcreteH, GuidedH
    r = replay1(u, ConcreteH(inputs))
    for k in range(tries):
        if r["result"] == "violated":
            break
        g = replay1(u, GuidedH("%s/%d" % (u.name, k), inputs))
        if g["result"] == "violated":
            again = replay1(u, ConcreteH(g["inputs"]))
            if again["result"] == "violated":
                r = again
    return r


def replay1(u, h):
    from pvc.harness import Violated, Skip, unavailable
    import warnings
    warnings.simplefilter("ignore")
    try:
        u.fn(h, **u.kw)
    except Skip:
        return {"result": "skipped"}
    except Violated as e:
        return {"result": "violated", "obligation": e.name, "detail": str(e.detail)[:2000], "inputs": h.used}
    except Exception as e:
        if unavailable(e):
            return {"result": "skipped"}
        return {"result": "violated", "obligation": "no unexpected exception", "detail": traceback.format_exc()[-3000:], "inputs": h.used}
    finally:
        h.cleanup()
    return {"result": "holds"}


def pool(items, fn, nproc, deadline, log=None):
    """Run fn(item) for all items in forked children (one child serves many items)."""
    import select
    todo = list(range(len(items)))[::-1]
    results = {}
    procs = {}     # fd -> [pid, to_fd, item, started, buffer]

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r1)
            os.close(w2)
            for fd, p in procs.items():
                os.close(fd)
                os.close(p[1])
            try:
                rd = os.fdopen(r2, "r")
                while True:
                    line = rd.readline()
                    if not line:
                        break
                    i = int(line)
                    try:
                        res = fn(items[i])
                    except BaseException as e:
                        res = {"error": traceback.format_exc()[-3000:]}
                    data = (json.dumps(res) + "\n").encode()
                    while data:
                        k = os.write(w1, data)
                        data = data[k:]
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        procs[r1] = [pid, w2, None, 0, b""]
        return r1

    def give(fd):
        p = procs[fd]
        if not todo:
            os.close(p[1])
            os.close(fd)
            os.waitpid(p[0], 0)
            del procs[fd]
            return
        p[2] = todo.pop()
        p[3] = time.time()
        os.write(p[1], ("%d\n" % p[2]).encode())

    for _ in range(min(nproc, len(items))):
        give(spawn())
    while procs:
        rs, _, _ = select.select(list(procs), [], [], 1.0)
        now = time.time()
        for fd in rs:
            p = procs[fd]
            b = os.read(fd, 1 << 16)
            if not b:
                results[p[2]] = {"error": "worker died"}
                os.close(fd)
                os.close(p[1])
                os.waitpid(p[0], 0)
                del procs[fd]
                if todo:
                    give(spawn())
                continue
            p[4] += b
            if p[4].endswith(b"\n"):
                results[p[2]] = json.loads(p[4].decode())
                p[4] = b""
                give(fd)
        if now > deadline:
            todo.clear()
        for fd, p in list(procs.items()):
            if now > deadline + 30 or (p[2] is not None and now - p[3] > getattr(items[p[2]], "max_s", 60) + 60):
                os.kill(p[0], signal.SIGKILL)
                os.waitpid(p[0], 0)
                results[p[2]] = {"error": "timeout"}
                os.close(fd)
                os.close(p[1])
                del procs[fd]
                if todo and now <= deadline:
                    give(spawn())
    return [results.get(i, {"error": "not run (budget)"}) for i in range(len(items))]


def main(argv):
    mode, prop = argv[0], argv[1]
    with open(argv[2]) as f:
        opt = json.load(f)
    out_path = opt["out"]
    t = time.time()
    try:
        mod = load(mode, prop)
        units = mod.units(opt.get("tier", "quick"))
        if opt.get("only"):
            units = [u for u in units if u.name in opt["only"] or any(u.name.startswith(o[:-1]) for o in opt["only"] if o.endswith("*"))]
        names = [u.name for u in units]
        assert len(set(names)) == len(names), "duplicate unit names"
        if mode == "replay":
            res, bad = [], 0
            for item in opt["items"]:
                if bad >= 5 or time.time() > t + opt.get("budget", 600):
                    res.append({"result": "not replayed"})
                    continue
                u = [x for x in units if x.name == item["unit"]][0]
                res.append(run_replay(u, item["inputs"], item.get("tries", 0)))
                bad += res[-1]["result"] == "violated"
            doc = {"results": res}
        else:
            deadline = t + opt.get("budget", 600)
            if mode == "sym":
                us = [u for u in units if u.sym]
                fn = lambda u: run_sym(u, opt.get("cross", False), deadline)
            else:
                us = [u for u in units if u.audit]
                scale = opt.get("scale", 1)
                fn = lambda u: run_audit(u, opt.get("seed", 1), int(u.audit * scale), deadline)
            # long ones first
            order = sorted(range(len(us)), key=lambda i: -us[i].max_s)
            rs = pool([us[i] for i in order], fn, opt.get("nproc", 8), deadline)
            res = [None] * len(us)
            for k, i in enumerate(order):
                r = rs[k]
                r.setdefault("unit", us[i].name)
                r.setdefault("level", us[i].level)
                res[i] = r
            doc = {"results": res, "load_s": 0, "wall_s": time.time() - t}
            if mode == "sym":
                from pvc import instr
                doc["sources"] = instr.LOADED
    except BaseException:
        doc = {"fatal": traceback.format_exc()[-5000:]}
    with open(out_path, "w") as f:
        json.dump(doc, f)


if __name__ == "__main__":
    main(sys.argv[1:])
