"""python -m tfv.run PROPERTY [--tier quick|thorough] [--only substring]"""
import argparse
import json
import os
import queue
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Worker:
    def __init__(self):
        self.start()

    def start(self):
        self.p = subprocess.Popen([sys.executable, "-m", "tfv.worker"], cwd=ROOT, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=open(os.environ.get("TFV_LOG", os.devnull), "a"),
                                  text=True, bufsize=1, start_new_session=True)
        self.q = queue.Queue()
        t = threading.Thread(target=self._read, args=(self.p, self.q), daemon=True)
        t.start()

    @staticmethod
    def _read(p, q):
        for line in p.stdout:
            q.put(line)
        q.put(None)

    def recv(self, timeout):
        try:
            line = self.q.get(timeout=max(0.1, timeout))
        except queue.Empty:
            return "timeout"
        if line is None:
            return "dead"
        try:
            return json.loads(line)
        except ValueError:
            return "dead"

    def kill(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def known_findings(prop):
    """lines of known_findings.txt:  known: property=<id> case=<case> contains=<text> | what fails"""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                head, _, what = ln[len("known: "):].partition(" | ")
                kv = dict(x.split("=", 1) for x in head.split(" ") if "=" in x)
                out.append((kv.get("case"), kv.get("contains", "").replace("_", " "), what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("TFV_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = int(os.environ.get("TFV_TOTAL_S", "780" if a.tier == "quick" else "7200"))
    percase = int(os.environ.get("TFV_CASE_S", "420" if a.tier == "quick" else "3000"))
    # the case list is obtained from a worker-less import (no TensorFlow needed for names)
    from . import meta
    cases = meta.cases(a.prop, a.tier)
    if a.only:
        cases = [c for c in cases if a.only in c["key"]]
    if not cases:
        print("no cases for %s" % a.prop)
        return 2
    cases.sort(key=lambda c: -c["cost"])
    todo = queue.Queue()
    for c in cases:
        todo.put(c)
    results = []
    lock = threading.Lock()

    def serve():
        w = None
        while True:
            try:
                c = todo.get_nowait()
            except queue.Empty:
                break
            left = total - (time.time() - t0)
            if left < 5:
                with lock:
                    results.append({"key": c["key"], "status": "undecided", "detail": ["time budget exhausted"]})
                continue
            if w is None:
                w = Worker()
                r = w.recv(120)
                if not isinstance(r, dict):
                    w.kill()
                    w = None
                    with lock:
                        results.append({"key": c["key"], "status": "undecided", "detail": ["worker failed to start"]})
                    continue
            w.p.stdin.write(c["key"] + "\n")
            w.p.stdin.flush()
            r = w.recv(min(left, c.get("limit") or percase))
            if not isinstance(r, dict):
                w.kill()
                w = None
                r = {"key": c["key"], "status": "undecided", "detail": ["case " + str(r)], "wall": time.time() - t0}
            with lock:
                results.append(r)
                if a.v:
                    print("%-60s %-10s %6.1fs ob=%s lem=%s q=%s %s" % (
                        r["key"], r["status"], r.get("wall", 0), r.get("obligations"), r.get("lemmas"),
                        r.get("queries"), str(r.get("detail", ""))[:300]), flush=True)
        if w is not None:
            w.kill()

    ths = [threading.Thread(target=serve) for _ in range(min(a.jobs, len(cases)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return report(a, seed, results, time.time() - t0)


def report(a, seed, results, wall):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    known = known_findings(a.prop)
    viol, kf = [], []
    results.sort(key=lambda r: r["key"])
    for r in results:
        if r["status"] == "violation":
            txt = " ".join(map(str, r.get("detail", [])))
            name = r["key"].split(":", 1)[1]
            hit = [k for k in known if k[0] == name and k[1] in txt]
            if hit:
                kf.append((r, hit[0]))
            else:
                viol.append(r)
    for r, k in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k[2]))
    from . import meta
    und = [r for r in results if r["status"] == "undecided"]
    ops = {}
    solver = {}
    by = {}
    for r in results:
        for k, v in (r.get("ops") or {}).items():
            ops[k] = ops.get(k, 0) + v
        for k, v in (r.get("solver") or {}).items():
            if isinstance(v, dict):
                for kk, vv in v.items():
                    by[kk] = by.get(kk, 0) + vv
            else:
                solver[k] = solver.get(k, 0) + v
    fns = sorted({f for r in results for f in r.get("functions", [])})
    cov = {
        "explanation": "Bounded symbolic execution of the repository's code; every obligation below is a "
                       "quantifier-free query over all values of the symbolic inputs and randomness within the "
                       "stated bounds, decided by z3/kissat/cvc5. %s" % meta.bounds(a.prop),
        "cases": len(results),
        "obligations": sum(r.get("obligations", 0) for r in results),
        "discharged": sum(r.get("obligations", 0) for r in results if r["status"] == "ok"),
        "intermediate_lemmas": sum(r.get("lemmas", 0) for r in results),
        "solver_queries": solver,
        "solver_backends": by,
        "functions_encoded": fns,
        "graph_operations_encoded": ops,
        "undecided": [{"case": r["key"], "why": r.get("detail")} for r in und],
        "known_findings": [k[2] for _, k in kf],
        "samples": [{"case": r["key"], "status": r["status"], "obligations": r.get("obligations"),
                     "queries": r.get("queries"), "wall_s": round(r.get("wall", 0), 2)} for r in results],
    }
    doc = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "other", "coverage": cov,
           "assumptions": meta.assumptions(a.prop), "wall_s": round(wall, 2), "violations": len(viol)}
    with open(os.path.join(ev, a.prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for i, r in enumerate(viol):
        path = os.path.join(ev, "replay_%s_%d.json" % (a.prop, i))
        with open(path, "w") as f:
            json.dump({"property": a.prop, "case": r["key"], "detail": r.get("detail"), "replay": r.get("replay"),
                       "how": "cd /verif && ./check.sh %s %s --only '%s'" % (a.prop, a.tier, r["key"])}, f, indent=1)
        print("  %s: %s" % (r["key"], " ".join(map(str, r.get("detail", [])))[:500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    print("%s %s: %d cases, %d ok, %d undecided, %d violations, %d known findings, %.0fs" % (
        a.prop, a.tier, len(results), sum(r["status"] == "ok" for r in results), len(und), len(viol), len(kf), wall))
    for r in und[:12]:
        print("  undecided %s: %s" % (r["key"], str(r.get("detail"))[:200]))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
