"""Runs cases one at a time; reads case keys on stdin, writes one JSON line per case."""
import json
import os
import sys
import traceback


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)  # stray prints of the code under test must not reach the protocol stream
    from . import reg
    from . import harness
    from . import solve

    try:
        reg.load()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
    out.write(json.dumps({"ready": len(reg.CASES)}) + "\n")
    for line in sys.stdin:
        key = line.strip()
        if not key:
            continue
        c = reg.CASES[key]
        try:
            if c.kind == "graph":
                r = harness.run_case(c.name, c.opts["mk"], c.fn,
                                     **{k: v for k, v in c.opts.items() if k in ("timeout", "cut", "session_ok", "abstain_raise", "vacuity", "selfcheck")})
            elif c.kind == "privacy":
                from . import privacy
                r = privacy.run_case(c.name, c.opts["mk"], c.fn)
            else:
                solve.reset()
                import time
                t0 = time.time()
                r = c.fn()
                r.wall = time.time() - t0
                if not r.solver:
                    r.solver = dict(solve.STATS)
                    r.queries = solve.STATS["queries"]
            d = r.to_json()
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            traceback.print_exc()
            d = {"name": c.name, "status": "undecided",
                 "detail": ["check machinery: %s: %s" % (type(e).__name__, str(e)[:300])]}
        d["key"] = key
        out.write(json.dumps(d) + "\n")


if __name__ == "__main__":
    main()
