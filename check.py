#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse
import multiprocessing as mp
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from statan import jobs as J          # noqa: E402
from statan.props import PROPS, RULES, BASE_ASSUMPTIONS   # noqa: E402
from statan.report import Report      # noqa: E402

LIMIT = {"quick": 780, "thorough": 6000}


def worker(name, tier, conn):
    try:
        conn.send(J.run_job(name, tier))
    except BaseException as e:                                   # pragma: no cover
        try:
            conn.send({"ok": [], "bad": [], "und": [("job", name, repr(e))], "functions": set(), "rules": {}, "samples": [],
                       "contexts": 0, "extra": {}})
        except BaseException:
            pass
    conn.close()


def run_jobs(names, tier):
    todo, running, done = list(names), {}, {}
    deadline = time.time() + LIMIT[tier]
    while todo or running:
        while todo and len(running) < 8:
            n = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(n, tier, b))
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        for n, (p, a, t) in list(running.items()):
            if a.poll(0.02):
                try:
                    done[n] = a.recv()
                    done[n]["wall"] = time.time() - t
                except EOFError:
                    done[n] = None
                p.join()
                del running[n]
            elif time.time() > deadline:
                p.kill()
                p.join()
                done[n] = None
                del running[n]
        if time.time() > deadline:
            for n in todo:
                done[n] = None
            todo = []
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    a = ap.parse_args()
    spec = PROPS[a.prop]
    rep = Report(a.prop, a.tier)
    rep.rules = {r: RULES[r] for r in spec["rules"]}
    rep.assumptions = BASE_ASSUMPTIONS + spec.get("assumptions", [])
    rep.floor = spec.get("floor", {})
    done = run_jobs(spec["jobs"], a.tier)
    per = {}
    for n in spec["jobs"]:
        d = done.get(n)
        if d is None:
            rep.undecided("job", n, "analysis did not finish in time or memory")
            continue
        only = spec.get("only")
        keep = lambda r, c: r in spec["rules"] and (only is None or only(n, r, c))
        ok = [x for x in d["ok"] if keep(x[0], x[1])]
        rep.ok_ += ok
        rep.bad_ += [x for x in d["bad"] if keep(x[0], x[1])]
        rep.und_ += [x for x in d["und"] if x[0] == "job" or keep(x[0], x[1])]
        rep.functions |= set(d["functions"])
        rep.samples += [s for s in d["samples"] if s["rule"] in spec["rules"]][:2]
        per[n] = {"contexts": d["contexts"], "decided": len(ok), "seconds": round(d["wall"], 1), **d["extra"]}
    rep.extra["jobs"] = per
    sys.exit(rep.finish())


if __name__ == "__main__":
    main()
