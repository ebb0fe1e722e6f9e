#!/usr/bin/env python3
"""Run one check:  run.py <property> quick|thorough   or   run.py replay <file>"""
import concurrent.futures as cf
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import infra  # noqa: E402
from infra import log  # noqa: E402


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.quick = tier == "quick"

    def rng(self, tag=""):
        return random.Random(f"{self.prop}/{tag}/{self.seed}")

    def n(self, quick, thorough):
        return quick if self.quick else thorough


def run(prop, tier, seed, only=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        ctx = Ctx(prop, tier, seed, scratch)
        mod = importlib.import_module(prop.lower())
        with cf.ThreadPoolExecutor(8) as ex:
            fb = ex.submit(infra.build_pkg, scratch)
            fp = ex.submit(mod.plan, ctx)
            plan = fp.result()
            mcs = plan.get("mc", []) if only is None else []
            tmo = 600 if tier == "quick" else 3000
            fm = [ex.submit(infra.model_check, m, c, scratch, "mc_" + t, tmo,
                            2 if tier == "quick" else 4)
                  for (m, c, t) in mcs]
            pkg = fb.result()
            log(f"{prop}: built in {time.time() - t0:.1f}s")
            groups = plan["groups"]
            fails, st, tr, ntr, nev, samples, opcount = [], 0, 0, 0, 0, [], {}
            for g in groups:
                cases = g["cases"]
                if only is not None:
                    cases = [c for c in cases if c["id"] == only]
                    if not cases:
                        continue
                pool = infra.Pool(g["driver"], pkg, scratch,
                                  nproc=g.get("nproc"),
                                  case_timeout=g.get("timeout", 150))
                t1 = time.time()
                traces = pool.run(cases)
                t2 = time.time()
                byid = {c["id"]: c for c in cases}
                f, s, t = infra.validate(
                    g["module"], traces, scratch, g["driver"] + g.get("tag", ""),
                    workers=2, shards=min(g.get("shards", 4),
                                          max(1, len(traces) // 8 + 1)),
                    timeout=800 if tier == "quick" else 5000,
                    consts=g.get("consts", ""))
                log(f"{prop}/{g['driver']}{g.get('tag', '')}: {len(traces)} traces,"
                    f" {sum(len(x['ev']) for x in traces)} events;"
                    f" driver {t2 - t1:.1f}s, TLC {time.time() - t2:.1f}s,"
                    f" {len(f)} rejected")
                tb = {x["id"]: x for x in traces}
                for (cid, pos, clauses) in f:
                    fails.append(dict(case=cid, event=pos, clauses=clauses,
                                      driver=g["driver"], module=g["module"],
                                      spec=byid.get(cid), trace=tb.get(cid)))
                st += s
                tr += t
                ntr += len(traces)
                for x in traces:
                    nev += len(x["ev"])
                    for e in x["ev"]:
                        k = e.get("op", "?")
                        opcount[k] = opcount.get(k, 0) + 1
                for x in traces[:1]:
                    txt = json.dumps(x)
                    samples.append(dict(driver=g["driver"], id=x["id"],
                                        trace=txt[:1500]))
            mc_stats = []
            for (m, c, t), f in zip(mcs, fm):
                gen, dist = f.result()
                mc_stats.append(dict(module=m, config=t, states=dist,
                                     transitions=gen))
                log(f"{prop}: {m}/{t}: {dist} distinct states, no error")
        known = infra.known_findings(prop)
        viol, kf = [], []
        for f in fails:
            hit = [k for k in known if k["case"] == f["case"]
                   and set(f["clauses"]) <= set(k["clauses"])]
            (kf if hit else viol).append((f, hit))
        for k in known:
            if any(k in h for _, h in kf):
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        evd = os.path.join(HERE, "evidence")
        os.makedirs(evd, exist_ok=True)
        if only is None:
            ev = dict(property=prop, tier=tier, seed=seed,
                      level=plan.get("level", "model_checking"),
                      coverage=dict(
                          states=sum(m["states"] for m in mc_stats) + st,
                          transitions=sum(m["transitions"] for m in mc_stats) + tr,
                          traces_validated_against_impl=ntr,
                          events_validated=nev, trace_states=st,
                          design_models=mc_stats, operations=opcount,
                          samples=samples,
                          rejected_traces=len(fails)),
                      assumptions=plan.get("assumptions", []),
                      violations=len(viol),
                      wall_s=round(time.time() - t0, 2))
            with open(os.path.join(evd, f"{prop}.json"), "w") as fh:
                json.dump(ev, fh, indent=1)
        for i, (f, _) in enumerate(viol[:10]):
            path = os.path.join(evd, f"replay_{prop}_{i}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, **f), fh)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {f['case']} event {f['event']}: "
                  + ", ".join(f["clauses"]))
        log(f"{prop} {tier}: {ntr} traces, {len(viol)} violations,"
            f" {time.time() - t0:.1f}s")
        return 1 if viol else 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        with open(sys.argv[2]) as fh:
            r = json.load(fh)
        sys.exit(run(r["property"], r["tier"], r["seed"], only=r["case"]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER",
                                                               "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        sys.exit(run(prop, tier, seed))
    except infra.MachineryError as err:
        print(f"MACHINERY-ERROR {prop}: {err}")
        sys.exit(2)


if __name__ == "__main__":
    main()
