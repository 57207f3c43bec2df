"""C26: which configurations and arguments are refused."""
import random
import re
import json

from .core import Broken

NAMES = ["single", "double", "Single", "half", "", "float32", "f8", "quad", "<none>", "<default>"]
HEAVY = {"advection": 4.0, "ssprk3": 5.0, "laplacian": 5.0, "penalise_field_boundary": 4.0, "timestep": 3.0}
COST = dict(adv_flux=6, adv_step=8, adv_step_v=8, stretch_rk3=40, filter=30, filter_v=30, pen_bound=30, pen_bound_v=30, curl3=4, diff_step_v=4)


def plans(run, salt, valid):
    r = run.tlc("ConfPlan", workers=1, consts=dict(Salt=salt, Valid=valid), extra=("-seed", "1"))
    out = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'(?m)^"PLAN (.*)"$', r["out"])]
    if r["rc"] != 0 or not out:
        raise Broken("no plans from ConfPlan:\n" + r["out"][-3000:])
    return out


def check_c26(run):
    run.laws("MC_C26", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C26/{run.seed}/{run.tier}")
    jobs = []
    rounds = 3 if run.thorough else 1
    for rd in range(rounds):
        ps = plans(run, rng.randrange(1, 10000), 100 if run.thorough and rd == 0 else 40 if run.thorough else 30)
        builds = []
        for p in ps:
            if p["what"] == "build":
                builds.append([p["target"], p["o"]])
            else:
                o = dict(p["o"], dx=1.0, bw=1.0)
                for c in p["calls"]:
                    c["faults"] = c["faults"] or {}
                jobs.append(dict(id=f"call{rd}/{p['dim']}d/{p['op']}/{'fixed' if p['fx'] else 'any'}", what="call", op=p["op"], dim=p["dim"], dt=p["dt"],
                                 nt=p["nt"] or False, fx=p["fx"], sh=p["sh"], o=o, seed=rng.randrange(1 << 30), calls=p["calls"], cost=float(COST.get(p["op"], 3))))
        rng.shuffle(builds)
        n = 48
        for k in range(n):
            if builds[k::n]:
                jobs.append(dict(id=f"build{rd}/{k}", what="build", builds=builds[k::n], cost=4.0))
    jobs.append(dict(id="names", what="names", names=NAMES, cost=0.1))
    jobs.sort(key=lambda j: -j["cost"])
    hists = run.driver("config.py", jobs)
    cnt = {}
    for h in hists:
        for e in h["ev"]:
            k = e["op"] + (" refused" if e["err"] else " accepted")
            cnt[k] = cnt.get(k, 0) + 1
            run.events += 1
    run.notes["tried"] = cnt
    run.notes["targets"] = len({b[0] for j in jobs if j["what"] == "build" for b in j["builds"]})
    run.notes["kernels_called"] = len({(j["op"], j["dim"], j["fx"]) for j in jobs if j["what"] == "call"})
    run.replay("TraceConf", hists, jobs, sum(len(h["ev"]) + 1 for h in hists))
    for j in jobs[:2]:
        run.samples.append({k: j[k] for k in ("id", "op", "calls") if k in j})
