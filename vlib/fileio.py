"""C23-C25: saving and loading."""
import random

from .core import Broken


def jobs_from(run, rng, num, len0, bad):
    plans = run.plans("IOPlan", num, 2 * len0 + 10, rng.randrange(1, 10 ** 6), consts=dict(Len0=len0, Bad=bad))
    jobs = []
    for i, p in enumerate(plans):
        used = set()
        for e in p["ev"]:
            used.update(f["arr"] for f in e.get("fields", []))
            used.update([e["grid"]] if e["op"] == "addl" else [])
            used.update(e.get("arrays", []))
        spare = {"es4", "lv4"}  # never registered by accident: must never change
        jobs.append(dict(id=f"io/{p['dim']}d/{bad}/{i}", dim=p["dim"], ev=p["ev"], shapes={a: s for a, s in p["shapes"].items() if a in used | spare},
                         seed=rng.randrange(1 << 30), dt=rng.choice(["f64", "f32"]), lay=rng.random() < 0.6, abs=rng.random() < 0.3, parf32=rng.random() < 0.3))
    return jobs


def wide_jobs(rng, num):
    """Registries with many fields and many grids, most of them named by the code."""
    jobs = []
    for i in range(num):
        d = rng.choice([2, 3])
        size = [rng.randint(1, 5) for _ in range(d)]
        shapes, first, second = {}, [], []

        def arr(kind, k, sh):
            shapes[kind + k] = sh
            return kind + k
        names = ["u", "u_0", "u_00", "U", "Grid", "Scalar", "time", "v1", "v10", "v11", "v2", "x_1", "x_10", "_", "T"]
        lnames = ["f", "f1", "f10", "f11", "Grid", "Connection", "Vector", "F"]
        ne, ng = rng.randint(9, 14), rng.randint(11, 14)
        kinds = [rng.random() < 0.5 for _ in range(ne)]
        lay = []
        for g in range(ng):
            nf = rng.choice([0, 0, 1, 2, 3, 8 if g == 11 else 1])
            lay.append(dict(name=f"rod_{g}" if rng.random() < 0.15 else "", n=rng.choice([1, 2, 3, 5, d, 40]), conn=rng.random() < 0.3,
                            f=[(x, rng.random() < 0.5) for x in rng.sample(lnames, nf)]))
        enames = rng.sample(names, ne)
        for who, steps in (("a", first), ("b", second)):
            steps.append(dict(op="new", io="i" + who))
            steps.append(dict(op="define", io="i" + who, par=dict(size=size, origin="o0", dx="d0")))
            fs = [dict(name=enames[k], arr=arr(f"{who}e", str(k), ([d] if kinds[k] else []) + size)) for k in range(ne)]
            cut = rng.randint(1, ne - 1)
            steps += [dict(op="adde", io="i" + who, fields=fs[:cut]), dict(op="adde", io="i" + who, fields=fs[cut:])]
            for g, x in enumerate(lay):
                steps.append(dict(op="addl", io="i" + who, name=x["name"], grid=arr(f"{who}g", str(g), [d, x["n"]]), conn=x["conn"],
                                  fields=[dict(name=nm, arr=arr(f"{who}f{g}_", str(j), ([d] if vec else []) + [x["n"]])) for j, (nm, vec) in enumerate(x["f"])]))
        every = dict(op="mutate", arrays=sorted(a for a in shapes), how=1)
        ev = first + [every, dict(op="save", io="ia", file="a.h5", time=rng.randint(0, 7)), dict(every, how=3), dict(op="load", io="ia", file="a.h5")]
        ev += second + [dict(every, how=rng.choice([1, 2])), dict(op="load", io="ib", file="a.h5"), dict(every, how=1),
                        dict(op="save", io="ib", file="sub/b.h5", time=rng.randint(0, 7)), dict(op="load", io="ia", file="sub/b.h5")]
        jobs.append(dict(id=f"io/wide/{d}d/{i}", dim=d, ev=ev, shapes=shapes, seed=rng.randrange(1 << 30), dt=rng.choice(["f64", "f32"]), lay=rng.random() < 0.3,
                         abs=False, parf32=False))
    return jobs


def check_io(run):
    run.laws("MC_IO", cfg="MC_" + run.pid, consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}")
    n = 400 if run.thorough else 70
    mix = dict(C23=[(2, 0, 1), (1, 12, 1)], C24=[(2, 40, 1), (1, 12, 1)], C25=[(2, 0, 1), (1, 8, 1)])[run.pid]
    jobs = []
    for w, bad, _ in mix:
        jobs += jobs_from(run, rng, w * n, 34 if run.thorough else 26, bad)
    jobs += wide_jobs(rng, n // 10)
    if run.pid != "C25":  # (an XDMF file describes arrays of the real type of its object)
        for j in jobs:
            if rng.random() < 0.25:
                j["iodt"] = "f32" if j["dt"] == "f64" else "f64"
    hists = run.driver("fileio.py", jobs)
    ops = {}
    for h in hists:
        for e in h["ev"]:
            k = e["op"] + ("" if not e["err"] else " refused")
            ops[k] = ops.get(k, 0) + 1
    run.notes["calls"] = ops
    run.events += sum(v for k, v in ops.items() if k.split()[0] in ("save", "load", "adde", "addl"))
    if ops.get("save", 0) < n or ops.get("load", 0) < n // 2:
        if not any(k.startswith(("save refused", "load refused")) for k in ops):
            raise Broken("too few saves and loads: %s" % ops)
    run.replay("TraceIO", hists, jobs, sum(len(h["ev"]) + 1 for h in hists), only=run.pid)
    for j in jobs[:2]:
        run.samples.append(dict(hist=j["id"], events=j["ev"][:10]))
