"""Evaluates the same kernel call on the same real-valued inputs under many
configurations and records the outputs under configuration-free keys.

usage: equiv.py JOBS.json OUT.json
Job: op, d, sh, seed, variants = list of {dt, fx, nt, lay, comp, perm, rep}.
big: the whole grid, of which only the windows job["wins"] are recorded; win: a
window of the grid as a grid of its own (what a cell gets depends on the cells
within reach only; cells within reach of a cut are not recorded).
comp: the scalar kernel applied to component comp of the vector inputs (keys as
for the vector kernel); perm: components permuted on the way in and out."""
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import flow  # noqa: E402

TOL = {"f64": 1, "f32": 6000}
BADV = 1100000000  # differences of logged values stay below 2^31


def inputs(job):
    """Real inputs; entries spread over several magnitudes, some exactly zero."""
    rng = np.random.RandomState(job["seed"])
    d, sh, op = job["d"], tuple(job["sh"]), job["op"]
    out = {}
    for r, (kw, kind, _) in sorted(flow.OPS[op]["r"].items()):
        k = kind
        if k == "w":
            k = "s" if d == 2 else "v"
        shape = ((d,) + sh) if k == "v" else (2,) + sh if k == "c" else sh
        v = rng.uniform(-1, 1, size=shape)
        pat = rng.randint(0, 6)
        if pat == 4:
            v = v * 10.0 ** rng.uniform(-6, 0, size=shape)
        if pat == 5:
            v = v * (rng.uniform(size=shape) < 0.6)
        if k == "v" and r not in job["outs"] and rng.randint(0, 3) == 0:
            v[rng.randint(0, d)] = 0
        if pat == 0:
            v = v + rng.uniform(-2, 2)
        if pat == 1:
            v = np.sin(3 * np.arange(v.size).reshape(shape) / v.size) + 0.1 * v
        if r == "chi":
            v = np.abs(v)
        if op == "charfunc" and r == "f":
            v = 1.3 * job["o"]["bw"] * v
        out[r] = v
    p = {}
    for pn in flow.OPS[op]["p"]:
        if pn == "val":
            p[pn] = [float(x) for x in rng.uniform(-1, 1, size=d) * (rng.uniform(size=d) < 0.75)]
        else:
            p[pn] = float(rng.uniform(0.1, 0.6))
            if op.startswith("brink"):
                p[pn] = float(rng.uniform(0, 20))
    return out, p


def vec(op):
    return any(kind == "v" for _, kind, _ in flow.OPS[op]["r"].values())


def run_variant(job, var, ins, p):
    d, op = job["d"], job["op"]
    comp, perm, E = var.get("comp"), var.get("perm"), var.get("E")
    kop = op
    if comp is not None:
        kop = op[:-2]
    spec = flow.OPS[kop]
    wj = dict(sh=job["sh"], dt=var["dt"], nt=var["nt"], fx=var["fx"], lay=var["lay"], seed=job["seed"] % 1000, bufs={}, ev=[])
    if "coord" in job:
        wj["coord"] = job["coord"]
    kinds = {r: k for r, (_, k, _) in spec["r"].items()}
    win = job["wins"][var["win"]] if "win" in var else None
    if win:
        wj["sh"] = win["s"]
        if "coord" in job:
            wj["coord"] = dict(job["coord"], x0=[x + o * job["coord"]["dx"] for x, o in zip(job["coord"]["x0"], win["o"])])
    for r, k in kinds.items():
        wj["bufs"][r] = dict(k=k, init=dict(pat="zero"))
    w = flow.World(wj)
    vin = {}
    for r in ins:
        full = ins[r]
        big = flow.OPS[op]["r"][r][1]
        sub = kinds[r]
        if sub == "s" and big == "v":
            full = full[comp]
        elif perm is not None and big == "v" and r != "v":
            full = full[perm]
        if win:
            full = full[(...,) + tuple(slice(o, o + n) for o, n in zip(win["o"], win["s"]))]
        if E:  # all fields in other units
            full = full * flow.unit(spec["r"][r][2], E, var.get("M"))
        vin[r] = full
    a = {r: r for r in kinds}
    oo = dict(job["o"])
    for r, (kwname, _, _) in spec["r"].items():
        if kwname is None:
            oo[r] = a[r]
    k = flow.kernel(w, kop, oo, 0)
    kwargs = {}
    for r, (kwname, _, _) in spec["r"].items():
        if kwname is not None:
            kwargs[kwname] = w.arr(r)
    for pn, (kwname, _) in spec["p"].items():
        v = p[pn]
        if pn == "val":
            if kop in flow.VALS_LIST:
                v = [v[c] for c in (perm if perm is not None else range(d))]
            else:
                v = v[comp if comp is not None else 0]
        if E:
            u = flow.unit(spec["p"][pn][1], E, var.get("M"))
            v = [x * u for x in v] if isinstance(v, list) else v * u
        kwargs[kwname] = v
    chg = set()
    for _ in range(var.get("rep", 1)):  # the same call again must give the same
        for r in vin:
            x = vin[r]
            b = w.bufs[r]["view"]
            if kinds[r] == "c":
                b.real[...], b.imag[...] = x[0], x[1]
            elif r in ("scr", "mid"):
                b[...] = np.nan if var.get("nan") else x
            else:
                b[...] = x
        before = {r: w.bufs[r]["parent"].tobytes() for r in kinds if r not in job["outs"] + ["scr", "mid"]}
        k(**kwargs)
        chg |= {r for r in before if w.bufs[r]["parent"].tobytes() != before[r]}
    res = {}
    for r in job["outs"]:
        b = w.bufs[r]["view"]
        if kinds[r] == "c":
            b = np.stack([b.real, b.imag])
        b = np.asarray(b, dtype=np.float64)
        if E:
            b = b / flow.unit(spec["r"][r][2], E, var.get("M"))
        if kinds[r] == "v":
            for i in range(d):
                res[f"{r}.{perm[i] if perm is not None else i}"] = b[i]
        else:
            bigk = flow.OPS[op]["r"][r][1]
            res[f"{r}.{comp}" if bigk == "v" else f"{r}.s"] = b
    if win:
        res = {f"{r}@{var['win']}": inner(job, win, x) for r, x in res.items()}
    elif "big" in var:
        res = {f"{r}@{i}": inner(job, n, x[(...,) + tuple(slice(o, o + m) for o, m in zip(n["o"], n["s"]))])
               for r, x in res.items() for i, n in enumerate(job["wins"])}
    return res, sorted(chg)


def inner(job, win, x):
    """The cells of a window out of reach of its cuts (not of the true ends of the grid)."""
    cut = []
    for o, n, N in zip(win["o"], win["s"], job["sh"]):
        cut.append(slice(0 if o == 0 else job["reach"], n if o + n == N else n - job["reach"]))
    return x[(...,) + tuple(cut)]


def main():
    jobs = json.load(open(sys.argv[1]))
    out = []
    for job in jobs:
        ins, p = inputs(job)
        evs, scale = [], None
        for var in job["variants"]:
            conf = "/".join(f"{k}={var[k]}" for k in sorted(var))
            try:
                (res, chg), err = run_variant(job, var, ins, p), ""
            except Exception as e:  # noqa
                chg, res, err = [], {"-": np.zeros(1)}, type(e).__name__
            if scale is None and not err:
                m = max(np.nanmax(np.abs(v)) for v in res.values())
                scale = 1.0e9 / (m if np.isfinite(m) and m > 0 else 1.0)
            for key, v in res.items():
                q = np.rint(v.reshape(-1) * (scale or 1.0))
                ok = np.isfinite(q) & (np.abs(q) < 1.04e9)
                evs.append(dict(key=key, conf=conf, err=err, chg=chg, tol=TOL[var["dt"]],
                                val=[int(x) for x in np.where(ok, q, BADV)]))
        out.append(dict(id=job["id"], ev=evs))
    tmp = sys.argv[2] + ".tmp"
    json.dump(out, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
