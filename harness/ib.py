"""Runs histories of Eulerian-Lagrangian communicator calls on the real code.

usage: ib.py JOBS.json OUT.json
Records, for every call, the projected results and the names of all arrays
that changed.  Nothing here knows what the communicators should compute.
"""
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numbastub  # noqa
from sopht.numeric.immersed_boundary_ops import (  # noqa: E402
    EulerianLagrangianGridCommunicator2D, EulerianLagrangianGridCommunicator3D)

np.seterr(all="ignore")
BAD = 2147483001
RT = {"f32": np.float32, "f64": np.float64}
EPS = {"f32": 2.0 ** -23, "f64": 2.0 ** -52}


def ints(a, scale=1.0, exact=False):
    a = np.asarray(a, dtype=np.float64) * scale
    r = np.rint(a)
    ok = np.isfinite(a) & (np.abs(r) < 2.0 ** 30.9)
    if exact:
        ok &= np.abs(a - r) < exact
    return np.where(ok, r, BAD).astype(np.int64)


def make(shape, dt, lay):
    if lay == "block":
        p = np.empty(int(np.prod(shape)) + 6, dtype=dt)
        p[...] = np.arange(p.size) % 97
        return p, p[3:-3].reshape(shape)
    p = np.empty(list(shape[:-1]) + [2 * shape[-1] + 1], dtype=dt)
    p.reshape(-1)[...] = np.arange(p.size) % 97
    return p, p[..., 1::2]


def run(job):
    rng = np.random.RandomState(job["seed"])
    sh, d, dt, n = tuple(job["sh"]), len(job["sh"]), job["dt"], job["n"]
    rt = RT[dt]
    dx, shift = job["dx"], job["shift"]
    if job.get("dxt"):  # parameters in the precision of the fields
        dx, shift = rt(dx), rt(shift)
    ns = 4 ** d
    lay = job.get("lay", "block")
    F = {}
    for nm, shape, t in [("pos", (d, n), rt), ("sup", (d,) + (4,) * d + (n,), rt), ("wt", (4,) * d + (n,), rt), ("idx", (d, n), int),
                         ("e1", sh, rt), ("e2", sh, rt), ("ev", (d,) + sh, rt), ("l1", (n,), rt), ("l2", (n,), rt), ("lv", (d, n), rt)]:
        F[nm] = make(shape, t, "block" if nm in ("sup", "wt", "idx") else lay)
    # units of the fields on the grid, of the weights, of the fields on the nodes
    fu, wu = job.get("FU", 1.0), job.get("WU", 1.0)
    unit = dict(e1=fu, e2=fu, ev=fu, wt=wu, l1=fu / wu, l2=fu / wu, lv=fu / wu)
    com = {}
    mem = {k: [] for k in F}
    evs = []
    C = EulerianLagrangianGridCommunicator2D if d == 2 else EulerianLagrangianGridCommunicator3D

    def communicator(nc, ty):
        if (nc, ty) not in com:
            kw = {} if ty == "cosine" and job["seed"] % 2 else dict(interp_kernel_type=ty)
            com[nc, ty] = C(dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n, interp_kernel_width=2, real_t=rt, n_components=nc, **kw)
        return com[nc, ty]

    def snap():
        return {k: p.tobytes() for k, (p, v) in F.items()}

    for ev in job["ev"]:
        op = ev["op"]
        A = {k: v for k, (p, v) in F.items()}
        if op == "poke":
            fill = {}
            for nm, init in ev["fill"].items():
                v = A[nm]
                if init == "nan":
                    v[...] = np.nan
                    fill[nm] = []
                else:
                    if init["pat"] == "rand":
                        x = rng.randint(-init["r"], init["r"] + 1, size=v.shape)
                    elif init["pat"] == "const":
                        x = np.full(v.shape, init["c"])
                    elif init["pat"] == "impulse":
                        x = np.zeros(v.shape, dtype=int)
                        x.reshape(-1)[rng.randint(x.size)] = init["c"]
                    else:
                        x = np.array(init["vals"]).reshape(v.shape)
                    v[...] = x * unit.get(nm, 1)
                    fill[nm] = [int(y) for y in x.reshape(-1)]
            evs.append(dict(op="poke", fill=fill))
            continue
        rec = dict(op=op, err="", bad=False, type=ev.get("type", "cosine"), vec=bool(ev.get("vec")), n=n)
        before = None
        try:
            if op in ("support", "support_any"):
                if op == "support":
                    pos = np.array([[(nd["c"][a] + nd["k"][a] / 24) * float(dx) + float(shift) for nd in ev["nodes"]] for a in range(d)])
                    rec["nodes"] = ev["nodes"]
                else:
                    pos = np.array(ev["cells"]).T * float(dx) + float(shift)
                A["pos"][...] = pos
                A["sup"][...] = np.nan
                A["idx"][...] = -99
                c = communicator(ev.get("nc", 1), ev.get("type", "cosine"))
                before = snap()
                c.local_eulerian_grid_support_of_lagrangian_grid_kernel(
                    local_eul_grid_support_of_lag_grid=A["sup"], nearest_eul_grid_index_to_lag_grid=A["idx"], lag_positions=A["pos"])
                rec["allowed"] = ["sup", "idx"]
                rec["idx"] = [[int(A["idx"][a, i]) for a in range(d)] for i in range(n)]
                sc = 24 * 2.0 ** 22 if op == "support" else 2.0 ** 28
                ds = ints(np.asarray(A["sup"], dtype=np.float64) / float(dx), sc)
                rec["dist"] = [[[int(x) for x in ds[a].reshape(ns, n)[:, i]] for a in range(d)] for i in range(n)]
                far = max(1.0, float(np.max(np.abs(pos))) / float(dx))
                rec["dtol"] = 1 + int(min(2.0 ** 27, sc * 8 * EPS[dt] * far))
                derr = 8 * EPS[dt] * far
                if op == "support_any":
                    x = (np.asarray(A["pos"], dtype=np.float64) - float(shift)) / float(dx)
                    cq = np.floor(x)
                    pq = ints(x - cq, 2.0 ** 28)
                    rec["cell"] = [[int(cq[a, i]) for a in range(d)] for i in range(n)]
                    rec["frac"] = [[int(pq[a, i]) for a in range(d)] for i in range(n)]
                last = rec
                rec["bad"] = bool(np.any(ds == BAD))
            elif op in ("weights", "weights_any"):
                A["wt"][...] = np.nan
                c = communicator(ev.get("nc", 1), ev.get("type", "cosine"))
                before = snap()
                c.interpolation_weights_kernel(interp_weights=A["wt"], local_eul_grid_support_of_lag_grid=A["sup"])
                rec["allowed"] = ["sup", "wt"]
                q = 2.0 ** (30 + d) if op == "weights" else 2.0 ** 28
                w = ints(np.asarray(A["wt"], dtype=np.float64) * float(dx) ** d, q)
                rec["w"] = [[int(x) for x in w.reshape(ns, n)[:, i]] for i in range(n)]
                # error of the distances times the slope of the kernel
                # (the specification of "weights_any" starts from the recorded distances)
                err = derr if op == "weights" else last["dtol"] / 2.0 ** 28
                rec["wtol"] = (3 if op == "weights" else 4) + int(min(2.0 ** 24, q * (2 * err + 16 * EPS[dt])))
                rec["nodes"] = last.get("nodes", [])
                rec["dist"] = last["dist"]
                rec["bad"] = bool(np.any(w == BAD))
            else:
                vec = bool(ev.get("vec"))
                c = communicator(d if vec else 1, ev.get("type", "cosine"))
                kw = dict(lag_grid_field=A[ev["lag"]], eul_grid_field=A[ev["eul"]], interp_weights=A["wt"], nearest_eul_grid_index_to_lag_grid=A["idx"])
                # what rounding may leave: sums of up to 64 products
                el = np.max(np.abs(A[ev["eul"]])) / fu, np.max(np.abs(A[ev["lag"]])) / (fu / wu), np.max(np.abs(A["wt"])) / wu
                mag = 64 * (1 + float(np.nan_to_num(el[0])) + float(np.nan_to_num(el[1]))) * float(el[2] + 1)
                xt = min(1e-3, 2.0 ** -46 * mag) if dt == "f64" else 1e-3
                before = snap()
                if op == "interp":
                    c.eulerian_to_lagrangian_grid_interpolation_kernel(**kw)
                    o = ev["lag"]
                    x = ints(np.asarray(A[o], dtype=np.float64) / float(dx) ** d / (fu * wu), 1.0, exact=xt)
                    # continue with the integers
                    res = x.reshape(-1)
                else:
                    c.lagrangian_to_eulerian_grid_interpolation_kernel(**kw)
                    o = ev["eul"]
                    x = ints(np.asarray(A[o], dtype=np.float64) / fu, 1.0, exact=xt)
                    res = x.reshape(-1)
                rec.update(allowed=[o], o=o, out=[int(y) for y in res], eul=ev["eul"], lag=ev["lag"], w="wt", idx="idx")
                rec["bad"] = bool(np.any(x == BAD))
        except Exception as e:  # noqa
            rec["err"] = type(e).__name__
            rec.setdefault("allowed", [])
        after = snap()
        before = before or after
        rec["changed"] = [k for k in F if before[k] != after[k] and not outside(F[k], before[k], rec)]
        if op == "interp" and not rec["err"] and not rec["bad"]:
            A[rec["o"]][...] = x * unit[rec["o"]]
        evs.append(rec)
    return dict(id=job["id"], sh=list(sh), mem=mem, ev=evs)


def outside(f, old, rec):
    """Changed outside of the view only: reported under another name."""
    p, v = f
    o = np.frombuffer(old, dtype=p.dtype).reshape(-1)
    it = p.itemsize
    off = (v.__array_interface__["data"][0] - p.__array_interface__["data"][0]) // it
    idx = np.full(v.shape, off)
    for a, st in enumerate(v.strides):
        idx = idx + (np.arange(v.shape[a]) * (st // it)).reshape([-1 if b == a else 1 for b in range(v.ndim)])
    m = np.ones(p.size, dtype=bool)
    m[idx.reshape(-1)] = False
    if o[m].tobytes() != p.reshape(-1)[m].tobytes():
        rec["err"] = rec["err"] or "memory outside the arrays changed"
    return o[~m].tobytes() == p.reshape(-1)[~m].tobytes()


def main():
    jobs = json.load(open(sys.argv[1]))
    res = [run(j) for j in jobs]
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
