"""Runs histories of virtual boundary / Brinkmann forcing objects on the real
code and records the projected arrays and clocks after every call, and the
names of all arrays that changed.  Nothing here knows what they should be.

usage: force.py JOBS.json OUT.json
"""
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numbastub  # noqa
from ib import BAD, RT, ints, make  # noqa: E402
from sopht.numeric.immersed_boundary_ops import BrinkmannBoundaryForcing, VirtualBoundaryForcing  # noqa: E402

np.seterr(all="ignore")
Q16 = 65536.0
ATTR = dict(
    vbf=dict(pm="lag_grid_position_mismatch_field", vm="lag_grid_velocity_mismatch_field",
             frc="lag_grid_forcing_field", flow="lag_grid_flow_velocity_field"),
    bbf=dict(flow="lag_grid_flow_velocity_field", pen="lag_grid_penalised_velocity_field",
             flux="lag_grid_penalisation_flux", frc="lag_grid_penalisation_forcing"))


def flat(a):
    return [int(x) for x in np.asarray(a).reshape(-1)]


def run(job):
    rng = np.random.RandomState(job["seed"])
    sh, d, dt = tuple(job["sh"]), len(job["sh"]), job["dt"]
    rt = RT[dt]
    dx, shift = job["dx"], job["shift"]
    dxp = rt(dx) if job.get("dxt") else dx
    bodies = job["bodies"]  # name -> number of nodes
    kind = job["kind"]
    vol = dx ** d
    # units of time, velocity and stiffness: powers of two, in fine jobs (double precision,
    # nodes on grid points, everything is exact up to rounding) any numbers
    fine = bool(job.get("fine"))
    tu, vu, ku = (2.0 ** job.get(k, 0) * job.get(k + "m", 1.0) for k in ("TU", "VU", "KU"))
    unit = dict(pm=vu * tu, vm=vu, flow=vu, pen=vu, flux=vu, frc=ku * vu * tu if kind == "vbf" else vu / tu)
    F = {}
    for nm in ("U1", "U2", "E1", "E2"):
        F[nm] = make((d,) + sh, rt, job["lay"])
    for nm, n in bodies.items():
        F[nm + ".x"] = make((d, n), rt, job["lay"])
        F[nm + ".v"] = make((d, n), rt, job["lay"])
    objs = {}
    escale = vol / unit["frc"] if kind == "vbf" else 1.0 / vu

    def snap(skip=None):
        s = {(k, ""): p.tobytes() for k, (p, v) in F.items()}
        for o, (ob, kd, n) in objs.items():
            for a, attr in ATTR[kd].items():
                s[(o, a)] = np.asarray(getattr(ob, attr)).tobytes()
            s[(o, "time")] = repr(float(ob.time)) if kd == "vbf" else ""
        return s

    def obs(o, dtp=None):
        ob, kd, n = objs[o]
        r = {}
        bad = False
        fracs = []
        for a, attr in ATTR[kd].items():
            x = np.asarray(getattr(ob, attr), dtype=np.float64)
            if kd == "bbf" and a == "frc":
                x = x / vol
            q = ints(x / unit[a], Q16)
            bad |= bool(np.any(q == BAD)) or x.shape != (d, n)
            r[a] = flat(q)
            if fine and not np.all(np.abs(x / unit[a] * Q16 - q) < 1e-4):
                fracs.append(a)
        return r, bad, fracs

    def clock(o):
        ob, kd, n = objs[o]
        if kd != "vbf":
            return 0
        x = float(ob.time) / tu * 1024.0
        return int(round(x)) if np.isfinite(x) and abs(x) < 2e9 and abs(x - round(x)) < (1e-6 if fine else 0.05) else BAD

    def draw(shape):
        return 2 * rng.randint(-4, 5, size=shape) if fine and d == 3 else rng.randint(-9, 10, size=shape)

    def place(nm):
        n = bodies[nm]
        nodes = []
        old = st[nm]["nodes"]
        how = rng.randint(4) if old else 3
        if how < 2:  # some coordinates of some nodes change
            nodes = [dict(c=list(x["c"]), k=list(x["k"])) for x in old]
            a = rng.randint(d)
            for i in [rng.randint(n)] if how else range(n):
                nodes[i]["c"][a] = int(rng.randint(1, sh[d - 1 - a] - 2))
                nodes[i]["k"][a] = 0 if fine else int(rng.randint(24))
        elif how == 2:  # the same places in another order
            nodes = [old[i] for i in rng.permutation(n)]
        for i in range(n - len(nodes)):
            if i and rng.rand() < 0.25:
                nodes.append(nodes[-1])
            else:
                nodes.append(dict(c=[int(rng.randint(1, sh[d - 1 - a] - 2)) for a in range(d)],
                                  k=[0 if fine else int(rng.choice([0, 12, rng.randint(24)])) for a in range(d)]))
        x = np.array([[(nd["c"][a] + nd["k"][a] / 24) * dx + shift for nd in nodes] for a in range(d)])
        F[nm + ".x"][1][...] = x
        return nodes

    def vel(nm):
        v = draw((d, bodies[nm]))
        F[nm + ".v"][1][...] = v * vu
        return flat(v)

    st = {b: dict(nodes=[], v=[]) for b in bodies}
    evs = []
    for ev in job["ev"]:
        op = ev["op"]
        if op == "poke":
            rec = dict(op="poke", U={}, E={}, B={})
            w = ev["what"]
            for u in ("U1", "U2"):
                if w == "all" or (w == "U" and ev["on"] == u):
                    x = draw((d,) + sh)
                    if rng.rand() < 0.2 and not fine:
                        x[...] = np.array([3, -7, 5][:d]).reshape((d,) + (1,) * d)
                    F[u][1][...] = x * vu
                    rec["U"][u] = flat(x)
            for e in ("E1", "E2"):
                if w == "all" or (w == "E" and ev["on"] == e):
                    x = rng.randint(-40, 41, size=(d,) + sh)
                    F[e][1][...] = x / escale
                    rec["E"][e] = flat(x * 65536)
            for b in bodies:
                if w == "all" or (w in ("place", "vel") and ev["on"] == b):
                    if w in ("all", "place"):
                        st[b]["nodes"] = place(b)
                    if w in ("all", "vel"):
                        st[b]["v"] = vel(b)
                    rec["B"][b] = dict(st[b])
            evs.append(rec)
            continue
        o = ev["o"]
        rec = dict(op=op, o=o, err="", bad=False, time=0, res={}, fine=fine, fracs=[])
        new = None
        if op == "new":
            objs.pop(o, None)
        before = snap()
        try:
            if op == "new":
                n = bodies[ev["body"]]
                r = ev["reset"]
                rec.update(kind=kind, n=n, kq=ev["kq"], cq=ev["cq"], reset=r, start=ev["start8"] * 128)
                if kind == "vbf":
                    kw = {}
                    if not ev["defaults"]:
                        kw = dict(interp_kernel_width=2, start_time=ev["start8"] / 8 * tu, enable_eul_grid_forcing_reset=r, num_threads=ev["threads"] or False)
                        if shift != dx / 2:
                            kw["eul_grid_coord_shift"] = rt(shift) if job.get("dxt") else shift
                    else:
                        rec.update(start=0)
                        if not r:
                            kw["enable_eul_grid_forcing_reset"] = False
                    if shift != dx / 2:
                        kw["eul_grid_coord_shift"] = rt(shift) if job.get("dxt") else shift
                    new = VirtualBoundaryForcing(
                        virtual_boundary_stiffness_coeff=ev["kq"] / 4 * ku, virtual_boundary_damping_coeff=ev["cq"] / 4 * ku * tu,
                        grid_dim=d, dx=dxp, num_lag_nodes=n, real_t=rt, **kw)
                else:
                    kw = {}
                    if not (ev["defaults"] and r):
                        kw = dict(enable_eul_grid_flux_reset=r, num_threads=ev["threads"] or False)
                    new = BrinkmannBoundaryForcing(
                        brinkmann_coeff=ev["kq"] / 4 / tu, grid_dim=d, dx=dxp, eul_grid_coord_shift=rt(shift) if job.get("dxt") else shift,
                        num_lag_nodes=n, interp_kernel_width=2, real_t=rt, **kw)
            elif op == "step":
                x = ev["dt8"] / 8 * tu
                objs[o][0].time_step(rt(x) if job.get("dxt") else x)
                rec["dt8"] = ev["dt8"]
            else:
                ob, kd, n = objs[o]
                b, u, e = ev["body"], ev["U"], ev["E"]
                how = ev["how"]
                rec.update(U=u, E=e, B=b, how=how, dt8=ev["dt8"])
                kw = dict(eul_grid_velocity_field=F[u][1], lag_grid_position_field=F[b + ".x"][1], lag_grid_velocity_field=F[b + ".v"][1])
                if kd == "vbf":
                    if how == "lag":
                        ob.compute_interaction_force_on_lag_grid(**kw)
                    else:
                        f = dict(default=lambda: ob.compute_interaction_forcing,
                                 reset=lambda: ob.compute_interaction_force_on_eul_and_lag_grid_with_eul_grid_forcing_reset,
                                 noreset=lambda: ob.compute_interaction_force_on_eul_and_lag_grid)[how]()
                        f(eul_grid_forcing_field=F[e][1], **kw)
                else:
                    f = dict(default=lambda: ob.compute_interaction_forcing,
                             reset=lambda: ob.compute_interaction_with_eul_grid_flux_reset,
                             noreset=lambda: ob.compute_interaction_without_eul_grid_flux_reset)[how]()
                    x = ev["dt8"] / 8 * tu
                    f(eul_grid_penalisation_flux=F[e][1], dt=rt(x) if job.get("dxt") else x, **kw)
        except Exception as ex:  # noqa
            rec["err"] = type(ex).__name__
        after = snap()
        # the clock is judged by value
        rec["changed"] = [list(k) for k in after if before.get(k) != after[k] and not (op == "step" and k == (o, "time"))]
        if new is not None:
            objs[o] = (new, kind, bodies[ev["body"]])
        if o in objs:
            rec["res"], rec["bad"], rec["fracs"] = obs(o)
            rec["time"] = clock(o)
        if op == "interact":
            x = ints(np.asarray(F[ev["E"]][1], dtype=np.float64) * escale, Q16)
            rec["E16"] = flat(x)
            if fine and not np.all(np.abs(np.asarray(F[ev["E"]][1], dtype=np.float64) * escale * Q16 - x) < 1e-3):
                rec["fracs"].append("E")
            rec["bad"] |= bool(np.any(x == BAD))
        evs.append(rec)
    return dict(id=job["id"], sh=list(sh), ev=evs)


def main():
    jobs = json.load(open(sys.argv[1]))
    res = [run(j) for j in jobs]
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
