"""Many nodes at once against the same nodes in small groups, on the real code.

usage: parts.py JOBS.json OUT.json
Job: kind com, vbf or bbf; d, dt, sh, n nodes, groups of at most `part` nodes.
What a node gets does not depend on the other nodes, and what the grid gets is
the sum over the groups: both runs are recorded under the same keys."""
import json
import os
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numbastub  # noqa
from sopht.numeric.immersed_boundary_ops import (  # noqa: E402
    EulerianLagrangianGridCommunicator2D, EulerianLagrangianGridCommunicator3D, VirtualBoundaryForcing)
from sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing import BrinkmannBoundaryForcing  # noqa: E402

RT = {"f32": np.float32, "f64": np.float64}
TOL = {"f64": 4, "f32": 12000}
BADV = 1100000000


def com(job, rt, groups, X, Xn, Vn, E, dx):
    d, sh, n = job["d"], tuple(job["sh"]), X.shape[1]
    C = EulerianLagrangianGridCommunicator2D if d == 2 else EulerianLagrangianGridCommunicator3D
    dist, wts, idx = np.zeros((d,) + (4,) * d + (n,)), np.zeros((4,) * d + (n,)), np.zeros((d, n))
    ls, lv = np.zeros(n), np.zeros((d, n))
    es, ev = np.zeros(sh, dtype=rt), np.zeros((d,) + sh, dtype=rt)
    for g in groups:
        m = len(g)
        kw = dict(dx=rt(dx), eul_grid_coord_shift=rt(dx / 2), num_lag_nodes=m, interp_kernel_width=2, real_t=rt,
                  interp_kernel_type=job["type"])
        c1, cd = C(n_components=1, **kw), C(n_components=d, **kw)
        s, i, w = np.zeros((d,) + (4,) * d + (m,), dtype=rt), np.zeros((d, m), dtype=int), np.zeros((4,) * d + (m,), dtype=rt)
        c1.local_eulerian_grid_support_of_lagrangian_grid_kernel(
            local_eul_grid_support_of_lag_grid=s, nearest_eul_grid_index_to_lag_grid=i, lag_positions=X[:, g].copy())
        dist[..., g], idx[:, g] = s, i
        c1.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=s)
        wts[..., g] = w
        a, b = np.zeros(m, dtype=rt), np.zeros((d, m), dtype=rt)
        o = dict(interp_weights=w, nearest_eul_grid_index_to_lag_grid=i)
        c1.eulerian_to_lagrangian_grid_interpolation_kernel(lag_grid_field=a, eul_grid_field=E[0], **o)
        cd.eulerian_to_lagrangian_grid_interpolation_kernel(lag_grid_field=b, eul_grid_field=E, **o)
        ls[g], lv[:, g] = a, b
        c1.lagrangian_to_eulerian_grid_interpolation_kernel(eul_grid_field=es, lag_grid_field=Vn[0][g].copy(), **o)
        cd.lagrangian_to_eulerian_grid_interpolation_kernel(eul_grid_field=ev, lag_grid_field=Vn[:, g].copy(), **o)
    pick = job["pick"]
    return dict(distances=dist[..., pick] / dx, weights=wts[..., pick] * dx ** d, cells=idx, interpolated=ls, interpolated_v=lv,
                spread=sample(job, es) * dx ** d, spread_v=sample(job, ev) * dx ** d)


def sample(job, f):
    """A region of the grid, to keep the records short."""
    return np.asarray(f, dtype=float)[(...,) + tuple(slice(a, b) for a, b in job["region"])]


def force(job, rt, groups, X, Xn, Vn, E, dx):
    d, sh, n = job["d"], tuple(job["sh"]), X.shape[1]
    obs = []
    for g in groups:
        if job["kind"] == "vbf":
            obs.append(VirtualBoundaryForcing(virtual_boundary_stiffness_coeff=-3.0, virtual_boundary_damping_coeff=-0.7, grid_dim=d, dx=rt(dx),
                                              num_lag_nodes=len(g), real_t=rt, enable_eul_grid_forcing_reset=False))
        else:
            obs.append(BrinkmannBoundaryForcing(brinkmann_coeff=7.0, grid_dim=d, dx=rt(dx), eul_grid_coord_shift=rt(dx / 2),
                                                num_lag_nodes=len(g), interp_kernel_width=2, real_t=rt, enable_eul_grid_flux_reset=False))
    out = {}
    eul = np.zeros((d,) + sh, dtype=rt)
    for r, pos in enumerate((X, Xn)):
        frc, pm = np.zeros((d, n)), np.zeros((d, n))
        for g, ob in zip(groups, obs):
            kw = dict(eul_grid_velocity_field=E, lag_grid_position_field=pos[:, g].copy(), lag_grid_velocity_field=Vn[:, g].copy())
            if job["kind"] == "vbf":
                ob.compute_interaction_forcing(eul_grid_forcing_field=eul, **kw)
                ob.time_step(0.25)
                frc[:, g], pm[:, g] = ob.lag_grid_forcing_field, ob.lag_grid_position_mismatch_field
            else:
                ob.compute_interaction_forcing(eul, dt=0.1 * (r + 1), **kw)
                frc[:, g], pm[:, g] = ob.lag_grid_penalisation_flux, ob.lag_grid_penalised_velocity_field
        out[f"nodes {r}"], out[f"state {r}"], out[f"grid {r}"] = frc, pm, sample(job, eul)
    return out


def run(job):
    rng = np.random.RandomState(job["seed"])
    d, sh, n, rt, dx = job["d"], job["sh"], job["n"], RT[job["dt"]], job["dx"]
    hi = np.array(sh[::-1]).reshape(d, 1)  # positions are x, y, z

    def place():
        x = rng.uniform(2.0, 1.0 * hi - 3.0, size=(d, n))
        return ((np.floor(x) + rng.uniform(0.05, 0.95, size=(d, n)) + 0.5) * dx).astype(rt)
    X, Xn = place(), place()
    Vn = rng.uniform(-1, 1, size=(d, n)).astype(rt)
    E = rng.uniform(-1, 1, size=[d] + sh).astype(rt)
    small = [list(range(i, min(n, i + job["part"]))) for i in range(0, n, job["part"])]
    evs, scale = [], {}
    for conf, groups in (("in groups", small), (f"all {n} nodes", [list(range(n))])):
        ins = [x.copy() for x in (X, Xn, Vn, E)]
        err = ""
        try:
            res = (com if job["kind"] == "com" else force)(job, rt, groups, *ins, dx)
        except Exception as e:  # noqa
            err, res = type(e).__name__, {"-": np.zeros(1)}
        chg = [] if all((a == b).all() for a, b in zip(ins, (X, Xn, Vn, E))) else ["an input"]
        for k, v in res.items():
            v = np.asarray(v, dtype=float).reshape(-1)
            if k not in scale:
                m = np.nanmax(np.abs(v)) if v.size and np.isfinite(v).any() else 0.0
                scale[k] = 1.0 if k == "cells" else 2.0 ** 29 / (m if m > 0 else 1.0)
            q = np.rint(v * scale[k])
            ok = np.isfinite(q) & (np.abs(q) < 1.04e9)
            evs.append(dict(key=k, conf=conf, err=err, chg=chg, tol=0 if k == "cells" else TOL[job["dt"]] * 8, val=[int(x) for x in np.where(ok, q, BADV)]))
    return dict(id=job["id"], ev=evs)


def main():
    jobs = json.load(open(sys.argv[1]))
    res = [run(j) for j in jobs]
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
