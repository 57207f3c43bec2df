"""Runs histories of Poisson solver and FFT calls on the real code.

usage: solve.py JOBS.json OUT.json
A history has several worlds (grid shape, precision, layout), several solver
objects, and named fields holding integers.  The record of a call holds the
projected result, the names of all fields that changed and whether memory
outside of the fields changed; additionally every result is recorded as an
observation of what was computed (key -> value), whatever the configuration.
Nothing here knows what the solvers should compute.
"""
import json
import os
import sys
from fractions import Fraction

import numpy as np

np.seterr(all="ignore")
import pyfftw  # noqa: E402
import sopht.numeric.eulerian_grid_ops as G  # noqa: E402
from sopht.numeric.eulerian_grid_ops.poisson_solver_2d import scipy_fft_2d as s2  # noqa: E402
from sopht.numeric.eulerian_grid_ops.poisson_solver_3d import scipy_fft_3d as s3  # noqa: E402

BAD = 2147483001
RT = {"f32": np.float32, "f64": np.float64}
CT = {"f32": np.complex64, "f64": np.complex128}


def ints(a, scale):
    a = np.asarray(a, dtype=np.float64).reshape(-1) * scale
    r = np.rint(a)
    ok = np.isfinite(a) & (np.abs(r) < 2.0 ** 30.9)
    return [int(x) for x in np.where(ok, r, BAD)]


def cints(a, scale):
    return ints(a.real, scale) + ints(a.imag, scale)


class World:
    def __init__(self, w, rng):
        self.sh, self.dt, self.lay = tuple(w["sh"]), w["dt"], w.get("lay", "block")
        self.f = {}
        for n, kind in w["fields"].items():
            shape, dt = self.sh, RT[self.dt]
            if kind == "v":
                shape = (len(self.sh),) + self.sh
            if kind in ("h", "hh"):
                shape, dt = self.sh[:-1] + (self.sh[-1] // 2 + 1,), CT[self.dt]
            lay = "aligned" if w.get("fft") else "block" if n in w.get("block", ()) else self.lay
            if lay == "aligned":
                parent = pyfftw.empty_aligned(shape, dtype=dt)
                view = parent
            elif lay == "block":
                parent = np.empty(int(np.prod(shape)) + 6, dtype=dt)
                view = parent[3:-3].reshape(shape)
            elif lay == "view":
                lo, hi = [1] * len(shape), [2] * len(shape)
                if kind == "v":
                    lo[0], hi[0] = 0, 1
                parent = np.empty([s + a + c for s, a, c in zip(shape, lo, hi)], dtype=dt)
                view = parent[tuple(slice(a, a + s) for s, a in zip(shape, lo))]
            elif lay == "step":
                parent = np.empty(list(shape[:-1]) + [2 * shape[-1] + 1], dtype=dt)
                view = parent[..., 1::2]
            else:
                parent = np.empty(list(shape[:-2]) + [shape[-1], shape[-2]], dtype=dt)
                view = np.swapaxes(parent, -1, -2)
            parent.reshape(-1)[...] = (np.arange(parent.size) % 251 + 0.5)
            self.f[n] = (kind, parent, view)


def draw(rng, shape, init):
    pat, r = init.get("pat", "rand"), init.get("r", 9)
    if pat == "rand":
        v = rng.randint(-r, r + 1, size=shape)
    elif pat == "pos":
        v = rng.randint(1, r + 1, size=shape)
    elif pat == "const":
        v = np.full(shape, init["c"])
    elif pat == "impulse":
        v = np.zeros(shape, dtype=int)
        v.reshape(-1)[init["at"] % v.size] = init.get("c", 1)
    elif pat == "corners":
        v = np.zeros(shape, dtype=int)
        for k in np.ndindex(*(2,) * len(shape)):
            v[tuple(-1 if x else 0 for x in k)] = rng.randint(-r, r + 1)
    elif pat == "sparse":
        v = rng.randint(-r, r + 1, size=shape) * (rng.randint(0, 6, size=shape) == 0)
    elif pat == "seq":
        v = np.array(init["vals"]).reshape(shape)
    else:
        raise SystemExit("pattern " + pat)
    return v.astype(np.int64)


def hermitian(rng, sh, init):
    """Integer half spectrum of a real field."""
    full = np.zeros(sh, dtype=complex)
    n = int(np.prod(sh))
    for _ in range(init.get("m", 3)):
        k = tuple(rng.randint(0, s) for s in sh)
        z = complex(rng.randint(-init.get("r", 5), init.get("r", 5) + 1), rng.randint(-init.get("r", 5), init.get("r", 5) + 1))
        mk = tuple((-a) % s for a, s in zip(k, sh))
        if mk == k:
            z = complex(z.real, 0)
        full[k], full[mk] = z, np.conj(z)
    if init.get("m") == 0:  # all modes
        for q in range(n):
            k = np.unravel_index(q, sh)
            mk = tuple((-a) % s for a, s in zip(k, sh))
            z = complex(rng.randint(-5, 6), rng.randint(-5, 6))
            if mk == k:
                z = complex(z.real, 0)
            full[k], full[mk] = z, np.conj(z)
    return full[..., : sh[-1] // 2 + 1]


def run_win(job):
    """Free space: on a large grid, sources within a window give in that window what
    they give on a grid that is the window."""
    rng = np.random.RandomState(job["seed"])
    d, rt, big = len(job["sh"]), RT[job["dt"]], tuple(job["sh"])
    dx = Fraction(job["u"]["m"], job["u"]["n"]) * Fraction(2) ** job["u"]["k"]
    eqs, scale, inst = [], {}, {}

    def solver(sh, nt):
        if (sh, nt) not in inst:
            kw = dict(grid_size_y=sh[-2], grid_size_x=sh[-1], real_t=rt)
            if d == 3:
                kw["grid_size_z"] = sh[0]
            c = G.UnboundedPoissonSolverPYFFTW2D if d == 2 else G.UnboundedPoissonSolverPYFFTW3D
            inst[sh, nt] = c(x_range=float(dx * sh[-1]), num_threads=nt, **kw)
        return inst[sh, nt]

    for i, win in enumerate(job["wins"]):
        s = tuple(win["s"])
        f = (rng.randint(-3, 4, size=s) * (rng.uniform(size=s) < win["p"])).astype(rt)
        sl = tuple(slice(o, o + n) for o, n in zip(win["o"], s))
        F = np.zeros(big, dtype=rt)
        F[sl] = f
        for sh, x, crop, nt in ((s, f, (), 1), (big, F, sl, win["nt"])):
            err, u, x0 = "", np.full(sh, np.nan, dtype=rt), x.copy()
            try:
                solver(sh, nt).solve(solution_field=u, rhs_field=x)
            except Exception as e:  # noqa
                err = type(e).__name__
            v = np.asarray(u[crop] if crop else u, dtype=float).reshape(-1) / float(dx * dx)
            if i not in scale:
                m = max(np.nanmax(np.abs(v)) if np.isfinite(v).any() else 1.0, 1.0)
                scale[i] = 2.0 ** 29 / m
            eqs.append(dict(key=f"window {i}", conf=f"grid {sh}/{job['dt']}/nt{nt}", err=err, tol=2 if job["dt"] == "f64" else 6000,
                            chg=[] if (x == x0).all() else ["rhs"], val=ints(v, scale[i])))
    return dict(hist=dict(id=job["id"], mem={"-": []}, ev=[]), eq=dict(id=job["id"], ev=eqs))


def run(job):
    if "wins" in job:
        return run_win(job)
    rng = np.random.RandomState(job["seed"])
    W = {k: World(w, rng) for k, w in job["worlds"].items()}
    F = {f"{k}.{n}": (k, *x) for k, w in W.items() for n, x in w.f.items()}
    mem = {n: [] for n, x in F.items()}
    inst, evs, eqs = {}, [], []
    scale = {}

    def snap():
        return {n: x[2].tobytes() for n, x in F.items()}

    for ev in job["ev"]:
        op = ev["op"]
        if op == "poke":
            fill = {}
            for n, init in ev["fill"].items():
                k, kind, parent, view = F[n]
                if kind == "h":
                    v = hermitian(rng, W[k].sh, init)
                    view[...] = v
                    fill[n] = cints(v, 1.0)
                elif kind == "hh" or init.get("pat") == "nan":
                    view[...] = np.nan
                    fill[n] = []
                else:
                    sh = view.shape
                    if init.get("per") and kind == "v":
                        v = np.stack([draw(rng, sh[1:], p) for p in init["per"]])
                    else:
                        v = draw(rng, sh, init)
                    view[...] = v
                    fill[n] = ints(v, 1.0)
            evs.append(dict(op="poke", fill=fill))
            continue
        w = W[ev["w"]]
        d, rt = len(w.sh), RT[w.dt]
        u = ev.get("u", dict(m=1, n=1, k=0))
        dx = Fraction(u["m"], u["n"]) * Fraction(2) ** u["k"]
        before = snap()
        err, key, outs = "", ev["inst"], []
        fin, fout = ev["in"], ev["o"]
        q = 0
        try:
            xin = np.array(F[fin][3]).reshape(-1)
            xmax = float(np.max(np.abs(xin))) if np.all(np.isfinite(xin)) else 0.0
            if key not in inst:
                nt = ev.get("nt", 1)
                kw = dict(grid_size_y=w.sh[-2], grid_size_x=w.sh[-1], real_t=rt)
                if d == 3:
                    kw["grid_size_z"] = w.sh[0]
                if op.startswith("unb"):
                    c = G.UnboundedPoissonSolverPYFFTW2D if d == 2 else G.UnboundedPoissonSolverPYFFTW3D
                    inst[key] = c(x_range=float(dx * w.sh[-1]), num_threads=nt, **kw)
                elif op.startswith("fd"):
                    c = G.FastDiagPoissonSolver2D if d == 2 else G.FastDiagPoissonSolver3D
                    inst[key] = c(dx=rt(float(dx)), **kw)
                else:
                    c = G.FFTPyFFTW2D if d == 2 else G.FFTPyFFTW3D
                    inst[key] = c(num_threads=nt, **kw)
            s = inst[key]
            x, y = F[fin][3], F[fout][3]
            if op in ("unb", "fd"):
                s.solve(solution_field=y, rhs_field=x)
            elif op in ("unb_v", "fd_v"):
                s.vector_field_solve(solution_vector_field=y, rhs_vector_field=x)
            elif op == "rfft":
                s.fft_plan(input_array=x, output_array=y)
            elif op == "irfft":
                s.ifft_plan(input_array=x, output_array=y)
            elif op == "pair":
                s.fft_ifft_plan_kernel(fourier_field=F[ev["tmp"]][3], inv_fourier_field=y, field=x)
            elif op in ("scipy_f", "scipy_b"):
                fn = s2.fft_ifft_via_scipy_kernel_2d if d == 2 else s3.fft_ifft_via_scipy_kernel_3d
                a, b = (y, F[ev["tmp"]][3]) if op == "scipy_f" else (F[ev["tmp"]][3], y)
                fn(fourier_field=a, inv_fourier_field=b, field=x, num_threads=ev.get("nt", 1))
        except Exception as e:  # noqa
            err = type(e).__name__
        after = snap()
        changed, guard = [], True
        for n, x in F.items():
            if before[n] != after[n]:
                _, kind, parent, view = x
                old = np.frombuffer(before[n], dtype=parent.dtype).reshape(parent.shape)
                it = parent.itemsize
                off = (view.__array_interface__["data"][0] - parent.__array_interface__["data"][0]) // it
                idx = np.full(view.shape, off)
                for a, st in enumerate(view.strides):
                    idx = idx + (np.arange(view.shape[a]) * (st // it)).reshape([-1 if b == a else 1 for b in range(view.ndim)])
                mask = np.ones(parent.size, dtype=bool)
                mask[idx.reshape(-1)] = False
                if old.reshape(-1)[mask].tobytes() != parent.reshape(-1)[mask].tobytes():
                    guard = False
                if old.reshape(-1)[idx.reshape(-1)].tobytes() != parent.reshape(-1)[idx.reshape(-1)].tobytes():
                    changed.append(n)
        y = F[fout][3]
        N = int(np.prod(w.sh))
        nin = N
        if op in ("unb", "unb_v", "fd", "fd_v"):
            v = np.asarray(y, dtype=np.float64) / float(dx * dx)
            sc = 2.0 ** 20
            if op.startswith("fd"):
                m = np.nanmax(np.abs(v)) if v.size else 0.0
                q = int(min(24, 27 - np.ceil(np.log2(m)))) if np.isfinite(m) and m > 0 else 20
                xs = np.abs(xin.reshape(1 if op == "fd" else d, -1).astype(float))
                q = int(min(q, 30 - np.ceil(np.log2(max(4 * xmax, np.max(xs.sum(1)), 1)))))
                q = max(q, 0)
                sc = 2.0 ** q
            comps = [v] if op in ("unb", "fd") else list(v)
            outs = [ints(c, sc) for c in comps]
            obs = [c.reshape(-1) for c in comps]
        elif op in ("rfft", "scipy_f"):
            outs = [cints(y, 2.0 ** 20)]
            obs = [np.concatenate([y.real.reshape(-1), y.imag.reshape(-1)]).astype(float)]
        elif op == "irfft":
            outs = [ints(y, 2.0 ** 20 * N)]
            nin = 2 * int(np.prod(w.sh[:-1])) * (w.sh[-1] // 2 + 1)
            obs = [np.asarray(y, dtype=float).reshape(-1)]
        else:
            outs = [ints(y, 2.0 ** 16)]
            obs = [np.asarray(y, dtype=float).reshape(-1)]
        fine = []
        if w.dt == "f64" and not err and op in ("unb", "rfft", "scipy_f") and 0 < np.sum(np.abs(xin)) <= 4 and (op != "unb" or d == 3 or abs(u["k"]) <= 5):
            fine = ints(v, 2.0 ** (28 if d == 2 else 32)) if op == "unb" else cints(y, 2.0 ** 28)
        evs.append(dict(op=op, inst=key, fine=fine, sh=list(w.sh), u=u, o=fout, nin=nin, q=2 ** q, f32=w.dt == "f32",
                        changed=changed, allowed=[fout] + ev.get("scr", []), guard=guard, err=err, out=outs, **{"in": fin}))
        if ev.get("key"):
            conf = f"{key}/{ev['w']}/{w.dt}/nt{ev.get('nt', 1)}/{w.lay}/#{len(evs)}"
            for c, v in enumerate(obs):
                kk = ev["key"][c] if isinstance(ev["key"], list) else ev["key"]
                if kk not in scale:
                    m = np.max(np.abs(v)) if v.size and np.all(np.isfinite(v)) else 0.0
                    m = max(m, xmax)
                    scale[kk] = 2.0 ** 29 / m if m > 0 else 1.0
                eqs.append(dict(key=kk, conf=conf, err=err, tol=2 if w.dt == "f64" else 6000, val=ints(v, scale[kk])))
    return dict(hist=dict(id=job["id"], mem=mem, ev=evs), eq=dict(id=job["id"], ev=eqs))


def main():
    jobs = json.load(open(sys.argv[1]))
    res = [run(j) for j in jobs]
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
