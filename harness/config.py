"""Builds and calls the real kernels, solvers and classes with valid and
invalid options and arguments, and records whether each was refused and which
arrays changed.  Nothing here knows which of them should be refused.

usage: config.py JOBS.json OUT.json
"""
import json
import os
import sys

import numpy as np

np.seterr(all="ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numbastub  # noqa
import flow  # noqa: E402
import sopht.numeric.eulerian_grid_ops as G  # noqa: E402
from sopht.numeric.immersed_boundary_ops import (  # noqa: E402
    EulerianLagrangianGridCommunicator2D as C2,
    EulerianLagrangianGridCommunicator3D as C3,
    VirtualBoundaryForcing as VBF,
)
from sopht.numeric.immersed_boundary_ops.experimental.BrinkmannBoundaryForcing import BrinkmannBoundaryForcing as BBF  # noqa: E402
from sopht.utils import precision  # noqa: E402
from sopht.utils.IO import IO  # noqa: E402
from sopht.utils.pyst_kernel_config import get_pyst_dtype  # noqa: E402

# option values by name
VALUES = {
    "f32": np.float32, "f64": np.float64, "f16": np.float16, "i32": np.int32, "i64": np.int64, "c64": np.complex64, "c128": np.complex128, "u8": np.uint8, "str": "double",
    "none": None, "m1": -1, "m2": -2, "0": 0, "1": 1, "2": 2, "3": 3, "4": 4, "5": 5, "h": 0.5, "1h": 1.5, "2h": 2.5, "m1h": -1.5, "txt2": "2", "list": [1], "cos1": 1.0, "empty": "",
}


def val(x):
    return VALUES[x] if x in VALUES else x


def build_kernel(t, o):
    d = int(t[-2])
    kw = {k: val(v) for k, v in o.items()}
    sh = (6, 7, 8)[-d:]
    if kw.pop("fixed", "no") == "yes":
        kw["fixed_grid_size"] = sh
    kw["num_threads"] = {"no": False, "2": 2}[kw.pop("nt", "no")] if not isinstance(kw.get("nt"), int) else kw.pop("nt")
    name = t
    rt = kw.get("real_t")
    at = rt if rt in (np.float32, np.float64) else np.float64
    if "laplacian_filter" in t:
        kw.update(filter_flux_buffer=np.zeros(sh, at), field_buffer=np.zeros(sh, at))
        name = f"laplacian_filter_kernel_{d}d"
    elif "penalise_field_boundary" in t:
        g = np.meshgrid(*[np.arange(n).astype(at) for n in sh], indexing="ij")
        kw.update(dx=1.0, x_grid_field=np.ascontiguousarray(g[-1]), y_grid_field=np.ascontiguousarray(g[-2]))
        if d == 3:
            kw["z_grid_field"] = np.ascontiguousarray(g[0])
        name = f"penalise_field_boundary_pyst_kernel_{d}d"
    elif "ssprk3" in t:
        kw["midstep_buffer_vector_field"] = np.zeros((3,) + sh, at)
    elif "char_func" in t:
        kw["blend_width"] = 1.0
    if name == t:
        name = t[: -3] + f"_pyst_kernel_{d}d"
    return getattr(G, "gen_" + name)(**kw)


def build_class(t, o):
    kw = {k: val(v) for k, v in o.items()}
    if t in ("comm_2d", "comm_3d"):
        cls = {"comm_2d": C2.EulerianLagrangianGridCommunicator2D, "comm_3d": C3.EulerianLagrangianGridCommunicator3D}[t] if hasattr(C2, "EulerianLagrangianGridCommunicator2D") else {"comm_2d": C2, "comm_3d": C3}[t]
        dx = 0.125
        kw.setdefault("real_t", np.float64)
        kw.setdefault("interp_kernel_width", 2)
        return cls(dx=dx, eul_grid_coord_shift=kw["real_t"](dx / 2) if callable(kw["real_t"]) else dx / 2, num_lag_nodes=3, **kw)
    if t in ("vbf", "bbf"):
        if kw.get("interp_kernel_width", 2) is None:
            kw.pop("interp_kernel_width")
        kw.setdefault("grid_dim", 2)
        kw.setdefault("real_t", np.float64)
    if t == "vbf":
        cls = VBF.VirtualBoundaryForcing if hasattr(VBF, "VirtualBoundaryForcing") else VBF
        return cls(virtual_boundary_stiffness_coeff=1.0, virtual_boundary_damping_coeff=1.0, dx=0.125, num_lag_nodes=3, **kw)
    if t == "bbf":
        kw.setdefault("interp_kernel_width", 2)
        return BBF(brinkmann_coeff=1.0, dx=0.125, eul_grid_coord_shift=0.0625, num_lag_nodes=3, **kw)
    if t in ("unbounded_2d", "unbounded_3d"):
        d = int(t[-2])
        cls = getattr(G, f"UnboundedPoissonSolverPYFFTW{d}D")
        kw.update(grid_size_y=4, grid_size_x=6, **({"grid_size_z": 4} if d == 3 else {}))
        return cls(**kw)
    if t in ("fastdiag_2d", "fastdiag_3d"):
        d = int(t[-2])
        cls = getattr(G, f"FastDiagPoissonSolver{d}D")
        kw.update(grid_size_y=4, grid_size_x=6, dx=0.25, **({"grid_size_z": 4} if d == 3 else {}))
        return cls(**kw)
    if t in ("fft_2d", "fft_3d"):
        d = int(t[-2])
        cls = getattr(G, f"FFTPyFFTW{d}D")
        kw.update(grid_size_y=4, grid_size_x=6, **({"grid_size_z": 4} if d == 3 else {}))
        return cls(**kw)
    if t == "io":
        return IO(**kw)
    if t == "pyst_dtype":
        return get_pyst_dtype(**kw)
    raise SystemExit("unknown target " + t)


CLASSES = {"comm_2d", "comm_3d", "vbf", "bbf", "unbounded_2d", "unbounded_3d", "fastdiag_2d", "fastdiag_3d", "fft_2d", "fft_3d", "io", "pyst_dtype"}


def run_build(job):
    ev = []
    for t, o in job["builds"]:
        err = ""
        try:
            (build_class if t in CLASSES else build_kernel)(t, o)
        except Exception as e:  # noqa
            err = type(e).__name__
        ev.append(dict(op="build", target=t, o=o, err=err))
    return ev


# ------------------------------------------------------------------- calls
ALT = {np.float32: np.float64, np.float64: np.float32}


def tweak(shape, d, f):
    """The shape of an array with a fault."""
    s = list(shape)
    n = len(s)
    if f.startswith("long"):
        s[n - d + int(f[4])] += 1
    elif f.startswith("short"):
        s[n - d + int(f[5])] -= 1
    elif f == "fewer":
        s = s[1:] if n == d else [s[0] - 1] + s[1:]
    elif f == "more":
        s = [2] + s if n == d else [s[0] + 1] + s[1:]
    return tuple(s)


def run_call(job):
    """One kernel, called with one argument set after another."""
    op, d, dt = job["op"], job["dim"], job["dt"]
    rt = flow.RT[dt]
    sh = tuple(job["sh"])
    spec = flow.OPS[op]
    rng = np.random.RandomState(job["seed"])
    kern = {}
    ev = []

    class W:
        pass

    for args in job["calls"]:
        arrs = {}
        for r, (kwname, kind, _) in sorted(spec["r"].items()):
            f = args["faults"].get(r, "")
            base = tuple(args.get("sh", sh))
            if kind == "w":
                kind = "s" if d == 2 else "v"
            shape = ((d,) + base) if kind == "v" else base
            at = rt
            if f == "prec":
                at = ALT[rt]
            elif f == "int":
                at = np.int32 if rt is np.float32 else np.int64
            elif f:
                shape = tweak(shape, d, f)
            if kind == "c":
                at = {np.float32: np.complex64, np.float64: np.complex128}.get(at, at)
                arrs[r] = (rng.randint(-4, 5, size=shape) + (1j * rng.randint(-4, 5, size=shape) if np.dtype(at).kind == "c" else 0)).astype(at)
            else:
                arrs[r] = rng.randint(-4, 5, size=shape).astype(at)
        coord = None
        if op.startswith("pen_bound"):
            g = np.meshgrid(*[np.arange(n) for n in sh], indexing="ij")
            coord = [np.ascontiguousarray(x.astype(rt)) for x in g]
            if args["faults"].get("xg"):
                f = args["faults"]["xg"]
                coord[-1] = coord[-1].astype(ALT[rt]) if f == "prec" else np.zeros(tweak(sh, d, f), rt)
            if args["faults"].get("yg"):
                f = args["faults"]["yg"]
                coord[-2] = coord[-2].astype(ALT[rt]) if f == "prec" else np.zeros(tweak(sh, d, f), rt)
        err, built = "", True
        before = {r: a.tobytes() for r, a in arrs.items()}
        try:
            closed = op in flow.CLOSES_OVER
            key = "k"
            if closed or key not in kern:
                w = W()
                w.arr = lambda r: arrs[r]
                w.real_t = rt
                w.coord = coord
                o = dict(job["o"])
                for r, (kwname, _, _) in spec["r"].items():
                    if kwname is None:
                        o[r] = r
                built = False
                k = spec["gen"](d, dict(real_t=rt, num_threads=job["nt"], fixed_grid_size=sh if job["fx"] else False), o, w)
                built = True
                kern[key] = k
            k = kern[key]
            kwargs = {kwname: arrs[r] for r, (kwname, _, _) in spec["r"].items() if kwname is not None}
            for pn, (kwname, _) in spec["p"].items():
                v = rt(0.5) if pn != "val" else rt(1.5)
                if pn == "val" and op in flow.VALS_LIST:
                    v = [rt(1.5)] * d
                kwargs[kwname] = v
            k(**kwargs)
        except Exception as e:  # noqa
            err = type(e).__name__
        ev.append(dict(op="call", faults=args["faults"], base=list(args.get("sh", sh)), err=err, built=built,
                       changed=[r for r, a in arrs.items() if a.tobytes() != before[r]]))
    return ev


def run_names(job):
    ev = []
    for name in job["names"]:
        n = None if name == "<none>" else name
        rec = dict(op="name", name=name, err="", kind="", size=0, tol=False)
        try:
            t = precision.get_real_t() if name == "<default>" else precision.get_real_t(n)
            dt = np.dtype(t)
            rec.update(kind=dt.kind, size=dt.itemsize)
            tol = precision.get_test_tol() if name == "<default>" else precision.get_test_tol(n)
            rec["tol"] = bool(type(tol) is dt.type and tol == dt.type(1000) * np.finfo(dt).eps and abs(float(tol) - 1000 * 2.0 ** (-23 if dt.itemsize == 4 else -52)) <= 1e-6 * float(tol))
        except Exception as e:  # noqa
            rec["err"] = type(e).__name__
        ev.append(rec)
    return ev


def main():
    jobs = json.load(open(sys.argv[1]))
    res = []
    for j in jobs:
        ev = dict(build=run_build, call=run_call, names=run_names)[j["what"]](j)
        h = dict(id=j["id"], what=j["what"], ev=ev)
        if j["what"] == "call":
            h.update(kernel=j["op"], dim=j["dim"], fx=j["fx"], sh=j["sh"])
        res.append(h)
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
