"""Runs stencil-kernel histories on the real code and records them.

usage: flow.py JOBS.json OUT.json
Each job is one history: grid shape, precision, thread setting, memory layout,
named fields with their initial integer contents, and a list of events.  The
record of an event holds every field whose bytes changed (as integers, real =
integer * 2^exp), whether memory outside the fields changed, and whether the
call raised.  Nothing here knows what the kernels should compute.
"""
import json
import os
import sys

import numpy as np

np.seterr(all="ignore")
import sopht.numeric.eulerian_grid_ops as G  # noqa: E402
from sopht.utils.precision import get_real_t  # noqa: E402

BAD = 2147483001
SPECIAL = [float("nan"), float("inf"), -float("inf")]  # codes BAD + 10, BAD + 11, ...
RT = {"f32": np.float32, "f64": np.float64}
EPS = {"f32": 2.0 ** -24, "f64": 2.0 ** -53}


def gfun(name, d):
    return getattr(G, f"gen_{name}_pyst_kernel_{d}d")


# ----------------------------------------------------------------- op table
# gen(d, rt, nt, fx, o, w): w gives access to the fields for generators that
# close over buffers.  roles: role -> (keyword, exponent) ; params likewise.
def _g(name, **defaults):
    def gen(d, kw, o, w):
        extra = {k: o.get(k, v) for k, v in defaults.items()}
        return gfun(name, d)(**kw, **extra)

    return gen


def _gv(name, **defaults):
    def gen(d, kw, o, w):
        extra = {k: o.get(k, v) for k, v in defaults.items()}
        return gfun(name, d)(**kw, field_type="vector", **extra)

    return gen


def _reset(name, vec=False):
    def gen(d, kw, o, w):
        extra = {"field_type": "vector"} if vec else {}
        return gfun(name, d)(**kw, reset_ghost_zone=o.get("reset", True), **extra)

    return gen


def _ring(vec):
    def gen(d, kw, o, w):
        kw = {k: v for k, v in kw.items() if k != "fixed_grid_size"}
        return gfun("set_fixed_val_at_boundaries", d)(
            **kw, width=o["width"], field_type="vector" if vec else "scalar"
        )

    return gen


def _filter(vec):
    def gen(d, kw, o, w):
        return G.gen_laplacian_filter_kernel_3d(
            filter_order=o["order"],
            filter_flux_buffer=w.arr(o["scr"]),
            field_buffer=w.arr(o["mid"]),
            field_type="vector" if vec else "scalar",
            filter_type=o["type"],
            **kw,
        )

    return gen


def _rk3(d, kw, o, w):
    return G.gen_vorticity_stretching_timestep_ssprk3_pyst_kernel_3d(
        midstep_buffer_vector_field=w.arr(o["mid"]), **kw
    )


def _char(d, kw, o, w):
    return G.__dict__[
        f"gen_char_func_from_level_set_via_sine_heaviside_pyst_kernel_{d}d"
    ](blend_width=o["bw"], **kw)


def _pen(vec):
    def gen(d, kw, o, w):
        extra = dict(
            width=o["width"], dx=w.real_t(o["dx"]) if o.get("dxt") else o["dx"],
            x_grid_field=w.coord[-1], y_grid_field=w.coord[-2],
        )
        if d == 3:
            extra["z_grid_field"] = w.coord[-3]
            if vec:
                extra["field_type"] = "vector"
        return gfun("penalise_field_boundary", d)(**extra, **kw)

    return gen


K = "k"
OPS = {
    "diff_flux": dict(gen=_reset("diffusion_flux"), r=dict(out=("diffusion_flux", "s", "F+P"), f=("field", "s", "F")), p=dict(k=("prefactor", "P"))),
    "diff_flux_v": dict(gen=_reset("diffusion_flux", True), r=dict(out=("vector_field_diffusion_flux", "v", "F+P"), f=("vector_field", "v", "F")), p=dict(k=("prefactor", "P"))),
    "diff_step": dict(gen=_g("diffusion_timestep_euler_forward"), r=dict(f=("field", "s", "F"), scr=("diffusion_flux", "s", "F")), p=dict(k=("nu_dt_by_dx2", ""))),
    "diff_step_v": dict(gen=_gv("diffusion_timestep_euler_forward"), r=dict(f=("vector_field", "v", "F"), scr=("diffusion_flux", "s", "F")), p=dict(k=("nu_dt_by_dx2", ""))),
    "adv_flux": dict(gen=_g("advection_flux_conservative_eno3"), r=dict(out=("advection_flux", "s", "F+V+P"), f=("field", "s", "F"), v=("velocity", "v", "V")), p=dict(k=("inv_dx", "P"))),
    "adv_step": dict(gen=_g("advection_timestep_euler_forward_conservative_eno3"), r=dict(f=("field", "s", "F"), v=("velocity", "v", "V"), scr=("advection_flux", "s", "F")), p=dict(k=("dt_by_dx", "-V"))),
    "adv_step_v": dict(gen=_gv("advection_timestep_euler_forward_conservative_eno3"), r=dict(f=("vector_field", "v", "F"), v=("velocity", "v", "V"), scr=("advection_flux", "s", "F")), p=dict(k=("dt_by_dx", "-V"))),
    "curl_in": dict(gen=_g("inplane_field_curl"), r=dict(out=("curl", "s", "F+P"), f=("field", "v", "F")), p=dict(k=("prefactor", "P"))),
    "curl_out": dict(gen=_reset("outplane_field_curl"), r=dict(out=("curl", "v", "F+P"), f=("field", "s", "F")), p=dict(k=("prefactor", "P"))),
    "curl3": dict(gen=_reset("curl"), r=dict(out=("curl", "v", "F+P"), f=("field", "v", "F")), p=dict(k=("prefactor", "P"))),
    "div3": dict(gen=_reset("divergence"), r=dict(out=("divergence", "s", "F+P"), f=("field", "v", "F")), p=dict(k=("inv_dx", "P"))),
    "vort_force": dict(gen=_g("update_vorticity_from_velocity_forcing"), r=dict(w=("vorticity_field", "w", "F+P"), f=("velocity_forcing_field", "v", "F")), p=dict(k=("prefactor", "P"))),
    "vort_pen": dict(gen=_g("update_vorticity_from_penalised_velocity"), r=dict(w=("vorticity_field", "w", "F+P"), pv=("penalised_velocity_field", "v", "F"), v=("velocity_field", "v", "F")), p=dict(k=("prefactor", "P"))),
    "stretch_flux": dict(gen=_g("vorticity_stretching_flux"), r=dict(out=("vorticity_stretching_flux_field", "v", "F+V+P"), w=("vorticity_field", "v", "F"), v=("velocity_field", "v", "V")), p=dict(k=("prefactor", "P"))),
    "stretch_euler": dict(gen=_g("vorticity_stretching_timestep_euler_forward"), r=dict(w=("vorticity_field", "v", "F"), v=("velocity_field", "v", "V"), scr=("vorticity_stretching_flux_field", "v", "F")), p=dict(k=("dt_by_2_dx", "-V"))),
    "stretch_rk3": dict(gen=_rk3, r=dict(w=("vorticity_field", "v", "F"), v=("velocity_field", "v", "V"), scr=("vorticity_stretching_flux_field", "v", "F"), mid=(None, "v", "F")), p=dict(k=("dt_by_2_dx", "-V"))),
    "brink": dict(gen=_g("brinkmann_penalise"), r=dict(out=("penalised_field", "s", "F"), f=("field", "s", "F"), chi=("char_field", "s", "V"), t=("penalty_field", "s", "F")), p=dict(k=("penalty_factor", "-V"))),
    "brink_v": dict(gen=_gv("brinkmann_penalise"), r=dict(out=("penalised_vector_field", "v", "F"), f=("vector_field", "v", "F"), chi=("char_field", "s", "V"), t=("penalty_vector_field", "v", "F")), p=dict(k=("penalty_factor", "-V"))),
    "brinkfix": dict(gen=_g("brinkmann_penalise_vs_fixed_val"), r=dict(out=("penalised_field", "s", "F"), f=("field", "s", "F"), chi=("char_field", "s", "V")), p=dict(k=("penalty_factor", "-V"), val=("penalty_val", "F"))),
    "brinkfix_v": dict(gen=_gv("brinkmann_penalise_vs_fixed_val"), r=dict(out=("penalised_vector_field", "v", "F"), f=("vector_field", "v", "F"), chi=("char_field", "s", "V")), p=dict(k=("penalty_factor", "-V"), val=("penalty_val", "F"))),
    "sum": dict(gen=_g("elementwise_sum"), r=dict(out=("sum_field", "s", "F"), f=("field_1", "s", "F"), g=("field_2", "s", "F")), p={}),
    "sum_v": dict(gen=_gv("elementwise_sum"), r=dict(out=("sum_field", "v", "F"), f=("field_1", "v", "F"), g=("field_2", "v", "F")), p={}),
    "saxpby": dict(gen=_g("elementwise_saxpby"), r=dict(out=("sum_field", "s", "F"), f=("field_1", "s", "F"), g=("field_2", "s", "F")), p=dict(k=("field_1_prefac", ""), l=("field_2_prefac", ""))),
    "saxpby_v": dict(gen=_gv("elementwise_saxpby"), r=dict(out=("sum_field", "v", "F"), f=("field_1", "v", "F"), g=("field_2", "v", "F")), p=dict(k=("field_1_prefac", ""), l=("field_2_prefac", ""))),
    "set": dict(gen=_g("set_fixed_val"), r=dict(out=("field", "s", "F")), p=dict(val=("fixed_val", "F"))),
    "set_v": dict(gen=_gv("set_fixed_val"), r=dict(out=("vector_field", "v", "F")), p=dict(val=("fixed_vals", "F"))),
    "copy": dict(gen=_g("elementwise_copy"), r=dict(out=("field", "s", "F"), f=("rhs_field", "s", "F")), p={}),
    "cprod": dict(gen=_g("elementwise_complex_product"), r=dict(out=("product_field", "c", "F+V"), f=("field_1", "c", "F"), g=("field_2", "c", "V")), p={}),
    "cross": dict(gen=_g("elementwise_cross_product"), r=dict(out=("result_field", "v", "F+V"), f=("field_1", "v", "F"), g=("field_2", "v", "V")), p={}),
    "add": dict(gen=_g("add_fixed_val"), r=dict(out=("sum_field", "s", "F"), f=("field", "s", "F")), p=dict(val=("fixed_val", "F"))),
    "add_v": dict(gen=_gv("add_fixed_val"), r=dict(out=("sum_field", "v", "F"), f=("vector_field", "v", "F")), p=dict(val=("fixed_vals", "F"))),
    "ring": dict(gen=_ring(False), r=dict(out=("field", "s", "F")), p=dict(val=("fixed_val", "F"))),
    "ring_v": dict(gen=_ring(True), r=dict(out=("vector_field", "v", "F")), p=dict(val=("fixed_vals", "F"))),
    "filter": dict(gen=_filter(False), r=dict(f=("scalar_field", "s", "F"), scr=(None, "s", "F"), mid=(None, "s", "F")), p={}),
    "filter_v": dict(gen=_filter(True), r=dict(f=("vector_field", "v", "F"), scr=(None, "s", "F"), mid=(None, "s", "F")), p={}),
    "charfunc": dict(gen=_char, r=dict(out=("char_func_field", "s", "-29"), f=("level_set_field", "s", "F")), p={}),
    "pen_bound": dict(gen=_pen(False), r=dict(f=("field", "s", "F")), p={}),
    "pen_bound_v": dict(gen=_pen(True), r=dict(f=("vector_field", "v", "F")), p={}),
}
VALS_LIST = {"set_v", "brinkfix_v", "add_v", "ring_v"}
CLOSES_OVER = {"stretch_rk3", "filter", "filter_v", "pen_bound", "pen_bound_v"}


class World:
    """The fields of one history and the memory they live in."""

    def __init__(self, job):
        self.job = job
        self.sh = tuple(job["sh"])
        self.d = len(self.sh)
        self.dt = job["dt"]
        self.real_t = RT[job["dt"]] if not job.get("named_t") else get_real_t(
            {"f32": "single", "f64": "double"}[job["dt"]])
        self.rng = np.random.RandomState(job["seed"])
        self.bufs = {}
        self.special = job.get("special", False)
        self.opaque = []
        self.coord = None
        for name in sorted(job["bufs"]):
            self.make(name, job["bufs"][name])
        if "coord" in job:
            self.make_coords(job["coord"])

    def shape(self, kind):
        if kind == "v":
            return (self.d,) + self.sh
        return self.sh

    def make(self, name, b):
        kind = b["k"]
        if kind == "w":
            kind = "s" if self.d == 2 else "v"
        shape = self.shape(kind)
        dt = self.real_t
        if kind == "c":
            dt = np.complex64 if self.dt == "f32" else np.complex128
        lay = b.get("lay", self.job.get("lay", "block"))
        if lay == "block":
            pad = b.get("pad", 5)
            n = int(np.prod(shape))
            parent = np.empty(n + 2 * pad, dtype=dt)
            view = parent[pad : pad + n].reshape(shape)
        elif lay == "view":  # a sub-box of a larger array
            lo = [1] * len(shape)
            hi = [2] * len(shape)
            if kind == "v":
                lo[0], hi[0] = 0, 1
            parent = np.empty([s + a + c for s, a, c in zip(shape, lo, hi)], dtype=dt)
            view = parent[tuple(slice(a, a + s) for s, a in zip(shape, lo))]
        elif lay == "step":  # every second point along x of a larger array
            parent = np.empty(list(shape[:-1]) + [2 * shape[-1] + 1], dtype=dt)
            view = parent[..., 1::2]
        elif lay == "swap":  # axes stored in another order
            parent = np.empty(list(shape[:-2]) + [shape[-1], shape[-2]], dtype=dt)
            view = np.swapaxes(parent, -1, -2)
        else:
            raise SystemExit("unknown layout " + lay)
        flat = parent.reshape(-1)
        flat[...] = (np.arange(flat.size) % 251 + 0.5).astype(dt)
        self.bufs[name] = dict(kind=kind, parent=parent, view=view, sc=b.get("sc") or 2.0 ** b.get("e", 0))
        self.fill(name, b["init"])

    def make_coords(self, c):
        ax = []
        for a in range(self.d):
            ax.append((c["x0"][a] + c["dx"] * np.arange(self.sh[a])).astype(self.real_t))
        grids = np.meshgrid(*ax, indexing="ij")
        self.coord = [np.ascontiguousarray(g) for g in grids]
        self.opaque += self.coord

    def arr(self, name):
        return self.bufs[name]["view"]

    def draw(self, kind, init):
        """Integer contents from an init record."""
        shape = self.shape(kind)
        if kind == "c":
            shape = (2,) + shape
        pat = init.get("pat", "rand")
        r = init.get("r", 9)
        m = init.get("m", 1)
        rng = self.rng
        if pat == "rand":
            v = rng.randint(-r, r + 1, size=shape)
        elif pat == "pos":
            v = rng.randint(0, r + 1, size=shape)
        elif pat == "const":
            v = np.full(shape, init["c"])
        elif pat == "zero":
            v = np.zeros(shape, dtype=int)
        elif pat == "sparse":
            v = rng.randint(-r, r + 1, size=shape) * (rng.randint(0, 4, size=shape) == 0)
        elif pat == "impulse":
            v = np.zeros(shape, dtype=int)
            v.reshape(-1)[rng.randint(0, v.size)] = r
        elif pat == "linear":
            top = [max(1, min(r, 3 * r // n)) for n in self.sh]  # long axes, small slopes
            v = sum(
                rng.randint(-top[a], top[a] + 1) * np.arange(self.sh[a]).reshape(
                    [-1 if b == a else 1 for b in range(self.d)])
                for a in range(self.d)
            ) + np.zeros(shape, dtype=int)
        elif pat == "axis":  # varies along one axis only
            a = init["a"]
            v = rng.randint(-r, r + 1, size=self.sh[a]).reshape(
                [-1 if b == a else 1 for b in range(self.d)]) + np.zeros(shape, dtype=int)
        elif pat == "comp":  # only one component non zero
            v = rng.randint(-r, r + 1, size=shape)
            for c in range(shape[0]):
                if c != init["c"]:
                    v[c] = 0
        elif pat == "alt":  # sign alternates, many ties v_i + v_{i+1} = 0
            v = rng.randint(0, r + 1, size=shape) // max(1, r)
            idx = sum(np.indices(self.sh))
            v = (1 - 2 * (idx % 2)) * (1 + v) * rng.randint(1, 2)
        elif pat == "list":
            v = rng.choice(np.array(init["vals"]), size=shape)
        elif pat == "seq":
            v = np.array(init["vals"]).reshape(shape)
        else:
            raise SystemExit("unknown pattern " + pat)
        return np.asarray(v, dtype=np.int64) * m

    def fill(self, name, init):
        b = self.bufs[name]
        view = b["view"]
        if init.get("pat") == "special":  # moved, never computed with
            v = self.draw(b["kind"], dict(pat="rand", r=99)) * b["sc"]
            z = self.rng.randint(0, 4, size=v.shape)
            for k, x in enumerate(SPECIAL):
                v = np.where(z == k, x, v)
            view[...] = v
            return
        if init.get("pat") == "nan":
            view[...] = np.nan
            return
        if init.get("pat") == "brinkf":  # field that makes the implicit blend exact
            chi = self.ints(self.bufs[init["chi"]])
            res = self.draw(b["kind"], dict(init, pat="rand"))
            if init.get("t") is not None:
                t = self.ints(self.bufs[init["t"]])
            else:
                t = np.array(init["val"]).reshape((-1,) + (1,) * self.d) if b["kind"] == "v" else init["val"][0]
            v = res * (1 + init["k"] * chi) - init["k"] * chi * t
        else:
            v = self.draw(b["kind"], init)
        sc = b["sc"]
        if b["kind"] == "c":
            view.real[...] = v[0] * sc
            view.imag[...] = v[1] * sc
        else:
            view[...] = v * sc

    @staticmethod
    def ints(b):
        a = np.asarray(b["view"], dtype=np.float64) / b["sc"]
        return np.rint(a).astype(np.int64)

    def log(self, name, mag):
        b = self.bufs[name]
        v = b["view"]
        if b["kind"] == "c":
            a = np.concatenate([v.real.reshape(-1), v.imag.reshape(-1)]).astype(np.float64)
        else:
            a = np.ascontiguousarray(v).reshape(-1).astype(np.float64)
        a = a / b["sc"]
        r = np.rint(a)
        if mag is None:  # fixed point field: rounding is part of the projection
            ok = np.abs(a) < 2.0 ** 30.9
        else:
            tol = min(0.25, 64 * EPS[self.dt] * mag)
            ok = (np.abs(a - r) <= tol) & (np.abs(a) < 2.0 ** 30.9)
        out = np.where(ok, r, BAD)
        if self.special:
            for k, x in enumerate(SPECIAL):
                out = np.where(np.isnan(a) if x != x else a == x, BAD + 10 + k, out)
        return [int(x) for x in out.tolist()]

    def snap(self):
        s = {n: (b["parent"].tobytes(), np.ascontiguousarray(b["view"]).tobytes()) for n, b in self.bufs.items()}
        o = [x.tobytes() for x in self.opaque]
        return s, o

    def diff(self, before):
        s, o = before
        changed, guard = [], True
        for n, b in self.bufs.items():
            p0, v0 = s[n]
            p1 = b["parent"].tobytes()
            if p1 == p0:
                continue
            if np.ascontiguousarray(b["view"]).tobytes() != v0:
                changed.append(n)
            # outside of the view
            old = np.frombuffer(p0, dtype=b["parent"].dtype).reshape(b["parent"].shape)
            new = b["parent"].copy()
            mask = np.ones(b["parent"].shape, dtype=bool)
            base = np.arange(mask.size).reshape(mask.shape)
            # same slicing as the view: recover through strides
            it = b["parent"].itemsize
            off = (b["view"].__array_interface__["data"][0] - b["parent"].__array_interface__["data"][0]) // it
            idx = np.full(b["view"].shape, off)
            for a, st in enumerate(b["view"].strides):
                idx = idx + (np.arange(b["view"].shape[a]) * (st // it)).reshape(
                    [-1 if q == a else 1 for q in range(b["view"].ndim)])
            mask.reshape(-1)[idx.reshape(-1)] = False
            if old[mask].tobytes() != new[mask].tobytes():
                guard = False
            del base
        for x, b0 in zip(self.opaque, o):
            if x.tobytes() != b0:
                guard = False
        return changed, guard


_cache = {}


def kernel(w, op, o, inst=0):
    job = w.job
    key = None
    fx = tuple(w.sh) if job["fx"] else False
    if op not in CLOSES_OVER:
        key = (op, w.d, w.dt, str(job["nt"]), fx, inst,
               tuple(sorted((k, v) for k, v in o.items() if not isinstance(v, (list, dict)))))
        if key in _cache:
            return _cache[key]
    else:
        key = (id(w), op, str(sorted(o.items())), inst)
        if key in w.__dict__.setdefault("kern", {}):
            return w.kern[key]
    kw = dict(real_t=w.real_t, num_threads=job["nt"], fixed_grid_size=fx)
    k = OPS[op]["gen"](w.d, kw, o, w)
    if op not in CLOSES_OVER:
        _cache[key] = k
    else:
        w.kern[key] = k
    return k


def expo(s, E):
    tot = 0
    for t in s.replace("-", "+-").split("+"):
        if not t:
            continue
        sg = -1 if t[0] == "-" else 1
        t = t.lstrip("-")
        tot += sg * (int(t) if t.isdigit() else E[t])
    return tot


def unit(s, E, M=None):
    """The unit of a quantity of degree s: powers of two, times factors M."""
    u = 2.0 ** expo(s, E)
    for t in s.replace("-", "+-").split("+") if M else []:
        if t and not t.lstrip("-").isdigit():
            u = u / M[t[1:]] if t[0] == "-" else u * M[t]
    return u


def run(job):
    E = job.get("E", {"F": 0, "V": 0, "P": 0})
    for n, b in job["bufs"].items():
        if "deg" in b and not b.get("sc"):
            b["sc"] = unit(b["deg"], E, job.get("M"))
    w = World(job)
    fixedpt = set(job.get("fixedpt", []))
    big = 2.0 ** 31
    out = dict(id=job["id"], sh=list(w.sh), mem={n: w.log(n, None if n in fixedpt else big) for n in w.bufs}, ev=[])
    for ev in job["ev"]:
        op, a, p, o = ev["op"], ev.get("a", {}), ev.get("p", {}), ev.get("o", {})
        before = w.snap()
        err = ""
        if op == "poke":
            for n, init in ev["fill"].items():
                w.fill(n, init)
            if "like" in ev:  # copy contents of other fields
                for n, m in ev["like"].items():
                    w.arr(n)[...] = w.arr(m)
        else:
            spec = OPS[op]
            kwargs = {}
            try:
                oo = dict(o)
                for r, (kwname, _, _) in spec["r"].items():
                    if kwname is None:
                        oo[r] = a[r]
                k = kernel(w, op, oo, ev.get("inst", 0))
                for r, (kwname, _, _) in spec["r"].items():
                    if kwname is not None:
                        kwargs[kwname] = w.arr(a[r])
                for pn, (kwname, deg) in spec["p"].items():
                    sc = unit(deg, E, job.get("M"))
                    v = p[pn]
                    if pn == "val":
                        v = [x * sc for x in v]
                        v = v if op in VALS_LIST else v[0]
                        if op in VALS_LIST and ev.get("valnp"):
                            v = np.array(v, dtype=w.real_t)
                    else:
                        v = v * sc
                    kwargs[kwname] = v
                k(**kwargs)
            except Exception as e:  # noqa
                err = type(e).__name__
        changed, guard = w.diff(before)
        mag = ev.get("mag", big if op == "poke" else 1.0)
        post = {n: w.log(n, None if n in fixedpt else mag) for n in changed}
        if job.get("resnap") and op != "poke":
            # drop rounding residues, so that the next call starts from the logged values
            for n, v in post.items():
                if BAD not in v and n not in (a.get("scr"), a.get("mid")):
                    w.fill(n, dict(pat="seq", vals=v))
        rec = dict(op=op, a=a, p=dict(p), post=post, guard=bool(guard), err=err)
        for k_, v_ in o.items():
            if k_ in ("reset", "width", "order", "type"):
                rec["p"][k_] = v_
        if "reset" not in rec["p"]:
            rec["p"]["reset"] = True
        out["ev"].append(rec)
        scratch = {a.get("scr"), a.get("mid")} | (set(ev["fill"]) if op == "poke" else set())
        if any(x == BAD for b, v in post.items() if b not in scratch for x in v):
            # a result outside the projection: report this event, then stop
            break
    return out


def main():
    jobs = json.load(open(sys.argv[1]))
    res = []
    for j in jobs:
        res.append(run(j))
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
