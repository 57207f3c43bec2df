"""Runs histories of IO calls (registrations, saves, loads) on the real code
in a scratch directory, and records array contents (as opaque tokens),
outcomes, HDF5 layouts and parsed XDMF files.  Nothing here knows what they
should be.

usage: fileio.py JOBS.json OUT.json
"""
import hashlib
import json
import math
import os
import re
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET

import h5py
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numbastub  # noqa
from sopht.utils.IO import IO  # noqa: E402

RT = {"f32": np.float32, "f64": np.float64}
TIMES = [0.0, 1.5, 1e-300, -2.25, 1 / 3, 1e22, 12345.678901234567, None]


def tok(a):
    return hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:14]


def content(a):
    return dict(h=tok(a), c=[tok(a[i]) for i in range(a.shape[0])] if a.ndim > 1 else [])


def alloc(shape, dt, how):
    if how == "F":
        return np.zeros(shape, dtype=dt, order="F")
    if how == "step":
        return np.zeros(list(shape[:-1]) + [2 * shape[-1] + 1], dtype=dt)[..., 1::2]
    if how == "T":
        return np.zeros(shape[::-1], dtype=dt).T
    return np.zeros(shape, dtype=dt)


def kindname(dt):
    return dict(f="Float", i="Int", u="UInt").get(dt.kind, dt.kind)


def params(rng, d, dt, f32):
    """Two origins and two spacings, equal in most digits or in most axes, and
    the scales that bring them to integers of as many digits as can be kept."""
    def other(x, sign):
        y = x.copy()
        k = rng.randint(6)
        if k == 0:
            y = x * (1 + rng.choice([-1, 1]) * 10.0 ** -rng.uniform(0.5, 4))
        elif k == 1 and d > 1 and np.any(x != x[0]):
            y = np.roll(x, rng.randint(1, d))
        elif k == 2 and sign:
            y[rng.randint(d)] *= -1
        if np.array_equal(x, y):
            a = rng.randint(d)
            y[a] = x[a] * (1 + rng.choice([-1, 1]) * 10.0 ** -rng.uniform(0.5, 4)) if x[a] else rng.choice([1e-3, 0.5])
        return y

    mag = rng.choice([1.0, 1.0, 1e4, 0.05 if dt == "f32" else 1e-3])
    o0 = mag * rng.choice([-1, 1], size=d) * rng.uniform(1, 10, size=d)
    if rng.rand() < 0.2:
        o0[rng.randint(d)] = 0.0
    d0 = rng.choice([0.1, 1.0, 1e-6 if dt == "f32" else 1e-3]) * rng.uniform(1, 9, size=d)
    if rng.rand() < 0.3:
        d0[:] = d0[0]
    par = dict(o0=o0, o1=other(o0, True), d0=d0, d1=other(d0, False))
    if f32:
        par = {k: v.astype(np.float32) for k, v in par.items()}
    top = 1e7 if dt == "f32" or f32 else 1e9
    return par, {k: top / max(float(np.max(np.abs(par[k + "0"]))), float(np.max(np.abs(par[k + "1"])))) for k in "od"}


def quant(x, scale):
    out = []
    for v in np.asarray(x, dtype=np.float64).reshape(-1):
        y = v * scale
        out.append(int(round(y)) if math.isfinite(y) and abs(y) < 2e9 else 2147483001)
    return out


class World:
    def __init__(self, job, root):
        self.job, self.root = job, root
        self.dim, self.dt = job["dim"], RT[job["dt"]]
        self.iodt = RT[job.get("iodt") or job["dt"]]
        self.rng = np.random.RandomState(job["seed"])
        self.arr = {}
        self.ios = {}
        lays = ["C", "C", "F", "step", "T"]
        for a, sh in sorted(job["shapes"].items()):
            self.arr[a] = alloc(tuple(sh), self.dt, lays[self.rng.randint(len(lays))] if job["lay"] else "C")
        for a in self.arr:
            self.fill(a, 1)
        self.par, self.qs = params(np.random.RandomState(job["seed"] ^ 12345), self.dim, job["dt"], job.get("parf32"))

    def fill(self, a, how):
        x = self.arr[a]
        if how == 1:
            v = self.rng.randn(*x.shape)
        elif how == 2:
            v = self.rng.choice([0.0, -0.0, np.inf, -np.inf, np.nan, 1.0, 5e-324, 1e38], size=x.shape)
        else:
            n = int(np.prod(x.shape))
            v = np.frombuffer(self.rng.bytes(n * x.dtype.itemsize), dtype=x.dtype).reshape(x.shape)
        with np.errstate(all="ignore"):
            x[...] = v.astype(x.dtype) if v.dtype != x.dtype else v

    def contents(self):
        return {a: content(x) for a, x in self.arr.items()}

    last = None

    # --------------------------------------------------------------- files
    def listing(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                st = os.stat(p)
                out[os.path.relpath(p, self.root)] = (st.st_mtime_ns, st.st_size, st.st_ino, hashlib.sha1(open(p, "rb").read()).hexdigest())
        return out

    def age(self):
        for d, _, fs in os.walk(self.root):
            for f in fs:
                os.utime(os.path.join(d, f), ns=(10 ** 18, 10 ** 18))

    def dump(self, path):
        r = dict(ok=False, sets=[], time="", par=dict(size=[], origin="", dx=""), originQ=[], dxQ=[])
        try:
            with h5py.File(os.path.join(self.root, path), "r") as f:
                sets = []

                def visit(name, ob):
                    if isinstance(ob, h5py.Dataset):
                        v = ob[...]
                        line = bool(v.ndim == 1 and v.dtype.kind in "iu" and np.array_equal(v, np.arange(v.size)))
                        sets.append(dict(path=name, shape=list(v.shape), kind=kindname(v.dtype), size=v.dtype.itemsize, tok=tok(v),
                                         tokT=tok(v.T) if v.ndim == 2 else "", line=line))
                f.visititems(visit)
                r["sets"] = sets
                r["time"] = repr(float(f.attrs["time"]))
                if "Eulerian/Parameters" in f:
                    at = f["Eulerian/Parameters"].attrs
                    def ident(v, ks):
                        for k in ks:
                            if np.array_equal(np.asarray(v), self.par[k]):
                                return k
                        return "?"
                    r["par"] = dict(size=[int(x) for x in at["grid_size"]], origin=ident(at["origin"], ["o0", "o1"]), dx=ident(at["dx"], ["d0", "d1"]))
                    r["originQ"], r["dxQ"] = quant(at["origin"], self.qs["o"]), quant(at["dx"], self.qs["d"])
                r["ok"] = True
        except Exception as e:  # noqa
            r["why"] = repr(e)
        return r

    def item(self, el, xdir, h5):
        if el is None:
            return dict(fmt="", num="", prec=0, dims=[], file=False, path="")
        text = (el.text or "").strip()
        m = re.match(r"(.*):/(.*)$", text, re.S)
        fn, path = (m.group(1), m.group(2)) if m else ("", "")
        real = os.path.realpath(os.path.join(self.root, h5))
        ok = bool(fn) and any(os.path.realpath(os.path.join(b, fn)) == real for b in (self.root, xdir))
        try:
            prec = int(el.get("Precision", "4"))
            dims = [int(x) for x in el.get("Dimensions", "").split()]
        except ValueError:
            prec, dims = -1, [-1]
        return dict(fmt=el.get("Format", ""), num=el.get("NumberType") or el.get("DataType") or "Float", prec=prec, dims=dims, file=ok, path=path)

    def xdmf(self, path, h5):
        r = dict(path=path, dir=os.path.dirname(path), ok=False, time="", top=dict(type="", dims=[], count=-1, item=self.item(None, "", h5)),
                 geo=dict(type="", origin=[], spacing=[], lens=[], grid="?", item=self.item(None, "", h5)), attrs=[])
        full = os.path.join(self.root, path)
        xd = os.path.dirname(full)
        try:
            root = ET.fromstring(open(full).read())
            grids = root.findall("./Domain/Grid")
            if root.tag != "Xdmf" or len(grids) != 1:
                return r
            g = grids[0]
            tms, tops, geos = g.findall("Time"), g.findall("Topology"), g.findall("Geometry")
            if (len(tms), len(tops), len(geos)) != (1, 1, 1):
                return r
            r["time"] = repr(float(tms[0].get("Value")))
            t = tops[0]
            r["top"] = dict(type=t.get("TopologyType") or t.get("Type") or "", dims=[int(x) for x in (t.get("Dimensions") or "").split()],
                            count=int(t.get("NumberOfElements") or -1), item=self.item(t.find("DataItem"), xd, h5))
            ge = geos[0]
            items = ge.findall("DataItem")
            gt = ge.get("GeometryType") or ge.get("Type") or ""
            r["geo"]["type"] = gt
            if gt.upper().startswith("ORIGIN") and len(items) == 2:
                r["geo"].update(origin=quant([float(x) for x in items[0].text.split()], self.qs["o"]), spacing=quant([float(x) for x in items[1].text.split()], self.qs["d"]), grid="*",
                                lens=[int(x.get("Dimensions")) for x in items])
            elif len(items) == 1:
                it = self.item(items[0], xd, h5)
                m = re.match(r"Lagrangian/(.*)/Grid$", it["path"])
                r["geo"].update(item=it, grid=m.group(1) if m else "?")
            for a in g.findall("Attribute"):
                r["attrs"].append(dict(name=a.get("Name", ""), type=a.get("AttributeType", ""), center=a.get("Center", ""), item=self.item(a.find("DataItem"), xd, h5)))
            r["ok"] = True
        except Exception as e:  # noqa
            r["why"] = repr(e)
        return r

    # -------------------------------------------------------------- events
    def do(self, ev):
        op = ev["op"]
        rec = dict(ev, err="", changed={}, others=[])
        old = self.last
        A = self.arr
        if op in ("save", "load"):
            self.age()
            files = self.listing()
        path = ev.get("file", "")
        name = os.path.join(self.root, path) if self.job["abs"] else path
        try:
            if op == "new":
                self.ios[ev["io"]] = IO(self.dim, self.iodt) if self.iodt is np.float32 or self.rng.rand() < 0.5 else IO(dim=self.dim)
            elif op == "define":
                p = ev["par"]
                self.ios[ev["io"]].define_eulerian_grid(origin=self.par[p["origin"]].copy(), dx=self.par[p["dx"]].copy(), grid_size=np.array(p["size"]))
            elif op == "adde":
                self.ios[ev["io"]].add_as_eulerian_fields_for_io(**{f["name"]: A[f["arr"]] for f in ev["fields"]})
            elif op == "addl":
                kw = {}
                if ev["name"]:
                    kw["lagrangian_grid_name"] = ev["name"]
                if ev["conn"]:
                    kw["lagrangian_grid_connect"] = True
                self.ios[ev["io"]].add_as_lagrangian_fields_for_io(lagrangian_grid=A[ev["grid"]], **kw, **{f["name"]: A[f["arr"]] for f in ev["fields"]})
            elif op == "mutate":
                for a in ev["arrays"]:
                    self.fill(a, ev["how"])
            elif op == "save":
                os.makedirs(os.path.join(self.root, os.path.dirname(path)), exist_ok=True)
                tm = TIMES[ev["time"]]
                rec["time"] = repr(float(0.0 if tm is None else tm))
                if tm is not None and ev["time"] % 2:
                    tm = np.float64(tm) if self.rng.rand() < 0.5 else tm
                if tm is None:
                    self.ios[ev["io"]].save(h5_file_name=name)
                else:
                    self.ios[ev["io"]].save(h5_file_name=name, time=tm)
            elif op == "load":
                rec["time"] = ""
                rec["time"] = repr(float(self.ios[ev["io"]].load(h5_file_name=name)))
            elif op == "copy":
                shutil.copy(os.path.join(self.root, path), os.path.join(self.root, ev["to"]))
            elif op == "damage":
                self.damage(ev)
        except Exception as e:  # noqa
            rec["err"] = type(e).__name__
            # (a copy or a damage fails where an earlier save wrote less than it should:
            # the save is judged for that)
        new = self.last = self.contents()
        rec["changed"] = {a: new[a] for a in new if new[a] != old[a]}
        if op in ("save", "load"):
            now = self.listing()
            touched = [p for p in sorted(set(now) | set(files)) if now.get(p) != files.get(p)]
        if op == "load":
            # opening a file may touch it, its contents count
            rec["others"] = [p for p in touched if p not in now or p not in files or now[p][3] != files[p][3]]
        if op == "save":
            rec["dir"] = os.path.dirname(path)
            rec["h5"] = self.dump(path)
            xs = [p for p in touched if p.endswith((".xmf", ".xdmf")) and p in now]
            rec["xmf"] = [self.xdmf(p, path) for p in xs]
            rec["others"] = [p for p in touched if p != path and p not in xs]
        return rec

    def damage(self, ev):
        p = os.path.join(self.root, ev["file"])
        w = ev["what"]
        if w == "whole":
            k = self.rng.randint(3)
            if k == 0:
                os.remove(p)
            elif k == 1:
                n = os.path.getsize(p)
                with open(p, "r+b") as f:
                    f.truncate(min(n // 2, 100))
            else:
                open(p, "wb").write(b"")
            return
        with h5py.File(p, "a") as f:
            if w == "field":
                if ev["kind"] == "Scalar":
                    del f["Eulerian/Scalar/" + ev["name"]]
                else:
                    del f[f"Eulerian/Vector/{ev['name']}_{self.rng.randint(self.dim)}"]
            elif w == "eulerian":
                del f["Eulerian"]
            elif w == "params":
                del f["Eulerian/Parameters"]
            elif w == "grid":
                if self.rng.rand() < 0.5:
                    del f["Lagrangian/" + ev["grid"]]
                else:
                    del f["Lagrangian/" + ev["grid"] + "/Grid"]
            else:
                del f[f"Lagrangian/{ev['grid']}/{ev['kind']}/{ev['name']}"]


def run(job):
    root = tempfile.mkdtemp(prefix="io_")
    cwd = os.getcwd()
    try:
        os.chdir(root)
        w = World(job, root)
        start = w.last = w.contents()
        evs = []
        for ev in job["ev"]:
            rec = w.do(ev)
            # the record of a call that never completed is of no use to the replay
            evs.append(rec)
        return dict(id=job["id"], dim=job["dim"], shapes=job["shapes"], arrays=start, real=np.dtype(w.dt).itemsize, ev=evs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def main():
    jobs = json.load(open(sys.argv[1]))
    res = [run(j) for j in jobs]
    tmp = sys.argv[2] + ".tmp"
    json.dump(res, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
