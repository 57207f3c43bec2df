"""Records what the parallel loops of the generated kernels access.

usage: par.py JOBS.json OUT.json
ps.create_kernel is wrapped so that each launch logs, per field argument, the
relative offsets the loop body reads and writes, the memory the argument is
bound to (owner buffer, element offset, strides) and the iteration domain."""
import json
import os
import sys

import numpy as np
import pystencils as ps
from pystencils.slicing import normalize_slice

LOG = []
OWN = []
orig = ps.create_kernel


def accesses(assignments):
    reads, writes = [], []
    for a in assignments:
        for acc in a.rhs.atoms(ps.Field.Access):
            reads.append((acc.field.name, tuple(int(o) for o in acc.offsets), tuple(int(i) for i in acc.index)))
        if isinstance(a.lhs, ps.Field.Access):
            acc = a.lhs
            writes.append((acc.field.name, tuple(int(o) for o in acc.offsets), tuple(int(i) for i in acc.index)))
    return reads, writes


def owner(arr):
    it = arr.itemsize
    ad = arr.__array_interface__["data"][0]
    for i, p in enumerate(OWN):
        base = p.__array_interface__["data"][0]
        if base <= ad < base + p.nbytes:
            return i + 1, (ad - base) // it
    b = arr
    while getattr(b, "base", None) is not None and isinstance(b.base, np.ndarray):
        b = b.base
    base = b.__array_interface__["data"][0]
    OWN.append(b)
    return len(OWN), (ad - base) // it


class Compiled:
    def __init__(self, k, reads, writes, islice, par):
        self.k, self.reads, self.writes, self.islice, self.par = k, reads, writes, islice, par

    def __getattr__(self, n):
        return getattr(self.k, n)

    def __call__(self, *args, **kw):
        try:
            self.record(kw)
        except Exception as e:  # noqa  the log is best effort, the call is not
            LOG.append(dict(skip=repr(e)))
        return self.k(*args, **kw)

    def record(self, kw):
        names = {n for n, _, _ in self.reads} | {n for n, _, _ in self.writes}
        bind = {}
        for n in names:
            a = kw[n]
            o, off = owner(a)
            bind[n] = dict(own=o, off=int(off), st=[int(s // a.itemsize) for s in a.strides], sh=list(a.shape))
        nd = len(self.writes[0][1])
        sh = bind[self.writes[0][0]]["sh"][:nd]
        gl = max([abs(o) for _, os_, _ in self.reads + self.writes for o in os_] + [0])
        if self.islice is not None:
            sl = normalize_slice(self.islice, sh)
            rng = [[s.start, s.stop, s.step or 1] if isinstance(s, slice) else [s, s + 1, 1] for s in sl]
            rng = [[int(x) for x in r] for r in rng]
        else:
            rng = [[gl, int(s) - gl, 1] for s in sh]

        def acc(lst):
            out = []
            for n, offs, idx in sorted(set(lst)):
                b = bind[n]
                extra = sum(i * s for i, s in zip(idx, b["st"][nd:]))
                out.append(dict(own=b["own"], base=b["off"] + sum(o * s for o, s in zip(offs, b["st"])) + extra, st=b["st"][:nd]))
            return out
        LOG.append(dict(rng=rng, reads=acc(self.reads), writes=acc(self.writes), par=bool(self.par)))


class Ast:
    def __init__(self, ast, *a):
        self.ast, self.a = ast, a

    def __getattr__(self, n):
        return getattr(self.ast, n)

    def compile(self, *args, **kw):
        return Compiled(self.ast.compile(*args, **kw), *self.a)


def create_kernel(assignments, *args, **kw):
    ast = orig(assignments, *args, **kw)
    try:
        r, w = accesses(assignments)
        cfg = kw.get("config") or (args[0] if args else None)
        par = getattr(cfg, "cpu_openmp", kw.get("cpu_openmp"))
        islice = getattr(cfg, "iteration_slice", kw.get("iteration_slice"))
        if w:
            return Ast(ast, r, w, islice, par)
    except Exception as e:  # noqa
        LOG.append(dict(skip=repr(e)))
    return ast


ps.create_kernel = create_kernel
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import flow  # noqa: E402


def main():
    jobs = json.load(open(sys.argv[1]))
    out = []
    for job in jobs:
        LOG.clear()
        OWN.clear()
        orig_init = flow.World.__init__

        def init(self, j):
            orig_init(self, j)
            OWN.extend(b["parent"].reshape(-1) for b in self.bufs.values())
            OWN.extend(c.reshape(-1) for c in (self.coord or []))
        flow.World.__init__ = init
        try:
            h = flow.run(job)
        finally:
            flow.World.__init__ = orig_init
        seen, ev = set(), []
        for e in LOG:
            key = json.dumps(e, sort_keys=True)
            if "skip" not in e and key not in seen:
                seen.add(key)
                ev.append(e)
        out.append(dict(id=job["id"], ev=ev, skipped=sum("skip" in e for e in LOG), launches=len(LOG),
                        err=[e["err"] for e in h["ev"] if e["err"]]))
    tmp = sys.argv[2] + ".tmp"
    json.dump(out, open(tmp, "w"))
    os.replace(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
