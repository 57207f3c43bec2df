"""C01-C11, C13, C14: histories of kernel calls recorded from the real code and
replayed against spec/Machine.tla, plus the law models of each property."""
import random

from . import flowjobs as J
from . import solvers, ib
from .core import Broken

OPS = {
    "C01": (["diff_flux", "diff_step"], ["diff_flux", "diff_flux_v", "diff_step", "diff_step_v"]),
    "C02": (["adv_flux", "adv_step"], ["adv_flux", "adv_step", "adv_step_v"]),
    "C03": (["curl_in", "curl_out"], ["curl3", "div3"]),
    "C04": (["vort_force", "vort_pen"], ["vort_force", "vort_pen"]),
    "C05": ([], ["stretch_flux", "stretch_euler", "stretch_rk3"]),
    "C06": (["brink", "brink_v", "brinkfix", "brinkfix_v"], ["brink", "brink_v"]),
    "C07": (["charfunc"], ["charfunc"]),
    "C08": (["pen_bound"], ["pen_bound", "pen_bound_v"]),
    "C09": (["sum", "sum_v", "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod", "add", "add_v", "ring", "ring_v"],
            ["sum", "sum_v", "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod", "cross", "add", "add_v", "ring",
             "ring_v"]),
    "C10": ([], ["filter", "filter_v"]),
}
# in-place uses the callers of these kernels rely on
INPLACE = {"sum": [dict(out="f"), dict(out="g")], "sum_v": [dict(out="f"), dict(out="g")],
           "saxpby": [dict(out="f"), dict(out="g")], "saxpby_v": [dict(out="f"), dict(out="g")],
           "add": [dict(out="f")], "add_v": [dict(out="f")],
           "brink": [dict(out="f")], "brink_v": [dict(out="f")], "brinkfix": [dict(out="f")],
           "brinkfix_v": [dict(out="f")]}
LAYS = ["block", "view", "step", "swap"]


def expos(rng, dt):
    """Powers of two by which the integers are scaled."""
    r = 25 if dt == "f32" else 200
    return dict(F=rng.choice([0, -3, rng.randint(-r, r)]), V=rng.choice([0, rng.randint(-6, 6), rng.randint(-r // 5, r // 5)]),
                P=rng.choice([0, -5, rng.randint(-r, r)]))


def factors(rng, dt):
    """Units need not be powers of two where rounding can be told from errors."""
    return dict(F=rng.uniform(1, 2), V=rng.uniform(1, 2), P=rng.uniform(1, 2)) if dt == "f64" and rng.random() < 0.5 else None


def configs(rng, thorough):
    """(precision, fixed size, threads, layout, number of shapes, calls)"""
    out = []
    for _ in range(6 if thorough else 2):
        out += [("f64", False, False, rng.choice(LAYS[1:]), 3, 2),
                ("f32", True, rng.choice([2, False]), "block", 1, 4),
                ("f64", True, rng.choice([3, 5, True]), "block", 1, 4),
                ("f32", False, rng.choice([1, 4, 13]), rng.choice(LAYS), 3, 2)]
    if thorough:
        out += [("f64", False, rng.choice([2, 6, 8]), lay, 4, 4) for lay in LAYS]
        out += [("f32", False, False, lay, 4, 4) for lay in LAYS]
    return out


def options(op, rng):
    """Option combinations that need their own generated kernel."""
    if op in ("diff_flux", "diff_flux_v", "curl_out", "curl3", "div3"):
        return [dict(reset=True), dict(reset=False)]
    return [None]


def build(run, ops2, ops3, tag="", configs_fn=configs):
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}{tag}")
    jobs = []
    for d, ops in ((2, ops2), (3, ops3)):
        for op in ops:
            nlong, off = 0, rng.randrange(3)
            for ci, (dt, fx, nt, lay, ns, calls) in enumerate(configs_fn(rng, run.thorough)[:None if run.thorough or not op.startswith("adv") else 6]):
                opts = options(op, rng)
                keep = {}
                if op in ("filter", "filter_v"):
                    ty = ["multiplicative", "convolution"]
                    keep = dict(order=rng.choice([[1, 1, 2, 3], [2, 2, 1, 4], [1, 5, 6, 7], [2, 3, 8, 10]][(ci + (op == "filter")) % 4]),
                                type=ty[(ci // 2 + d + (op == "filter_v") * ci) % 2])
                if op.startswith("ring"):
                    keep = dict(width=[1, 2, 3, 1, 4][(ci + run.seed) % 5])
                if op == "charfunc":
                    keep = dict(bw=rng.choice(J.BWX))
                for si in range(ns):
                    lo = 2 * keep.get("width", 0)
                    sh = J.shape(rng, d, op, lo=max(lo, J.NOSTEP.get(op, 3)) if (si == 0 and lo) else None)
                    if si == 1 and op not in J.NOSTEP:
                        sh[rng.randrange(d)] = 3 if not op.startswith("ring") else 1
                    if keep.get("width"):  # (at si = 1 the zones of both ends overlap)
                        sh = [max(x, (1 if si == 1 and op.startswith("ring") else 2) * keep["width"]) for x in sh]
                    if si == 2:
                        sh = [rng.randint(*((14, 40) if d == 2 else (7, 13))) for _ in range(d)]
                        if nlong % (d + 1) < d:  # long along one axis, each in turn
                            sh = J.shape(rng, d, op, hi=6)
                            sh[(nlong + off) % d] = rng.randint(34, 150 if d == 2 else 70)
                            if keep.get("width"):
                                sh = [max(x, 2 * keep["width"]) for x in sh]
                        nlong += 1
                    h = J.Hist(rng, f"{op}/{d}d/{dt}/{'fixed' if fx else 'dyn'}/nt{nt}/{lay}/{ci}.{si}", d, dt, sh, nt=nt, fx=fx, lay=lay,
                               E=expos(rng, dt), M=factors(rng, dt), named=rng.random() < 0.3)
                    h.j["group"] = f"{op}{d}{ci}"
                    h.j["cost"] = (6.0 if op.startswith("adv") or op.startswith("pen") else 2.0) if si == 0 else 0.3
                    if h.j["cost"] > 1 and op in ("pen_bound", "pen_bound_v", "filter", "filter_v"):
                        h.j["cost"] = 8.0
                    n = calls if op not in ("pen_bound", "pen_bound_v") else 2
                    for c in range(n):
                        o = dict(keep)
                        if op in ("pen_bound", "pen_bound_v"):
                            # the kernel closes over the coordinates: one width per history
                            o["width"] = h.j.setdefault("_w", rng.choice(
                                [w for w in ((1, 2, 3, 3, 4, 5, 6) if si == 0 else (0, 1, 2, 3)) if 2 * w <= min(sh)]))
                        elif op in ("filter", "filter_v"):
                            if ci == 1 and c == n - 1 or (run.thorough and c == 1):
                                o["order"] = 0
                        elif opts[0]:
                            o.update(opts[c % len(opts)])
                        al = None
                        if op in INPLACE and c % 2 == 1:
                            al = rng.choice(INPLACE[op])
                        if al and op.startswith("brink"):
                            J.plan_call(h, op, pre=op + "_ip_", o=o, alias=None, big=False)
                            ev = h.j["ev"][-1]
                            ev["a"]["out"] = ev["a"]["f"]
                            continue
                        J.plan_call(h, op, o=o, big=rng.random() < 0.5, alias=al)
                    h.j.pop("_w", None)
                    jobs.append(h.j)
    return jobs


def replay(run, jobs, module="TraceFlow"):
    hists = run.driver("flow.py", jobs)
    n = sum(len(h["ev"]) + 1 for h in hists)
    run.events += sum(sum(1 for e in h["ev"] if e["op"] != "poke") for h in hists)
    run.replay(module, hists, jobs, n)
    for h in hists[:3]:
        run.samples.append(dict(hist=h["id"], shape=h["sh"], events=[dict(op=e["op"], p=e["p"]) for e in h["ev"] if e["op"] != "poke"][:4]))
    if not run.events:
        raise Broken("no events recorded")
    return hists


def special_jobs(run):
    """Operations that only move values move every value: infinities and NaN included."""
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}/special")
    jobs = []
    for i in range(6 if run.thorough else 2):
        for d in (2, 3):
            fx = i % 2 == 1
            h = J.Hist(rng, f"special/{d}d/{i}", d, rng.choice(["f64", "f32"]), [rng.randint(4, 9) for _ in range(d)], nt=rng.choice([False, 3]),
                       fx=fx, lay=rng.choice(LAYS))
            h.j.update(special=True, cost=6.0)
            for n, k in (("s1", "s"), ("s2", "s"), ("v1", "v")):
                h.buf(n, k, init=dict(pat="special"), sc=1.0)
            w = rng.choice([1, 2])
            for _ in range(8):
                op = rng.choice(["copy", "copy", "ring", "ring_v", "set", "set_v"])
                if op == "copy":
                    a = rng.choice([dict(out="s1", f="s2"), dict(out="s2", f="s1")])
                else:
                    a = dict(out="v1" if op.endswith("_v") else rng.choice(["s1", "s2"]))
                p = {} if op == "copy" else dict(val=[rng.randint(-9, 9) for _ in range(d if op.endswith("_v") else 1)])
                h.call(op, a, p, o=dict(width=w) if op.startswith("ring") else {})
                if rng.random() < 0.5:
                    h.poke(**{rng.choice(["s1", "s2", "v1"]): dict(pat="special")})
            jobs.append(h.j)
    return jobs


def check_ops(run):
    run.laws("MC_" + run.pid)
    ops2, ops3 = OPS[run.pid]
    jobs = build(run, ops2, ops3)
    if run.pid == "C09":
        jobs += special_jobs(run)
    replay(run, jobs)
    # arbitrary real data: the same result in every configuration, inputs untouched
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}/real")
    jobs = []
    for rep in range(6 if run.thorough else 1):
        for d, ops in ((2, ops2), (3, ops3)):
            for op in ops:
                E = dict(F=rng.randint(-150, 150), V=rng.randint(-5, 5), P=rng.randint(-150, 150)) if op != "charfunc" else None
                vs = [V("f64", lay=rng.choice(LAYS), nan=1), V("f64", E=E, nan=1), V("f32", nan=1, rep=2), V("f64", nt=rng.choice([2, 5, 7]), nan=1)]
                if op.startswith("adv"):
                    vs.pop()
                for k in range(2):
                    jobs.append(eq_job(rng, op, d, f"real/{op}/{d}d/{rep}.{k}", vs))
                    if k:
                        again(jobs)
                for k in range(3 if run.thorough else 1 if op in J.CLOSES else 2):
                    jobs.append(eq_job(rng, op, d, f"real/{op}/{d}d/{rep}.L{k}", []))
                    again(jobs)
                    v = rng.choice(vs)
                    large(rng, jobs[-1], v["dt"], v["nt"])
    replay_eq(run, jobs)


# ------------------------------------------------------------------ C15
def plan_jobs(run, rng, num, len0, configs):
    """Histories over a shared pool of fields, generated by spec/Plan.tla."""
    jobs = []
    for d, dt, fx, half in configs:
        cap, icap = (26, 29) if dt == "f64" else (17, 22)
        plans = run.plans("Plan", num, 20 * len0, rng.randrange(1, 10 ** 6),
                          consts=dict(D=d, Cap=cap, ICap=icap, Len0=len0, Half=half))
        sh0 = J.shape(rng, d, "adv_flux")
        nt0 = rng.choice([False, 2, 3])
        for i, plan in enumerate(plans):
            sh = sh0 if fx else J.shape(rng, d, "adv_flux")
            h = J.Hist(rng, f"plan/{d}d/{dt}/{'fixed' if fx else 'dyn'}/{half}.{i}", d, dt, sh, nt=nt0, fx=fx,
                       lay="block" if fx else rng.choice(LAYS))
            for n in ("s1", "s2", "s3"):
                h.buf(n, "s", None, dict(pat="rand", r=9))
            for n in ("v1", "v2", "v3"):
                h.buf(n, "v", None, dict(pat="rand", r=9))
            for n in ("c1", "c2", "c3"):
                h.buf(n, "c", None, dict(pat="rand", r=9))
            h.buf("chi", "s", None, dict(pat="list", vals=[0, 1]))
            for n, k in (("ss", "s"), ("sm", "s"), ("vs", "v"), ("vm", "v")):
                h.buf(n, k, None, dict(pat="rand", r=9))
            h.j.update(resnap=True, group=f"plan{d}{dt}{fx}{half}", cost=(40.0 if i == 0 else 1.0))
            for st in plan:
                if st["op"] == "poke":
                    h.poke(**{b: dict(pat="rand", r=f["r"], m=f["m"]) for b, f in st["fill"].items()})
                    continue
                if rng.random() < 0.25:  # somebody else used the scratch buffers
                    h.poke(**{b: J.garbage(rng) for b in rng.sample(["ss", "sm", "vs", "vm"], 2)})
                if rng.random() < 0.1:
                    h.poke(chi=rng.choice([dict(pat="list", vals=[0, 1]), dict(pat="zero"), dict(pat="const", c=1)]))
                p, o = dict(st["p"]), {}
                for k in ("reset", "width", "order", "type"):
                    if k in p:
                        o[k] = p.pop(k)
                op = st["op"]
                if "val" in p and not op.endswith("_v"):
                    p["val"] = p["val"][:1]
                if "val" in p:
                    p["val"] = p["val"][:d if op.endswith("_v") else 1]
                h.call(op, st["a"], p, o, 2.0 ** (30 if dt == "f64" else 17), inst=st["inst"])
            jobs.append(h.j)
    return jobs


def check_c15(run):
    run.laws("MC_C15", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C15/{run.seed}/{run.tier}")
    solvers.mixed(run, rng, ["unb", "fd", "fft"], 8 if run.thorough else 1, nworlds=2, ninst=2, nev=9)
    cf = [(d, dt, fx, half) for half in (0, 1) for d, dt, fx in ((2, "f64", False), (3, "f64", False), (2, "f32", True), (3, "f32", True))]
    if run.thorough:
        cf += [(d, dt, not fx, half) for d, dt, fx, half in cf]
    jobs = plan_jobs(run, rng, 60 if run.thorough else 10, 60 if run.thorough else 24, cf)
    replay(run, jobs)


# ------------------------------------------------------- C11, C13, C14, C12
def outs_of(op):
    R = J.roles(op)
    return ["out"] if "out" in R else ["w"] if "w" in R else ["f"]


def eq_job(rng, op, d, jid, variants, sh=None, opt=None):
    fixedsh = sh is not None
    sh = sh or J.shape(rng, d, op, lo=max(6, J.NOSTEP.get(op, 3)))
    o = {}
    if op in ("filter", "filter_v"):
        o = dict(order=rng.choice([1, 2, 3, 5]), type=rng.choice(["multiplicative", "convolution"]))
    if op.startswith("ring"):
        o = dict(width=rng.choice([1, 2]))
    if op == "charfunc":
        o = dict(bw=rng.choice(J.BWX))
    if op in ("diff_flux", "diff_flux_v", "curl_out", "curl3", "div3"):
        o = dict(reset=rng.random() < 0.5)
    o.update(opt or {})
    j = dict(id=jid, op=op, d=d, sh=sh, seed=rng.randrange(1 << 30), o=o, outs=outs_of(op), variants=variants, group=op + str(d),
             cost=float(len({(v["dt"], v["fx"], str(v["nt"]), "comp" in v) for v in variants})) * (4 if op.startswith(("adv", "pen")) else 2 if op.startswith("filt") else 1))
    if op.startswith("pen_bound"):
        dx = rng.choice([1.0, 0.25, 2.0 ** -7])
        j["coord"] = dict(x0=[dx * rng.choice([0.5, -3.5, 10.0]) for _ in range(d)], dx=dx)
        o.update(width=rng.choice([1, 2, 3, 5, 6, 8]), dx=dx)
        o["width"] = o["width"] if sh is None or not fixedsh else rng.choice([w for w in (1, 2, 3, 5, 6, 8) if 2 * w <= min(sh)])
        j["sh"] = [max(x, 2 * o["width"]) for x in j["sh"]]
    return j


def again(jobs):
    """The last job runs the kernels of the one before it on other data."""
    jobs[-1].update(o=dict(jobs[-2]["o"]), cost=0.5)
    if "coord" in jobs[-1]:
        jobs[-1]["coord"] = jobs[-2]["coord"]
        jobs[-1]["sh"] = [max(x, 2 * jobs[-1]["o"]["width"]) for x in jobs[-1]["sh"]]


REACH = dict(diff_flux=1, diff_step=2, adv_flux=2, adv_step=3, curl_in=1, curl_out=1, curl3=1, div3=1, vort_force=1, vort_pen=1,
             stretch_flux=1, stretch_euler=2, stretch_rk3=4)


def large(rng, j, dt, nt):
    """A large grid agrees with windows of it treated as grids of their own."""
    op, d = j["op"], j["d"]
    b = op[:-2] if op.endswith("_v") else op
    R = j["o"]["order"] + 2 if b == "filter" else j["o"]["width"] + 2 if b in ("pen_bound", "ring") else REACH.get(b, 0) + 1
    cells = 2.0 ** rng.uniform(13, 18)
    while True:
        sh = [int(cells ** (1 / d) * 2 ** rng.uniform(-1, 1)) for _ in range(d)]
        if min(sh) >= 2 * R + 12 and cells / 2 <= J.prod(sh) <= 2 * cells:
            break
    j["sh"], j["wins"], j["reach"] = sh, [], R
    for i in range(1 if op in J.CLOSES else 3):
        s = [2 * R + rng.randint(3, 8 if d == 2 else 5) for _ in range(d)]
        # at an end of the grid or inside
        o = [rng.choice([0, n - m, rng.randint(0, n - m), rng.randint(0, n - m)]) if i == 2 or op in J.CLOSES else [0, n - m][i]
             for n, m in zip(sh, s)]
        j["wins"].append(dict(o=o, s=s))
    j["variants"] = [V(dt, nt=nt, win=i, nan=1) for i in range(len(j["wins"]))] + [V(dt, nt=nt, lay=rng.choice(LAYS), big=1, nan=1, rep=rng.choice([1, 2]))]
    j["id"] += "/large"


def replay_eq(run, jobs):
    groups = run.driver("equiv.py", jobs)
    n = sum(len(g["ev"]) + 1 for g in groups)
    run.events += sum(len(g["ev"]) for g in groups)
    run.replay("TraceEq", groups, jobs, n)
    for g in groups[:2]:
        run.samples.append(dict(group=g["id"], configurations=[e["conf"] for e in g["ev"]][:8]))


def V(dt, fx=False, nt=False, lay="block", **kw):
    return dict(dt=dt, fx=fx, nt=nt, lay=lay, **kw)


def check_c11(run):
    run.laws("MC_C11")
    rng = random.Random(f"C11/{run.seed}/{run.tier}")
    v2, v3 = [o for o in J.OPS2 if o in J.VEC], [o for o in J.OPS3 if o in J.VEC]
    replay(run, build(run, v2, v3, configs_fn=lambda r, th: configs(r, th)[: None if th else 4]))
    jobs = []
    for rep in range(6 if run.thorough else 1):
        for d, ops in ((2, v2), (3, v3)):
            for op in ops:
                dt, fx = rng.choice(["f64", "f32"]), rng.random() < 0.5
                nt = rng.choice([False, 2, 4])
                lay = "block" if fx else rng.choice(LAYS)
                vs = [V(dt, fx, nt, lay, rep=2, nan=1)] + [V(dt, fx, nt, lay, comp=c) for c in range(d)]
                perms = [[1, 0]] if d == 2 else [[1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0]]
                vs += [V(dt, fx, nt, lay, perm=p, nan=1) for p in perms]
                for k in range(1 if fx else 4):
                    jobs.append(eq_job(rng, op, d, f"vec/{op}/{d}d/{rep}.{k}", vs))
                    if k:
                        again(jobs)
    replay_eq(run, jobs)


def check_c14(run):
    run.laws("MC_C14", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C14/{run.seed}/{run.tier}")
    jobs = []
    for rep in range(4 if run.thorough else 1):
        for d, ops in ((2, J.OPS2), (3, J.OPS3)):
            for op in ops:
                nt = rng.choice([False, 2])
                vs = [V("f64"), V("f64", lay="view"), V("f64", lay="step"), V("f64", lay="swap"), V("f64", True, nt),
                      V("f32"), V("f32", lay=rng.choice(LAYS[1:]), rep=2), V("f32", True, nt)]
                if op != "charfunc":
                    # the same data in other units
                    for dt, r in (("f64", 150), ("f32", 20)):
                        for s in (-1, 1):
                            vs.append(V(dt, E=dict(F=s * rng.randint(r // 2, r), V=rng.randint(-5, 5), P=s * rng.randint(r // 2, r))))
                    vs.append(V("f64", E=dict(F=rng.randint(-20, 20), V=rng.randint(-5, 5), P=rng.randint(-20, 20)),
                                M=dict(F=rng.uniform(1, 2), V=rng.uniform(1, 2), P=rng.uniform(1, 2))))
                jobs.append(eq_job(rng, op, d, f"cfg/{op}/{d}d/{rep}", vs))
                # the dynamic kernels again on another shape
                jobs.append(eq_job(rng, op, d, f"cfg/{op}/{d}d/{rep}b", [x for x in vs if not x["fx"]]))
                again(jobs)
    replay_eq(run, jobs)
    solvers.mixed(run, rng, ["unb", "fd", "fft"], 6 if run.thorough else 1, nworlds=3, ninst=1, same=True, nev=5)


def check_c13(run):
    run.laws("MC_C13", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    ops = lambda o: [x for x in o]  # noqa

    def cf(r, th):
        out = [("f64", False, r.choice([False, 2]), "view", 1, 2), ("f32", True, r.choice([False, 3]), "block", 1, 2)]
        if th:
            for _ in range(3):
                out += [("f32", False, r.choice([False, 2]), lay, 2, 2) for lay in LAYS] + [("f64", True, 2, "block", 1, 3)]
        return out
    replay(run, build(run, ops(J.OPS2), ops(J.OPS3), configs_fn=cf))
    rng = random.Random(f"C13s/{run.seed}/{run.tier}")
    solvers.mixed(run, rng, ["unb", "fd", "fft"], 8 if run.thorough else 1, nworlds=2, ninst=1)
    # the immersed boundary classes
    n = 20 if run.thorough else 4
    ib.replay(run, [f(rng, f"{f.__name__}/{d}d/{i}", d, run.thorough) for f in (ib.support_job, ib.comm_job) for i in range(n) for d in (2, 3)])
    for kind in ("vbf", "bbf"):
        ib.force_replay(run, ib.force_jobs(run, kind, rng, 2 * n, 16))


def check_c12(run):
    run.laws("MC_C12", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C12/{run.seed}/{run.tier}")
    # 1. no two points of one parallel loop conflict
    cf = lambda r, th: [("f64", False, 2, "block", 1, 1)] + ([("f32", True, 4, "block", 1, 1)] if th else [])  # noqa
    jobs = build(run, J.OPS2, J.OPS3, tag="par", configs_fn=cf)
    recs = run.driver("par.py", jobs)
    launches = sum(len(r["ev"]) for r in recs)
    run.notes["launches_checked"] = launches
    run.notes["launches_not_understood"] = sum(r["skipped"] for r in recs)
    if launches:
        run.replay("TracePar", recs, jobs, sum(len(r["ev"]) + 1 for r in recs))
        run.events += launches
    # 2. same result for every number of threads
    jobs = []
    for rep in range(4 if run.thorough else 1):
        for d, ops in ((2, J.OPS2), (3, J.OPS3)):
            for op in ops:
                dt, fx = rng.choice(["f64", "f64", "f32"]), rng.random() < 0.4
                nts = [False, rng.choice([2, 3, 4, 5, 1]), rng.choice([7, 9, 13, 16, 40, True, True])] + ([1, True, 8, 4] if run.thorough else [])
                # more threads than planes, planes that do not divide evenly; scratch fields hold garbage
                vs = [V(dt, fx, nt, "block" if fx else rng.choice(LAYS), rep=2 if nt else 1, nan=1) for nt in nts]
                if op.startswith("filter"):  # low and high orders
                    opts = [dict(order=rng.choice([3, 5]), type="multiplicative"), dict(order=rng.choice([3, 5]), type="convolution"),
                            dict(order=rng.choice([1, 2]), type=rng.choice(["multiplicative", "convolution"]))]
                    for v in vs:
                        v["dt"] = "f64"
                else:
                    opts = [None]
                for k in range(1 if fx and len(opts) == 1 else 3):
                    jobs.append(eq_job(rng, op, d, f"threads/{op}/{d}d/{rep}.{k}", vs, opt=opts[k % len(opts)],
                                       sh=J.shape(rng, d, op, lo=5, hi=14 if d == 2 else 8)))
                    if k and len(opts) == 1:
                        again(jobs)
    replay_eq(run, jobs)
    # 3. the solvers and transforms
    solvers.mixed(run, rng, ["unb", "fft"], 8 if run.thorough else 2, nworlds=1, ninst=4, nev=10)
