"""Generates histories of stencil kernel calls (jobs of harness/flow.py).

Everything random comes from the rng given by the caller (seeded by
VERIF_SEED).  Field contents are integers; the value policies keep every
intermediate of the specification and of the real code an exactly
representable integer (times a power of two)."""
from math import prod  # noqa
import copy
import random

CLOSES = {"stretch_rk3", "filter", "filter_v", "pen_bound", "pen_bound_v"}  # generated for given arrays
VEC = {"diff_flux_v", "diff_step_v", "adv_step_v", "brink_v", "brinkfix_v", "sum_v", "saxpby_v", "set_v",
       "add_v", "ring_v", "filter_v", "pen_bound_v"}
OPS2 = ["diff_flux", "diff_step", "adv_flux", "adv_step", "curl_in", "curl_out", "vort_force", "vort_pen", "brink",
        "brink_v", "brinkfix", "brinkfix_v", "sum", "sum_v", "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod",
        "add", "add_v", "ring", "ring_v", "charfunc", "pen_bound"]
OPS3 = ["diff_flux", "diff_flux_v", "diff_step", "diff_step_v", "adv_flux", "adv_step", "adv_step_v", "curl3", "div3",
        "vort_force", "vort_pen", "stretch_flux", "stretch_euler", "stretch_rk3", "brink", "brink_v", "sum", "sum_v",
        "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod", "cross", "add", "add_v", "ring", "ring_v", "filter",
        "filter_v", "charfunc", "pen_bound", "pen_bound_v"]
NOSTEP = {"adv_flux": 5, "adv_step": 5, "adv_step_v": 5}
GARBAGE = [dict(pat="nan"), dict(pat="nan"), dict(pat="nan"), dict(pat="rand", r=1000000), dict(pat="const", c=7), dict(pat="zero")]


def shape(rng, d, op="", lo=None, hi=None):
    lo = lo or {"adv_flux": 5, "adv_step": 5, "adv_step_v": 5}.get(op, 3)
    hi = hi or (9 if d == 2 else 7)
    hi = max(hi, lo + 2)
    while True:
        sh = [rng.randint(lo, hi) for _ in range(d)]
        if len(set(sh)) > 1 or rng.random() < 0.1:
            return sh


class Hist:
    """Builds one job."""

    def __init__(self, rng, jid, d, dt, sh, nt=False, fx=False, lay="block", E=None, named=False, M=None):
        self.rng = rng
        if E is None:
            E = dict(F=0, V=0, P=0)
        self.j = dict(id=jid, sh=list(sh), dt=dt, nt=nt, fx=fx, lay="block" if fx else lay, seed=rng.randrange(1 << 30),
                      E=E, M=M, bufs={}, ev=[], fixedpt=[], named_t=named, group=f"{d}{dt}{nt}{fx and sh}", cost=1.0)
        self.d, self.dt, self.sh = d, dt, list(sh)

    def buf(self, name, kind, deg=None, init=None, **kw):
        if name not in self.j["bufs"]:
            b = dict(k=kind, init=init or dict(pat="zero"), **kw)
            if deg is not None:
                b["deg"] = deg
            self.j["bufs"][name] = b
        elif init is not None:
            raise AssertionError("buffer exists")
        return name

    def poke(self, **fill):
        self.j["ev"].append(dict(op="poke", fill=fill))

    def call(self, op, a, p, o=None, mag=2.0 ** 14, **kw):
        self.j["ev"].append(dict(op=op, a=a, p=p, o=o or {}, mag=mag, **kw))

    # number of cells
    @property
    def n(self):
        n = 1
        for s in self.sh:
            n *= s
        return n


ROLES = None


def roles(op):
    """role -> (kind, degree) for each op, as in harness/flow.py."""
    global ROLES
    if ROLES is None:
        ROLES = {
            "diff_flux": dict(out="s F+P", f="s F"), "diff_flux_v": dict(out="v F+P", f="v F"),
            "diff_step": dict(f="s F", scr="s F"), "diff_step_v": dict(f="v F", scr="s F"),
            "adv_flux": dict(out="s F+V+P", f="s F", v="v V"),
            "adv_step": dict(f="s F", v="v V", scr="s F"), "adv_step_v": dict(f="v F", v="v V", scr="s F"),
            "curl_in": dict(out="s F+P", f="v F"), "curl_out": dict(out="v F+P", f="s F"),
            "curl3": dict(out="v F+P", f="v F"), "div3": dict(out="s F+P", f="v F"),
            "vort_force": dict(w="w F+P", f="v F"), "vort_pen": dict(w="w F+P", pv="v F", v="v F"),
            "stretch_flux": dict(out="v F+V+P", w="v F", v="v V"),
            "stretch_euler": dict(w="v F", v="v V", scr="v F"),
            "stretch_rk3": dict(w="v F", v="v V", scr="v F", mid="v F"),
            "brink": dict(out="s F", f="s F", chi="s V", t="s F"), "brink_v": dict(out="v F", f="v F", chi="s V", t="v F"),
            "brinkfix": dict(out="s F", f="s F", chi="s V"), "brinkfix_v": dict(out="v F", f="v F", chi="s V"),
            "sum": dict(out="s F", f="s F", g="s F"), "sum_v": dict(out="v F", f="v F", g="v F"),
            "saxpby": dict(out="s F", f="s F", g="s F"), "saxpby_v": dict(out="v F", f="v F", g="v F"),
            "set": dict(out="s F"), "set_v": dict(out="v F"), "copy": dict(out="s F", f="s F"),
            "cprod": dict(out="c F+V", f="c F", g="c V"), "cross": dict(out="v F+V", f="v F", g="v V"),
            "add": dict(out="s F", f="s F"), "add_v": dict(out="v F", f="v F"),
            "ring": dict(out="s F"), "ring_v": dict(out="v F"),
            "filter": dict(f="s F", scr="s F", mid="s F"), "filter_v": dict(f="v F", scr="s F", mid="s F"),
            "charfunc": dict(out="s -29", f="s F"),
            "pen_bound": dict(f="s F"), "pen_bound_v": dict(f="v F"),
        }
    return {r: tuple(x.split(" ")) for r, x in ROLES[op].items()}


def field_pat(rng, d, r, m=1, vec=False):
    c = rng.random()
    if c < 0.62:
        return dict(pat="rand", r=r, m=m)
    if c < 0.70:
        return dict(pat="sparse", r=r, m=m)
    if c < 0.76:
        return dict(pat="impulse", r=r, m=m)
    if c < 0.84:
        return dict(pat="linear", r=max(1, r // (3 if r < 1000 else 64)), m=m)
    if c < 0.90:
        return dict(pat="axis", a=rng.randrange(d), r=r, m=m)
    if c < 0.94:
        return dict(pat="const", c=rng.randint(-r, r), m=m)
    if vec:
        return dict(pat="comp", c=rng.randrange(d), r=r, m=m)
    return dict(pat="pos", r=r, m=m)


def vel_pat(rng, d):
    c = rng.random()
    if c < 0.4:
        return dict(pat="rand", r=rng.choice([1, 2, 3]))
    if c < 0.5:
        return dict(pat="alt", r=2)
    if c < 0.66:
        return dict(pat="comp", c=rng.randrange(d), r=2)
    if c < 0.7:
        return dict(pat="zero")
    if c < 0.8:
        return dict(pat="pos", r=2)
    if c < 0.9:
        return dict(pat="pos", r=2, m=-1)
    return dict(pat="sparse", r=2)


def garbage(rng):
    return copy.deepcopy(rng.choice(GARBAGE))


def fixedvals(rng, n, r):
    """A value per component: often zero, equal to another one, or one."""
    c = rng.random()
    if c < 0.4:
        return [rng.randint(-r, r) for _ in range(n)]
    if c < 0.5:
        return [rng.randint(-r, r)] * n
    return [rng.choice([0, 0, 1, -1, r, rng.randint(-r, r)]) for _ in range(n)]


def prefac(rng, hi=5):
    return rng.choice([1, 1, 2, 3, -1, -2, hi, -hi, 0])


def plan_call(h, op, pre=None, inst=0, o=None, big=False, alias=None, dep=None, p=None, fills=None):
    """Appends a poke and a call of op with fresh random contents.  Buffers are
    named <pre><role>; returns the roles used."""
    rng, d, dt = h.rng, h.d, h.dt
    pre = op + "_" if pre is None else pre
    R = roles(op)
    a, fill = {}, {}
    for r, (k, deg) in R.items():
        name = pre + r
        if op == "charfunc":
            if r == "out":
                h.buf(name, k, None, None, e=-29)
            else:
                h.buf(name, k, None)
        else:
            h.buf(name, k, deg)
        a[r] = name
    p = dict(p or {})
    o = dict(o or {})
    mag = 2.0 ** 13
    kw = {}
    if op in ("charfunc",):
        return _charfunc(h, a, o, p, inst)
    if op in ("pen_bound", "pen_bound_v"):
        return _penbound(h, op, a, o, p, inst)
    R9 = 9
    if big:  # stay below 2^24 (f32) or 2^29 (f64) in every intermediate
        R9 = {"f32": 2 ** 15, "f64": 2 ** 24}[dt]
        mag = {"f32": 2.0 ** 21, "f64": 2.0 ** 31}[dt]
    if op.startswith("diff") or op.startswith("curl") or op == "div3":
        if op.startswith("diff_step") and dt == "f64" and not big and "k" not in p and rng.random() < 0.3:
            p["k"], R9, mag = rng.choice([1, -1]) * (2 ** 25 + 2 * rng.randint(1, 2 ** 20) + 1), 1, 2.0 ** 31  # more digits than single precision has
        p.setdefault("k", prefac(rng))
        if op == "div3":
            p["k"] *= 2
        if op in ("diff_flux", "diff_flux_v", "curl_out", "curl3", "div3"):
            o.setdefault("reset", rng.random() < 0.5)
        fill[a["f"]] = field_pat(rng, d, R9, vec=R["f"][0] == "v")
        if "out" in a:
            fill[a["out"]] = dict(pat="rand", r=50)
        if "scr" in a:
            fill[a["scr"]] = garbage(rng)
    elif op.startswith("adv"):
        p.setdefault("k", prefac(rng, 3))
        fill[a["f"]] = field_pat(rng, d, R9 if not big else R9 // (8 if dt == "f32" else 64), 6)
        if big:
            mag *= 4
        fill[a["v"]] = vel_pat(rng, d)
        if "out" in a:
            fill[a["out"]] = dict(pat="rand", r=50)
        if "scr" in a:
            fill[a["scr"]] = garbage(rng)
    elif op in ("vort_force", "vort_pen"):
        p.setdefault("k", prefac(rng))
        for r in a:
            fill[a[r]] = field_pat(rng, d, R9 // (2 if big else 1), vec=True) if r != "w" else dict(pat="rand", r=R9)
            if r == "w" and d == 2 and fill[a[r]]["pat"] == "comp":
                fill[a[r]] = dict(pat="rand", r=R9)
    elif op in ("stretch_flux", "stretch_euler"):
        p.setdefault("k", prefac(rng))
        fill[a["w"]] = field_pat(rng, d, R9 // (4 if big else 1), vec=True)
        fill[a["v"]] = field_pat(rng, d, 4, vec=True)
        if "out" in a:
            fill[a["out"]] = dict(pat="rand", r=50)
        if "scr" in a:
            fill[a["scr"]] = garbage(rng)
    elif op == "stretch_rk3":
        p.setdefault("k", rng.choice([1, -1, 1, 2]))
        fill[a["w"]] = field_pat(rng, d, 3, 12, vec=True)
        fill[a["v"]] = field_pat(rng, d, 2, vec=True)
        fill[a["scr"]] = garbage(rng)
        fill[a["mid"]] = garbage(rng)
        mag = 2.0 ** 18
    elif op.startswith("brink"):
        p.setdefault("k", rng.choice([0, 1, 1, 2, 3, 7, -1]))
        stiff = p["k"] == -1
        if stiff:  # a penalty that leaves nothing of the field
            big = False
            p["k"], R9 = rng.choice([(1023, 900), (4095, 900)] + ([(65535, 900), (2 ** 20 - 1, 400)] if dt == "f64" else []))
        fill[a["chi"]] = rng.choice([dict(pat="list", vals=[0, 1]), dict(pat="list", vals=[0, 1, 2, 3, 5]), dict(pat="zero"),
                                     dict(pat="const", c=1)]) if not stiff else dict(pat="list", vals=[0, 1])
        res = dict(pat="brinkf", r=R9, k=p["k"], chi=a["chi"])
        # brinkf draws its own random result
        if "t" in a:
            fill[a["t"]] = field_pat(rng, d, R9, vec=op.endswith("_v"))
            res["t"] = a["t"]
        else:
            nv = d if op.endswith("_v") else 1
            p.setdefault("val", fixedvals(rng, nv, R9))
            res["val"] = p["val"]
        kw["valnp"] = rng.random() < 0.5
        fill[a["out"]] = dict(pat="rand", r=50)
        first = dict(fill)
        h.poke(**first)
        fill = {a["f"]: dict(res, pat="brinkf")}
        mag = 2.0 ** 15 if not big else mag
        if stiff:
            mag = 2.0 ** 13
    elif op in ("sum", "sum_v", "saxpby", "saxpby_v", "copy"):
        if op.startswith("saxpby"):
            wide = dt == "f64" and not big and not p and rng.random() < 0.4
            if wide:
                p[rng.choice(["k", "l"])], mag = rng.choice([1, -1]) * (2 ** 25 + 2 * rng.randint(1, 2 ** 20) + 1), 2.0 ** 31
            p.setdefault("k", rng.randint(-4, 4))
            p.setdefault("l", rng.randint(-4, 4))
        for r in a:
            fill[a[r]] = field_pat(rng, d, R9, vec=op.endswith("_v")) if mag < 2.0 ** 31 or big else dict(pat="rand", r=R9)
    elif op in ("cprod", "cross"):
        for r in a:
            fill[a[r]] = dict(pat="rand", r=R9 if r != "g" or not big else 5)
        if big:
            mag *= 2
    elif op in ("set", "set_v", "add", "add_v", "ring", "ring_v"):
        nv = d if op.endswith("_v") else 1
        p.setdefault("val", fixedvals(rng, nv, R9))
        for r in a:
            fill[a[r]] = field_pat(rng, d, R9, vec=op.endswith("_v"))
        kw["valnp"] = rng.random() < 0.5
        if op.startswith("ring"):
            o.setdefault("width", rng.randint(1, max(1, min(h.sh) // 2)))
    elif op in ("filter", "filter_v"):
        o.setdefault("order", rng.choice([0, 1, 1, 2]))
        o.setdefault("type", rng.choice(["multiplicative", "convolution"]))
        if o["order"] < 3:
            m = 4 ** (3 * o["order"])
            fill[a["f"]] = field_pat(rng, d, 5, m, vec=op == "filter_v")
        else:  # the divisions are rounded, by the specification and by the code
            h.j["fixedpt"] += [x for x in (a["f"],) if x not in h.j["fixedpt"]]
            fill[a["f"]] = field_pat(rng, d, 5 if rng.random() < 0.5 else 2 ** 10, 2 ** (22 if dt == "f64" else 20), vec=op == "filter_v")
            if max(fill[a["f"]].get("r", 1), abs(fill[a["f"]].get("c", 1))) > 100 or fill[a["f"]]["pat"] == "linear":
                fill[a["f"]]["m"] = 2 ** 14
            p["tol"] = (3 if dt == "f64" else 400) * 3 * o["order"] + 4
        fill[a["scr"]] = garbage(rng)
        fill[a["mid"]] = garbage(rng)
        mag = 2.0 ** 18
    else:
        raise AssertionError(op)
    if fills:
        for r, f in fills.items():
            fill[a[r]] = f
    if alias:
        for r, s in alias.items():
            fill.pop(a[r], None)
            a[r] = a[s]
    h.poke(**fill)
    h.call(op, a, p, o, mag, inst=inst, **kw)
    return a


BW = [0.25, 0.5, 1.0, 2.0, 0.0625, 2.0 ** -14, 1024.0]
BWX = BW + [0.1, 0.3, 1e-3, 3e-6, 1e-8, 700.0]  # the ends of the ramp are left out for the others


def _charfunc(h, a, o, p, inst):
    rng = h.rng
    nb = h.j["bufs"][a["f"]]
    if "bw" not in nb:  # one blend width per level set buffer
        nb["bw"] = o.get("bw") or rng.choice(BWX)
        nb["sc"] = nb["bw"] / 24
    bw = o["bw"] = nb["bw"]
    h.j["fixedpt"] += [x for x in (a["out"],) if x not in h.j["fixedpt"]]
    # level set ints k, value k * bw / 24; at the exact ends only for dyadic widths
    pats = [dict(pat="rand", r=30), dict(pat="rand", r=23), dict(pat="rand", r=500),
            dict(pat="list", vals=[-24, 24, 0, 23, -23, 25, -25, 12, -12])]
    if bw not in BW:
        pats = [dict(pat="list", vals=[k for k in range(-30, 31) if abs(k) != 24])]
    h.poke(**{a["f"]: rng.choice(pats), a["out"]: dict(pat="rand", r=50)})
    h.call("charfunc", a, dict(p, tol=3 if h.dt == "f64" else 260), o, None, inst=inst)
    return a


def _penbound(h, op, a, o, p, inst):
    rng, d = h.rng, h.d
    if "coord" not in h.j:
        dx = rng.choice([1.0, 0.5, 0.125, 2.0 ** -10] + ([0.1, 1 / 3, 0.0123] if h.dt == "f64" else []))
        h.j["coord"] = dict(x0=[dx * rng.choice([0.5, 0.25, -3.5, 10.0]) for _ in range(d)], dx=dx)
    o.setdefault("width", rng.choice([w for w in (0, 1, 1, 2, 3, 3, 4, 5, 6) if 2 * w <= min(h.sh)]))
    o["dx"] = h.j["coord"]["dx"]
    o["dxt"] = rng.random() < 0.5
    h.j["fixedpt"] += [x for x in (a["f"],) if x not in h.j["fixedpt"]]
    if h.dt == "f64":
        f, p["prec"] = field_pat(rng, d, 2 ** 28, 1, vec=op.endswith("_v")), 2 ** 29
    else:
        f, p["prec"] = field_pat(rng, d, 4000, 65536, vec=op.endswith("_v")), 2 ** 15
    p["big"] = 2 ** 28
    if f["pat"] == "linear":
        p["big"] = 2 ** 28
        f["r"] = max(1, f["r"] // 8)
    h.poke(**{a["f"]: f})
    h.call(op, a, p, o, None, inst=inst)
    return a
