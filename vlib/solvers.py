"""C16-C18 (and the solver part of C12-C15): histories of solver calls."""
import random
from math import prod

from .core import Broken

LAYS = ["block", "view", "step", "swap"]
DIV = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 28, 30, 35, 36, 40, 42]


CLASSES = {2: ["wide", "tall", "square", "wide", "tall", "thin1", "thin2", "long1", "long2", "any"],
           3: ["zyx", "zxy", "yzx", "yxz", "xzy", "xyz", "cube", "thin", "long1", "long2", "long3", "any"]}


def deck(rng, d):
    """Shape classes in random order, over and over: every class comes soon."""
    while True:
        c = list(CLASSES[d])
        rng.shuffle(c)
        yield from c


def draw_shape(rng, d, kind, cls):
    lo, (mid, top) = (1, (9, 40)) if kind == "unb" else (2, (9, 30)) if kind == "fd" else (2, (9, 42))
    if d == 3:
        mid, top = 5, min(top, 42 if kind == "fft" else 26)
    ok = [x for x in (DIV if kind == "fft" else range(1, 99)) if lo <= x <= top]
    pick = lambda a, b: rng.choice([x for x in ok if a <= x <= b])  # noqa
    if d == 2:
        if cls == "wide":
            y = pick(3, 6)
            return [y, pick(y + 3, top)]
        if cls == "tall":
            x = pick(3, 6)
            return [pick(x + 3, top), x]
        if cls == "square":
            n = pick(3, mid + 3)
            return [n, n]
        if cls in ("thin1", "thin2"):
            s = [lo, pick(2, top)]
        elif cls in ("long1", "long2"):
            s = [pick(2, 3), pick(2 * top // 3, top)]
        else:
            s = [pick(lo, mid), pick(lo, mid)]
        return s[::-1] if cls.endswith("2") else s
    if cls in ("zyx", "zxy", "yzx", "yxz", "xzy", "xyz"):  # axes in increasing size
        a = pick(2, 3)
        b = pick(a + 1, mid)
        c = pick(b + 1, b + 5)
        v = dict(zip(cls, (a, b, c)))
        return [v["z"], v["y"], v["x"]]
    if cls == "cube":
        n = pick(2, 5)
        return [n, n, n]
    if cls == "thin":
        s = [lo, pick(lo, 3), pick(2, 12)]
        rng.shuffle(s)
        return s
    if cls.startswith("long"):
        s = [pick(lo, 2), 2, pick(18, top)]
        k = int(cls[4]) - 1
        return s[3 - k:] + s[:3 - k]
    return [pick(lo, mid) for _ in range(3)]


def cells(rng, d, kind, cap, dk):
    cls = next(dk)
    while True:
        sh = draw_shape(rng, d, kind, cls)
        if 4 <= prod(sh) <= cap:
            return sh


def spacing(rng, kind="", d=2, dt="f64"):
    """dx = (m / n) 2^k; far: a spacing many orders of magnitude away from one."""
    far = kind in ("fd", "unb") and rng.random() < 0.4
    if far:
        e = 30 if dt == "f64" else 18
        k = rng.choice([rng.randint(-e, -6), rng.randint(-e, -6), rng.randint(4, e)])
        return dict(m=rng.choice([1, 1, 3]), n=rng.choice([1, 1, 7]), k=k)
    return rng.choice([dict(m=1, n=1, k=rng.randint(-8, 4)), dict(m=rng.randint(1, 9), n=rng.randint(1, 25), k=rng.randint(-4, 2)),
                       dict(m=1, n=10, k=0)])


def pattern(rng, sh, small=False):
    n = prod(sh)
    r = 9 if n <= 100 else 3
    zero = dict(pat="const", c=0)
    imp = [dict(pat="impulse", at=rng.randrange(n), c=rng.choice([1, -7])),
           dict(pat="impulse", at=rng.choice([0, n - 1, sh[-1] - 1]), c=5)]
    tiny = dict(pat="few", k=2, r=2)  # judged to double precision
    imp += [tiny, tiny]
    if small:  # few sources
        return rng.choice(imp + [dict(pat="few", k=5), dict(pat="few", k=8), zero])
    return rng.choice([dict(pat="rand", r=r), dict(pat="rand", r=r), dict(pat="pos", r=r), dict(pat="corners", r=9), dict(pat="sparse", r=9),
                       dict(pat="edge", r=r, ax=rng.randrange(len(sh)), hi=rng.random() < 0.5),
                       dict(pat="const", c=rng.choice([1, -2])), zero] + imp)


def history(rng, jid, kind, d, thorough, nworlds=2, ninst=2, nev=7, cap=None, same=False, nts=(1, 2, 3, 8), dk=None, inplace=False,
            large=False):
    """kind: unb, fd or fft.  same: all worlds have the same shape."""
    cap = cap or dict(unb=150, fd=150, fft=170)[kind]
    big = thorough and rng.random() < 0.3
    worlds, insts = {}, []
    j = dict(id=jid, seed=rng.randrange(1 << 30), worlds=worlds, ev=[], group=kind, cost=1.0)
    dk = dk or deck(rng, d)
    dts = [["f64", "f32"][i % 2] if same else rng.choice(["f64", "f32"]) for i in range(nworlds)]
    sh0, u0 = None, spacing(rng, kind, d, "f32" if "f32" in dts else "f64")
    if large:
        ok = [42, 45, 48, 56, 60, 63, 70, 72] if kind == "fft" and d == 2 else [14, 15, 16, 18, 20, 21] if kind == "fft" else \
            range(45, 75) if d == 2 else range(14, 20)
        sh0, same = [rng.choice(list(ok)) for _ in range(d)], True
    for i in range(nworlds):
        if sh0 is None or not same:
            sh0 = cells(rng, d, kind, cap, dk)
        f = dict(r1="s", r2="s", s1="s", s2="s")
        if kind == "fft":
            f = dict(r1="s", r2="s", s1="s", s2="s", h1="h", h2="hh")
        elif d == 3:
            f.update(rv="v", sv="v")
        worlds[f"w{i}"] = dict(sh=sh0, dt=dts[i], lay=rng.choice(LAYS), fields=f, fft=kind == "fft")
        if kind == "fd" and d == 2:  # the 2D solver takes contiguous solution fields only
            worlds[f"w{i}"]["block"] = ["s1", "s2", "r2"]
        for q in range(ninst):
            u = u0 if same else spacing(rng, kind, d, dts[i])
            insts.append(dict(inst=f"{kind}{i}.{q}", w=f"w{i}", u=u, nt=rng.choice(nts)))
            if kind == "unb":
                j["cost"] += 0.5
    wc = lambda w, n: f"{w}.{n}"  # noqa
    content = {}

    def poke(w, n, p):
        j["ev"].append(dict(op="poke", fill={wc(w, n): p}))

    for w in worlds:
        for n, k in worlds[w]["fields"].items():
            if n.startswith("s") or k == "hh":
                poke(w, n, dict(pat="nan"))
    pats = {}

    def fresh(w, n):
        """New contents, remembered so that the same contents come back elsewhere."""
        sh, k = worlds[w]["sh"], worlds[w]["fields"][n]
        if k == "h":
            p = dict(m=rng.choice([0, 1, 2, 4]) if prod(sh) <= 80 else rng.choice([1, 2, 4]))
            poke(w, n, p)
            return None
        key = (tuple(sh), k)
        old = pats.setdefault(key, [])
        small = (large and kind == "fft") or kind == "unb" and d == 2 and any(abs(I["u"]["k"]) > 8 for I in insts)
        if old and rng.random() < 0.5:
            c = rng.choice(old)
        elif k == "v":
            ps = [pattern(rng, sh, small) for _ in range(d)]
            c = dict(pat="v", per=[dict(pat="seq", vals=values(rng, sh, p)) for p in ps])
            old.append(c)
        else:
            tiny = kind != "fd" and rng.random() < 0.3
            c = dict(pat="seq", vals=values(rng, sh, dict(pat="few", k=2, r=2) if tiny else pattern(rng, sh, small)))
            old.append(c)
        poke(w, n, c)
        content[wc(w, n)] = c
        return c

    for w in worlds:
        for n, k in worlds[w]["fields"].items():
            if n.startswith("r") or k == "h":
                fresh(w, n)
    for _ in range(nev * nworlds * (2 if big else 1)):
        I = rng.choice(insts)
        w = I["w"]
        fs = worlds[w]["fields"]
        if rng.random() < 0.6:
            fresh(w, rng.choice([n for n in fs if n.startswith("r") or fs[n] == "h"]))
        if rng.random() < 0.3:  # what the outputs held must not matter
            for n, k in fs.items():
                if n.startswith("s") or k == "hh":
                    poke(w, n, dict(pat="nan"))
        ev = dict(I)
        after = None
        if kind in ("unb", "fd"):
            if d == 3 and rng.random() < 0.35:
                ev.update(op=kind + "_v", o=wc(w, "sv"))
                ev["in"] = wc(w, "rv")
            else:
                ev.update(op=kind, o=wc(w, rng.choice(["s1", "s2"])))
                ev["in"] = wc(w, rng.choice(["r1", "r2"]))
            if inplace and rng.random() < 0.15:  # the right hand side makes room for the solution
                if ev["in"].endswith("r1"):
                    ev["in"] = wc(w, "r2")
                ev["o"] = ev["in"]
            u = I["u"]
            c = content[ev["in"]]
            cs = c["per"] if c["pat"] == "v" else [c]
            if ev["o"] == ev["in"]:
                after = ev["in"].split(".")[1]
            ev["key"] = [f"{kind} {worlds[w]['sh']} {u if kind == 'unb' else ''} {x['vals']}" for x in cs]
        else:
            op = rng.choice(["rfft", "rfft", "irfft", "pair", "scipy_f", "scipy_b", "rfft"])
            if op == "irfft":
                fresh(w, "h1")
                ev.update(op=op, o=wc(w, "s1"), scr=[wc(w, "h1")])
                ev["in"] = wc(w, "h1")
            else:
                ev.update(op=op, o=wc(w, "h2" if op in ("rfft", "scipy_f") else rng.choice(["s1", "s2"])))
                ev["in"] = wc(w, rng.choice(["r1", "r2"]))
                if op == "pair":
                    ev.update(tmp=wc(w, "h2"), scr=[wc(w, "h2")])
                if op in ("scipy_f", "scipy_b"):
                    ev.update(tmp=wc(w, "h2" if op == "scipy_b" else "s1"))
                    ev["scr"] = [ev["tmp"]]
                if op.startswith("scipy"):  # the other implementation on the same data
                    ev["key"] = f"{'F' if op == 'scipy_f' else 'B'} {worlds[w]['sh']} {content[ev['in']]['vals']}"
                    j["ev"].append(ev)
                    ev = dict(ev, op="rfft" if op == "scipy_f" else "pair", o=wc(w, "h2" if op == "scipy_f" else "s2"))
                    ev["scr"] = ev["scr"] if op == "scipy_b" else []
                    op = ev["op"]
                ev["key"] = f"{'F' if op in ('rfft', 'scipy_f') else 'B'} {worlds[w]['sh']} {content[ev['in']]['vals']}"
        j["ev"].append(ev)
        if after:
            fresh(w, after)
    return j


def values(rng, sh, p):
    n = prod(sh)
    r = p.get("r", 9)
    if p["pat"] == "rand":
        return [rng.randint(-r, r) for _ in range(n)]
    if p["pat"] == "pos":
        return [rng.randint(1, r) for _ in range(n)]
    if p["pat"] == "const":
        return [p["c"]] * n
    if p["pat"] == "impulse":
        v = [0] * n
        v[p["at"] % n] = p["c"]
        return v
    if p["pat"] == "few":
        v = [0] * n
        for _ in range(p["k"]):
            v[rng.randrange(n)] = rng.randint(-p.get("r", 7), p.get("r", 7))
        return v
    if p["pat"] == "edge":  # one face only
        st = prod(sh[p["ax"] + 1:])
        return [rng.randint(-r, r) if i // st % sh[p["ax"]] == (sh[p["ax"]] - 1 if p["hi"] else 0) else 0 for i in range(n)]
    if p["pat"] == "sparse":
        return [rng.randint(-r, r) if rng.random() < 0.15 else 0 for _ in range(n)]
    v = []
    for i in range(n):  # corners only
        q, corner = i, True
        for s in reversed(sh):
            corner = corner and q % s in (0, s - 1)
            q //= s
        v.append(rng.randint(-r, r) if corner else 0)
    return v


def window_job(rng, jid, d, dt):
    """A large grid and windows of it (see harness/solve.py run_win)."""
    cells = 2.0 ** rng.uniform(12.5, 15.5 if d == 2 else 15)
    sh = [max(8, int(cells ** (1 / d) * 2 ** rng.uniform(-1, 1))) for _ in range(d)]
    wins = []
    for i in range(3):
        s = [rng.randint(2, 7 if d == 2 else 5) for _ in range(d)]
        o = [0 if i == 0 else n - m if i == 1 else rng.randint(0, n - m) for n, m in zip(sh, s)]
        wins.append(dict(o=o, s=s, p=rng.choice([0.2, 1.0]), nt=rng.choice([1, 4])))
    return dict(id=jid, sh=sh, dt=dt, wins=wins, u=spacing(rng), seed=rng.randrange(1 << 30), group="win", cost=1.5)


def replay(run, jobs, eq=True):
    res = run.driver("solve.py", jobs)
    hists, eqs = [r["hist"] for r in res], [r["eq"] for r in res]
    calls = sum(1 for h in hists for e in h["ev"] if e["op"] != "poke")
    if not calls:
        raise Broken("no solver calls")
    run.events += calls
    run.replay("TraceSolve", hists, jobs, sum(len(h["ev"]) + 1 for h in hists))
    if eq:
        run.replay("TraceEq", eqs, jobs, sum(len(h["ev"]) + 1 for h in eqs))
    for h in hists[:2]:
        run.samples.append(dict(hist=h["id"], calls=[dict(op=e["op"], inst=e["inst"], shape=e["sh"], dx=e["u"]) for e in h["ev"] if e["op"] != "poke"][:4]))


def check_solver(run):
    kind = dict(C16="unb", C17="fd", C18="fft")[run.pid]
    run.laws("MC_" + run.pid, consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}")
    jobs = []
    dks = {d: deck(rng, d) for d in (2, 3)}
    for i in range((30 if kind == "unb" else 60) if run.thorough else (10 if kind == "unb" else 12)):
        for d in (2, 3):
            same = i % 3 == 0
            jobs.append(history(rng, f"{kind}/{d}d/{i}", kind, d, run.thorough, nworlds=2 if same else rng.randint(2, 3), same=same,
                                nev=5, dk=dks[d], inplace=True))
    for i in range(6 if run.thorough else 2):
        for d in (2, 3):
            if kind == "unb":
                jobs.append(window_job(rng, f"unb/{d}d/win{i}", d, ["f64", "f32"][i % 2]))
            else:
                jobs.append(history(rng, f"{kind}/{d}d/large{i}", kind, d, False, nworlds=1, ninst=2, nev=3, large=True))
    replay(run, jobs)


def mixed(run, rng, kinds, n, **kw):
    """Solver histories for the properties about all public computations."""
    jobs = []
    for kind in kinds:
        for i in range(n):
            for d in (2, 3):
                jobs.append(history(rng, f"{kind}/{d}d/m{i}", kind, d, run.thorough, **kw))
    replay(run, jobs)
