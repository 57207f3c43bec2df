"""C19-C22: immersed boundary communicators and forcings."""
import random

from .core import Broken


def dxs(rng):
    """(dx, shift, exact): exact if cell boundaries are hit exactly."""
    if rng.random() < 0.5:
        dx = 2.0 ** rng.choice([rng.randint(-7, 2), -20, 14])
        return dx, dx * rng.choice([0.5, 0.0, -1.5, 3.25]), True
    dx = rng.choice([0.1, 1 / 3, 0.013, 1 / 24, 7.7, 3e-5, 1.7e3])
    return dx, dx * rng.choice([0.5, 0.25, -2.0]), False


def support_job(rng, jid, d, thorough):
    dx, shift, exact = dxs(rng)
    n = rng.choice([1, 2, 3, 5, 8]) if d == 2 else rng.choice([1, 2, 4])
    j = dict(id=jid, sh=[9, 10] if d == 2 else [7, 8, 9], seed=rng.randrange(1 << 30), dt=rng.choice(["f64", "f32"]), dx=dx, shift=shift,
             dxt=rng.random() < 0.5, lay="block", n=n, ev=[], group=str(d))
    for _ in range(8 if thorough else 4):
        ty = rng.choice(["cosine", "peskin"])
        nc = rng.choice([1, d])
        if rng.random() < 0.5:
            lo = 0 if exact else 1
            nodes = [dict(c=[rng.randint(1, 12) for _ in range(d)], k=[rng.choice([lo, rng.randint(lo, 23), 12, 23]) for _ in range(d)]) for _ in range(n)]
            if n > 2:
                nodes[1] = nodes[0]  # two nodes in one place
            j["ev"] += [dict(op="support", nodes=nodes, type=ty, nc=nc), dict(op="weights", type=ty, nc=nc)]
        else:
            cells = [[rng.uniform(1, 15) for _ in range(d)] for _ in range(n)]
            if rng.random() < 0.3:
                cells[0] = [3.0 + rng.choice([1e-4, 0.9999, 0.5]) for _ in range(d)]
            elif rng.random() < 0.7:  # next to cell boundaries and midpoints, down to the last digits that are told apart
                cells[-1] = [rng.randint(2, 12) / rng.choice([1, 1, 2]) + rng.choice([-1, -1, 1]) * 2.0 ** -rng.randint(10, 26) for _ in range(d)]
            j["ev"] += [dict(op="support_any", cells=cells, type=ty, nc=nc), dict(op="weights_any", type=ty, nc=nc)]
    return j


def comm_job(rng, jid, d, thorough):
    dx = 2.0 ** rng.choice([rng.randint(-6, 3), rng.randint(-6, 3), -16, 10])
    sh = [rng.randint(4, 9 if d == 2 else 6) for _ in range(d)]
    n = rng.choice([1, 2, 3, 6, 9]) if d == 2 else rng.choice([1, 2, 3, 4])
    r = rng.random()
    if r < 0.15:  # a long axis
        sh = [4] * d
        sh[rng.randrange(d)] = rng.randint(30, 45)
    elif r < 0.3:  # many nodes
        n = rng.choice([17, 40, 70]) if d == 2 else rng.choice([10, 17, 33])
    j = dict(id=jid, sh=sh, seed=rng.randrange(1 << 30), dt=rng.choice(["f64", "f32"]), dx=dx, shift=dx / 2, dxt=rng.random() < 0.5,
             lay=rng.choice(["block", "step"]), n=n, ev=[], group=str(d))
    if j["dt"] == "f64" and rng.random() < 0.6:  # units that are no powers of two
        dx = rng.choice([0.1, 1 / 3, 7.7, 1 / 24, 3e-5])
        j.update(dx=dx, shift=dx / 2, FU=rng.uniform(0.1, 10), WU=rng.uniform(0.1, 10))

    def place():
        bs = [[rng.randint(1, sh[d - 1 - c] - 3) for c in range(d)] for _ in range(n)]
        r = rng.random()
        if n > 1 and r < 0.4:
            bs[1] = list(bs[0])  # coincident
        if r < 0.2:
            bs = [bs[0]] * n
        return dict(pat="seq", vals=[bs[i][c] for c in range(d) for i in range(n)])

    def wt():
        r = rng.random()
        if r < 0.2:
            return dict(pat="impulse", c=1)
        return dict(pat="rand", r=rng.choice([1, 5]))
    j["ev"].append(dict(op="poke", fill=dict(idx=place(), wt=wt(), e1=dict(pat="rand", r=9), e2=dict(pat="const", c=0), ev=dict(pat="rand", r=9),
                                             l1=dict(pat="rand", r=9), l2="nan", lv=dict(pat="rand", r=9))))
    known = {"l1", "lv", "e1", "e2", "ev"}
    mag = dict(e1=9, e2=1, ev=9, l1=9, lv=9)
    for _ in range(14 if thorough else 8):
        r = rng.random()
        if r < 0.25:
            j["ev"].append(dict(op="poke", fill={"idx": place(), "wt": wt()}))
        vec = rng.random() < 0.5
        op = rng.choice(["interp", "spread"])
        e = "ev" if vec else rng.choice(["e1", "e2"])
        lg = "lv" if vec else rng.choice(["l1", "l2"])
        if op == "interp":
            mag[lg] = mag[e] * 5 * 4 ** d
            known.add(lg)
        else:
            if lg not in known:
                continue
            mag[e] = mag[e] + mag[lg] * 5 * n
        if mag[lg if op == "interp" else e] > 2 ** 20:
            fill = {}
            for f in (e, lg):
                fill[f] = dict(pat="rand", r=9)
                mag[f] = 9
            j["ev"].append(dict(op="poke", fill=fill))
            mag[lg if op == "interp" else e] = 9 * 5 * 4 ** d * n
            known.add(lg)
        j["ev"].append(dict(op=op, vec=vec, eul=e, lag=lg, type=rng.choice(["cosine", "peskin"])))
    return j


def replay(run, jobs):
    hists = run.driver("ib.py", jobs)
    run.events += sum(sum(1 for e in h["ev"] if e["op"] != "poke") for h in hists)
    if not run.events:
        raise Broken("no events")
    run.replay("TraceIB", hists, jobs, sum(len(h["ev"]) + 1 for h in hists))
    for h in hists[:2]:
        run.samples.append(dict(hist=h["id"], shape=h["sh"], events=[dict(op=e["op"], type=e.get("type"), nodes=e.get("nodes")) for e in h["ev"] if e["op"] != "poke"][:3]))


def parts(run, rng, kind):
    """Many nodes at once against the same nodes in small groups (harness/parts.py)."""
    jobs = []
    for i in range(12 if run.thorough else 4):
        d = 2 + i % 2
        sh = [rng.randint(12, 120 if d == 2 else 30) for _ in range(d)]
        n = int(2 ** rng.uniform(6.5, 11 if d == 2 else 10))
        reg = []
        for s in sh:
            m = min(s, 24 if d == 2 else 9)
            a = rng.randint(0, s - m)
            reg.append([a, a + m])
        jobs.append(dict(id=f"parts/{kind}/{d}d/{i}", kind=kind, d=d, dt=["f64", "f32"][i // 2 % 2], sh=sh, n=n, part=rng.randint(7, 48),
                         pick=sorted({0, n - 1, rng.randrange(n), rng.randrange(n)}), region=reg, type=rng.choice(["cosine", "peskin"]),
                         dx=rng.choice([1.0, 0.25, 1 / 64, 0.1]), seed=rng.randrange(1 << 30), group="parts", cost=1.0))
    groups = run.driver("parts.py", jobs)
    run.events += sum(len(g["ev"]) for g in groups)
    run.replay("TraceEq", groups, jobs, sum(len(g["ev"]) + 1 for g in groups))


def check_c19(run):
    run.laws("MC_C19", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C19/{run.seed}/{run.tier}")
    replay(run, [support_job(rng, f"sup/{d}d/{i}", d, run.thorough) for i in range(60 if run.thorough else 14) for d in (2, 3)])
    parts(run, rng, "com")


def check_c20(run):
    run.laws("MC_C20", consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"C20/{run.seed}/{run.tier}")
    replay(run, [comm_job(rng, f"com/{d}d/{i}", d, run.thorough) for i in range(60 if run.thorough else 14) for d in (2, 3)])
    parts(run, rng, "com")


def force_jobs(run, kind, rng, num, len0):
    plans = run.plans("ForcePlan", num, 4 * len0, rng.randrange(1, 10 ** 6), consts=dict(Kind=f'"{kind}"', Len0=len0))
    jobs = []
    for i, p in enumerate(plans):
        d = 2 + i % 2
        dx = 2.0 ** rng.randint(-6, 3)
        jobs.append(dict(id=f"{kind}/{d}d/{i}", kind=kind, sh=[rng.randint(4, 9 if d == 2 else 6) for _ in range(d)], seed=rng.randrange(1 << 30),
                         dt=rng.choice(["f64", "f32"]), dx=dx, TU=rng.choice([0, 0, -3, -11, -20, -34, 10, 20]), VU=rng.choice([0, 0, -24, 12]),
                         KU=rng.choice([0, 0, 20, -12]), shift=dx * rng.choice([0.5, 0.5, 0.0, -1.5]), dxt=rng.random() < 0.5,
                         lay=rng.choice(["block", "block", "step"]), bodies=dict(B1=rng.choice([1, 2, d, 4]), B2=rng.choice([1, 3, 5, 5, 12])), ev=p, group=str(d)))
        j = jobs[-1]
        if i % 5 in (1, 2):  # double precision to the last digits: nodes on grid points, units that are no powers of two
            j.update(fine=True, dt="f64", TUm=rng.uniform(1, 2), VUm=rng.uniform(1, 2), KUm=rng.uniform(1, 2))
            if kind == "bbf":  # 1 + coefficient times dt: powers of two
                one = rng.random() < 0.5
                for e in p:
                    if "kq" in e:
                        e["kq"] = 4 if one else rng.choice([0, 4, 12, 28])
                    if "dt8" in e:
                        e["dt8"] = rng.choice([8, 24, 56]) if one else 8
    return jobs


def force_replay(run, jobs):
    hists = run.driver("force.py", jobs)
    run.events += sum(sum(1 for e in h["ev"] if e["op"] != "poke") for h in hists)
    run.replay("TraceForce", hists, jobs, sum(len(h["ev"]) + 1 for h in hists))
    for j in jobs[:2]:
        run.samples.append(dict(hist=j["id"], shape=j["sh"], events=j["ev"][:8]))


def check_force(run):
    kind = dict(C21="vbf", C22="bbf")[run.pid]
    run.laws("MC_" + run.pid, consts=dict(Deep="TRUE" if run.thorough else "FALSE"))
    rng = random.Random(f"{run.pid}/{run.seed}/{run.tier}")
    if run.thorough:
        jobs = force_jobs(run, kind, rng, 120, 40)
    else:
        jobs = force_jobs(run, kind, rng, 36, 22)
    force_replay(run, jobs)
    parts(run, rng, kind)
