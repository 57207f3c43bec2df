"""Common parts of the checks: scratch space, running the real code under
PyPy, running TLC, verdicts, known findings and evidence."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOPHT_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


class Broken(Exception):
    """The check itself could not run: neither 0 nor 1."""


class Run:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vf_{pid}_")
        self.states = self.transitions = self.traces = self.events = 0
        self.violations = []  # (what, replay payload)
        self.known = {}  # finding key -> count
        self.samples = []
        self.notes = {}
        self.thorough = tier == "thorough"

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------- driver
    def driver(self, script, jobs, groups=None, timeout=700, env=None):
        """Runs harness/<script> on the jobs, spread over processes."""
        if not jobs:
            return []
        n = groups or min(NPROC, max(1, len(jobs)))
        order = sorted(range(len(jobs)), key=lambda i: jobs[i].get("group", ""))
        # keep jobs of one group together where that does not unbalance
        chunks = [[] for _ in range(n)]
        weight = [0.0] * n
        cur = None
        for i in order:
            g = jobs[i].get("group", "")
            w = jobs[i].get("cost", 1.0)
            tot = sum(j.get("cost", 1.0) for j in jobs)
            if cur is None or g != cur[0] or weight[cur[1]] > tot / n:
                k = weight.index(min(weight))
                cur = (g, k)
            chunks[cur[1]].append(i)
            weight[cur[1]] += w
        chunks = [c for c in chunks if c]
        out = [None] * len(jobs)

        def one(k):
            d = self.dir(f"{script}.{len(os.listdir(self.scratch))}.{k}")
            ji, jo = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
            with open(ji, "w") as f:
                json.dump([jobs[i] for i in chunks[k]], f)
            e = dict(os.environ)
            e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", XDG_CACHE_HOME=os.path.join(d, "cache"),
                     XDG_CONFIG_HOME=os.path.join(d, "cfg"), HOME=d, TMPDIR=d, OMP_WAIT_POLICY="passive",
                     VERIF_SEED=str(self.seed), VERIF_TIER=self.tier)
            e.pop("OMP_NUM_THREADS", None)
            e.update(env or {})
            p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script), ji, jo], env=e, cwd=d,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                txt, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return k, None, "timed out after %ss" % timeout, 0
            if p.returncode != 0 or not os.path.exists(jo):
                return k, None, txt.decode(errors="replace")[-3000:] + f"\n(exit {p.returncode})", p.returncode
            with open(jo) as f:
                return k, json.load(f), "", 0

        with ThreadPoolExecutor(len(chunks)) as ex:
            for k, res, err, rc in ex.map(one, range(len(chunks))):
                if res is None:
                    raise DriverDied(script, [jobs[i] for i in chunks[k]], err, rc)
                for i, r in zip(chunks[k], res):
                    out[i] = r
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, files=None, workers=None, timeout=800, extra=(), name=None, heap="4g", data=None, consts=None):
        """Runs TLC on spec/<module>.tla in a scratch directory."""
        d = self.dir(name or f"tlc_{module}_{len(os.listdir(self.scratch))}")
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for fn, obj in (data or {}).items():
            with open(os.path.join(d, fn), "w") as f:
                json.dump(obj, f)
        cfgname = (cfg or module) + ".cfg"
        if consts:
            with open(os.path.join(d, cfgname)) as f:
                t = f.read()
            for k, v in consts.items():
                t, c = re.subn(rf"(?m)^(\s*(?:CONSTANT\s+)?{k}\s*=).*$", rf"\1 {v}", t)
                if not c:
                    raise Broken(f"{cfgname} has no constant {k}")
            with open(os.path.join(d, cfgname), "w") as f:
                f.write(t)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
               "-workers", str(workers or NPROC), "-metadir", os.path.join(d, "states"),
               "-config", cfgname, *extra, module + ".tla"]
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            txt, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise Broken(f"TLC on {module} timed out")
        txt = txt.decode(errors="replace")
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(txt[-6000:])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return dict(rc=p.returncode, out=txt, generated=gen, distinct=dist, dir=d,
                    lines=[x for x in txt.splitlines()])

    def plans(self, module, num, depth, seed, consts=None, cfg=None, timeout=300):
        """Histories generated by simulating a specification with TLC."""
        for k in range(3):
            r = self.tlc(module, cfg=cfg, workers=1, consts=consts, timeout=timeout,
                         extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed + 7919 * k)))
            out = []
            for m in re.finditer(r'(?m)^"PLAN (.*)"$', r["out"]):
                out.append(json.loads(json.loads('"' + m.group(1) + '"')))
            if r["rc"] != 0:
                break
            if len(out) >= (num + 1) // 2:  # else simulated behaviours too short for a plan
                break
        if r["rc"] != 0 or not out:
            raise Broken(f"no plans from {module} (rc {r['rc']}):\n" + r["out"][-3000:])
        m = re.search(r"(\d+) states checked", r["out"])
        self.notes.setdefault("plans", {})[f"{module}{consts or ''}"] = dict(plans=len(out), simulated_states=int(m.group(1)) if m else 0)
        return out

    def laws(self, module, consts=None, **kw):
        """Exhaustive check of the laws the specification must satisfy."""
        r = self.tlc(module, consts=consts, **kw)
        if r["rc"] != 0:
            raise Broken(f"law check {module} failed:\n" + r["out"][-3000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.notes.setdefault("law_models", {})[module] = dict(states=r["distinct"], transitions=r["generated"])
        return r

    def replay(self, module, hists, jobs, nlines, only=None, timeout=800):
        """Conformance: replays recorded histories in TLC.

        hists: list written to trace.json; nlines: expected number of distinct
        states; returns list of (kind, hist id, text) tuples."""
        found = []
        byid = {h["id"]: i for i, h in enumerate(hists)}
        r = self.tlc(module, data={"trace.json": hists}, timeout=timeout)
        bad = any(k == "MISMATCH" for k, _ in tuples(r["out"]))
        # after a mismatch the replay goes on with the observed values, which may
        # leave the range of TLC's integers: the mismatch is the verdict then
        if r["rc"] != 0 and not bad:
            raise Broken(f"replay {module} failed (rc {r['rc']}):\n" + "\n".join(x for x in r["lines"] if not re.match(r"\d+\. Line", x))[-4000:])
        if r["distinct"] != nlines and not bad:
            raise Broken(f"replay {module}: {r['distinct']} states instead of {nlines}:\n" + r["out"][-3000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += len(hists)
        for kind, txt in tuples(r["out"]):
            m = re.search(r'"hist", "?([^",]+)"?', txt)
            hid = m.group(1) if m else "?"
            found.append((kind, hid, txt))
        for kind, hid, txt in found:
            m = re.search(r'"property", "(C\d+)"', txt)
            if only and m and m.group(1) != only:
                # another property's matter: its own check reports it
                self.notes["left_to_" + m.group(1)] = self.notes.get("left_to_" + m.group(1), 0) + 1
                continue
            i = byid.get(hid)
            job = jobs[i] if i is not None else None
            self.report(kind, txt, dict(module=module, job=job, hist=hid))
        return found

    # ----------------------------------------------------------- verdicts
    def report(self, kind, txt, payload):
        if kind == "DEVIATION":
            kf = match_known(self.pid, txt)
            if kf:
                self.known[kf["what"]] = self.known.get(kf["what"], 0) + 1
                return
            if self.pid != "C05":
                # which of the two outcomes is right is the subject of C05 alone
                self.notes["deviations_left_to_C05"] = self.notes.get("deviations_left_to_C05", 0) + 1
                return
        self.violations.append((txt, payload))

    def finish(self, assumptions=None):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples[:6], **self.notes),
                  wall_s=round(time.time() - self.t0, 2))
        if assumptions:
            ev["assumptions"] = assumptions
        if self.known:
            ev["known_findings"] = self.known
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        if self.violations:
            rdir = os.path.join(edir, "replay")
            os.makedirs(rdir, exist_ok=True)
            payload = dict(property=self.pid, tier=self.tier, seed=self.seed,
                           violations=[dict(what=w, **p) for w, p in self.violations[:20]])
            h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{self.pid}-{h}.json")
            with open(path, "w") as f:
                json.dump(payload, f, default=str)
            ev["violations"] = [w for w, _ in self.violations[:20]]
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for what, n in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what} (seen {n} times)")
        if self.violations:
            for w, _ in self.violations[:12]:
                print("  " + w[:600])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"{self.pid} held: {self.states} states, {self.traces} traces of the real code, "
              f"{time.time() - self.t0:.1f} s")
        return 0


class DriverDied(Exception):
    """The driver process ended without a result.  crashed: by a signal that
    only faulty native code (the generated kernels, pyfftw) raises."""

    def __init__(self, script, jobs, err, rc=0):
        super().__init__(f"{script}: {err}")
        self.script, self.jobs, self.err = script, jobs, err
        self.crashed = rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL)


def tuples(txt):
    """The PrintT tuples <<"KIND", ...>> in TLC output, possibly wrapped."""
    out = []
    for m in re.finditer(r'<<\s*"(MISMATCH|DEVIATION)"(.*?)>>(?=\s*\n)', txt, re.S):
        body = re.sub(r"\s+", " ", m.group(0))
        out.append((m.group(1), body))
    return out


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        line = line.strip()
        if line and not line.startswith("#"):
            d = json.loads(line)
            if d.get("status") == "known":
                out.append(d)
    return out


def match_known(pid, txt):
    for d in known_findings():
        if d["property"] == pid and re.search(d["match"], txt):
            return d
    return None


def setup():
    """Nothing is built in advance: TLC reads spec/, the drivers import /repo."""
    for f in (PY, JARS.split(":")[0], os.path.join(REPO, "sopht")):
        if not os.path.exists(f):
            print("missing " + f)
            return 2
    subprocess.run(["java", "-version"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    print("ok")
    return 0
