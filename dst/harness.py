"""Check driver: seeded search over executions, minimisation, replay, known findings, evidence.

A Prop decides one property.  Its `scenario(i, seed)` derives the i-th scenario (plain JSON) from the
check seed; `evaluate(scn)` executes it under the simulator and returns an Outcome.  Everything a run
does is a function of the scenario alone, so a scenario file is a replay file.
"""
import copy
import hashlib
import json
import os
import random
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
DEADLINE = float(os.environ.get("DST_DEADLINE", "780"))


class Outcome:
    __slots__ = ("viol", "stats", "sig", "nontrivial", "sample", "extra")

    def __init__(self, viol=(), stats=None, sig="", nontrivial=False, sample=None, extra=None):
        self.viol = list(viol)  # [(kind, message)]
        self.stats = stats or {}
        self.sig = sig  # identifies the interleaving / state reached
        self.nontrivial = nontrivial
        self.sample = sample
        self.extra = extra  # additive payload for Prop.finalize


class Prop:
    id = ""
    technique = "deterministic simulation: seeded search over schedules and fault sequences"
    quick = 1000
    thorough = 20000
    rule = ""
    assumptions = ()
    real = "prodsys simulation, factories, adapters, models (all real code) on SimPy's event loop"
    stub = "event ordering, tie-breaking, both random number generators and the clock are the simulator's; progress bar and logging off"
    interleaving_measure = "sha256 of the canonical event log"

    def scenario(self, i, seed):
        raise NotImplementedError

    def evaluate(self, scn):
        raise NotImplementedError

    def shrinks(self, scn):
        return iter(())

    def finalize(self, extras):
        """cross-run checks: yields (kind, message)."""
        return iter(())

    def canon(self, scn):
        return scn

    def facts(self, stats):
        return {}


def index_seed(prop, seed, i):
    h = hashlib.sha256(f"{prop}|{seed}|{i}".encode()).digest()
    return int.from_bytes(h[:7], "big")


def _one(prop, seed, i):
    scn = prop.scenario(i, index_seed(prop.id, seed, i))
    o = prop.evaluate(scn)
    return (i, o.viol, o.stats, hashlib.sha1(o.sig.encode()).hexdigest()[:16] if o.sig else "", o.nontrivial,
            o.sample if i < 3 or o.viol else None, o.extra)


_prop = None


def _init(pid):
    global _prop
    from . import props
    _prop = props.get(pid)


def _work(args):
    seed, lo, hi = args
    out = []
    for i in range(lo, hi):
        try:
            out.append(_one(_prop, seed, i))
        except BaseException:
            return ("harness", i, traceback.format_exc(), out)
        if out[-1][1]:
            break
    return ("ok", None, None, out)


# --- known findings -----------------------------------------------------------------------------
def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def known_for(pid):
    return [k for k in load_known() if k["property"] == pid and k["status"] == "known"]


def matches(entry, scn, kind):
    """a violation is a listed finding only if it is the listed history itself."""
    return kind == entry["kind"] and scn_id(scn) == entry["scenario_sha"]


def scn_id(scn):
    return hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:24]


# --- minimisation ---------------------------------------------------------------------------------
def minimise(prop, scn, kind, budget_s=40.0, budget_n=1500):
    t0 = time.time()
    n = 0
    best = scn
    improved = True
    while improved:
        improved = False
        for cand in prop.shrinks(best):
            if time.time() - t0 > budget_s or n >= budget_n:
                return best, n
            n += 1
            try:
                o = prop.evaluate(cand)
            except Exception:
                continue
            if any(k == kind for k, _ in o.viol):
                best = cand
                improved = True
                break
    return best, n


# --- driver ------------------------------------------------------------------------------------------
def run_check(prop, tier, seed, count=None, quiet=False):
    t0 = time.time()
    n = count or (prop.quick if tier == "quick" else prop.thorough)
    chunk = max(1, min(prop.__dict__.get("chunk", 25) if False else getattr(prop, "chunk", 25), n // (WORKERS * 4) or 1))
    jobs = [(seed, lo, min(lo + chunk, n)) for lo in range(0, n, chunk)]
    stats, sigs, nontriv = Counter(), set(), set()
    samples, extras, done = [], [], 0
    viol = None
    cut = False
    with ProcessPoolExecutor(WORKERS, initializer=_init, initargs=(prop.id,)) as ex:
        try:
            pending = []
            it = iter(jobs)
            for j in it:
                pending.append(ex.submit(_work, j))
                if len(pending) >= WORKERS * 3:
                    break
            while pending:
                f = pending.pop(0)
                left = DEADLINE - (time.time() - t0)
                if left <= 0:
                    cut = True
                    break
                try:
                    status, bad, tb, out = f.result(timeout=left)
                except TimeoutError:
                    cut = True
                    break
                for i, v, st, sig, nt, sample, extra in out:
                    done += 1
                    for k, x in st.items():
                        if k.startswith("max_"):
                            stats[k] = max(stats[k], x)
                        else:
                            stats[k] += x
                    if sig:
                        sigs.add(sig)
                        if nt:
                            nontriv.add(sig)
                    if sample is not None and len(samples) < 3:
                        samples.append(sample)
                    if extra is not None:
                        extras.append(extra)
                    if v and viol is None:
                        viol = (i, v)
                if status == "harness":
                    print(f"HARNESS-ERROR property={prop.id} index={bad}\n{tb}", file=sys.stderr)
                    _kill(ex)
                    return 3
                if viol is not None:
                    break
                for j in it:
                    pending.append(ex.submit(_work, j))
                    break
            if viol is not None or cut:
                _kill(ex)
        except BrokenProcessPool:
            print(f"HARNESS-ERROR property={prop.id}: a worker process was killed", file=sys.stderr)
            return 4
    wall = time.time() - t0
    rc = 0
    nviol = 0
    if cut and viol is None:
        print(f"HARNESS-ERROR property={prop.id}: wall-clock limit reached after {done} of {n} runs", file=sys.stderr)
        write_evidence(prop, tier, seed, done, n, stats, sigs, nontriv, samples, wall, 0, "deadline")
        return 5
    if viol is not None:
        i, v = viol
        kind, msg = v[0]
        scn = prop.scenario(i, index_seed(prop.id, seed, i))
        small, tries = minimise(prop, scn, kind)
        o = prop.evaluate(small)
        msg = next((m for k, m in o.viol if k == kind), msg)
        path = write_replay(prop, seed, i, kind, msg, small, tries, o)
        print(f"{kind}: {msg}")
        print(f"VIOLATION property={prop.id} replay={path}")
        rc, nviol = 1, 1
    else:
        fin = list(prop.finalize(extras))
        if fin:
            kind, msg = fin[0]
            path = write_replay(prop, seed, 0, kind, msg, {"kind": "aggregate", "seed": seed, "count": n}, 0, None)
            print(f"{kind}: {msg}")
            print(f"VIOLATION property={prop.id} replay={path}")
            rc, nviol = 1, 1
    for k in known_for(prop.id):
        with open(os.path.join(ROOT, k["replay"])) as f:
            ks = json.load(f)["scenario"]
        o = prop.evaluate(ks)
        hit = [m for kk, m in o.viol if kk == k["kind"]]
        other = [(kk, m) for kk, m in o.viol if kk != k["kind"]]
        if hit:
            print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
        if other and rc == 0:
            path = write_replay(prop, seed, -1, other[0][0], other[0][1], ks, 0, o)
            print(f"{other[0][0]}: {other[0][1]}")
            print(f"VIOLATION property={prop.id} replay={path}")
            rc, nviol = 1, 1
    write_evidence(prop, tier, seed, done, n, stats, sigs, nontriv, samples, time.time() - t0, nviol, None)
    if not quiet:
        print(f"{prop.id} {tier}: {done} runs, {len(nontriv)} distinct non-trivial, {time.time() - t0:.1f}s, rc={rc}")
    return rc


def _kill(ex):
    for p in list((getattr(ex, "_processes", None) or {}).values()):
        try:
            p.kill()
        except Exception:
            pass


def write_replay(prop, seed, i, kind, msg, scn, tries, o):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{scn_id(scn)[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop.id, "check_seed": seed, "index": i, "kind": kind, "message": msg,
                   "minimiser_runs": tries, "signature": hashlib.sha1(o.sig.encode()).hexdigest() if o and o.sig else None,
                   "trace": (o.sample if o else None), "scenario": scn}, f, indent=1, default=str)
    return path


def replay(path):
    from . import props
    with open(path) as f:
        d = json.load(f)
    prop = props.get(d["property"])
    scn = d["scenario"]
    if scn.get("kind") == "aggregate":
        return run_check(prop, "quick", scn["seed"], count=scn["count"])
    o = prop.evaluate(scn)
    same = [m for k, m in o.viol if k == d["kind"]]
    sig = hashlib.sha1(o.sig.encode()).hexdigest() if o.sig else None
    for k, m in o.viol:
        print(f"{k}: {m}")
    if same:
        print(f"reproduced ({'identical event log' if sig == d.get('signature') else 'same violation, different log'})")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("not reproduced" + ("" if not o.viol else " (another violation)"))
    return 1 if o.viol else 0


def write_evidence(prop, tier, seed, done, planned, stats, sigs, nontriv, samples, wall, nviol, note):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    st = dict(sorted(stats.items()))
    faults = {k[6:]: v for k, v in st.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in st.items() if k.startswith("probe.")}
    other = {k: v for k, v in st.items() if not k.startswith(("fault.", "probe."))}
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(nontriv),
        "rule": prop.rule,
        "samples": samples or ["no run completed"],
        "planned_runs": planned,
        "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(done / max(wall, 1e-9) * 3600),
        "simulated_time": round(float(other.pop("sim_time", 0.0)), 3),
        "faults_injected": faults,
        "probes": probes,
        "counters": other,
        "distinct_interleavings": {"count": len(sigs), "measure": prop.interleaving_measure},
        "components_real": prop.real,
        "components_stub": prop.stub,
        "workers": WORKERS,
    }
    if getattr(prop, "report", None):
        cov["statistics"] = {str(k): list(v) for k, v in prop.report.items()}
    if note:
        cov["note"] = note
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": nviol, "assumptions": list(prop.assumptions)}
    tmp = os.path.join(d, f".{prop.id}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f"{prop.id}.json"))
