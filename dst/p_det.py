"""P19, P20: reproducibility, isolation and prefix-consistency of runs."""
import atexit
import copy
import json
import os
import random
import subprocess
import sys

from . import core, gen
from .p_core import INF_Q, RULE, SWARM, Core
from .props import reg

STOCH = dict(durations={"const": 0.25, "sched": 0.15, "exp": 0.2, "normal": 0.2, "lognormal": 0.1, "sample": 0.2}, heuristic=["random", "shortest_queue", "FIFO"],
             arrivals={"finite": 0.3, "cyclic": 0.2, "exp": 0.3, "sample": 0.2}, confuse=0.1)
ALL = dict(SWARM, policy=["FIFO", "LIFO", "SPT"], tpolicy=["FIFO", "SPT_transport"], charging=0.15, **STOCH)

_helpers = {}


def helper(hashseed):
    p = _helpers.get(hashseed)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), DST_KEEP_HASHSEED="1")
        p = subprocess.Popen([sys.executable, "-m", "dst.helper"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True,
                             cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        _helpers[hashseed] = p
    return p


@atexit.register
def _close():
    for p in _helpers.values():
        try:
            p.kill()
        except Exception:
            pass


def ask(hashseed, scn):
    for attempt in (0, 1):
        p = helper(hashseed)
        try:
            p.stdin.write(json.dumps(scn) + "\n")
            p.stdin.flush()
            line = p.stdout.readline()
            if line:
                d = json.loads(line)
                if "error" in d:
                    raise core.HarnessError("helper: " + d["error"])
                return d
        except (BrokenPipeError, OSError):
            pass
        _helpers.pop(hashseed, None)
    raise core.HarnessError("the helper process ended twice")


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"row {i}: [{x}] / [{y}]"
    if len(a) != len(b):
        return f"{len(a)} / {len(b)} rows; first extra: [{(a + b)[min(len(a), len(b))] if len(a) > len(b) else b[len(a)]}]"
    return None


def outcome(run):
    return (run.log_hash(), None if run.exc is None else run.exc[0], run.livelock is not None, run.truncated)


def dump(adapter):
    d = adapter.model_dump(mode="json", exclude={"valid_configuration", "reconfiguration_cost", "scenario_data"})
    return json.dumps(d, sort_keys=True, default=str)


@reg
class P19(Core):
    id = "P19"
    quick, thorough = 800, 40000
    profiles = [(2, dict(INF_Q, **STOCH)), (3, dict(ALL)), (1, dict(ALL, plan={"edges": 1, "dict": 1}, n_procs=(3, 6), plan_len=(3, 5)))]
    swarm = 0.0001
    rule = RULE.format("at least ten events were logged and compared")
    real = Core.real + "; a second real Python process per worker (different hash seed)"

    def scenario(self, i, seed):
        rng = random.Random(seed)
        prof = rng.choices(self.profiles, weights=[p[0] for p in self.profiles])[0][1]
        scn = gen.gen(rng, gen.profile(**dict(prof, horizon="short" if rng.random() < 0.5 else "mid")))
        scn["other"] = gen.gen(random.Random(rng.randint(0, 15)), gen.profile(**dict(ALL, horizon="short")))
        scn["other"]["horizon"] = 20.0
        scn["vary"] = dict(hashseed=1, rng=rng.randint(0, 2**31), order=rng.random() < 0.5)
        return scn

    def hits_(self, run):
        return len(run.rows) // 10

    def run(self, scn):
        v = scn["vary"]
        ad = core.make_adapter(scn["system"])
        ad.validate_configuration()
        self.before = dump(ad)
        a = core.execute(scn, max_steps=60000, adapter=ad)
        self.after = dump(ad)
        core.execute(scn["other"], max_steps=20000)
        self.fresh = core.execute(scn, max_steps=60000, rng_seed=v["rng"])
        self.again = core.execute(scn, max_steps=60000, adapter=ad, rng_seed=v["rng"] + 1)
        self.proc = ask(v["hashseed"], {k: scn[k] for k in ("system", "horizon", "sched")})
        return a

    hits = staticmethod(lambda T: len(T.run.rows) // 10)

    def more(self, T, scn):
        a = T.run
        brief = [r.brief() for r in a.rows]
        if self.before != self.after:
            yield "configuration-changed", "the run changed the configuration object: " + json_diff(json.loads(self.before), json.loads(self.after))
        if a.rng_kept is not None and not all(a.rng_kept):
            yield "rng-disturbed", f"the caller's random number generators are not restored (initialisation {a.rng_kept[0]}, run {a.rng_kept[1]})"
        if outcome(self.fresh) != outcome(a):
            yield "not-reproducible", "the same system with the same seed gives another history after another run: " + str(first_diff(brief, [r.brief() for r in self.fresh.rows]))
        if outcome(self.again) != outcome(a):
            yield "not-rerunnable", "a second run of the same configuration object gives another history: " + str(first_diff(brief, [r.brief() for r in self.again.rows]))
        if self.proc["hash"] != a.log_hash():
            yield "process-dependent", f"another Python process (hash seed {scn['vary']['hashseed']}) gives another history: " + str(first_diff(brief[:4000], self.proc["rows"]))


def json_diff(a, b, path=""):
    if type(a) is not type(b):
        return f"{path}: {a!r} -> {b!r}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return json_diff(a.get(k), b.get(k), path + "/" + str(k))
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return json_diff(x, y, path + "/" + str(i))
    return f"{path}: {a!r} -> {b!r}"


@reg
class P20(Core):
    id = "P20"
    quick, thorough = 2400, 90000
    profiles = [(2, dict(INF_Q)), (2, dict(INF_Q, **STOCH)), (3, dict(ALL))]
    swarm = 0.0001
    rule = RULE.format("at least ten events lie before the earlier cut-off")

    def scenario(self, i, seed):
        rng = random.Random(seed)
        prof = rng.choices(self.profiles, weights=[p[0] for p in self.profiles])[0][1]
        scn = gen.gen(rng, gen.profile(**dict(prof, horizon="short" if rng.random() < 0.5 else "mid")))
        h = scn["horizon"]
        scn["cuts"] = sorted(round(rng.uniform(1, h) if rng.random() < 0.5 else rng.randint(1, int(h)), 3) for _ in range(2))
        return scn

    def run(self, scn):
        a = core.execute(scn, max_steps=60000)
        self.cut = []
        for c in scn["cuts"]:
            s = dict(scn, horizon=float(c))
            self.cut.append(core.execute(s, max_steps=60000, rng_seed=int(c * 1000)))
        return a

    hits = staticmethod(lambda T: sum(1 for r in T.run.rows if r.t < T.run.scn["cuts"][-1]) // 10)

    def more(self, T, scn):
        a = T.run
        if a.exc or a.livelock or a.truncated:
            return
        for c, b in zip(scn["cuts"], self.cut):
            full = [r.brief() for r in a.rows if r.t < c]
            part = [r.brief() for r in b.rows]
            if any(r.t > c for r in b.rows):
                yield "beyond-horizon", f"a run of length {c:g} logs events after its end: {[r.brief() for r in b.rows if r.t > c][:2]}"
            # what happens exactly at the cut may or may not be included
            part_in = [r.brief() for r in b.rows if r.t < c]
            if part_in != full:
                yield "prefix", f"a run of length {c:g} differs from the first {c:g} of a longer run: {first_diff(part_in, full)}"
            rest = [x for x in part[len(part_in):]]
            allowed = [r.brief() for r in a.rows if r.t == c]
            if rest != allowed[: len(rest)]:
                yield "prefix", f"at the cut-off {c:g} the run logs {rest[:3]}, the longer run {allowed[:3]}"
