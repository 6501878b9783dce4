"""P24: durations, arrivals and faults follow the configured time models."""
import math
import random
from collections import Counter, defaultdict

from . import core, gen, model
from .oracles import TOL, near
from .p_core import ASSUME, FAULTY, INF_Q, RULE, Core
from .props import reg

BINS = 50
LIM = 3.2  # sqrt(n) * D of a Kolmogorov test; exceeded by chance with probability 3e-9
ZLIM = 6.5


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def pit(d, x):
    """probability of a time of at most x under the configured model; None where it has an atom."""
    k, loc, sc = d["distribution_function"], d["location"], d["scale"]
    if k == "exponential":
        return 1.0 - math.exp(-x / loc) if x >= 0 else -1.0
    if k == "normal":
        p0 = phi(-loc / sc)  # a draw below zero becomes 0.1
        if near(x, 0.1, 1e-7) and p0 > 1e-9:
            return None
        return (phi((x - loc) / sc) - p0) / (1 - p0)
    if k == "lognormal":
        if x <= 0:
            return -1.0
        s2 = math.log(1 + sc * sc / (loc * loc))
        return phi((math.log(x) - (math.log(loc) - s2 / 2)) / math.sqrt(s2))
    raise ValueError(k)


def fuzz(x, t):
    """times are differences of clock readings."""
    return near(x, t, 1e-7)


def planned(T):
    """(role, resource, state, time model, value, execution) of every duration that is exactly one draw of a time model."""
    S = T.sys
    batchers = {m for m, r in S.machines.items() if r.get("batch_size")}
    for x in T.exs:
        if x.first_exp is None:
            continue
        v = x.first_exp - x.start
        if x.stype == "Production":
            yield "process", x.res, x.state, S.proc[x.state]["time_model_id"], v, x, x.res in batchers
        elif x.stype in ("Setup", "Charging"):
            yield x.stype.lower(), x.res, x.state, S.state[x.state]["time_model_id"], v, x, False
        elif x.stype in ("Breakdown", "ProcessBreakdown"):
            yield "repair", x.res, x.state, S.state[x.state]["repair_time_model_id"], v, x, False
        elif x.stype == "Transport":
            p = S.proc[x.state]
            if p.get("loading_time_model_id") or p.get("unloading_time_model_id"):
                continue
            if S.tm_values(p["time_model_id"])[0] == "dist":
                continue
            yield "transport", x.res, x.state, p["time_model_id"], v, x, False


def durations(T):
    S = T.sys
    T.draws = 0
    seq, cont = defaultdict(list), defaultdict(list)
    for role, res, state, tm, v, x, batch in planned(T):
        k, d, cyc = S.tm_values(tm)
        T.draws += 1
        if k == "func" and not batch and d["distribution_function"] != "constant" and not near(v, 0.1, 1e-7):
            cont[tm].append(v)
        if k == "const":
            if not fuzz(v, d):
                yield "wrong-duration", f"{x!r} is planned for {v:g} although its time model {tm} is constant {d:g}"
                return
        elif k == "sample":
            if not any(fuzz(v, s) for s in d):
                yield "wrong-duration", f"{x!r} is planned for {v:g}, which is none of the samples {d} of {tm}"
                return
        elif k == "func":
            if v < -TOL:
                yield "wrong-duration", f"{x!r} is planned for {v:g}"
                return
        elif k == "sched":
            if not any(fuzz(v, s) for s in d):
                yield "wrong-duration", f"{x!r} is planned for {v:g}, which is no entry of the schedule {d} of {tm}"
                return
            if not batch:
                seq[(res, state, tm)].append((v, x))
    made = defaultdict(list)
    for p, r in T.created.items():
        made[r.res].append((r.i, r.t))
    for sid, s in S.source.items():
        k, d, _ = S.tm_values(s["time_model_id"])
        if k == "func" and d["distribution_function"] != "constant":
            ts = [t for _, t in sorted(made[sid])]
            cont[s["time_model_id"]] += [b - a for a, b in zip([0.0] + ts, ts) if not near(b - a, 0.1, 1e-7)]
    for tm, vs in sorted(cont.items()):
        # draws of a continuous distribution do not repeat; three pairs closer than 1e-9 happen with a probability below 1e-12
        d = S.tm_values(tm)[1]
        width = d["location"] if d["distribution_function"] == "exponential" else d["scale"]
        if width < 0.01 * max(d["location"], 0.1):
            continue
        vs = sorted(vs)
        eq = [a for a, b in zip(vs, vs[1:]) if b - a < 1e-9]
        if len(eq) >= 3:
            yield "draw-repeated", f"{len(eq)} of {len(vs)} times drawn from the {d['distribution_function']} model {tm} are equal to another one, for example {eq[:3]}"
            return
    for (res, state, tm), l in seq.items():
        # every place of a resource follows the schedule on its own
        k, d, cyc = S.tm_values(tm)
        if S.res[res]["capacity"] == 1:
            for i, (v, x) in enumerate(l):
                w = d[i % len(d)] if cyc else d[i] if i < len(d) else None
                if w is None or not fuzz(v, w):
                    yield "schedule-order", f"{x!r} is draw {i + 1} of {tm} at {res} and planned for {v:g}; its schedule {d} demands {w}"
                    return


# --- statistics over many runs ---------------------------------------------------------------------------
def streams(T):
    """(key, time model data, [values]) of all streams of draws whose length does not depend on the values left out."""
    S = T.sys
    out = defaultdict(list)
    for role, res, state, tm, v, x, batch in planned(T):
        k, d, _ = S.tm_values(tm)
        if k in ("func", "sample") and not batch:
            out[(role, res, state, tm)].append(v)  # inclusion only depends on earlier draws
    H = T.end_time
    made = defaultdict(list)
    for p, r in T.created.items():
        made[r.res].append((r.i, r.t))
    for sid, s in S.source.items():
        k, d, _ = S.tm_values(s["time_model_id"])
        if k not in ("func", "sample"):
            continue
        ts = [t for _, t in sorted(made[sid])]
        out[("arrival", sid, "", s["time_model_id"])] = fixed([b - a for a, b in zip([0.0] + ts, ts)], H, S.tm_expected(s["time_model_id"]))
    for res, r in S.res.items():
        for sid in r["state_ids"]:
            st = S.state[sid]
            if st["type"] != "BreakDownState":
                continue
            k, d, _ = S.tm_values(st["time_model_id"])
            if k not in ("func", "sample"):
                continue
            bd = [x for x in T.of(res, "Breakdown") if x.state == sid]
            gaps, prev = [], 0.0
            for x in bd:
                gaps.append(x.start - prev)
                prev = x.end
                if prev is None:
                    break
            out[("failure", res, sid, st["time_model_id"])] = fixed(gaps, H, S.tm_expected(st["time_model_id"]) + S.tm_expected(st["repair_time_model_id"]))
    return out


def fixed(values, H, mean):
    k = int(0.5 * H / mean)
    return values[:k] if k >= 25 and len(values) >= k else []


def collect(T, scn):
    S = T.sys
    rnd = random.Random(len(T.run.rows))
    ex = {"hist": {}, "lag": {}, "atoms": {}, "cross": [0, 0.0], "route": [0] * BINS}

    def put(key, u):
        h = ex["hist"].setdefault(key, [0] * BINS)
        h[min(BINS - 1, max(0, int(u * BINS)))] += 1

    us = {}
    for (role, res, state, tm), vals in sorted(streams(T).items()):
        k, d, _ = S.tm_values(tm)
        u = []
        for v in vals:
            if k == "sample":
                vs = sorted(d)
                i = min(range(len(vs)), key=lambda i: abs(vs[i] - v))
                x = (i + rnd.random()) / len(vs)
                name = "sample"
            else:
                x = pit(d, v)
                name = d["distribution_function"]
            if name == "normal":
                a = ex["atoms"].setdefault(role, [0, 0.0, 0.0])
                p0 = phi(-d["location"] / d["scale"])
                a[0] += x is None
                a[1] += p0
                a[2] += p0 * (1 - p0)
            if x is None:
                u.append(rnd.random())
                continue
            put(f"{role}:{name}", x)
            u.append(x)
        us[(role, res, state, tm)] = u
        if len(u) > 2:
            l = ex["lag"].setdefault(role, [0, 0.0])
            l[0] += len(u) - 1
            l[1] += sum((a - 0.5) * (b - 0.5) for a, b in zip(u, u[1:])) * 12
    ks = sorted(us)
    for a, b in zip(ks, ks[1:]):
        k = min(30, len(us[a]), len(us[b]))
        ex["cross"][0] += k
        ex["cross"][1] += sum((x - 0.5) * (y - 0.5) for x, y in zip(us[a][:k], us[b][:k])) * 12
    for key, u in us.items():
        if key[0] == "arrival" and u:
            put("first arrival of a run", u[0])
    # random routing: the machines asked for, among those that could be asked
    src_heur = {s["product_type"]: s["routing_heuristic"] for s in S.source.values()}
    for q in T.run.requests:
        if q["kind"] != "production":
            continue
        p = T.created.get(q["prod"])
        if p is None or src_heur.get(S.source[p.res]["product_type"]) != "random":
            continue
        c = sorted(m for m, r in S.machines.items() if q["proc"] in r["process_ids"])
        if len(c) > 1:
            put("random routing", (c.index(q["res"]) + rnd.random()) / len(c))
    return ex


def stoch_tm(b, rng, mean, kinds=("exponential", "normal", "lognormal", "sample")):
    k = rng.choice(kinds)
    mean = float(mean)
    if k == "sample":
        n = rng.randint(2, 5)
        return b.add_tm(dict(samples=[round(mean * (0.5 + i / (n - 1)), 3) for i in range(n)]))
    if k == "exponential":
        return b.add_tm(dict(distribution_function=k, location=mean, scale=0.0))
    if k == "normal":
        return b.add_tm(dict(distribution_function=k, location=mean, scale=round(mean * rng.choice([0.1, 0.2, 0.8]), 3)))
    return b.add_tm(dict(distribution_function=k, location=mean, scale=round(mean * rng.choice([0.3, 1.0, 1.5]), 3)))


def stochastic_system(rng):
    """machines, vehicles, faults and arrivals that all follow distributions, over hundreds of draws."""
    b = gen.B(rng)
    nm, nt = rng.randint(1, 3), rng.randint(1, 2)
    tm = stoch_tm(b, rng, rng.choice([0.5, 1.0]))
    b.proc.append(dict(ID="TP", description="", type="TransportProcesses", time_model_id=tm))
    machines = []
    nproc = rng.randint(1, 2)
    for i in range(nproc):
        b.proc.append(dict(ID=f"P{i}", description="", type="ProductionProcesses", time_model_id=stoch_tm(b, rng, rng.choice([1.0, 2.0])), failure_rate=0.0))
    for i in range(nm):
        m = f"M{i}"
        ps = [f"P{j}" for j in range(nproc)]
        states = []
        if rng.random() < 0.6:
            b.state.append(dict(type="BreakDownState", ID=f"B{i}", description="", time_model_id=stoch_tm(b, rng, 6.0), repair_time_model_id=stoch_tm(b, rng, rng.choice([0.5, 1.0]))))
            states.append(f"B{i}")
        if nproc > 1 and rng.random() < 0.4:
            b.state.append(dict(type="SetupState", ID=f"S{i}a", description="", time_model_id=stoch_tm(b, rng, 0.5), origin_setup="P0", target_setup="P1"))
            b.state.append(dict(type="SetupState", ID=f"S{i}b", description="", time_model_id=stoch_tm(b, rng, 0.5), origin_setup="P1", target_setup="P0"))
            states += [f"S{i}a", f"S{i}b"]
        if rng.random() < 0.2:
            b.state.append(dict(type="ChargingState", ID=f"C{i}", description="", time_model_id=stoch_tm(b, rng, 0.5), battery_time_model_id=b.const(4.0)))
            states.append(f"C{i}")
        for q in ("in", "out"):
            b.queue.append(dict(ID=f"{m}_{q}", description="", capacity=0))
        cap = 1 if any(s.startswith("S") for s in states) else rng.choice([1, 1, 2])
        machines.append(dict(ID=m, description="", location=b.place(5), capacity=cap, controller="PipelineController", control_policy="FIFO", process_ids=ps,
                             process_capacities=[cap] * len(ps), state_ids=states, input_queues=[f"{m}_in"], output_queues=[f"{m}_out"]))
    vs = [dict(ID=f"V{i}", description="", location=b.place(5), capacity=1, controller="TransportController", control_policy="FIFO", process_ids=["TP"],
               process_capacities=None, state_ids=[]) for i in range(2)]
    h = rng.choice(["random", "FIFO", "shortest_queue"])
    for t in range(nt):
        b.prod.append(dict(ID=f"T{t}", description="", product_type=f"T{t}", processes=[f"P{rng.randrange(nproc)}" for _ in range(rng.randint(1, 2))], transport_process="TP", auxiliaries=[]))
        b.queue.append(dict(ID=f"SK{t}_in", description="", capacity=0))
        b.queue.append(dict(ID=f"SO{t}_out", description="", capacity=0))
        b.sink.append(dict(ID=f"SK{t}", description="", location=b.place(5), product_type=f"T{t}", input_queues=[f"SK{t}_in"]))
        b.src.append(dict(ID=f"SO{t}", description="", location=b.place(5), product_type=f"T{t}", time_model_id=stoch_tm(b, rng, rng.choice([4.0, 5.0])),
                          routing_heuristic=h, output_queues=[f"SO{t}_out"]))
    b.res = machines + vs
    return dict(system=b.system(rng.randint(0, 10**6)), horizon=500.0, sched=dict(mode=rng.choice(["fifo", "perm"]), seed=rng.randint(0, 2**31)), meta=dict(stoch=True))


@reg
class P24(Core):
    id = "P24"
    quick, thorough = 400, 12000
    assumptions = ASSUME + ("distributions are judged over all runs together by Kolmogorov distances, lag and cross correlations with error probabilities below 1e-8; "
                            "deviations below about one percent of probability mass pass",)
    swarm_kw = dict(finite_queue=0)
    profiles = [(2, dict(INF_Q, durations={"const": 1, "sched": 3, "sample": 1})), (1, dict(INF_Q, **dict(FAULTY, durations={"sched": 1}))),
                (1, dict(INF_Q, setup=1, n_procs=(2, 4), n_machines=(1, 2), durations={"sched": 2, "const": 1})), (1, dict(INF_Q, charging=1)), (1, dict(INF_Q, batch=1, durations={"sched": 1, "const": 1}))]
    rule = RULE.format("at least ten durations were drawn") + " Every second case is a system in which everything is stochastic, observed over hundreds of draws."
    hits = staticmethod(lambda T: T.draws if getattr(T, "draws", 0) >= 10 else 0)

    def scenario(self, i, seed):
        if i % 2:
            return stochastic_system(random.Random(seed))
        return super().scenario(i, seed)

    def more(self, T, scn):
        return list(durations(T))

    def extra_of(self, T):
        if not T.run.scn["meta"].get("stoch") or T.run.exc or T.run.livelock:
            return None
        return collect(T, T.run.scn)

    def finalize(self, extras):
        hist, lag, atoms, cross = {}, {}, {}, [0, 0.0]
        for e in extras:
            for k, h in e["hist"].items():
                a = hist.setdefault(k, [0] * BINS)
                for i, c in enumerate(h):
                    a[i] += c
            for k, (n, s) in e["lag"].items():
                a = lag.setdefault(k, [0, 0.0])
                a[0] += n
                a[1] += s
            for k, (o, p, v) in e["atoms"].items():
                a = atoms.setdefault(k, [0, 0.0, 0.0])
                a[0] += o
                a[1] += p
                a[2] += v
            cross[0] += e["cross"][0]
            cross[1] += e["cross"][1]
        self.report = {}
        for k, h in sorted(hist.items()):
            n = sum(h)
            if n < 60:
                continue
            acc, D = 0, 0.0
            for i, c in enumerate(h):
                acc += c
                D = max(D, abs(acc / n - (i + 1) / BINS))
            self.report[k] = (n, round(D * n ** 0.5, 2))
            if D * n ** 0.5 > LIM:
                yield "distribution", f"{k}: {n} draws are not distributed as configured (largest deviation of the distribution function {D:.4f})"
        for k, (n, s) in sorted(lag.items()):
            if n > 100:
                self.report["lag " + k] = (n, round(s / n ** 0.5, 2))
                if abs(s) > ZLIM * n ** 0.5:
                    yield "dependent-draws", f"{k}: successive draws of the same time model are correlated ({s / n:.4f} over {n} pairs)"
        for k, (o, p, v) in sorted(atoms.items()):
            self.report["negative " + k] = (o, round(p, 1))
            if abs(o - p) > ZLIM * (v + 1) ** 0.5 + 1:
                yield "negative-draws", f"{k}: {o} draws of normal distributions were replaced by 0.1, {p:.1f} are expected"
        n, s = cross
        if n > 100:
            self.report["cross"] = (n, round(s / n ** 0.5, 2))
            if abs(s) > ZLIM * n ** 0.5:
                yield "dependent-models", f"draws of different time models are correlated ({s / n:.4f} over {n} pairs)"
