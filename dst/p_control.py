"""P32: control by an agent (prodsys.control): every decision is asked for and honoured, episodes are reproducible, observations are true.

The agent is a seeded player of the gymnasium environments; the simulation below it is executed under the simulator like every other one.
"""
import copy
import random
from collections import Counter, defaultdict

import numpy as np

from . import core, gen, model
from .p_core import RULE, SWARM, Core
from .p_det import first_diff
from .props import reg

ENDLESS = {"cyclic": 0.7, "const": 0.3}
BASE = dict(SWARM, multi_queue=0, finite_queue=0.0, batch=0.0, charging=0.1, confuse=0.1, arrivals=ENDLESS, sched={"fifo": 0.5, "perm": 0.5}, plan_len=(1, 4))
# nothing is random: a policy and an agent that plays it have to give the same history
DET = dict(BASE, heuristic=["FIFO"], multi_sink=0, rework=0, store=0, aux=0, plan={"list": 1.0}, durations={"const": 0.5, "sched": 0.5}, capability=0.2, link=0.1)
STOCH = dict(BASE, durations={"const": 0.3, "exp": 0.3, "normal": 0.2, "sample": 0.2}, heuristic=["random", "shortest_queue", "FIFO"], arrivals={"exp": 0.6, "cyclic": 0.4})
ORACLES = ("lifecycle", "plan", "capacity", "queues", "breakdown")


class Play:
    """one episode: the environment, what it was asked and what it did."""

    def __init__(self, scn, episode_seed, act_seed, env=None, watch=True):
        self.scn, self.seed, self.rng = scn, episode_seed, random.Random(act_seed)
        self.bad, self.decisions, self.obs_checked, self.env, self.invalid = [], [], 0, env, 0
        self.watch = watch

    def flag(self, kind, msg):
        if not any(k == kind for k, _ in self.bad):
            self.bad.append((kind, msg))

    def guard(self, what, f):
        """the caller's random numbers are not touched."""
        a = (random.getstate(), repr(np.random.get_state()))
        r = f()
        if a != (random.getstate(), repr(np.random.get_state())):
            self.flag("agent-callers-random-state", f"{what} changes the random state of its caller")
        return r

    def drive(self, adapter, run, ctl, attach):
        from prodsys.util import runner as rn
        self.run, self.ctl = run, ctl
        ctl.key(_Zero, 0, self.scn["horizon"], 0)  # the place of the timer that ends a plain run: the same schedule follows
        orig = rn.Runner.initialize_simulation

        def init(r):
            orig(r)
            attach(r)

        if self.env is None:
            self.env = self.make(adapter)
        env = self.env
        env.play = self
        rn.Runner.initialize_simulation = init
        try:
            obs, info = self.guard("reset", lambda: env.reset(seed=self.seed))
        finally:
            rn.Runner.initialize_simulation = orig
        if (obs, info) != ("obs", {"info": 1}):
            self.flag("agent-reset", "reset does not give the observation and the info of the environment")
        for n in range(4000):
            now = env.runner.env.now
            if now >= self.scn["horizon"]:
                break
            self.n = n
            if self.watch and n % 3 == 0:
                self.observe(env, now)
            self.before(env, now)
            a = self.action(env)
            self.rewarded = None
            r = self.guard("step", lambda: env.step(a))
            if env.step_count != n + 1 + self.steps0:
                self.flag("agent-steps", f"{n + 1} steps were taken, the environment counts {env.step_count - self.steps0}")
            if r[0] != "obs" or r[1] != 7.5 or r[2] is not (env.runner.env.now >= self.scn["horizon"]) or r[3] is not False:
                self.flag("agent-step-result", f"step gives {r!r} at t={env.runner.env.now:g}")
            self.after(env)
        return env.runner.env.now

    # -- what can be seen ------------------------------------------------------------------------
    def observe(self, env, now):
        S = self.S
        obs = env.observers if hasattr(env, "observers") else [env.observer]
        if hasattr(env, "observers") and [o.resource.data.ID for o in obs] != [r["ID"] for r in S.raw["resource_data"]]:
            self.flag("agent-observers", f"the observers are those of {[o.resource.data.ID for o in obs]}, not of every resource in order")
            return
        ed = self.ctl.event_data
        recent = {d["Resource"] for d in ed[-40:] if d["Time"] == now}
        moved = {d["Product"] for d in ed[-40:] if d["Time"] == now}
        state = defaultdict(dict)
        steps = Counter()
        for d in ed:
            st, act = getattr(d["State Type"], "value", d["State Type"]), getattr(d["Activity"], "value", d["Activity"])
            if st in ("Production", "Transport", "Breakdown"):
                k = (d["State"], d["Product"] or "")
                if act == "end state":
                    state[d["Resource"]].pop(k, None)
                    if st == "Production":
                        steps[d["Product"]] += 1
                else:
                    state[d["Resource"]][k] = (st, act)
        for o in obs:
            m = o.resource.data.ID
            if m in recent:
                continue
            self.obs_checked += 1
            down = any(v[0] == "Breakdown" for v in state[m].values())
            if o.observe_resource_available().available is not (not down):
                self.flag("observed-availability", f"{m} is {'down' if down else 'up'} at t={now:g}, observed is the opposite")
            want = Counter((k[0], k[1], v[0], v[1]) for k, v in state[m].items() if v[0] in ("Production", "Transport"))
            got = Counter((p.process, p.product, getattr(p.state, "value", p.state), getattr(p.activity, "value", p.activity)) for p in o.observe_processes())
            if want != got:
                self.flag("observed-processes", f"{m} at t={now:g}: running {sorted(want)}, observed {sorted(got)}")
            for side, seen in (("input", o.observe_input_queue()), ("output", o.observe_output_queue())):
                if m in S.vehicles:
                    if seen:
                        self.flag("observed-queues", f"a queue of the vehicle {m} is observed")
                    continue
                held = [i for q in S.res[m][side + "_queues"] for i in self.ctl.snap[q] if not S.is_aux(i.ID)]
                if Counter(i.ID for i in held) != Counter(x.product for x in seen):
                    self.flag("observed-queues", f"{side} queues of {m} at t={now:g} hold {[i.ID for i in held]}, observed {[x.product for x in seen]}")
                    continue
                for x in seen:
                    if not 0 <= x.waiting_since <= now:
                        self.flag("observed-waiting", f"{x.product} is observed at t={now:g} to wait since {x.waiting_since:g}")
                    kind, plan = S.plan(S.ptype_of(x.product))[:2]
                    if kind != "list" or x.product in moved or self.rework or any(q in S.stores for q in S.res[m]["output_queues"]):
                        # (a product that is on its way to a storage chooses its next process there)
                        continue
                    k = steps[x.product]
                    want = plan[k] if k < len(plan) else None
                    if x.process != want:
                        self.flag("observed-next-process", f"{x.product} in the {side} queue of {m} at t={now:g} has done {k} of {plan}, observed next process {x.process}")


class _Zero:
    _now = 0.0


def classes():
    from prodsys.control import routing_control_env as r, sequencing_control_env as s

    def mixin(base, reward):
        return type("Env", (base,), dict(get_observation=lambda self: "obs", get_info=lambda self: {"info": 1}, get_reward=reward,
                                         get_termination_condition=lambda self: self.runner.env.now >= self.play.scn["horizon"]))

    def routing(self, invalid_action=False):
        self.play.rewarded = (None, invalid_action)
        return 7.5

    def sequencing(self, processed_request, invalid_action=False):
        self.play.rewarded = (processed_request, invalid_action)
        return 7.5

    return mixin(r.AbstractRoutingControlEnv, routing), mixin(s.AbstractSequencingControlEnv, sequencing)


_classes = None


def envs():
    global _classes
    if _classes is None:
        from prodsys.simulation import sim
        _classes = classes()
        sim.VERBOSE = 0
    return _classes


def one_hot(rng, n, i):
    """an array whose largest entry is the i-th."""
    if rng.random() < 0.5:
        a = np.zeros(n)
        a[i] = 1
    else:
        a = np.array([rng.random() * 0.9 for _ in range(n)])
        a[i] = 0.95
    return a


class Sequencing(Play):
    policy = None

    def make(self, adapter):
        return envs()[1](adapter, self.scn["agent"]["resource"])

    def before(self, env, now):
        self.waiting = list(env.resource_controller.requests)

    def action(self, env):
        w, rng = self.waiting, self.rng
        self.open = [(q.product.product_data.ID, q) for q in w]
        n = len(w)
        if not n:
            self.flag("agent-asked-without-requests", f"the agent is asked at t={env.runner.env.now:g} although nothing waits")
        if self.policy:
            i = self.policy(self.S, w)
            size = n
        else:
            size = n + rng.choice([0, 0, 0, 3])
            i = rng.randrange(n) if size == n or rng.random() < 0.5 else rng.randrange(n, size)
        self.index = i
        self.ids = [id(q) for q in w]
        return one_hot(rng, size, i)

    def after(self, env):
        got, invalid = self.rewarded
        n = len(self.waiting)
        self.invalid += invalid
        if invalid is not (self.index >= n):
            self.flag("agent-validity", f"action {self.index} with {n} waiting requests counts as {'invalid' if invalid else 'valid'}")
        if not any(got is q for q in self.waiting):
            self.flag("agent-choice", "the chosen request is none of those that waited")
        elif self.index < n and got is not self.waiting[self.index]:
            self.flag("agent-choice", f"the agent chose request {self.index} ({self.open[self.index][0]}), reported is {got.product.product_data.ID}")
        self.decisions.append((got.product.product_data.ID, self.open))

    def judge(self, T):
        """what is started next is what the agent chose."""
        m = self.scn["agent"]["resource"]
        S = self.S
        r = S.res[m]
        if r["capacity"] > 1:
            return
        if m in S.machines:
            if any(s.startswith("SU") or S.state[s]["type"] == "SetupState" for s in r["state_ids"]):
                return
            got = [p[0] for p in T.possession(m)]
        else:
            asked, got = defaultdict(list), []
            for q in T.run.requests:
                if q["kind"] == "transport":
                    asked[q["prod"]].append(q["res"])
            for item, res in asked.items():
                picked = [step for step, t, k, q in T.moves[item] if k == "leave" and S.qowner[q][1] != "in"]
                got += [(step, item) for step, v in zip(picked, res) if v == m]
            # (an auxiliary may be taken out of a storage and put back into it in one instant)
            got = [item for _, item in sorted(got) if not S.is_aux(item)]
        want = [d[0] for d in self.decisions if not S.is_aux(d[0])]
        n = min(len(got), len(want))
        if got[:n] != want[:n]:
            k = next(i for i in range(n) if got[i] != want[i])
            yield "agent-not-honoured", f"decision {k} at {m} was for {want[k]}, started was {got[k]} (chosen {want[:k + 2]}, started {got[:k + 2]})"
        elif len(got) > len(want):
            yield "agent-not-asked", f"{m} started {got} but the agent was only asked for {want}"


class Routing(Play):
    def make(self, adapter):
        return envs()[0](adapter)

    def before(self, env, now):
        self.reqs = list(env.possible_requests)
        self.cands = [q.resource.data.ID for q in self.reqs]

    def action(self, env):
        ids = [r["ID"] for r in self.S.raw["resource_data"]]
        rng = self.rng
        pick = rng.choice(self.cands) if rng.random() < 0.75 else rng.choice(ids)
        self.pick = pick
        q = self.reqs[0]
        tr = hasattr(q, "origin")
        self.dec = dict(t=env.runner.env.now, prod=q.product.product_data.ID, kind="transport" if tr else "production", want=pick, cands=self.cands,
                        n=len(self.ctl.requests))
        if len({x.product.product_data.ID for x in self.reqs}) != 1 or len({hasattr(x, "origin") for x in self.reqs}) != 1:
            self.flag("agent-mixed-requests", "one decision is about requests of several products or kinds")
        return one_hot(rng, len(ids), ids.index(pick))

    def after(self, env):
        invalid = self.rewarded[1]
        self.invalid += invalid
        if invalid is not (self.pick not in self.cands):
            self.flag("agent-validity", f"{self.pick} out of {self.cands} counts as {'invalid' if invalid else 'valid'}")
        chosen = env.get_chosen_resource().data.ID
        if chosen not in self.cands or (self.pick in self.cands and chosen != self.pick):
            self.flag("agent-choice", f"the agent chose {self.pick} out of {self.cands}, the environment {chosen}")
        self.dec["res"] = chosen
        self.decisions.append(self.dec)

    def judge(self, T):
        S = self.S
        by = defaultdict(list)
        for d in self.decisions:
            by[d["prod"]].append(d)
        judged = 0
        open_prod = {}
        for k, q in enumerate(T.run.requests):
            if q["kind"] != "transport":
                want = open_prod.pop(q["prod"], None)
                if want is None or want["res"] != q["res"]:
                    yield "agent-not-honoured", (f"{q['prod']} requests processing at {q['res']} at t={q['t']:g}, "
                                                 + (f"the agent chose {want['res']}" if want else "the agent was not asked"))
                    return
                judged += 1
                continue
            mine = [d for d in by[q["prod"]] if d["n"] <= k]
            by[q["prod"]] = [d for d in by[q["prod"]] if d["n"] > k]
            if not mine or mine[-1]["kind"] != "transport":
                yield "agent-not-asked", f"{q['prod']} asks {q['res']} for transport at t={q['t']:g}, the agent was not asked for it"
                return
            judged += 1
            if mine[-1]["res"] != q["res"]:
                yield "agent-not-honoured", f"{q['prod']} asks {q['res']} for transport at t={q['t']:g}, the agent chose {mine[-1]['res']} out of {mine[-1]['cands']}"
                return
            pr = [d for d in mine if d["kind"] == "production"]
            if pr:
                if q["target"] != pr[-1]["res"]:
                    yield "agent-not-honoured", f"{q['prod']} is sent to {q['target']} at t={q['t']:g}, the agent chose {pr[-1]['res']} out of {pr[-1]['cands']}"
                    return
                open_prod[q["prod"]] = pr[-1]
            elif q["target"] in S.machines:
                yield "agent-not-asked", f"{q['prod']} is sent to {q['target']} at t={q['t']:g}, the agent was not asked where it is to go"
                return
        self.judged = judged


POLICY = {
    "FIFO": lambda S, w: 0,
    "LIFO": lambda S, w: len(w) - 1,
    "SPT": lambda S, w: min(range(len(w)), key=lambda i: (S.tm_expected(S.proc[w[i].process.process_data.ID]["time_model_id"]), i)),
}


@reg
class P32(Core):
    id = "P32"
    quick, thorough = 600, 40000
    profiles = [(3, dict(BASE, agent="routing")), (2, dict(BASE, agent="routing", n_machines=(2, 5), n_vehicles=(1, 4))), (2, dict(BASE, agent="sequencing")),
                (4, dict(DET, agent="policy", n_machines=(1, 2), n_procs=(2, 4))), (1, dict(DET, agent="policy", capacity=1, n_machines=(1, 2))),
                (2, dict(STOCH, agent="repeat"))]
    swarm = 0
    rule = RULE.format("at least three decisions of the agent were judged")
    real = Core.real + "; prodsys.control (both environments), prodsys.simulation.observer; gymnasium.Env"
    hits = staticmethod(lambda T: len(T.play.decisions) // 3)

    def all_profiles(self):
        return self.profiles

    def scenario(self, i, seed):
        rng = random.Random(seed)
        prof = dict(rng.choices(self.profiles, weights=[p[0] for p in self.profiles])[0][1])
        kind = prof.pop("agent")
        scn = gen.gen(rng, gen.profile(**dict(prof, horizon="mid")))
        scn["agent"] = dict(kind=kind, seed=rng.randint(0, 2**31), episode=rng.randint(0, 2**31))
        if kind != "routing" and not (kind == "repeat" and rng.random() < 0.5):
            scn["agent"]["pick"] = rng.random()
        return scn

    def resource(self, scn, run):
        """a resource that is asked for something."""
        used = list(dict.fromkeys(q["res"] for q in run.requests if q["t"] < scn["horizon"] / 2))
        ids = [r["ID"] for r in scn["system"]["resource_data"] if r["ID"] in used]
        return ids[int(scn["agent"]["pick"] * len(ids))] if ids else None

    def evaluate(self, scn):
        self.play = None
        return super().evaluate(scn)

    def run(self, scn):
        ag = scn["agent"]
        s = scn["system"]
        self.bad = []
        self.play = None
        policy = None
        base = None
        if "pick" in ag:
            base = core.execute(scn, max_steps=60000)
            res = self.resource(scn, base)
            if res is None or base.exc or base.livelock or base.truncated:
                return base
            scn = copy.deepcopy(scn)
            scn["agent"]["resource"] = res
            r = next(r for r in scn["system"]["resource_data"] if r["ID"] == res)
            if ag["kind"] == "policy":
                names = ["FIFO"] if r["controller"] == "TransportController" else ["FIFO", "LIFO", "SPT"]
                policy = names[ag["seed"] % len(names)]
                if r["control_policy"] != policy:
                    r["control_policy"] = policy
                    base = core.execute(scn, max_steps=60000)
        cls = Sequencing if "pick" in ag else Routing
        S = model.Sys(scn["system"])

        def play(p, **kw):
            p.S = S
            p.rework = any(x["type"] == "ReworkProcesses" for x in S.proc.values())
            p.policy = POLICY[policy] if policy else None
            p.steps0 = p.env.step_count if p.env is not None else 0
            return core.execute(scn, max_steps=120000, drive=p.drive, **kw)

        p = self.play = cls(scn, ag["episode"], ag["seed"])
        run = play(p)
        self.bad += p.bad
        if run.exc or run.livelock or run.truncated:
            return run
        if policy:
            end = min(run.end, base.end)
            a = [x.brief() for x in base.rows if x.t < end]
            b = [x.brief() for x in run.rows if x.t < end]
            if base.exc is None and not base.livelock and not base.truncated and a != b:
                self.bad.append(("agent-differs-from-policy", f"an agent that always chooses as {policy} at {scn['agent']['resource']} gives another history than the policy: {first_diff(a, b)}"))
        if ag["kind"] == "repeat":
            q = cls(scn, ag["episode"], ag["seed"], watch=False)
            again = play(q, rng_seed=4711)  # a new environment
            r = cls(scn, ag["episode"], ag["seed"], env=q.env, watch=False)
            third = play(r, rng_seed=815, adapter=q.env.adapter)  # the next episode of that environment
            for x, what in ((again, "in a new environment"), (third, "as a further episode of an environment")):
                self.bad += q.bad + r.bad
                d = first_diff([y.brief() for y in run.rows], [y.brief() for y in x.rows])
                if d or x.exc:
                    self.bad.append(("agent-episode-differs", f"the same seed and the same agent {what} give another episode: {x.exc or d}"))
                    break
        return run

    def more(self, T, scn):
        T.play = self.play or Routing(scn, 0, 0)
        yield from self.bad
        if self.play is None or T.run.exc or T.run.livelock or T.run.truncated:
            return
        from . import oracles
        yield from self.play.judge(T)
        for o in ORACLES:
            for kind, msg in getattr(oracles, o)(T):
                yield kind, f"(in an episode) {msg}"
                break

    def evaluate(self, scn):
        o = super().evaluate(scn)
        p = self.play
        if p is not None:
            o.stats["probe.agent_decisions"] = len(p.decisions)
            o.stats["probe.observations_compared"] = p.obs_checked
            o.stats["fault.invalid_actions"] = p.invalid
            o.stats["probe.agent_" + scn["agent"]["kind"]] = 1
        return o
