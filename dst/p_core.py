"""P01-P12, P18, P23: the core simulation guarantees."""
from . import oracles
from .oracles import near
from .props import reg
from .simprop import SimProp

RULE = ("Each case is one execution of a randomly generated production system (machines, vehicles, plans, queues, arrivals) with "
        "a random fault schedule and a seeded order of simultaneous timers; it counts as non-trivial if {} and as distinct by its event log.")
ASSUME = (
    "fault times, repair times and most durations come from exact schedules, so the reference knows them without asking the code under test",
    "only configurations the adapter accepts are generated; no queue-cyclic finite-buffer configurations where deadlock would be legitimate are used to judge progress",
)
NOMQ = dict(multi_queue=0)
INF_Q = dict(multi_queue=0, finite_queue=0)
# everything at once: each run draws its own subset of the features
SWARM = dict(multi_queue=0, rework=0.35, store=0.25, aux=0.15, link=0.2, loading=0.3, io_loc=0.4, capability=0.25,
             plan={"list": 2, "edges": 1, "dict": 1}, process_breakdown=0.4, setup=0.4, batch=0.2, n_procs=(1, 5),
             metric=["manhattan", "euclidean"], finite_queue=0.2)


class Core(SimProp):
    assumptions = ASSUME
    swarm = 3
    swarm_kw = {}

    def all_profiles(self):
        return list(self.profiles) + [(self.swarm, dict(SWARM, **self.swarm_kw)), (self.swarm / 3, dict(SWARM, zero=0.6, **dict(dict(durations={"const": 1, "sample": 2, "sched": 2}), **self.swarm_kw)))]


def nontransport(T):
    return sum(1 for x in T.exs if x.stype == "Production")


@reg
class P01(Core):
    id = "P01"
    quick, thorough = 3600, 150000
    oracles = ("lifecycle",)
    profiles = [(3, dict(INF_Q)), (1, dict(INF_Q, horizon="short")), (2, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, store=1)),
                (1, dict(INF_Q, rework=1)), (1, dict(INF_Q, aux=1)), (1, dict(INF_Q, plan={"edges": 1, "dict": 1}))]
    hits = staticmethod(lambda T: len(T.finished))
    rule = RULE.format("at least one product was finished")


@reg
class P02(Core):
    id = "P02"
    quick, thorough = 3600, 150000
    oracles = ("plan",)
    profiles = [(2, dict(INF_Q)), (2, dict(INF_Q, plan={"edges": 1, "dict": 1}, n_procs=(2, 6), plan_len=(2, 6))),
                (2, dict(INF_Q, capability=1, n_procs=(2, 5))), (1, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, rework=1)),
                (1, dict(INF_Q, plan={"edges": 1, "dict": 1}, capability=1, n_procs=(2, 5), plan_len=(2, 5)))]
    hits = staticmethod(nontransport)
    rule = RULE.format("at least one processing step was executed")


@reg
class P03(Core):
    id = "P03"
    swarm_kw = dict(rework=1)
    quick, thorough = 3600, 150000
    oracles = ("rework",)
    profiles = [(3, dict(INF_Q, rework=1)), (1, dict(INF_Q, rework=1, n_machines=(1, 2), capacity=0.6)), (1, dict(multi_queue=0, finite_queue=1, rework=1)),
                (1, dict(INF_Q, rework=1, failure_one=0.0, plan_len=(2, 4), n_products=(8, 20)))]
    rule = RULE.format("at least one failed step was reworked")

    @staticmethod
    def hits(T):
        return sum(1 for x in T.exs if x.stype == "Production" and T.sys.proc.get(x.state, {}).get("type") == "ReworkProcesses")

    def extra_of(self, T):
        st = {}
        for _ in oracles.rework(T, st):
            pass
        if st.pop("mixed", None):
            return None  # a rework that serves steps of different failure rates cannot be attributed
        return {str(k): v for k, v in st.items()} or None

    def finalize(self, extras):
        tot = {}
        for e in extras:
            for k, (n, r) in e.items():
                a = tot.setdefault(float(k), [0, 0])
                a[0] += n
                a[1] += r
        for p, (n, r) in sorted(tot.items()):
            if n < 400:
                continue
            sd = (p * (1 - p) / n) ** 0.5
            if abs(r / n - p) > 7 * sd + 0.01:
                yield "failure-rate", f"steps with failure rate {p:g} were reworked {r} times in {n} executions ({r / n:.3f})"


@reg
class P04(Core):
    id = "P04"
    quick, thorough = 3600, 150000
    oracles = ("capacity",)
    profiles = [(3, dict(INF_Q, capacity=1, uneven_capacity=0.5, arrivals={"finite": 1}, burst=0.8, n_machines=(1, 3))),
                (1, dict(multi_queue=0, finite_queue=1, capacity=1)), (1, dict(INF_Q, batch=1)), (1, dict(INF_Q)),
                (1, dict(INF_Q, capacity=1, setup=1, setup_cap=True, n_procs=(2, 4), n_machines=(1, 2)))]
    rule = RULE.format("at some instant two or more executions overlapped on one resource or a resource was saturated")

    @staticmethod
    def hits(T):
        n = 0
        for r in T.sys.res:
            ex = sorted(T.of(r, "Production", "Transport"), key=lambda x: x.i0)
            n += sum(1 for a, b in zip(ex, ex[1:]) if a.i1 is None or b.i0 < a.i1 or a.end == b.start)
        return n


@reg
class P05(Core):
    id = "P05"
    swarm_kw = dict(finite_queue=0.6)
    quick, thorough = 3600, 150000
    oracles = ("queues",)
    profiles = [(3, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q)), (1, dict(INF_Q, store=1)), (1, dict(multi_queue=0, finite_queue=1, store=1)),
                (1, dict(multi_queue=0, finite_queue=1, acyclic=True, capacity=0.6)), (1, dict(INF_Q, batch=1))]
    rule = RULE.format("a bounded queue was filled to its capacity, or at least ten items moved between queues")

    @staticmethod
    def hits(T):
        full = sum(1 for q, sn in T.snaps.items() for s in sn if len(s[2]) >= T.sys.qcap(q))
        return full + (sum(len(m) for m in T.moves.values()) >= 20)


FAULTY = dict(breakdown=1, process_breakdown=0.6, vehicle_breakdown=0.8, multi_breakdown=0.6)


@reg
class P06(Core):
    id = "P06"
    quick, thorough = 3600, 150000
    oracles = ("breakdown",)
    profiles = [(3, dict(INF_Q, **FAULTY)), (2, dict(INF_Q, **dict(FAULTY, setup=0.8, process_bd_setup=1, multi_pbd_setup=True, n_procs=(2, 4)))),
                (1, dict(multi_queue=0, finite_queue=1, **FAULTY)), (1, dict(INF_Q, capacity=1, **FAULTY))]
    rule = RULE.format("a breakdown interrupted running work")
    hits = staticmethod(lambda T: sum(len(x.intr) for x in T.exs))
    swarm_kw = dict(breakdown=1)


@reg
class P07(Core):
    id = "P07"
    quick, thorough = 3600, 150000
    oracles = ("resume",)
    profiles = P06.profiles
    swarm_kw = P06.swarm_kw
    rule = P06.rule
    hits = staticmethod(P06.hits)


@reg
class P08(Core):
    id = "P08"
    quick, thorough = 3600, 150000
    oracles = ("renewal",)
    profiles = [(3, dict(INF_Q, **FAULTY)), (2, dict(INF_Q, **dict(FAULTY, setup=0.8, process_bd_setup=1, multi_pbd_setup=True, n_procs=(2, 4)))),
                (1, dict(INF_Q, capacity=1, **FAULTY)), (1, dict(INF_Q, horizon="short", arrivals={"cyclic": 1}, **FAULTY))]
    rule = RULE.format("at least one breakdown occurred")
    hits = staticmethod(lambda T: sum(1 for x in T.exs if x.stype in ("Breakdown", "ProcessBreakdown")))


@reg
class P09(Core):
    id = "P09"
    quick, thorough = 3600, 150000
    oracles = ("setups",)
    profiles = [(3, dict(INF_Q, setup=1, n_procs=(2, 5), n_machines=(1, 3))), (1, dict(multi_queue=0, finite_queue=1, setup=1, n_procs=(2, 5), n_machines=(1, 3))),
                (1, dict(INF_Q, setup=1, n_procs=(2, 4), n_machines=(1, 2), **dict(FAULTY, process_bd_setup=1, multi_pbd_setup=True))),
                (1, dict(INF_Q, setup=1, n_procs=(2, 4), n_machines=(1, 2), rework=1))]
    swarm_kw = dict(setup=1)
    rule = RULE.format("a machine was set up from one process to another")
    hits = staticmethod(lambda T: sum(1 for x in T.exs if x.stype == "Setup"))


@reg
class P10(Core):
    id = "P10"
    quick, thorough = 3600, 150000
    oracles = ("transport",)
    profiles = [(3, dict(INF_Q, n_vehicles=(1, 3))), (1, dict(INF_Q, link=1)), (1, dict(INF_Q, link=1, io_loc=0, n_vehicles=(1, 3))), (1, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, vehicle_breakdown=1)),
                (1, dict(INF_Q, store=1))]
    rule = RULE.format("at least two transports were carried out")
    hits = staticmethod(lambda T: sum(1 for x in T.exs if x.stype == "Transport") // 2)


@reg
class P11(Core):
    id = "P11"
    quick, thorough = 3600, 150000
    oracles = ("transport_times",)
    profiles = [(3, dict(INF_Q, n_vehicles=(1, 3), metric=["manhattan", "euclidean"])), (2, dict(INF_Q, loading=1, io_loc=1, metric=["manhattan", "euclidean"])), (1, dict(INF_Q, link=1, loading=0.6)),
                (1, dict(INF_Q, store=1, io_loc=0.7))]
    rule = P10.rule
    hits = staticmethod(P10.hits)


@reg
class P12(Core):
    id = "P12"
    quick, thorough = 3600, 150000
    oracles = ("progress",)
    DR = dict(arrivals={"finite": 1}, horizon="drain")
    swarm_kw = dict(finite_queue=0, batch=0, **DR)
    profiles = [(3, dict(INF_Q, **DR)), (2, dict(INF_Q, **dict(FAULTY, setup=0.5, process_bd_setup=1, multi_pbd_setup=True, **DR))), (1, dict(INF_Q, rework=1, **DR)), (1, dict(INF_Q, store=1, **DR)), (1, dict(INF_Q, store=1, store_cap=1, **DR)),
                (2, dict(multi_queue=0, finite_queue=1, acyclic=True, **DR)), (1, dict(INF_Q, **dict(DR, arrivals={"cyclic": 1}))),
                (1, dict(INF_Q, capacity=1, burst=0.9, **DR)), (1, dict(INF_Q, aux=1, **DR)), (1, dict(INF_Q, link=1, **DR))]
    rule = RULE.format("at least one product was finished")

    def more(self, T, scn):
        if scn["meta"].get("drain") and T.run.completed and scn["horizon"] >= scn["meta"].get("h0", scn["horizon"]):
            un = [p for p in T.created if p not in T.finished]
            if un:
                yield "not-drained", f"products {un[:6]} are unfinished at t={T.end_time:g}, long after arrivals and faults stopped"


@reg
class P18(Core):
    id = "P18"
    quick, thorough = 3600, 150000
    oracles = ("log",)
    profiles = [(2, dict(INF_Q)), (1, dict(INF_Q, **FAULTY)), (1, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, setup=1, n_procs=(2, 4))),
                (1, dict(INF_Q, horizon="short")), (1, dict(INF_Q, link=1)), (1, dict(INF_Q, rework=1)), (1, dict(INF_Q, aux=1)), (1, dict(INF_Q, batch=1))]
    rule = RULE.format("at least ten events were logged")
    hits = staticmethod(lambda T: len(T.run.rows) // 10)


@reg
class P23(Core):
    id = "P23"
    quick, thorough = 3600, 150000
    oracles = ("arrivals",)
    profiles = [(3, dict(INF_Q, arrivals={"finite": 1, "cyclic": 1, "const": 1}, multi_source=0.7)), (1, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, horizon="short")),
                (1, dict(INF_Q, **FAULTY))]
    rule = RULE.format("at least one product was created")
    hits = staticmethod(lambda T: len(T.created))
