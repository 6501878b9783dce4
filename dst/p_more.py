"""P13-P17: sequencing, routing, auxiliaries, batches."""
from .p_core import FAULTY, INF_Q, RULE, Core
from .oracles import progress
from .props import reg

POL = dict(policy=["FIFO", "LIFO", "SPT"],
           tpolicy=["FIFO", "SPT_transport", "Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport"])
BUSY = dict(arrivals={"finite": 1}, burst=0.8, n_products=(6, 24))


@reg
class P13(Core):
    id = "P13"
    quick, thorough = 3600, 150000
    oracles = ("work_conserving",)
    profiles = [(3, dict(INF_Q, **BUSY)), (2, dict(INF_Q, capacity=1, uneven_capacity=0.5, n_machines=(1, 3), **BUSY)), (2, dict(INF_Q, **dict(FAULTY, **BUSY))),
                (1, dict(INF_Q, setup=1, n_procs=(2, 4), n_machines=(1, 2), **BUSY)), (1, dict(multi_queue=0, finite_queue=1)), (1, dict(INF_Q, rework=1, **BUSY)),
                (2, dict(INF_Q, capacity=1, setup=1, setup_cap=True, n_procs=(2, 4), n_machines=(1, 2), n_vehicles=(1, 3), **BUSY))]
    hits = staticmethod(lambda T: getattr(T, "waited", 0))
    rule = RULE.format("at least one product or transport order had to wait")


@reg
class P14(Core):
    id = "P14"
    quick, thorough = 3600, 150000
    oracles = ("policies",)
    profiles = [(3, dict(INF_Q, **POL, **BUSY)), (2, dict(INF_Q, capacity=1, n_machines=(1, 3), n_procs=(2, 4), **POL, **BUSY)), (1, dict(INF_Q, **dict(FAULTY, **POL, **BUSY))),
                (1, dict(INF_Q, setup=1, n_procs=(2, 4), n_machines=(1, 2), **POL, **BUSY)), (1, dict(multi_queue=0, finite_queue=1, **POL)),
                (2, dict(INF_Q, n_vehicles=(1, 1), breakdown=0, vehicle_breakdown=0, n_machines=(2, 5), **POL, **BUSY)),
                (2, dict(INF_Q, batch=1, breakdown=0, process_breakdown=0, setup=0, n_machines=(1, 2), n_procs=(1, 3), n_vehicles=(2, 4), **POL, **BUSY))]
    swarm_kw = dict(POL)
    hits = staticmethod(lambda T: getattr(T, "judged", 0))
    rule = RULE.format("at least one decision had an alternative that had been waiting")


@reg
class P15(Core):
    id = "P15"
    quick, thorough = 3600, 150000
    oracles = ("routing",)
    profiles = [(3, dict(INF_Q, n_machines=(2, 5), n_vehicles=(1, 3), n_procs=(1, 3))), (2, dict(INF_Q, n_machines=(2, 5), n_vehicles=(2, 3), **BUSY)),
                (1, dict(INF_Q, n_machines=(2, 5), capability=1, n_procs=(2, 4))), (1, dict(INF_Q, n_machines=(2, 5), rework=1)), (1, dict(INF_Q, n_machines=(2, 5), **FAULTY)),
                (1, dict(INF_Q, n_machines=(2, 5), plan={"edges": 1, "dict": 1}, n_procs=(2, 5)))]
    swarm_kw = dict(finite_queue=0, n_machines=(2, 5), n_vehicles=(1, 3))
    hits = staticmethod(lambda T: getattr(T, "judged", 0))
    rule = RULE.format("at least one request had two or more capable resources")


@reg
class P16(Core):
    id = "P16"
    quick, thorough = 3000, 120000
    oracles = ("auxiliaries",)
    profiles = [(3, dict(INF_Q, aux=1)), (1, dict(INF_Q, aux=1, n_types=(2, 3), n_products=(8, 20))), (1, dict(INF_Q, aux=1, **FAULTY)), (1, dict(INF_Q, aux=1, store=1, rework=0.5)),
                (1, dict(INF_Q, aux=1, horizon="short"))]
    swarm_kw = dict(aux=1, link=0)
    hits = staticmethod(lambda T: getattr(T, "uses", 0))
    rule = RULE.format("at least one auxiliary was fetched")


@reg
class P17(Core):
    id = "P17"
    quick, thorough = 3000, 120000
    oracles = ("batches",)
    profiles = [(3, dict(INF_Q, batch=1, **BUSY)), (1, dict(INF_Q, batch=1, n_procs=(2, 4), n_machines=(1, 2), **BUSY)), (1, dict(INF_Q, batch=1, **dict(FAULTY, **BUSY))),
                (1, dict(INF_Q, batch=1, cap_max=5, capacity=1, n_products=(10, 30))), (1, dict(INF_Q, batch=1, rework=1, **BUSY)),
                (1, dict(INF_Q, batch=1, zero=0.6, durations={"sample": 3, "sched": 1}, **BUSY))]
    swarm_kw = dict(batch=1)
    hits = staticmethod(lambda T: getattr(T, "batches", 0))
    rule = RULE.format("at least one batch was processed")


BATT = dict(INF_Q, charging=1)


@reg
class P25(Core):
    id = "P25"
    quick, thorough = 2800, 150000
    oracles = ("charging",)
    profiles = [(3, dict(BATT)), (2, dict(BATT, **BUSY)), (2, dict(BATT, **FAULTY)), (1, dict(BATT, capacity=1, n_machines=(1, 3), **BUSY)), (2, dict(BATT, batch=1, **BUSY)),
                (1, dict(BATT, setup=1, n_procs=(2, 4), n_machines=(1, 2))), (1, dict(BATT, link=1)), (1, dict(BATT, n_vehicles=(1, 1), **BUSY))]
    swarm_kw = dict(charging=1, finite_queue=0)
    hits = staticmethod(lambda T: getattr(T, "charges", 0))
    rule = RULE.format("at least one resource was charged")

    def more(self, T, scn):
        if not scn["meta"].get("batch"):
            yield from progress(T)
