"""P28, P29: the configuration optimisers and their search moves."""
import contextlib
import copy
import io
import json
import random
import uuid

from . import core, gen
from .harness import Outcome
from .p_core import INF_Q, Core
from .p_det import dump, json_diff
from .p_io import gen_scenario_data, try_
from .props import reg
from .simfs import Clock, Disk, SimCrash, patched
from .simprop import shrink_sim

OPT = dict(INF_Q, n_types=(1, 2), n_procs=(1, 3), n_machines=(2, 3), n_vehicles=(1, 2), n_products=(3, 8), horizon="short", breakdown=0, process_breakdown=0,
           vehicle_breakdown=0, rework=0, batch=0, link=0, io_loc=0, charging=0.25, setup=0.4, capacity=0.4, confuse=0, capability=0.2, aux=0.25, store=0.2, loading=0.2,
           durations={"const": 0.5, "exp": 0.3, "normal": 0.2}, policy=["FIFO", "LIFO", "SPT"], tpolicy=["FIFO", "SPT_transport"])


def add_named_breakdowns(rng, s):
    """the breakdown states an optimisation uses for every resource it creates."""
    tm = s["time_model_data"]

    def state(i, kind, **kw):
        a, b = f"tm_{i}_a", f"tm_{i}_b"
        tm.append(dict(ID=a, description="", schedule=[float(rng.randint(2, 9)), float(rng.randint(3, 12))], absolute=False, cyclic=True))
        tm.append(dict(ID=b, description="", schedule=[float(rng.randint(1, 3))], absolute=False, cyclic=True))
        s["state_data"].append(dict(ID=i, description="", type=kind, time_model_id=a, repair_time_model_id=b, **kw))
        return i
    sel = rng.choice(["none", "none", "machine", "vehicle", "process", "all", "all"])
    machines = [r for r in s["resource_data"] if r["controller"] != "TransportController"]
    vehicles = [r for r in s["resource_data"] if r["controller"] == "TransportController"]
    if sel in ("machine", "all"):
        state("BSM", "BreakDownState")
        for r in machines:
            r["state_ids"].append("BSM")
    if sel in ("vehicle", "all"):
        state("BST", "BreakDownState")
        for r in vehicles:
            r["state_ids"].append("BST")
    if sel in ("process", "all"):
        for p in s["process_data"]:
            if p["type"] == "ProductionProcesses":
                state("BSP_" + p["ID"], "ProcessBreakDownState", process_id=p["ID"])
                for r in machines:
                    if p["ID"] in r["process_ids"]:
                        r["state_ids"].append("BSP_" + p["ID"])
    return sel


def opt_system(rng):
    scn = gen.gen(rng, gen.profile(**OPT))
    s = scn["system"]
    scn["named"] = add_named_breakdowns(rng, s)
    s["ID"] = "base"
    s["seed"] = rng.randint(0, 99)
    d = gen_scenario_data(rng, s)
    machines = [r for r in s["resource_data"] if r["controller"] != "TransportController"]
    vehicles = [r for r in s["resource_data"] if r["controller"] == "TransportController"]
    c = d["constraints"]
    c["max_num_transport_resources"] = len(vehicles) + rng.randint(0, 2)
    c["max_num_processes_per_machine"] = max(len(r["process_ids"]) for r in machines) + rng.randint(0, 1)
    c["max_reconfiguration_cost"] = rng.choice([0.0, 25000.0, 60000.0, 1e6, 1e6])
    d["options"]["machine_controllers"] = ["FIFO", "LIFO", "SPT"]
    d["options"]["transport_controllers"] = ["FIFO", "SPT_transport"]
    d["options"]["routing_heuristics"] = ["shortest_queue", "FIFO"] + (["random"] if rng.random() < 0.5 else [])
    # enough room that random configurations are often valid: the searches draw until one is
    n_t = len({p for r in vehicles for p in r["process_ids"]})
    c["max_num_transport_resources"] = max(c["max_num_transport_resources"], n_t + 1)
    d["info"]["time_range"] = int(min(scn["horizon"], 40)) + 5
    if not {"sequencing_logic", "routing_logic"} & set(d["options"]["transformations"]):
        d["options"]["transformations"].append(rng.choice(["sequencing_logic", "routing_logic"]))    # there is always a move
    if s.get("auxiliary_data") and any(p.get("auxiliaries") for p in s["product_data"]) and rng.random() < 0.6:
        d["options"]["transformations"].append("auxiliary_capacity")
    scn["scenario_data"] = d
    return scn


# --- reference -----------------------------------------------------------------------------------
def canon(a):
    """the functional content of a configuration: everything but the names of machines, vehicles, queues and states."""
    d = a.model_dump(mode="json")
    tm = {}
    for t in d["time_model_data"]:
        tm[t["ID"]] = {k: v for k, v in t.items() if k not in ("ID", "description")}
    proc = {}
    for p in d["process_data"]:
        proc[p["ID"]] = {k: (tm.get(v) if k.endswith("time_model_id") else v) for k, v in p.items() if k != "description"}
    st = {}
    for x in d["state_data"]:
        st[x["ID"]] = {k: (tm.get(v) if k.endswith("time_model_id") else v) for k, v in x.items() if k not in ("ID", "description")}
    q = {x["ID"]: {k: float(v) if k == "capacity" else v for k, v in x.items() if k not in ("ID", "description", "location") or (k == "location" and "input_location" in x)} for x in d["queue_data"]}

    def j(x):
        return json.dumps(x, sort_keys=True)
    res = []
    for r in d["resource_data"]:
        r = dict(r)
        r.pop("ID"), r.pop("description")
        caps = r.pop("process_capacities") or []
        r["process_ids"] = sorted(zip(r["process_ids"], caps))
        r["state_ids"] = sorted(j(st[i]) for i in r["state_ids"])
        for k in ("input_queues", "output_queues"):
            r[k] = sorted(j(q[i]) for i in r.get(k) or [])
        res.append(j(r))
    src = []
    for x in d["source_data"]:
        x = dict(x)
        x["time_model_id"] = tm[x["time_model_id"]]
        x["output_queues"] = sorted(j(q[i]) for i in x["output_queues"])
        x.pop("description")
        src.append(j(x))
    snk = []
    for x in d["sink_data"]:
        x = dict(x)
        x["input_queues"] = sorted(j(q[i]) for i in x["input_queues"])
        x.pop("description")
        snk.append(j(x))
    aux = []
    for x in d["auxiliary_data"]:
        x = dict(x)
        x["storages"] = [[j(q[i]), n] for i, n in zip(x["storages"], x.pop("quantity_in_storages"))]
        x.pop("description")
        aux.append(j(x))
    return dict(resources=sorted(res), sources=sorted(src), sinks=sorted(snk), auxiliaries=sorted(aux),
                products=sorted(j({k: v for k, v in p.items() if k != "description"}) for p in d["product_data"]), processes=sorted(j(p) for p in proc.values()))


def machines_of(d):
    return [r for r in d["resource_data"] if r["controller"] != "TransportController"]


def vehicles_of(d):
    return [r for r in d["resource_data"] if r["controller"] == "TransportController"]


def prod_groups(d):
    """the process modules: processes that are not part of a compound process, and the contents of the compound processes."""
    comp = [tuple(p["process_ids"]) for p in d["process_data"] if p["type"] == "CompoundProcesses"]
    inside = {p for g in comp for p in g}
    return [(p,) for p in prod_processes(d) if p not in inside] + comp


def modules(d):
    return {g: sum(1 for r in machines_of(d) if set(g) & set(r["process_ids"])) for g in prod_groups(d)}


def prod_processes(d):
    return [p["ID"] for p in d["process_data"] if p["type"] not in ("TransportProcesses", "LinkTransportProcesses", "RequiredCapabilityProcesses", "CompoundProcesses")]


def cost(d, base, sd):
    info = sd["info"]
    pc = info["process_module_cost"]
    c = max(0, len(machines_of(d)) - len(machines_of(base))) * info["machine_cost"] + max(0, len(vehicles_of(d)) - len(vehicles_of(base))) * info["transport_resource_cost"]
    now, was = modules(d), modules(base)
    for g in now:
        c += max(0, now[g] - was.get(g, 0)) * (pc.get(g[0], 0) if isinstance(pc, dict) else pc)
    for a, b in zip(d["auxiliary_data"], base["auxiliary_data"]):
        for x, y in zip(a["quantity_in_storages"], b["quantity_in_storages"]):
            c += max(0, x - y) * info["auxiliary_cost"]
    return c


def broken_constraint(d, base, sd):
    """the first constraint of the scenario a configuration breaks, or None."""
    c, o = sd["constraints"], sd["options"]
    ms, vs = machines_of(d), vehicles_of(d)
    if len(ms) > c["max_num_machines"]:
        return f"{len(ms)} machines, at most {c['max_num_machines']} are allowed"
    if not vs or len(vs) > c["max_num_transport_resources"]:
        return f"{len(vs)} transport resources, 1 to {c['max_num_transport_resources']} are allowed"
    gs = prod_groups(d)
    for r in ms:
        n = sum(1 for g in gs if set(g) & set(r["process_ids"]))
        if n > c["max_num_processes_per_machine"]:
            return f"{n} processes on one machine, at most {c['max_num_processes_per_machine']} are allowed"
    need_aux = {a for p in d["product_data"] for a in (p.get("auxiliaries") or [])}
    for a in d["auxiliary_data"]:
        if (a["ID"] in need_aux or a.get("auxiliary_type") in need_aux) and sum(a["quantity_in_storages"]) <= 0:
            return f"no auxiliary {a['ID']} is left"
    proc = {p["ID"]: p for p in d["process_data"]}
    have = {p for r in d["resource_data"] for p in r["process_ids"]}
    caps = {proc[p].get("capability") for p in have if proc[p]["type"] == "CapabilityProcesses"}
    for p in d["product_data"]:
        aux_t = {a["transport_process"] for a in d["auxiliary_data"] if a["ID"] in need_aux or a.get("auxiliary_type") in need_aux}
        for q in set(flat(p["processes"])) | {p["transport_process"]} | aux_t:
            t = proc[q]["type"]
            if t == "CapabilityProcesses" or t == "RequiredCapabilityProcesses":
                if proc[q]["capability"] not in caps:
                    return f"no resource offers the required {q}"
            elif q not in have:
                return f"no resource offers the required {q}"
    for r in ms:
        if r["input_location"] not in o["positions"]:
            return f"a machine stands at {r['input_location']}, not an allowed position"
    locs = [tuple(x) for r in ms for x in {tuple(r["location"]), tuple(r["input_location"]), tuple(r["output_location"])}]
    locs += list({tuple(x["location"]) for x in d["source_data"]}) + list({tuple(x["location"]) for x in d["sink_data"]})
    for q in d["queue_data"]:
        if "input_location" in q:
            locs += list({tuple(q["location"]), tuple(q["input_location"]), tuple(q["output_location"])})
    for x in locs:
        if locs.count(x) > 1:
            return f"two objects stand at {x}"
    k = cost(d, base, sd)
    if k > c["max_reconfiguration_cost"] + 1e-6:
        return f"reconfiguration costs {k:g}, at most {c['max_reconfiguration_cost']:g} are allowed"
    return None


def flat(x):
    if isinstance(x, dict):
        return list(x)
    out = []
    for y in x:
        out += flat(y) if isinstance(y, (list, tuple)) else [y]
    return out


MAXIMISE = {"throughput"}


def simulate(a, seeds, time_range, names, base, sd):
    """the objective values of a configuration, from fresh simulations."""
    from prodsys.util.runner import Runner
    from prodsys.util.post_processing import PostProcessor
    out = []
    for s in seeds:
        a.seed = s
        r = Runner(adapter=a)
        r.initialize_simulation()
        r.run(time_range)
        p = PostProcessor(df_raw=r.event_logger.get_data_as_dataframe())
        row = []
        for n in names:
            if n == "cost":
                row.append(cost(a.model_dump(mode="json"), base, sd))
            elif n == "throughput":
                row.append(sum(float(x) for x in p.df_aggregated_output.values))
            elif n == "WIP":
                row.append(sum(float(x) for k, x in p.df_aggregated_WIP.items() if k != "Total"))
            else:
                v = [float(x) for x in p.df_aggregated_throughput_time.values]
                row.append(sum(v) / len(v) if v else 100000.0)
        out.append(row)
    return [sum(c) / len(c) for c in zip(*out)]


class Names:
    """identifiers of new objects: uuid1 reads the machine's clock and address, here the simulator decides."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.saved = []

    def new(self, *a, **kw):
        return uuid.UUID(int=self.rng.getrandbits(128))

    def __enter__(self):
        import sys
        new = self.new

        class FakeUuid:
            UUID = uuid.UUID

            def __getattr__(self, k):
                return new if k in ("uuid1", "uuid4") else getattr(uuid, k)
        for name, mod in list(sys.modules.items()):
            if not (name == "prodsys" or name.startswith("prodsys.")) or mod is None:
                continue
            for k, v in list(mod.__dict__.items()):
                if v is uuid.uuid1 or v is uuid.uuid4:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, new)
                elif v is uuid:
                    self.saved.append((mod, k, v))
                    setattr(mod, k, FakeUuid())
        return self

    def __exit__(self, *a):
        for mod, k, v in self.saved:
            setattr(mod, k, v)
        return False


@contextlib.contextmanager
def contained(seed):
    """random number generators of the caller, output and signal handlers are restored."""
    import numpy as np
    import signal
    from prodsys.adapters import adapter as ad
    py, npst = random.getstate(), np.random.get_state()
    cfg = dict(ad.ProductionSystemAdapter.model_config)
    sig = signal.getsignal(signal.SIGINT)
    old = signal.signal(signal.SIGVTALRM, core._alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 20.0)
    random.seed(seed)
    np.random.seed(seed % 2**32)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        signal.signal(signal.SIGINT, sig)
        ad.ProductionSystemAdapter.model_config.clear()
        ad.ProductionSystemAdapter.model_config.update(cfg)
        random.setstate(py)
        np.random.set_state(npst)


def make_base(scn):
    from prodsys.models.scenario_data import ScenarioData
    a = core.make_adapter(scn["system"])
    a.scenario_data = ScenarioData(**copy.deepcopy(scn["scenario_data"]))
    return a


def drive(scn, base, disk, clock, names_seed):
    """one optimisation run."""
    o = scn["opt"]
    with patched(disk, clock), Names(names_seed), contained(names_seed):
        if o["alg"] == "anneal":
            from prodsys.optimization import simulated_annealing as m
            hp = m.SimulatedAnnealingHyperparameters(seed=o["seed"], Tmax=o["tmax"], Tmin=1, steps=o["steps"], updates=0, number_of_seeds=o["n_seeds"])
            m.simulated_annealing_optimization(base_configuration=base, hyper_parameters=hp, save_folder="res", full_save=o["full_save"])
        elif o["alg"] == "tabu":
            from prodsys.optimization import tabu_search as m
            hp = m.TabuSearchHyperparameters(seed=o["seed"], tabu_size=o["tabu"], max_steps=max(1, o["steps"] // 8), max_score=1e12, number_of_seeds=o["n_seeds"])
            m.tabu_search_optimization(base_configuration=base, hyper_parameters=hp, save_folder="res", initial_solution=base.model_copy(deep=True), full_save=o["full_save"])
        else:
            from prodsys.optimization import evolutionary_algorithm as m
            hp = m.EvolutionaryAlgorithmHyperparameters(seed=o["seed"], number_of_generations=max(1, o["steps"] // 5), population_size=4, mutation_rate=o["mut"],
                                                        crossover_rate=1 - o["mut"] if o["mut"] > 0.5 else 0.5, number_of_seeds=o["n_seeds"], number_of_processes=1)
            m.evolutionary_algorithm_optimization(base, hp, save_folder="res", full_save=o["full_save"])


def results(disk):
    f = disk.files.get("res/optimization_results.json")
    return None if f is None else json.loads(bytes(f.now).decode())


@reg
class P28(Core):
    id = "P28"
    quick, thorough = 90, 6000
    rule = ("one count = one distinct optimisation run (algorithm, sequence of evaluated configurations and values) of a random system and scenario in which at "
            "least three configurations were evaluated and re-simulated")
    real = ("prodsys.optimization (simulated annealing, tabu search, evolutionary algorithm, evaluation, moves, bookkeeping), simanneal, deap, the whole simulation and post-processing")
    stub = "the disk, the wall clock, the generator of identifiers, standard output; the evaluation pool (one process); both random number generators are seeded"
    interleaving_measure = "sha256 of the sequence of reported values"
    assumptions = ("homogeneous breakdown states under the optimiser's own names, no link transports, batch machines, rework or separate input and output locations",)
    chunk = 4

    def scenario(self, i, seed):
        rng = random.Random(seed)
        scn = opt_system(rng)
        alg = rng.choice(["anneal", "anneal", "tabu", "evolution"])
        if alg == "evolution":
            c = scn["scenario_data"]["constraints"]
            c["max_reconfiguration_cost"] = 1e6
            c["max_num_processes_per_machine"] = max(c["max_num_processes_per_machine"], 3)
            c["max_num_machines"] += 1
            scn["scenario_data"]["options"]["positions"] += [[50.0 + k, 1.0] for k in range(3)]
        scn["opt"] = dict(alg=alg, seed=rng.randint(0, 99), tmax=rng.choice([2, 100, 10000]), steps=rng.choice([8, 12, 20]),
                          tabu=rng.randint(1, 6), mut=rng.choice([0.3, 0.5, 0.8]), n_seeds=rng.choice([1, 1, 2, 3]), full_save=rng.random() < 0.25,
                          names=rng.randint(0, 2**31), crash=dict(op=rng.randint(1, 60), kind=rng.choice(["crash", "crash", "ioerror", "nospace"]), at=0.5) if rng.random() < 0.4 else None)
        return scn

    def shrinks(self, scn):
        o = scn["opt"]
        for k, v in (("crash", None), ("full_save", False), ("n_seeds", 1), ("steps", 8), ("steps", 3)):
            if o[k] != v and not (k == "steps" and o[k] < v):
                c = copy.deepcopy(scn)
                c["opt"][k] = v
                yield c
        t = scn["scenario_data"]["options"]["transformations"]
        if len(t) > 1:
            for j in range(len(t)):
                c = copy.deepcopy(scn)
                c["scenario_data"]["options"]["transformations"].pop(j)
                yield c

    def evaluate(self, scn):
        viol, st = [], {}

        def count(k, n=1):
            st[k] = st.get(k, 0) + n
        sig, n = self.go(scn, viol, count)
        return Outcome(viol, st, sig, n >= 3, {"opt": scn["opt"], "evaluated": n, "scenario_data": scn["scenario_data"]})

    def go(self, scn, viol, count):
        o, sd = scn["opt"], scn["scenario_data"]
        base = make_base(scn)
        if broken_constraint(base.model_dump(mode="json"), base.model_dump(mode="json"), sd):
            count("probe.base_not_allowed")
            return "", 0
        b0 = dump(base)
        bd = base.model_dump(mode="json")
        disk = Disk()
        try:
            drive(scn, base, disk, Clock(), o["names"])
        except core.Hang:
            count("probe.search_cut_off")      # hardly any valid neighbour: the searches draw again until they find one
            return "", 0
        except core.HarnessError:
            raise
        except Exception as e:
            where = core._classify_exception(e, e.__traceback__)
            if where is None:
                raise
            viol.append((f"exception:{type(e).__name__}", f"{o['alg']} aborts with {type(e).__name__}: {str(e)[:200]} (in {where})"))
            return "", 0
        if dump(base) != b0:
            viol.append(("base-changed", f"{o['alg']} changed the base configuration: " + json_diff(json.loads(b0), json.loads(dump(base)))))
        res = results(disk)
        if res is None:
            viol.append(("no-results", f"{o['alg']} saved no results"))
            return "", 0
        count("probe.runs_" + o["alg"])
        names = [x["name"] for x in sd["objectives"]]
        by_hash, seq, total = {}, [], 0
        # the random routing heuristic sorts by identifier before it shuffles and the mean WIP is one over the rows of a table
        # sorted by time and resource identifier: both depend on the names
        by_name = "WIP" in names or "random" in sd["options"]["routing_heuristics"] and "routing_logic" in sd["options"]["transformations"] or any(x["routing_heuristic"] == "random" for x in bd["source_data"])
        from prodsys.adapters import JsonProductionSystemAdapter as J
        for g in res:
            for ID, rec in res[g].items():
                total += 1
                seq.append(rec["fitness"])
                p = f"res/generation_{g}_{ID}.json"
                if p not in disk.files:
                    viol.append(("not-saved", f"configuration {ID} of generation {g} is in the results but was not saved"))
                    continue
                X = J()
                with patched(disk, Clock()):
                    r = try_(lambda: X.read_data(p))
                if r[0] != "ok":
                    viol.append(("unreadable", f"the saved configuration {ID} cannot be loaded: {type(r[1]).__name__}: {str(r[1])[:200]}"))
                    continue
                if X.hash() != rec["hash"]:
                    viol.append(("wrong-file", f"the saved configuration {ID} is not the one in the results (another hash)"))
                    continue
                d = X.model_dump(mode="json")
                bad = broken_constraint(d, bd, sd)
                w = [x["weight"] * (1 if (x["name"] in MAXIMISE) == (o["alg"] != "anneal") else -1) for x in sd["objectives"]]
                agg = sum(a * b for a, b in zip(rec["fitness"], w))
                if abs(agg - rec["agg_fitness"]) > 1e-6 * max(1, abs(agg)):
                    viol.append(("aggregate", f"{o['alg']}: configuration {ID} has the values {rec['fitness']} of {names} with weights {w}: their aggregate is {agg:g}, reported is {rec['agg_fitness']:g}"))
                c = canon(X)
                key = json.dumps(c, sort_keys=True)
                if key in by_hash:
                    c0, rec0, id0 = by_hash[key]
                    count("probe.reused_values")
                    # (configurations that differ in names only may be simulated again)
                    if rec["fitness"] != rec0["fitness"] and not by_name:
                        viol.append(("values-differ", f"{o['alg']}: equal configurations {id0}, {ID} have the values {rec0['fitness']} and {rec['fitness']}"))
                    continue
                by_hash[key] = (c, rec, ID)
                invalid = [-100000 / (x["weight"] * (1 if x["name"] in MAXIMISE else -1)) for x in sd["objectives"]]
                if bad:
                    count("probe.rejected_configurations")
                    if o["alg"] != "evolution":
                        viol.append(("constraint", f"{o['alg']} evaluates a configuration that breaks a constraint: {bad}"))
                    elif not close(rec["fitness"], invalid):
                        viol.append(("constraint", f"evolution reports the values {rec['fitness']} of {names} for a configuration that breaks a constraint: {bad}"))
                    continue
                X.scenario_data = base.scenario_data
                r = try_(lambda: simulate(X, range(o["n_seeds"]), sd["info"]["time_range"], names, bd, sd))
                count("sim_time", o["n_seeds"] * sd["info"]["time_range"])
                if r[0] != "ok":
                    if o["alg"] == "evolution" and False:
                        continue
                    viol.append(("cannot-simulate", f"the saved configuration {ID} cannot be simulated: {type(r[1]).__name__}: {str(r[1])[:200]}"))
                    continue
                count("probe.re_evaluated")
                if not close(r[1], rec["fitness"]):
                    viol.append(("false-value", f"{o['alg']}: configuration {ID} is reported with {dict(zip(names, rec['fitness']))}, its simulation gives {dict(zip(names, r[1]))}"))
            if viol:
                break
        sig = json.dumps(seq)
        if viol:
            return sig, total
        if o["full_save"]:
            logs = [p for p in disk.files if p.endswith(".csv")]
            want = sum(1 for c, rec, i in by_hash.values() if not broken_constraint_rec(rec, sd)) * o["n_seeds"]
            count("probe.full_save_runs")
            if len(logs) < want:      # (more: a configuration whose queues were only renamed is simulated again)
                viol.append(("logs-missing", f"{o['alg']}: {len(by_hash)} different configurations were simulated {o['n_seeds']} times each, {len(logs)} of {want} event logs were saved"))
        # same seed, other clock, other identifiers: the same search
        disk2 = Disk()
        ck = Clock(2e9)
        base2 = make_base(scn)
        try:
            drive(scn, base2, disk2, ck, o["names"] + (0 if by_name else 1))
            res2 = results(disk2)
            seq2 = [r["fitness"] for g in res2 for r in res2[g].values()]
            count("fault.other_clock" if by_name else "fault.other_clock_and_identifiers")
            if seq2 != seq:
                k = next((k for k, (a, b) in enumerate(zip(seq, seq2)) if a != b), min(len(seq), len(seq2)))
                viol.append(("not-reproducible", f"{o['alg']} with the same seed takes another course: {len(seq)} / {len(seq2)} configurations, difference at number {k}: {seq[k:k + 1]} / {seq2[k:k + 1]}"))
        except core.HarnessError:
            raise
        except Exception as e:
            viol.append(("not-reproducible", f"{o['alg']} with the same seed aborts in a second run: {type(e).__name__}: {str(e)[:200]}"))
        # a fault of the disk during the search
        if o["crash"] and not viol:
            disk3 = Disk(plan=[o["crash"]])
            base3 = make_base(scn)
            fatal = o["crash"]["kind"] != "crash"
            try:
                drive(scn, base3, disk3, Clock(), o["names"])
                if disk3.fired and fatal:
                    viol.append(("silent-write-failure", f"{o['alg']}: the disk reported {disk3.fired[0]} at operation {o['crash']['op']}, the search reported success"))
            except (SimCrash, OSError):
                pass
            except core.HarnessError:
                raise
            except Exception as e:
                if not disk3.fired:
                    raise
                viol.append(("crash-error", f"{o['alg']}: a disk failure ends the search with {type(e).__name__}: {str(e)[:200]}"))
            for f in disk3.fired:
                count("fault.disk_" + f)
            disk3.restart("written")
            try:
                r3 = results(disk3)
            except ValueError:
                r3 = None
            for g in r3 or {}:
                for ID in r3[g]:
                    p = f"res/generation_{g}_{ID}.json"
                    ok = p in disk3.files
                    if ok:
                        try:
                            json.loads(bytes(disk3.files[p].now).decode())
                        except ValueError:
                            ok = False
                    # the configuration being rewritten when the process dies may be cut off
                    if not ok and disk3.ops and p != disk3.ops[o["crash"]["op"]][1] if len(disk3.ops) > o["crash"]["op"] else not ok:
                        viol.append(("results-ahead", f"{o['alg']}: after a crash at disk operation {o['crash']['op']} the results list configuration {ID}, which is not saved"))
                        break
        return sig, total


def broken_constraint_rec(rec, sd):
    return close(rec["fitness"], [-100000 / (x["weight"] * (1 if x["name"] in MAXIMISE else -1)) for x in sd["objectives"]])


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-7 * max(1.0, abs(x)) or (x != x and y != y) for x, y in zip(a, b))
