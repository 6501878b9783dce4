"""P31: a system described with prodsys.express is the system that is simulated.

A generated system is described twice: as plain data (the reference, with the queues that the documentation
of prodsys.express promises) and as nested express objects made by the public constructors.  Both are
executed under the same schedule and faults; the histories have to be the same.
"""
import copy
import random

from . import core, gen
from .p_core import RULE, SWARM, Core
from .p_det import first_diff, outcome
from .props import reg

PROF = dict(SWARM, multi_queue=0, uneven_capacity=0.0, policy=["FIFO", "LIFO", "SPT"], tpolicy=["FIFO", "SPT_transport"], charging=0.2, batch=0.1, plan={"list": 1.0},
            durations={"const": 0.6, "sched": 0.4}, arrivals={"finite": 0.6, "cyclic": 0.4})


def reference(s, sizes):
    """the plain-data form of what express can express: one unlimited queue per source and sink, one in and one out of each machine."""
    s = copy.deepcopy(s)
    stores = [q for q in s["queue_data"] if q.get("location") is not None]
    ids = {q["ID"] for q in stores}
    queues = []
    for r in s["resource_data"]:
        r["process_capacities"] = None
        if r["controller"] == "TransportController":
            continue
        for side in ("input", "output"):
            q = f"{r['ID']}_default_{side}_queue"
            queues.append(dict(ID=q, description="", capacity=sizes.get(r["ID"], 0)))
            r[side + "_queues"] = [q] + [x for x in r[side + "_queues"] if x in ids]
    for x in s["source_data"]:
        q = f"{x['ID']}_default_output_queue"
        queues.append(dict(ID=q, description="", capacity=0))
        x["output_queues"] = [q]
    for x in s["sink_data"]:
        q = f"{x['ID']}_default_input_queue"
        queues.append(dict(ID=q, description="", capacity=0))
        x["input_queues"] = [q]
    # the order in which an express system lists its processes and auxiliaries is its own affair: nothing here depends on it
    # (one auxiliary, and one rework process, which serves all failing ones)
    used = sorted({a for p in s["product_data"] for a in p["auxiliaries"]})[:1]
    for p in s["product_data"]:
        p["auxiliaries"] = [a for a in p["auxiliaries"] if a in used]
    s["auxiliary_data"] = [a for a in s["auxiliary_data"] if a["ID"] in used]
    rw = [p for p in s["process_data"] if p["type"] == "ReworkProcesses"]
    for p in rw[1:]:
        rw[0]["reworked_process_ids"] = list(dict.fromkeys(rw[0]["reworked_process_ids"] + p["reworked_process_ids"]))
        s["process_data"].remove(p)
        for r in s["resource_data"]:
            r["process_ids"] = list(dict.fromkeys(rw[0]["ID"] if i == p["ID"] else i for i in r["process_ids"]))
        for x in s["state_data"]:
            for k in ("process_id", "origin_setup", "target_setup"):
                if x.get(k) == p["ID"]:
                    x[k] = rw[0]["ID"]
    bad = {x["ID"] for x in s["state_data"] if x["type"] == "SetupState" and x["origin_setup"] == x["target_setup"]}
    for r in s["resource_data"]:
        seen = set()
        keep = []
        for i in r["state_ids"]:
            x = next(y for y in s["state_data"] if y["ID"] == i)
            key = (x["origin_setup"], x["target_setup"]) if x["type"] == "SetupState" else i
            if i not in bad and key not in seen:
                seen.add(key)
                keep.append(i)
        r["state_ids"] = keep
    s["state_data"] = [x for x in s["state_data"] if x["ID"] not in bad]
    for p in s["process_data"]:
        if p.get("links"):  # grouped by their start: the order in which a dictionary gives them
            starts = list(dict.fromkeys(a for a, _ in p["links"]))
            p["links"] = sorted(p["links"], key=lambda x: starts.index(x[0]))
    needed = {i for r in s["resource_data"] for i in r["process_ids"]} | {i for p in s["product_data"] for i in p["processes"] + [p["transport_process"]]}
    s["process_data"] = [p for p in s["process_data"] if p["ID"] in needed]  # nor processes that no resource and no product has
    here = {q for a in s["auxiliary_data"] for q in a["storages"]} | {q for r in s["resource_data"] for q in r.get("input_queues", []) + r.get("output_queues", [])}
    s["queue_data"] = queues + [q for q in stores if q["ID"] in here]
    return s


def sizes_of(s):
    caps = {q["ID"]: q["capacity"] for q in s["queue_data"]}
    return {r["ID"]: min(caps[r["ID"] + "_default_input_queue"], caps[r["ID"] + "_default_output_queue"]) for r in s["resource_data"] if r["controller"] != "TransportController"}


class Describe:
    """the express description of a system; `rng` decides which documented defaults are left out."""

    def __init__(self, s, sizes, rng):
        import prodsys.express as psx
        self.psx, self.s, self.sizes, self.rng = psx, s, sizes, rng
        self.hidden = rng.random() < 0.5  # time models are not named: they get IDs of their own (nodes are named in the log)
        self.memo = {}
        self.by = {}
        for k in ("time_model_data", "process_data", "state_data", "node_data", "product_data", "resource_data", "source_data", "sink_data", "queue_data", "auxiliary_data"):
            for x in s.get(k, ()):
                self.by[x["ID"]] = (k, x)

    def get(self, i):
        if i not in self.memo:
            k, x = self.by[i]
            self.memo[i] = getattr(self, k)(x)
        return self.memo[i]

    def kw(self, x, defaults, **kw):
        """arguments, without those that are documented defaults (sometimes)."""
        out = dict(kw)
        for k, d in defaults.items():
            if k in out and out[k] == d and self.rng.random() < 0.5:
                del out[k]
        return out

    def time_model_data(self, x):
        p = self.psx
        n = {} if self.hidden else {"ID": x["ID"]}
        if "schedule" in x:
            return p.ScheduledTimeModel(**self.kw(x, dict(absolute=True, cyclic=True), schedule=x["schedule"], absolute=x["absolute"], cyclic=x["cyclic"]), **n)
        if "samples" in x:
            return p.SampleTimeModel(samples=x["samples"], **n)
        if "sequence" in x:
            return p.SequentialTimeModel(sequence=x["sequence"], **n)
        if "speed" in x:
            return p.DistanceTimeModel(**self.kw(x, dict(metric="manhattan"), speed=x["speed"], reaction_time=x["reaction_time"], metric=x["metric"]), **n)
        return p.FunctionTimeModel(**self.kw(x, dict(scale=0.0), distribution_function=x["distribution_function"], location=x["location"], scale=x["scale"]), **n)

    def process_data(self, x):
        from prodsys.express import process as pr
        t = x["type"]
        if t == "RequiredCapabilityProcesses":
            return pr.RequiredCapabilityProcess(ID=x["ID"], capability=x["capability"])
        tm = self.get(x["time_model_id"])
        if t == "ProductionProcesses":
            return pr.ProductionProcess(time_model=tm, ID=x["ID"], **({"failure_rate": x["failure_rate"]} if x["failure_rate"] or self.rng.random() < 0.5 else {}))
        if t == "CapabilityProcesses":
            return pr.CapabilityProcess(time_model=tm, ID=x["ID"], capability=x["capability"],
                                        **({"failure_rate": x["failure_rate"]} if x["failure_rate"] or self.rng.random() < 0.5 else {}))
        if t == "ReworkProcesses":
            return pr.ReworkProcess(time_model=tm, ID=x["ID"], reworked_processes=[self.get(i) for i in x["reworked_process_ids"]],
                                    **self.kw(x, dict(blocking=False), blocking=x["blocking"]))
        lo = {k[:-3]: self.get(x[k]) for k in ("loading_time_model_id", "unloading_time_model_id") if x.get(k)}
        if t == "TransportProcesses":
            return pr.TransportProcess(time_model=tm, ID=x["ID"], **lo)
        o = pr.LinkTransportProcess(time_model=tm, ID=x["ID"], **({"capability": x["capability"]} if x.get("capability") else {}), **lo)
        return o  # links are added when the places exist

    def node_data(self, x):
        from prodsys.express import node
        return node.Node(location=x["location"], ID=x["ID"])

    def state_data(self, x):
        from prodsys.express import state as st
        tm = self.get(x["time_model_id"])
        t = x["type"]
        if t == "SetupState":
            return st.SetupState(time_model=tm, ID=x["ID"], origin_setup=self.get(x["origin_setup"]), target_setup=self.get(x["target_setup"]))
        if t == "ChargingState":
            return st.ChargingState(time_model=tm, ID=x["ID"], battery_time_model=self.get(x["battery_time_model_id"]))
        rep = self.get(x["repair_time_model_id"])
        if t == "BreakDownState":
            return st.BreakDownState(time_model=tm, ID=x["ID"], repair_time_model=rep)
        return st.ProcessBreakdownState(time_model=tm, ID=x["ID"], repair_time_model=rep, process=self.get(x["process_id"]))

    def queue_data(self, x):
        from prodsys.express import queue
        return queue.Store(ID=x["ID"], **self.kw(x, dict(capacity=0, input_location=x["location"], output_location=x["location"]), capacity=x["capacity"], location=x["location"],
                                                 input_location=x.get("input_location") or x["location"], output_location=x.get("output_location") or x["location"]))

    def auxiliary_data(self, x):
        from prodsys.express import auxiliary
        return auxiliary.Auxiliary(ID=x["ID"], relevant_processes=[self.get(i) for i in x["relevant_processes"]],
                                   relevant_transport_processes=[self.get(i) for i in x["relevant_transport_processes"]],
                                   transport_process=self.get(x["transport_process"]), storages=[self.get(i) for i in x["storages"]],
                                   quantity_in_storages=x["quantity_in_storages"])

    def product_data(self, x):
        aux = [self.get(i) for i in x["auxiliaries"]]
        return self.psx.Product(ID=x["ID"], processes=[self.get(i) for i in x["processes"]], transport_process=self.get(x["transport_process"]),
                                **({"auxiliaries": aux} if aux or self.rng.random() < 0.5 else {}))

    def resource_data(self, x):
        d = dict(capacity=1, states=[], controller="PipelineController", control_policy="FIFO", batch_size=None, input_stores=[], output_stores=[],
                 internal_queue_size=0, input_location=None, output_location=None)
        kw = dict(processes=[self.get(i) for i in x["process_ids"]], location=x["location"], capacity=x["capacity"],
                  states=[self.get(i) for i in x["state_ids"]], control_policy=x["control_policy"], ID=x["ID"])
        if x["controller"] == "TransportController":
            return self.psx.TransportResource(**self.kw(x, dict(d, location=[0.0, 0.0]), **kw))
        kw.update(controller=x["controller"], batch_size=x.get("batch_size"), internal_queue_size=self.sizes.get(x["ID"], 0),
                  input_location=x.get("input_location"), output_location=x.get("output_location"),
                  input_stores=[self.get(q) for q in x["input_queues"] if self.by[q][1].get("location") is not None],
                  output_stores=[self.get(q) for q in x["output_queues"] if self.by[q][1].get("location") is not None])
        return self.psx.ProductionResource(**self.kw(x, d, **kw))

    def source_data(self, x):
        return self.psx.Source(product=self.get(x["product_type"]), time_model=self.get(x["time_model_id"]), location=x["location"], ID=x["ID"],
                               **self.kw(x, dict(routing_heuristic="random"), routing_heuristic=x["routing_heuristic"]))

    def sink_data(self, x):
        return self.psx.Sink(product=self.get(x["product_type"]), location=x["location"], ID=x["ID"])

    def system(self):
        s = self.s
        r = [self.get(x["ID"]) for x in s["resource_data"]]
        so = [self.get(x["ID"]) for x in s["source_data"]]
        si = [self.get(x["ID"]) for x in s["sink_data"]]
        for p in s["process_data"]:
            if p["type"] == "LinkTransportProcesses" and p["ID"] in self.memo:
                o = self.memo[p["ID"]]
                links = [[self.get(a), self.get(b)] for a, b in p["links"]]
                way = self.rng.random()
                if way < 0.3:
                    d = {}
                    for a, b in links:
                        d.setdefault(a, []).append(b)
                    o.set_links(d)
                    if len(set(a.ID for a, _ in links)) != len(d):
                        raise AssertionError("places that are the same count as different")
                elif way < 0.65:
                    o.set_links(links)
                else:
                    for ln in links:
                        o.add_link(ln)
        return self.psx.ProductionSystem(resources=r, sources=so, sinks=si)


def plain(f):
    try:
        return ("ok", f())
    except core.HarnessError:
        raise
    except Exception as e:
        return ("error", f"{type(e).__name__}: {str(e)[:300]}")


def log_of(runner):
    return [tuple(sorted((k, str(v)) for k, v in e.items())) for e in runner.event_logger.event_data]


@reg
class P31(Core):
    id = "P31"
    quick, thorough = 500, 20000
    profiles = [(3, dict(PROF)), (1, dict(PROF, aux=1)), (1, dict(PROF, store=1, finite_queue=0.6)), (1, dict(PROF, link=1)), (1, dict(PROF, capability=1)), (1, dict(PROF, setup=0.8))]
    swarm = 0.0001
    rule = RULE.format("at least ten events were logged and compared")
    real = Core.real + "; prodsys.express (constructors, conversion, run)"
    hits = staticmethod(lambda T: len(T.run.rows) // 10)

    def scenario(self, i, seed):
        rng = random.Random(seed)
        prof = rng.choices(self.profiles, weights=[p[0] for p in self.profiles])[0][1]
        scn = gen.gen(rng, gen.profile(**dict(prof, horizon="short" if rng.random() < 0.4 else "mid")))
        s = scn["system"]
        caps = {q["ID"]: q["capacity"] for q in s["queue_data"]}
        if s["auxiliary_data"] and rng.random() < 0.4:  # a machine that puts its products into the storage of an auxiliary
            m = rng.choice([r for r in s["resource_data"] if r["controller"] != "TransportController"])
            m["output_queues"].append(s["auxiliary_data"][0]["storages"][0])
        sizes = {r["ID"]: max(caps[q] for q in r["input_queues"]) for r in s["resource_data"] if r["controller"] != "TransportController"}
        scn["system"] = reference(s, sizes)
        scn["style"] = rng.randint(0, 2**31)
        return scn

    def build(self, scn):
        return Describe(scn["system"], sizes_of(scn["system"]), random.Random(scn["style"])).system()

    def shrinks(self, scn):
        for c in super().shrinks(scn):
            c["system"] = reference(c["system"], sizes_of(c["system"]))
            yield c

    def run(self, scn):
        a = core.execute(scn, max_steps=60000)
        self.bad = []
        st, ps = plain(lambda: self.build(scn))
        if st == "error":
            self.bad.append(("express-refused", "an express description of a valid system is refused: " + ps))
            return a
        for get in ("runner", "post_processor"):
            if plain(lambda: getattr(ps, get))[0] != "error":
                self.bad.append(("express-results-early", f"ProductionSystem.{get} gives something before the system was run"))
        st, m = plain(ps.to_model)
        if st == "error":
            self.bad.append(("express-refused", "an express description of a valid system cannot be converted: " + m))
            return a
        st, r = plain(ps.validate)
        if st == "error":
            self.bad.append(("express-refused", "an express description of a valid system is not valid: " + r))
        m.seed = scn["system"]["seed"]
        b = core.execute(scn, max_steps=60000, adapter=m)
        if outcome(a) != outcome(b):
            why = f"{b.exc}" if b.exc else str(first_diff([r.brief() for r in a.rows], [r.brief() for r in b.rows]))
            self.bad.append(("express-differs", "the system described with prodsys.express has another history than the same system as data: " + why))
            return a
        if a.exc or a.livelock or a.truncated:
            return a
        # the public way: run() and its results, twice
        from prodsys.util import runner as rn
        seed = scn["style"] % 1000
        ref = core.make_adapter(scn["system"])
        ref.seed = seed
        rr = rn.Runner(adapter=ref)
        rr.initialize_simulation()
        rr.run(scn["horizon"])
        want = log_of(rr)
        for k in (1, 2):
            st, r = plain(lambda: ps.run(scn["horizon"], seed=seed))
            if st == "error":
                self.bad.append(("express-run", f"run {k} of an express description fails: {r}"))
                return a
            got = log_of(ps.runner)
            if got != want:
                self.bad.append(("express-run", f"run {k} of an express description with seed {seed} has another history than the same system as data: {first_diff(want, got)}"))
                return a
        st, r = plain(lambda: (ps.post_processor.df_throughput.values.tolist(), ps.post_processor.df_aggregated_resource_states.values.tolist()))
        p2 = rr.get_post_processor()
        st2, r2 = plain(lambda: (p2.df_throughput.values.tolist(), p2.df_aggregated_resource_states.values.tolist()))
        if (st, str(r)) != (st2, str(r2)):
            self.bad.append(("express-results", f"the results of an express run are not those of the same system as data: {str(r)[:300]} / {str(r2)[:300]}"))
        return a

    def more(self, T, scn):
        yield from self.bad
