"""Properties decided over simulated production systems: scenario families, facts, shrinking."""
import copy
import random
import traceback

from . import core, gen, model, oracles
from .harness import Outcome, Prop

BASE_REAL = ("prodsys.simulation.* (controllers, states, resources, router, products, queues, logger), prodsys.factories.*, "
             "prodsys.adapters.JsonProductionSystemAdapter, prodsys.util.runner.Runner on SimPy - all real code")
BASE_STUB = ("SimPy's event queue ordering among equal instants and the scheduling of timers are the simulator's; both global random "
             "number generators are seeded by the scenario; pydantic.TypeAdapter objects are memoised; tqdm progress bar and logging are off")


def facts(T):
    """what happened in a run: faults that really fired and probes of interesting situations."""
    S, run = T.sys, T.run
    st = {"sim_time": T.end_time, "steps": run.steps, "events_logged": len(run.rows), "products_created": len(T.created),
          "products_finished": len(T.finished), "same_instant_timer_ties": run.ties}
    mode = run.scn.get("sched", {}).get("mode", "fifo")
    st["probe.schedule_" + mode] = 1
    f = {}

    def inc(k, n=1):
        f[k] = f.get(k, 0) + n

    for x in T.exs:
        if x.stype == "Breakdown":
            inc("fault.vehicle_breakdown" if x.res in S.vehicles else "fault.machine_breakdown")
        elif x.stype == "ProcessBreakdown":
            inc("fault.process_breakdown")
        elif x.stype == "Charging":
            inc("fault.battery_empty")
        elif x.stype == "Production" and S.proc.get(x.state, {}).get("type") == "ReworkProcesses":
            inc("fault.failed_step_reworked")
        if x.intr:
            inc("fault.interrupted_" + x.stype.lower(), len(x.intr))
            if len(x.intr) > 1:
                inc("probe.interrupted_more_than_once")
    if mode != "fifo" and run.ties:
        inc("fault.reordered_instants", run.ties)
    unfinished = len(T.created) - len(T.finished)
    if unfinished and run.completed:
        inc("fault.cut_off_with_unfinished_products")
    st.update(f)
    return st


def run_sig(run):
    return run.log_hash()


def brief_trace(run, n=60):
    return [r.brief() for r in run.rows[:n]]


def sample_of(scn, run, i=None):
    s = scn["system"]
    return {
        "machines": [{k: r.get(k) for k in ("ID", "capacity", "process_ids", "control_policy", "state_ids")} for r in s["resource_data"]],
        "products": [{p["product_type"]: p["processes"]} for p in s["product_data"]],
        "schedule": scn["sched"],
        "horizon": scn["horizon"],
        "log_head": brief_trace(run, 25),
    }


class SimProp(Prop):
    real = BASE_REAL
    stub = BASE_STUB
    profiles = [(1.0, {})]
    oracles = ()
    max_steps = 60000
    hits = staticmethod(lambda T: len(T.finished))
    extra_of = None
    exceptions_matter = True

    def scenario(self, i, seed):
        rng = random.Random(seed)
        profiles = self.all_profiles()
        prof = rng.choices(profiles, weights=[p[0] for p in profiles])[0][1]
        scn = gen.gen(rng, gen.profile(**prof))
        if prof.get("tag"):
            scn["tag"] = prof["tag"]
        return scn

    def all_profiles(self):
        return self.profiles

    def run(self, scn):
        return core.execute(scn, max_steps=self.max_steps)

    def evaluate(self, scn):
        run = self.run(scn)
        viol = []
        if self.exceptions_matter:
            if run.livelock:
                viol.append(("livelock", run.livelock))
            if run.exc:
                viol.append((f"exception:{run.exc[0]}", f"valid scenario aborts with {run.exc[0]}: {run.exc[1]} (in {run.exc[2]}) at t={run.end:g}"))
        hits, ex, st = 0, None, {}
        try:
            T = model.Trace(run)
            for o in self.oracles:
                for kind, msg in getattr(oracles, o)(T):
                    viol.append((kind, msg))
                    break
            viol += list(self.more(T, scn))
            hits = self.hits(T)
            st = facts(T)
            st["probe.property_relevant_events"] = hits
            ex = self.extra_of(T) if self.extra_of else None
        except Exception:
            # the history is not even of the shape every execution has (unknown resource, missing row, ...)
            if not viol:
                viol.append(("malformed-history", "the recorded history cannot be interpreted: " + traceback.format_exc(limit=-2)[-600:]))
        return Outcome(viol, st, run_sig(run), hits > 0, sample_of(scn, run), ex)

    def more(self, T, scn):
        return ()

    def shrinks(self, scn):
        return shrink_sim(scn)


# --- shrinking ---------------------------------------------------------------------------------------
def _clone(scn):
    return copy.deepcopy(scn)


def shrink_sim(scn):
    s = scn["system"]
    # schedule
    if scn["sched"].get("mode") != "fifo":
        c = _clone(scn)
        c["sched"] = {"mode": "fifo", "seed": 0}
        yield c
    if scn["sched"].get("mode") == "late":
        c = _clone(scn)
        c["sched"]["mode"] = "perm"
        yield c
    # horizon
    for f in (0.25, 0.5, 0.75, 0.9):
        c = _clone(scn)
        c["horizon"] = round(scn["horizon"] * f, 3)
        if c["horizon"] >= 2:
            yield c
    # product types
    if len(s["product_data"]) > 1:
        for p in s["product_data"]:
            c = _clone(scn)
            drop_type(c["system"], p["product_type"])
            yield c
    for k in ("source_data", "sink_data"):
        for x in s[k]:
            if sum(y["product_type"] == x["product_type"] for y in s[k]) > 1:
                c = _clone(scn)
                c["system"][k] = [y for y in c["system"][k] if y["ID"] != x["ID"]]
                prune(c["system"])
                yield c
    # resources
    for r in s["resource_data"]:
        c = _clone(scn)
        c["system"]["resource_data"] = [y for y in c["system"]["resource_data"] if y["ID"] != r["ID"]]
        prune(c["system"])
        if runnable(c["system"]):
            yield c
    # states
    for r in s["resource_data"]:
        for sid in r["state_ids"]:
            c = _clone(scn)
            for y in c["system"]["resource_data"]:
                if y["ID"] == r["ID"]:
                    y["state_ids"] = [z for z in y["state_ids"] if z != sid]
            prune(c["system"])
            yield c
    # plans
    for p in s["product_data"]:
        if isinstance(p["processes"], list) and len(p["processes"]) > 1 and isinstance(p["processes"][0], str):
            for j in range(len(p["processes"])):
                c = _clone(scn)
                for y in c["system"]["product_data"]:
                    if y["ID"] == p["ID"]:
                        y["processes"] = p["processes"][:j] + p["processes"][j + 1:]
                yield c
    # schedules of arrivals and faults: drop one entry
    used = {x["time_model_id"] for x in s["source_data"]}
    for t in s["time_model_data"]:
        if "schedule" in t and len(t["schedule"]) > 1:
            n = len(t["schedule"])
            if t["ID"] in used and n > 3:
                c = _clone(scn)
                for y in c["system"]["time_model_data"]:
                    if y["ID"] == t["ID"]:
                        y["schedule"] = t["schedule"][: n // 2]
                yield c
            for j in range(n):
                c = _clone(scn)
                for y in c["system"]["time_model_data"]:
                    if y["ID"] == t["ID"]:
                        y["schedule"] = t["schedule"][:j] + t["schedule"][j + 1:]
                if not (t["ID"] not in used and t["schedule"][-1] == 1e7 and j == n - 1):
                    yield c
    # processes on machines
    for r in s["resource_data"]:
        if len(r["process_ids"]) > 1:
            for j in range(len(r["process_ids"])):
                c = _clone(scn)
                for y in c["system"]["resource_data"]:
                    if y["ID"] == r["ID"]:
                        y["process_ids"].pop(j)
                        if y.get("process_capacities"):
                            y["process_capacities"].pop(j)
                prune(c["system"])
                if runnable(c["system"]):
                    yield c
    # capacities
    for r in s["resource_data"]:
        if r["capacity"] > 1 and r.get("controller") != "BatchController":
            c = _clone(scn)
            for y in c["system"]["resource_data"]:
                if y["ID"] == r["ID"]:
                    y["capacity"] = 1
                    if y.get("process_capacities"):
                        y["process_capacities"] = [1] * len(y["process_capacities"])
            yield c
    for q in s["queue_data"]:
        if q["capacity"]:
            c = _clone(scn)
            for y in c["system"]["queue_data"]:
                if y["ID"] == q["ID"]:
                    y["capacity"] = 0
            yield c


def drop_type(s, ty):
    s["product_data"] = [p for p in s["product_data"] if p["product_type"] != ty]
    s["source_data"] = [p for p in s["source_data"] if p["product_type"] != ty]
    s["sink_data"] = [p for p in s["sink_data"] if p["product_type"] != ty]
    prune(s)


def runnable(s):
    S = model.Sys(s)
    for p in s["product_data"]:
        pl = p["processes"]
        ents = pl if not isinstance(pl, dict) else list(pl)
        if ents and isinstance(ents[0], (list, tuple)):
            ents = [x for e in ents for x in e]
        if not ents:
            return False
        if any(not S.capable(e) for e in ents):
            return False
        if not any(oracles.transport_ok(S, p["transport_process"], t) for v in S.vehicles.values() for t in v["process_ids"]):
            return False
    for a in s.get("auxiliary_data", []):
        if not any(oracles.transport_ok(S, a["transport_process"], t) for v in S.vehicles.values() for t in v["process_ids"]):
            return False
    # every failing process keeps its rework
    offered = {q for r in S.machines.values() for q in r["process_ids"]}
    rw = [p for p in s["process_data"] if p["type"] == "ReworkProcesses" and p["ID"] in offered]
    for p in s["process_data"]:
        if p.get("failure_rate") and p["ID"] in offered and not any(p["ID"] in q["reworked_process_ids"] for q in rw):
            return False
    return bool(S.machines) and bool(S.vehicles) and all(r["process_ids"] for r in s["resource_data"])


def prune(s):
    """drop what nothing refers to any more."""
    used_q = set()
    for r in s["resource_data"]:
        used_q |= set(r.get("input_queues", [])) | set(r.get("output_queues", []))
    for x in s["source_data"]:
        used_q |= set(x["output_queues"])
    for x in s["sink_data"]:
        used_q |= set(x["input_queues"])
    for a in s.get("auxiliary_data", []):
        used_q |= set(a["storages"])
    s["queue_data"] = [q for q in s["queue_data"] if q["ID"] in used_q]
    # states whose processes are gone
    st = {x["ID"]: x for x in s["state_data"]}
    for r in s["resource_data"]:
        r["state_ids"] = [i for i in r["state_ids"] if not (
            (st[i]["type"] == "SetupState" and (st[i]["origin_setup"] not in r["process_ids"] or st[i]["target_setup"] not in r["process_ids"]))
            or (st[i]["type"] == "ProcessBreakDownState" and st[i]["process_id"] not in r["process_ids"]))]
    used_s = {i for r in s["resource_data"] for i in r["state_ids"]}
    s["state_data"] = [x for x in s["state_data"] if x["ID"] in used_s]
    if not any(p["type"] == "LinkTransportProcesses" for p in s["process_data"]):
        s["node_data"] = []
