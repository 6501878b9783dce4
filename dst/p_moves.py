"""P29: the moves of the configuration searches."""
import copy
import json
import random

from . import core
from .harness import Outcome
from .p_det import dump, json_diff
from .p_io import try_
from .p_opt import (P28, Names, broken_constraint, contained, cost, machines_of, make_base, opt_system, prod_groups, simulate, vehicles_of)
from .props import reg
from .simfs import Clock, Disk, patched

MOVES = ["add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module", "remove_process_module", "move_process_module",
         "add_transport_resource", "remove_transport_resource", "add_auxiliary", "remove_auxiliary", "change_routing_policy"]
BY_TRANSFORMATION = {
    "production_capacity": {"add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module", "remove_process_module", "move_process_module"},
    "transport_capacity": {"add_transport_resource", "remove_transport_resource"},
    "auxiliary_capacity": {"add_auxiliary", "remove_auxiliary"},
    "layout": {"move_machine"},
    "sequencing_logic": {"change_control_policy"},
    "routing_logic": {"change_routing_policy"},
}
FREE = {"ID", "reconfiguration_cost", "resource_data", "queue_data", "source_data", "auxiliary_data"}


def dup(xs):
    seen = set()
    for x in xs:
        if x in seen:
            return x
        seen.add(x)
    return None


def integrity(d):
    """every identifier is unique and every reference has a target."""
    for k in ("resource_data", "queue_data", "source_data", "sink_data", "auxiliary_data", "state_data", "process_data"):
        x = dup(y["ID"] for y in d[k])
        if x is not None:
            return f"two entries {x} in {k}"
    q, st, pr = ({y["ID"] for y in d[k]} for k in ("queue_data", "state_data", "process_data"))
    refs = [(r["ID"], i, q) for r in d["resource_data"] for i in (r.get("input_queues") or []) + (r.get("output_queues") or [])]
    refs += [(r["ID"], i, st) for r in d["resource_data"] for i in r["state_ids"]] + [(r["ID"], i, pr) for r in d["resource_data"] for i in r["process_ids"]]
    refs += [(r["ID"], i, q) for r in d["source_data"] for i in r["output_queues"]] + [(r["ID"], i, q) for r in d["sink_data"] for i in r["input_queues"]]
    refs += [(r["ID"], i, q) for r in d["auxiliary_data"] for i in r["storages"]]
    for a, i, s in refs:
        if i not in s:
            return f"{a} refers to {i}, which does not exist"
    for r in d["resource_data"]:
        for k in ("process_ids", "state_ids"):
            x = dup(r[k])
            if x is not None:
                return f"{r['ID']} lists {x} twice in its {k}"
    return None


class View:
    """a configuration as the moves see it."""

    def __init__(self, d):
        self.d = d
        self.kind = {s["ID"]: s for s in d["state_data"]}
        self.res, self.caps = {}, {}
        for r in d["resource_data"]:
            v = {k: x for k, x in r.items() if k not in ("input_queues", "output_queues", "state_ids", "process_capacities", "process_ids")}
            v["machine"] = r["controller"] != "TransportController"
            v["process_ids"] = sorted(r["process_ids"])
            v["setup"] = sorted(i for i in r["state_ids"] if self.kind.get(i, {}).get("type") == "SetupState")
            v["bd"] = sorted(i for i in r["state_ids"] if self.kind.get(i, {}).get("type") in ("BreakDownState", "ProcessBreakDownState"))
            v["other"] = sorted(i for i in r["state_ids"] if i not in v["setup"] and i not in v["bd"])
            self.res[r["ID"]] = v
            self.caps[r["ID"]] = r["process_capacities"]
        self.src = {s["ID"]: s for s in d["source_data"]}
        self.aux = {s["ID"]: s for s in d["auxiliary_data"]}
        used = [i for s in d["source_data"] for i in s["output_queues"]] + [i for s in d["sink_data"] for i in s["input_queues"]] + [i for s in d["auxiliary_data"] for i in s["storages"]]
        qs = {q["ID"]: q for q in d["queue_data"]}
        self.queues = {i: qs.get(i) for i in used}
        self.rest = {k: v for k, v in d.items() if k not in FREE}

    def named(self, r):
        """the breakdown states a resource has after normalisation, None: whatever it had."""
        if r["machine"]:
            if not any(i == "BSM" or "BSP" in i for i in self.kind):
                return None
            return sorted(i for i in ["BSM"] + ["BSP_" + p for p in r["process_ids"]] if i in self.kind)
        return ["BST"] if "BST" in self.kind else None


def setups_ok(V, r):
    for i, s in V.kind.items():
        if s["type"] != "SetupState":
            continue
        ends = (s["origin_setup"] in r["process_ids"]) + (s["target_setup"] in r["process_ids"])
        if ends == 2 and i not in r["setup"]:
            return f"without the setup {s['origin_setup']} to {s['target_setup']} between two of its processes"
        if ends == 0 and i in r["setup"]:
            return f"with the setup {s['origin_setup']} to {s['target_setup']} between processes it does not have"
    return None


def differ(x, y, but=()):
    return [k for k in x if k not in but and x[k] != y.get(k)]


def judge(op, B, A, sd, normalised, check_positions=True):
    """None if the change from B to A is one `op`, else what is wrong with it."""
    o, c = sd["options"], sd["constraints"]
    groups = prod_groups(B.d)
    new, gone = [i for i in A.res if i not in B.res], [i for i in B.res if i not in A.res]
    skip = ("bd",) if normalised else ()
    ch = {i: differ(B.res[i], A.res[i], skip) for i in B.res if i in A.res}
    ch = {i: k for i, k in ch.items() if k}
    src = {i: differ(B.src[i], A.src.get(i, {})) for i in B.src}
    src = {i: k for i, k in src.items() if k}
    aux = {i: differ(B.aux[i], A.aux.get(i, {})) for i in B.aux}
    aux = {i: k for i, k in aux.items() if k}

    def only(n_new=0, n_gone=0, n_ch=0, n_src=0, n_aux=0):
        got = (len(new), len(gone), len(ch), len(src), len(aux))
        want = (n_new, n_gone, n_ch, n_src, n_aux)
        if got != want:
            what = ", ".join(f"{a} {b}" for a, b in zip(got, ("new resources", "removed resources", "changed resources", "changed sources", "changed auxiliaries")) if a)
            return f"{op}: {what or 'nothing changed'} {dict(list(ch.items())[:3]) if ch else ''}"
        return None

    def groups_of(ps):
        return [g for g in groups if set(g) & set(ps)]
    if op in ("add_machine", "add_transport_resource"):
        w = only(n_new=1)
        if w:
            return w
        r = A.res[new[0]]
        m = op == "add_machine"
        if r["machine"] != m:
            return f"{op}: the new resource is of the other type"
        if r["capacity"] != 1 or r["other"] or (r["bd"] and not normalised):
            return f"{op}: the new resource has capacity {r['capacity']} and states {r['other'] + r['bd']}"
        if r["control_policy"] not in (o["machine_controllers"] if m else o["transport_controllers"]):
            return f"{op}: control policy {r['control_policy']} is not among the options"
        if m:
            gs = groups_of(r["process_ids"])
            if not gs or len(gs) > c["max_num_processes_per_machine"] or sorted(p for g in gs for p in g) != r["process_ids"]:
                return f"{op}: the new machine has the processes {r['process_ids']}: 1 to {c['max_num_processes_per_machine']} modules of {groups} are possible"
            if r["location"] not in o["positions"]:
                return f"{op}: the new machine stands at {r['location']}, not an allowed position"
            if check_positions and any(x["machine"] and x["location"] == r["location"] for x in B.res.values()):
                return f"{op}: the new machine stands at {r['location']}, where another one stands"
            if r["input_location"] != r["location"] or r["output_location"] != r["location"]:
                return f"{op}: the new machine is at {r['location']}, its input at {r['input_location']}, its output at {r['output_location']}"
            w = setups_ok(A, r)
            return w and f"{op}: the new machine is {w}"
        tp = [p["ID"] for p in B.d["process_data"] if p["type"] == "TransportProcesses"]
        if len(r["process_ids"]) != 1 or r["process_ids"][0] not in tp:
            return f"{op}: the new transport resource has the processes {r['process_ids']}"
        return None
    if op in ("remove_machine", "remove_transport_resource"):
        w = only(n_gone=1)
        if w:
            return w
        if B.res[gone[0]]["machine"] != (op == "remove_machine"):
            return f"{op}: a resource of the other type was removed"
        return None
    if op == "move_machine":
        w = only(n_ch=1)
        if w:
            return w
        i = next(iter(ch))
        b, a = B.res[i], A.res[i]
        if not b["machine"] or set(ch[i]) - {"location", "input_location", "output_location"}:
            return f"{op}: changed {ch[i]} of {i}"
        if a["location"] not in o["positions"]:
            return f"{op}: the machine stands at {a['location']}, not an allowed position"
        if check_positions and any(x["machine"] and x["location"] == a["location"] for x in B.res.values()):
            return f"{op}: the machine was moved to {a['location']}, where a machine stood"
        d = [[x - y for x, y in zip(a[k], b[k])] for k in ("location", "input_location", "output_location")]
        if max(abs(u - v) for e in d for u, v in zip(d[0], e)) > 1e-9:
            return f"{op}: the machine was moved by {d[0]}, its input by {d[1]} and its output by {d[2]}"
        return None
    if op == "change_control_policy":
        w = only(n_ch=1)
        if w:
            return w
        i = next(iter(ch))
        if ch[i] != ["control_policy"]:
            return f"{op}: changed {ch[i]} of {i}"
        if A.res[i]["control_policy"] not in (o["machine_controllers"] if A.res[i]["machine"] else o["transport_controllers"]):
            return f"{op}: {A.res[i]['control_policy']} is not among the options"
        return None
    if op == "change_routing_policy":
        w = only(n_src=1)
        if w:
            return w
        i = next(iter(src))
        if src[i] != ["routing_heuristic"]:
            return f"{op}: changed {src[i]} of {i}"
        if A.src[i]["routing_heuristic"] not in o["routing_heuristics"]:
            return f"{op}: {A.src[i]['routing_heuristic']} is not among the options"
        return None
    if op in ("add_auxiliary", "remove_auxiliary"):
        w = only(n_aux=1)
        if w:
            return w
        i = next(iter(aux))
        if aux[i] != ["quantity_in_storages"]:
            return f"{op}: changed {aux[i]} of {i}"
        d = [y - x for x, y in zip(B.aux[i]["quantity_in_storages"], A.aux[i]["quantity_in_storages"])]
        if sorted(map(abs, d))[-1:] != [1] or sum(map(abs, d)) != 1 or sum(d) != (1 if op == "add_auxiliary" else -1):
            return f"{op}: the quantities of {i} changed by {d}"
        return None
    # process modules
    allowed = {"process_ids", "setup"}
    for i, k in ch.items():
        if set(k) - allowed or not B.res[i]["machine"]:
            return f"{op}: changed {k} of {i}"
        w = setups_ok(A, A.res[i])
        if w:
            return f"{op}: {i} is {w}"
    lost = {i: sorted(set(B.res[i]["process_ids"]) - set(A.res[i]["process_ids"])) for i in ch}
    got = {i: sorted(set(A.res[i]["process_ids"]) - set(B.res[i]["process_ids"])) for i in ch}
    lost, got = {i: k for i, k in lost.items() if k}, {i: k for i, k in got.items() if k}
    if new or gone or src or aux:
        return only(n_ch=1)

    def one_group(i, ps, before):
        """ps is a group as far as it was present (removed) or missing (added)."""
        return any(set(ps) == set(g) & before for g in groups)
    if op == "add_process_module":
        if len(ch) > 1 or lost or len(got) > 1:
            return f"{op}: {got} added, {lost} removed"
        for i, ps in got.items():
            if not any(set(ps) == set(g) - set(B.res[i]["process_ids"]) for g in groups):
                return f"{op}: {ps} added to {i}: not one of {groups}"
        return None
    if op == "remove_process_module":
        if len(ch) != 1 or got or len(lost) != 1:
            return f"{op}: {got} added, {lost} removed"
        for i, ps in lost.items():
            if not one_group(i, ps, set(B.res[i]["process_ids"])):
                return f"{op}: {ps} removed from {i}: not one of {groups}"
        return None
    if op == "move_process_module":
        if len(ch) > 2 or len(lost) != 1 or len(got) > 1 or set(lost) & set(got):
            return f"{op}: {got} added, {lost} removed"
        i, ps = next(iter(lost.items()))
        if not one_group(i, ps, set(B.res[i]["process_ids"])):
            return f"{op}: {ps} removed from {i}: not one of {groups}"
        if got:
            j, qs = next(iter(got.items()))
            if set(qs) != set(ps) - set(B.res[j]["process_ids"]):
                return f"{op}: {i} loses {ps}, {j} gets {qs}"
        elif not any(r["machine"] and k != i and set(ps) <= set(r["process_ids"]) for k, r in B.res.items()):
            return f"{op}: {ps} of {i} are lost"
        return None
    raise AssertionError(op)


def frame(B, A):
    """what no move changes."""
    k = differ(B.rest, A.rest)
    if k:
        return f"{k} changed"
    for i, q in B.queues.items():
        if A.queues.get(i) != q:
            return f"the queue {i} of a source, sink or auxiliary changed: {q} -> {A.queues.get(i)}"
    return None


def normal(V):
    """the form every mutated, crossed or random configuration has."""
    for i, r in V.res.items():
        if V.caps[i] != [r["capacity"]] * len(r["process_ids"]):
            return f"{i} has the process capacities {V.caps[i]} with capacity {r['capacity']} and {len(r['process_ids'])} processes"
        want = V.named(r)
        if want is not None and r["bd"] != want:
            return f"{i} with the processes {r['process_ids']} has the breakdown states {r['bd']} instead of {want}"
    for r in machines_of(V.d):
        if not r["input_queues"] or not r["output_queues"]:
            return f"machine {r['ID']} has no queues"
    return None


def bd_rule(B, A):
    """breakdown states that are not normalised stay."""
    for i, r in A.res.items():
        if A.named(r) is None and r["bd"] != (B.res[i]["bd"] if i in B.res else []):
            return f"the breakdown states of {i} changed: {r['bd']}"
    return None


def overfull(d, before=None):
    cap = {q["ID"]: q["capacity"] for q in d["queue_data"]}

    def load(x):
        n = {}
        for a in x["auxiliary_data"]:
            for s, k in zip(a["storages"], a["quantity_in_storages"]):
                n[s] = n.get(s, 0) + k
        return n
    was = load(before) if before else {}
    for s, k in load(d).items():
        if cap.get(s) and k > cap[s] and k > was.get(s, 0):
            return f"{k} auxiliaries lie in storage {s} for {cap[s]:g}"
    for a in d["auxiliary_data"]:
        if min(a["quantity_in_storages"], default=0) < 0:
            return f"storage of {a['ID']} holds {a['quantity_in_storages']}"
    return None


@reg
class P29(P28):
    id = "P29"
    quick, thorough = 400, 30000
    rule = ("one count = one distinct sequence of moves from a random base system (moves, mutations, crossovers, random configurations) in which at least "
            "three moves changed the configuration, every step compared with the reference")
    real = "prodsys.optimization.adapter_manipulation, util and the validity check, prodsys.adapters, the models, the simulation of the final configuration"
    stub = "both random number generators are seeded by the scenario, the generator of identifiers is the simulator's"
    interleaving_measure = "sha256 of the final configuration"
    assumptions = ("homogeneous breakdown states under the optimiser's own names; no link transports or batch machines",)
    chunk = 10

    def scenario(self, i, seed):
        rng = random.Random(seed)
        scn = opt_system(rng)
        s, sd = scn["system"], scn["scenario_data"]
        t = list(BY_TRANSFORMATION)
        scn["scenario_data"]["options"]["transformations"] = rng.sample(t, rng.randint(1, len(t)))
        if rng.random() < 0.4:
            sd["constraints"]["max_num_machines"] = max(1, len(machines_of(s)) + rng.randint(-1, 1))
            sd["constraints"]["max_num_transport_resources"] = max(1, len(vehicles_of(s)) + rng.randint(-1, 1))
            sd["constraints"]["max_num_processes_per_machine"] = rng.randint(1, 3)
        scn["compound"] = rng.random() < 0.25
        if scn["compound"]:
            # every process belongs to a group of processes that come together
            ps = [p["ID"] for p in s["process_data"] if p["type"] in ("ProductionProcesses", "CapabilityProcesses")]
            rng.shuffle(ps)
            k = 0
            while ps:
                g = ps[:rng.randint(1, 2)]
                ps = ps[len(g):]
                s["process_data"].append(dict(ID=f"CP{k}", description="", type="CompoundProcesses", process_ids=g))
                k += 1
            for r in machines_of(s):
                have = list(r["process_ids"])
                for p in s["process_data"]:
                    if p["type"] == "CompoundProcesses" and set(p["process_ids"]) & set(have):
                        r["process_ids"] += [x for x in p["process_ids"] if x not in r["process_ids"]]
                if r.get("process_capacities"):
                    r["process_capacities"] = [r["process_capacities"][0]] * len(r["process_ids"])
            sd["info"]["process_module_cost"] = 2300.0
        if len(s.get("auxiliary_data") or []) > 1 and rng.random() < 0.5:
            # both kinds lie in one storage
            a, b = s["auxiliary_data"][:2]
            if len(b["storages"]) == 1:
                old, b["storages"] = b["storages"][0], [a["storages"][0]]
                s["queue_data"] = [q for q in s["queue_data"] if q["ID"] != old]
        if s.get("auxiliary_data") and rng.random() < 0.2:
            for p in s["product_data"]:
                p["auxiliaries"] = []
        if s.get("auxiliary_data") and rng.random() < 0.5:
            for q in s["queue_data"]:
                n = sum(k for a in s["auxiliary_data"] for st, k in zip(a["storages"], a["quantity_in_storages"]) if st == q["ID"])
                if n:
                    q["capacity"] = n + rng.randint(0, 2)
        if rng.random() < 0.4:
            for r in machines_of(s):
                if rng.random() < 0.6:
                    r["output_location"] = [r["location"][0] + 0.25, r["location"][1] - 0.5]
                if rng.random() < 0.1:
                    r["input_location"] = [r["location"][0] - 0.25, r["location"][1] - 0.25]
            if rng.random() < 0.5:
                sd["options"]["transformations"] = sorted(set(sd["options"]["transformations"]) | {"layout"})
        w = {m: rng.choice([1, 1, 2]) for m in MOVES}
        w.update(mutation=10, crossover=rng.choice([0, 3]), random=rng.choice([0, 1]))
        scn["steps"] = [[m, rng.randint(0, 2**31)] for m in rng.choices(list(w), list(w.values()), k=rng.randint(4, 20))]
        scn["keep_invalid"] = round(rng.choice([0.0, 0.3, 1.0]), 2)
        scn["names"] = rng.randint(0, 2**31)
        scn["sim"] = rng.randint(0, 99)
        return scn

    def shrinks(self, scn):
        n = len(scn["steps"])
        k = n // 2
        while k >= 1:
            for j in range(0, n, k):
                c = copy.deepcopy(scn)
                del c["steps"][j:j + k]
                if c["steps"]:
                    yield c
            k //= 2
        if scn["keep_invalid"] not in (0.0, 1.0):
            c = copy.deepcopy(scn)
            c["keep_invalid"] = 1.0
            yield c

    def evaluate(self, scn):
        viol, st = [], {}

        def count(k, n=1):
            st[k] = st.get(k, 0) + n
        sig, n = "", 0
        try:
            with patched(Disk(), Clock()), Names(scn["names"]), contained(scn["names"]):
                sig, n = self.walk(scn, viol, count)
        except core.Hang:
            count("probe.search_cut_off")
        return Outcome(viol, st, sig, n >= 3, {"steps": scn["steps"], "changes": n, "scenario_data": scn["scenario_data"]})

    def walk(self, scn, viol, count):
        from prodsys.optimization import adapter_manipulation as am
        from prodsys.optimization import optimization as om
        import numpy as np
        sd = scn["scenario_data"]
        base = make_base(scn)
        b0, bd = dump(base), base.model_dump(mode="json")
        tr = set().union(*(BY_TRANSFORMATION[t] for t in sd["options"]["transformations"]))
        cur = base.model_copy(deep=True)
        other = base.model_copy(deep=True)
        decide = random.Random(scn["names"] ^ 5)
        changes = 0

        def D(a):
            return a.model_dump(mode="json")

        def bad(kind, msg):
            viol.append((kind, msg))

        def call(f, what):
            r = try_(f)
            if r[0] == "ok":
                return True, r[1]
            where = core._classify_exception(r[1], r[1].__traceback__)
            if where is None:
                raise r[1]
            bad(f"exception:{type(r[1]).__name__}", f"{what} fails with {type(r[1]).__name__}: {str(r[1])[:200]} (in {where})")
            return False, None

        def validity(a, what):
            d = D(a)
            ok, got = call(lambda: om.check_valid_configuration(a.model_copy(deep=True), base), "check_valid_configuration")
            if not ok:
                return False
            why = broken_constraint(d, bd, sd)
            if bool(got) != (why is None):
                bad("validity", f"after {what}: the configuration is judged {'valid' if got else 'not valid'}, {why or 'it meets all constraints'}")
                return False
            ok, c = call(lambda: om.get_reconfiguration_cost(a, base), "get_reconfiguration_cost")
            if ok and abs(c - cost(d, bd, sd)) > 1e-6:
                bad("cost", f"after {what}: the reconfiguration cost is given as {c:g}, it is {cost(d, bd, sd):g}")
            count("probe.valid" if why is None else "probe.invalid")
            return why is None

        for op, seed in scn["steps"]:
            f = getattr(am, {"random": "random_configuration"}.get(op, op), None)
            if f is None:
                count("probe.missing_" + op)
                continue
            random.seed(seed)
            np.random.seed(seed % 2**32)
            Bd = D(cur)
            B = View(Bd)
            before = cur.model_copy(deep=True)
            if op == "crossover":
                Od = D(other)
                ok, r = call(lambda: f([cur], [other]), op)
                if not ok:
                    break
                cur, other = r[0][0], r[1][0]
                A1, A2 = View(D(cur)), View(D(other))
                O = View(Od)
                for X, Y in ((B, A1), (O, A2)):
                    w = frame(X, Y) or normal(Y)
                    if w:
                        bad("crossover", f"crossover: {w}")
                w = integrity(A1.d) or integrity(A2.d)
                if w:
                    bad("crossover-ids", f"crossover of machines {[r['ID'] for r in machines_of(Bd)]} and {[r['ID'] for r in machines_of(Od)]}: {w}")

                def bag(*vs):
                    return sorted(json.dumps({k: x for k, x in r.items() if k not in ("bd", "ID")}, sort_keys=True) for v in vs for r in v.res.values())
                if not w and bag(B, O) != bag(A1, A2):
                    bad("crossover", "crossover changes resources: " + str([x for x in bag(B, O) if x not in bag(A1, A2)][:1])[:300])
                if {id(x) for x in cur.resource_data} & {id(x) for x in other.resource_data}:
                    bad("crossover", "after a crossover both configurations share a resource")
                if A1.src != B.src or A1.aux != B.aux or A2.src != O.src or A2.aux != O.aux:
                    bad("crossover", "a crossover changes sources or auxiliaries")
                if viol:
                    break
                count("probe.crossovers")
                changes += A1.d["resource_data"] != B.d["resource_data"]
                v1, v2 = validity(cur, op), validity(other, op)
                if viol:
                    break
                if not v1 and decide.random() >= scn["keep_invalid"]:
                    cur = before
                if not v2:
                    other = base.model_copy(deep=True)
                continue
            if op == "random":
                ok, new = call(lambda: f(base), op)
                if not ok:
                    break
                Ad = D(new)
                A, BB = View(Ad), View(bd)
                why = broken_constraint(Ad, bd, sd)
                w = (why and f"{why}") or integrity(Ad) or frame(BB, A) or normal(A) or overfull(Ad, bd) or self.respects(BB, A, sd)
                if w:
                    bad("random-configuration", f"a random configuration with the transformations {sd['options']['transformations']}: {w}")
                    break
                if Ad["ID"] == bd["ID"]:
                    bad("random-configuration", "a random configuration has the ID of the base configuration")
                count("probe.random_configurations")
                changes += 1
                other, cur = cur, new
                if decide.random() < 0.5:
                    cur, other = other, cur
                continue
            if op == "mutation":
                ok, r = call(lambda: f([cur]), op)
                if not ok:
                    break
                A = View(D(cur))
                w = frame(B, A) or integrity(A.d) or normal(A) or bd_rule(B, A) or overfull(A.d, Bd)
                if w:
                    bad("mutation", f"mutation: {w}")
                    break
                same = {i: {k: x for k, x in v.items() if k != "bd"} for i, v in A.res.items()} == {i: {k: x for k, x in v.items() if k != "bd"} for i, v in B.res.items()} and A.src == B.src and A.aux == B.aux
                if not same:
                    ws = {m: judge(m, B, A, sd, True) for m in sorted(tr)}
                    if all(ws.values()):
                        bad("mutation", f"a mutation with the transformations {sd['options']['transformations']} is none of the allowed moves: {list(ws.values())[:12]}"[:900])
                        break
                    count("probe.mutations")
                    for m in ws:
                        if not ws[m]:
                            count("probe.mutation_" + m)
                            break
                    changes += 1
                    if A.d["ID"] == Bd["ID"]:
                        bad("mutation-id", "a mutation changes the configuration, not its ID")
                        break
            else:
                ok, ret = call(lambda: f(cur), op)
                if not ok:
                    break
                A = View(D(cur))
                if not ret:
                    if A.d != Bd:
                        bad("false-return", f"{op} reports that nothing was changed: {json_diff(Bd, A.d)}")
                        break
                    count("probe.refused_" + op)
                    continue
                w = frame(B, A) or integrity(A.d) or judge(op, B, A, sd, False) or overfull(A.d, Bd)
                if w:
                    bad("move", w)
                    break
                count("probe.move_" + op)
                changes += A.d != Bd
            v = validity(cur, op)
            if viol:
                break
            if not v and decide.random() >= scn["keep_invalid"]:
                cur = before
        if dump(base) != b0:
            bad("base-changed", "the moves changed the base configuration: " + json_diff(json.loads(b0), json.loads(dump(base))))
        sig = dump(cur)
        if viol:
            return sig, changes
        # what the searches do after every move
        from prodsys.adapters import adapter as ad
        from prodsys.optimization import util as ut
        for m, n in ((ad, "add_default_queues_to_resources"), (ut, "clean_out_breakdown_states_of_resources"), (ut, "adjust_process_capacities")):
            if hasattr(m, n):
                call(lambda: getattr(m, n)(cur), n)
        w = normal(View(D(cur))) or integrity(D(cur))
        if w and not viol:
            bad("normalisation", w)
        if not viol and broken_constraint(D(cur), bd, sd) is None:
            ok, r = call(lambda: simulate(cur, [scn["sim"]], sd["info"]["time_range"], [x["name"] for x in sd["objectives"]], bd, sd), "the simulation of a valid configuration")
            count("sim_time", sd["info"]["time_range"])
            count("probe.simulated")
        return sig, changes

    def respects(self, B, A, sd):
        """a random configuration differs from the base only in what the transformations allow."""
        t, o = set(sd["options"]["transformations"]), sd["options"]
        for machine, cap in ((True, "production_capacity"), (False, "transport_capacity")):
            b, a = ({i: r for i, r in V.res.items() if r["machine"] == machine} for V in (B, A))
            if cap in t:
                for i, r in a.items():
                    if machine:
                        w = setups_ok(A, r)
                        if w:
                            return f"machine {i} is {w}"
                    if r["control_policy"] not in (o["machine_controllers"] if machine else o["transport_controllers"]):
                        return f"{i} has the control policy {r['control_policy']}, not among the options"
                continue
            if set(b) != set(a):
                return f"{'machines' if machine else 'transport resources'} {sorted(b)} -> {sorted(a)}"
            for i in b:
                may = {"bd"} | ({"control_policy"} if "sequencing_logic" in t else set()) | ({"location", "input_location", "output_location"} if machine and "layout" in t else set())
                k = differ(b[i], a[i], may)
                if k:
                    return f"{k} of {i} changed"
        if "routing_logic" not in t and A.src != B.src:
            return "the sources changed"
        if any(differ(B.src[i], A.src[i], ("routing_heuristic",)) for i in B.src):
            return "the sources changed"
        if "auxiliary_capacity" not in t and A.aux != B.aux:
            return "the auxiliaries changed"
        if any(differ(B.aux[i], A.aux[i], ("quantity_in_storages",)) for i in B.aux):
            return "the auxiliaries changed"
        return None
