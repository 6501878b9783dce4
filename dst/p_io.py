"""P26: saving and loading systems, scenarios and event logs on a simulated disk, clock and locale."""
import copy
import io
import json
import random

from . import core, gen, model
from .harness import Outcome
from .p_core import INF_Q, RULE, SWARM, Core
from .p_det import ALL, STOCH, dump, first_diff, json_diff, outcome
from .props import reg
from .simfs import Clock, Disk, SimCrash, patched
from .simprop import shrink_sim

LOCALES = ["utf-8", "utf-8", "ascii", "cp1252", "latin-1", "cp932", "cp437"]
PIECES = ["ü", "ß", "Ω", "机", "é", "λ", "→", "😀", "Ж", " ", ",", ";", '"', "'", "\\", "/", "%", "&", "#", "{}", "[1]", "null", "1.5", "a", "B", "0"]
SURVIVE = ["written", "old", "empty", "lost_block"]
FATAL = ("nospace", "ioerror")


def strange_names(rng, s):
    ids = set()
    for k in ("time_model_data", "state_data", "process_data", "queue_data", "resource_data", "node_data", "source_data", "sink_data"):
        ids |= {x["ID"] for x in s.get(k, [])}
    ids |= {p["product_type"] for p in s["product_data"]} | {a["auxiliary_type"] for a in s.get("auxiliary_data", [])}
    m = {}
    for j, i in enumerate(sorted(ids)):
        if rng.random() < 0.6:
            a = [rng.choice(PIECES) for _ in range(rng.randint(1, 3))]
            m[i] = a[0] + i + "".join(a[1:])
    return m


def gen_scenario_data(rng, s):
    """a random optimisation scenario for a system."""
    P = gen
    procs = [p["ID"] for p in s["process_data"]]
    machines = [r for r in s["resource_data"] if "batch_size" in r or "input_queues" in r]
    pos = [list(r["location"]) for r in machines]
    x = 40.0
    for _ in range(rng.randint(0, 4)):
        x += 1
        pos.append([x, float(rng.randint(0, 9))])
    rng.shuffle(pos)
    tr = ["production_capacity", "transport_capacity", "layout", "sequencing_logic", "routing_logic"]
    tr = rng.sample(tr, rng.randint(1, len(tr)))
    mc = rng.sample(["FIFO", "LIFO", "SPT"], rng.randint(2, 3))
    return dict(
        constraints=dict(max_reconfiguration_cost=float(rng.choice([1e5, 2e5, 1e6, 123456.789])), max_num_machines=len(machines) + rng.randint(0, 3),
                         max_num_processes_per_machine=rng.randint(1, 4), max_num_transport_resources=rng.randint(1, 4),
                         target_product_count={p["product_type"]: rng.randint(1, 200) for p in s["product_data"]} if rng.random() < 0.5 else None),
        options=dict(transformations=tr, machine_controllers=mc, transport_controllers=rng.sample(["FIFO", "SPT_transport"], rng.randint(1, 2)),
                     routing_heuristics=rng.sample(["shortest_queue", "random", "FIFO"], rng.randint(1, 3)), positions=pos),
        info=dict(machine_cost=30000.0, transport_resource_cost=20000.0,
                  process_module_cost=2300.0 if rng.random() < 0.5 else {p: float(rng.randint(100, 3000)) for p in procs},
                  auxiliary_cost=1000.0, breakdown_cost=None if rng.random() < 0.5 else 100.5, time_range=rng.randint(10, 60), maximum_breakdown_time=None),
        objectives=[dict(name=n, weight=round(rng.uniform(0.1, 2), 3)) for n in rng.sample(["throughput", "WIP", "throughput_time", "cost"], rng.randint(1, 4))])


def try_(f):
    try:
        return ("ok", f())
    except SimCrash:
        return ("crash", None)
    except core.HarnessError:
        raise
    except Exception as e:
        return ("error", e)


def hash_of(a):
    try:
        return a.hash()
    except NotImplementedError:
        return "not supported"


COLS = ["Time", "Resource", "State", "State Type", "Activity", "Product", "Expected End Time", "Origin location", "Target location", "Empty Transport"]


def norm(v):
    if v is None or v != v:
        return ""
    v = getattr(v, "value", v)
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)):
        return float(v)
    return str(v)


def rows_of_log(event_data):
    out = []
    for d in event_data:
        out.append([norm(d.get(c)) for c in COLS])
    return out


def cell(c, v):
    """a cell of a saved file as it was before saving."""
    if v is None or v != v or v == "":
        return ""
    if c in ("Time", "Expected End Time"):
        return float(v)
    if c == "Empty Transport":
        return "" if v == "" else str(bool(v) if not isinstance(v, str) else v)
    return str(v)


def read_saved(name, data):
    if name.endswith(".csv"):
        import csv
        rd = csv.DictReader(io.StringIO(bytes(data).decode("utf-8"), newline=""))
        rows = list(rd)
        return [[cell(c, r.get(c)) for c in COLS] for r in rows]
    d = json.loads(bytes(data).decode("utf-8"))
    keys = sorted(d["Time"], key=int)
    return [[cell(c, d.get(c, {}).get(k)) for c in COLS] for k in keys]


def same_rows(a, b):
    if len(a) != len(b):
        return f"{len(a)} / {len(b)} rows"
    for i, (x, y) in enumerate(zip(a, b)):
        for c, u, v in zip(COLS, x, y):
            if isinstance(u, float) and isinstance(v, float):
                if abs(u - v) > 1e-8 * max(1.0, abs(u)):
                    return f"row {i}, {c}: {u!r} / {v!r}"
            elif c == "Empty Transport":
                if {"True": 1, "False": 0, "1.0": 1, "0.0": 0, "": ""}.get(str(u), u) != {"True": 1, "False": 0, "1.0": 1, "0.0": 0, "": ""}.get(str(v), v):
                    return f"row {i}, {c}: {u!r} / {v!r}"
            elif u != v:
                return f"row {i}, {c}: {u!r} / {v!r}"
    return None


@reg
class P26(Core):
    id = "P26"
    quick, thorough = 750, 45000
    profiles = [(3, dict(ALL)), (1, dict(ALL, plan={"edges": 1, "dict": 1}, n_procs=(3, 6), plan_len=(3, 5)))]
    swarm = 0.0001
    rule = "one count = one distinct outcome trace (disk operations, faults fired, files and hashes afterwards) in which at least one file was written and read back"
    real = Core.real + "; prodsys.adapters.json_adapter, prodsys.simulation.logger, pandas writers, Python's text and buffering layers"
    stub = ("the disk below Python's buffering layer (files, directories, full disk, I/O errors, short writes, crashes, lost blocks), the default text "
            "encoding, the wall clock; SimPy's event queue ordering; both random number generators are seeded")
    interleaving_measure = "sha256 of the trace of disk operations, faults, outcomes and file contents"

    def scenario(self, i, seed):
        rng = random.Random(seed)
        prof = rng.choices(self.profiles, weights=[p[0] for p in self.profiles])[0][1]
        prof = gen.profile(**dict(prof, horizon="short"))
        a = gen.gen(rng, prof)
        b = gen.gen(random.Random(rng.randint(0, 2**31)), gen.profile(**dict(ALL, horizon="short")))
        for s in (a, b):
            if rng.random() < 0.6:
                s["system"] = gen.rename(s["system"], strange_names(rng, s["system"]))
            s["system"]["ID"] = rng.choice(["", "sys", "Anlage Süd", "a.b", "工場"])
            s["system"]["seed"] = rng.randint(0, 10**6)
        if rng.random() < 0.4:
            for r in a["system"]["resource_data"]:
                r["description"] = rng.choice(["", "größer\nals", "\t\"x\"", "\u2028", "日本"])
        nf = rng.choice([0, 0, 1, 1, 1, 2])
        a["io"] = dict(
            locale=rng.choice(LOCALES),
            plan=[dict(op=rng.choice([0, 1, 1, 1, 2, 2, 3, rng.randint(0, 8)]), kind=rng.choice(["crash", "crash", "nospace", "ioerror", "short", "short"]),
                       at=rng.choice([0.0, 0.3, 0.5, 0.99, 1.0, round(rng.random(), 3)])) for _ in range(nf)],
            surviving=rng.choice(SURVIVE), old_on_disk=rng.random() < 0.7, holds_other=rng.random() < 0.7,
            omit=[k for k in ("seed", "node_data", "auxiliary_data") if rng.random() < 0.15],
            scenario_data=gen_scenario_data(rng, a["system"]) if rng.random() < 0.6 else None,
            saves=[dict(sys=rng.choice(["a", "a", "b"]), seed=rng.randint(0, 3), dt=rng.choice([0.0, 0.0, 0.2, 1.0, 2.0, -1.0, -3600.0, 3600.0]),
                        fmt=rng.choice(["csv", "csv", "json"]), folder=rng.choice(["out", "out", "out/x"]), again=rng.random() < 0.1) for _ in range(rng.randint(1, 5))],
            save_plan=[dict(op=rng.choice([0, 1, 1, 2, 3, rng.randint(0, 14)]), kind=rng.choice(["nospace", "ioerror", "short", "crash"]), at=round(rng.random(), 3))] if rng.random() < 0.4 else [])
        a["horizon"] = min(a["horizon"], 40.0)
        a["other"] = dict(system=b["system"], horizon=20.0, sched=b["sched"])
        return a

    def shrinks(self, scn):
        o = scn["io"]
        for k, v in (("plan", []), ("save_plan", []), ("saves", []), ("locale", "utf-8"), ("omit", []), ("scenario_data", None), ("holds_other", False), ("old_on_disk", False)):
            if o[k] != v:
                c = copy.deepcopy(scn)
                c["io"][k] = copy.deepcopy(v)
                yield c
        for k in ("plan", "saves"):
            if len(o[k]) > 1:
                for j in range(len(o[k])):
                    c = copy.deepcopy(scn)
                    c["io"][k].pop(j)
                    yield c
        yield from shrink_sim(scn)

    def evaluate(self, scn):
        viol, st, trace = [], {}, []
        hits = 0

        def count(k, n=1):
            st[k] = st.get(k, 0) + n
        try:
            hits = self.systems(scn, viol, count, trace)
            if not viol:
                hits += self.logs(scn, viol, count, trace)
        except core.HarnessError:
            raise
        sig = json.dumps(trace, default=str)
        sample = {"io": scn["io"], "trace": trace[:40]}
        return Outcome(viol, st, sig, hits > 0, sample)

    # --- systems
    def systems(self, scn, viol, count, trace):
        from prodsys.adapters import JsonProductionSystemAdapter as J
        o = scn["io"]
        A, B = core.make_adapter(scn["system"]), core.make_adapter(scn["other"]["system"])
        want, old = dump(A), dump(B)
        disk = Disk(locale=o["locale"])
        path = "store/system.json"
        with patched(disk, Clock()):
            if o["old_on_disk"]:
                r = try_(lambda: B.write_data(path))
                if r[0] != "ok":
                    viol.append(("save-failed", f"a system cannot be saved where the default encoding is {o['locale']}: {type(r[1]).__name__}: {str(r[1])[:150]}"))
                    return 0
                disk.sync()
            disk.plan = {f["op"] + disk.n: f for f in o["plan"]}
            before = dump(A)
            r = try_(lambda: A.write_data(path))
            fired, disk.plan, disk.full = list(disk.fired), {}, False
            for f in fired:
                count("fault.disk_" + f)
            if o["locale"] != "utf-8":
                count("fault.other_default_encoding")
            trace += [r[0], fired, disk.n]
            if dump(A) != before:
                viol.append(("save-changes", "saving changed the saved object: " + json_diff(json.loads(before), json.loads(dump(A)))))
            fatal = [f for f in fired if f.split("_")[0] in FATAL]
            if r[0] == "ok" and fatal:
                viol.append(("silent-write-failure", f"the disk reported {fatal[0]} but saving reported success"))
                return 1
            if r[0] == "error" and not fatal:
                viol.append(("save-failed", f"a system cannot be saved (default encoding {o['locale']}, disk faults {fired}): {type(r[1]).__name__}: {str(r[1])[:150]}"))
                return 1
            if r[0] == "error" and not isinstance(r[1], OSError):
                viol.append(("save-error", f"a disk failure is reported as {type(r[1]).__name__}: {str(r[1])[:150]}"))
            if r[0] == "crash":
                disk.restart(o["surviving"])
                count("fault.crash_survives_" + o["surviving"])
            for holds in ([False, True] if o["holds_other"] else [False]):
                X = core.make_adapter(scn["other"]["system"]) if holds else J()
                x0 = dump(X)
                q = try_(lambda: X.read_data(path))
                trace.append(q[0])
                if r[0] == "ok":
                    if q[0] != "ok":
                        viol.append(("load-failed", f"a saved system cannot be loaded (default encoding {o['locale']}): {type(q[1]).__name__}: {str(q[1])[:200]}"))
                        return 1
                    if dump(X) != want:
                        viol.append(("loads-other-system", "the loaded system differs from the saved one: " + json_diff(json.loads(want), json.loads(dump(X)))))
                        return 1
                    if hash_of(X) != hash_of(A):
                        viol.append(("hash-differs", "the loaded system has another hash than the saved one"))
                    count("probe.round_trips")
                else:
                    if q[0] == "ok":
                        count("probe.loaded_after_fault")
                        if dump(X) not in (want, old if o["old_on_disk"] else want):
                            viol.append(("loads-damaged", "a file that was cut off is loaded as a different system: " + json_diff(json.loads(want), json.loads(dump(X)))))
                            return 1
                    else:
                        count("probe.refused_after_fault")
                        if dump(X) != x0:
                            viol.append(("half-loaded", f"a failed load ({type(q[1]).__name__}) changed the object that was loading: " + json_diff(json.loads(x0), json.loads(dump(X)))))
                            return 1
            if r[0] == "ok":
                # the loaded system behaves the same
                Y = J()
                Y.read_data(path)
                a = core.execute(scn, max_steps=40000, adapter=A)
                b = core.execute(scn, max_steps=40000, adapter=Y)
                count("sim_time", 2 * scn["horizon"])
                if outcome(a) != outcome(b):
                    viol.append(("behaves-differently", "the loaded system has another history: " + str(first_diff([x.brief() for x in a.rows], [x.brief() for x in b.rows]))))
                trace.append(a.log_hash()[:12])
                # optional sections may be missing in a file: what the loading object held before must not show through
                if o["omit"]:
                    d = json.loads(bytes(disk.files[path].now).decode("utf-8"))
                    for k in o["omit"]:
                        d.pop(k, None)
                    f = disk.open("store/partial.json", "wb")
                    f.write(json.dumps(d).encode())
                    f.close()
                    F, G = J(), core.make_adapter(scn["other"]["system"])
                    q = try_(lambda: F.read_data("store/partial.json")), try_(lambda: G.read_data("store/partial.json"))
                    trace.append([x[0] for x in q])
                    count("probe.partial_files")
                    if q[0][0] != q[1][0] or (q[0][0] == "ok" and dump(F) != dump(G)):
                        viol.append(("leftover", f"loading a file without {o['omit']} depends on what the object held before: " + (json_diff(json.loads(dump(F)), json.loads(dump(G))) if q[0][0] == q[1][0] else f"{q[0]} / {q[1]}")))
                # scenarios
                if o["scenario_data"]:
                    from prodsys.models.scenario_data import ScenarioData
                    A.scenario_data = ScenarioData(**copy.deepcopy(o["scenario_data"]))
                    q = try_(lambda: A.write_scenario_data("store/scenario.json"))
                    if q[0] != "ok":
                        viol.append(("save-failed", f"a scenario cannot be saved (default encoding {o['locale']}): {type(q[1]).__name__}: {str(q[1])[:150]}"))
                        return 1
                    F = J()
                    q = try_(lambda: F.read_data(path, "store/scenario.json"))
                    if q[0] != "ok":
                        viol.append(("load-failed", f"a saved scenario cannot be loaded: {type(q[1]).__name__}: {str(q[1])[:200]}"))
                        return 1
                    u, v = A.scenario_data.model_dump(mode="json"), F.scenario_data.model_dump(mode="json")
                    count("probe.scenarios")
                    if u != v:
                        viol.append(("scenario-differs", "the loaded scenario differs from the saved one: " + json_diff(u, v)))
        return 1

    # --- event logs
    def logs(self, scn, viol, count, trace):
        o = scn["io"]
        if not o["saves"]:
            return 0
        disk, clock = Disk(locale=o["locale"]), Clock()
        kept = {}  # path -> (rows, which)
        with patched(disk, clock):
            for k, sv in enumerate(o["saves"]):
                base = scn if sv["sys"] == "a" else scn["other"]
                s = dict(base, horizon=min(base["horizon"], 25.0), system=dict(base["system"], seed=sv["seed"]))
                run = core.execute(s, max_steps=30000)
                count("sim_time", s["horizon"])
                if run.exc or run.livelock or run.truncated or not run.rows:
                    continue
                want = rows_of_log(run.runner.event_logger.event_data)
                if k == len(o["saves"]) - 1:
                    disk.plan = {f["op"] + disk.n: f for f in o["save_plan"]}
                before = {p: bytes(f.now) for p, f in disk.files.items()}
                nf = len(disk.fired)
                for again in ([0, 1] if sv["again"] else [0]):
                    r = try_(lambda: getattr(run.runner, "save_results_as_" + sv["fmt"])("store/" + sv["folder"]))
                    if r[0] != "ok":
                        break
                fired = disk.fired[nf:]
                for f in fired:
                    count("fault.disk_" + f)
                if sv["dt"] <= 0:
                    count("fault.clock_stands_still" if sv["dt"] == 0 else "fault.clock_jumps_back")
                fatal = [f for f in fired if f.split("_")[0] in FATAL]
                trace += [r[0], fired]
                if r[0] == "ok" and fatal:
                    viol.append(("silent-write-failure", f"the disk reported {fatal[0]} but saving the event log reported success"))
                    return 1
                if r[0] == "error" and not fatal:
                    viol.append(("save-failed", f"an event log cannot be saved (default encoding {o['locale']}): {type(r[1]).__name__}: {str(r[1])[:150]}"))
                    return 1
                if r[0] == "crash":
                    disk.restart("written")
                for p, (rows, which) in kept.items():
                    if p not in disk.files:
                        viol.append(("log-lost", f"saving run {k} removed {p}, the log of run {which}"))
                        return 1
                    if bytes(disk.files[p].now) != before[p]:
                        viol.append(("log-overwritten", f"saving the event log of run {k} overwrites {p}, the log of run {which} (clock moved by {sv['dt']:g} s)"))
                        return 1
                if r[0] == "ok":
                    new = [p for p in disk.files if p not in before]
                    if not new and not any(rows == want for rows, _ in kept.values()):
                        viol.append(("log-missing", f"saving run {k} created no file"))
                        return 1
                    if not sv["again"] and len(new) > 1:
                        viol.append(("log-files", f"saving run {k} created {new}"))
                    for p in new:
                        if not p.endswith("." + sv["fmt"]) or not p.startswith("store/" + sv["folder"] + "/"):
                            viol.append(("log-name", f"the log of run {k} is saved as {p}"))
                            return 1
                        try:
                            got = read_saved(p, disk.files[p].now)
                        except Exception as e:
                            viol.append(("log-unreadable", f"the saved event log {p} cannot be read: {type(e).__name__}: {str(e)[:150]}"))
                            return 1
                        d = same_rows(want, got)
                        if d:
                            viol.append(("log-differs", f"the saved event log {p} is not the log of run {k}: {d}"))
                            return 1
                        kept[p] = (want, k)
                    count("probe.logs_saved")
                    disk.sync()
                clock.advance(sv["dt"])
        trace.append(len(kept))
        return len(kept)
