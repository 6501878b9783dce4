"""Seeded swarm generator of scenarios (whole production systems with workload and faults).

Every scenario is plain JSON.  Most durations come from a small integer grid, so that faults,
completions and arrivals coincide often - the interesting instants.  `prof` switches features on:
each value is a probability or a choice list, and every run draws its own subset (swarm testing).
"""
import random

BASE = dict(
    n_types=(1, 3), n_procs=(1, 4), n_machines=(1, 4), n_vehicles=(1, 2), n_products=(3, 14),
    plan={"list": 1.0}, plan_len=(1, 4), repeat_step=0.15,
    capacity=0.25, cap_max=3, uneven_capacity=0.2,
    breakdown=0.35, process_breakdown=0.25, vehicle_breakdown=0.25, multi_breakdown=0.4,
    setup=0.25, finite_queue=0.25, rework=0.0, failure_one=0.4, batch=0.0, store=0.0, aux=0.0, link=0.0, charging=0.0,
    capability=0.0, compound=0.0, loading=0.2,
    policy=["FIFO"], tpolicy=["FIFO"], heuristic=["FIFO", "random", "shortest_queue"],
    arrivals={"finite": 0.6, "cyclic": 0.4}, burst=0.3,
    durations={"const": 0.6, "sched": 0.4}, frac=0.2,
    reaction=[0, 0.1, 0.5, 1], speed=[1, 2, 5], metric=["manhattan"],
    sched={"fifo": 0.4, "perm": 0.3, "late": 0.3},
    io_loc=0.3, acyclic=False, horizon="drain", multi_source=0.25, multi_sink=0.2, process_bd_setup=0.3, multi_queue=0.15,
    big_pos=8, confuse=0.25,
)


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


class B:
    def __init__(self, rng):
        self.rng = rng
        self.tm, self.state, self.proc, self.queue, self.res = [], [], [], [], []
        self.node, self.prod, self.src, self.sink, self.aux = [], [], [], [], []
        self.pos = set()
        self.n = 0

    def id(self, pre):
        self.n += 1
        return f"{pre}_{self.n}"

    def place(self, size):
        for _ in range(1000):
            p = (self.rng.randint(0, size), self.rng.randint(0, size))
            if p not in self.pos:
                self.pos.add(p)
                return [float(p[0]), float(p[1])]
        raise RuntimeError("no place")

    def const(self, v):
        return self.add_tm(dict(distribution_function="constant", location=float(v), scale=0.0))

    def sched(self, vals, cyclic=True, absolute=False):
        return self.add_tm(dict(schedule=[float(v) for v in vals], absolute=absolute, cyclic=cyclic))

    def add_tm(self, d):
        i = self.id("tm")
        self.tm.append(dict(ID=i, description="", **d))
        return i

    def system(self, seed):
        return dict(
            ID="sys", seed=seed, time_model_data=self.tm, state_data=self.state, process_data=self.proc,
            queue_data=self.queue, resource_data=self.res, node_data=self.node, product_data=self.prod,
            sink_data=self.sink, source_data=self.src, auxiliary_data=self.aux,
        )


def wchoice(rng, d):
    ks = list(d)
    return rng.choices(ks, weights=[d[k] for k in ks])[0]


def dur(rng, prof, lo=1, hi=6):
    v = rng.randint(lo, hi)
    if rng.random() < prof["frac"]:
        v += rng.choice([0.5, 0.25, 0.1, 0.37])
    return v


def time_model(b, prof, lo=1, hi=6):
    rng = b.rng
    k = wchoice(rng, prof["durations"])
    if k == "const":
        return b.const(dur(rng, prof, lo, hi))
    if k == "sched":
        return b.sched([dur(rng, prof, lo, hi) for _ in range(rng.randint(1, 4))])
    if k == "sample":
        return b.add_tm(dict(samples=[float(dur(rng, prof, lo, hi)) for _ in range(rng.randint(1, 4))]))
    if k == "exp":
        return b.add_tm(dict(distribution_function="exponential", location=float(rng.randint(lo, hi)), scale=0.0))
    if k == "normal":
        return b.add_tm(dict(distribution_function="normal", location=float(rng.randint(max(lo, 2), max(hi, 3))), scale=0.4))
    if k == "lognormal":
        return b.add_tm(dict(distribution_function="lognormal", location=float(rng.randint(max(lo, 1), max(hi, 2))), scale=rng.choice([0.3, 1.0])))
    raise ValueError(k)


def fault_times(b, prof, k=None):
    """failure gaps and repair durations as exact schedules (last gap never elapses)."""
    rng = b.rng
    k = k or rng.randint(1, 4)
    gaps = [dur(rng, prof, 1, 14) for _ in range(k)]
    reps = [dur(rng, prof, 1, 6) for _ in range(k)]
    return b.sched(gaps + [1e7]), b.sched(reps + [1.0]), sum(gaps) + sum(reps)


def gen(rng, prof, seed=0):
    b = B(rng)
    R = rng.random
    size = prof["big_pos"]
    n_types = rng.randint(*prof["n_types"])
    n_procs = rng.randint(*prof["n_procs"])
    n_mach = rng.randint(*prof["n_machines"])
    n_veh = rng.randint(*prof["n_vehicles"])
    meta = {"fault_time": 0.0}
    work = 0.0
    use = {k: R() < prof[k] for k in ("capacity", "breakdown", "process_breakdown", "vehicle_breakdown", "setup", "finite_queue",
                                      "rework", "batch", "store", "aux", "link", "charging", "capability", "compound", "loading", "io_loc",
                                      "multi_source", "multi_sink", "multi_queue")}
    if use["batch"]:
        n_types = 1
        use["finite_queue"] = False  # a batch machine that waits for room downstream is outside the judged configurations
    if use["link"]:
        use["store"] = use["aux"] = False  # links connect nodes, resources, sources and sinks only
    # processes
    procs = []
    for i in range(n_procs):
        pid = f"P{i}x"
        tm = time_model(b, prof)
        if prof.get("zero") and R() < prof["zero"]:
            last = b.tm[-1]
            vals = last.get("schedule") or last.get("samples") or []
            if len(vals) > 1:
                vals[rng.randrange(len(vals))] = 0.0
            elif last.get("distribution_function") == "constant":
                last["location"] = 0.0
        if use["capability"] and R() < 0.6:
            d = dict(type="CapabilityProcesses", ID=pid, description="", time_model_id=tm, capability=f"cap{rng.randint(0, max(0, n_procs - 1))}", failure_rate=0.0)
        else:
            d = dict(type="ProductionProcesses", ID=pid, description="", time_model_id=tm, failure_rate=0.0)
        b.proc.append(d)
        procs.append(pid)
    pd = {p["ID"]: p for p in b.proc}
    # rework
    reworks = []
    if use["rework"]:
        failing = [p for p in procs if R() < 0.6] or [procs[0]]
        for p in failing:
            pd[p]["failure_rate"] = 1.0 if R() < prof["failure_one"] else rng.choice([0.2, 0.5, 0.8])
        # every failing process is covered by >=1 rework process
        k = rng.randint(1, min(2, len(failing)) + 1)
        cover = [[] for _ in range(k)]
        for p in failing:
            for j in rng.sample(range(k), rng.randint(1, k)):
                cover[j].append(p)
        for j, c in enumerate(cover):
            if not c:
                continue
            rid = f"RW{j}x"
            b.proc.append(dict(type="ReworkProcesses", ID=rid, description="", time_model_id=time_model(b, prof, 1, 4),
                               reworked_process_ids=c, blocking=R() < 0.5))
            reworks.append(rid)
    # transport processes
    load = unload = None
    if use["loading"]:
        load = b.const(dur(rng, prof, 1, 2)) if R() < 0.7 else None
        unload = b.const(dur(rng, prof, 1, 2)) if R() < 0.7 or load is None else None
    tps = []
    n_tp = 1 if (use["link"] or R() < 0.7) else 2
    for i in range(n_tp):
        if "func" in prof.get("ttm", ()) and R() < 0.5:
            tm = time_model(b, prof, 1, 4)
        else:
            tm = b.add_tm(dict(speed=float(rng.choice(prof["speed"])), reaction_time=float(rng.choice(prof["reaction"])), metric=rng.choice(prof["metric"])))
        tid = f"TP{i}x"
        d = dict(ID=tid, description="", time_model_id=tm, loading_time_model_id=load, unloading_time_model_id=unload)
        if use["link"]:
            d.update(type="LinkTransportProcesses", links=[], capability="")
        else:
            d.update(type="TransportProcesses")
        b.proc.append(d)
        tps.append(tid)

    # machines
    machines = []
    fin = use["finite_queue"]
    for i in range(n_mach):
        m = f"M{i}x"
        loc = b.place(size)
        il = ol = None
        if use["io_loc"] and R() < 0.6:
            il = b.place(size)
            ol = b.place(size) if R() < 0.6 else loc
        cap = rng.randint(2, prof["cap_max"]) if use["capacity"] and R() < 0.6 else 1
        mine = [p for p in procs if R() < 0.5]
        machines.append(dict(ID=m, description="", location=loc, capacity=cap, controller="PipelineController",
                             control_policy=rng.choice(prof["policy"]), process_ids=mine, process_capacities=None, state_ids=[],
                             input_queues=[], output_queues=[], **({"input_location": il, "output_location": ol} if il else {})))
    for p in procs + reworks:
        if not any(p in m["process_ids"] for m in machines):
            rng.choice(machines)["process_ids"].append(p)
        elif p in reworks and R() < 0.3:
            rng.choice(machines)["process_ids"].append(p)
    machines = [m for m in machines if m["process_ids"]]
    for m in machines:
        m["process_ids"] = list(dict.fromkeys(m["process_ids"]))
    # plan entries
    entries = []
    for p in procs:
        if pd[p]["type"] == "CapabilityProcesses":
            rid = "RC_" + pd[p]["capability"]
            if R() < 0.8:
                if rid not in [q["ID"] for q in b.proc]:
                    b.proc.append(dict(type="RequiredCapabilityProcesses", ID=rid, description="", capability=pd[p]["capability"]))
                entries.append(rid)
                continue
        entries.append(p)
    entries = list(dict.fromkeys(entries))
    if prof["acyclic"]:
        # each process on exactly one machine, plans monotone in machine index
        for m in machines:
            m["process_ids"] = []
        idx = sorted(rng.randrange(len(machines)) for _ in procs)
        for p, k in zip(procs, idx):
            machines[k]["process_ids"].append(p)
        machines = [m for m in machines if m["process_ids"]]
    for m in machines:
        if m["capacity"] > 1 and R() < prof["uneven_capacity"]:
            m["process_capacities"] = [rng.randint(1, m["capacity"]) for _ in m["process_ids"]]
            m["process_capacities"][rng.randrange(len(m["process_ids"]))] = m["capacity"]
        else:
            m["process_capacities"] = [m["capacity"]] * len(m["process_ids"])
    # queues
    stores = []
    for m in machines:
        nin = 2 if (use["multi_queue"] and R() < 0.4) else 1
        nout = 2 if (use["multi_queue"] and R() < 0.4) else 1
        for tag, n in (("in", nin), ("out", nout)):
            for k in range(n):
                qid = f"{m['ID']}_{tag}{k}"
                c = rng.randint(1, 3) if fin and R() < 0.6 else 0
                b.queue.append(dict(ID=qid, description="", capacity=c))
                m["input_queues" if tag == "in" else "output_queues"].append(qid)
    if use["store"]:
        for m in machines:
            if R() < 0.6:
                if stores and R() < 0.4:
                    s = rng.choice(stores)
                else:
                    s = f"ST{len(stores)}x"
                    loc = b.place(size)
                    b.queue.append(dict(ID=s, description="", capacity=rng.choice([0, 0, 2, 4]) if fin else (rng.choice([0, 1, 2, 3]) if prof.get("store_cap") else 0), location=loc,
                                        input_location=b.place(size) if R() < 0.4 else loc, output_location=loc))
                    stores.append(s)
                m["output_queues"].append(s)
                if R() < 0.5:  # a store named as input queue only says that its products may go to that machine
                    k = rng.choice(machines)
                    if s not in k["input_queues"]:
                        k["input_queues"].append(s)
    # setups
    if use["setup"]:
        for m in machines:
            ps = m["process_ids"]
            if len(ps) > 1 and m["capacity"] == 1 or (len(ps) > 1 and prof.get("setup_cap")):
                for a in ps:
                    for c in ps:
                        if a != c and R() < prof.get("setup_pair", 0.8):
                            sid = b.id("SU")
                            b.state.append(dict(type="SetupState", ID=sid, description="", time_model_id=time_model(b, prof, 1, 4), origin_setup=a, target_setup=c))
                            m["state_ids"].append(sid)
    # batches
    if use["batch"]:
        for m in machines:
            if R() < 0.7 and not any(x.startswith("SU") for x in m["state_ids"]):
                m["capacity"] = max(2, m["capacity"])
                m["controller"] = "BatchController"
                m["batch_size"] = rng.randint(1, m["capacity"]) if R() < 0.3 else m["capacity"]
                m["process_capacities"] = [m["capacity"]] * len(m["process_ids"])
                meta["batch"] = True
    # faults
    if use["breakdown"]:
        for m in machines:
            if R() < 0.7:
                for _ in range(2 if R() < prof["multi_breakdown"] else 1):
                    f, r, tot = fault_times(b, prof)
                    meta["fault_time"] += tot
                    sid = b.id("BD")
                    b.state.append(dict(type="BreakDownState", ID=sid, description="", time_model_id=f, repair_time_model_id=r))
                    m["state_ids"].append(sid)
    if use["process_breakdown"]:
        for m in machines:
            has_setup = any(s.startswith("SU") for s in m["state_ids"])
            if R() < 0.7 and (not has_setup or R() < prof["process_bd_setup"]):
                n = 1
                if R() < prof["multi_breakdown"] and (not has_setup or prof.get("multi_pbd_setup")):
                    n = 2
                for p in (rng.sample(m["process_ids"], min(n, len(m["process_ids"])))):
                    f, r, tot = fault_times(b, prof)
                    meta["fault_time"] += tot
                    sid = b.id("PBD")
                    b.state.append(dict(type="ProcessBreakDownState", ID=sid, description="", time_model_id=f, repair_time_model_id=r, process_id=p))
                    m["state_ids"].append(sid)
    # vehicles
    vehicles = []
    for i in range(n_veh):
        v = dict(ID=f"V{i}x", description="", location=[float(rng.randint(0, size)), float(rng.randint(0, size))], capacity=1,
                 controller="TransportController", control_policy=rng.choice(prof["tpolicy"]), process_ids=[t for t in tps if R() < 0.7] or [rng.choice(tps)],
                 process_capacities=None, state_ids=[])
        vehicles.append(v)
    for t in tps:
        if not any(t in v["process_ids"] for v in vehicles):
            vehicles[0]["process_ids"].append(t)
    if use["vehicle_breakdown"]:
        for v in vehicles:
            if R() < 0.7:
                for _ in range(2 if R() < prof["multi_breakdown"] else 1):
                    f, r, tot = fault_times(b, prof)
                    meta["fault_time"] += tot
                    sid = b.id("BD")
                    b.state.append(dict(type="BreakDownState", ID=sid, description="", time_model_id=f, repair_time_model_id=r))
                    v["state_ids"].append(sid)
    if use["charging"]:
        for r in machines + vehicles:
            if R() < 0.6:
                sid = b.id("CH")
                b.state.append(dict(type="ChargingState", ID=sid, description="", time_model_id=b.const(dur(rng, prof, 2, 6)),
                                    battery_time_model_id=b.const(rng.randint(8, 30))))
                r["state_ids"].append(sid)
    # products, sources, sinks
    n_prod = rng.randint(*prof["n_products"])
    order = {p: i for i, m in enumerate(machines) for p in m["process_ids"]}
    arr_end = 0.0
    types = []
    for t in range(n_types):
        ty = f"T{t}x"
        kind = wchoice(rng, prof["plan"])
        k = rng.randint(*prof["plan_len"])
        if kind == "list":
            plan = [rng.choice(entries) for _ in range(k)] if R() < prof["repeat_step"] else rng.sample(entries, min(k, len(entries)))
            if prof["acyclic"]:
                plan = list({order[p]: p for p in sorted(plan, key=lambda p: order[p])}.values())
        else:
            ns = rng.sample(entries, min(max(k, 2), len(entries)))
            edges = [[ns[i], ns[j]] for i in range(len(ns)) for j in range(i + 1, len(ns)) if R() < 0.5]
            if kind == "edges" and edges:
                plan = edges
            elif kind == "dict":
                plan = {a: [e[1] for e in edges if e[0] == a] for a in ns}
            else:
                plan = ns
        b.prod.append(dict(ID=ty, description="", product_type=ty, processes=plan, transport_process=rng.choice(tps), auxiliaries=[]))
        types.append(ty)
        for s in range(2 if use["multi_sink"] and R() < 0.5 else 1):
            q = f"SK{t}{s}x_in"
            b.queue.append(dict(ID=q, description="", capacity=0))
            b.sink.append(dict(ID=f"SK{t}{s}x", description="", location=b.place(size), product_type=ty, input_queues=[q]))
        for s in range(2 if use["multi_source"] and R() < 0.5 else 1):
            q = f"SO{t}{s}x_out"
            b.queue.append(dict(ID=q, description="", capacity=0))
            share = max(1, n_prod // n_types)
            a = wchoice(rng, prof["arrivals"])
            if a == "finite":
                if R() < prof["burst"]:
                    gaps = [dur(rng, prof, 1, 4)] + [rng.choice([0.001, 0.5, 1, 1, 2]) for _ in range(share - 1)]
                else:
                    gaps = [dur(rng, prof, 1, 8) for _ in range(share)]
                if R() < 0.3:
                    acc, out = 0.0, []
                    for g in gaps:
                        acc += g
                        out.append(acc)
                    tm = b.sched(out, cyclic=False, absolute=True)
                else:
                    tm = b.sched(gaps, cyclic=False)
                arr_end = max(arr_end, sum(gaps))
            elif a == "cyclic":
                tm = b.sched([dur(rng, prof, 2, 9) for _ in range(rng.randint(1, 4))])
                meta["endless"] = True
            elif a == "const":
                tm = b.const(dur(rng, prof, 2, 9))
                meta["endless"] = True
            else:
                tm = time_model(b, dict(prof, durations={a: 1.0}), 2, 8)
                meta["endless"] = True
            b.src.append(dict(ID=f"SO{t}{s}x", description="", location=b.place(size), product_type=ty, time_model_id=tm,
                              routing_heuristic=rng.choice(prof["heuristic"]), output_queues=[q]))
    # auxiliaries
    if use["aux"]:
        for t in range(rng.randint(1, 2)):
            at = f"AX{t}x"
            sts = []
            for k in range(rng.randint(1, 2)):
                s = f"AS{t}{k}x"
                loc = b.place(size)
                b.queue.append(dict(ID=s, description="", capacity=0, location=loc, input_location=loc, output_location=loc))
                sts.append(s)
            users = [p for p in b.prod if not p["auxiliaries"] and R() < 0.7]
            if not users:
                users = [p for p in b.prod if not p["auxiliaries"]][:1]
            for p in users:
                p["auxiliaries"] = [at]
            b.aux.append(dict(ID=at, description="", auxiliary_type=at, transport_process=rng.choice(tps), storages=sts,
                              quantity_in_storages=[rng.randint(1, 2) for _ in sts], relevant_processes=[], relevant_transport_processes=list(tps)))
    # links
    if use["link"]:
        places = [m["ID"] for m in machines] + [s["ID"] for s in b.src] + [s["ID"] for s in b.sink]
        for i in range(rng.randint(0, 4)):
            nid = f"N{i}x"
            b.node.append(dict(ID=nid, description="", location=b.place(size)))
            places.append(nid)
        rng.shuffle(places)
        links = [[places[i], places[rng.randrange(i)]] for i in range(1, len(places))]
        for _ in range(rng.randint(0, len(places))):
            x, y = rng.sample(places, 2)
            if [x, y] not in links and [y, x] not in links:
                links.append([x, y])
        for p in b.proc:
            if p["type"] == "LinkTransportProcesses":
                p["links"] = links
    b.res = machines + vehicles
    sysd = b.system(rng.randint(0, 10**6))
    if prof["horizon"] == "drain" and not meta.get("endless"):
        horizon = arr_end + 250 * n_prod * (prof["plan_len"][1] + 2) + meta["fault_time"] + 100
        meta["drain"] = True
        meta["h0"] = horizon
    elif prof["horizon"] == "short":
        horizon = float(rng.randint(10, 120)) + rng.choice([0, 0.5, 0.13])
    else:
        horizon = float(rng.randint(40, 160)) + rng.choice([0, 0.5, 0.13])
    meta["use"] = sorted(k for k, v in use.items() if v)
    if R() < prof["confuse"]:
        sysd = rename(sysd, confusing_names(rng, sysd))
    return dict(system=sysd, horizon=float(horizon), sched=dict(mode=wchoice(rng, prof["sched"]), seed=rng.randint(0, 2**31)), meta=meta)


def confusing_names(rng, s):
    """identifiers that contain each other: nothing may be looked up by a part of its name."""
    m = {}
    for ids, pre in (([p["ID"] for p in s["process_data"] if p["ID"].startswith(("P", "RW"))], "P"),
                     ([p["ID"] for p in s["process_data"] if p["ID"].startswith("TP")], "TP"),
                     ([r["ID"] for r in s["resource_data"] if r["ID"].startswith("M")], "M"),
                     ([r["ID"] for r in s["resource_data"] if r["ID"].startswith("V")], "V"),
                     ([p["product_type"] for p in s["product_data"]], "T"),
                     ([x["ID"] for x in s["source_data"]], "SO"),
                     ([x["ID"] for x in s["sink_data"]], "SK"),
                     ([x["auxiliary_type"] for x in s["auxiliary_data"]], "AX")):
        names = [pre + x for x in ("", "1", "11", "10", "2", "12", "110", "01", "21", "22", "121", "3", "13", "31")][:max(4, len(ids))]
        rng.shuffle(names)
        m.update(zip(ids, names))
    return m


def rename(x, m):
    if isinstance(x, str):
        return m.get(x, x)
    if isinstance(x, list):
        return [rename(y, m) for y in x]
    if isinstance(x, dict):
        return {(m.get(k, k) if isinstance(k, str) else k): rename(v, m) for k, v in x.items()}
    return x
