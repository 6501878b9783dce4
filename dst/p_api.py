"""P27, P30: the web service."""
import copy
import json
import random

from . import api, core, gen
from .core import seed_of
from .harness import Outcome
from .p_core import INF_Q, Core
from .p_det import json_diff
from .p_io import gen_scenario_data
from .p_opt import contained
from .props import reg

SMALL = dict(INF_Q, n_types=(1, 2), n_procs=(1, 2), n_machines=(1, 2), n_vehicles=(1, 2), n_products=(2, 5), horizon="short", breakdown=0.3, setup=0.3, store=0.3, confuse=0.1,
             aux=0.15, link=0.1, rework=0.1, durations={"const": 0.3, "exp": 0.3, "normal": 0.2, "sample": 0.2}, heuristic=["random", "shortest_queue", "FIFO"])

ENTITIES = {"time_models": "time_model_data", "processes": "process_data", "queues": "queue_data", "resources": "resource_data", "products": "product_data",
            "sinks": "sink_data", "sources": "source_data", "states": "state_data"}
REQUIRED = {"resources": ("capacity", "process_ids", "controller", "location"), "products": ("processes", "transport_process"), "sources": ("product_type", "time_model_id", "location"),
            "sinks": ("product_type", "location"), "queues": ("ID",), "states": ("ID", "time_model_id", "type"), "processes": ("ID", "type")}
DEFAULTS = {"capacity": 0, "failure_rate": 0.0, "loading_time_model_id": None, "unloading_time_model_id": None, "auxiliaries": [], "cyclic": False, "metric": "manhattan", "batch_size": None,
            "node_data": [], "auxiliary_data": [], "scenario_data": None, "valid_configuration": True, "reconfiguration_cost": 0.0, "input_queues": [], "output_queues": []}
ENDLESS = 30000          # steps of a simulation
OBJECTIVES = ("throughput", "WIP", "cost", "throughput_time")
PARTS = ("constraints", "options", "info", "objectives")


def normal_adapter(system):
    return core.make_adapter(system).model_dump(mode="json")


def byid(x):
    return {y["ID"]: y for y in x}


class Ref:
    """what the service stores."""

    def __init__(self):
        self.p = {}

    def adapter(self, o):
        return self.p.get(o["p"], {}).get(o["a"]) if o["p"] in self.p else None

    def apply(self, o):
        """-> (accepted, value): value None means the body of the answer is not judged."""
        k, p = o["k"], self.p
        if o.get("broken"):
            return False, None
        if k == "projects":
            return True, ("set", [{"ID": i, "adapters": list(v.values())} for i, v in p.items()])
        if k == "project":
            m, i = o["m"], o["p"]
            if m == "POST":
                if o["body"]["ID"] in p:
                    return False, None
                p[o["body"]["ID"]] = {a["ID"]: copy.deepcopy(a) for a in o["body"]["adapters"]}
                return True, ("project", o["body"])
            if i not in p:
                return False, None
            if m == "GET":
                return True, ("project", {"ID": i, "adapters": list(p[i].values())})
            if m == "DELETE":
                del p[i]
                return True, None
            if o["body"]["ID"] != i and o["body"]["ID"] in p:
                return False, None
            if o["body"]["ID"] != i:
                return None, None          # renamed or refused
            p[i] = {a["ID"]: copy.deepcopy(a) for a in o["body"]["adapters"]}
            return True, ("project", o["body"])
        if o["p"] not in p:
            return False, None
        A = p[o["p"]]
        if k == "adapters":
            return True, ("adapters", list(A.values()))
        if k == "adapter" and o["m"] == "POST":
            if o["body"]["ID"] in A:
                return False, None
            A[o["body"]["ID"]] = copy.deepcopy(o["body"])
            return True, ("adapter", o["body"])
        if o["a"] not in A:
            return False, None
        a = A[o["a"]]
        if k == "adapter":
            if o["m"] == "GET":
                return True, ("adapter", a)
            if o["m"] == "DELETE":
                del A[o["a"]]
                return True, None
            if o["body"]["ID"] != o["a"]:
                if o["body"]["ID"] in A:
                    return False, None
                return None, None
            A[o["a"]] = copy.deepcopy(o["body"])
            return True, ("adapter", o["body"])
        if k == "entity":
            L = a[ENTITIES[o["t"]]]
            if o["m"] == "LIST":
                return True, ("list", list(L))
            at = [n for n, x in enumerate(L) if x["ID"] == o["id"]]
            if o["m"] == "POST":
                if at:
                    return False, None
                L.append(copy.deepcopy(o["body"]))
                return True, ("one", o["body"])
            if not at:
                return False, None
            if o["m"] == "GET":
                return True, ("one", L[at[0]])
            if o["m"] == "DELETE":
                L.pop(at[0])
                return True, None
            L[at[0]] = copy.deepcopy(o["body"])
            return True, ("one", o["body"])
        if k == "scenario":
            m, part = o["m"], o["part"]
            sd = a.get("scenario_data")
            if part is None and m == "PUT":
                a["scenario_data"] = copy.deepcopy(o["body"])
                return True, ("one", o["body"])
            if sd is None:
                return False, None
            if m == "GET":
                if part == "objective":
                    return None, None
                return True, (("one", sd) if part is None else ("one", sd[part]))
            if part in PARTS:
                sd[part] = copy.deepcopy(o["body"])
                return True, ("one", sd)
            obs = sd["objectives"]
            at = [n for n, x in enumerate(obs) if x["name"] == o["name"]]
            if m == "DELETE":
                if not at:
                    return False, None
                obs.pop(at[0])
                return True, ("one", sd)
            if o["name"] not in OBJECTIVES:
                return False, None
            if m == "POST":
                if at:
                    return False, None
                obs.append(copy.deepcopy(o["body"]))
                return True, ("one", sd)
            if not at:
                return False, None
            obs[at[0]] = copy.deepcopy(o["body"])
            return True, ("one", sd)
        raise AssertionError(o)


def url(o):
    k = o["k"]
    if k == "projects":
        return "GET", "/projects/"
    if k == "project":
        return o["m"], "/projects/" if o["m"] == "POST" else f"/projects/{o['p']}"
    b = f"/projects/{o['p']}/adapters/"
    if k == "adapters":
        return "GET", b
    if k == "adapter":
        return o["m"], b if o["m"] == "POST" else b + o["a"]
    b += o["a"] + "/"
    if k == "entity":
        return ("GET" if o["m"] == "LIST" else o["m"]), b + o["t"] + "/" + ("" if o["m"] in ("LIST", "POST") else o["id"])
    if k == "scenario":
        part = o["part"]
        if part == "constraints" and o["m"] == "GET":
            part = "contraints"
        if part == "objective":
            part = "objectives/objective" + (f"/{o['name']}" if o["m"] == "DELETE" else "")
        return o["m"], b + "scenario/" + (part or "")
    if k == "simulate":
        return "GET", b + "simulate/"
    if k == "progress":
        return "GET", b + "simulate/progress"
    if k == "kpis":
        return "GET", b + "performance/kpis" + (f"/{o['name']}" if o.get("name") else "")
    if k == "events":
        return "GET", b + "performance/events"
    raise AssertionError(o)


def what(o):
    m, u = url(o)
    return f"{m} {u}" + (f" (body {o['body'].get('ID') if isinstance(o.get('body'), dict) else ''})" if o.get("body") is not None and o["k"] != "scenario" else "") + (" with a damaged body" if o.get("broken") else "")


def vary(rng, ent, t):
    """another version of an entity with the same ID."""
    e = copy.deepcopy(ent)
    e["description"] = f"v{rng.randint(0, 999)}"
    if t == "time_models" and "location" in e and isinstance(e["location"], (int, float)):
        e["location"] = round(e["location"] + rng.choice([0.5, 1.0, 2.0]), 3)
    elif t == "resources" and "capacity" in e and False:
        e["capacity"] = 1
    elif t == "sources" and "routing_heuristic" in e:
        e["routing_heuristic"] = rng.choice(["random", "shortest_queue", "FIFO"])
    return e


class Gen:
    def __init__(self, rng, sim):
        self.rng, self.sim = rng, sim
        self.pool = []
        for _ in range(3):
            s = gen.gen(rng, gen.profile(**SMALL))
            if rng.random() < 0.6:
                s["system"]["scenario_data"] = gen_scenario_data(rng, s["system"])
            self.pool.append((normal_adapter(s["system"]), s["horizon"]))
        self.P, self.A = ["P", "PQ", "P2"][:rng.randint(1, 3)], ["A", "A1", "AB"][:rng.randint(1, 3)]

    def body(self, aid=None):
        b = copy.deepcopy(self.rng.choice(self.pool)[0])
        b["ID"] = aid or self.rng.choice(self.A)
        return b

    def project(self, pid=None):
        r = self.rng
        ids = r.sample(self.A, r.randint(0, len(self.A)))
        return {"ID": pid or r.choice(self.P), "adapters": [self.body(i) for i in ids]}

    def op(self, weights):
        r = self.rng
        k = r.choices(list(weights), list(weights.values()))[0]
        p, a = r.choice(self.P), r.choice(self.A)
        if r.random() < 0.03:
            p = "missing"
        if r.random() < 0.03:
            a = "missing"
        o = dict(k=k, p=p, a=a)
        if k == "project":
            o["m"] = r.choices(["POST", "GET", "PUT", "DELETE"], [5, 2, 2, 1])[0]
            if o["m"] == "POST":
                o["body"] = self.project()
            elif o["m"] == "PUT":
                o["body"] = self.project(p if r.random() < 0.7 else None)
        elif k == "adapter":
            o["m"] = r.choices(["POST", "GET", "PUT", "DELETE"], [5, 2, 2, 1])[0]
            if o["m"] == "POST":
                o["body"] = self.body()
            elif o["m"] == "PUT":
                o["body"] = self.body(a if r.random() < 0.7 else None)
        elif k == "entity":
            t = r.choice(list(ENTITIES))
            o["t"], o["m"] = t, r.choices(["LIST", "GET", "PUT", "POST", "DELETE"], [2, 2, 4, 4, 1.5])[0]
            ents = [e for b, _ in self.pool for e in b[ENTITIES[t]]]
            e = r.choice(ents) if ents else None
            if e is None:
                o["m"] = "LIST"
            else:
                o["id"] = e["ID"] if r.random() < 0.9 else "missing"
                if o["m"] in ("POST", "PUT"):
                    o["body"] = vary(r, e, t)
                    if o["m"] == "POST" and r.random() < 0.6:
                        o["body"]["ID"] = f"new{r.randint(0, 3)}"
                        if t == "products":
                            o["body"]["product_type"] = o["body"]["ID"]     # a product has the ID of its type
                    o["id"] = o["body"]["ID"]
        elif k == "scenario":
            sd = normal_scenario(r, r.choice(self.pool)[0])
            o["part"] = r.choice([None, None] + list(PARTS) + ["objective"] * 4)
            o["m"] = r.choice(["GET", "PUT"])
            if o["part"] == "objective":
                o["m"] = r.choice(["POST", "PUT", "DELETE"])
                o["name"] = r.choice(OBJECTIVES + ("productive_time",))
                o["body"] = dict(name=o["name"], weight=r.choice([0.0, 1.0, round(r.uniform(0.1, 2), 3)]))
                if o["m"] == "DELETE":
                    o["body"] = None
            elif o["m"] == "PUT":
                o["body"] = sd if o["part"] is None else sd[o["part"]]
        elif k == "simulate":
            o["length"], o["seed"] = r.choice([0, 5, 20, 20, 60, 60, 200, 200]), r.randint(0, 5)
        elif k == "kpis":
            o["name"] = r.choice([None, "throughput", "WIP", "throughput_time", "output", "productive_time"])
        elif k == "events":
            o["n"], o["off"] = r.choice([(1, 0), (10, 0), (5, 3), (3, 40), (200, 0), (0, 0)])
        if o.get("body") is not None and r.random() < 0.04:
            o["broken"] = r.choice(["cut", "type", "list", "drop"])
            if o["broken"] == "drop":
                keys = REQUIRED.get(o.get("t"), ()) if k == "entity" else ("ID",) if k in ("project",) else ()
                keys = [x for x in keys if x in o["body"]]
                if keys:
                    o["drop"] = r.choice(keys)
                else:
                    o["broken"] = "cut"
        b = o.get("body")
        if k not in ("simulate", "progress", "kpis", "events") and b is not None and r.random() < 0.03:
            o["gone"] = True
        if k in ("entity", "adapter") and b is not None and not o.get("broken") and r.random() < 0.4:
            o["omit"] = [x for x, v in DEFAULTS.items() if x in b and b[x] == v and type(b[x]) is not bool or x in b and b[x] is v]
            if k == "entity":
                o["omit"] += [x for x in ("input_location", "output_location") if x in b and b[x] == b.get("location")]
                if "process_capacities" in b and b["process_capacities"] == [b["capacity"]] * len(b["process_ids"]):
                    o["omit"].append("process_capacities")
        if k == "project" and b is not None and r.random() < 0.15:
            o["body"]["performances"] = None
        return o


def normal_scenario(rng, system):
    from prodsys.models.scenario_data import ScenarioData
    return ScenarioData(**gen_scenario_data(rng, system)).model_dump(mode="json")


def raw(o):
    if o.get("body") is None:
        return b""
    s = json.dumps({k: v for k, v in o["body"].items() if k not in o.get("omit", ())} if isinstance(o["body"], dict) else o["body"])
    if o.get("broken") == "cut":
        s = s[:len(s) // 2]
    elif o.get("broken") == "drop":
        s = json.dumps({k: v for k, v in o["body"].items() if k != o["drop"]})
    elif o.get("broken") == "list":
        s = "[" + s + ', 5]'
    elif o.get("broken") == "type":
        s = '"x"'
    return s.encode()


class Service(Core):
    real = "prodsys_api / app (routers, validation, data access objects, backend, background tasks, the ASGI application), the whole simulation and post-processing behind it"
    stub = "the HTTP server, the event loop and the thread pool (requests and worker threads are scheduled by the seed), locks, standard output"
    interleaving_measure = "sha256 of the sequence of requests, answers and points at which worker threads were interrupted"
    assumptions = ("the in-memory backend; one process",)
    chunk = 6
    weights = {}

    def scenario(self, i, seed):
        rng = random.Random(seed)
        g = Gen(rng, self.id == "P30")
        n = rng.randint(1, 3)
        clients = [[] for _ in range(n)]
        # the first client sets up most of the data
        for p in g.P:
            if rng.random() < 0.85:
                clients[0].append(dict(k="project", p=p, a="", m="POST", body=dict(ID=p, adapters=[])))
                for a in g.A:
                    if rng.random() < 0.8:
                        clients[0].append(dict(k="adapter", p=p, a=a, m="POST", body=g.body(a)))
        setup = len(clients[0])
        for c in clients:
            for _ in range(rng.randint(*self.n_ops)):
                c.append(g.op(self.weights))
        scn = dict(clients=clients, setup=setup, sched=rng.randint(0, 2**31), preempt=rng.choice([0.05, 0.3, 0.6, 1.0]), stride=rng.choice([[1, 5], [1, 60], [20, 400]]))
        if rng.random() < 0.25:
            scn["inject"] = dict(job=rng.randint(0, 3), step=rng.choice([1, 2, 10, 60, 200]))
        return scn

    def shrinks(self, scn):
        for j in range(len(scn["clients"]) - 1, -1, -1):
            if len(scn["clients"]) > 1:
                c = copy.deepcopy(scn)
                x = c["clients"].pop(j)
                if j == 0:
                    c["clients"][0] = x[:scn["setup"]] + c["clients"][0]
                yield c
        for j, ops in enumerate(scn["clients"]):
            k = max(1, len(ops) // 2)
            while k >= 1:
                for i in range(0, len(ops), k):
                    c = copy.deepcopy(scn)
                    del c["clients"][j][i:i + k]
                    if j == 0:
                        c["setup"] = 0
                    yield c
                k //= 2
        if scn.get("inject"):
            c = copy.deepcopy(scn)
            del c["inject"]
            yield c
        for v in (0.0, 1.0):
            if scn["preempt"] != v:
                c = copy.deepcopy(scn)
                c["preempt"] = v
                yield c

    def evaluate(self, scn):
        viol, st = [], {}

        def count(k, n=1):
            st[k] = st.get(k, 0) + n
        sig, n = "", 0
        with contained(scn["sched"]):
            try:
                with api.World(scn["sched"], scn["preempt"], tuple(scn["stride"]), scn.get("inject")) as w:
                    r = Run(self, scn, w, viol, count)
                    sig, n = r.go()
            except core.Hang:
                viol.append(("hang", "the service does not come to an end"))
            except core.Livelock as e:
                viol.append(("deadlock", str(e)))
        return Outcome(viol, st, sig, n, {"clients": [[what(o) for o in c][:12] for c in scn["clients"]], "inject": scn.get("inject")})


class Sim:
    """a simulation somebody started through the service."""

    def __init__(self, key, o, version):
        self.key, self.o = key, o
        self.versions = [version]          # what the adapter was between the request and the first step
        self.job = None
        self.started = False
        self.over = False
        self.asked = self.ended = None     # when
        self.broken = False                # the adapter was deleted or replaced since


class Run:
    def __init__(self, prop, scn, w, viol, count):
        self.prop, self.scn, self.w, self.viol, self.count = prop, scn, w, viol, count
        self.ref = Ref()
        self.sims = []
        self.perf = {}          # (project, adapter) -> acceptable results: None or (adapter, length, seed)
        self.cache = {}
        self.clock = 0
        self.sig = []
        self.n = 0

    # --- the reference of a simulation
    def expected(self, version, length, seed):
        key = (json.dumps(version, sort_keys=True), length, seed)
        if key not in self.cache:
            import random as rnd
            import numpy as np
            from prodsys.adapters import JsonProductionSystemAdapter
            from prodsys.simulation import sim
            from prodsys.util.runner import Runner
            v, sim.VERBOSE = sim.VERBOSE, 0
            left = [ENDLESS]

            def budget(env):
                left[0] -= 1
                if left[0] < 0:
                    raise core.Livelock("endless")
            hook, core.step_hook = core.step_hook, budget
            st = rnd.getstate(), np.random.get_state()
            try:
                a = JsonProductionSystemAdapter(**copy.deepcopy(version))
                a.seed = seed
                r = Runner(adapter=a)
                r.initialize_simulation()
                r.run(length)
                d = r.get_performance_data()
                res = json.loads(d.model_dump_json())
                self.cache[key] = (res, r.get_post_processor().df_raw)
                self.count("sim_time", length)
            except Exception as e:
                self.cache[key] = ("error", repr(e)[:200])
            finally:
                sim.VERBOSE = v
                core.step_hook = hook
                rnd.setstate(st[0])
                np.random.set_state(st[1])
        return self.cache[key]

    def bad(self, kind, msg):
        self.viol.append((kind, msg))

    def active(self, key):
        return [s for s in self.sims if s.key == key and not s.over]

    def versions(self):
        for s in self.sims:
            if not s.over and not s.started:
                v = self.ref.p.get(s.key[0], {}).get(s.key[1])
                v = None if v is None else json.loads(json.dumps(v))
                if v != s.versions[-1]:
                    s.versions.append(v)

    def progress_of_jobs(self):
        for s in self.sims:
            if s.over or s.job is None:
                continue
            if s.job.env is not None and not s.started:
                s.started = True
            if s.job.result is not None:
                s.over = True
                self.clock += 1
                s.ended = self.clock
                self.settle(s)

    def outcomes(self, s):
        """what a finished simulation may have left: results and whether it may have failed."""
        ok, fail = [], False
        for v in s.versions:
            if v is None:
                fail = True
                continue
            e = self.expected(v, s.o["length"], s.o["seed"])
            if e[0] == "error":
                fail = True
            else:
                ok.append((v, s.o["length"], s.o["seed"]))
        return ok, fail

    def settle(self, s):
        ok, fail = self.outcomes(s)
        res = s.job.result
        exists = self.ref.p.get(s.key[0], {}).get(s.key[1]) is not None
        task = self.w.owner[s.job]
        err = res[1] if res[0] == "error" else task.error
        if res[0] == "error":
            if isinstance(res[1], api.Injected):
                self.count("fault.worker_killed")
                return
            if not fail and not s.broken:
                self.bad("simulation-failed", f"{what(s.o)}: the simulation fails with {type(err).__name__}: {str(err)[:200]}, the same configuration can be simulated")
            self.count("probe.failed_simulations")
            return
        self.count("probe.simulations")
        self.n += 1
        old = self.perf.get(s.key, [None])
        if not exists:
            return
        if not ok or any(v is not None and self.expected(v, s.o["length"], s.o["seed"])[0] == "error" for v in s.versions):
            self.perf[s.key] = None              # a configuration that is refused when it is read: what comes out of it is not judged
            self.count("probe.invalid_configurations")
        elif s.broken:
            self.perf[s.key] = old and old + ok  # the adapter is another one by now
        else:
            # of simulations that run at the same time either can be the last one
            both = [x for t in self.sims if t is not s and t.key == s.key and t.over and t.ended > s.asked and t.job.result[0] == "ok" for x in self.outcomes(t)[0]]
            self.perf[s.key] = None if fail and old is None else ok + both + (old if fail else [])

    # --- requests
    def go(self):
        w, rng = self.w, random.Random(self.scn["sched"] ^ 77)
        queues = [list(c) for c in self.scn["clients"]]
        if self.scn["setup"]:
            for o in queues[0][:self.scn["setup"]]:
                self.request(o)
            queues[0] = queues[0][self.scn["setup"]:]
        steps = 0
        while (any(queues) or w.runnable()) and not self.viol:
            steps += 1
            if any(j.steps > ENDLESS for j in w.runnable()):
                s = [s for s in self.sims if s.job is not None and s.job.steps > ENDLESS][0]
                if not self.outcomes(s)[1] and not s.broken:
                    self.bad("endless", f"{what(s.o)}: the simulation does not come to an end, the same configuration can be simulated")
                self.count("probe.endless")
                break
            if steps > 20 * ENDLESS:
                raise core.Livelock("a worker makes no progress")
            live = [q for q in queues if q]
            jobs = w.runnable()
            if live and (not jobs or rng.random() < 0.5):
                self.request(rng.choice(live).pop(0))
            else:
                self.run_job(rng.choice(jobs))
        else:
            stuck = [j for j in w.jobs if j.result is None]
            if stuck and not self.viol:
                self.bad("deadlock", f"{len(stuck)} worker threads wait for a lock forever")
            if not self.viol:
                self.final()
        self.count("probe.interruptions", len(w.trace))
        return json.dumps([self.sig, w.trace], default=str), self.n >= 3

    def run_job(self, j):
        j.advance()
        self.sig.append(("job", j.name, j.slices))
        if j.result is not None:
            t = self.w.owner[j]
            t.advance()
        self.progress_of_jobs()

    def send(self, o):
        m, u = url(o)
        q = ""
        if o["k"] == "simulate":
            q = f"run_length={o.get('asked', o['length'])}&seed={o['seed']}"
        elif o["k"] == "events":
            q = f"num_events={o['n']}&offset={o['off']}"
        t = api.Task(self.w, m, u, q, raw(o), gone=o.get("gone", False))
        t.advance()
        while not t.answered and t.job is not None:
            t.job.advance()
            if t.job.blocked is not None and t.job.blocked.n and t.job.result is None:
                if not self.w.run_other_jobs():
                    raise core.Livelock("a request waits for a lock that is never released")
            if t.job.result is not None:
                t.advance()
        self.sig.append((m, u, t.status))
        return t

    def request(self, o):
        k = o["k"]
        if k in ("simulate", "progress", "kpis", "events"):
            return getattr(self, "do_" + k)(o)
        t = self.send(o)
        self.count("probe.requests")
        if o.get("broken"):
            self.count("fault.damaged_body")
        ok, val = self.ref.apply(o)
        if o.get("gone"):
            self.count("fault.client_gone")
            if ok is None and self.send(dict(k=o["k"], m="GET", p=o["p"], a=o["a"])).status == 404:
                self.renamed(o)
        elif t.status >= 500:
            e = t.error
            self.bad("server-error", f"{what(o)} is answered with {t.status}" + (f": {type(e).__name__}: {str(e)[:300]}" if e is not None else ""))
            return
        elif ok is None:
            # a change of the ID: done or refused
            if t.status < 300:
                self.renamed(o)
            self.count("probe.renames")
        elif ok != (t.status < 300):
            self.bad("accepted" if t.status < 300 else "refused", f"{what(o)} is answered with {t.status}; " + ("the reference accepts it" if ok else "it must be refused"))
            return
        elif ok and val is not None:
            self.compare(o, t.json(), val)
        if ok:
            self.n += 1
            self.changed(o)
        self.versions()

    def renamed(self, o):
        p = self.ref.p
        if o["k"] == "project":
            del p[o["p"]]
            p[o["body"]["ID"]] = {a["ID"]: copy.deepcopy(a) for a in o["body"]["adapters"]}
            for key in list(self.perf):
                if key[0] in (o["p"], o["body"]["ID"]):
                    self.perf.pop(key)
            for s in self.sims:
                if s.key[0] in (o["p"], o["body"]["ID"]):
                    s.broken = True
        else:
            A = p[o["p"]]
            del A[o["a"]]
            A[o["body"]["ID"]] = copy.deepcopy(o["body"])
            for i in (o["a"], o["body"]["ID"]):
                if (o["p"], i) in self.perf:
                    self.perf[(o["p"], i)] = None     # not judged
            for s in self.sims:
                if s.key in ((o["p"], o["a"]), (o["p"], o["body"]["ID"])):
                    s.broken = True

    def changed(self, o):
        """results of an adapter that was changed may be kept or dropped, those of a deleted one are gone."""
        k, m = o["k"], o.get("m")
        if k == "project" and m in ("DELETE", "PUT", "POST"):
            pid = o["body"]["ID"] if m != "DELETE" else o["p"]
            for key in [x for x in self.perf if x[0] == pid]:
                del self.perf[key]
            for s in self.sims:
                if s.key[0] == pid and m != "POST":
                    s.broken = True
        elif k == "adapter" and m in ("DELETE", "PUT"):
            key = (o["p"], o["a"])
            if m == "DELETE":
                self.perf.pop(key, None)
            elif key in self.perf and self.perf[key] is not None:
                self.perf[key] = self.perf[key] + [None]
            for s in self.sims:
                if s.key == key:
                    if m == "DELETE":
                        s.broken = True
        elif k in ("entity", "scenario") and m in ("PUT", "POST", "DELETE"):
            key = (o["p"], o["a"])
            if key in self.perf and self.perf[key] is not None:
                self.perf[key] = self.perf[key] + [None]

    def compare(self, o, got, val):
        kind, want = val
        if kind == "set":
            g, x = byid(got), byid(want)
            if set(g) != set(x) or len(g) != len(got):
                return self.bad("content", f"{what(o)}: the service lists the projects {[y['ID'] for y in got]}, written were {sorted(x)}")
            for i in x:
                self.compare(o, g[i], ("project", x[i]))
                if self.viol:
                    return
        elif kind == "project":
            if got.get("ID") != want["ID"]:
                return self.bad("content", f"{what(o)}: project {got.get('ID')} instead of {want['ID']}")
            self.compare(o, got["adapters"], ("adapters", want["adapters"]))
        elif kind == "adapters":
            got = list(got.values()) if isinstance(got, dict) else got
            g, x = byid(got), byid(want)
            if set(g) != set(x) or len(got) != len(x):
                return self.bad("content", f"{what(o)}: the service lists the adapters {[y['ID'] for y in got]}, written were {sorted(x)}")
            for i in x:
                self.compare(o, g[i], ("adapter", x[i]))
                if self.viol:
                    return
        elif kind == "adapter":
            for key in set(got) | set(want):
                a, b = got.get(key), want.get(key)
                if key.endswith("_data") and isinstance(b, list) and isinstance(a, list) and key in ENTITIES.values():
                    self.compare(o, a, ("list", b))
                    if self.viol:
                        return
                elif a != b and key != "reconfiguration_cost":
                    return self.bad("content", f"{what(o)}: {key} of adapter {want['ID']} differs from what was written: " + json_diff(b, a))
        elif kind == "list":
            if sorted(map(js, got)) != sorted(map(js, want)):
                miss, more = [x for x in want if x not in got], [x for x in got if x not in want]
                self.bad("content", f"{what(o)}: missing {str(miss)[:250]}, instead {str(more)[:250]} ({len(want)} written, {len(got)} read)")
        elif got is not None and got != want:
            if isinstance(got, list) and isinstance(want, dict) and got == [want]:
                return
            self.bad("content", f"{what(o)}: what is read differs from what was written: " + json_diff(want, got))

    def final(self):
        self.request(dict(k="projects", p="", a=""))
        for p in list(self.ref.p):
            for a in list(self.ref.p[p]):
                for o in (dict(k="adapter", p=p, a=a, m="GET"), dict(k="kpis", p=p, a=a, name=None), dict(k="events", p=p, a=a, n=1, off=0), dict(k="progress", p=p, a=a)):
                    if not self.viol:
                        self.request(o)
                if not self.viol:
                    self.post_processor(p, a)

    # --- simulations
    def do_simulate(self, o):
        v = self.ref.adapter(o)
        n = len(self.w.jobs)
        if not o["length"]:
            # the time range of the scenario
            if v is not None and not v.get("scenario_data"):
                return
            o = dict(o, length=v["scenario_data"]["info"]["time_range"] if v is not None else 0, asked=0)
        s = Sim((o["p"], o["a"]), o, None if v is None else json.loads(json.dumps(v)))
        t = self.send(o)
        self.count("probe.requests")
        if t.status >= 500:
            return self.bad("server-error", f"{what(o)} is answered with {t.status}: {type(t.error).__name__}: {str(t.error)[:200]}")
        if v is None:
            if t.status < 300:
                self.bad("accepted", f"{what(o)} is answered with {t.status}, there is no such adapter")
            return
        if t.status >= 300:
            return self.bad("refused", f"{what(o)} is answered with {t.status}")
        if len(self.w.jobs) == n:
            # no worker was used: the simulation is over
            return self.bad("no-simulation", f"{what(o)}: no simulation was started") if t.done else None
        s.job = t.job
        self.clock += 1
        s.asked = self.clock
        self.sims.append(s)
        self.count("probe.started")
        self.progress_of_jobs()

    def candidates(self, key):
        """None: not judged."""
        c = self.perf.get(key, [None])
        if c is None:
            return None
        c = list(c)
        for s in self.active(key):
            if s.started:
                if any(v is not None and self.expected(v, s.o["length"], s.o["seed"])[0] == "error" for v in s.versions):
                    return None
                c += self.outcomes(s)[0]
        return c

    def judge_perf(self, o, t, pick, check=None):
        key = (o["p"], o["a"])
        self.count("probe.requests")
        if t.status >= 500:
            return self.bad("server-error", f"{what(o)} is answered with {t.status}: {type(t.error).__name__}: {str(t.error)[:200]}")
        if self.ref.adapter(o) is None:
            if t.status < 300:
                self.bad("accepted", f"{what(o)} is answered with {t.status}, there is no such adapter")
            return
        c = self.candidates(key)
        if c is None:
            return
        wants = []
        for x in c:
            wants.append(None if x is None else pick(self.expected(*x)[0]))
        if t.status >= 300:
            if None not in wants:
                self.bad("results-missing", f"{what(o)} is answered with {t.status} after {len(c)} finished simulation(s)")
            else:
                self.count("probe.no_results")
            return
        got = t.json()
        if got not in wants:
            real = [x for x in wants if x is not None]
            if not real:
                return self.bad("results-unexpected", f"{what(o)} returns results, no simulation of this adapter was run")
            self.bad("wrong-results", f"{what(o)} (last simulation: {[(s.o['length'], s.o['seed']) for s in self.sims if s.key == key and s.over][-1:]}) differs from the results of that simulation: " + json_diff(real[0], got))
        else:
            self.count("probe.results_checked")
            self.n += 1

    def do_kpis(self, o):
        def pick(e):
            ks = e["kpis"]
            if o.get("name"):
                ks = [x for x in ks if x["name"] == o["name"]]
                return ks or None
            return ks
        self.judge_perf(o, self.send(o), pick)

    def do_events(self, o):
        def pick(e):
            if o["off"] + o["n"] > len(e["event_log"]):
                return None
            return e["event_log"][o["off"]:o["off"] + o["n"]]
        self.judge_perf(o, self.send(o), pick)

    def do_progress(self, o):
        key = (o["p"], o["a"])
        t = self.send(o)
        self.count("probe.requests")
        if t.status >= 500:
            return self.bad("server-error", f"{what(o)} is answered with {t.status}: {type(t.error).__name__}: {str(t.error)[:200]}")
        mine = [s for s in self.sims if s.key == key]
        if not mine:
            if t.status < 300:
                self.bad("progress", f"{what(o)}: a progress of {t.json()} is reported, no simulation of this adapter was started")
            return
        if any(s.broken for s in mine):
            return
        started = [s for s in mine if s.started or s.over]
        if t.status >= 300:
            if any(s.started for s in started):
                self.bad("progress", f"{what(o)} is answered with {t.status}, a simulation was started")
            return
        d = t.json()
        if not (0 <= d["ratio_done"] <= 1 + 1e-9) or d["time_done"] < 0 or (d["expected_time_left"] or 0) < -0.01 or (d["expected_total_time"] or 0) < 0:
            return self.bad("progress", f"{what(o)}: {d}")
        self.count("probe.progress_checked")
        if len(mine) == 1:
            s = mine[0]
            if s.over and s.job.result[0] == "ok":
                if abs(d["ratio_done"] - 1) > 1e-9:
                    self.bad("progress", f"{what(o)}: {d['ratio_done']:g} done, the simulation is over")
            elif s.started and not s.over and s.job.env is not None:
                now = s.job.env.now
                if d["ratio_done"] > (now + 0.51) / s.o["length"] + 1e-9:
                    self.bad("progress", f"{what(o)}: {d['ratio_done']:g} done at {now:g} of {s.o['length']}")
            elif not s.started and d["ratio_done"] > 0:
                self.bad("progress", f"{what(o)}: {d['ratio_done']:g} done, the simulation has not begun")

    def post_processor(self, p, a):
        """what the plots are made from."""
        import app.dependencies as dep
        f = getattr(dep, "get_post_processor", None)
        c = self.candidates((p, a))
        if f is None or c is None:
            return
        try:
            got = f(p, a).df_raw
        except Exception as e:
            if None not in c:
                self.bad("results-missing", f"adapter {a} of project {p}: no post-processor after a simulation ({type(e).__name__}: {str(e)[:100]})")
            return
        wants = [self.expected(*x)[1] for x in c if x is not None]
        if not any(same_frame(x, got) for x in wants):
            self.bad("wrong-results" if wants else "results-unexpected", f"the plots of adapter {a} of project {p} are made from other events than those of its last simulation")
        else:
            self.count("probe.post_processors_checked")
            t = self.send(dict(k="kpis", p=p, a=a))
            if t.status < 300:
                k = t.json()
                if not any(self.expected(*x)[0]["kpis"] == k and same_frame(self.expected(*x)[1], got) for x in c if x is not None):
                    self.bad("mixed-results", f"the performance and the plots of adapter {a} of project {p} come from different simulations")


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return [canon(v) for v in x]
    return float(x) if isinstance(x, int) and not isinstance(x, bool) else x


def js(x):
    return json.dumps(canon(x), sort_keys=True)


def same_frame(a, b):
    try:
        return a.reset_index(drop=True).astype(str).equals(b.reset_index(drop=True).astype(str))
    except Exception:
        return False


@reg
class P27(Service):
    id = "P27"
    quick, thorough = 1500, 60000
    n_ops = (8, 30)
    weights = dict(projects=1, project=4, adapters=1, adapter=6, entity=14, scenario=7, simulate=0.5)
    rule = ("one count = one distinct history of up to three interleaved clients of the service in which at least three requests were accepted; every answer is "
            "compared with a reference store, the whole store at the end")


@reg
class P30(Service):
    id = "P30"
    quick, thorough = 400, 20000
    n_ops = (3, 10)
    weights = dict(project=0.4, adapter=1.5, entity=3, scenario=0.5, simulate=6, progress=4, kpis=4, events=2)
    rule = ("one count = one distinct history of interleaved clients and background simulations in which at least three simulations or comparisons with the "
            "reference simulation took place")
