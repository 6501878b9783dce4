"""Reference views over a scenario (Sys) and over the recorded history of a run (Trace).

Nothing here calls the code under test: Sys reads the configuration JSON, Trace reads the event log,
the queue snapshots and the request list that the simulator recorded.
"""
import bisect
from collections import defaultdict

TOL = 1e-6
INF = float("inf")


class Sys:
    def __init__(self, system):
        s = self.raw = system
        by = lambda l: {x["ID"]: x for x in l}
        self.tm = by(s["time_model_data"])
        self.state = by(s["state_data"])
        self.proc = by(s["process_data"])
        self.queue = by(s["queue_data"])
        self.res = by(s["resource_data"])
        self.node = by(s.get("node_data", []))
        self.ptype = {p["product_type"]: p for p in s["product_data"]}
        self.sink = by(s["sink_data"])
        self.source = by(s["source_data"])
        self.aux = by(s.get("auxiliary_data", []))
        self.machines = {k: r for k, r in self.res.items() if r["controller"] != "TransportController"}
        self.vehicles = {k: r for k, r in self.res.items() if r["controller"] == "TransportController"}
        self.stores = {k: q for k, q in self.queue.items() if "location" in q}
        # queue -> (owner, role)
        self.qowner = {}
        for m in self.machines.values():
            for q in m["input_queues"]:
                if q not in self.stores:
                    self.qowner[q] = (m["ID"], "in")
            for q in m["output_queues"]:
                if q not in self.stores:
                    self.qowner[q] = (m["ID"], "out")
        for x in self.source.values():
            for q in x["output_queues"]:
                self.qowner[q] = (x["ID"], "source")
        for x in self.sink.values():
            for q in x["input_queues"]:
                self.qowner[q] = (x["ID"], "sink")
        for q in self.stores:
            self.qowner[q] = (q, "store")

    # -- processes
    def ptype_of(self, item):
        """product type (or auxiliary type) of an item ID '<type>_<n>'."""
        return item.rsplit("_", 1)[0]

    def is_aux(self, item):
        t = self.ptype_of(item)
        return t in {a["auxiliary_type"] for a in self.aux.values()} or t in self.aux

    def plan(self, ptype):
        """('list', [entries]) or ('dag', nodes, {node: set(preds)})"""
        pl = self.ptype[ptype]["processes"]
        if isinstance(pl, dict):
            nodes = list(pl)
            preds = {n: {a for a in pl if n in pl[a]} for n in nodes}
            return ("dag", nodes, preds)
        if pl and isinstance(pl[0], (list, tuple)):
            nodes = []
            for e in pl:
                for x in e:
                    if x not in nodes:
                        nodes.append(x)
            preds = {n: {a for a, b in pl if b == n} for n in nodes}
            return ("dag", nodes, preds)
        return ("list", list(pl))

    def serves(self, entry, state_id):
        """does executing process `state_id` satisfy plan entry `entry`?"""
        p, e = self.proc.get(state_id), self.proc[entry]
        if p is None:
            return False
        if e["type"] == "ProductionProcesses" or e["type"] == "ReworkProcesses":
            return state_id == entry
        if e["type"] in ("CapabilityProcesses", "RequiredCapabilityProcesses"):
            return p["type"] == "CapabilityProcesses" and p["capability"] == e["capability"]
        if e["type"] == "CompoundProcesses":
            return state_id == entry or state_id in e["process_ids"]
        return False

    def capable(self, entry):
        """[(machine, process)] that can perform a plan entry, in configuration order."""
        out = []
        for m in self.raw["resource_data"]:
            if m["ID"] in self.machines:
                for p in m["process_ids"]:
                    if self.serves(entry, p):
                        out.append((m["ID"], p))
        return out

    def proc_capacity(self, res, proc):
        r = self.res[res]
        pc = r.get("process_capacities")
        if not pc:
            return r["capacity"]
        return sum(c for p, c in zip(r["process_ids"], pc) if p == proc)

    def qcap(self, q):
        c = self.queue[q]["capacity"]
        return c if c else INF

    # -- geometry
    def loc(self, ident, mode=None):
        for d in (self.res, self.source, self.sink, self.node, self.stores):
            if ident in d:
                x = d[ident]
                if mode == "in" and x.get("input_location"):
                    return x["input_location"]
                if mode == "out" and x.get("output_location"):
                    return x["output_location"]
                return x["location"]
        raise KeyError(ident)

    def dist(self, a, b, metric):
        dx, dy = a[0] - b[0], a[1] - b[1]
        if metric == "manhattan":
            return abs(dx) + abs(dy)
        return (dx * dx + dy * dy) ** 0.5

    # -- time models
    def tm_values(self, tmid):
        """deterministic sequence generator of a time model or None."""
        t = self.tm[tmid]
        if "schedule" in t:
            v = t["schedule"]
            if t.get("absolute"):
                v = [v[0]] + [v[i] - v[i - 1] for i in range(1, len(v))]
            return ("sched", v, t.get("cyclic", True))
        if t.get("distribution_function") == "constant":
            return ("const", t["location"], None)
        if "samples" in t or "sequence" in t:
            return ("sample", t.get("samples") or t.get("sequence"), None)
        if "speed" in t:
            return ("dist", t, None)
        return ("func", t, None)

    def tm_expected(self, tmid):
        k, v, _ = self.tm_values(tmid)
        if k == "sched" or k == "sample":
            return sum(v) / len(v)
        if k == "const":
            return v
        if k == "func":
            return v["location"]
        return None

    def tm_max(self, tmid):
        k, v, _ = self.tm_values(tmid)
        if k in ("sched", "sample"):
            return max(v)
        if k == "const":
            return v
        return None


class Ex:
    """one execution of a state (production, transport, setup, charging, breakdown)."""
    __slots__ = ("res", "state", "stype", "prod", "segs", "intr", "start", "end", "i0", "i1", "s0", "s1",
                 "origin", "target", "empty", "exp", "first_exp", "open", "rows")

    def __init__(self, r):
        self.res, self.state, self.stype, self.prod = r.res, r.state, r.stype, r.prod
        self.segs, self.intr, self.exp, self.rows = [], [], [], []
        self.start = self.end = None
        self.i0 = r.i
        self.s0 = r.step
        self.i1 = self.s1 = None
        self.first_exp = None
        self.origin, self.target, self.empty = r.origin, r.target, r.empty
        self.open = True

    def work(self):
        return sum(b - a for a, b in self.segs)

    def __repr__(self):
        return f"<{self.stype} {self.res}/{self.state} {self.prod} [{self.start}..{self.end}] {self.origin}->{self.target} e={self.empty}>"


WORK = ("Production", "Transport", "Setup", "Charging")


class Trace:
    def __init__(self, run):
        self.run = run
        self.sys = Sys(run.system)
        self.end_time = run.end
        self.errors = []  # log grammar violations: (row index, message)
        self.exs = []
        self.by_res = defaultdict(list)
        self.created, self.finished = {}, {}
        self.created_dup, self.finished_dup = [], []
        self.aux_rows = []
        self._parse()
        self._breakdowns()
        self._queues()

    def _err(self, r, m):
        self.errors.append((r.i, f"row {r.i}: {m}: {r.brief()}"))

    def _parse(self):
        live = {}
        for r in self.run.rows:
            if r.stype == "Source":
                if r.act != "created product":
                    self._err(r, "unexpected activity at a source")
                elif r.prod in self.created:
                    self.created_dup.append(r)
                else:
                    self.created[r.prod] = r
                continue
            if r.stype == "Sink":
                if r.act != "finished product":
                    self._err(r, "unexpected activity at a sink")
                elif r.prod in self.finished:
                    self.finished_dup.append(r)
                else:
                    self.finished[r.prod] = r
                continue
            if r.act in ("created auxiliary", "started auxiliary usage", "finished auxiliary usage"):
                self.aux_rows.append(r)
                continue
            key = (r.res, r.state, r.prod)
            x = live.get(key)
            if r.act == "start state":
                if x is None:
                    x = Ex(r)
                    x.start = r.t
                    x.first_exp = r.exp
                    live[key] = x
                    self.exs.append(x)
                    x.segs.append([r.t, None])
                else:
                    if not x.intr or x.intr[-1][1] is None or (x.segs and x.segs[-1][1] is None):
                        self._err(r, "start of a state that is already running")
                    if x.segs and x.segs[-1][1] is None:
                        x.segs[-1][1] = r.t
                    x.segs.append([r.t, None])
                x.exp.append(r.exp)
            elif r.act == "start interrupt":
                if x is None or x.segs[-1][1] is not None:
                    self._err(r, "interrupt of a state that is not running")
                    if x is None:
                        continue
                else:
                    x.segs[-1][1] = r.t
                x.intr.append([r.t, None])
            elif r.act == "end interrupt":
                if x is None or not x.intr or x.intr[-1][1] is not None:
                    self._err(r, "end of an interrupt that did not start")
                    continue
                x.intr[-1][1] = r.t
            elif r.act == "end state":
                if x is None:
                    self._err(r, "end of a state that did not start")
                    x = Ex(r)
                    x.start = r.t
                    x.first_exp = r.t
                    x.segs.append([r.t, r.t])
                    self.exs.append(x)
                elif x.segs[-1][1] is not None:
                    self._err(r, "end of a state that is interrupted")
                else:
                    x.segs[-1][1] = r.t
                x.end = r.t
                x.open = False
                x.i1, x.s1 = r.i, r.step
                live.pop(key, None)
            else:
                self._err(r, "unknown activity")
                continue
            x.rows.append(r.i)
        for x in self.exs:
            for s in x.segs:
                if s[1] is None:
                    s[1] = self.end_time
            for s in x.intr:
                if s[1] is None:
                    s[1] = self.end_time
            self.by_res[x.res].append(x)
        self.live = live

    def of(self, res, *stypes):
        return [x for x in self.by_res.get(res, ()) if x.stype in stypes]

    def prod_exs(self, prod, *stypes):
        if not hasattr(self, "_pe"):
            self._pe = defaultdict(list)
            for x in self.exs:
                if x.prod:
                    self._pe[x.prod].append(x)
        return [x for x in self._pe.get(prod, ()) if not stypes or x.stype in stypes]

    def _breakdowns(self):
        self.bd = defaultdict(list)  # res -> [(start, end)]  merged union of resource breakdowns
        self.pbd = defaultdict(list)  # (res, proc) -> [(s,e)]
        self.pbd_any = defaultdict(list)  # res -> all process breakdowns
        for x in self.exs:
            iv = (x.start, x.end if x.end is not None else self.end_time)
            if x.stype == "Breakdown":
                self.bd[x.res].append(iv)
            elif x.stype == "ProcessBreakdown":
                st = self.sys.state.get(x.state)
                self.pbd[(x.res, st["process_id"] if st else None)].append(iv)
                self.pbd_any[x.res].append(iv)

    def down(self, res, proc=None, setup=False):
        """sorted, merged down-time of a resource for a process (or for setups)."""
        iv = list(self.bd.get(res, ()))
        if setup:
            iv += self.pbd_any.get(res, [])
        elif proc is not None:
            iv += self.pbd.get((res, proc), [])
        return merge(iv)

    def _queues(self):
        """per item: list of (step, time, 'enter'|'leave', queue); per queue: snapshots."""
        self.moves = defaultdict(list)
        self.snaps = defaultdict(list)
        prev = {}
        for step, t, q, ids in self.run.qlog:
            old = prev.get(q, ())
            self.snaps[q].append((step, t, ids))
            so, sn = set(old), set(ids)
            for i in old:
                if i not in sn:
                    self.moves[i].append((step, t, "leave", q))
            for i in ids:
                if i not in so:
                    self.moves[i].append((step, t, "enter", q))
            prev[q] = ids
        self.final = prev

    def qlen_at(self, q, step):
        """queue length after `step`."""
        sn = self.snaps.get(q)
        if not sn:
            return 0
        i = bisect.bisect_right(sn, (step, INF)) - 1
        return len(sn[i][2]) if i >= 0 else 0

    def possession(self, m):
        """intervals a machine holds a product: left its input queue .. entered an output queue
        [(prod, t0, t1|None, step0, step1|None)]"""
        out = []
        for item, mv in self.moves.items():
            cur = None
            for step, t, k, q in mv:
                o = self.sys.qowner.get(q)
                if k == "leave" and o == (m, "in"):
                    cur = (t, step)
                elif k == "enter" and cur is not None:
                    out.append((item, cur[0], t, cur[1], step))
                    cur = None
            if cur is not None:
                out.append((item, cur[0], None, cur[1], None))
        out.sort(key=lambda p: p[3])
        return out


def merge(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def overlap(a, b, iv):
    """total positive overlap of [a,b] with merged intervals."""
    s = 0.0
    for x, y in iv:
        lo, hi = max(a, x), min(b, y)
        if hi > lo:
            s += hi - lo
    return s


def subtract(a, b, iv):
    """parts of [a,b] not covered by merged intervals iv, longer than TOL."""
    out, cur = [], a
    for x, y in iv:
        if y <= cur:
            continue
        if x >= b:
            break
        if x > cur + TOL:
            out.append((cur, x))
        cur = max(cur, y)
    if b > cur + TOL:
        out.append((cur, b))
    return out
