"""The simulator: runs one scenario of the real prodsys code under a controlled event schedule.

One scenario (a plain JSON object) fully determines one execution:

  system   - the production system configuration (adapter JSON), including every fault (breakdown,
             process breakdown, failing step, charging) as exact or seeded time models
  horizon  - the instant at which the run is cut ("crash point": only the log survives)
  sched    - how the simulator orders timers that fall on the same instant
               fifo  : the order in which they were set (what SimPy does)
               perm  : a seeded permutation
               late  : seeded permutation; some timers fire only after the zero-delay cascade
                       of the instant (as if they were an epsilon later)
The clock, the event queue, tie-breaking and both RNGs are owned by this module.
"""
import hashlib
import json
import random
import signal
import sys
import traceback

from . import boot

boot.boot()

import simpy.core as _score  # noqa: E402
import simpy.events as _sev  # noqa: E402
from heapq import heappush  # noqa: E402
from prodsys.simulation import sim as _sim  # noqa: E402
from prodsys.adapters import JsonProductionSystemAdapter  # noqa: E402
from prodsys.util import runner as _runner  # noqa: E402

EPS = 1e-6


class Livelock(Exception):
    pass


class Hang(BaseException):
    pass


class Truncated(BaseException):
    pass


class HarnessError(Exception):
    pass


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Controller:
    """Per-run scheduler and recorder, attached to the simulation environment class."""

    def __init__(self, sched, max_steps=60000, max_instant=6000, watch=True):
        self.mode = sched.get("mode", "fifo")
        self.rng = random.Random(sched.get("seed", 0))
        self.late_p = sched.get("late_p", 0.3)
        self.max_steps = max_steps
        self.max_instant = max_instant
        self.watch = watch
        self.steps = 0
        self.instant_steps = 0
        self.last_now = None
        self.ties = 0  # scheduling decisions that could matter (>=2 timers on one instant)
        self.tie_hash = hashlib.sha1()
        self._times = {}
        self.queues = None
        self.snap = {}
        self.qlog = []  # (step, time, queue, [ids])
        self.requests = []
        self.runner = None
        self.step_end = []  # event_data length after each step is not stored; rows get step via len
        self.row_step = []
        self.invariant = None

    # --- schedule seam -------------------------------------------------------------
    def key(self, env, priority, delay, eid):
        if delay > 0:
            when = env._now + delay
            n = self._times.get(when, 0) + 1
            self._times[when] = n
            if n > 1:
                self.ties += 1
            if self.mode == "fifo":
                return (0, 0, eid)
            if self.mode == "perm":
                return (0, self.rng.random(), eid)
            cls = 2 if self.rng.random() < self.late_p else 0
            return (cls, self.rng.random(), eid)
        return (1, 0, eid)

    def after_step(self, env):
        self.steps += 1
        now = env._now
        if now != self.last_now:
            self.last_now = now
            self.instant_steps = 0
            if len(self._times) > 4096:
                self._times = {k: v for k, v in self._times.items() if k >= now}
        else:
            self.instant_steps += 1
            if self.instant_steps > self.max_instant:
                raise Livelock(f"more than {self.max_instant} steps without simulated time advancing at t={now}")
        if self.steps > self.max_steps:
            raise Truncated()
        ed = self.event_data
        if ed is not None:
            n = len(ed)
            rs = self.row_step
            if len(rs) < n:
                s = self.steps
                while len(rs) < n:
                    rs.append((s, now))
        if self.watch and self.queues is not None:
            snap = self.snap
            for qid, q in self.queues:
                items = q.items
                old = snap[qid]
                if len(items) != len(old) or (items and (items[-1] is not old[-1] or items[0] is not old[0])):
                    snap[qid] = list(items)
                    self.qlog.append((self.steps, now, qid, tuple(i.ID for i in items)))

    event_data = None
    requests_lost = None


_cur = None
_orig_step = _score.Environment.step
_orig_request = _sim.Environment.request_process_of_resource


def _schedule(self, event, priority=_sev.NORMAL, delay=0):
    c = _cur
    if c is None:
        heappush(self._queue, (self._now + delay, priority, (1, 0, next(self._eid)), event))
        return
    heappush(self._queue, (self._now + delay, priority, c.key(self, priority, delay, next(self._eid)), event))


step_hook = None     # called before every step of a simulation that runs inside another simulated component


def _step(self):
    if step_hook is not None:
        step_hook(self)
    c = _cur
    try:
        _orig_step(self)
    except _score.StopSimulation:  # an interruption of the simulation for a decision from outside
        if c is not None:
            c.after_step(self)
        raise
    if c is not None:
        c.after_step(self)


def _request(self, request):
    c = _cur
    if c is not None:
        try:
            item = request.product if getattr(request, "product", None) is not None else getattr(request, "auxiliary", None)
            d = {
                "t": self._now,
                "step": c.steps,
                "prod": item.product_data.ID,
                "ptype": getattr(item.product_data, "product_type", None),
                "aux": not hasattr(item, "product_info"),
                "res": request.resource.data.ID,
                "proc": request.process.process_data.ID,
                "kind": "transport" if hasattr(request, "origin") else "production",
                "origin": request.origin.data.ID if hasattr(request, "origin") else None,
                "target": request.target.data.ID if hasattr(request, "origin") else None,
                "route": [l.data.ID for l in (getattr(request, "route", None) or [])],
                "qlen": None,
            }
            c.requests.append(d)
        except Exception as e:  # the recorder must never perturb the run; the oracles that need it are skipped
            c.requests_lost = repr(e)
    return _orig_request(self, request)


_sim.Environment.schedule = _schedule
_sim.Environment.step = _step
_sim.Environment.request_process_of_resource = _request


class Row:
    __slots__ = ("i", "t", "res", "state", "stype", "act", "exp", "prod", "origin", "target", "empty", "step", "now")

    def __init__(self, i, d, step, now):
        self.i = i
        self.t = d["Time"]
        self.res = d["Resource"]
        self.state = d["State"]
        st = d["State Type"]
        self.stype = getattr(st, "value", st)
        ac = d["Activity"]
        self.act = getattr(ac, "value", ac)
        self.exp = d.get("Expected End Time")
        self.prod = d.get("Product") or ""
        self.origin = d.get("Origin location")
        self.target = d.get("Target location")
        self.empty = d.get("Empty Transport")
        self.step = step
        self.now = now

    def brief(self):
        return f"{self.t:g} {self.res} {self.state} {self.stype} {self.act} {self.prod} {self.origin or ''}->{self.target or ''} exp={self.exp}"

    def canon(self):
        return (repr(self.t), self.res, self.state, self.stype, self.act, self.prod, self.origin, self.target, self.empty, repr(self.exp))


class Run:
    """Recorded history of one execution."""

    def __init__(self, scn):
        self.scn = scn
        self.system = scn["system"]
        self.horizon = scn["horizon"]
        self.rows = []
        self.requests = []
        self.requests_lost = None
        self.qlog = []
        self.exc = None  # (class, message, where)
        self.livelock = None
        self.truncated = False
        self.end = None
        self.steps = 0
        self.ties = 0
        self.runner = None
        self.completed = False
        self.rng_kept = None
        self.adapter = None

    def log_hash(self):
        h = hashlib.sha256()
        for r in self.rows:
            h.update(repr(r.canon()).encode())
        return h.hexdigest()


def make_adapter(system):
    import copy
    with _runner.temp_seed(12345):
        return JsonProductionSystemAdapter(**copy.deepcopy(system))


def _classify_exception(e, tb):
    """SUT exception iff the innermost frame that is ours-or-theirs lies in the repository."""
    frames = traceback.extract_tb(tb)
    where = None
    for f in frames:
        if f.filename.startswith(boot.REPO + "/"):
            where = f"{f.filename[len(boot.REPO)+1:]}:{f.name}"
        elif "/verif/dst/" in f.filename or f.filename.startswith(sys.path[0] + "/dst/"):
            pass
    inner = frames[-1].filename if frames else ""
    if isinstance(e, HarnessError):
        return None
    if "/dst/" in inner and not inner.startswith(boot.REPO + "/"):
        return None
    return where or "unknown"


CPU_LIMIT = 60.0


def _alarm(signum, frame):
    raise Hang("run exceeded its CPU budget")


def attach(ctl, run, r):
    run.runner = r
    ctl.runner = r
    ctl.event_data = r.event_logger.event_data
    ctl.queues = [(q.data.ID, q) for q in r.queue_factory.queues]
    ctl.snap = {qid: list(q.items) for qid, q in ctl.queues}
    for qid, q in ctl.queues:
        if q.items:
            ctl.qlog.append((0, 0.0, qid, tuple(i.ID for i in q.items)))


def execute(scn, max_steps=None, adapter=None, keep_runner=True, watch=True, pre_run=None, rng_seed=987654321, drive=None):
    """Run a scenario; returns a Run. Exceptions of the code under test are recorded, not raised.

    drive(adapter, run, ctl, attach): executes the simulation itself (through a component that owns the Runner) and returns the instant up to
    which the history is complete; attach(runner) has to be called when the Runner is initialised.
    """
    global _cur
    run = Run(scn)
    ctl = Controller(scn.get("sched", {}), max_steps=max_steps or scn.get("max_steps", 60000), watch=watch)
    py, np_state = random.getstate(), None
    import numpy as np
    np_state = np.random.get_state()
    random.seed(rng_seed)
    np.random.seed(rng_seed % 2**32)
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        _cur = ctl
        a = adapter if adapter is not None else make_adapter(scn["system"])
        run.adapter = a
        if drive is not None:
            end = drive(a, run, ctl, lambda r: attach(ctl, run, r))
        else:
            r = _runner.Runner(adapter=a)
            s0 = (random.getstate(), repr(np.random.get_state()))
            r.initialize_simulation()
            s1 = (random.getstate(), repr(np.random.get_state()))
            attach(ctl, run, r)
            if pre_run:
                pre_run(r, ctl)
            r.run(scn["horizon"])
            run.rng_kept = (s0 == s1, s1 == (random.getstate(), repr(np.random.get_state())))
        run.completed = True
    except Livelock as e:
        run.livelock = str(e)
    except Truncated:
        run.truncated = True
    except Hang as e:
        run.livelock = str(e)
    except HarnessError:
        raise
    except Exception as e:
        where = _classify_exception(e, e.__traceback__)
        if where is None:
            raise
        run.exc = (type(e).__name__, str(e)[:300], where)
    finally:
        _cur = None
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        random.setstate(py)
        np.random.set_state(np_state)
    run.steps = ctl.steps
    run.ties = ctl.ties
    run.requests = ctl.requests
    run.requests_lost = ctl.requests_lost or (None if ctl.requests else "no request was seen")
    run.qlog = ctl.qlog
    run.end = ctl.last_now if (run.exc or run.livelock or run.truncated) else scn["horizon"]
    if run.end is None:
        run.end = 0.0
    ed = ctl.event_data or []
    rs = ctl.row_step
    for i, d in enumerate(ed):
        step, now = rs[i] if i < len(rs) else (ctl.steps, run.end)
        run.rows.append(Row(i, d, step, now))
    if drive is not None and run.completed:
        # the last instant is not over
        run.end = run.horizon = end
        run.rows = [r for r in run.rows if r.t < end]
        run.requests = [q for q in run.requests if q["t"] < end]
        run.qlog = [q for q in run.qlog if q[1] < end]
        run.runner = None
    if not keep_runner:
        run.runner = None
    return run
