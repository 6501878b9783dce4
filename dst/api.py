"""The web service under a simulator: clients, the event loop and the worker threads are scheduled by one seed.

The real ASGI application (routers, data access objects, backend, background tasks) is driven without a server and
without an event loop.  Its coroutines are advanced by this module.  What the application hands to worker threads
(background simulations, synchronous endpoints) runs in a thread that holds a baton: only one thread ever runs, and
it gives the baton back at calls of the backend, at steps of the simulation and at locks, when the seed says so.
"""
import contextlib
import io
import json
import random
import sys
import threading
import types

from . import core

_app = None


def load():
    """the application, imported once per process."""
    global _app
    if _app is not None:
        return _app
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        from prodsys.simulation import sim
        try:
            import prodsys_api
            _app = prodsys_api.app
        except ImportError:
            # hydra or uvicorn missing: the same routers without the command line
            from fastapi import FastAPI
            import importlib
            import os
            from . import boot
            _app = FastAPI()
            for f in sorted(os.listdir(os.path.join(boot.REPO, "app", "routers"))):
                if f.endswith(".py") and f != "__init__.py":
                    _app.include_router(importlib.import_module("app.routers." + f[:-3]).router)
        sim.VERBOSE = 0
        # the middleware stack is built on the first request
    import starlette.concurrency as sc
    orig = sc.run_in_threadpool
    for name, m in list(sys.modules.items()):
        if m is not None and getattr(m, "__dict__", None) and m.__dict__.get("run_in_threadpool") is orig:
            m.run_in_threadpool = _run_in_threadpool
    return _app


@types.coroutine
def _handoff(call):
    return (yield call)


class Call:
    def __init__(self, f):
        self.f = f


async def _run_in_threadpool(func, *args, **kwargs):
    r = await _handoff(Call(lambda: func(*args, **kwargs)))
    if r[0] == "error":
        raise r[1]
    return r[1]


class Job:
    """work in a worker thread; advances only while it holds the baton."""

    def __init__(self, world, call, name):
        self.world, self.call, self.name = world, call, name
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.result = None
        self.blocked = None
        self.slices = 0
        self.steps = 0
        self.env = None
        self.dead = False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.go.acquire()
        try:
            self.result = ("ok", self.call.f())
        except Abandon:
            self.result = ("abandoned", None)
        except BaseException as e:
            self.result = ("error", e)
        self.back.release()

    def advance(self):
        w = self.world
        self.slices += 1
        w.running = self
        self.go.release()
        self.back.acquire()
        w.running = None

    def pause(self):
        """called in the job's thread: gives the baton back."""
        self.back.release()
        self.go.acquire()
        if self.world.closing:
            raise Abandon()


class Abandon(BaseException):
    pass


class Injected(RuntimeError):
    """a fault the simulator injects into a running job."""


class SimLock:
    def __init__(self, world, reentrant=False):
        self.w, self.owner, self.n, self.re = world, None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = self.w.running
        if self.re and self.n and self.owner is me:
            self.n += 1
            return True
        while self.n:
            if not blocking:
                return False
            if me is None:
                if not self.w.run_other_jobs():
                    raise core.Livelock("a request waits for a lock that is never released")
                continue
            me.blocked = self
            me.pause()
        if me is not None:
            me.blocked = None
        self.owner, self.n = me, 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class Task:
    """one request: the coroutine of the application."""

    def __init__(self, world, method, path, query, body, gone=False):
        self.w = world
        self.status, self.chunks, self.headers = None, [], None
        self.answered = False
        self.done = False
        self.job = None
        self.error = None
        self.gone = gone
        self.sent_body = False
        self.raw = body
        q = query.encode()
        scope = dict(type="http", asgi=dict(version="3.0"), http_version="1.1", method=method, path=path, raw_path=path.encode(), query_string=q,
                     headers=[(b"host", b"sim"), (b"content-type", b"application/json")], scheme="http", server=("sim", 80), client=("c", 1), root_path="")
        self.coro = load()(scope, self.receive, self.send)

    async def receive(self):
        if not self.sent_body:
            self.sent_body = True
            return dict(type="http.request", body=self.raw, more_body=False)
        return dict(type="http.disconnect")

    async def send(self, m):
        if self.gone:
            raise OSError("client gone")
        if m["type"] == "http.response.start":
            self.status = m["status"]
        elif m["type"] == "http.response.body":
            self.chunks.append(m.get("body", b""))
            if not m.get("more_body"):
                self.answered = True

    def advance(self):
        """until the request is done or hands work to a thread."""
        value = None
        if self.job is not None:
            value, self.job = self.job.result, None
        while True:
            try:
                x = self.coro.send(value)
            except StopIteration:
                self.done = self.answered = True
                return
            except (core.HarnessError, core.Hang, core.Livelock):
                raise
            except BaseException as e:
                self.error = e
                if not self.answered:
                    self.status = self.status if self.status and self.status >= 500 else 500
                self.done = self.answered = True
                return
            value = None
            if isinstance(x, Call):
                self.job = Job(self.w, x, len(self.w.jobs))
                self.w.jobs.append(self.job)
                self.w.owner[self.job] = self
                return

    def json(self):
        return json.loads(b"".join(self.chunks).decode())


class World:
    """one run of the service."""

    def __init__(self, seed, preempt=0.3, stride=(1, 60), inject=None):
        self.rng = random.Random(seed)
        self.preempt, self.stride = preempt, stride
        self.inject = inject      # {"job": n-th job with a simulation, "step": k}
        self.jobs, self.owner = [], {}
        self.running = None
        self.closing = False
        self.trace = []
        self.sim_jobs = 0
        self.injected = 0
        self.until = {}

    def __enter__(self):
        load()
        self.saved = []
        import tqdm  # noqa: F401
        from prodsys.simulation import sim
        self.put(sim, "VERBOSE", 1)
        core.step_hook = self.on_step
        import app.dependencies as dep
        lock, rlock = type(threading.Lock()), type(threading.RLock())
        for name, m in list(sys.modules.items()):
            if m is None or not (name.split(".")[0] in ("app", "prodsys", "prodsys_api")):
                continue
            for k, v in list(m.__dict__.items()):
                if isinstance(v, (lock, rlock)):
                    self.put(m, k, SimLock(self, isinstance(v, rlock)))
        self.backend = dep.prodsys_backend
        for k in [k for k in dir(type(self.backend)) if not k.startswith("_") and callable(getattr(self.backend, k))]:
            self.backend.__dict__.pop(k, None)
        self.backend.__init__()
        for k in [k for k in dir(type(self.backend)) if not k.startswith("_") and callable(getattr(self.backend, k))]:
            self.wrap(k, getattr(self.backend, k))
        for m in [m for n, m in sys.modules.items() if n.split(".")[0] == "app" and m is not None]:
            for k, v in list(m.__dict__.items()):
                if isinstance(v, dict) and k == "runners":
                    v.clear()
        self.io = contextlib.ExitStack()
        self.io.enter_context(contextlib.redirect_stdout(io.StringIO()))
        self.io.enter_context(contextlib.redirect_stderr(io.StringIO()))
        return self

    def put(self, m, k, v):
        self.saved.append((m, k, m.__dict__[k]))
        setattr(m, k, v)

    def wrap(self, name, f):
        def g(*a, **kw):
            j = self.running
            if j is not None and threading.current_thread() is j.thread and self.rng.random() < self.preempt:
                self.trace.append(("backend", j.name, name))
                j.pause()
            return f(*a, **kw)
        self.backend.__dict__[name] = g

    def on_step(self, env):
        j = self.running
        if j is None or threading.current_thread() is not j.thread:
            return
        if j.env is not env:
            if j.env is None:
                j.number = self.sim_jobs
                self.sim_jobs += 1
            j.env, j.steps, j.next = env, 0, 0
        j.steps += 1
        if self.inject and self.inject["job"] == j.number and self.inject["step"] == j.steps:
            self.injected += 1
            raise Injected("injected failure of a worker")
        if j.steps >= j.next:
            j.next = j.steps + self.rng.randint(*self.stride)
            if self.rng.random() < self.preempt:
                self.trace.append(("step", j.name, j.steps))
                j.pause()

    def run_other_jobs(self):
        js = [j for j in self.jobs if j.result is None and j is not self.running and not (j.blocked and j.blocked.n)]
        if not js:
            return False
        js[0].advance()
        return True

    def runnable(self):
        return [j for j in self.jobs if j.result is None and not (j.blocked is not None and j.blocked.n)]

    def __exit__(self, *a):
        self.closing = True
        for j in self.jobs:
            if j.result is None:
                j.go.release()
                j.thread.join(5)
        for t in set(self.owner.values()):
            try:
                t.coro.close()
            except BaseException:
                pass
        core.step_hook = None
        for k in list(self.backend.__dict__):
            if callable(self.backend.__dict__[k]) and hasattr(type(self.backend), k):
                del self.backend.__dict__[k]
        for m, k, v in reversed(self.saved):
            setattr(m, k, v)
        self.io.close()
        return False
