"""Process bootstrap: makes the code under test importable and owns its global seams.

* /repo (or $PRODSYS_REPO) is put first on sys.path, so every check runs the current working tree.
* pydantic.TypeAdapter is memoised per type (pure speed-up: prodsys builds a schema per object).
* progress bars and logging are silenced (they read wall clocks and write to stderr).
"""
import logging
import os
import sys
import warnings

REPO = os.environ.get("PRODSYS_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import pydantic  # noqa: E402
import pydantic.type_adapter  # noqa: E402

_real_ta = pydantic.TypeAdapter
_cache = {}


class _MemoTypeAdapter:
    def __new__(cls, tp, *a, **kw):
        if a or kw:
            return _real_ta(tp, *a, **kw)
        key = id(tp)
        hit = _cache.get(key)
        if hit is None or hit[0] is not tp:
            hit = (tp, _real_ta(tp))
            _cache[key] = hit
        return hit[1]

    def __class_getitem__(cls, item):
        return _real_ta[item]


def install_memo():
    pydantic.TypeAdapter = _MemoTypeAdapter
    import prodsys  # noqa: F401
    import prodsys.factories.time_model_factory as a
    import prodsys.factories.state_factory as b
    import prodsys.factories.process_factory as c
    import prodsys.factories.resource_factory as d
    import prodsys.factories as f
    import pkgutil
    import importlib

    for m in pkgutil.iter_modules(f.__path__):
        mod = importlib.import_module("prodsys.factories." + m.name)
        if getattr(mod, "TypeAdapter", None) is _real_ta:
            mod.TypeAdapter = _MemoTypeAdapter


_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    cwd = os.getcwd()
    install_memo()
    pydantic.TypeAdapter = _real_ta if os.environ.get("DST_NO_MEMO") else _MemoTypeAdapter
    import prodsys
    from prodsys.simulation import sim
    import prodsys.util.runner as runner

    sim.VERBOSE = 0
    runner.VERBOSE = 0
    os.chdir(cwd)
