"""Registry of the properties and the scenario families that decide them."""
from . import oracles
from .simprop import SimProp

_reg = {}


def reg(cls):
    p = cls()
    assert p.id not in _reg
    _reg[p.id] = p
    return cls


def get(pid):
    load()
    return _reg[pid]


def all_ids():
    load()
    return sorted(_reg)


_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    from . import p_core, p_det, p_kpi, p_rng, p_io, p_opt, p_moves, p_more, p_api, p_express, p_control  # noqa: F401
