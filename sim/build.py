"""Configuration (JSON) -> environment."""
import copy

import gym_electric_motor as gem
import numpy as np
from gym_electric_motor import callbacks as cbs
from gym_electric_motor import constraints as gc_
from gym_electric_motor import physical_system_wrappers as pw
from gym_electric_motor import physical_systems as ps
from gym_electric_motor import reference_generators as rg
from gym_electric_motor import reward_functions as rf
from gym_electric_motor import visualization as vz
from gym_electric_motor.physical_systems import converters as cv
from gym_electric_motor.physical_systems import solvers as sv

from . import parts, spec

_MODS = [parts, ps, sv, cv, rg, rf, pw, gc_, vz, cbs]
_ALIAS = {"DqToAbc": "DqToAbcActionProcessor", "TriangularReferenceGenerator": "TriangularReferenceGenerator"}


def cls(name):
    if name in _ALIAS:
        name = _ALIAS[name]
    for m in _MODS:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def obj(x):
    """Decode a JSON form."""
    if isinstance(x, dict):
        if "$t" in x:
            return tuple(obj(v) for v in x["$t"])
        if "$f" in x:
            return parts.FUNCS[x["$f"]](**{k: obj(v) for k, v in x.items() if k != "$f"})
        if x.get("by_class"):      # classes and their arguments instead of objects
            subs = [(cls(g["$"]), {k: obj(v) for k, v in g.items() if k != "$"}) for g in x["sub_generators"]]
            return cls(x["$"])(sub_generators=[c for c, _ in subs], sub_args=[a for _, a in subs])
        if "$" in x:
            return cls(x["$"])(**{k: obj(v) for k, v in x.items() if k != "$"})
        return {k: obj(v) for k, v in x.items()}
    if isinstance(x, list):
        return [obj(v) for v in x]
    return x


def converter(cfg):
    a, _, m = spec.split(cfg)
    types = spec.conv_types(cfg)
    til = cfg.get("conv", {}).get("til", 0.0)

    def one(t):
        return getattr(cv, a + spec.CLS_CONV[t])(**({"interlocking_time": til} if til else {}))
    if len(types) == 1:
        return one(types[0])
    if cfg.get("conv", {}).get("by_class"):
        return getattr(cv, a + "MultiConverter")(subconverters=[getattr(cv, a + spec.CLS_CONV[t]) for t in types],
                                                 **({"interlocking_time": til} if til else {}))
    return getattr(cv, a + "MultiConverter")(subconverters=[one(t) for t in types])


def wrapper(w, m):
    if w["$"] == "DqToAbc":
        kw = {k: obj(v) for k, v in w.items() if k != "$"}
        name = {"SynRM": "PMSM"}.get(m, m)
        return pw.DqToAbcActionProcessor.make(name, **kw)
    if w["$"] == "DeadTimeProcessor" and "reset_actions" in w:
        acts = w["reset_actions"]
        return pw.DeadTimeProcessor(steps=w["steps"], reset_action=lambda: [to_action(None, x) for x in acts])
    return obj(w)


def kwargs(cfg, callbacks=(), visualization=None):
    a, t, m = spec.split(cfg)
    kw = {}
    if "tau" in cfg:
        kw["tau"] = cfg["tau"]
    if "supply" in cfg:
        kw["supply"] = obj(cfg["supply"])
    if "conv" in cfg:
        kw["converter"] = converter(cfg)
    if "motor" in cfg:
        kw["motor"] = obj(cfg["motor"])
    if "load" in cfg:
        kw["load"] = obj(cfg["load"])
    if "solver" in cfg:
        kw["ode_solver"] = obj(cfg["solver"])
    if "jac" in cfg:
        kw["calc_jacobian"] = cfg["jac"]
    if "ref" in cfg:
        kw["reference_generator"] = obj(cfg["ref"])
    if "reward" in cfg:
        kw["reward_function"] = obj(cfg["reward"])
    if "constraints" in cfg:
        c = obj(cfg["constraints"])
        if cfg.get("merge"):
            lim = [x for x in c if isinstance(x, str)]
            add = [x for x in c if not isinstance(x, str)]
            c = gem.ConstraintMonitor(lim, add, merge_violations=obj(cfg["merge"]))
        kw["constraints"] = c
    if "wrappers" in cfg:
        kw["physical_system_wrappers"] = tuple(wrapper(w, m) for w in cfg["wrappers"])
    if cfg.get("filter"):
        kw["state_filter"] = list(cfg["filter"])
    v = cfg.get("vis")
    if visualization is not None:
        kw["visualization"] = visualization
    elif v == "dashboard":
        kw["visualization"] = vz.MotorDashboard(state_plots="all", reward_plot=True, action_plots="all")
    elif v == "class":
        kw["visualization"] = (vz.ConsolePrinter,)
    elif v == "printer":
        kw["visualization"] = vz.ConsolePrinter(verbose=0)
    else:
        kw["visualization"] = ()
    if callbacks:
        kw["callbacks"] = tuple(callbacks)
    return kw


def make(cfg, callbacks=(), visualization=None, **parts):
    return gem.make(cfg["id"], **{**kwargs(cfg, callbacks, visualization), **parts})


def to_action(space, a):
    """JSON action -> what a user passes.  A fresh object per call."""
    if isinstance(a, list):
        if space is not None and hasattr(space, "nvec"):
            return np.array(a, dtype=np.int64)
        if all(isinstance(x, int) for x in a):
            return np.array(a, dtype=np.int64) if (space is None or hasattr(space, "nvec")) else np.array(a, float)
        return np.array(a, dtype=np.float64)
    return a


__all__ = ["obj", "make", "kwargs", "converter", "to_action", "copy"]
