"""Small oracles of the environment layer, computed from the scenario's configuration and recorded data."""
import math

from . import spec
from .parts import Soft

DEFAULT_LIMIT = {"PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"]}


def constraints(cfg, names):
    """List of (kind, indices / callable)."""
    _, _, m = spec.split(cfg)
    if "constraints" in cfg:
        cs = cfg["constraints"]
    elif m in DEFAULT_LIMIT:
        cs = DEFAULT_LIMIT[m]
    else:
        cs = [{"$": "SquaredConstraint", "states": {"$t": ["i_sq", "i_sd"]}}] + (["i_e"] if m == "EESM" else [])
    out = []
    lim = [c for c in cs if isinstance(c, str)]
    if lim:
        out.append(("limit", list(range(len(names))) if "all_states" in lim else [names.index(n) for n in lim]))
    for c in cs:
        if isinstance(c, str):
            continue
        if c.get("$") == "LimitConstraint":
            n = c["observed_state_names"]["$t"]
            out.append(("limit", list(range(len(names))) if "all_states" in n else [names.index(x) for x in n]))
        elif c.get("$") == "SquaredConstraint":
            out.append(("square", [names.index(x) for x in c["states"]["$t"]]))
        elif c.get("$f") == "soft":
            out.append(("soft", Soft(c["i"], c["lo"], c["hi"])))
        else:
            raise KeyError(c)
    return out


def degrees(cs, s):
    """(degrees, ambiguous)"""
    out, amb = [], False
    for kind, arg in cs:
        if kind == "limit":
            out.append(0.0 if all(abs(s[i]) <= 1.0 for i in arg) else 1.0)
        elif kind == "square":
            t = math.fsum(s[i] * s[i] for i in arg) if all(math.isfinite(s[i]) for i in arg) else math.inf
            amb = amb or abs(t - 1.0) < 1e-12
            out.append(0.0 if t <= 1.0 else 1.0)
        else:
            out.append(arg(s))
    return out, amb


def violation(cfg, names, s):
    """(combined degree, ambiguous) of a full state."""
    v, amb = degrees(constraints(cfg, names), [float(x) for x in s])
    if not v:
        return 0.0, False
    rule = cfg.get("merge", "max")
    if rule == "max":
        return max(v), amb
    if rule == "product":
        p = 1.0
        for x in v:
            p *= 1.0 - x
        return 1.0 - p, amb or 0 < p < 1e-12
    return sum(v) / len(v), amb


def reward_setup(cfg, names, high, low, ref_names):
    """Weights, lengths, powers, bias, violation reward, range."""
    n = len(names)
    r = cfg.get("reward", {})
    w = r.get("reward_weights")
    if w is None:
        sel = list(ref_names) if ref_names else list(names)
        w = {s: 1.0 / len(sel) for s in sel}
    wv = [float(w.get(s, 0.0)) for s in names]
    if r.get("normed_reward_weights"):
        t = sum(wv)
        wv = [x / t for x in wv]
    p = r.get("reward_power", 1)
    pv = [float(p.get(s, 0)) for s in names] if isinstance(p, dict) else [float(p)] * n
    tot = sum(wv)
    b = r.get("bias", 0.0)
    bias = tot if b == "positive" else float(b)
    rng = (-tot + bias, bias)
    if "violation_reward" in r and r["violation_reward"] is not None:
        v = float(r["violation_reward"])
    else:
        v = min(rng[0] / (1.0 - r.get("gamma", 0.9)), 0.0)
    return dict(w=wv, p=pv, bias=bias, v=v, range=rng, length=[float(h - l) for h, l in zip(high, low)])


def reward(su, s, ref, degree):
    e = 0.0
    for w, p, ln, a, b in zip(su["w"], su["p"], su["length"], s, ref):
        if w:
            e += w * (abs(float(a) - float(b)) / ln) ** p
    wse = su["bias"] - e
    return (1.0 - degree) * wse + degree * su["v"]
