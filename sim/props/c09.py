"""C09 Invalid actions are refused cleanly, continuous ones saturate."""
import math

import gym_electric_motor as gem
import numpy as np

from .. import spec
from ..drive import Drive, diff, gen_ops

ID = "C09"
COUNT = {"quick": 1300, "thorough": 16000}
RULE = ("random drive (also behind dead time, state processors and stacked processors); a legal action history interspersed with "
        "illegal actions of every kind (fault: a client sending garbage) or with duty cycles outside of the range; the outcome is "
        "compared with a twin that only got the legal or clipped actions, and output voltages with the supply; non-trivial when "
        "at least one action was illegal or saturated")
BAD1 = ["neg", "n", "big", "float", "frac", "str", "none", "list", "arr1", "nan", "npfloat", "tuple"]
BADB = ["short", "str", "none", "scalar"]
BADM = ["neg", "n", "big", "short", "long", "scalar", "str", "none", "2d", "last"]


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.5, ref=0.3, reward=0.2, constraints=0.5, vis=0.03, filter=0.1, supply=0.4,
                       supply_kinds=("Ideal", "RC", "AC1"), conv=0.8, solver=0.3)
    a, _, m = spec.split(cfg)
    if a == "Cont" and m in ("PMSM", "SynRM", "EESM") and rng.random() < 0.2:
        cfg["wrappers"] = [w for w in cfg.get("wrappers", []) if w["$"] not in ("DqToAbc",)] + [{"$": "DqToAbc"}]
        if any(w.get("remove_angle") for w in cfg["wrappers"]):
            cfg["wrappers"] = [{"$": "DqToAbc"}]
        cfg.pop("filter", None)
        for k in ("constraints", "ref", "reward"):
            cfg.pop(k, None)
    space = spec.action_space(cfg)
    ops = gen_ops(rng, cfg, episodes=(1, 3), steps=(4, 20))
    out = []
    for op in ops:
        out.append(op)
        if space[0] != "box":
            while rng.random() < 0.25:
                out.append(["bad", rng.choice(BAD1 if space[0] == "discrete" else BADM)])
        elif op[0] == "s" and rng.random() < 0.4:
            out[-1] = ["s", [v if rng.random() < 0.3 else
                             rng.choice([-1, 1]) * rng.choice([1.0000001, 1.2, 2.0, 17.0, 1e6, 1e30]) for v in op[1]]]
        if space[0] == "box" and op[0] == "s" and rng.random() < 0.1 and not any(w["$"] == "DeadTimeProcessor" for w in cfg.get("wrappers", [])):
            out.insert(len(out) - rng.randint(0, 1), ["bad", rng.choice(BADB)])
    return {"cfg": cfg, "ops": out, "f32": rng.random() < 0.15}


def illegal(kind, space):
    k, s = space
    if k == "discrete":
        return {"neg": -1, "n": s, "big": 10**6, "float": 1.0, "frac": 0.5, "str": "1", "none": None, "list": [0],
                "arr1": np.array([0]), "nan": float("nan"), "npfloat": np.float64(1.0), "tuple": (0, 1)}[kind]
    n = len(s)
    if k == "box":
        return {"short": np.zeros(n - 1), "str": "ab", "none": None, "scalar": 0.0}[kind]
    z = [0] * n
    return {"neg": np.array([0] * (n - 1) + [-1]), "n": np.array([s[0]] + [0] * (n - 1)), "big": np.array([10**6] * n),
            "short": np.array(z[:-1]), "long": np.array(z + [0]), "scalar": 0, "str": "ab"[:n], "none": None,
            "2d": np.array([z]), "last": np.array([1] * (n - 1) + [s[-1]])}[kind]


class Volts:
    """Range of the output voltages for the supply voltage reported in the same state."""

    def __init__(self, cfg, d):
        _, _, m = spec.split(cfg)
        self.ps = d.u.physical_system
        self.names = list(self.ps.state_names)
        self.lim = [float(x) for x in self.ps.limits]
        self.kinds, self.m = {}, m
        ts = spec.conv_types(cfg)
        if m in spec.DC:
            for n, t in zip(spec.MOTORS[m]["volt"], ts):
                self.kinds[n] = t
        else:
            for n in self.names:
                if n[:2] == "u_" and n[-1] in "abc":
                    self.kinds[n] = "B6"
            if m == "EESM":
                self.kinds["u_e"] = ts[1]

    def check(self, ctx, s):
        o = {n: v * li for n, v, li in zip(self.names, s, self.lim)}
        us = o["u_sup"]
        for n, t in self.kinds.items():
            # (zero sequence components of averaged bridges do not reach the motor but count for the leg)
            lo, hi = {"1QC": (0, us), "2QC": (0, us), "4QC": (-us, us), "B6": (-us / 2, us / 2)}[t]
            lo, hi = min(lo, hi), max(lo, hi)
            e = 1e-9 * (abs(us) + self.lim[self.names.index(n)])
            ctx.check(lo - e <= o[n] <= hi + e, "beyond-supply", lambda: f"{n} = {o[n]} with a supply of {us}")
        if "u_sd" in o:
            v = math.hypot(o["u_sd"], o["u_sq"])
            ctx.check(v <= abs(us) * 2 / 3 * (1 + 1e-9) + 1e-9, "beyond-supply", lambda: f"|u_dq| = {v} with a supply of {us}")


def run(sc, ctx):
    cfg = sc["cfg"]
    space = spec.action_space(cfg)
    dq = any(w["$"] == "DqToAbc" for w in cfg.get("wrappers", []))
    box = space[0] == "box"
    full = [None]

    class Tap(gem.core.Callback):
        def on_reset_end(self, state, reference):
            full[0] = None

        def on_step_end(self, k, state, reference, reward, terminated):
            full[0] = np.array(state, float)
    d, t = Drive(cfg, ctx, callbacks=[Tap()]), Drive(cfg)
    if box:
        for dr in (d, t):
            ctx.check(dr.space.shape == (len(space[1]),), "space", f"{dr.space}")
    volts = Volts(cfg, d)
    for op in sc["ops"]:
        if op[0] == "r":
            d.reset(op[1]), t.reset(op[1])
            continue
        if d.terminated:
            continue
        if op[0] == "bad":
            a = illegal(op[1], space)
            try:
                d.env.step(a)
            except Exception:
                ctx.fault(f"illegal-{op[1]}")
                ks = d.u.physical_system.k, t.u.physical_system.k
                ctx.check(ks[0] == ks[1], "refusal-left-traces", f"step counter {ks[0]} instead of {ks[1]} after a refused action")
                continue
            if box:        # what else a continuous drive accepts is not specified
                return
            ctx.check(False, "not-refused", f"the illegal action {a!r} was accepted by {d.space}")
        a = op[1]
        if box:
            x = np.array(a, dtype=np.float32 if sc["f32"] else np.float64)
            a = [float(v) for v in x]
            c = [float(min(max(v, lo), hi)) for v, (lo, hi) in zip(a, space[1])]
            if c != a:
                ctx.fault("saturated")
            (s, r), rew, term, trunc, info = d.env.step(x)
            d.trace.append(("step", np.array(s, float), np.array(r, float), float(rew), bool(term), bool(trunc)))
            d.terminated = bool(term)
            ctx.steps += 1
            ctx.sim_time += d.tau
            ctx.log(d.trace[-1])
            if dq:
                t.step(x)
            else:
                t.step(np.array(c, dtype=x.dtype) if sc["f32"] else c)
        else:
            d.step(a)
            t.step(a)
        if np.all(np.isfinite(full[0])):
            volts.check(ctx, full[0])
        if dq:
            x = diff(t.trace[-1:], d.trace[-1:], 0.0, "legal twin vs this:")
            ctx.check(x is None, "refusal-left-traces", lambda: f"{x}; action {a}")
        else:
            if sc["f32"] and box:   # (single precision arithmetic)
                if d.terminated != t.terminated:
                    return
                x = diff([t.trace[-1][:2]], [d.trace[-1][:2]], 1e-5, "legal twin vs this:")
            else:
                x = diff(t.trace[-1:], d.trace[-1:], 0.0, "legal twin vs this:")
            ctx.check(x is None, "not-clipped" if box else "refusal-left-traces", lambda: f"{x}; action {a}")
    if not dq and not (sc["f32"] and box):
        x = diff(t.trace, d.trace, 0.0, "legal twin vs this:")
        ctx.check(x is None, "not-clipped" if box else "refusal-left-traces", lambda: x)
