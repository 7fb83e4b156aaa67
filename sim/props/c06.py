"""C06 Observations keep the declared layout and are self-consistent."""
import cmath
import math

import numpy as np

from .. import spec
from ..core import Violation
from ..drive import Drive, gen_ops
from ..model import clarke, rot, wrap
from ..parts import Recorder

ID = "C06"
COUNT = {"quick": 1100, "thorough": 15000}
RULE = ("random drive, parameters, solver, topology, interlocking, initial states, wrappers, state filter and action program "
        "with resets, supply dips and load pulses; every observation and every full state handed to a callback is checked "
        "against layout, spaces, and the frame and torque identities; non-trivial when at least 5 steps were checked")


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, motor=0.7, init=0.7, wrappers=0.4, filter=0.35, ref=0.4, reward=0.1, constraints=0.2, vis=0,
                       supply=0.4, load_kinds=("Poly", "Poly", "Const", "Ext"), dead=True)
    _, _, m = spec.split(cfg)
    tau = cfg.get("tau", spec.TAU[spec.split(cfg)[0]])
    if "supply" not in cfg and rng.random() < 0.3:
        u = spec.MOTORS[m]["u"]
        cfg["supply"] = {"$": "DipSupply", "u_nominal": u, "dips": [[(t - 0.5) * tau, (t + rng.randint(1, 8)) * tau,
                         rng.choice([0.0, 0.3, 0.7])] for t in [rng.randint(0, 15) for _ in range(2)]]}
    if rng.random() < .25 and "motor_initializer" not in cfg.get("motor", {}):
        mo = cfg.setdefault("motor", {})
        for q, table in (("limit_values", spec.MOTORS[m]["limits"]), ("nominal_values", spec.MOTORS[m]["nominal"])):
            full = {"u": spec.MOTORS[m]["u"], **table}
            mo[q] = {k: full[k] * rng.uniform(.8, 2.) for k in sorted(full) if rng.random() < .35}
    if len(spec.conv_types(cfg)) > 1 and rng.random() < .3:
        cfg["conv"] = {"til": 0.0, "types": list(spec.conv_types(cfg)), **cfg.get("conv", {}), "by_class": True}
    if rng.random() < .05:
        cfg["vis"] = "class"
    cfg.setdefault("wrappers", [])
    return {"cfg": cfg, "ops": gen_ops(rng, cfg, episodes=(1, 3), steps=(5, 25)), "hook": rng.random() < 0.3}


class Judge:
    def __init__(self, cfg, d, ctx):
        self.cfg, self.ctx, self.d = cfg, ctx, d
        _, _, self.m = spec.split(cfg)
        self.names = spec.all_state_names(cfg)
        self.ps = d.u.physical_system
        ctx.check(list(self.ps.state_names) == self.names, "state-names", f"{self.ps.state_names} != {self.names}")
        self.filt = cfg.get("filter") or self.names
        ctx.check(list(d.u.state_names) == list(self.filt), "filter-names", f"{d.u.state_names}")
        self.lim = dict(zip(self.names, [float(x) for x in self.ps.limits]))
        self.sel = [self.names.index(n) for n in self.filt]
        for what, full, part in (("limits", self.ps.limits, d.u.limits), ("nominal", self.ps.nominal_state, d.u.nominal_state)):
            ctx.check(len(full) == len(self.names) and np.array_equal(np.asarray(full)[self.sel], part), what,
                      f"{what} of the observation {part} != {np.asarray(full)[self.sel]}")
        sp = d.env.observation_space
        ss = self.ps.state_space
        ctx.check(ss.shape == (len(self.names),), "space", f"state space {ss.shape}")
        ctx.check(sp[0].shape == (len(self.filt),) and np.array_equal(sp[0].low, ss.low[self.sel].astype(sp[0].dtype))
                  and np.array_equal(sp[0].high, ss.high[self.sel].astype(sp[0].dtype)), "space", f"{sp[0]} vs {ss}")
        ctx.check(np.all(np.isfinite(self.ps.limits)) and np.all(np.asarray(self.ps.limits) > 0), "limits", f"{self.ps.limits}")
        sup = self.ps.supply
        if "u_sup" in self.names and len(np.atleast_1d(sup.supply_range)) == 2:
            i, (a, b) = self.names.index("u_sup"), sup.supply_range
            ctx.check(abs(ss.low[i] - min(a, 0.) / sup.u_nominal) < 1e-6 and abs(ss.high[i] - b / sup.u_nominal) < 1e-6, "space",
                      f"u_sup from {ss.low[i]} to {ss.high[i]} for a supply from {a} to {b}, nominal {sup.u_nominal}")
        self.par = dict(spec.MOTORS[self.m]["params"])
        self.par.update(cfg.get("motor", {}).get("motor_parameter", {}))
        self.limits_asked()
        self.til = cfg.get("conv", {}).get("til", 0.0)
        self.tau = self.ps.tau
        sv = cfg.get("solver", {"$": "ScipyOdeSolver"})
        self.prev = None

    def limits_asked(self):
        """Limits and nominal values are those configured, specific entries following the general ones; else the defaults."""
        M, load = spec.MOTORS[self.m], self.cfg.get("load", {})
        nom = dict(zip(self.names, [float(x) for x in self.ps.nominal_state]))
        for what, got, default, asked in (("limit", self.lim, M["limits"], "limit_values"),
                                          ("nominal value", nom, M["nominal"], "nominal_values")):
            v = {**default, **self.cfg.get("motor", {}).get(asked, {})}
            if self.m in spec.DC:
                v = {**{k: M["u"] for k in ("u", "u_a", "u_e")}, **v}
            for n in self.names:
                if n == "omega" and "$" in load and load["$"] not in ("ConstantSpeedLoad", "ExternalSpeedLoad", "PolynomialStaticLoad"):
                    continue
                if n in v and n not in ("i_sum", "u_sup") and (n != "torque" or self.m in spec.DC):
                    want = v[n]
                elif self.m in spec.AC and n[0] == "i" and n != "i_sum":
                    want = v["i"]
                elif self.m in spec.AC and n[0] == "u" and n != "u_sup":
                    want = v["u"] / 2
                else:
                    continue
                self.ctx.check(abs(got[n] - want) <= 1e-9 * want, "limits",
                               lambda: f"{what} of {n}: {got[n]} announced, {want} expected from {self.cfg.get('motor')}")

    def obs(self, s, r, full):
        c = self.ctx
        sp = self.d.env.observation_space
        c.check(isinstance(s, np.ndarray) and s.shape == sp[0].shape and s.dtype == np.float64, "layout",
                lambda: f"state part {type(s)} {getattr(s, 'shape', None)} {getattr(s, 'dtype', None)} for {sp[0]}")
        c.check(isinstance(r, np.ndarray) and r.shape == sp[1].shape and np.issubdtype(r.dtype, np.floating), "layout",
                lambda: f"reference part {r!r} for {sp[1]}")
        c.check(len(full) == len(self.names), "layout", lambda: f"full state of length {len(full)}")
        c.check(np.array_equal(np.asarray(full)[self.sel], s, equal_nan=True), "filter",
                lambda: f"observation {s} is not the announced selection {self.filt} of {full}")

    def state(self, full, reset):
        """Identities of one instant; returns False when the run left any physical range."""
        c, m, P = self.ctx, self.m, self.par
        if not all(math.isfinite(v) for v in full):
            if self.prev is not None and max(abs(v) for v in self.prev.values()) > 1e6:
                return False   # explicit integration of a stiff system outside of its stability region
            p = self.prev or {}
            if max([abs(v / self.lim[k]) for k, v in p.items()] or [0]) > 20:
                return False
            raise Violation("not-finite", f"{dict(zip(self.names, full))}")
        o = {n: v * self.lim[n] for n, v in zip(self.names, full)}
        if max(abs(v) for v in full) > 1e3:
            self.prev = o
            return False
        sc = max(1.0, max(abs(v) for v in full))

        def eq(a, b, scale, what, tol=1e-6):
            c.check(abs(a - b) <= tol * sc * scale, "identity", lambda: f"{what}: {a!r} != {b!r} in {o}")
        lim = self.lim
        if m not in spec.AC:
            t = {"PermExDc": lambda: P["psi_e"] * o["i"], "SeriesDc": lambda: P["l_e_prime"] * o["i"] ** 2,
                 "ShuntDc": lambda: P["l_e_prime"] * o["i_a"] * o["i_e"],
                 "ExtExDc": lambda: P["l_e_prime"] * o["i_a"] * o["i_e"]}[m]()
            eq(o["torque"], t, max(lim["torque"], abs(t)), "torque")
        else:
            self.ac(o, eq, reset)
        if "i_sum" in o:
            w = next((w for w in self.cfg["wrappers"] if w["$"] == "CurrentSumProcessor"), {"currents": ["i_a", "i_e"]})
            eq(o["i_sum"], sum(o[n] for n in w["currents"]), lim["i_sum"], "i_sum")
        if "cos(epsilon)" in o:
            eq(o["cos(epsilon)"] ** 2 + o["sin(epsilon)"] ** 2, 1.0, 1.0, "cos^2+sin^2")
            if "epsilon" in o:
                eq(o["cos(epsilon)"], math.cos(o["epsilon"]), 1.0, "cos")
                eq(o["sin(epsilon)"], math.sin(o["epsilon"]), 1.0, "sin")
        self.prev = o
        return True

    def ac(self, o, eq, reset):
        c, m, P, lim = self.ctx, self.m, self.par, self.lim
        if "epsilon" in o:
            c.check(abs(o["epsilon"]) <= math.pi * (1 + 1e-12), "angle", lambda: f"epsilon {o['epsilon']}")
            eps = o["epsilon"]
        else:
            eps = math.atan2(o["sin(epsilon)"], o["cos(epsilon)"])
        if "psi_angle" in o:
            c.check(abs(o["psi_angle"]) <= math.pi * (1 + 1e-12), "angle", lambda: f"psi_angle {o['psi_angle']}")
        o["_eps"] = eps
        pre = "s" if m in spec.IM else ""

        def abc(q, x=None):
            x = pre if x is None else x
            return [o[f"{q}_{x}{k}"] for k in "abc"]

        def dq(q, x="s"):
            return complex(o[f"{q}_{x}d"], o[f"{q}_{x}q"])
        il = lim["i_sd"]
        eq(sum(abc("i")), 0.0, il, "sum of phase currents")
        i_ab, i_dq = clarke(abc("i")), dq("i")
        u_ab, u_dq = clarke(abc("u")), dq("u")
        ul = lim["u_sd"] + lim[f"u_{pre}a"]
        eq(abs(i_ab), abs(i_dq), il, "|i_alphabeta| vs |i_dq|")
        eq(abs(u_ab), abs(u_dq), ul, "|u_alphabeta| vs |u_dq|")
        frame = eps
        if m in spec.SYNC:
            z = rot(i_dq, eps)
            eq(z.real, i_ab.real, il, "i_alpha from i_dq and epsilon")
            eq(z.imag, i_ab.imag, il, "i_beta from i_dq and epsilon")
            iex = P["l_m"] * o["i_e"] if m == "EESM" else P.get("psi_p", 0.0)
            t = 1.5 * P["p"] * (iex + (P["l_d"] - P["l_q"]) * i_dq.real) * i_dq.imag
            eq(o["torque"], t, max(lim["torque"], abs(t)), "torque")
        else:
            k = P["l_m"] / (P["l_m"] + P["l_sigr"])
            frame = None
            if abs(i_ab) > 1e-4 * il:
                frame = cmath.phase(i_ab / i_dq)
            if m == "DFIM":
                i_r = dq("i", "r")
                r_ab = clarke(abc("i", "r"))
                rl = lim["i_rd"]
                eq(abs(r_ab), abs(i_r), rl, "|i_r alphabeta| vs |i_r dq|")
                u_r, ur_ab = dq("u", "r"), clarke(abc("u", "r"))
                eq(abs(u_r), abs(ur_ab), lim["u_rd"] + lim["u_ra"], "|u_r|")
                psi = (P["l_m"] + P["l_sigr"]) * i_r + P["l_m"] * i_dq
                o["_psi"] = abs(psi)
                scale = (P["l_m"] + P["l_sigr"]) * rl + P["l_m"] * il
                eq(psi.imag, 0.0, scale, "rotor flux across the field direction (field orientation)")
                t = 1.5 * P["p"] * k * psi.real * i_dq.imag
                eq(o["torque"], t, max(lim["torque"], abs(t)), "torque")
                if frame is not None:
                    z = rot(r_ab, eps - frame)
                    e = 1e-6 * il / abs(i_ab) * 1e-2 + 1e-6
                    eq(z.real, i_r.real, rl, "i_rd from rotor phase currents", e)
                    eq(z.imag, i_r.imag, rl, "i_rq from rotor phase currents", e)
            else:
                # torque has the sign of i_sq, rotor flux is positive along d
                c.check(o["torque"] * i_dq.imag >= -1e-9 * lim["torque"] * il, "identity", lambda: f"sign of torque and i_sq: {o}")
        # voltages were transformed with the angle at the begin of the last switching slice
        f0 = None
        if not reset and self.prev is not None and "_frame" in self.prev and self.prev["_frame"] is not None:
            f0 = self.prev["_frame"]
        if f0 is not None and frame is not None and abs(u_dq) > 1e-6 * ul:
            turn = wrap(frame - f0)
            got = wrap(cmath.phase(u_ab / u_dq) - f0)
            lo, hi = (0.0, 0.0) if not self.til else (min(turn, 0.0), max(turn, 0.0))
            tol = 1e-5 + 1e-6 * ul / abs(u_dq)
            if m in spec.IM:
                tol += 1e-6 * il / min(abs(i_ab), self.prev["_i"])
            if m in spec.SYNC or (abs(turn) < 0.5 and self.til == 0):
                c.check(lo - tol <= got <= hi + tol or abs(abs(turn) - math.pi) < 0.3 and self.til, "voltage-frame",
                        lambda: f"u_dq is rotated by {got} against the begin of the period, allowed {lo}..{hi}: {o}")
        o["_frame"] = frame
        o["_i"] = abs(i_ab)


def run(sc, ctx):
    cfg = sc["cfg"]
    rec = Recorder()
    d = Drive(cfg, ctx, callbacks=[rec])
    j = Judge(cfg, d, ctx)
    off = False
    n = 0
    for op in sc["ops"]:
        if op[0] == "r":
            ob, _ = d.env.reset(seed=op[1]) if op[1] is not None else d.env.reset()
            d.terminated = False
            ctx.resets += 1
            j.prev = None
            full = rec.events[-1][2]
            j.obs(ob[0], ob[1], full)
            off = not j.state(full, True)
            n = 0
        else:
            if d.terminated:
                continue
            from .. import build
            ob, rew, term, trunc, info = d.env.step(build.to_action(d.space, op[1]))
            ctx.steps += 1
            ctx.sim_time += d.tau
            d.terminated = bool(term)
            full = rec.events[-1][3]
            ctx.check(isinstance(info, dict), "layout", "info is not a dict")
            ctx.check(np.ndim(rew) == 0, "layout", f"reward {rew!r}")
            j.obs(ob[0], ob[1], full)
            if not off:
                off = not j.state(full, False)
            n += 1
            if n >= 5:
                ctx.nontrivial = True
        ctx.log(ob[0], ob[1])
        ctx.obs_state(d.tag, ob[0])
        del rec.events[:]
    if cfg.get("supply", {}).get("$") == "DipSupply":
        f = d.u.physical_system.unwrapped.supply.fired
        if f:
            ctx.fault("supply-dip", f)
