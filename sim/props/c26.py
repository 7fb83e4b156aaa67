"""C26 A designed controller computes its documented cascade at every instant of every history."""
import cmath
import math
import warnings

import gem_controllers as gc
import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from gym_electric_motor import visualization as vz
from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot

from .. import build, spec
from ..core import Skip
from . import c21

ID = "C26"
COUNT = {"quick": 700, "thorough": 9000}
CAP = {"quick": 60, "thorough": 780}
RULE = ("random supported drive, base controllers (P, PI, PID, three point), tuning, margin, decoupling and dead time; histories of "
        "states and references (uniform, corners, walks, small errors, closed loops) with sensor glitches and resets at random "
        "positions; every action is compared with an independent executable model of the cascade; some runs control a rendered "
        "environment twice, with and without plotted references, and read the dashboard's figures; non-trivial when at least 20 "
        "actions were compared, some of them within the limits")
STATES = "configuration x phase of the history x saturated or not x quantised action"
REAL = ["gem_controllers", "gym_electric_motor (the controlled environment)"]
STUBS = ["the plant, in the histories that are not closed loops (states and references are drawn from the announced spaces)"]
ASSUMPTIONS = ["limits and spaces announced by the environment are taken as given (C06)",
               "the operating point of three-phase torque controllers is taken from the controller (C23 judges it)",
               "an instant at which rounding decides (a value within 1e-9 of a bound) ends the comparison until the next reset"]
RECHECK = 12

CUR = {"SeriesDc": ["i"], "ShuntDc": ["i_a"], "PermExDc": ["i"], "ExtExDc": ["i_a", "i_e"], "EESM": ["i_sd", "i_sq", "i_e"]}
VOLT = {"SeriesDc": ["u"], "ShuntDc": ["u"], "PermExDc": ["u"], "ExtExDc": ["u_a", "u_e"], "EESM": ["u_sd", "u_sq", "u_e"]}


class Rounding(Exception):
    """Rounding decides what happens next."""


def gen(rng, tier):
    while True:
        cfg, c = c21.gen_one(rng)
        _, t, m = spec.split(cfg)
        if m in spec.DC and t == "CC" and rng.random() < 0.4:
            continue
        break
    if rng.random() < 0.7 and c["base_current_controller"] == "ThreePoint":
        c["base_current_controller"] = rng.choice(["PI", "PID"])
    if any(w["$"] == "DeadTimeProcessor" for w in cfg.get("wrappers", [])):
        cfg["wrappers"] = [{"$": "DeadTimeProcessor", "steps": rng.randint(1, 3)}]
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.1:
            ops.append(["glitch", rng.randint(1, 3), rng.randrange(2**31), rng.choice(["wild", "zero"])])
        elif r < 0.3:
            ops.append(["reset"])
        elif r < 0.5:
            ops.append(["loop", rng.randint(3, 40), rng.randrange(2**31)])
        elif r < 0.75:
            ops.append(["small", rng.randint(3, 25), rng.randrange(2**31), rng.choice([1e-5, 1e-4, 1e-3, 1e-2, 0.1])])
        else:
            ops.append([rng.choice(["rand", "corner", "walk", "hold"]), rng.randint(1, 15), rng.randrange(2**31)])
    sc = {"cfg": cfg, "c": c, "ops": ops}
    if t != "CC" and m != "EESM" and rng.random() < (0.3 if m in spec.DC else 0.15):
        cur = CUR.get(m, ["i_sd", "i_sq"])
        sc["plot"] = {"states": [x for x in ["torque"] + cur if rng.random() < 0.85] + ["omega"], "width": rng.choice([5, 7, 20, 50]),
                      "refs": rng.random() < 0.8, "every": rng.choice([4, 13, 40]), "mode": rng.choice([None, "Figure", "FigureOnce"]),
                      "render": rng.random() < 0.5, "episodes": [rng.randint(2, 25) for _ in range(rng.randint(1, 2))],
                      "look": rng.choice([7, 11, 17]), "seed": rng.randrange(2**31)}
        if t == "SC":
            sc["plot"]["states"].remove("omega")
            sc["plot"]["states"] += ["omega"] * (rng.random() < 0.5 or not sc["plot"]["states"])
    return sc


class Base:
    """u = p e + i sum(e) tau + d de/dt, or three points."""

    def __init__(self, kind, gain, t_i, tau, lo, hi):
        self.kind, self.p, self.tau, self.lo, self.hi = kind, gain, tau, lo, hi
        self.i = gain / t_i
        self.hyst = 0.01 * (hi - lo)
        self.reset()

    def reset(self):
        self.sum, self.last = np.zeros(len(self.p)), np.zeros(len(self.p))

    def __call__(self, x, r):
        """Output and the size of its terms."""
        e = r - x
        if self.kind == "ThreePoint":
            if np.any(np.abs(np.abs(e) - self.hyst) <= 1e-9 * (np.abs(x) + np.abs(r))):
                raise Rounding
            return np.where(e > self.hyst, self.hi, np.where(e < -self.hyst, self.lo, 0.0)), np.abs(self.hi)
        u, size = self.p * e, self.p * (np.abs(x) + np.abs(r))
        if self.kind in ("PI", "PID"):
            u, size = u + self.i * self.sum, size + self.i * np.abs(self.sum)
        if self.kind == "PID":
            u, size = u + self.p * (e - self.last), size + self.p * np.abs(self.last)   # d = p tau
            self.last = e
        return u, size

    def integrate(self, x, r, free):
        self.sum = self.sum + self.tau * (r - x) * free


def clip(u, lo, hi, size):
    v = np.minimum(np.maximum(u, lo), hi)
    if np.any(((np.abs(u - lo) <= 1e-9 * size) | (np.abs(u - hi) <= 1e-9 * size)) & ~((u == lo) | (u == hi))):
        raise Rounding
    return v, u == v


class Model:
    def __init__(self, cfg, c, u):
        a, t, m = spec.split(cfg)
        self.cfg, self.c, self.a, self.t, self.m = cfg, c, a, t, m
        P = self.P = u.physical_system.electrical_motor.motor_parameter
        self.names, self.lim = list(u.state_names), np.asarray(u.limits, float)
        lo, hi = [np.asarray(x, float) * self.lim for x in (u.observation_space[0].low, u.observation_space[0].high)]
        self.tau = tau = u.physical_system.tau
        ix = self.names.index
        self.rix = [ix(n) for n in u.reference_names]
        self.cur = [ix(n) for n in CUR.get(m, ["i_sd", "i_sq"])]
        self.vix = [ix(n) for n in VOLT.get(m, ["u_sd", "u_sq"])]
        self.lo, self.hi, self.vlim = lo[self.vix], hi[self.vix], self.lim[self.vix]
        g = 1 - c["current_safety_margin"]
        self.clo, self.chi = lo[self.cur] * g, hi[self.cur] * g
        k = c["a"]
        self.base = Base(c["base_current_controller"], np.array(c21.induct(m, P) * (2 if m == "SCIM" else 1)) / (tau * k), tau * k**2,
                         tau, self.lo, self.hi)
        self.omega = ix("omega")
        if t == "SC":
            self.T = np.array([ix("torque")])
            if c["base_current_controller"] in ("PI", "PID"):
                t_n = tau * k**2
            else:
                t_n = min(self.time_constants())
            self.tlo, self.thi = lo[self.T], hi[self.T]
            self.speed = Base(c["base_speed_controller"], np.array([u.physical_system.mechanical_load.j_total / (k * t_n)]), k * t_n, tau,
                              self.tlo, self.thi)
        if m in spec.AC:
            self.p = P["p"]
            self.angle = ix("psi_angle" if m == "SCIM" else "epsilon")
            self.advance = 0.5 + sum(w["steps"] for w in cfg.get("wrappers", []) if w["$"] == "DeadTimeProcessor")
            self.out = self.lim[[ix(n) for n in (("u_sa", "u_sb", "u_sc") if m == "SCIM" else ("u_a", "u_b", "u_c"))]
                                + ([ix("u_sup")] if m == "EESM" else [])]
        else:
            self.out = self.vlim
            if a == "Finite":
                sp = spec.action_space(cfg)
                self.n = np.array([sp[1]] if sp[0] == "discrete" else sp[1])
        self.reset()

    def time_constants(self):
        P, m = self.P, self.m
        if m == "SeriesDc":
            return [(P["l_a"] + P["l_e"]) / (P["r_a"] + P["r_e"])]
        if m in spec.DC:
            return [P["l_a"] / P["r_a"]] + ([P["l_e"] / P["r_e"]] if m == "ExtExDc" else [])
        if m == "SCIM":
            return [P["l_sigs"] / P["r_s"], P["l_sigr"] / P["r_r"]]
        return [P["l_q"] / P["r_s"], P["l_d"] / P["r_s"]] + ([P["l_e"] / P["r_e"]] if m == "EESM" else [])

    def reset(self):
        self.base.reset()
        if self.t == "SC":
            self.speed.reset()

    def get(self, x, n):
        return x[self.names.index(n)]

    def currents(self, x, T):
        """Currents for a torque (direct current motors)."""
        P, m, w = self.P, self.m, x[self.omega]
        if m == "PermExDc":
            psi = P["psi_e"]
            top = (self.vlim - psi * abs(w)) / P["r_a"]
            return np.minimum(T / psi, top) if w > 0 else np.maximum(T / psi, -top)
        if m == "SeriesDc":
            return np.sqrt(T / P["l_e_prime"])
        i_e = self.get(x, "i_e")
        if m == "ShuntDc":
            g = 1 - self.c["current_safety_margin"]
            top, i_top = self.get(self.lim, "i_e") * g, self.get(self.lim, "i_a") * g
            if abs(i_e) > top:
                return np.array([-i_top if i_e > 0 else i_top])
            if abs(i_e) < 1e-4:
                i_e = 1e-4 if i_e >= 0 else -1e-4
            return T / P["l_e_prime"] / i_e
        return np.array([T[0] / P["l_e_prime"] / max(i_e, 1e-4), math.sqrt(math.sqrt(P["r_a"] / P["r_e"]) * abs(T[0]) / P["l_e_prime"])])

    def emf(self, x, u):
        """Voltages including the compensation of the induced ones, size of the terms."""
        P, m, w = self.P, self.m, x[self.omega]
        i = [x[j] for j in self.cur]
        if m == "SeriesDc":
            v = [P["l_e_prime"] * i[0] * w]
        elif m == "PermExDc":
            v = [P["psi_e"] * w]
        elif m == "ShuntDc":
            v = [P["l_e_prime"] * self.get(x, "i_e") * w]
        elif m == "ExtExDc":
            v = [P["l_e_prime"] * i[1] * w, 0.0]
        elif m in ("PMSM", "SynRM"):
            w *= self.p
            v = [-w * P["l_q"] * i[1], w * (P["l_d"] * i[0] + P.get("psi_p", 0.0))]
        elif m == "SCIM":
            w *= self.p
            psi, l_r, l_m = self.get(x, "psi_abs"), P["l_m"] + P["l_sigr"], P["l_m"]
            slip = P["r_r"] * l_m / l_r * i[1] / max(abs(psi), 1e-4) * np.sign(psi)
            l_s = c21.induct(m, P)[0]
            v = [-(w + slip) * l_s * i[1] - l_m * P["r_r"] / l_r**2 * psi, (w + slip) * l_s * i[0] + w * l_m / l_r * psi]
        else:   # the stator's d axis and the excitation are coupled: u = (u0 + coupled voltages) with one pass of the transformer
            w *= self.p
            l_m, l_d, l_e = P["l_m"], P["l_d"], P["l_e"]
            sig = 1 - 1.5 * l_m**2 / (l_d * l_e)
            d = u[0] + (-w * P["l_q"] * i[1] - l_m * P["r_e"] / l_e * i[2]) / sig
            q = u[1] + w * (P["l_d"] * i[0] + l_m * i[2])
            e = u[2] + (1.5 * l_m * P["l_q"] / l_d * w * i[1] - 1.5 * l_m * P["r_s"] / l_d * i[0]) / sig
            v = np.array([d + l_m / l_e * e, q, e + 1.5 * l_m / l_d * d]) - u
        v = np.array(v)
        return u + v, np.abs(u) + np.abs(v)

    def limit(self, u, size):
        """Limited voltages, which of them were not limited."""
        if self.m in spec.DC:
            return clip(u, self.lo, self.hi, size)
        k = 2
        n = math.hypot(*(u[:k] / self.vlim[:k]))
        if abs(n - 1) <= 1e-9 * (1 + np.max(size[:k] / self.vlim[:k])):
            raise Rounding
        f = 1 / n if n >= 1 else 1.0
        v, free = u * f, np.full(len(u), f == 1.0) | (u == 0)
        if self.m == "EESM":
            v[2:], free[2:] = clip(u[2:], self.lo[2:], self.hi[2:], size[2:])
        return v, free

    def act(self, s, r, real):
        """Action for normalised observations, tolerance, True when nothing is saturated."""
        x, r = s * self.lim, r * self.lim[self.rix]
        ok = True
        self.refs = {}
        if self.t == "SC":
            w = x[[self.omega]]
            T, size = self.speed(w, r)
            T, free = clip(T, self.tlo, self.thi, size)
            self.speed.integrate(w, r, free)
            ok &= bool(free.all())
            r = T
            self.refs["torque"] = float(T[0])
        if self.t != "CC":
            if self.m in spec.AC:
                r = real()
                if self.m == "EESM":
                    raise Skip("not modelled")
                n = math.hypot(*(r / self.lim[self.cur]))
                if n > 1 - self.c["current_safety_margin"] + 1e-9:
                    return None, n, ok
            else:
                r = np.minimum(np.maximum(self.currents(x, r), self.clo), self.chi)
            self.refs.update((self.names[j], float(v)) for j, v in zip(self.cur, r))
        i = x[self.cur]
        u, size = self.base(i, r)
        if self.c["decoupling"]:
            u, size2 = self.emf(x, u)
            size = size + size2
        v, free = self.limit(u, size)
        self.base.integrate(i, r, free)
        ok &= bool(free.all())
        tol = 1e-9 * (1 + float(np.max(size / self.vlim)))
        if self.m in spec.AC:
            z = complex(*v[:2]) * cmath.exp(1j * (x[self.angle] + self.advance * self.tau * self.p * x[self.omega]))
            v = np.array([(z * cmath.exp(-2j * math.pi * k / 3)).real for k in range(3)] + list(v[2:]))
        elif self.a == "Finite":
            level = 0.33 * (self.hi - self.lo)
            if np.any(np.abs(np.abs(v) - level) <= 1e-9 * (level + size)):
                return None, None, ok
            return np.where(v >= level, 1, np.where(v <= -level, np.where(self.n == 2, 0, 2), 0)), 0.0, ok
        return v / self.out, tol, ok


def small(u, ref, seg):
    """Nearly controlled: references close to their quantities, low speed."""
    _, n, seed, size = seg
    g = np.random.default_rng(seed)
    (sl, sh), (rl, rh) = [(np.asarray(x.low, float), np.asarray(x.high, float)) for x in u.observation_space]
    s = g.uniform(sl, sh)
    s[0] *= 10.0 ** g.uniform(-3, 0)
    slow = s.copy()
    for _ in range(n):
        s = np.clip(slow + g.normal(0, 1, len(sl)) * size * 0.1, sl, sh)
        r = np.clip(s[ref] + g.normal(0, 1, len(ref)) * size, rl, rh)
        yield s.copy(), r


def to_env(a, x):
    x = np.asarray(x)
    return x.astype(int) if hasattr(a.space, "nvec") else int(np.ravel(x)[0]) if hasattr(a.space, "n") else x


def plotting(sc, ctx):
    """The references of the subordinate stages in the dashboard of the controlled environment."""
    cfg, c, p = sc["cfg"], sc["c"], sc["plot"]
    matplotlib.use("Agg")
    plt.pause = lambda *_: None
    mode = {None: None, "Figure": vz.render_modes.RenderMode.Figure, "FigureOnce": vz.render_modes.RenderMode.FigureOnce}[p["mode"]]
    board = vz.MotorDashboard(mode, state_plots=list(p["states"]), update_interval=p["every"], time_plot_width=p["width"])
    plain, shown = c21.Unit(cfg, c, ctx), c21.Unit(cfg, {**c, "should_plot": True, "plot_references": p["refs"]}, ctx, board)
    mod = Model(cfg, c, shown.u)
    inner = shown.c.controller
    cascade = getattr(inner, "torque_controller", inner)
    labels = {StatePlot.state_labels.get(n, n): n for n in p["states"]}
    hist, k, w = {}, 0, p["width"]
    drawn = None    # step of the first rendering

    def look():
        nonlocal drawn
        board.force_render()
        first, drawn = drawn is None, k if drawn is None else drawn
        axes = {labels[ax.get_ylabel()]: ax for f in board._figures for ax in f.axes if ax.get_ylabel() in labels}
        ctx.check(set(axes) == set(p["states"]), "plot", lambda: f"plots of {sorted(axes)} for {p['states']}")
        for n, ax in axes.items():
            own = n in shown.u.reference_names
            data = [ln for ln in ax.lines if len(ln.get_xdata()) == w]
            flat = [float(ln.get_ydata()[0]) for ln in ax.lines if len(ln.get_xdata()) == 2 and ln.get_ydata()[0] == ln.get_ydata()[-1]]
            if own or not p["refs"] or n not in mod.refs:
                ctx.check(len(data) == 1 + own, "plotted-reference", lambda: f"{cfg['id']} {p}: {len(data) - 1} references are plotted for {n}")
                continue
            j = mod.names.index(n)
            scale = float(mod.lim[j])
            want = [(q * mod.tau, hist[q][n]) for q in range(max(0, k - w + 1), k + 1) if hist[q]]
            found = [dict(zip(np.round(np.asarray(ln.get_xdata(orig=True)) / mod.tau).astype(int).tolist(), ln.get_ydata(orig=True)))
                     for ln in data]
            ctx.check(any(all(abs(y - d.get(round(x / mod.tau), math.nan)) <= 1e-6 * (scale + abs(y)) for x, y in want) for d in found[1:]),
                      "plotted-reference", lambda: f"{cfg['id']} {c} {p}: after {k} steps the references of {n} were {want}, plotted are {found[1:]}")
            ctx.probe("plotted references compared", len(want))
            if mod.m in spec.DC and j in mod.cur and not first and k > drawn + 1:
                i = mod.cur.index(j)
                ctx.check(all(any(abs(f - b) <= 1e-9 * scale for f in flat) for b in (mod.clo[i], mod.chi[i])), "plotted-limit",
                          lambda: f"{cfg['id']} {c}: lines at {flat} for the current references between {mod.clo[i]} and {mod.chi[i]}")

    for e, n in enumerate(p["episodes"]):
        now = [a.env.reset(seed=p["seed"] + e)[0] for a in (plain, shown)]
        for a in (plain, shown, mod):
            a.reset()
        on = True
        for _ in range(n):
            if p["render"]:
                shown.env.render()
            acts = [a.act(*x) for a, x in zip((plain, shown), now)]
            ctx.check(np.array_equal(*acts), "plotting-acts",
                      lambda: f"{cfg['id']} {c}: actions {acts[0]} without and {acts[1]} with plotted references")
            try:
                if on and mod.act(np.array(now[1][0], float), np.array(now[1][1], float),
                                  lambda: np.array(cascade.current_reference, float))[0] is None:
                    on = False
            except Rounding:
                on = False
            hist[k] = dict(mod.refs) if on else None
            if k % p["look"] == 0 and (p["render"] or k):
                look()
            out = [a.env.step(to_env(a, x)) for a, x in zip((plain, shown), acts)]
            k += 1
            now = [o[0] for o in out]
            ctx.check(all(np.array_equal(x, y) for x, y in zip(*now)), "plotting-acts", "the drives went different ways")
            ctx.sim_time += mod.tau
            if out[0][2]:
                break
    hist[k] = None
    look()
    shown.env.close()
    plt.close("all")


def run(sc, ctx):
    warnings.simplefilter("ignore")
    cfg, c = sc["cfg"], sc["c"]
    if sc.get("plot"):
        plotting(sc, ctx)
    a = c21.Unit(cfg, c, ctx)
    mod = Model(cfg, c, a.u)
    inner = a.c.controller
    cascade = getattr(inner, "torque_controller", inner)
    st = {"on": True, "n": 0, "free": 0}

    def step(s, r, seg):
        x = a.act(s, r)
        if x is None or not st["on"]:
            return x
        try:
            want, tol, free = mod.act(np.array(s, float), np.array(r, float), lambda: np.array(cascade.current_reference, float))
        except Rounding:
            st["on"] = False
            ctx.probe("decided by rounding")
            return x
        if want is None:
            if tol is not None:
                ctx.check(False, "current-reference", f"{cfg['id']} {c}: current reference of {tol} times the limit")
            return x
        x = np.atleast_1d(x)
        ctx.check(x.shape == np.shape(want) and bool(np.all(np.abs(x - want) <= tol)), "cascade",
                  lambda: f"{cfg['id']} {c}: action {x.tolist()}, the cascade computes {np.asarray(want).tolist()} for the state "
                          f"{dict(zip(mod.names, np.asarray(s).tolist()))} and reference {np.asarray(r).tolist()} in {seg}")
        st["n"] += 1
        st["free"] += free
        ctx.state(cfg["id"], c["base_current_controller"], seg[0], free, np.round(np.asarray(want, float) * 4).tolist())
        return x

    for seg in sc["ops"]:
        if seg[0] == "reset":
            a.reset()
            mod.reset()
            st["on"] = True
            ctx.fault("controller reset")
        elif seg[0] == "loop":
            (s, r), _ = a.env.reset(seed=seg[2])
            for _ in range(seg[1]):
                x = step(s, r, seg)
                if x is None:
                    break
                (s, r), _, term, _, _ = a.env.step(to_env(a, x))
                ctx.sim_time += mod.tau
                if term:
                    break
        else:
            if seg[0] == "glitch":
                ctx.fault("sensor " + seg[3])
            for s, r in (small(a.u, mod.rix, seg) if seg[0] == "small" else c21.inputs(a.u, seg)):
                step(s, r, seg)
    if st["n"] >= 20 and st["free"]:
        ctx.nontrivial = True
    ctx.probe("actions compared", st["n"])
    ctx.probe("unsaturated actions compared", st["free"])


def shrink(sc):
    from ..run import generic_shrink
    if sc.get("plot"):
        yield {**sc, "plot": None}
        yield {**sc, "ops": []}
        for q in ({"render": False}, {"mode": None}, {"episodes": sc["plot"]["episodes"][:1]}, {"episodes": [2]}):
            yield {**sc, "plot": {**sc["plot"], **q}}
    for j, s in enumerate(sc["ops"]):
        if len(s) > 1 and s[1] > 1:
            yield {**sc, "ops": sc["ops"][:j] + [[s[0], s[1] // 2] + s[2:]] + sc["ops"][j + 1:]}
    yield from generic_shrink(sc)
