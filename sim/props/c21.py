"""C21 Controllers command admissible actions and start clean."""
import math
import warnings

import gem_controllers as gc
import numpy as np

from .. import build, model, parts, spec
from ..core import Skip, same

ID = "C21"
COUNT = {"quick": 800, "thorough": 3500}
RULE = ("random supported drive, base controllers and tuning; histories of announced states and references (uniform, corners, "
        "walks, closed loop) with sensor glitches (NaN, infinities, wild values, stuck) and resets at random positions, read-only "
        "inputs, overwritten outputs, other controllers working in between; a used and reset controller is compared with a newly "
        "designed one; non-trivial when at least 20 actions were judged and one glitch or reset happened")
STATES = "configuration x phase of the history x quantised action"
REAL = ["gem_controllers", "gym_electric_motor (the controlled environment)"]
STUBS = ["the plant, in the histories that are not closed loops (states and references are drawn from the announced spaces)"]
ASSUMPTIONS = ["finite AC drives and the DFIM have no controller (NotImplementedError)",
               "between a non-finite sensor value and the next reset only termination of the call is required",
               "EESM only with a leakage factor that describes a physical machine, current control and a four quadrant "
               "excitation converter (its state space announces negative excitation voltages for every converter)"]
RECHECK = 12
BASE = ["PI", "PI", "PID", "P", "ThreePoint"]
MOT = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc", "PMSM", "SynRM", "SCIM", "EESM"]


def supported(a, t, m):
    return m in spec.DC or (a == "Cont" and m != "DFIM" and (m != "EESM" or t == "CC"))


def gen_one(rng):
    while True:
        a, t, m = rng.choice(["Finite", "Cont", "Cont"]), rng.choice(["CC", "TC", "SC"]), rng.choice(MOT)
        if supported(a, t, m) and not (m in spec.AC and t != "CC" and rng.random() < 0.6):   # tables are slow to build
            break
    cfg = spec.gen_cfg(rng, motors=[m], action=a, task=t, supply=0.3, supply_kinds=("Ideal",), conv=0.5, motor=0.3, init=0.0,
                       wrappers=0, ref=0, reward=0, constraints=0, filter=0, vis=0, solver=0, load=0.3,
                       load_kinds=("Poly", "Const"))
    if m == "EESM":
        cfg["motor"] = {"motor_parameter": {"l_m": 1e-3}}
        cfg.pop("conv", None)
    if m == "SCIM":
        cfg["wrappers"] = [{"$": "FluxObserver"}]
    elif rng.random() < 0.15:
        cfg["wrappers"] = [{"$": "DeadTimeProcessor", "steps": 1}]
    c = {"base_current_controller": rng.choice(BASE), "base_speed_controller": rng.choice(BASE),
         "decoupling": rng.random() < 0.75, "current_safety_margin": rng.choice([0.0, 0.1, 0.2, 0.2, 0.5]),
         "a": rng.choice([2, 3, 4, 4, 6, 10])}
    return cfg, c


def segs(rng, n, faults):
    out = []
    for _ in range(n):
        r = rng.random()
        if faults and r < 0.2:
            out.append(["glitch", rng.randint(1, 4), rng.randrange(2**31), rng.choice(["nan", "inf", "-inf", "wild", "zero"])])
        elif faults and r < 0.4:
            out.append(["reset"])
        elif r < 0.55:
            out.append(["loop", rng.randint(3, 25), rng.randrange(2**31)])
        else:
            out.append([rng.choice(["rand", "corner", "walk", "hold", "same"]), rng.randint(1, 20), rng.randrange(2**31)])
    return out


def gen(rng, tier):
    cfg, c = gen_one(rng)
    sc = {"cfg": cfg, "c": c, "ops": segs(rng, rng.randint(2, 9), True), "tail": segs(rng, rng.randint(1, 3), False),
          "other": None, "wind": None, "scribble": rng.random() < 0.3, "seed": rng.randrange(2**31)}
    if rng.random() < 0.5:
        sc["other"] = [cfg, c] if rng.random() < 0.6 else list(gen_one(rng))
    if c["base_current_controller"] in ("PI", "PID") and c["base_speed_controller"] in ("PI", "PID") and rng.random() < 0.6:
        sc["wind"] = [rng.randint(1, 200), rng.choice([1, -1])]
    if "-CC-ExtExDc" in cfg["id"]:
        sc["path"] = [rng.randint(0, 1), rng.randint(5, 60)]
    if rng.random() < 0.4:
        sc["auto"] = [rng.randint(1, 40), rng.choice([None, 1, 2, 5, 12])]
    return sc


def shrink(sc):
    from ..run import generic_shrink
    for k in ("other", "wind", "auto", "path"):
        if sc.get(k):
            yield {**sc, k: None}
    if sc.get("scribble"):
        yield {**sc, "scribble": False}
    for j, s in enumerate(sc["ops"]):
        if len(s) > 1 and s[1] > 1:
            yield {**sc, "ops": sc["ops"][:j] + [[s[0], s[1] // 2] + s[2:]] + sc["ops"][j + 1:]}
    for j, s in enumerate(sc["tail"]):
        if len(s) > 1 and s[1] > 1:
            yield {**sc, "tail": sc["tail"][:j] + [[s[0], s[1] // 2] + s[2:]] + sc["tail"][j + 1:]}
    for j in range(len(sc["tail"])):
        if len(sc["tail"]) > 1:
            yield {**sc, "tail": sc["tail"][:j] + sc["tail"][j + 1:]}
    yield from generic_shrink(sc)


def inputs(u, seg):
    """States and references of a segment without closed loop."""
    kind, n, seed = seg[:3]
    g = np.random.default_rng(seed)
    (sl, sh), (rl, rh) = [(np.asarray(x.low, float), np.asarray(x.high, float)) for x in u.observation_space]
    s, r = g.uniform(sl, sh), g.uniform(rl, rh)
    for k in range(n):
        if kind in ("rand", "glitch") or k == 0:
            s, r = g.uniform(sl, sh), g.uniform(rl, rh)
        elif kind == "corner":
            s, r = np.where(g.random(len(sl)) < 0.5, sl, sh), np.where(g.random(len(rl)) < 0.5, rl, rh)
        elif kind == "walk":
            s = np.clip(s + g.normal(0, 0.05, len(sl)) * (sh - sl), sl, sh)
            r = np.clip(r + g.normal(0, 0.02, len(rl)) * (rh - rl), rl, rh)
        elif kind == "hold":
            s = np.clip(s + g.normal(0, 0.02, len(sl)) * (sh - sl), sl, sh)
        if kind == "glitch":
            i = g.integers(len(s))
            s[i] = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "wild": 1e3 * g.normal(), "zero": 0.0}[seg[3]]
            if seg[3] == "zero":
                s[:] = np.clip(0.0, sl, sh)
        yield s.copy(), r.copy()


class Unit:
    """A controller with the environment it was designed for."""

    def __init__(self, cfg, c, ctx, visualization=None):
        self.env = build.make(cfg, visualization=visualization)
        self.u = self.env.unwrapped
        self.c = gc.GemController.make(self.env, cfg["id"], block_diagram=False, **c)
        self.space, self.ctx, self.cfg, self.cc = self.env.action_space, ctx, cfg, c
        self.dirty = False
        self.seen = []
        self.started = False
        self.scribble = False

    def reset(self):
        self.c.reset()
        self.dirty = False

    def act(self, s, r):
        s, r = np.array(s, float), np.array(r, float)
        finite = bool(np.isfinite(s).all() and np.isfinite(r).all())
        if not finite:
            self.dirty = True
        s0, r0 = s.copy(), r.copy()
        s.setflags(write=False)
        r.setflags(write=False)
        try:
            a = self.c.control(s, r)
        except Exception as e:
            if self.dirty:
                return None
            raise
        ctx = self.ctx
        if not self.dirty:
            ctx.check(same(s, s0) and same(r, r0), "input-modified", "control changed the arrays it was given")
            self.judge(a, s0, r0)
        out = np.array(a, float)
        if self.scribble and isinstance(a, np.ndarray) and a.ndim:
            a[...] = 77
        ctx.log(out)
        return out

    def judge(self, a, s, r):
        ctx, sp, what = self.ctx, self.space, f"{self.cfg['id']} {self.cc}: action {a!r} for state {s.tolist()} reference {r.tolist()}"
        kind, shp = spec.action_space(self.cfg)
        v = np.asarray(a)
        if kind == "discrete":
            ctx.check(v.shape == () and float(v) == int(v) and 0 <= int(v) < shp, "inadmissible", lambda: f"{what}, expected 0..{shp - 1}")
            ctx.check(sp.contains(a), "not-in-space", lambda: f"{what} is not in {sp}")
        elif kind == "multi":
            ctx.check(v.shape == (len(shp),) and all(float(x) == int(x) and 0 <= int(x) < n for x, n in zip(v, shp)),
                      "inadmissible", lambda: f"{what}, expected {shp}")
            ctx.check(sp.contains(a), "not-in-space", lambda: f"{what} is not in {sp}")
        else:
            ctx.check(v.shape == (len(shp),), "shape", lambda: f"{what}, expected shape {(len(shp),)}")
            ctx.check(all(lo - 1e-9 <= x <= hi + 1e-9 for x, (lo, hi) in zip(v, shp)), "inadmissible",
                      lambda: f"{what}, expected within {shp}")
        ctx.steps += 1
        ctx.obs_state(self.cfg["id"] + str(self.cc.get("base_current_controller")), np.ravel(v))

    def seg(self, seg):
        """Performs a segment, returns its actions."""
        out = []
        if seg[0] == "reset":
            self.reset()
        elif seg[0] == "loop":
            (s, r), _ = self.env.reset(seed=seg[2])
            self.started = True
            log = [("r", seg[2])]
            for _ in range(seg[1]):
                a = self.act(s, r)
                if a is None or self.dirty:
                    break
                out.append(a)
                act = int(a) if a.ndim == 0 else (a.astype(int) if hasattr(self.space, "nvec") else a)
                (s, r), rew, term, _, _ = self.env.step(act)
                log.append(("s", act, np.array(s), np.array(r), rew, term))
                if term:
                    break
            self.seen.append(log)
        else:
            for s, r in inputs(self.u, seg):
                out.append(self.act(s, r))
        return out


def induct(m, P):
    if m == "SeriesDc":
        return [P["l_a"] + P["l_e"]]
    if m in ("ShuntDc", "PermExDc"):
        return [P["l_a"]]
    if m == "ExtExDc":
        return [P["l_a"], P["l_e"]]
    if m == "SCIM":
        return [P["l_sigs"] + P["l_m"] * P["l_sigr"] / (P["l_m"] + P["l_sigr"])]
    return [P["l_d"], P["l_q"]] + ([P["l_e"]] if m == "EESM" else [])


def windup(sc, ctx, cfg, c):
    a_, t, m = spec.split(cfg)
    if t != "CC" and m in spec.AC:
        return
    units = [Unit(cfg, c, ctx) for _ in range(2)]
    u = units[0].u
    names, lim = list(u.state_names), np.asarray(u.limits, float)
    sl, sh = np.asarray(u.observation_space[0].low), np.asarray(u.observation_space[0].high)
    rl, rh = np.asarray(u.observation_space[1].low, float), np.asarray(u.observation_space[1].high, float)
    extra, sign = sc["wind"]
    s = np.clip(np.zeros(len(names)), sl, sh)
    r = 0.9 * (rh if sign > 0 or (rl >= 0).any() else rl)
    if m == "SCIM":
        r = np.array([0.6, 0.6])
    # control steps until every integrator in the cascade must have driven its output into the limit
    P, tau, a = u.physical_system.electrical_motor.motor_parameter, u.physical_system.tau, c["a"]
    cur = spec.MOTORS[m]["cc"]
    volt = {"ExtExDc": ["u_a", "u_e"]}.get(m, ["u"] if m in spec.DC else ["u_sd", "u_sq", "u_e"][:len(cur)])
    ind = induct(m, P)
    n = 0.0
    for j, x in enumerate(cur):
        i_ref = lim[names.index(x)] * (0.5 if t == "CC" else 0.05)
        p = min(ind) / (tau * a) if m in spec.AC else ind[j] / (tau * a)
        v = lim[names.index(volt[j])] if volt[j] in names else lim[names.index("u_sup")]
        n += 2 * a**2 * v / (p * i_ref)
    if t == "SC":
        p = u.physical_system.mechanical_load.j_total / (a * tau * a**2)
        n += 2 * a**3 * lim[names.index("torque")] / (p * 0.8 * lim[names.index("omega")])
    n = int(math.ceil(n)) + 3
    if n > 2500 or not math.isfinite(n):
        return
    tail = [["walk", 12, sc["seed"]]]
    outs = []
    for w, k in zip(units, (n, n + extra)):
        for _ in range(k):
            last = w.act(s, r)
        outs.append([last] + w.seg(tail[0]))
    ctx.fault("output saturation")
    ctx.probe("wind-up compared")
    ctx.check(same(outs[0], outs[1]), "wind-up",
              lambda: f"{cfg['id']} {c}: {n} and {n + extra} saturated control steps leave different controllers behind: "
                      f"{[x.tolist() for x in outs[0][:3]]} / {[x.tolist() for x in outs[1][:3]]}")


def paths(sc, ctx, cfg, c):
    """What is demanded from one current of two separately fed windings has no effect on the voltage of the other one."""
    keep, n = sc["path"]
    units = [Unit(cfg, c, ctx) for _ in range(2)]
    u = units[0].u
    (sl, sh), (rl, rh) = [(np.asarray(x.low, float), np.asarray(x.high, float)) for x in u.observation_space]
    g = np.random.default_rng(sc["seed"])
    # (small speeds and control errors, so that the other one is not saturated all the time)
    size = 10.0 ** g.uniform(-5, 0, 2)
    s, r = g.uniform(sl, sh), g.uniform(rl, rh)
    s[0] *= size[0]
    s0 = s.copy()
    far = np.where(g.random(len(rl)) < 0.5, rl, rh)
    i = list(u.state_names).index(["i_a", "i_e"][keep])
    for k in range(n):
        s = np.clip(s0 + g.normal(0, 0.02, len(sl)) * size[1] * (sh - sl), sl, sh)
        s[i] = np.clip(s0[i] + g.normal() * size[1] * 0.1, sl[i], sh[i])
        r = np.clip(s[i] + g.normal(0.1, 1, len(rl)) * size[1], rl, rh)
        q = r.copy()
        q[1 - keep] = far[1 - keep]
        out = [w.act(s, x) for w, x in zip(units, (r, q))]
        ctx.check(out[0][keep] == out[1][keep], "paths",
                  lambda: f"{cfg['id']} {c}: step {k} action {out[0].tolist()} for the references {r.tolist()}, {out[1].tolist()} for {q.tolist()}")
    ctx.fault("saturated neighbour")
    ctx.probe("paths compared")


def automatic(sc, ctx, cfg, c):
    """control_environment does what the documented loop does: n steps, environment and controller reset together."""
    n, top = sc["auto"]
    logs = []
    for how in (0, 1):
        log = []
        env = build.make(cfg, callbacks=[parts.Recorder(log)])
        ctl = gc.GemController.make(env, cfg["id"], block_diagram=False, **c)
        env.reset(seed=sc["seed"])
        log.clear()
        if how == 0:
            ctl.control_environment(env, n, **({} if top is None else {"max_episode_length": top}))
        else:
            (s, r), _ = env.reset()
            ctl.reset()
            length = 0
            for _ in range(n):
                (s, r), _, term, _, _ = env.step(ctl.control(s, r))
                length += 1
                if term or length == top:
                    (s, r), _ = env.reset()
                    ctl.reset()
                    length = 0
        logs.append(log)
        ctx.steps += n
    ctx.probe("automatic loop")
    ctx.check(len(logs[0]) == len(logs[1]), "automatic-episodes",
              lambda: f"{cfg['id']}: control_environment({n}, max_episode_length={top}) events {[e[1] for e in logs[0]][:60]}")
    for x, y in zip(*logs):
        ctx.check(same(x, y), "automatic-loop", lambda: f"{cfg['id']}: control_environment {x}, expected {y}")


def run(sc, ctx):
    warnings.simplefilter("ignore")
    cfg, c = sc["cfg"], sc["c"]
    a = Unit(cfg, c, ctx)
    a.scribble = sc.get("scribble", False)
    o = Unit(*sc["other"], ctx) if sc.get("other") else None
    n = 0
    for k, seg in enumerate(sc["ops"]):
        if seg[0] == "glitch":
            ctx.fault("sensor " + seg[3])
        elif seg[0] == "reset":
            ctx.fault("controller reset")
        n += len(a.seg(seg))
        if o:
            ctx.fault("other controller active")
            o.seg(["rand", 1 + k % 4, 1000 + k])
    a.reset()
    ctx.fault("controller reset")
    b = Unit(cfg, c, ctx)      # a newly designed controller
    for k, seg in enumerate(sc["tail"]):
        parts = [seg]
        if o and seg[0] not in ("loop",):
            o.seg(["rand", 1 + k, 7 + k])
        for q in parts:
            x = a.seg(q)
            if o:
                o.seg(["corner", 2, 77 + k])
            y = b.seg(q)
            n += len(x)
            ctx.check(same(x, y), "reset-differs-from-new",
                      lambda: f"{cfg['id']} {c}: in {q} after a reset {[v.tolist() for v in x][:4]}, newly designed "
                              f"{[v.tolist() for v in y][:4]}")
            ctx.probe("reset compared with new")
    # the environment does not notice that a controller was designed for it
    e = build.make(cfg)
    for log in a.seen:
        e.reset(seed=log[0][1])
        for _, act, s, r, rew, term in log[1:]:
            (s2, r2), rew2, term2, _, _ = e.step(act)
            ctx.check(same(s, s2) and same(r, r2) and same(float(rew), float(rew2)) and term == term2, "environment-modified",
                      lambda: f"{cfg['id']}: with a controller {s.tolist()} {r.tolist()} {rew}, without {s2.tolist()} "
                              f"{r2.tolist()} {rew2}")
    if sc.get("wind"):
        windup(sc, ctx, cfg, c)
    if sc.get("path"):
        paths(sc, ctx, cfg, c)
    if sc.get("auto"):
        automatic(sc, ctx, cfg, c)
    if n >= 20:
        ctx.nontrivial = True
