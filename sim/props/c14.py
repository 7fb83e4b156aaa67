"""C14 Mechanical loads impose the configured speed or torque over time."""
import math

import numpy as np

from .. import build, model, parts, spec
from ..drive import Drive, gen_ops

ID = "C14"
COUNT = {"quick": 1300, "thorough": 16000}
RULE = ("whole drives with every load, solver and initialiser over several episodes with random actions and disturbances; "
        "constant and profile driven speeds against the configured speed in simulated time, random processes against their range "
        "and increment distribution, currentless drives coasting down or held by friction, polynomial load objects against the "
        "documented torque, initial speeds against the initialiser; non-trivial when at least 5 steps or 4 initial states were judged")
STATES = "load kind x mode x speed in fifths of the limit"
KINDS = ["const", "ext", "ext", "ou", "coast", "coast", "hold", "poly", "init", "init"]


def gen(rng, tier):
    k = rng.choice(KINDS)
    sc = {"mode": k}
    if k == "poly":
        tn = rng.choice([0.1, 1.0, 30.0])
        wn = rng.choice([10.0, 100.0, 400.0])
        sc.update(par={"a": rng.choice([0.0, 0.1, 1.0]) * tn, "b": rng.choice([0.0, 0.1, 1.0]) * tn / wn,
                       "c": rng.choice([0.0, 0.1, 1.0]) * tn / wn**2, "j_load": rng.choice([1e-5, 1e-3, 0.1])},
                  jr=rng.choice([1e-3, 0.05]), dec=rng.choice([None, None, 1e-2, 3e-4]),
                  ops=[[rng.choice([-1, 1]) * rng.choice([0.0, 1e-6, 1e-3, 0.1, 1.0, wn]) * rng.uniform(0.5, 2),
                        rng.choice([0.0, 1.0, -1.0]) * rng.uniform(0, 2) * tn] for _ in range(rng.randint(5, 40))])
        if rng.random() < 0.3:
            for q in list(sc["par"]):
                if rng.random() < 0.4:
                    del sc["par"][q]
        return sc
    only = {"coast": ["SynRM", "SeriesDc", "ShuntDc", "ExtExDc"], "hold": ["PermExDc", "ExtExDc"]}.get(k)
    cfg = spec.gen_cfg(rng, motors=only, load=0, supply=0.2, wrappers=0.1, ref=0.1, reward=0, constraints=0, filter=0, vis=0,
                       conv=0.5, interlock=0.2, solver=0.6, init=0 if k in ("coast", "hold") else 0.4)
    cfg["constraints"] = []
    m = spec.split(cfg)[2]
    tau = cfg.get("tau", spec.TAU[spec.split(cfg)[0]])
    wn = spec.MOTORS[m]["nominal"]["omega"]
    if k == "const":
        w = rng.choice([0.0, 0.2, 0.8, -0.3]) * wn
        cfg["load"] = {"$": "ConstantSpeedLoad", "omega_fixed": w}
        if m in spec.DC and w < 0:
            cfg["load"]["omega_fixed"] = -w
        if rng.random() < 0.3:
            cfg["load"] = {"$": "ConstantSpeedLoad", "load_initializer": {"states": {"omega": abs(w)}}}
    elif k == "ext":
        if rng.random() < 0.6:
            f = rng.choice([5.0, 50.0, 0.02 / tau])
            cfg["load"] = {"$": "ExternalSpeedLoad", "tau": tau, "speed_profile":
                           {"$f": "sine", "a": rng.uniform(0.1, 0.5) * wn, "w": 2 * math.pi * f, "b": rng.uniform(-0.3, 0.3) * wn,
                            "ph": rng.uniform(0, 6)}}
        else:
            cfg["load"] = {"$": "ExternalSpeedLoad", "tau": tau, "speed_profile":
                           {"$f": "profile", "values": [round(rng.uniform(-0.5, 0.5) * wn, 3) for _ in range(5)],
                            "dt": rng.randint(3, 9) * tau}}
            cfg["solver"] = {"$": "EulerSolver", "nsteps": 1}
            cfg.get("conv", {})["til"] = 0.0
    elif k == "ou":
        lo = rng.choice([0.0, -0.2, 0.1]) * wn
        cfg["load"] = {"$": "OrnsteinUhlenbeckLoad", "mu": rng.uniform(0, 0.5) * wn, "sigma": rng.choice([0.0, 5.0, 100.0, 3e4]),
                       "theta": rng.choice([0.0, 1.0, 50.0]), "tau": tau, "omega_range": {"$t": [lo, lo + rng.choice([0.05, 0.6]) * wn]}}
        cfg["solver"] = {"$": "EulerSolver", "nsteps": 1}
    elif k in ("coast", "hold"):
        ld = spec.g_load(rng, m, tau, ("Poly",))
        ld.pop("load_initializer", None)
        p = ld["load_parameter"]
        if k == "coast":
            ld["load_initializer"] = {"states": {"omega": rng.choice([0.01, 0.1, 0.5, 0.9]) * wn}}
        p["a"] = max(p["a"], 0.0) if k == "coast" else (spec.MOTORS[m]["nominal"].get("torque") or 5.0) * 2
        if rng.random() < 0.3:
            p["a"] *= 50
        cfg["load"] = ld
        for q in ("limit_values", "nominal_values"):
            cfg.get("motor", {}).pop(q, None)
        cfg.get("conv", {})["til"] = 0.0
        cfg["supply"] = {"$": "IdealVoltageSupply", "u_nominal": spec.MOTORS[m]["u"]}
        if k == "coast" and rng.random() < 0.6:
            cfg["tau"] = 1e-4
        cfg["solver"] = rng.choice([{"$": "ScipyOdeSolver"}, {"$": "ScipyOdeIntSolver"}, {"$": "EulerSolver", "nsteps": 4},
                                    {"$": "ScipySolveIvpSolver"}])
        sc.update(cfg=cfg, n=rng.choice([20, 60, 200]), seed=rng.randrange(1000))
        return sc
    elif k == "init":
        ld = spec.g_load(rng, m, tau, ("Poly",))
        wn = cfg.get("motor", {}).get("nominal_values", {}).get("omega", wn)
        r = rng.random()
        lo, hi = sorted([round(rng.uniform(0, 1) * wn, 3), round(rng.uniform(0, 1) * wn, 3)])
        if m in spec.AC and rng.random() < 0.5:
            lo = -lo
        if r < 0.2:
            ld["load_initializer"] = {"states": {"omega": lo if lo >= 0 else hi}}
        elif r < 0.6:
            ld["load_initializer"] = {"random_init": "uniform"}
        else:
            ld["load_initializer"] = {"random_init": rng.choice(["gaussian", "normal"])}
            if rng.random() < 0.6:
                ld["load_initializer"]["random_params"] = {"$t": [rng.choice([None, (lo + hi) / 2]), rng.choice([None, (hi - lo) / 3 + 1e-3])]}
        if r >= 0.2 and rng.random() < 0.6:
            ld["load_initializer"]["interval"] = [[lo, hi + 1.0]]
        cfg["load"] = ld
        cfg["solver"] = {"$": "EulerSolver", "nsteps": 1}
        sc.update(cfg=cfg, seeds=[rng.randrange(2**32) if k == 0 else rng.choice([None, None, rng.randrange(2**32)]) for k in range(rng.randint(5, 12))],
                  acts=[spec.rand_action(rng, spec.action_space(cfg)) for _ in range(3)])
        return sc
    sc.update(cfg=cfg, ops=gen_ops(rng, cfg, episodes=(1, 3), steps=(8, 60)))
    return sc


def run(sc, ctx):
    globals()["run_" + {"hold": "coast"}.get(sc["mode"], sc["mode"])](sc, ctx)


# ------------------------------------------------------------------------------------------------ objects
def run_poly(sc, ctx):
    """Documented torque, energy never produced, no drive through zero."""
    ld = build.cls("PolynomialStaticLoad")(load_parameter=dict(sc["par"]))
    if sc["dec"]:
        ld.tau_decay = sc["dec"]
    ld.set_j_rotor(sc["jr"])
    p = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
    p.update(sc["par"])
    j, dec = p["j_load"] + sc["jr"], sc["dec"] or 1e-3
    ctx.check(abs(ld.j_total - j) <= 1e-12 * j, "inertia", f"{ld.j_total} != {j}")
    wl = p["a"] / j * dec

    def load(w):
        s = (w > 0) - (w < 0)
        return s * p["c"] * w * w + p["b"] * w + (s * p["a"] if abs(w) > wl else w / wl * p["a"] if wl else 0.0)
    for w, torque in sc["ops"]:
        got = float(np.ravel(ld.mechanical_ode(0.0, np.array([w]), torque))[0])
        want = (torque - load(w)) / j
        if abs(abs(w) - wl) > 1e-12 * (1 + wl):
            ctx.check(abs(got - want) <= 1e-9 * (abs(torque) + p["a"] + abs(load(w)) + 1e-9) / j, "torque",
                      lambda: f"omega {w}, motor torque {torque}: acceleration {got}, documented {want}")
        own = float(np.ravel(ld.mechanical_ode(0.0, np.array([w]), 0.0))[0])
        ctx.check(own * w <= 0, "self-acceleration", lambda: f"omega {w}: acceleration {own} without torque")
        # a small step never reverses the motion
        dt = 1e-3 * dec
        for _ in range(3):
            w2 = w + dt * float(np.ravel(ld.mechanical_ode(0.0, np.array([w]), 0.0))[0])
            if p["c"] * abs(w) * dt / j < 0.1 and p["b"] * dt / j < 0.1 and abs(w) > 0:
                ctx.check(w2 * w >= 0 and abs(w2) <= abs(w), "reversal", lambda: f"from {w} to {w2} without torque")
            w = w2
        ctx.state("poly", [abs(w) > wl, w > 0, torque > 0])
        ctx.steps += 1
        ctx.log(got)
    ctx.nontrivial = len(sc["ops"]) >= 5


# ------------------------------------------------------------------------------------------------ drives
def speed(d, rec):
    ps = d.u.physical_system
    i = list(ps.state_names).index("omega")
    return rec[1][i] * float(ps.limits[i])


def finite(rec):
    return bool(np.all(np.isfinite(rec[1])))


def run_const(sc, ctx):
    d = Drive(sc["cfg"], ctx)
    c = sc["cfg"]["load"]
    w = c.get("omega_fixed", c.get("load_initializer", {}).get("states", {}).get("omega"))
    ctx.check(abs(d.u.physical_system.unwrapped.mechanical_load.omega_fixed - w) <= 1e-12 * (1 + abs(w)), "omega-fixed", "")
    n = 0
    for op in sc["ops"]:
        rec = d.reset(op[1]) if op[0] == "r" else d.auto(op[1])
        if not finite(rec) or np.max(np.abs(rec[1])) > 1e3:
            return
        got = speed(d, rec)
        ctx.check(abs(got - w) <= 1e-9 * (1 + abs(w)), "speed", lambda: f"{rec[0]}: speed {got}, fixed to {w}")
        n += 1
    ctx.nontrivial = n > 5


def run_ext(sc, ctx):
    cfg = sc["cfg"]
    d = Drive(cfg, ctx)
    c = cfg["load"]["speed_profile"]
    f = parts.FUNCS[c["$f"]](**{k: v for k, v in c.items() if k != "$f"})
    tau = d.tau
    sv = cfg.get("solver", {"$": "ScipyOdeSolver"})
    one = sv["$"] == "EulerSolver" and sv["nsteps"] == 1 and not cfg.get("conv", {}).get("til")
    tol = model.tolerance(cfg) * 3
    amp = max(abs(f(0.0)), abs(c.get("a", 0.0)) + abs(c.get("b", 0.0)), 1e-3)
    n, e0 = 0, 0.0
    tot = 0
    for op in sc["ops"]:
        if op[0] == "r":
            got = speed(d, d.reset(op[1]))
            ctx.check(abs(got - f(0.0)) <= 1e-9 * amp, "initial-speed", lambda: f"episode starts with {got}, the profile with {f(0.0)}")
            n = 0
            continue
        if d.terminated:
            continue
        rec = d.step(op[1])
        n += 1
        if not finite(rec) or np.max(np.abs(rec[1])) > 30:
            n = -10**9
        if n < 0:
            continue
        got = speed(d, rec)
        lim = float(d.u.physical_system.limits[0])
        if one:
            want = f(n * tau)
            if c["$f"] == "profile" and abs((n * tau / c["dt"] + 0.5) % 1 - 0.5) < 1e-6:
                want = min((f((n - 1e-3) * tau), f((n + 1e-3) * tau)), key=lambda v: abs(v - got))
            ctx.check(abs(got - want) <= 1e-8 * amp, "profile", lambda: f"step {n}: speed {got}, profile {want}")
        else:
            # first order lag behind the profile one period ahead
            bound = 1.1 * tau * tau * abs(c["a"]) * c["w"] ** 2 + tol * max(lim, amp) * (1 + n / 10) * max(1, np.max(np.abs(rec[1])))
            want = f(n * tau)
            ctx.check(abs(got - want) <= bound, "profile", lambda: f"step {n}: speed {got}, profile {want} (allowed {bound:.3g})")
        ctx.state("ext", c["$f"], round(5 * got / lim))
        tot += 1
    ctx.nontrivial = tot > 5


def run_ou(sc, ctx):
    cfg = sc["cfg"]
    d = Drive(cfg, ctx)
    c = cfg["load"]
    lo, hi = c["omega_range"]["$t"]
    mu, sg, th, tau = c["mu"], c["sigma"], c["theta"], d.tau
    til = cfg.get("conv", {}).get("til", 0.0)
    z, starts, n = [], [], 0
    prev = None
    for op in sc["ops"]:
        rec = d.reset(op[1]) if op[0] == "r" else d.auto(op[1])
        if not finite(rec) or np.max(np.abs(rec[1])) > 1e3:
            return
        w = speed(d, rec)
        ctx.check(lo - 1e-9 * (1 + abs(lo)) <= w <= hi + 1e-9 * (1 + abs(hi)), "range", lambda: f"{rec[0]}: speed {w} outside of {lo}..{hi}")
        if rec[0] == "reset":
            starts.append(w)
        elif prev is not None and not til:
            # (auto may have reset in front of this step)
            prev = speed(d, d.trace[-2])
            raw = prev + th * (mu - prev) * tau
            if sg == 0:
                want = min(max(raw, lo), hi)
                ctx.check(abs(w - want) <= 1e-9 * (1 + abs(want)), "process", lambda: f"noise-free process: {prev} -> {w}, should be {want}")
            elif lo + 1e-9 < w < hi - 1e-9 and min(raw - lo, hi - raw) > 6 * sg * math.sqrt(tau):
                z.append((w - raw) / (sg * math.sqrt(tau)))
        prev = w
        n += 1
    if len(z) >= 20:
        m2 = sum(x * x for x in z) / len(z)
        s = math.sqrt(2 / len(z))
        ctx.probe("process-increments", len(z))
        ctx.check(1 - 6 * s <= m2 <= 1 + 9 * s, "process", lambda: f"mean squared normalised increment {m2} over {len(z)} steps")
        ctx.check(abs(sum(z) / len(z)) <= 6 / math.sqrt(len(z)), "process", lambda: f"mean normalised increment {sum(z) / len(z)}")
    if len(starts) >= 3:
        ctx.check(len(set(starts)) > 1, "initial-speed", f"all episodes start with {starts[0]}")
    starts = [(speed(d, d.reset(7 if k == 0 else None)) - lo) / (hi - lo) for k in range(60)]
    ctx.check(len(set(starts)) == 60, "initial-speed", lambda: f"only {len(set(starts))} different initial speeds in 60 episodes")
    ctx.check(min(starts) < 0.3 and max(starts) > 0.7, "initial-speed",      # (missed by a fair draw once in 10^9 runs)
              lambda: f"60 episodes start between {min(starts):.3f} and {max(starts):.3f} of the range")
    ctx.nontrivial = n > 5


def run_coast(sc, ctx):
    """Currentless machine: only the load acts.  hold: friction holds against a small torque."""
    cfg = sc["cfg"]
    m = spec.split(cfg)[2]
    d = Drive(cfg, ctx)
    sp = spec.action_space(cfg)
    ts = spec.conv_types(cfg)
    off = []
    for t in ts:
        if sp[0] == "box":
            off += {"1QC": [0.0], "2QC": [0.0], "4QC": [0.0], "B6": [0.0] * 3}[t]
        else:
            off.append({"1QC": 0, "2QC": 2, "4QC": 0, "B6": 0}[t])
    off = off[0] if sp[0] == "discrete" else off
    p = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
    p.update(cfg["load"]["load_parameter"])
    par = dict(spec.MOTORS[m]["params"])
    par.update(cfg.get("motor", {}).get("motor_parameter", {}))
    j = p["j_load"] + par["j_rotor"]
    w = speed(d, d.reset(sc["seed"]))
    if sc["mode"] == "coast":
        w0 = cfg["load"]["load_initializer"]["states"]["omega"]
        ctx.check(abs(w - w0) < 1e-9 * (1 + w0), "initial-speed", f"{w} != {w0}")
    euler = cfg["solver"]["$"] == "EulerSolver"
    lim = float(d.u.physical_system.limits[0])
    tol = 2e-6 * lim
    wl = p["a"] / j * 1e-3
    if sc["mode"] == "hold":
        # a torque well below static friction: the shaft only creeps within the smoothed band
        amp = 0.02
        tn = 0.0
        act = [amp if t in ("4QC", "2QC", "1QC") else 0.0 for t in ts] if sp[0] == "box" else off
        if sp[0] == "discrete" and isinstance(act, list):
            act = act[0]
        for k in range(sc["n"]):
            rec = d.auto(act)
            tq = abs(rec[1][1] * float(d.u.physical_system.limits[1]))
            tn = max(tn, tq)
            if tn < 0.8 * p["a"]:
                ctx.check(abs(speed(d, rec)) <= wl * 1.001 + 1e-9, "static-friction",
                          lambda: f"step {k}: {speed(d, rec)} rad/s with torque {tq} < a = {p['a']}, band {wl}")
        ctx.nontrivial = True
        return
    rk = w
    h = min(d.tau / 8, 5e-5)
    stable = not euler or (d.tau / 4 < 0.5e-3 and (p["b"] + 2 * p["c"] * w) / j * d.tau / 4 < 0.5)
    for k in range(sc["n"]):
        rec = d.auto(off)
        if d.trace[-2][0] == "reset" and k:
            return
        new = speed(d, rec)
        s = rec[1]
        tq = s[1] * float(d.u.physical_system.limits[1])
        if abs(tq) > 1e-9 * (p["a"] + 1.0):
            return   # (a converter without a short circuit state keeps a torque)
        if not stable:
            return
        ctx.check(new <= w + tol and new >= -tol, "reversal" if new < -tol else "self-acceleration",
                  lambda: f"step {k}: coasting from {w} to {new} rad/s")
        n = int(math.ceil(d.tau / h))
        for _ in range(n):   # own solution
            x = d.tau / n

            def f(v):
                sg = int(v > 0) - int(v < 0)
                return -(sg * p["c"] * v * v + p["b"] * v + (sg * p["a"] if abs(v) > wl else v * j / 1e-3)) / j
            k1 = f(rk)
            k2 = f(rk + x * k1 / 2)
            k3 = f(rk + x * k2 / 2)
            rk += x / 6 * (k1 + 2 * k2 + 2 * k3 + f(rk + x * k3))
        slack = (2e-2 if euler else 1e-3) * abs(w - rk + 1e-3 * abs(rk)) + (0.02 if euler else 1e-4) * (wl + lim * 1e-3)
        ctx.check(abs(new - rk) <= slack + (5e-3 if euler else 1e-4) * lim, "coasting", lambda: f"step {k}: {new}, equations {rk}")
        if k == 0:
            dw = w - new
            own = w - rk
            ctx.check(abs(dw - own) <= 0.05 * own + 1e-8 * lim, "coasting", lambda: f"deceleration of the first step {dw}, should be {own}")
        w = new
        ctx.state("coast", m, round(5 * new / lim))
    ctx.nontrivial = True


def run_init(sc, ctx):
    cfg = sc["cfg"]
    m = spec.split(cfg)[2]
    d = Drive(cfg, ctx)
    ini = cfg["load"]["load_initializer"]
    wn = spec.MOTORS[m]["nominal"]["omega"]
    wn = cfg.get("motor", {}).get("nominal_values", {}).get("omega", wn)
    low = float(d.u.physical_system.state_space.low[0])
    lo, hi = wn * low, wn
    if "interval" in ini:
        lo, hi = max(lo, ini["interval"][0][0]), min(hi, ini["interval"][0][1])
    if lo > hi:
        return
    vals = []
    for s in sc["seeds"]:
        w = speed(d, d.reset(s))
        vals.append(w)
        if "states" in ini:
            ctx.check(abs(w - ini["states"]["omega"]) <= 1e-9 * (1 + wn), "initial-speed", lambda: f"{w} instead of {ini}")
        else:
            ctx.check(lo - 1e-9 * wn <= w <= hi + 1e-9 * wn, "initial-speed", lambda: f"{w} outside of {lo}..{hi}")
        for a in sc["acts"]:
            if not d.terminated:
                d.step(a)
    if "states" not in ini and hi - lo > 1e-3 * wn and len({s for s in sc["seeds"]}) + sc["seeds"].count(None) > 3:
        ctx.check(len(set(vals)) > 1, "initial-speed", f"random initial speeds of {len(vals)} episodes are all {vals[0]}")
        if ini["random_init"] == "uniform":
            ctx.probe("uniform-start", len(vals))
    ctx.state("init", ini.get("random_init"), [round(5 * v / wn) for v in vals])
    ctx.nontrivial = len(vals) >= 4
