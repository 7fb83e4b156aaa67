"""C11 The simulated drive follows its documented equations of motion."""
import math
import random

from .. import model, spec
from ..core import Skip
from ..drive import Drive, gen_ops

ID = "C11"
COUNT = {"quick": 1500, "thorough": 12000}
RULE = ("random drive, motor and load parameters, converter topology, solver, sampling time, initial state and action "
        "program (holds, alternations, bursts, saturation) with episode resets in between; every observation is compared with "
        "an independent reference model advanced with the same actions; non-trivial when at least 5 steps were compared")
SAFE = [{"$": "EulerSolver", "nsteps": 1}, {"$": "EulerSolver", "nsteps": 4}, {"$": "ScipyOdeSolver"}, {"$": "ScipyOdeSolver"},
        {"$": "ScipyOdeIntSolver"}, {"$": "ScipyOdeSolver", "integrator": "lsoda"}, {"$": "ScipyOdeSolver", "integrator": "vode"},
        {"$": "ScipySolveIvpSolver"}, {"$": "ScipySolveIvpSolver", "method": "Radau"}]


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, supply=0.4, supply_kinds=("Ideal",), load_kinds=("Poly", "Poly", "Const", "Ext"), load=0.85,
                       motor=0.9, init=0.6, wrappers=0, ref=0.1, reward=0, constraints=0, filter=0, vis=0, solver=0.7,
                       solvers=SAFE)
    cfg["constraints"], cfg["wrappers"] = [], []
    _, _, m = spec.split(cfg)
    if cfg["id"].startswith("Cont") and "4QC" in spec.conv_types(cfg) and cfg.get("conv"):
        cfg["conv"]["til"] = 0.0
    ini = cfg.get("motor", {}).get("motor_initializer")
    if m in spec.IM and ini and "states" not in ini:
        cfg["motor"]["motor_initializer"] = spec.g_init(rng, m, ("const",))
    if rng.random() < 0.3:
        cfg["jac"] = rng.choice([True, False])
        if cfg.get("load", {}).get("$") == "ExternalSpeedLoad":
            cfg["jac"] = False
    tau = cfg.get("tau", spec.TAU[spec.split(cfg)[0]])
    if rng.random() < 0.3:
        r = rng.random()
        u = cfg.get("supply", {}).get("u_nominal", spec.MOTORS[m]["u"])
        if r < 0.7:
            n = rng.randint(1, 3)
            t0 = [rng.randint(0, 20) for _ in range(n)]
            cfg["supply"] = {"$": "DipSupply", "u_nominal": u, "dips":
                             [[(t - 0.5) * tau, (t + rng.randint(1, 8) - 0.5) * tau, rng.choice([0.0, 0.3, 0.7, 1.2])] for t in t0]}
        else:
            cfg["supply"] = {"$": "AC1PhaseSupply", "u_nominal": u, "supply_parameter":
                             {"frequency": rng.choice([50.0, 400.0]), "phase": rng.uniform(0, 6.28)}}
    if cfg.get("load", {}).get("$") == "PolynomialStaticLoad" and rng.random() < 0.3:
        tn = spec.MOTORS[m]["nominal"].get("torque", 0) or 2.0
        t0 = rng.randint(1, 20)
        cfg["load"] = dict(cfg["load"], **{"$": "StepLoad", "pulses":
                           [[t0 * tau, (t0 + rng.randint(1, 10)) * tau, rng.choice([-1, 1]) * tn, tau]]})
        cfg["jac"] = False
    ops = gen_ops(rng, cfg, episodes=(1, 3), steps=(6, 30))
    if m != "SCIM" and rng.random() < 0.12 and "dips" not in cfg.get("supply", {}):
        # energy audit from the reported quantities alone: fine sampling, switched instantaneously
        cfg.update(tau=1e-5, solver={"$": "ScipyOdeSolver"}, supply={"$": "IdealVoltageSupply", "u_nominal": spec.MOTORS[m]["u"]})
        cfg.get("conv", {})["til"] = 0.0
        if cfg.get("load", {}).get("$") not in ("ConstantSpeedLoad", "PolynomialStaticLoad"):
            cfg["load"] = spec.g_load(rng, m, 1e-5, ("Const",))
        return {"cfg": cfg, "ops": gen_ops(rng, cfg, episodes=(1, 1), steps=(30, 80)), "energy": True}
    return {"cfg": cfg, "ops": ops}


def audit(rows, m, P, tau):
    """Energy balance of reported quantities (rows: name -> physical value per instant)."""
    def pair(o, a, b):
        return complex(o[a], o[b])

    def p_in(o, n):   # input power with the voltage n reported for the period
        if m == "PermExDc" or m == "SeriesDc":
            return n["u"] * o["i"]
        if m == "ShuntDc":
            return n["u"] * (o["i_a"] + o["i_e"])
        if m == "ExtExDc":
            return n["u_a"] * o["i_a"] + n["u_e"] * o["i_e"]
        e = 1.5 * (pair(n, "u_sd", "u_sq") * pair(o, "i_sd", "i_sq").conjugate()).real
        if m == "EESM":
            e += n["u_e"] * o["i_e"]
        return e

    def loss(o):
        if m == "PermExDc":
            return P["r_a"] * o["i"] ** 2
        if m == "SeriesDc":
            return (P["r_a"] + P["r_e"]) * o["i"] ** 2
        if m in ("ShuntDc", "ExtExDc"):
            return P["r_a"] * o["i_a"] ** 2 + P["r_e"] * o["i_e"] ** 2
        return 1.5 * P["r_s"] * abs(pair(o, "i_sd", "i_sq")) ** 2 + (P["r_e"] * o["i_e"] ** 2 if m == "EESM" else 0)

    def stored(o):
        if m == "PermExDc":
            return 0.5 * P["l_a"] * o["i"] ** 2
        if m == "SeriesDc":
            return 0.5 * (P["l_a"] + P["l_e"]) * o["i"] ** 2
        if m in ("ShuntDc", "ExtExDc"):
            return 0.5 * (P["l_a"] * o["i_a"] ** 2 + P["l_e"] * o["i_e"] ** 2)
        e = 0.75 * (P["l_d"] * o["i_sd"] ** 2 + P["l_q"] * o["i_sq"] ** 2)
        if m == "EESM":
            e += 1.5 * P["l_m"] * o["i_sd"] * o["i_e"] + 0.5 * P["l_e"] * o["i_e"] ** 2
        return e
    e_in = e_loss = e_mech = scale = 0.0
    for a, b in zip(rows, rows[1:]):
        d = (tau * (p_in(a, b) + p_in(b, b)) / 2, tau * (loss(a) + loss(b)) / 2,
             tau * (a["torque"] * a["omega"] + b["torque"] * b["omega"]) / 2)
        e_in, e_loss, e_mech = e_in + d[0], e_loss + d[1], e_mech + d[2]
        scale += sum(abs(x) for x in d) + abs(stored(b) - stored(a))
    gap = e_in - e_loss - e_mech - (stored(rows[-1]) - stored(rows[0]))
    return gap, scale, (e_in, e_loss, e_mech, stored(rows[-1]) - stored(rows[0]))


def sensitive(cfg, env, supply, defect, first, done, tol, s, lim, names, want):
    """Whether the tolerated errors of the solver in each step may explain the difference (unstable motion)."""
    dev = {}
    for k in range(4):
        rng = random.Random(k)
        mo = model.Drive(cfg, env, supply, defect=defect)
        mo.reset(first)
        for a in done:
            mo.y = [y * (1 + rng.choice([-1, 1]) * tol / 5) for y in mo.y]
            w = mo.step(a)
        for n, v in w.items():
            dev[n] = max(dev.get(n, 0.0), abs(v - want[n]))
    return all(abs(v * m - want[n]) <= 10 * dev[n] + tol * abs(m) for n, v, m in zip(names, s, lim) if n in want and n != "epsilon")


def run(sc, ctx, supply=None, defect=False):
    cfg = sc["cfg"]
    d = Drive(cfg, ctx)
    mo = model.Drive(cfg, d.env, supply, defect=defect)
    ps = d.u.physical_system
    names, lim = list(ps.state_names), [float(x) for x in ps.limits]
    ctx.check(names == spec.all_state_names(cfg), "state-names", f"{names}")
    tol = model.tolerance(cfg)
    n = 0
    off = False
    rows = []
    for op in sc["ops"]:
        if op[0] == "r":
            s = d.reset(op[1])[1]
            obs = {nm: v * li for nm, v, li in zip(names, s, lim)}
            mo.reset(obs)
            first, done = obs, []
            want = mo.observe([v * mo.u_sup(0) for v in mo.conv.reset_levels()], mo.u_sup(0), mo.y[-1],
                              mo.field() if mo.m in spec.IM else 0.0, 1.0)
            x = model.mismatch(s, lim, names, want, 1e-9)
            ctx.check(x is None, "reset-state", lambda: f"first observation inconsistent: {x}")
            off, n, big = False, 0, 1.0
            continue
        if d.terminated:
            continue
        if off:
            d.step(op[1])
            continue
        s = d.step(op[1])[1]
        want = mo.step(op[1])
        done.append(op[1])
        n += 1
        rows.append({nm: v * li for nm, v, li in zip(names, s, lim)})
        if mo.ambiguous:
            off = True
            continue
        if not all(math.isfinite(v) and abs(v) < 1e3 for v in s):
            off = True   # beyond any physical sense (unstable explicit integration); nothing to compare
            continue
        big = max(big, max(abs(v) for v in s))
        x = model.mismatch(s, lim, names, want, tol * big * (1 + n / 10), mo)
        if x is not None and sensitive(cfg, d.env, supply, defect, first, done, tol, s, lim, names, want):
            ctx.probe("amplified solver error")
            x, off = None, True
        ctx.check(x is None, "equations", lambda: f"step {n}: {x}")
        if any(t0 <= (n - 1) * mo.tau < t1 for t0, t1, _ in cfg.get("supply", {}).get("dips", [])):
            ctx.fault("supply-dip")
        if any(t0 <= (n - 0.5) * mo.tau < t1 for t0, t1, *_ in cfg.get("load", {}).get("pulses", [])):
            ctx.fault("load-step")
        ctx.check(ps.k == n, "k", f"{ps.k} != {n}")
        if n >= 5:
            ctx.nontrivial = True
    if sc.get("energy") and not off and len(rows) > 4 and mo.m != "DFIM":
        gap, scale, parts = audit(rows, mo.m, mo.motor.par, mo.tau)
        ctx.probe("energy-audit")
        ctx.check(abs(gap) <= 1.2e-2 * scale + 1e-12, "energy", lambda: f"energy gap {gap} of {scale} J: in, loss, mech, stored {parts}")
