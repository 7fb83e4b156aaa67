"""C12 The choice of ODE solver does not change the physics."""
import math

import numpy as np

from .. import build, model, parts, spec
from ..drive import Drive, gen_ops

ID = "C12"
COUNT = {"quick": 900, "thorough": 6000}
RULE = ("random drive, parameters, load, initial state and action program with resets and supply dips, executed with several "
        "solvers (default and tight settings, with and without Jacobian, Euler with growing numbers of sub steps); trajectories, "
        "end times, the system equation's inputs and the Jacobian (against difference quotients along the trajectory) are compared; "
        "non-trivial when at least two solvers were compared over at least 5 steps")
TIGHT = {"rtol": 1e-9, "atol": 1e-9}
S = [{"$": "ScipyOdeSolver", **TIGHT}, {"$": "ScipyOdeSolver"}, {"$": "ScipyOdeSolver", "integrator": "lsoda", **TIGHT},
     {"$": "ScipyOdeSolver", "integrator": "vode", **TIGHT}, {"$": "ScipyOdeSolver", "integrator": "vode", "method": "bdf", **TIGHT},
     {"$": "ScipyOdeSolver", "integrator": "lsoda"}, {"$": "ScipyOdeSolver", "integrator": "vode"},
     {"$": "ScipySolveIvpSolver", **TIGHT}, {"$": "ScipySolveIvpSolver", "method": "DOP853", **TIGHT},
     {"$": "ScipySolveIvpSolver", "method": "Radau", **TIGHT}, {"$": "ScipySolveIvpSolver", "method": "BDF", "rtol": 1e-7, "atol": 1e-7},
     {"$": "ScipySolveIvpSolver", "method": "LSODA", **TIGHT}, {"$": "ScipySolveIvpSolver"},
     {"$": "ScipySolveIvpSolver", "method": "Radau"}, {"$": "ScipyOdeIntSolver"}, {"$": "ScipyOdeIntSolver", **TIGHT}]


def tolerance(s):
    if s.get("rtol"):
        return {"BDF": 2e-4, "vode": 2e-6, "lsoda": 2e-6, "LSODA": 5e-6}.get(s.get("method", s.get("integrator")), 1e-6) \
            if s.get("method") != "bdf" else 5e-6
    return model.tolerance({"solver": s}) * 2


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, supply=0, motor=0.9, init=0.6, load=0.85, load_kinds=("Poly", "Poly", "Const", "Ext"), wrappers=0, ref=0,
                       reward=0, constraints=0, filter=0, vis=0, solver=0, conv=0.5, interlock=0.0)
    _, _, m = spec.split(cfg)
    if "1QC" in spec.conv_types(cfg):
        cfg.pop("conv")
    cfg["constraints"] = []
    tau = cfg.get("tau", spec.TAU[spec.split(cfg)[0]])
    if rng.random() < 0.3:
        t0 = rng.randint(0, 8)
        cfg["supply"] = {"$": "DipSupply", "u_nominal": spec.MOTORS[m]["u"], "dips":
                         [[(t0 - 0.5) * tau, (t0 + rng.randint(1, 6) - 0.5) * tau, rng.choice([0.0, 0.4, 1.2])]]}
    sol = [[s, rng.choice([None, None, True, False])] for s in rng.sample(S, rng.choice([2, 3]))]
    return {"cfg": cfg, "ops": gen_ops(rng, cfg, episodes=(1, 2), steps=(5, 14)), "sol": sol, "euler": rng.random() < 0.4}


def play(cfg, ops, solver, jac, ctx=None, want_jac=False):
    spy = parts.SpySolver(build.obj(solver), want_jac)
    kw = {} if jac is None else {"calc_jacobian": jac}
    d = Drive(cfg, ctx, ode_solver=spy, **kw)
    ld = d.u.physical_system.unwrapped.mechanical_load
    if hasattr(ld, "load_parameter"):
        spy.kinks = (0.0, ld.load_parameter["a"] / ld.j_total * 1e-3)
    d.run(ops)
    return d, spy


def run(sc, ctx):
    cfg, ops = sc["cfg"], sc["ops"]
    if cfg.get("load", {}).get("$") in ("ExternalSpeedLoad",):
        sc = dict(sc, sol=[[s, None if j else j] for s, j in sc["sol"]])
    base, bspy = play(cfg, ops, {"$": "ScipySolveIvpSolver", "method": "DOP853", "rtol": 1e-11, "atol": 1e-11}, None, ctx, True)
    tau = base.tau
    if cfg.get("supply", {}).get("$") == "DipSupply" and base.u.physical_system.unwrapped.supply.fired:
        ctx.fault("supply-dip")
    m = spec.split(cfg)[2]
    ld = cfg.get("load", {}).get("$", type(base.u.physical_system.unwrapped.mechanical_load).__name__)
    want = m in spec.DC + spec.AC and ld in ("ConstantSpeedLoad", "PolynomialStaticLoad") and \
        base.u.physical_system.unwrapped.electrical_motor.HAS_JACOBIAN
    ctx.check((bspy.jac is not None) == want, "jacobian-missing", lambda: f"jacobian {bspy.jac} for {m} with {ld}")
    timing(ctx, base, bspy, tau, ops)
    ctx.check(bspy.bad is None, "jacobian", lambda: bspy.bad)
    ctx.probe("jacobian-points", bspy.checked)
    names = list(base.u.physical_system.state_names)
    big = running_max(base.trace)
    for solver, jac in sc["sol"]:
        d, spy = play(cfg, ops, solver, jac)
        if jac is False:
            ctx.check(spy.jac is None, "jacobian-off", "a Jacobian is handed to the solver in spite of calc_jacobian=False")
        timing(ctx, d, spy, tau, ops)
        x = compare(base, d, names, big, tolerance(solver), m)
        ctx.check(x is None, "solvers-disagree", lambda: f"{solver} (jacobian {jac}): {x}")
        ctx.probe("solver-" + solver["$"] + "-" + str(solver.get("integrator", solver.get("method", ""))))
    ctx.nontrivial = sum(1 for r in base.trace if r[0] == "step") >= 5
    if sc["euler"]:
        errs = []
        for n in (1, 16, 256):
            d, spy = play(cfg, ops, {"$": "EulerSolver", "nsteps": n}, None)
            timing(ctx, d, spy, tau, ops)
            errs.append(error(base, d, names, m))
        ctx.probe("euler-refinement")
        scale = max(big)
        if errs[1] < 0.3 * scale and scale < 50:
            ctx.check(errs[2] <= errs[1] / 3 + 2e-6 * scale, "no-convergence", lambda: f"errors of 1, 16, 256 Euler sub steps: {errs}")
            ctx.check(errs[2] <= 0.05 * scale, "no-convergence", lambda: f"errors of 1, 16, 256 Euler sub steps: {errs}")


def running_max(trace):
    out, big = [], 1.0
    for r in trace:
        if r[0] == "reset":
            big = 1.0
        big = max(big, float(np.max(np.abs(r[1]))))
        out.append(big)
    return out


def values(rec, names, m):
    """Comparable entries: angles as points on the circle; field oriented entries of induction machines need a field."""
    s = rec[1]
    v = {}
    for n, x in zip(names, s):
        if n == "epsilon":
            v["cos"], v["sin"] = math.cos(x * math.pi), math.sin(x * math.pi)
        elif m in spec.IM and n[-2:] in ("sd", "sq", "rd", "rq"):
            continue
        else:
            v[n] = float(x)
    return v


def compare(a, b, names, big, tol, m):
    n = 0
    for i, (x, y) in enumerate(zip(a.trace, b.trace)):
        if x[0] != y[0]:
            return f"{x[0]} against {y[0]}"
        n = 0 if x[0] == "reset" else n + 1
        if big[i] > 1e3 or not math.isfinite(big[i]):
            return None
        p, q = values(x, names, m), values(y, names, m)
        for k in p:
            t = (1e-12 if n == 0 else tol) * big[i] * (1 + n / 10) * (20 if k in ("cos", "sin") else 1)
            if not abs(p[k] - q[k]) <= t * (1 + abs(p[k])):
                return f"step {n}: {k} = {q[k]!r} instead of {p[k]!r} (allowed {t:.2g})"
    return None if len(a.trace) == len(b.trace) else "lengths"


def error(a, b, names, m):
    e = 0.0
    for x, y in zip(a.trace, b.trace):
        p, q = values(x, names, m), values(y, names, m)
        for k in p:
            if k[:2] != "u_":
                d = abs(p[k] - q[k])
                e = max(e, d if math.isfinite(d) else math.inf)
    return e


def timing(ctx, d, spy, tau, ops):
    """Every period is integrated once, without gaps, and ends at k*tau."""
    k, t = 0, 0.0
    for c in spy.calls:
        if c[0] == "init":
            k, t = 0, 0.0
            ctx.check(c[1] == 0.0, "time", f"an episode starts at {c[1]}")
            continue
        _, t0, t1, u, y, tr = c
        k += 1
        ctx.check(abs(t0 - t) <= 1e-12 + 1e-9 * tau, "time", lambda: f"integration starts at {t0}, the last one ended at {t}")
        ctx.check(abs(t1 - tr) <= 1e-9 * tau, "time", lambda: f"asked to integrate to {t1}, the solver stands at {tr}")
        ctx.check(abs(t1 - k * tau) <= 1e-9 * tau * (1 + k), "time", lambda: f"period {k} ends at {t1}, should be {k * tau}")
        t = tr
    n = 0
    for r in d.trace:
        n = 0 if r[0] == "reset" else n + 1
    ctx.check(k == n, "time", f"{k} periods integrated for {n} steps")
