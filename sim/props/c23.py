"""C23 Torque controllers choose feasible and efficient operating points at every speed."""
import math
import warnings

import gem_controllers as gc
import numpy as np
from gem_controllers.stages.operation_point_selection import EESMOperationPointSelection

from .. import build, parts, spec
from . import c22

ID = "C23"
COUNT = {"quick": 110, "thorough": 900}
CAP = {"quick": 110, "thorough": 780}
RULE = ("random synchronous or DC motor (inductances, flux, resistance, voltage and current limits, current margin) with its "
        "automatically designed torque controller, driven through one to four phases of torque reference and speed up to "
        "several times the base speed; in each phase a seeded sequence of supply dips, wrong or stuck sensor readings, lost, "
        "delayed and blanked actions and controller stalls, then quiet steps; non-trivial when a phase ended above the base "
        "speed or a fault was injected")
STATES = "motor x quantised (speed, torque reference, commanded currents)"
REAL = ["gem_controllers", "gym_electric_motor"]
STUBS = ["speed of the drive train and supply voltage factor (set by the simulator between control steps)",
         "sensor and actuator link between environment and controller (faults are applied there)",
         "table sizes of the externally excited motor's operating points (smaller, the shipped ones take a minute)"]
ASSUMPTIONS = ["electrical speeds of less than a quarter radian per control step",
               "speeds at which the current limit can hold the stator flux within the voltage limit",
               "optimality is judged on the resolution of the controllers' tables and with the voltage reserve of the modulation "
               "controller; for motors with permanent magnets and l_d above l_q only the invariants are judged, for the "
               "induction motor also its copper losses",
               "the externally excited motor has to reach 65 % of large and the resolution of the tables for small references, "
               "below 75 % of the voltage (operating points between the table entries)"]
RECHECK = 4

KINDS = ["dip", "glitch", "stuck", "lost", "zero", "late", "stall"]
RESERVE = 0.953      # documented modulation level of the controller
LAG = 400            # time constant of the speed in control steps
QUIET = 8000         # quiet steps until the operating point must be reached
GRACE = 2400         # steps in which a limit violation may still be the result of faults or of the change of speed


def gen(rng, tier):
    m = rng.choice(["PMSM"] * 8 + ["SynRM"] * 3 + ["PermExDc", "ExtExDc", "SeriesDc"] * 2 + ["SCIM"] * 2 + ["EESM"] * 2)
    sc = {"id": f"Cont-TC-{m}-v0", "margin": rng.choice([0.15, 0.2, 0.2, 0.25, 0.3, 0.4]), "seed": rng.randrange(2**31),
          "phases": [], "motor": {}, "u": None}
    if m in ("PMSM", "SynRM"):
        p, volt, wb = rng.randint(1, 5), rng.choice([24., 80., 150., 300.]), rng.uniform(150, 500)
        cur = rng.choice([5., 20., 100., 400.])
        v, i = volt / 2, cur * (1 - sc["margin"])
        psi = v / wb                                      # flux at the base speed and full current
        par = {"p": p, "r_s": rng.uniform(.02, .12) * v / cur, "j_rotor": 1e-3}
        if m == "PMSM":
            k = rng.uniform(.35, .95)
            par["psi_p"] = k * psi
            par["l_q"] = math.sqrt(1 - k * k) * psi / i * rng.uniform(.7, 1.)
            par["l_d"] = par["l_q"] * rng.choice([1., rng.uniform(.3, .95), rng.uniform(.3, .95), rng.uniform(.3, .95)])
            if rng.random() < .08:
                par["l_d"] = par["l_q"] * rng.uniform(1.1, 2.)
            rest = par["psi_p"] - .9 * par["l_d"] * i
        else:
            par["l_d"] = psi / i * rng.uniform(.9, 1.2)
            par["l_q"] = par["l_d"] * rng.uniform(.15, .6)
            if rng.random() < .2:
                par["l_d"], par["l_q"] = par["l_q"], par["l_d"]
            rest = 0.
        w_max = wb * rng.uniform(.8, 4.5)
        if rest > 0:
            w_max = min(w_max, .8 * v / rest)
        sc["tau"] = rng.uniform(.08, .2) / w_max
        sc["u"] = volt
        w_max /= p
        sc["motor"] = {"motor_parameter": par, "limit_values": {"omega": 1.3 * w_max, "i": cur, "u": volt},
                       "nominal_values": {"omega": wb / p, "i": cur * rng.uniform(.5, 1.), "u": volt}}
        if rng.random() < .5:
            x = np.linspace(0, cur, 200)
            k = np.abs(par.get("psi_p", 0.0) - (par["l_d"] - par["l_q"]) * x) * np.sqrt(cur ** 2 - x ** 2)
            sc["motor"]["limit_values"]["torque"] = 1.4 * 1.5 * p * float(k.max())
    elif m == "EESM":
        u = lambda: rng.uniform(.7, 1.4)
        par = {"l_d": 1.66e-3 * u(), "l_q": .35e-3 * u(), "l_e": 1.74e-3 * u(), "l_m": rng.uniform(.6e-3, 1e-3), "r_s": 15.55e-3 * u(),
               "r_e": 7.2e-3 * u(), "p": rng.randint(1, 4)}
        i = 150. * (1 - sc["margin"])
        w_max = min(.7 * 160. / math.hypot(par["l_m"] * i, par["l_q"] * i) / par["p"], 400.)
        sc["motor"] = {"motor_parameter": par, "limit_values": {"torque": 1.4 * 1.5 * par["p"] * par["l_m"] * i * i}}
    else:
        w_max = {"SCIM": 90.}.get(m, 300.)
        if m == "SCIM":
            sc["u"], sc["margin"] = 420., 0.2
    for j in range(rng.randint(1, 4)):
        n = rng.choice([0, 5, 20, 60])
        ev = []
        for _ in range(rng.randint(1, 4) if n else 0):
            k = rng.choice(KINDS)
            arg = {"dip": rng.uniform(.3, .95), "glitch": [rng.randrange(30), rng.uniform(-1.2, 1.2)],
                   "late": rng.randint(1, 3)}.get(k)
            k0 = rng.randrange(n)
            ev.append([k, k0, rng.randint(1, min(n - k0, 12)), arg])
        w = rng.choice([0., rng.uniform(0, .5), rng.uniform(.3, 1.), rng.uniform(.6, 1.), 1.]) * w_max
        if m in spec.AC and m != "SCIM" and rng.random() < .4:
            w = -w
        t = (.95 if "torque" in sc["motor"].get("limit_values", {"torque": 0}) else .8) * rng.choice([0., 1., -1., rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(-.4, .4)])
        if m == "SeriesDc":
            t = abs(t)
        if m == "SCIM":
            t *= .28
        if m == "EESM":
            t *= .8 / 1.4 / .95
        sc["phases"].append({"omega": w, "ref": t, "n": n, "ev": ev})
    return sc


def shrink(sc):
    from .c22 import shrink as s
    for c in s({**sc, "drift": None}):
        c.pop("drift", None)
        yield c


def torque(m, par, i, psi_r=None):
    """Torque of the currents by the documented equations."""
    if m == "PMSM":
        return 1.5 * par["p"] * (par["psi_p"] + (par["l_d"] - par["l_q"]) * i["i_sd"]) * i["i_sq"]
    if m == "SynRM":
        return 1.5 * par["p"] * (par["l_d"] - par["l_q"]) * i["i_sd"] * i["i_sq"]
    if m == "EESM":
        return 1.5 * par["p"] * (par["l_m"] * i["i_e"] + (par["l_d"] - par["l_q"]) * i["i_sd"]) * i["i_sq"]
    if m == "SCIM":
        return 1.5 * par["p"] * par["l_m"] / (par["l_m"] + par["l_sigr"]) * psi_r * i["i_sq"]
    if m == "PermExDc":
        return par["psi_e"] * i["i"]
    if m == "SeriesDc":
        return par["l_e_prime"] * i["i"] ** 2
    return par["l_e_prime"] * i["i_a"] * i["i_e"]


def best(par, w, v, imax, sign):
    """Largest torque in the direction of `sign` at the electrical speed w with at most the voltage v and current imax, by
    search over i_sd (steady state: u_d = r i_d - w l_q i_q, u_q = r i_q + w (l_d i_d + psi))."""
    psi, ld, lq, r = par.get("psi_p", 0.0), par["l_d"], par["l_q"], par["r_s"]
    i_d = np.linspace(-imax, 0.0 if psi else imax, 4001)
    a = r * r + (w * lq) ** 2
    e = w * (ld * i_d + psi)
    b = 2 * (r * e - r * i_d * w * lq)
    c = (r * i_d) ** 2 + e ** 2 - v * v
    with np.errstate(invalid="ignore"):
        q = np.sqrt(b * b - 4 * a * c)
        lo, hi = (-b - q) / (2 * a), (-b + q) / (2 * a)
        lim = np.sqrt(np.maximum(imax ** 2 - i_d ** 2, 0.0))
        lo, hi = np.maximum(lo, -lim), np.minimum(hi, lim)
    ok = np.isfinite(lo) & (lo <= hi)
    if not ok.any():
        return None
    k = 1.5 * par["p"] * (psi + (ld - lq) * i_d[ok])
    return float(np.max(np.maximum(sign * k * lo[ok], sign * k * hi[ok])))


def least_current(par, t, imax):
    """Smallest current for the torque t (maximum torque per current)."""
    psi, d = par.get("psi_p", 0.0), par["l_d"] - par["l_q"]
    i_d = np.linspace(-imax, 0.0, 8001)
    k = 1.5 * par["p"] * (psi + d * i_d)
    with np.errstate(divide="ignore", invalid="ignore"):
        i = np.hypot(i_d, t / k)
    return float(np.nanmin(i))


def coarse():
    """Smaller tables of the EESM's operating points (the shipped ones take a minute)."""
    for name, n in (("t_count", 16), ("psi_count", 30), ("i_e_count", 30), ("t_grid_count", 100), ("psi_grid_count", 100)):
        setattr(EESMOperationPointSelection, name, property(lambda _s, n=n: n, lambda _s, _v: None))


def least_losses(par, i):
    """Copper losses of the currents and the smallest ones for their torque in the steady state of an induction motor."""
    l_r = par["l_m"] + par["l_sigr"]
    q = par["r_s"] + par["r_r"] * (par["l_m"] / l_r) ** 2
    return 2 * math.sqrt(par["r_s"] * q) * abs(i["i_sd"] * i["i_sq"]), par["r_s"] * i["i_sd"] ** 2 + q * i["i_sq"] ** 2


class Loop(c22.Loop):
    def __init__(self, sc, ctx):
        self.ctx = ctx
        self.a, self.t, self.m = spec.split(sc)
        m = self.m
        self.names = ["torque"]
        self.supply = parts.LiveSupply(u_nominal=sc["u"] or spec.MOTORS[m]["u"])
        self.prog = parts.Program(["torque"], [0.0])
        cfg = {"id": sc["id"], "wrappers": [{"$": "FluxObserver"}] if m == "SCIM" else []}
        if sc["motor"]:
            cfg["motor"] = sc["motor"]
        if "tau" in sc:
            cfg["tau"] = sc["tau"]
        self.par = {**spec.MOTORS[m]["params"], **sc["motor"].get("motor_parameter", {})}

        def env(**kw):
            load = parts.LiveSpeed(load_parameter=dict(a=0.0, b=0.0, c=0.0, j_load=1e-3))
            load.lag = LAG * sc.get("tau", 1e-4)
            return build.make(cfg, load=load, supply=parts.LiveSupply(u_nominal=self.supply.u_nominal), **kw), load
        self.c = gc.GemController.make(env()[0], sc["id"], block_diagram=False, current_safety_margin=sc["margin"])
        self.env, self.speed = env(reference_generator=self.prog)
        u = self.u = self.env.unwrapped
        self.supply = u.physical_system.supply
        self.load = None
        self.n = list(u.state_names)
        self.lim = dict(zip(self.n, map(float, u.limits)))
        self.episodes = 0
        self.sent = []

    def phys(self, name):
        return float(self.s[self.n.index(name)]) * self.lim[name]


def along(par, w, v, imax):
    """Torque of a reluctance motor along |i_sd| = |i_sq| at the voltage v, at most the current imax (see known findings)."""
    r, ld, lq = par["r_s"], par["l_d"], par["l_q"]
    x = min(v / math.hypot(r + abs(w) * lq, r - abs(w) * ld), v / math.hypot(r - abs(w) * lq, r + abs(w) * ld),
            imax / math.sqrt(2))
    return 1.5 * par["p"] * abs(ld - lq) * x * x


def least_excited(par, t, lim, i):
    """Smallest, actual and largest losses (as weighted by the controller) of the externally excited motor at the torque t."""
    x = np.linspace(-lim["i_sd"], lim["i_sd"], 121)[:, None]
    e = np.linspace(0, lim["i_e"], 121)[None, :]
    with np.errstate(all="ignore"):
        y = t / np.abs(1.5 * par["p"] * (par["l_m"] * e + (par["l_d"] - par["l_q"]) * x))
        loss = np.where(np.hypot(x, y) <= lim["i_sd"], par["r_s"] * (np.abs(x) + y) + par["r_e"] * e, np.inf)
    return (float(np.min(loss)), par["r_s"] * (abs(i["i_sd"]) + abs(i["i_sq"])) + par["r_e"] * abs(i["i_e"]),
            par["r_s"] * lim["i_sd"] + par["r_e"] * lim["i_e"])


def commanded(ctrl):
    return {str(k): float(v) for k, v in ctrl.references.items()}


def limits(sc, lp, m):
    """Current limit with the margin of the controller."""
    return {n: (1 - sc["margin"]) * lp.lim[n] for n in
            {"PermExDc": ["i"], "SeriesDc": ["i"], "ExtExDc": ["i_a", "i_e"], "EESM": ["i_sd", "i_sq", "i_e"]}.get(m, ["i_sd", "i_sq"])}


def feasible(ctx, what, i, lim):
    """The commanded currents are numbers within the current limit."""
    ctx.check(all(math.isfinite(v) for v in i.values()), "not-finite", lambda: f"{what}: commanded currents {i}")
    if "i_sq" in i:
        ok = math.hypot(i["i_sd"], i["i_sq"]) <= lim["i_sd"] * (1 + 1e-6) and abs(i.get("i_e", 0.0)) <= lim.get("i_e", 0.0) * (1 + 1e-6)
    else:
        ok = all(abs(v) <= lim[k] * (1 + 1e-6) for k, v in i.items())
    ctx.check(ok, "above-limit", lambda: f"{what}: commanded currents {i} above {lim}")


def run(sc, ctx):
    warnings.simplefilter("ignore")
    if spec.split(sc)[2] == "EESM":
        coarse()
    lp = Loop(sc, ctx)
    m, par, lim = lp.m, lp.par, limits(sc, lp, lp.m)
    sync = m in ("PMSM", "SynRM")
    unusual = m == "PMSM" and par["l_d"] > par["l_q"]
    t_lim = lp.lim["torque"]
    tol = 1e-6 * t_lim
    if sync:
        imax = lim["i_sd"]
        top = 1.5 * par["p"] * (par.get("psi_p", 0.0) + abs(par["l_d"] - par["l_q"]) * lp.lim["i_sd"]) * lp.lim["i_sd"]
        tol = max(t_lim, top) / 249 * 1.05         # half a step of the controllers' torque grid
    if m == "EESM":
        tol = .04 * t_lim / 1.4
    for j, p in enumerate(sc["phases"]):
        lp.prog.values, lp.speed.target = [p["ref"]], p["omega"]
        if j == 0:
            lp.begin(sc["seed"])
        ref = p["ref"] * t_lim
        what = f"{sc['id']} {sc['motor'].get('motor_parameter', '')} phase {j}: torque {ref:.5g} speed {p['omega']:.5g} after {p['ev']}"
        for k in range(p["n"]):
            ended = lp.step([e for e in p["ev"] if e[1] <= k < e[1] + e[2]])
            feasible(ctx, what, commanded(lp.c.controller), lim)
            if ended:
                ctx.probe("limit violation under faults")
                lp.begin()
        # Reluctance motors in flux weakening: their modulation controller is slower than the changes of speed made here, so
        # the current controller may saturate; judged is only that they deliver the torque that is possible
        weak = m == "SynRM" and (along(par, p["omega"] * par["p"], 0.9 * lp.lim["u_sd"], imax)
                                 < 0.999 * min(abs(ref), along(par, 0.0, 1e9, imax)))
        t = []
        for k in range(QUIET):
            ended = lp.step()
            i = commanded(lp.c.controller)
            feasible(ctx, what, i, lim)
            if (sync and not unusual or m == "EESM") and (k or p["n"]):         # the first step still holds the previous reference
                ti = torque(m, par, i)
                ctx.check(ti * np.sign(ref) >= -tol and abs(ti) <= (1.01 if sync else 1.06) * abs(ref) + tol, "wrong-torque",
                          lambda: f"{what}: step {k} commands {i}, a torque of {ti:.5g}")
            if ended:
                if weak:
                    ctx.probe("limit violation while a reluctance motor enters the flux weakening")
                    lp.begin()
                    t = []
                    break
                ctx.check(k < GRACE, "limit-violation", lambda: f"{what}: limit violation {k} steps after the last fault")
                lp.begin()
            t.append(lp.phys("torque"))
            if k % 50 == 0:
                ctx.state(sc["id"], round(6 * lp.phys("omega") / lp.lim["omega"]), round(6 * t[-1] / t_lim),
                          *(round(6 * v / lim[n]) for n, v in i.items()))
            if k >= 2000 and k % 250 == 0 and not verdict(sc, lp, i, t[-200:], ref, tol, imax if sync else None)[0]:
                break
        if not t:
            continue
        bad, note = verdict(sc, lp, i, t[-200:], ref, tol, imax if sync else None)
        if weak and bad != "less-torque":
            bad = None
        ctx.check(bad is None, bad or "", lambda: f"{what}: after {QUIET} quiet steps at {lp.phys('omega'):.5g} rad/s {note}, "
                  f"commanded {i}")
        if p["ev"] or sync and abs(lp.phys("omega")) > sc["motor"]["nominal_values"]["omega"]:
            ctx.nontrivial = True


def verdict(sc, lp, i, t, ref, tol, imax):
    """(kind of violation or None, description) of the operating point reached."""
    m, par, now = lp.m, lp.par, t[-1]
    w = lp.phys("omega") * par.get("p", 1)
    if m in ("PMSM", "SynRM"):
        v = lp.lim["u_sd"]
        most = best(par, w, 0.98 * RESERVE * v, imax, np.sign(ref) or 1.0)
        usual = m == "SynRM" or par["l_d"] <= par["l_q"]
        slack = tol if m == "PMSM" else tol + 0.03 * lp.lim["torque"]
        if usual and most is not None and abs(now) < 0.95 * min(abs(ref), most) - slack or most and now * ref < -tol * abs(ref):
            return "less-torque", f"torque {now:.5g} where {math.copysign(most, ref):.5g} is possible"
    if max(t) - min(t) > 0.02 * lp.lim["torque"] + 0.02 * abs(ref):
        return "not-settled", f"torque between {min(t):.5g} and {max(t):.5g}"
    if m == "SCIM":
        ok = abs(now - ref) <= 0.2 * abs(ref) + 0.02 * lp.lim["torque"]
        if not ok:
            return "torque-missed", f"torque {now:.5g}"
        u = math.hypot(lp.phys("u_sd"), lp.phys("u_sq")) / lp.lim["u_sd"]
        need, got = least_losses(par, i)
        if u < 0.9 * RESERVE and got > 1.03 * need + 1e-3 * par["r_s"] * lp.lim["i_sd"] ** 2:
            return "inefficient", f"copper losses {got:.5g} where {need:.5g} give the torque {now:.5g}"
        return None, ""
    if m == "EESM":
        for n in i:
            if abs(i[n] - lp.phys(n)) > 0.02 * lp.lim[n]:
                return "current-missed", f"{n} {lp.phys(n):.5g}"
        # the operating points are interpolated between roots of a quartic, which may jump: less torque is usual
        u = math.hypot(lp.phys("u_sd"), lp.phys("u_sq")) / lp.lim["u_sd"]
        small = abs(ref) <= 0.5 * lp.lim["torque"] / 1.4
        least = abs(ref) - 1.1 * tol if small else 0.65 * abs(ref) - 1.5 * tol
        ok = -2 * tol <= now * np.sign(ref) <= 1.06 * abs(ref) + tol and (abs(now) >= least or u > 0.75)
        if not ok:
            return "torque-missed", f"torque {now:.5g}"
        need, got, most = least_excited(par, abs(now), limits(sc, lp, m), i)
        if u < 0.75 and got > 1.5 * need + 0.1 * most:
            return "inefficient", f"losses of {got:.5g} where {need:.5g} give the torque {now:.5g}"
        return None, ""
    if abs(now) > abs(ref) * 1.005 + tol or now * ref < -tol * abs(ref):
        return "torque-exceeded", f"torque {now:.5g}"
    if m in ("PMSM", "SynRM"):
        u = math.hypot(lp.phys("u_sd"), lp.phys("u_sq")) / v
        for n in ("i_sd", "i_sq"):
            if abs(i[n] - lp.phys(n)) > 0.02 * lp.lim[n]:
                return "current-missed", f"{n} {lp.phys(n):.5g}"
        if u > 1.01:
            return "voltage", f"voltage {u:.4f} of the limit"
        if not usual or most is None:
            return None, ""
        if u < 0.9 * RESERVE:
            need, got = least_current(par, abs(now), 2 * imax), math.hypot(i["i_sd"], i["i_sq"])
            if need < 0.95 * got - 0.02 * imax and abs(now) > 4 * tol:
                return "inefficient", f"current {got:.5g} where {need:.5g} gives the torque {now:.5g}"
        return None, ""
    want = dc(sc, lp, ref)
    if abs(now - want) > 0.01 * abs(want) + 1e-3 * lp.lim["torque"]:
        return "torque-missed", f"torque {now:.5g} instead of {want:.5g}"
    return None, ""


def dc(sc, lp, ref):
    """Torque within the limits of current and voltage at the speed of the run."""
    m, par = lp.m, lp.par
    w, u, k = lp.phys("omega"), lp.lim["u" if lp.m != "ExtExDc" else "u_a"], 1 - sc["margin"]
    s = np.sign(ref)
    if m == "PermExDc":
        most = min(k * lp.lim["i"], (u - s * w * par["psi_e"]) / par["r_a"]) * par["psi_e"]
    elif m == "SeriesDc":
        i = min(k * lp.lim["i"], u / (par["r_a"] + par["r_e"] + par["l_e_prime"] * w))
        most = par["l_e_prime"] * i * i
    else:
        i_e = math.sqrt(math.sqrt(par["r_a"] / par["r_e"]) * abs(ref) / par["l_e_prime"])     # least copper losses
        i_a = math.sqrt(math.sqrt(par["r_e"] / par["r_a"]) * abs(ref) / par["l_e_prime"])
        i_e = min(i_e, k * lp.lim["i_e"], lp.lim["u_e"] / par["r_e"])
        i_a = min(i_a, k * lp.lim["i_a"], (u - s * w * par["l_e_prime"] * i_e) / par["r_a"])
        most = par["l_e_prime"] * i_a * i_e
    return s * min(abs(ref), most)
