"""C22 Closed loops recover within bounded time once disturbances stop."""
import math
import warnings

import gem_controllers as gc
import numpy as np

from .. import build, parts, spec

ID = "C22"
COUNT = {"quick": 260, "thorough": 1500}
RULE = ("random supported drive in closed loop with its automatically designed controller, one to three phases of constant "
        "feasible references; in each phase a seeded sequence of supply dips, load pulses, wrong or stuck sensor readings, lost, "
        "delayed and blanked actions and controller stalls, optionally a plant whose parameters drifted away from the design; "
        "then a bounded number of quiet steps to be back inside the band and to stay there; non-trivial when a fault was injected")
STATES = "drive x quantised observation"
REAL = ["gem_controllers", "gym_electric_motor"]
STUBS = ["supply voltage factor and load pulse (set by the simulator between control steps)",
         "sensor and actuator link between environment and controller (faults are applied there)"]
ASSUMPTIONS = ["without decoupling only speeds whose induced voltage the proportional part alone keeps below the current limit",
               "references that the voltage and current limits allow at the speed of the run",
               "shunt motor and EESM only with current control; finite AC drives and the DFIM have no controller",
               "the band contains the switching ripple of finite control sets and the grid of the operating point tables",
               "while faults are active (and in the steps until the band must be reached) limit violations are not judged; both "
               "environment and controller are reset after them"]
RECHECK = 6

W = {"PermExDc": 300, "SeriesDc": 300, "ShuntDc": 300, "ExtExDc": 300, "PMSM": 314, "SynRM": 314, "SCIM": 314, "EESM": 450}
NAMES = {"CC": {m: v["cc"] for m, v in spec.MOTORS.items()}, "TC": {}, "SC": {}}
KINDS = ["dip", "glitch", "stuck", "lost", "zero", "late", "stall"]


def references(rng, a, t, m):
    if t == "CC":
        if m == "SCIM":
            return [rng.uniform(.2, .4), rng.uniform(-.3, .3)]
        return [rng.uniform(0.05, 0.35) if m in ("SeriesDc", "ShuntDc") or n == "i_e" else rng.uniform(-.35, .35)
                for n in spec.MOTORS[m]["cc"]]
    if t == "TC":
        return [rng.uniform(.02, .28) if m in ("SeriesDc", "SCIM") and m == "SeriesDc" else rng.uniform(-.28, .28)]
    return [rng.uniform(.05, .3)]


def bounds(a, t, m):
    """Quiet steps until the band must be reached, the band (in parts of the limit), steps in which a limit violation may
    still be the result of the faults."""
    if a == "Cont":
        n, band = {"CC": (200, 0.01), "TC": (200, 0.01), "SC": (2500, 0.02)}[t]
        if t == "TC" and m in ("PMSM", "SynRM"):
            band = 0.02
        if (t, m) == ("TC", "SCIM"):
            n, band = 1600, 0.06
        return n, band, 20
    n, band = {"CC": (1000, 0.17), "TC": (1000, 0.17), "SC": (4000, 0.02)}[t]
    if t != "SC" and m == "SeriesDc":
        band = 0.01
    if (t, m) == ("TC", "ExtExDc"):
        band = 0.06
    if t == "SC" and m != "ExtExDc":
        n, band = 20000, 0.03
    return n, band, 100


def gen(rng, tier):
    r = rng.random()
    t = "CC" if r < 0.55 else ("TC" if r < 0.8 else "SC")
    a = rng.choice(["Finite", "Cont", "Cont"])
    mot = {"CC": ["PermExDc", "SeriesDc", "ShuntDc", "ExtExDc", "PMSM", "SynRM", "SCIM", "EESM"],
           "TC": ["PermExDc", "SeriesDc", "ExtExDc", "PMSM", "SynRM", "SCIM"],
           "SC": ["PermExDc", "SeriesDc", "ExtExDc", "PMSM", "SynRM"]}[t]
    m = rng.choice([x for x in mot if a == "Cont" or x in spec.DC])
    slow = (a, t) == ("Finite", "SC") and m != "ExtExDc"
    if slow and (tier == "quick" or rng.random() < 0.5):
        a = "Cont"
    sc = {"id": f"{a}-{t}-{m}-v0", "omega": rng.uniform(0, 0.3) * W[m], "phases": [], "seed": rng.randrange(2**31),
          "decoupling": rng.random() < 0.75, "drift": None,
          "full": rng.random() < 0.3}
    if not sc["decoupling"]:
        # without feed forward the induced voltage first drives the current away from its reference
        sc["decoupling"] = t == "SC"
        if m in ("PermExDc", "ExtExDc", "ShuntDc"):
            sc["omega"] *= 0.2
    if t != "TC" and rng.random() < 0.3:
        sc["drift"] = [rng.uniform(0.9, 1.1), rng.uniform(0.9, 1.1)]
    for j in range(rng.randint(1, 3 if t != "SC" else 2)):
        ev = []
        n = rng.choice([0, 5, 20, 60]) if j == 0 else rng.choice([5, 20, 60])
        for _ in range(rng.randint(1, 5) if n else 0):
            k = rng.choice(KINDS + (["load"] * 2 if t == "SC" else []))
            arg = {"dip": rng.uniform(0.3, 0.95), "glitch": [rng.randrange(30), rng.uniform(-1.2, 1.2)],
                   "late": rng.randint(1, 3), "load": rng.uniform(0.0 if m == "SeriesDc" else -0.3, 0.3)}.get(k)
            k0 = rng.randrange(n)
            ev.append([k, k0, rng.randint(1, min(n - k0, 12)), arg])
        sc["phases"].append({"ref": references(rng, a, t, m), "n": n, "ev": ev})
    if (t, m) == ("SC", "SeriesDc"):       # its current cannot brake
        for p, v in zip(sc["phases"], sorted(p["ref"] for p in sc["phases"])):
            p["ref"] = v
    return sc


def shrink(sc):
    from ..run import generic_shrink
    for j, p in enumerate(sc["phases"]):
        for i in range(len(p["ev"])):
            q = {**p, "ev": p["ev"][:i] + p["ev"][i + 1:]}
            if not q["ev"]:
                q["n"] = 0
            yield {**sc, "phases": sc["phases"][:j] + [q] + sc["phases"][j + 1:]}
        for i, e in enumerate(p["ev"]):
            if e[2] > 1:
                q = {**p, "ev": p["ev"][:i] + [[e[0], e[1], e[2] // 2, e[3]]] + p["ev"][i + 1:]}
                yield {**sc, "phases": sc["phases"][:j] + [q] + sc["phases"][j + 1:]}
    if sc["drift"]:
        yield {**sc, "drift": None}
    yield from generic_shrink(sc)


class Loop:
    def __init__(self, sc, ctx):
        self.ctx = ctx
        a, t, m = spec.split(sc)
        self.a, self.t, self.m = a, t, m
        M = spec.MOTORS[m]
        self.names = {"CC": M["cc"], "TC": ["torque"], "SC": ["omega"]}[t]
        u_nom = 300.0 if (m, t, a) == ("PMSM", "CC", "Cont") else (420.0 if m in spec.AC else 60.0)
        self.supply, self.prog = parts.LiveSupply(u_nominal=u_nom), parts.Program(self.names, sc["phases"][0]["ref"])
        cfg = {"id": sc["id"]}
        motor = {}
        if m == "EESM":
            motor["l_m"] = 1e-3
        cfg["wrappers"] = [{"$": "FluxObserver"}] if m == "SCIM" else []

        def env(par, **kw):
            c = dict(cfg)
            if par:
                c["motor"] = {"motor_parameter": par}
            return build.make(c, **kw)
        self.load = None
        if t == "SC":
            self.load = parts.LiveLoad(load_parameter=dict(a=0.01, b=0.01, c=0.0))
            kw = {"load": self.load}
            design = env(motor, load=parts.LiveLoad(load_parameter=dict(a=0.01, b=0.01, c=0.0)))
        else:
            import gym_electric_motor as gem
            kw = {"load": gem.physical_systems.ConstantSpeedLoad(omega_fixed=sc["omega"])}
            design = env(motor, load=gem.physical_systems.ConstantSpeedLoad(omega_fixed=sc["omega"]))
        plant = dict(motor)
        if sc["drift"]:
            ctx.fault("parameter drift")
            fr, fl = sc["drift"]
            for k, v in M["params"].items():
                v = motor.get(k, v)
                if k in ("r_a", "r_e", "r_s", "r_r"):
                    plant[k] = v * fr
                elif k in ("l_a", "l_e", "l_d", "l_q", "l_m", "l_sigs", "l_sigr", "l_e_prime"):
                    plant[k] = v * fl
        self.env = env(plant, supply=self.supply, reference_generator=self.prog, **kw)
        self.c = gc.GemController.make(design, sc["id"], block_diagram=False, decoupling=sc["decoupling"])
        u = self.env.unwrapped
        self.u = u
        self.idx = [list(u.state_names).index(n) for n in self.names]
        self.zero = {"discrete": 0}.get(spec.action_space({"id": sc["id"]})[0])
        self.episodes = 0
        self.begin(sc["seed"])

    def begin(self, seed=None):
        (self.s, self.r), _ = self.env.reset(seed=seed)
        self.c.reset()
        self.sent = []
        self.seen = np.array(self.s)
        self.episodes += 1

    def step(self, active=()):
        """One control step under the active faults; returns whether the episode ended."""
        ctx = self.ctx
        kinds = {e[0]: e[3] for e in active}
        s = np.array(self.s)
        if "glitch" in kinds:
            i, v = kinds["glitch"]
            s[i % len(s)] = v
        if "stuck" in kinds:
            s = self.seen
        self.seen = s
        for k in kinds:
            ctx.fault(k)
        last = self.sent[-1] if self.sent else None
        if "stall" in kinds and last is not None:
            act = last
        else:
            act = self.c.control(s, self.r)
        self.sent.append(act)
        if "late" in kinds and len(self.sent) > kinds["late"]:
            act = self.sent[-1 - kinds["late"]]
        if "lost" in kinds and last is not None:
            act = last
        if "zero" in kinds:
            act = type(act)(0) if np.ndim(act) == 0 else np.zeros_like(act)
        self.sent = self.sent[-5:]
        self.supply.factor = kinds.get("dip", 1.0)
        if self.load is not None:
            self.load.extra = kinds.get("load", 0.0) * spec.MOTORS[self.m]["nominal"].get("torque", 1.0)
        (self.s, self.r), _, term, _, _ = self.env.step(act)
        ctx.steps += 1
        ctx.sim_time += self.u.physical_system.tau
        ctx.log(np.array(self.s))
        return term

    def error(self, ref):
        return max(abs(float(self.s[i]) - v) for i, v in zip(self.idx, ref))


def phases(sc, ctx, quiet, done=lambda err: False):
    """Generator over the phases: (number, phase, errors in the quiet part, steps at which the episode ended in it)."""
    lp = Loop(sc, ctx)
    for j, p in enumerate(sc["phases"]):
        lp.prog.values = list(p["ref"])
        if j == 0:
            lp.begin(sc["seed"])
        for k in range(p["n"]):
            if lp.step([e for e in p["ev"] if e[1] <= k < e[1] + e[2]]):
                ctx.probe("limit violation under faults")
                lp.begin()
        err, trips = [], []
        for k in range(quiet):
            if lp.step():
                trips.append(k)
                lp.begin()
            err.append(lp.error(p["ref"]))
            if k % 50 == 0:
                ctx.obs_state(sc["id"], lp.s)
            if done(err):
                break
        yield j, p, err, trips


def run(sc, ctx):
    warnings.simplefilter("ignore")
    a, t, m = spec.split(sc)
    settle, band, grace = bounds(a, t, m)
    hold = max(100, settle // 4)
    faults = bool(sc["drift"])

    def done(err):
        return not sc["full"] and len(err) >= hold and len(err) % 25 == 0 and max(err[-hold:]) <= band
    for j, p, err, trips in phases(sc, ctx, settle + hold, done):
        what = f"{sc['id']} at {sc['omega']:.1f} rad/s, phase {j} reference {p['ref']} after {p['ev']}"
        faults = faults or bool(p["ev"])
        late = [k for k in trips if k >= (grace if p["ev"] else 0)]
        ctx.check(not late, "limit-violation", lambda: f"{what}: limit violation {late[:3]} steps after the last fault")
        tail = err[settle:] if len(err) > settle else err[-hold:]
        ctx.check(max(tail) <= band, "not-settled",
                  lambda: f"{what}: error {max(tail):.4g} (allowed {band}) {settle} quiet steps after the last fault; errors "
                          f"{[round(x, 4) for x in err[::max(1, len(err) // 12)]]}")
        ctx.probe("settled " + t)
    ctx.nontrivial = ctx.nontrivial or faults
