"""C15 Limit supervision never misses a violation and never invents one."""
import math

import numpy as np
from gym_electric_motor.constraints import SquaredConstraint
from gym_electric_motor.core import ConstraintMonitor
from gymnasium.spaces import Box

from .. import oracle, parts, spec
from ..core import Skip
from ..drive import Drive, gen_ops

ID = "C15"
COUNT = {"quick": 1300, "thorough": 16000}
RULE = ("random drives with limit, squared, soft and mixed constraints, all merge rules and wrapper stacks, over several episodes; "
        "sensor faults (values on, next to and far beyond the limits, gain errors, not-a-number, infinities), supply dips, load steps "
        "and numerically diverging drives; optionally two environments taking turns; after each step the termination flag is compared "
        "with an own evaluation of the constraints on the delivered state; non-trivial when a fault hit or an episode was ended")
STATES = "constraint kinds x merge rule x violated x first step of violation"

NEXT = [1.0, -1.0, math.nextafter(1.0, 2.0), -math.nextafter(1.0, 2.0), math.nextafter(1.0, 0.0), 1.0 + 1e-9, 0.999, 1.2, -3.0, 0.6, 0.8,
        1e300, "nan", "inf", "-inf", ["*", 3.0], ["*", -1.0], ["*", 30.0]]


def g_env(rng):
    div = rng.random() < 0.12
    cfg = spec.gen_cfg(rng, constraints=0.85, wrappers=0.5, noise=rng.random() < 0.3, ref=0.2, reward=0.1, filter=0.3, solver=0.3,
                       vis=0, interlock=0.2)
    m = spec.split(cfg)[2]
    if cfg.get("constraints") and rng.random() < 0.6:
        cfg["merge"] = rng.choice(["max", "product", {"$f": "mean"}])
    if rng.random() < 0.25:
        names = spec.all_state_names(cfg)
        cfg["constraints"] = list(cfg.get("constraints", [])) + [
            {"$f": "soft", "i": rng.randrange(len(names)), "lo": rng.choice([0.0, 0.1, 0.3, 0.6]), "hi": rng.choice([1.0, 1.5, 3.0])}
            for _ in range(rng.randint(2, 3))]
        cfg["merge"] = rng.choice(["max", "product", "product", {"$f": "mean"}])
    if rng.random() < 0.2:
        names = spec.all_state_names(cfg)
        tail = names[-4:] + ["u_sup"] * 3
        cfg["constraints"] = list(cfg.get("constraints", [])) + [rng.choice([
            rng.choice(tail), {"$": "SquaredConstraint", "states": {"$t": [rng.choice(tail), rng.choice(names)]}}])]
    sc = {"cfg": cfg}
    ops = gen_ops(rng, cfg, episodes=(1, 4), steps=(4, 30), amp=rng.choice([None, 0.2, 1.0]))
    sc["ops"] = ops
    if div:
        mp = cfg.setdefault("motor", {}).setdefault("motor_parameter", {})
        for k in ("l_a", "l_d", "l_q", "l_e"):
            if k in spec.MOTORS[m]["params"] and m != "EESM":
                mp[k] = spec.MOTORS[m]["params"][k] * 1e-3
        cfg["solver"] = {"$": "EulerSolver", "nsteps": 1}
        cfg["tau"] = 2e-4
        sc["div"] = True
        if cfg.get("load", {}).get("$") == "ExternalSpeedLoad" or cfg.get("load", {}).get("$") == "OrnsteinUhlenbeckLoad":
            cfg["load"]["tau"] = 2e-4
    names = spec.all_state_names(cfg)
    if rng.random() < 0.75:
        plan, hot = [], []
        cs = oracle.constraints(cfg, names)
        for kind, arg in cs:
            hot += [arg.i] if kind == "soft" else list(arg)
        hot = hot or list(range(len(names)))
        for _ in range(rng.randint(1, 5)):
            k = rng.randint(1, 25)
            i = rng.choice(hot) if rng.random() < 0.8 else rng.randrange(len(names))
            plan.append([k, i, rng.choice(NEXT)])
            if rng.random() < 0.3:
                plan.append([k, rng.choice(hot), rng.choice(NEXT)])
        sp = {"$": "Spike", "plan": plan}
        ws = list(cfg.get("wrappers", []))
        if rng.random() < 0.7 or not ws:
            ws.append(sp)
        else:
            ws.insert(rng.randrange(len(ws)), sp)
        cfg["wrappers"] = ws
    if rng.random() < 0.15 and "load" not in cfg and "supply" not in cfg and m not in spec.IM:
        cfg["supply"] = {"$": "DipSupply", "u_nominal": spec.MOTORS[m]["u"], "dips": [[rng.uniform(0, 1e-3), rng.uniform(1e-3, 3e-3),
                                                                                     rng.choice([0.0, 0.5, 4.0, 30.0])]]}
    return sc


def gen(rng, tier):
    if rng.random() < 0.04:
        n = rng.randint(2, 7)
        return {"envs": [], "mix": [], "plain": {"limits": [10 ** rng.uniform(-2, 3) for _ in range(n)], "positive": rng.random() < .3,
                                                 "normed": rng.random() < .4, "states": rng.sample(range(n), rng.randint(1, n)),
                                                 "seed": rng.randrange(2**31)}}
    return {"envs": [g_env(rng) for _ in range(1 if rng.random() < 0.8 else 2)], "mix": [rng.random() < 0.5 for _ in range(60)]}


def shrink(sc):
    from ..run import generic_shrink as _g
    if sc.get("plain"):
        return
    if len(sc["envs"]) > 1:
        for e in sc["envs"]:
            yield {**sc, "envs": [e]}
        return
    e = sc["envs"][0]
    for x in _g({"ops": e["ops"]}):
        yield {**sc, "envs": [{**e, "ops": x["ops"]}]}
    for cfg in spec.simplify_cfg(e["cfg"]):
        yield {**sc, "envs": [{**e, "cfg": cfg}]}


class One:
    def __init__(self, e, ctx):
        self.e, self.ctx, self.cfg = e, ctx, e["cfg"]
        self.rec = parts.Recorder()
        self.d = Drive(self.cfg, ctx, [self.rec])
        self.names = spec.all_state_names(self.cfg)
        ctx.check(list(self.d.u.physical_system.state_names) == self.names, "state-names",
                  lambda: f"{self.d.u.physical_system.state_names} != {self.names}")
        p = self.d.u.physical_system
        while True:
            ctx.check({k: int(v) for k, v in p.state_positions.items()} == {n: i for i, n in enumerate(p.state_names)}, "positions",
                      lambda: f"{type(p).__name__}: {p.state_positions} for {p.state_names}")
            if p is p.unwrapped:
                break
            p = p.physical_system
        m = spec.split(self.cfg)[2]
        lim = {**spec.MOTORS[m]["limits"], **self.cfg.get("motor", {}).get("limit_values", {})}
        for k in ("omega", "i_a", "i_e", "i"):
            if k in self.names and k in lim and not (k == "i_a" and m in spec.AC):
                got = float(self.d.u.physical_system.limits[self.names.index(k)])
                ctx.check(abs(got - lim[k]) <= 1e-9 * abs(lim[k]), "limit", lambda: f"limit of {k}: {got}, configured {lim[k]}")
        if m in spec.AC:
            for k in ("i_a", "i_b", "i_c", "i_sd", "i_sq", "i_sa", "i_sb", "i_sc"):
                if k in self.names:
                    got = float(self.d.u.physical_system.limits[self.names.index(k)])
                    ctx.check(abs(got - lim["i"]) <= 1e-9 * lim["i"], "limit", lambda: f"limit of {k}: {got}, configured {lim['i']}")
        self.ops = iter(e["ops"])
        self.n = 0
        self.cs = oracle.constraints(self.cfg, self.names)

    def next(self):
        op = next(self.ops, None)
        if op is None:
            return False
        ctx, d = self.ctx, self.d
        if op[0] == "r":
            d.reset(op[1])
            self.n = 0
            return True
        if d.terminated:
            return True
        try:
            d.step(op[1])
        except Exception as e:
            # a drive that diverged cannot always be integrated on
            last = [x for x in self.rec.events if x[1] == "step_end"]
            if (self.e.get("div") or last and (not np.all(np.isfinite(last[-1][3])) or np.max(np.abs(last[-1][3])) > 1e6)):
                raise Skip(f"solver gave up: {e}")
            raise
        self.n += 1
        ev = self.rec.events[-1]
        s = ev[3]
        deg, amb = oracle.violation(self.cfg, self.names, s)
        term = d.trace[-1][4]
        fin = all(math.isfinite(x) for x in s)
        for v in s:
            if not math.isfinite(v):
                ctx.fault("non-finite value")
                break
        if not amb and not (deg != deg):
            want = deg >= 1.0
            ctx.check(term == want, "missed" if want else "invented",
                      lambda: f"step {self.n}: terminated {term}, degree {deg}, constraints {self.cfg.get('constraints', 'default')} "
                              f"({self.cfg.get('merge', 'max')}), values {[(self.names[i], s[i]) for k, a in self.cs for i in ([a.i] if k == 'soft' else a)]}")
            got = float(self.d.u.constraint_monitor.check_constraints(np.array(s, dtype=float)))
            ctx.check(abs(got - deg) <= 1e-9, "degree", lambda: f"step {self.n}: degree {got}, expected {deg}; constraints "
                      f"{self.cfg.get('constraints', 'default')} ({self.cfg.get('merge', 'max')}), state {list(s)}")
            ctx.check(ev[6] == term, "callback-flag", f"step {self.n}: callbacks see {ev[6]}, the caller {term}")
        ctx.state([k for k, _ in self.cs], str(self.cfg.get("merge")), term, self.n if term else 0, fin, round(4 * deg))
        if term:
            ctx.probe("episodes ended")
            ctx.nontrivial = True
        return True


def plain(p, ctx):
    """Squared constraints on systems of other makes, whose states are normalised or in their units."""
    n, lim = len(p["limits"]), np.array(p["limits"])
    names = [f"s{i}" for i in range(n)]
    high = np.ones(n) if p["normed"] else lim

    class System:
        state_names, state_positions, limits = names, {k: i for i, k in enumerate(names)}, lim
        nominal_state = lim
        state_space = Box(0 * high if p["positive"] else -high, high, dtype=np.float64)
    c = SquaredConstraint([names[i] for i in p["states"]])
    cm = ConstraintMonitor([], [c])
    cm.set_modules(System())
    g = np.random.default_rng(p["seed"])
    for _ in range(30):
        x = g.normal(size=len(p["states"]))
        r = g.choice([0.5, 0.9, 0.999, 1.001, 1.1, 3.0])
        s = g.uniform(-5, 5, n)
        s[p["states"]] = r * x / np.linalg.norm(x)
        if not p["normed"]:
            s = s * lim
        got = float(cm.check_constraints(s))
        ctx.steps += 1
        ctx.check((got >= 1) == (r > 1), "squared", lambda: f"SquaredConstraint on {p['states']} of {s.tolist()}, limits {p['limits']}: {got}, expected radius {r}")
    ctx.probe("other systems")
    ctx.state("plain", n, p["normed"], len(p["states"]))
    ctx.nontrivial = True


def run(sc, ctx):
    if sc.get("plain"):
        return plain(sc["plain"], ctx)
    es = [One(e, ctx) for e in sc["envs"]]
    for one in es:
        for w in one.cfg.get("wrappers", []):
            if w["$"] == "Spike":
                one.spike = True
    alive = list(es)
    k = 0
    while alive:
        one = alive[sc["mix"][k % len(sc["mix"])] % len(alive)]
        k += 1
        if not one.next():
            alive.remove(one)
    for one in es:
        p = one.d.u.physical_system
        while p is not p.unwrapped:
            if isinstance(p, parts.Spike):
                if p.fired:
                    ctx.fault("sensor fault", p.fired)
            p = p.physical_system
        s = p.supply
        if getattr(s, "fired", 0):
            ctx.fault("supply dip", s.fired)
