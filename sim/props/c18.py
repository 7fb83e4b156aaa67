"""C18 Rewards equal their definition and stay in the announced range."""
import math

import numpy as np

from .. import build, oracle, parts, spec
from ..core import Skip, interrupt_at
from ..drive import Drive, gen_ops

ID = "C18"
COUNT = {"quick": 1300, "thorough": 16000}
RULE = ("random drives with random weights (names, vectors or one number), powers, biases, discount factors and violation rewards, "
        "constraints including soft ones and all merge rules, references of all kinds and wrapper stacks, over several episodes with "
        "sensor faults, failing and interrupted steps, exchange of the reward function and another environment taking turns; every reward "
        "is recomputed from the state and the reference of the same step; non-trivial when at least 5 rewards were judged")
STATES = "weights and power x violation degree x reward in tenths of the range"


def g_rew(rng, names):
    r = spec.g_reward(rng, names)
    if rng.random() < 0.2:
        k = rng.choice(["list", "one"])
        r["reward_weights"] = [rng.choice([0.0, 0.0, 0.3, 1.0]) for _ in names] if k == "list" else rng.choice([0.5, 1.0])
        if k == "list" and sum(r["reward_weights"]) == 0:
            r["reward_weights"][0] = 1.0
        if isinstance(r.get("reward_power"), dict):
            del r["reward_power"]
    if rng.random() < 0.1:
        r["reward_power"] = [rng.choice([0.5, 1, 2]) for _ in names]
    return r


def g_env(rng):
    cfg = spec.gen_cfg(rng, reward=0, constraints=0.6, wrappers=0.35, noise=rng.random() < 0.3, ref=0.7, filter=0.4, solver=0.2, vis=0.02,
                       interlock=0.2, supply=0.2)
    names = spec.all_state_names(cfg)
    if rng.random() < 0.9:
        cfg["reward"] = g_rew(rng, names)
    if cfg.get("constraints") and rng.random() < 0.5:
        cfg["merge"] = rng.choice(["max", "product", {"$f": "mean"}])
    if rng.random() < 0.2:
        cfg["constraints"] = list(cfg.get("constraints", [])) + [
            {"$f": "soft", "i": rng.randrange(len(names)), "lo": rng.choice([0.0, 0.1, 0.3, 0.6]), "hi": rng.choice([1.0, 1.5, 3.0])}
            for _ in range(rng.randint(1, 3))]
        cfg["merge"] = rng.choice(["max", "product", "product", {"$f": "mean"}])
    if rng.random() < 0.5:
        cs = oracle.constraints(cfg, names)
        hot = [i for kind, a in cs for i in ([a.i] if kind == "soft" else a)] or [0]
        cfg["wrappers"] = list(cfg.get("wrappers", [])) + [{"$": "Spike", "plan": [
            [rng.randint(1, 20), rng.choice(hot) if rng.random() < 0.6 else rng.randrange(len(names)),
             rng.choice([0.0, 0.7, 0.95, 1.0, -0.8, 1.4, "nan", "inf", ["*", 2.0]])] for _ in range(rng.randint(1, 4))]}]
    ops = gen_ops(rng, cfg, episodes=(1, 3), steps=(4, 25), amp=rng.choice([None, 0.2, 1.0]))
    extra = []
    for op in ops:
        extra.append(op)
        r = rng.random()
        if r < 0.02:
            extra.append(["fault", "boom", op[1] if op[0] == "s" else None])
        elif r < 0.04:
            extra.append(["fault", "interrupt", rng.random()])
        elif r < 0.05:
            extra.append(["swap", g_rew(rng, names)])
    return {"cfg": cfg, "ops": extra}


def gen(rng, tier):
    return {"envs": [g_env(rng) for _ in range(1 if rng.random() < 0.8 else 2)], "mix": [rng.random() < 0.5 for _ in range(40)]}


def shrink(sc):
    from .c15 import shrink as s
    yield from s(sc)


class One:
    def __init__(self, e, ctx):
        self.cfg, self.ctx = dict(e["cfg"]), ctx
        self.rec = parts.Recorder()
        self.d = Drive(self.cfg, ctx, [self.rec])
        self.names = spec.all_state_names(self.cfg)
        self.ops = iter(e["ops"])
        self.setup()
        r = self.d.u.reward_range
        ctx.check(all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(r, self.su["range"])), "range",
                  lambda: f"announced {r}, definition {self.su['range']}, {self.cfg.get('reward')}")
        self.n = 0
        self.act = spec.rand_action(__import__("random").Random(1), spec.action_space(self.cfg))

    def setup(self):
        p = self.d.u.physical_system
        cfg, m = self.cfg, spec.split(self.cfg)[2]
        r = dict(cfg.get("reward", {}))
        self.refs = spec.ref_states(cfg["ref"]) if "ref" in cfg else spec.REF_DEFAULT[spec.split(cfg)[1]](m)
        if "reward" not in cfg:
            # the environments have a default reward function with weights of their own, announced by its parameters
            r = self.default(m)
        for k in ("reward_weights", "reward_power"):
            v = r.get(k)
            if isinstance(v, list):
                r[k] = dict(zip(self.names, v))
            elif k == "reward_weights" and isinstance(v, (int, float)):
                r[k] = {s: v for s in self.names}
        self.su = oracle.reward_setup({**cfg, "reward": r}, self.names, p.state_space.high, p.state_space.low, self.refs)
        self.low, self.high = [float(x) for x in p.state_space.low], [float(x) for x in p.state_space.high]

    def default(self, m):
        t = spec.split(self.cfg)[1]
        if t == "SC":
            return {"reward_weights": {"omega": 1.0}}
        if t == "TC":
            return {"reward_weights": {"torque": 1.0}}
        w = {"PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a"], "ExtExDc": ["i_a", "i_e"], "EESM": ["i_sd", "i_sq", "i_e"]}.get(m, ["i_sd", "i_sq"])
        return {"reward_weights": {s: 1.0 if len(w) == 1 else 1 / len(w) for s in w}}

    def next(self):
        op = next(self.ops, None)
        if op is None:
            return False
        ctx, d = self.ctx, self.d
        if op[0] == "swap":
            if self.n == 0 and d.terminated:
                return True
            self.cfg["reward"] = op[1]
            rf = build.obj(op[1])
            rf.set_modules(d.u.physical_system, d.u.reference_generator, d.u.constraint_monitor)
            d.u.reward_function = rf
            ctx.check(all(abs(a - b) < 1e-9 * (1 + abs(b)) for a, b in zip(rf.reward_range, (self.setup(), self.su["range"])[1])), "range",
                      lambda: f"announced {rf.reward_range}, definition {self.su['range']}")
            d.reset(3)
            return True
        if op[0] == "fault":
            if d.terminated:
                return True
            act = build.to_action(d.space, self.act)
            if op[1] == "boom":
                t = parts.Trip(d.u.reference_generator, "get_reference_observation", 1, "before")
                try:
                    d.u.step(act)
                except parts.Boom:
                    ctx.fault("failing reference generator")
                t.restore()
            else:
                fired, _ = interrupt_at(op[2], lambda: d.u.step(act))
                if fired:
                    ctx.fault("interrupt")
            d.reset(4)
            return True
        if op[0] == "r":
            d.reset(op[1])
            return True
        if d.terminated:
            return True
        try:
            rec = d.step(op[1])
        except Exception as e:
            last = [x for x in self.rec.events if x[1] == "step_end"]
            if last and (not np.all(np.isfinite(last[-1][3])) or np.max(np.abs(last[-1][3])) > 1e6):
                raise Skip(f"solver gave up: {e}")
            raise
        _, _, k, s, ref, rew, term = self.rec.events[-1]
        self.n += 1
        deg, amb = oracle.violation(self.cfg, self.names, s)
        fin = all(math.isfinite(v) for v in s)
        if not fin:
            ctx.fault("non-finite value")
        if amb:
            return True
        if not fin:
            # the violation reward counts alone; otherwise only what the weights select matters
            if deg == 1.0:
                want = self.su["v"]
            elif all(math.isfinite(v) or w == 0 for v, w in zip(s, self.su["w"])) and False:
                want = 0.0
            else:
                return True
        else:
            want = oracle.reward(self.su, s, ref, deg)
        got = rec[3]
        ctx.check(abs(got - want) <= 1e-9 * (1 + abs(want)), "definition",
                  lambda: f"step {self.n}: reward {got}, definition {want} with degree {deg}, {self.cfg.get('reward')}, references {self.refs}")
        ctx.check(rew == got, "callback-reward", f"callbacks see {rew}, the caller {got}")
        for i, n in enumerate(self.names):
            if n not in self.refs:
                ctx.check(ref[i] == 0.0, "reference", lambda: f"unreferenced state {n} has the reference {ref[i]}")
        inside = all(lo <= v <= hi for lo, v, hi in zip(self.low, s, self.high)) and all(lo <= v <= hi for lo, v, hi in zip(self.low, ref, self.high))
        if deg == 0.0 and inside:
            a, b = self.su["range"]
            ctx.check(a - 1e-9 * (1 + abs(a)) <= got <= b + 1e-9 * (1 + abs(b)), "out-of-range", lambda: f"reward {got} outside of {a}..{b}")
            ctx.probe("range judged")
        if fin and self.n % 7 == 0:
            # no memory: the same arguments give the same reward at any time
            again = d.u.reward_function.reward(np.array(s), np.array(ref), k, None, deg)
            ctx.check(abs(float(again) - want) <= 1e-9 * (1 + abs(want)), "memory", lambda: f"{again} != {want} when asked again")
        span = (self.su["range"][1] - self.su["range"][0]) or 1.0
        ctx.state(sorted(self.cfg.get("reward", {})), round(4 * deg), round(10 * (got - self.su["range"][0]) / span) if math.isfinite(got) else None)
        ctx.steps += 0
        if self.n >= 5:
            ctx.nontrivial = True
        return True


def run(sc, ctx):
    alive = [One(e, ctx) for e in sc["envs"]]
    es, k = list(alive), 0
    while alive:
        one = alive[sc["mix"][k % len(sc["mix"])] % len(alive)]
        k += 1
        if not one.next():
            alive.remove(one)
    for one in es:
        p = one.d.u.physical_system
        while p is not p.unwrapped:
            if isinstance(p, parts.Spike) and p.fired:
                ctx.fault("sensor fault", p.fired)
            p = p.physical_system
