"""C01 Seeded runs are exactly reproducible."""
import random

import gym_electric_motor as gem
import numpy as np

from .. import build, spec
from ..core import Violation, isolated
from ..drive import Drive, diff, gen_ops

ID = "C01"
COUNT = {"quick": 900, "thorough": 12000}
RECHECK = 40
RECHECK_IS_VIOLATION = True
RULE = ("random configuration with random components (initialisers, references, loads, supplies, noise), chained resets "
        "with and without seed, executed with perturbed ambient random state, after a different history and in another "
        "interpreter; non-trivial when a perturbation was applied and at least one step executed")


class RandomCallback(gem.core.Callback, gem.RandomComponent):
    """A random user component."""

    def __init__(self):
        gem.core.Callback.__init__(self)
        gem.RandomComponent.__init__(self)
        self.draws = []

    def on_reset_begin(self):
        self.next_generator()
        self.draws.append(float(self.random_generator.random()))

    def on_step_begin(self, k, action):
        self.draws.append(float(self.random_generator.random()))


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, ref=0.8, motor=0.7, load=0.7, supply=0.6, wrappers=0.5, noise=True, init=0.8, vis=0.03,
                       filter=0.1, solver=0.3)
    ops = gen_ops(rng, cfg, episodes=(1, 4), steps=(2, 18))
    pre = gen_ops(rng, cfg, episodes=(0, 2), steps=(1, 12), first_seed=rng.random() < 0.5) if rng.random() < 0.6 else []
    # resets without a seed after episodes of another length must give the same later episodes
    return {"cfg": cfg, "ops": ops, "pre": pre, "amb": rng.randrange(1 << 30), "warm": rng.random() < 0.3,
            "cb": rng.random() < 0.3, "stretch": rng.choice([0, 0, 1, 3, 9]), "alt": rng.randrange(1, 1 << 30)}


def perturb(n):
    random.seed(n)
    np.random.seed(n % (1 << 32))
    random.random()
    np.random.random(n % 7)


def play(sc, ctx=None, amb=None, pre=False):
    if amb is not None:
        perturb(amb)
    cb = [RandomCallback()] if sc["cb"] else []
    d = Drive(sc["cfg"], ctx, callbacks=cb)
    if pre:
        d.run(sc["pre"])
        d.trace.clear()
        for c in cb:
            c.draws.clear()
    for n, op in enumerate(sc["ops"]):
        if amb is not None and n % 5 == 0:
            perturb(amb + n)
            d.env.action_space.sample()
        if op[0] == "r":
            d.reset(op[1])
        else:
            d.auto(op[1])
    return d.trace, [x for c in cb for x in c.draws]


def episode_starts(sc, stretch):
    """First observations of later episodes, when earlier episodes are longer or shorter."""
    d = Drive(sc["cfg"])
    starts = []
    acts = [op[1] for op in sc["ops"] if op[0] == "s"] or [None]
    for e in range(4):
        rec = d.reset(sc["ops"][0][1] if e == 0 else None)
        starts.append(rec)
        if acts[0] is None:
            continue
        for j in range(1 + (stretch if e < 3 else 0)):
            if d.terminated:
                break
            d.step(acts[j % len(acts)])
    return starts


def run(sc, ctx):
    if not sc["ops"] or sc["ops"][0][0] != "r" or sc["ops"][0][1] is None:
        return
    cfg = sc["cfg"]
    a, da = play(sc, ctx)
    ctx.nontrivial = ctx.steps > 0
    b, db = play(sc, None, amb=sc["amb"])
    ctx.fault("ambient-random-state")
    x = diff(a, b)
    ctx.check(x is None and da == db, "ambient", f"another execution with a perturbed process-wide random state differs: {x}")
    if sc["pre"]:
        b, db = play(sc, None, pre=True)
        ctx.fault("other-history")
        x = diff(a, b, 1e-9)
        ctx.check(x is None and da == db, "history", f"execution after another history differs: {x or 'user component'}")
    if sc["warm"]:
        def other():
            perturb(sc["amb"] + 1)
            Drive({"id": "Cont-TC-SCIM-v0", "vis": None}).run([["r", 5], ["s", [0.1, 0.2, 0.3]]])
            return play(sc, None, amb=sc["amb"] + 3)
        b, db = isolated(other)
        ctx.fault("other-process")
        x = diff(a, b)
        ctx.check(x is None and da == db, "process", f"execution in another process differs: {x}")
    if sc["stretch"]:
        ctx.fault("stretched-episodes")
        x = diff(episode_starts(sc, 0), episode_starts(sc, sc["stretch"]), 1e-12)
        ctx.check(x is None, "episode-length", f"first observation of a later episode depends on earlier lengths: {x}")
    seeds(sc, ctx, a, da)


def randomness(cfg):
    """Random components whose draws are visible in the first observations."""
    out = set()
    motor = cfg.get("motor", {})
    if motor.get("motor_initializer", {}).get("random_init"):
        out.add("motor")
    ld = cfg.get("load", {})
    if ld.get("$") == "OrnsteinUhlenbeckLoad" or ld.get("load_initializer", {}).get("random_init"):
        out.add("load")
    s = cfg.get("supply", {})
    if s.get("$") == "AC1PhaseSupply" and "phase" not in (s.get("supply_parameter") or {}):
        out.add("supply")
    if any(w["$"] == "StateNoiseProcessor" for w in cfg.get("wrappers", [])):
        out.add("noise")
    return out


def seeds(sc, ctx, a, da):
    """Other seeds and later episodes give other random episodes."""
    cfg = sc["cfg"]
    comp = randomness(cfg)
    ref = cfg.get("ref")
    names = cfg.get("filter") or spec.all_state_names(cfg)
    refs = (ref or {}).get("$") in ("WienerProcessReferenceGenerator", "LaplaceProcessReferenceGenerator")
    if not comp and not refs and not sc["cb"]:
        return
    cb = [RandomCallback()] if sc["cb"] else []
    d = Drive(cfg, callbacks=cb)
    s0 = sc["ops"][0][1]
    firsts = [d.reset(s0), d.reset(s0 ^ sc["alt"]), d.reset(None), d.reset(None)]
    if sc["cb"]:
        ctx.check(len(set(cb[0].draws)) == len(cb[0].draws), "seed-ignored", "a random user component repeats its draws")
        ctx.check(cb[0].draws[0] == da[0], "seed-ignored", "a random user component is not seeded by reset")
    if refs and ref.get("$") == "LaplaceProcessReferenceGenerator":
        v = [f[2][0] for f in firsts]
        ok = len(set(v)) == len(v) or all(abs(abs(x) - abs(v[0])) < 1e-12 for x in v) or \
            any(x == 0 for x in v) or any(v.count(x) > 1 and _clipped(d, x) for x in v)
        ctx.check(ok, "seed-ignored", f"first references for different seeds and episodes coincide: {v}")

    def col(n):
        return [float(f[1][names.index(n)]) for f in firsts] if n in names else None
    if "noise" in comp:
        return
    cols = []
    if "motor" in comp:
        cols += ["i", "i_a", "i_sd", "i_sq"] if spec.split(cfg)[2] in spec.DC else ["i_sd", "i_sq"]
    if "load" in comp and ld_visible(cfg):
        cols += ["omega"]
    if "supply" in comp:
        cols += ["u_sup"]
    for n in cols:
        v = col(n)
        if v is None:
            continue
        ctx.probe(f"seed-{n}")
        ctx.check(len(set(v)) > 1, "seed-ignored", f"initial {n} for different seeds and episodes are all {v[0]}")


def ld_visible(cfg):
    return True


def _clipped(d, x):
    sp = d.u.reference_generator.reference_space
    return abs(x - sp.low[0]) < 1e-9 or abs(x - sp.high[0]) < 1e-9
