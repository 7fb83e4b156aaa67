"""C04 Step/reset protocol and termination are exact."""
import numpy as np

from .. import build, oracle, spec
from ..core import Violation
from ..drive import Drive, diff, snap
from ..parts import Boom, Recorder, Spike, Trip
from . import c09

ID = "C04"
COUNT = {"quick": 900, "thorough": 12000}
RULE = ("random configuration with random constraints and merge rules; random call sequences (steps before the first reset, "
        "after termination, after exchanging reference generator or reward function, with illegal actions, resets at any moment, sensor spikes "
        "causing terminations) checked against a protocol automaton; refused calls are erased for a twin environment that "
        "must behave identically; non-trivial when a step was refused or an episode terminated")


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.3, constraints=0.8, vis=0, filter=0.2, ref=0.6, reward=0.5, solver=0.3)
    cfg["merge"] = rng.choice(["max", "max", "product", {"$f": "mean"}])
    if "constraints" not in cfg:
        cfg.pop("merge")
    n = len(spec.all_state_names(cfg))
    plan = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 4)):
            plan.append([rng.randint(1, 12), rng.randrange(n), rng.choice([1.0, 1.0 + 1e-9, -1.5, 2.0, 0.7, "nan", "inf", 0.0])])
    soft = [c for c in cfg.get("constraints") or [] if isinstance(c, dict) and c.get("$f") == "soft"]
    if soft and rng.random() < 0.6:
        # degrees of almost one
        c = rng.choice(soft)
        e = rng.choice([1e-3, 1e-6, 1e-9, 1e-12, 0.0, -1e-9])
        plan.append([rng.randint(1, 12), c["i"], c["hi"] - (c["hi"] - c["lo"]) * e])
    cfg["wrappers"] = cfg.get("wrappers", []) + [{"$": "Spike", "plan": plan}]
    space = spec.action_space(cfg)
    prog = spec.action_program(rng, space, 60)
    ops = []
    for a in prog[:rng.randint(10, 60)]:
        r = rng.random()
        if r < 0.07:
            ops.append(["r", rng.choice([None, None, 1, 7])])
        elif r < 0.10:
            ops.append(["setref"])
        elif r < 0.13:
            ops.append(["setrew"])
        elif r < 0.16:
            ops.append(["boom", rng.choice(["reward", "ref", "sim"])])
        elif r < 0.22 and space[0] != "box":
            ops.append(["bad", rng.choice(c09.BAD1 if space[0] == "discrete" else c09.BADM)])
        ops.append(["s", a])
        if ops[-1][0] == "s" and rng.random() < 0.15:
            ops.append(["s", a])
    lead = rng.choice([0, 0, 1, 2])
    ops = [["s", prog[0]]] * lead + [["r", rng.choice([1, 2**31])]] + ops
    # an unattended episode end is followed by a reset most of the time
    return {"cfg": cfg, "ops": ops, "auto": rng.choice([0, 1, 2])}


def run(sc, ctx):
    cfg = sc["cfg"]
    rec = Recorder()
    d = Drive(cfg, ctx, callbacks=[rec])
    names = list(d.u.physical_system.state_names)
    cs = oracle.constraints(cfg, names) if cfg.get("constraints", 1) != [] else []
    allowed = False
    space = spec.action_space(cfg)
    k = 0
    effective = []       # calls that count
    left = sc["auto"]

    def refused(a):
        nonlocal allowed
        ev = len(rec.events)
        try:
            d.env.step(build.to_action(d.space, a))
        except AssertionError:
            ctx.fault("refused-step")
        except Exception as e:
            if "reset" not in str(e).lower():
                raise
            ctx.fault("refused-step")
        else:
            raise Violation("not-refused", f"a step was accepted although a reset is required (after {effective[-3:]})")
        ctx.check(len(rec.events) == ev, "refused-step-seen", f"callbacks saw a refused step: {rec.events[ev:]}")

    for op in sc["ops"]:
        if op[0] == "r":
            if not effective and op[1] is None:
                op = ["r", 3]
            d.reset(op[1])
            effective.append(op)
            allowed, k, left = True, 0, sc["auto"]
            ctx.check(d.u.physical_system.k == 0, "k", f"step counter {d.u.physical_system.k} after reset")
            continue
        if op[0] in ("setref", "setrew"):
            if op[0] == "setref":
                d.u.reference_generator = d.u.reference_generator
            else:
                d.u.reward_function = d.u.reward_function
            allowed = False
            ctx.fault("exchange-" + op[0][3:])
            continue
        if op[0] == "bad":
            # an action that is not an element of the space: nothing happens, and the next step is the next one
            if not allowed:
                continue
            try:
                d.u.step(c09.illegal(op[1], space))
            except Exception:
                ctx.fault("illegal-action")
            else:
                raise Violation("not-refused", f"illegal action {op[1]} was accepted")
            ctx.check(d.u.physical_system.k == k, "k", f"step counter {d.u.physical_system.k} instead of {k} after a refused action")
            continue
        if op[0] == "boom":
            # an exception of a component: the system has or has not advanced; only a reset is used afterwards
            if not allowed:
                continue
            tgt = {"reward": (d.u.reward_function, "reward"), "ref": (d.u.reference_generator, "get_reference"),
                   "sim": (d.u.physical_system, "simulate")}[op[1]]
            t = Trip(tgt[0], tgt[1], 1)
            try:
                d.env.step(build.to_action(d.space, spec_zero(d)))
            except Boom:
                ctx.fault("raise-in-step")
            t.restore()
            if rec.events and rec.events[-1][1] == "step_begin":
                pass
            d.reset(11)
            effective.append(["r", 11])
            allowed, k = True, 0
            continue
        if not allowed:
            refused(op[1])
            left -= 1
            if left < 0 and effective:
                d.reset(None)
                effective.append(["r", None])
                allowed, k, left = True, 0, sc["auto"]
            continue
        r = d.step(op[1])
        effective.append(op)
        k += 1
        ctx.check(d.u.physical_system.k == k, "k", f"step counter {d.u.physical_system.k} instead of {k}")
        ctx.check(r[5] is False, "truncated", "truncated reported")
        full = rec.events[-1]
        ctx.check(full[1] == "step_end", "events", f"{full[:3]}")
        v, amb = merged(cs, cfg, full[3])
        if not amb:
            ctx.check(r[4] == (v >= 1.0), "termination", lambda: f"step {k}: violation degree {v}, terminated {r[4]}, "
                      f"state {dict(zip(names, full[3]))}")
        if v >= 1.0:
            ctx.fault("termination")
            ctx.state("term", cfg["id"], cfg.get("merge", "max"), repr(cfg.get("constraints")))
        elif v > 0:
            ctx.probe("partial-violation")
        allowed = not r[4]
    # a twin that never saw the refused calls
    t = Drive(cfg)
    for op in effective:
        if op[0] == "r":
            t.reset(op[1])
        elif t.terminated:
            raise Violation("twin", "twin terminated earlier")
        else:
            t.step(op[1])
    x = diff(t.trace, d.trace, 0.0, "without vs with refused calls:")
    ctx.check(x is None, "refused-step-effect", x or "")


def spec_zero(d):
    s = d.space
    if hasattr(s, "nvec"):
        return [0] * len(s.nvec)
    if hasattr(s, "n"):
        return 0
    return [0.0] * s.shape[0]


def merged(cs, cfg, state):
    if not cs:
        return 0.0, False
    v, amb = oracle.degrees(cs, state)
    rule = cfg.get("merge", "max")
    if rule == "max":
        return max(v), amb
    if rule == "product":
        p = 1.0
        for x in v:
            p *= 1.0 - x
        return 1.0 - p, amb or 0 < p < 1e-12
    m = sum(v) / len(v)
    return m, amb or 0 < abs(m - 1) < 1e-12


_ = (np, snap, Spike)
