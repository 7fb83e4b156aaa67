"""C02 A reset gives a clean start after any history."""
from .. import build, spec
from ..core import Violation, interrupt_at
from ..drive import Drive, diff, gen_ops
from ..parts import Boom, Interrupt, Trip

ID = "C02"
COUNT = {"quick": 700, "thorough": 9000}
RULE = ("random configuration; a dirty history (episodes, refused and non-finite actions, raising user components at a "
        "chosen call, an interruption raised at a chosen executed line inside construction-free operations) followed by "
        "a seeded reset; the continuation is compared with a freshly built instance; non-trivial when a fault fired")
TRIPS = [("reward_function", "reward"), ("reward_function", "reset"), ("reference_generator", "get_reference"),
         ("reference_generator", "get_reference_observation"), ("reference_generator", "reset"),
         ("constraint_monitor", "check_constraints"), ("supply", "get_voltage"), ("supply", "reset"),
         ("load", "mechanical_ode"), ("load", "reset"), ("motor", "electrical_ode"), ("converter", "convert"),
         ("converter", "set_action"), ("converter", "reset"), ("physical_system", "simulate"), ("physical_system", "reset")]


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.5, noise=True, vis=0.08, ref=0.7, motor=0.6)
    if rng.random() < 0.1 and spec.split(cfg)[2] in ("PMSM", "SynRM") and "wrappers" not in cfg:
        cfg["wrappers"] = ([{"$": "DeadTimeProcessor", "steps": 2}] if rng.random() < 0.5 else []) + [{"$": "DqToAbc"}]
        cfg["id"] = cfg["id"].replace("Finite", "Cont")
        cfg.pop("conv", None)
        cfg.pop("filter", None)
    space = spec.action_space(cfg)
    ops = gen_ops(rng, cfg, episodes=(1, 2), steps=(2, 16))
    # sprinkle faults
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["int", "int", "int", "trip", "trip", "bad", "nan", "swapnan"])
        pos = rng.randint(1, len(ops))
        if k == "int":
            what = rng.choice(["s", "s", "r"])
            inner = ["s", spec.rand_action(rng, space)] if what == "s" else ["r", rng.choice([None, 3])]
            ops.insert(pos, ["int", round(rng.random(), 4), inner])
        elif k == "trip":
            o, meth = rng.choice(TRIPS)
            ops.insert(pos, ["trip", o, meth, rng.randint(1, 3 if meth in ("reset",) else 12), rng.choice(["before", "after"])])
        elif k == "bad":
            ops.insert(pos, ["bad", rng.choice([99, -1, "x", None, 1.5])])
        elif k == "nan" and space[0] == "box":
            vals = [rng.choice([float("inf"), -1e9, 1e30]) for _ in space[1]]
            if any(w["$"] == "DqToAbc" for w in cfg.get("wrappers", ())):
                # turning infinite components gives no number, and scipy's solve_ivp never returns for such a derivative
                vals = [max(-1e30, min(1e30, x)) for x in vals]
            ops.insert(pos, ["s", vals])
        elif k == "swapnan":
            ops.insert(pos, ["extra"])
    if rng.random() < 0.3:
        ops.append(["int", round(rng.random(), 4), ["r", rng.choice([None, 5])]])
    tail = gen_ops(rng, cfg, episodes=(1, 2), steps=(3, 20))
    return {"cfg": cfg, "ops": ops, "tail": tail}


def target(d, name):
    ps = d.u.physical_system
    return {"reward_function": d.u.reward_function, "reference_generator": d.u.reference_generator,
            "constraint_monitor": d.u.constraint_monitor, "physical_system": ps,
            "supply": ps.unwrapped.supply, "load": ps.unwrapped.mechanical_load, "motor": ps.unwrapped.electrical_motor,
            "converter": ps.unwrapped.converter}[name]


def dirty(d, ops, ctx):
    trips = []
    started = False
    hurt = False  # a step was broken off since the last complete reset: what further steps do is not promised

    def do(op):
        nonlocal started, hurt
        if op[0] == "r":
            started = False
            d.reset(op[1])
            started, hurt = True, False
        elif op[0] == "s":
            if d.terminated or not started:
                d.terminated = True
                d.reset()
                started, hurt = True, False
            d.step(op[1])

    for op in ops:
        try:
            if op[0] == "int":
                was = d.terminated
                fired, where = interrupt_at(op[1], lambda: do(op[2]))
                if fired:
                    hurt = True
                    ctx.fault("interrupt-in-" + ("step" if op[2][0] == "s" else "reset"))
                    ctx.state("line", where)
                    d.terminated = True if op[2][0] == "r" else was
                    started = started and op[2][0] != "r"
            elif op[0] == "trip":
                t = Trip(target(d, op[1]), op[2], op[3], op[4])
                trips.append((t, op))
            elif op[0] == "bad":
                a = op[1]
                try:
                    d.env.step(a)
                    d.terminated = True
                except Exception:
                    ctx.fault("refused-action")
                    d.terminated = True
            elif op[0] == "extra":
                d.env.action_space.sample()
                d.u.render()
                d.u.physical_system.state_names, d.u.limits
            else:
                do(op)
        except (Boom, AssertionError):
            # an exception of a user component, or a step refused because the interrupted one had ended the episode
            d.terminated = True
            started = False
        except Exception:
            # a component half updated by the interrupted step may refuse to go on (e.g. a solver whose clock is ahead)
            if not hurt:
                raise
            ctx.fault("broken-step-continued")
            d.terminated = True
            started = False
    for t, op in trips:
        if t.fired:
            ctx.fault(f"raise-{op[1]}.{op[2]}")
        t.restore()


def run(sc, ctx):
    cfg = sc["cfg"]
    if not sc["tail"] or sc["tail"][0][0] != "r" or sc["tail"][0][1] is None:
        return
    d = Drive(cfg)
    try:
        dirty(d, sc["ops"], ctx)
    except (ZeroDivisionError, FloatingPointError):
        raise
    n = len(d.trace)
    ctx.nontrivial = ctx.nontrivial or n > 1
    d.trace.clear()
    d.ctx = ctx
    d.terminated = True
    got = d.run(sc["tail"])
    ref = Drive(cfg).run(sc["tail"])
    x = diff(ref, got, 1e-9, "fresh vs reset:")
    ctx.check(x is None, "not-clean", x or "")
    ps = d.u.physical_system
    ctx.check(ps.k == sum(1 for r in reversed_until_reset(got)), "k", f"step counter {ps.k}")


def reversed_until_reset(trace):
    for rec in reversed(trace):
        if rec[0] == "reset":
            return
        yield rec


def shrink(sc):
    from ..run import generic_shrink
    yield from generic_shrink(sc)
    t = sc["tail"]
    for n in (len(t) // 2, len(t) - 1):
        if 1 <= n < len(t):
            yield dict(sc, tail=t[:n])
