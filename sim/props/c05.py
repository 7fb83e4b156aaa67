"""C05 Callbacks see each event exactly once, in order, with its data."""
import numpy as np
from gym_electric_motor.core import Callback, ElectricMotorVisualization

from .. import build, spec
from ..core import Violation, same
from ..drive import Drive, diff
from ..parts import Boom

ID = "C05"
COUNT = {"quick": 900, "thorough": 14000}
RULE = ("random configuration with several callbacks and visualisations; call sequences with refused and illegal actions, "
        "early terminations, callbacks and components raising at a chosen event, renders, close; every event is logged with "
        "its data on arrival and compared with the log of the calls and of the components' own results; non-trivial when an "
        "event raised, a call was refused or an episode ended")


def val(x):
    if x is None or isinstance(x, (int, float, bool, str)):
        return x
    return np.array(x, dtype=float, copy=True)


class Log(Callback):
    def __init__(self, name, sink, booms):
        super().__init__()
        self.name, self.sink, self.booms = name, sink, booms

    def _see(self, ev, *data):
        self.sink.append((ev, self.name) + tuple(val(x) for x in data))
        b = self.booms.get((self.name, ev))
        if b is not None and b > 0:
            self.booms[(self.name, ev)] = b - 1
            if b == 1:
                raise Boom(f"{self.name}.{ev}")

    def set_env(self, env):
        self.sink.append(("set_env", self.name))
        super().set_env(env)

    def on_reset_begin(self):
        self._see("reset_begin")

    def on_reset_end(self, state, reference):
        self._see("reset_end", state, reference)

    def on_step_begin(self, k, action):
        self._see("step_begin", k, action)

    def on_step_end(self, k, state, reference, reward, terminated):
        self._see("step_end", k, state, reference, reward, terminated)

    def on_close(self):
        self._see("close")


class Vis(Log, ElectricMotorVisualization):
    def render(self):
        self.sink.append(("render", self.name))


def tap(obj, method, sink, name):
    """Logs the results of a component's method into the sink."""
    orig = getattr(obj, method)

    def f(*a, **k):
        r = orig(*a, **k)
        sink.append(("work", name, val(r) if not isinstance(r, tuple) else [val(x) for x in r if x is not None]))
        return r
    setattr(obj, method, f)


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.4, constraints=0.6, vis=0, ref=0.6, reward=0.5, filter=0.4, solver=0.2)
    if rng.random() < 0.4:
        n = len(spec.all_state_names(cfg))
        cfg["wrappers"] = cfg.get("wrappers", []) + [{"$": "Spike", "plan": [[rng.randint(1, 10), rng.randrange(n), 2.0]]}]
    names = rng.sample(["a", "b", "c"], rng.randint(1, 3)) + rng.sample(["v", "w"], rng.randint(0, 2))
    cfg["cbs"] = names
    space = spec.action_space(cfg)
    ops = [["r", rng.choice([0, 5])]]
    for a in spec.action_program(rng, space, rng.randint(8, 50)):
        r = rng.random()
        if r < 0.06:
            ops.append(["r", rng.choice([None, None, 3])])
        elif r < 0.10 and space[0] != "box":
            ops.append(["bad", rng.choice([99, -1, "x", None])])
        elif r < 0.14:
            ops.append(["boom", rng.choice(names), rng.choice(["reset_begin", "reset_end", "step_begin", "step_end", "step_end"])])
        elif r < 0.17:
            ops.append(["trip", rng.choice(["simulate", "reward"])])
        elif r < 0.20:
            ops.append(["render"])
        ops.append(["s", a])
    if rng.random() < 0.3:
        ops.insert(0, ["s", ops[-1][1]])
    if rng.random() < 0.5:
        ops.append(["close"])
    return {"cfg": cfg, "ops": ops}


def run(sc, ctx):
    cfg = dict(sc["cfg"])
    names = cfg.pop("cbs")
    sink, booms = [], {}
    cbs = [Log(n, sink, booms) for n in names if n in "abc"]
    vis = [Vis(n, sink, booms) for n in names if n in "vw"]
    order = [c.name for c in cbs] + [v.name for v in vis]
    d = Drive(cfg, ctx, callbacks=cbs, visualization=vis)
    ctx.check(sink == [("set_env", n) for n in order], "set-env", f"{sink}")
    u = d.u
    tap(u.physical_system, "simulate", sink, "simulate")
    tap(u.physical_system, "reset", sink, "ps.reset")
    tap(u.reference_generator, "reset", sink, "ref.reset")
    tap(u.reference_generator, "get_reference", sink, "get_reference")
    tap(u.reward_function, "reward", sink, "reward")
    tap(u.reward_function, "reset", sink, "reward.reset")
    tap(u.physical_system, "close", sink, "ps.close")
    filt = list(u.state_filter)
    k = 0
    effective = []
    clean = True

    def expect(want, got, whole, what):
        """got is want, or a beginning of it if the call failed."""
        n = len(got)
        ok = n <= len(want) and (n == len(want) or not whole)
        for g, w in zip(got, want):
            ok = ok and g[:2] == w[:2] and same(list(g[2:]), list(w[2:]))
        if not ok:
            raise Violation("events", f"{what}: saw {short(got)} instead of {short(want)}")

    def work(got, name):
        return [g for g in got if g[0] == "work" and g[1] == name]

    for op in sc["ops"]:
        del sink[:]
        whole = True
        res = None
        if op[0] == "render":
            d.u.render()
            expect([("render", v.name) for v in vis], sink, True, "render")
            continue
        if op[0] == "boom":
            booms.clear()
            booms[(op[1], op[2])] = 1
            continue
        if op[0] == "close":
            d.env.close()
            got = list(sink)
            want = [("close", n) for n in order] + [("work", "ps.close", None)]
            if booms:
                whole = False
            expect(want, got, whole, "close")
            break
        if op[0] == "r":
            try:
                (s, r), _ = d.env.reset(seed=op[1]) if op[1] is not None else d.env.reset()
                res = (val(s), val(r))
                effective.append(["r", op[1]])
            except Boom:
                whole, clean = False, False
                ctx.fault("callback-raises-in-reset")
                d.terminated = True
            got = [g for g in sink if g[:2] != ("work", "get_reference")]   # some generators use it in their own reset
            w1, w2, w3 = work(got, "ps.reset"), work(got, "ref.reset"), work(got, "reward.reset")
            st = w1[0][2] if w1 else None
            rf = w2[0][2][0] if w2 else None
            want = [("reset_begin", n) for n in order] + [("work", "ps.reset", st), ("work", "ref.reset", w2[0][2] if w2 else None),
                    ("work", "reward.reset", None)] + [("reset_end", n, st, rf) for n in order]
            expect(want, got, whole, "reset")
            if whole:
                ctx.resets += 1
                ctx.log("r", res[0], res[1])
                ctx.check(same(res[0], st[filt]), "reset-data", "state handed to callbacks is not the one returned")
                d.terminated = False
                k = 0
            else:
                booms.clear()
                d.env.reset(seed=77)
                effective = [["r", 77]]
                clean, k, d.terminated = True, 0, False
                del sink[:]
            continue
        trip = None
        if op[0] == "trip":
            if d.terminated:
                continue
            o, m = (u.physical_system, "simulate") if op[1] == "simulate" else (u.reward_function, "reward")
            old = getattr(o, m)

            def bang(*a, **kw):
                raise Boom("component")
            setattr(o, m, bang)
            trip = (o, m, old)
            act = zero(d)
        else:
            act = build.to_action(d.space, op[1]) if op[0] == "s" else op[1]
        sent = val(act) if not isinstance(act, str) else act
        failed = None
        try:
            out = d.env.step(act)
        except Boom as e:
            failed = e
        except Exception as e:
            failed = e
        if trip:
            setattr(trip[0], trip[1], trip[2])
        got = list(sink)
        if d.terminated:
            ctx.check(failed is not None, "accepted", "step without reset was accepted")
            ctx.check(not got, "refused-step-seen", f"{short(got)}")
            ctx.fault("refused-step")
            if op[0] == "s" and effective:
                booms.clear()
                d.env.reset()
                effective.append(["r", None])
                d.terminated, k = False, 0
            continue
        ws, wr, wf = work(got, "simulate"), work(got, "get_reference"), work(got, "reward")
        st = ws[0][2] if ws else None
        rf = wr[0][2] if wr else None
        rw = wf[0][2] if wf else None
        term = None if failed else bool(out[2])
        ends = [g for g in got if g[0] == "step_end"]
        if failed and ends:
            term = bool(ends[0][6])
        want = [("step_begin", n, k, sent) for n in order] + [("work", "simulate", st), ("work", "get_reference", rf),
                ("work", "reward", rw)] + [("step_end", n, k + 1, st, rf, rw, term) for n in order]
        if isinstance(sent, str) or sent is None:
            want = want[:len(got)] if all(g[0] == "step_begin" for g in got) else want
            ctx.check(len(got) <= len(order) and all(g[0] == "step_begin" for g in got), "events", f"illegal action: {short(got)}")
        else:
            expect(want, got, failed is None, "step")
        if failed is None:
            ctx.steps += 1
            ctx.sim_time += d.tau
            (s, r), rew, term, trunc, _ = out
            ctx.log("s", s, r, rew, term)
            ctx.check(same(val(s), st[filt]), "step-data", "state handed to callbacks is not the one returned")
            ctx.check(same(float(rew), float(rw)), "step-data", "reward handed to callbacks is not the one returned")
            k += 1
            d.terminated = bool(term)
            ctx.state(cfg["id"], len(order), bool(term), k)
            effective.append(op)
            if term:
                ctx.fault("termination")
        else:
            if isinstance(failed, Boom):
                ctx.fault("callback-raises-in-step" if not trip else "component-raises-in-step")
            elif op[0] == "bad":
                ctx.fault("illegal-action")
            else:
                raise failed
            booms.clear()
            d.env.reset(seed=78)
            effective = [["r", 78]]
            k, d.terminated = 0, False
    # a twin without any callback (from the last disturbed call on)
    while effective and (effective[0][0] != "r" or effective[0][1] is None):
        effective.pop(0)
    if effective and clean:
        e2 = Drive(cfg)
        for op in effective:
            if op[0] == "r":
                e2.reset(op[1])
            else:
                e2.step(op[1])
        e3 = Drive(cfg, callbacks=[Log("x", [], {})])
        for op in effective:
            if op[0] == "r":
                e3.reset(op[1])
            else:
                e3.step(op[1])
        x = diff(e2.trace, e3.trace, 0.0, "without vs with callbacks:")
        ctx.check(x is None, "interference", x or "")


def zero(d):
    s = d.space
    if hasattr(s, "nvec"):
        return np.zeros(len(s.nvec), dtype=np.int64)
    if hasattr(s, "n"):
        return 0
    return np.zeros(s.shape[0])


def short(evs):
    out = []
    for e in evs:
        out.append("(" + ", ".join(str(x)[:60].replace("\n", " ") for x in e) + ")")
    return "[" + " ".join(out)[:1500] + "]"
