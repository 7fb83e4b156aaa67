"""C20 Data handed over stay as they were."""
import contextlib

import numpy as np
from gym_electric_motor.core import Callback
from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper

from .. import build, parts, spec
from ..core import interrupt_at
from ..drive import Drive, diff, gen_ops, snap

ID = "C20"
COUNT = {"quick": 650, "thorough": 12000}
RULE = ("random drives in three copies with the same operations: one is driven plainly, one by a careless caller who reuses one action buffer or "
        "overwrites observations, references, actions, data seen by callbacks and between wrappers and the dictionaries, lists and arrays he "
        "configured the environment with at random moments after handing them over, one by a collector who keeps everything he got and passes "
        "read-only actions; equal trajectories and unchanged kept data are required, also with interrupted and failing steps; non-trivial when "
        "something was overwritten and at least 5 steps were compared")
STATES = "what was overwritten x kind of action space x wrappers x reference generator"
REAL = "environment, components and wrappers"
STUBS = "caller, callbacks, a pass-through wrapper"
ASSUMPTIONS = "data are overwritten between calls of the environment, not during a call; announced spaces and limits are not overwritten"


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.6, constraints=0.5, vis=0.15, ref=0.75, reward=0.5, filter=0.5, solver=0.3, supply=0.4, noise=rng.random() < 0.3)
    ops = gen_ops(rng, cfg, episodes=(1, 4), steps=(3, 25), amp=rng.choice([None, 0.2, 1.0, 1.7]) if spec.action_space(cfg)[0] == "box" else None)
    out = []
    for op in ops:
        if op[0] == "s" and rng.random() < 0.02:
            out.append(["boom", rng.choice(["ref", "reward", "solve"]), op[1]])
        elif op[0] == "s" and rng.random() < 0.01:
            out.append(["interrupt", rng.random(), op[1]])
        out.append(op)
    kinds = ["obs", "ref", "info", "cb_state", "cb_ref", "action", "config", "inner", "reset_action"]
    return {"cfg": cfg, "ops": out, "over": [k for k in kinds if rng.random() < 0.6] or ["obs"], "when": rng.choice([1.0, 1.0, 0.3]),
            "style": rng.choice(["fresh", "buffer", "buffer", "zero"]), "hold": [rng.randint(0, 3) for _ in range(rng.choice([0, 1, 2, 3]))],
            "arrays": rng.random() < 0.5, "scr": rng.randrange(2**20), "garbage": rng.choice(["nan", 1e6, -3.0, 0.0])}


class Seen(Callback):
    """Keeps what it is shown."""

    def __init__(self, keep):
        super().__init__()
        self.keep = keep

    def on_reset_end(self, state, reference):
        self.keep("cb_state", state)
        self.keep("cb_ref", reference)

    def on_step_begin(self, k, action):
        self.keep("cb_action", action)

    def on_step_end(self, k, state, reference, reward, terminated):
        self.keep("cb_state", state)
        self.keep("cb_ref", reference)


class Hold(PhysicalSystemWrapper):
    """Keeps what it receives from the inside and passes it on, as it is or as a copy."""

    def __init__(self, keep, copy, physical_system=None):
        self.keep, self.copy = keep, copy
        super().__init__(physical_system)

    def _pass(self, s):
        self.keep("inner", s)
        return s.copy() if self.copy else s

    def reset(self, **kwargs):
        return self._pass(super().reset(**kwargs))

    def simulate(self, action):
        return self._pass(super().simulate(action))


def freeze(x):
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


def unchanged(x, y):
    if isinstance(x, dict):
        return list(x) == list(y) and all(unchanged(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(unchanged(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()
    return x is y or x == y or (x != x and y != y)


@contextlib.contextmanager
def collecting(found, arrays):
    """Collects every dictionary, list and array the components are configured with."""
    orig = build.obj

    def obj(x):
        r = orig(x)
        if arrays and isinstance(r, list) and r and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in r):
            r = np.array(r, dtype=float)
        elif arrays and isinstance(r, list) and r and all(isinstance(v, np.ndarray) for v in r):
            r = np.array(r, dtype=float)
        if isinstance(r, (dict, list, np.ndarray)) and len(r):
            found.append((r, freeze(r)))
        return r
    build.obj = obj
    try:
        yield
    finally:
        build.obj = orig


def scribble(x, garbage, rng=None):
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = garbage if x.dtype.kind == "f" else 1
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = garbage
        x["unknown"] = garbage
    elif isinstance(x, list):
        x.clear()


class Copy:
    """One driven copy of the environment."""

    def __init__(self, sc, ctx, kind):
        self.sc, self.ctx, self.kind = sc, ctx, kind
        self.rng = __import__("random").Random(sc["scr"])
        self.kept = []      # (label, object, frozen copy)
        self.fresh = []     # handed over since the last moment of overwriting
        self.over = set(sc["over"]) if kind == "careless" else set()
        self.garbage = float(sc["garbage"])
        cfg = dict(sc["cfg"])
        cfg.setdefault("wrappers", [])
        found = []
        self.resets = []
        with collecting(found, sc["arrays"]):
            kw = build.kwargs(cfg, [Seen(self.keep)])
            ws = list(kw.pop("physical_system_wrappers", ()))
            self.tools(cfg, ws)
            for at in sc["hold"]:
                # (below the wrappers of the configuration or between them)
                ws.insert(min(at, len(ws)), Hold(self.keep, bool(sc["scr"] >> at & 1) or "inner" in sc["over"]))
            # the order of the wrappers of these environments is kept, a list in place of a tuple is handed over
            lists = [v for v in kw.values() if isinstance(v, list)] + [ws]
            found += [(v, freeze(v)) for v in lists]
            self.d = Drive(dict(cfg, wrappers=cfg["wrappers"]), ctx if kind == "careless" else None, **{**kw, "physical_system_wrappers": ws})
        self.found = found
        for x, y in found:
            self.check(unchanged(x, y), "config-changed", lambda: f"making the environment changed {y} into {x}")
        if "config" in self.over:
            for x, _ in found:
                scribble(x, self.garbage)
                self.ctx.fault("configuration overwritten")
            self.found = []
        self.buffer = None

    def tools(self, cfg, ws):
        """Reset actions of a dead time: arrays of the caller."""
        for i, w in enumerate(cfg["wrappers"]):
            if w["$"] == "DeadTimeProcessor" and "reset_actions" in w:
                acts = [build.to_action(None, a) for a in w["reset_actions"]]
                pw = build.pw

                def give(acts=acts):
                    out = [np.array(a) if isinstance(a, np.ndarray) else a for a in acts]
                    for a in out:
                        self.keep("reset_action", a)
                    return out
                ws[i] = pw.DeadTimeProcessor(steps=w["steps"], reset_action=give)

    def check(self, *a):
        self.ctx.check(*a)

    def keep(self, label, x):
        if not isinstance(x, (np.ndarray, dict, list)):
            return
        self.fresh.append((label, x))
        if self.kind == "collector":
            self.kept.append((label, x, freeze(x)))

    def action(self, a):
        d, st = self.d, self.sc["style"]
        act = build.to_action(d.space, a)
        if self.kind == "collector":
            if isinstance(act, np.ndarray):
                act.setflags(write=False)
            return act
        if self.kind == "careless":
            if isinstance(act, np.ndarray) and st == "buffer":
                if self.buffer is None:
                    self.buffer = np.empty_like(act)
                self.buffer[...] = act
                return self.buffer
            if isinstance(act, int) and st == "zero":
                if self.buffer is None:
                    self.buffer = np.array(act)
                self.buffer[...] = act
                return self.buffer
        return act

    def between(self):
        """The caller does what he likes with the data he got or passed."""
        if self.kind == "careless" and self.rng.random() < self.sc["when"]:
            for label, x in self.fresh:
                if label in self.over:
                    scribble(x, self.garbage)
                    self.ctx.fault(f"{label} overwritten")
            self.fresh = []
            if self.buffer is not None and "action" in self.over:
                self.buffer[...] = 0
        elif self.kind != "careless":
            self.fresh = []

    def do(self, op):
        d = self.d
        if op[0] == "r":
            self.out(d.env.reset(seed=op[1]) if op[1] is not None else d.env.reset(), True)
            return
        if d.terminated:
            self.out(d.env.reset(), True)
            self.between()
        a = self.action(op[2] if op[0] in ("boom", "interrupt") else op[1])
        before = freeze(a)
        if op[0] == "s":
            self.out(d.env.step(a), False)
        elif op[0] == "boom":
            obj, m = {"ref": (d.u.reference_generator, "get_reference_observation"), "reward": (d.u.reward_function, "reward"),
                      "solve": (d.u.physical_system.unwrapped._ode_solver, "integrate")}[op[1]]
            t = parts.Trip(obj, m, 1, "before")
            try:
                d.u.step(a)
            except parts.Boom:
                self.ctx.fault(f"failing {op[1]}")
            t.restore()
            d.terminated = True
        else:
            fired, _ = interrupt_at(op[1], lambda: d.u.step(a))
            if fired:
                self.ctx.fault("interrupt")
            d.terminated = True
        self.check(unchanged(a, before), "action-changed", lambda: f"the action {before} became {a}")
        if isinstance(a, np.ndarray):
            self.keep("action", a)

    def out(self, r, reset):
        d = self.d
        obs, ref = r[0]
        self.keep("obs", obs)
        self.keep("ref", ref)
        self.keep("info", r[-1])
        rec = ("reset", snap(obs), snap(ref)) if reset else ("step", snap(obs), snap(ref), float(r[1]), bool(r[2]), bool(r[3]))
        d.trace.append(rec)
        d.terminated = False if reset else bool(r[2])
        if d.ctx:
            d.ctx.log(*rec)
            if reset:
                d.ctx.resets += 1
            else:
                d.ctx.steps += 1
                d.ctx.sim_time += d.tau
                d.ctx.obs_state(d.tag, obs)

    def end(self):
        for label, x, y in self.kept:
            self.check(unchanged(x, y), f"kept-{label}", lambda: f"a kept {label} {y} became {x}")
        for x, y in self.found:
            self.check(unchanged(x, y), "config-changed", lambda: f"driving the environment changed {y} into {x}")


def run(sc, ctx):
    cs = [Copy(sc, ctx, k) for k in ("plain", "careless", "collector")]
    for op in sc["ops"]:
        for c in cs:
            c.do(op)
            c.between()
    for c in cs[1:]:
        df = diff(c.d.trace, cs[0].d.trace, 0.0, f"{c.kind} caller ({sorted(c.over)}) against plain caller")
        ctx.check(df is None, "affected", df)
    for c in cs:
        c.end()
    if ctx.steps >= 5:
        ctx.nontrivial = True
        ctx.probe("compared steps", ctx.steps)
    m = sc["cfg"]
    ctx.state(sorted(sc["over"]), sc["style"], spec.action_space(m)[0], [w["$"] for w in m.get("wrappers", [])], m.get("ref", {}).get("$"), sc["garbage"])
