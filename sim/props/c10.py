"""C10 Dead time delays every action by exactly the configured number of steps."""
import numpy as np

from .. import build, spec
from ..core import Violation
from ..drive import Drive, diff, gen_ops

ID = "C10"
COUNT = {"quick": 1300, "thorough": 16000}
RULE = ("random drive behind one or several stacked dead time processors between other processors, with default or own reset "
        "actions, resets at random moments, refused and asynchronously lost actions, and callers that reuse and overwrite their "
        "action buffer; the trace is compared with the undelayed drive fed with the shifted actions, and the actions reaching the "
        "converter with those sent; non-trivial when at least two actions came through the delay")


def gen(rng, tier):
    dq = rng.random() < 0.15
    cfg = spec.gen_cfg(rng, motors=["PMSM", "SynRM", "EESM"] if dq else None, action="Cont" if dq else None, wrappers=0.3,
                       dead=False, ref=0.4, reward=0.3, constraints=0.5, vis=0.02, filter=0.1, supply=0.3, conv=0.6, solver=0.2)
    if dq:
        for k in ("filter", "constraints", "ref", "reward"):
            cfg.pop(k, None)
        cfg["wrappers"] = []
    mode = "dq-inner" if dq and rng.random() < 0.5 else "dq-outer" if dq else "plain"
    n = rng.choice([1, 1, 1, 2, 3])
    steps = [rng.choice([1, 1, 2, 3, 5, 12]) for _ in range(n)]
    ws = list(cfg.get("wrappers", []))
    space = spec.action_space(dict(cfg, wrappers=ws + ([{"$": "DqToAbc"}] if mode == "dq-outer" else [])))
    pos = []
    own = []
    for s in steps:
        pos.append(rng.randint(0, len(ws)))
        own.append([spec.rand_action(rng, space) for _ in range(s)] if rng.random() < 0.35 and mode != "dq-inner" else None)
    for o in own:
        if o and rng.random() < 0.5:
            o[:] = [o[0]] * len(o)
    ops = gen_ops(rng, dict(cfg, wrappers=ws + ([{"$": "DqToAbc"}] if dq else [])), episodes=(1, 4), steps=(3, 25))
    out = []
    for op in ops:
        if op[0] == "s" and rng.random() < 0.08:
            out.append(["bad"])
        out.append(op)
    return {"cfg": cfg, "mode": mode, "steps": steps, "pos": pos, "own": own, "ops": out,
            "buffer": rng.choice(["reuse", "reuse", "overwrite", "fresh", "list"])}


def wrappers(sc, order, own=True):
    ws = list(sc["cfg"].get("wrappers", []))
    items = []
    for s, p, o in zip(sc["steps"], sc["pos"], sc["own"]):
        w = {"$": "DeadTimeProcessor", "steps": s}
        if o:
            w["reset_actions"] = o[:s] if order else o[:s][::-1]
        items.append((p, w))
    for p, w in sorted(items, key=lambda x: -x[0]):
        ws.insert(min(p, len(ws)), w)
    return ws


def zero(space):
    k, s = space
    return 0 if k == "discrete" else [0] * len(s) if k == "multi" else [0.0] * len(s)


class Model:
    """Stack of queues."""

    def __init__(self, sc, space, dead, order):
        self.dead, self.order, self.z = dead, order, zero(space)
        self.reset()

    def reset(self):
        self.q = []
        for w in self.dead:
            o = w.get("reset_actions")
            lst = [self.z] * w["steps"] if not o else list(o)
            self.q.append(lst if self.order else lst[::-1])

    def push(self, a):
        for q in reversed(self.q):   # outermost first
            q.append(a)
            a = q.pop(0)
        return a


def run(sc, ctx):
    cfg, mode = sc["cfg"], sc["mode"]
    ws = wrappers(sc, True)
    if mode == "dq-outer":
        ws = [{"$": "DqToAbc"}] + ws
    elif mode == "dq-inner":
        ws = ws + [{"$": "DqToAbc"}]
    dead = [w for w in ws if w["$"] == "DeadTimeProcessor"]
    d = Drive(dict(cfg, wrappers=ws), ctx)
    space = spec.action_space(dict(cfg, wrappers=[w for w in ws if w["$"] != "DeadTimeProcessor"]))
    inner = spec.action_space(dict(cfg, wrappers=[]))
    got, sent = [], []
    conv = d.u.physical_system.unwrapped.converter
    orig = conv.set_action

    def spy(action, t):
        got.append(plain(action))
        return orig(action, t)
    conv.set_action = spy
    if mode == "dq-inner":
        p = d.u.physical_system
        while type(p).__name__ != "DeadTimeProcessor":
            p = p.physical_system
        deep = p.simulate

        def tap(action):
            sent.append(plain(action))
            return deep(action)
        p.simulate = tap
    # the order in which a list of own reset actions is played is not documented: either is right, but always the same
    orders = [True, False] if any(o and any(x != o[0] for x in o) for o in sc["own"]) else [True]
    play(sc, ctx, d, space)
    fails = []
    for order in orders:
        x = judge(sc, ctx, d, dead, order, space, inner, got, sent)
        if x is None:
            return
        fails.append(x)
    raise Violation(*fails[0])


def plain(a):
    a = np.array(a)
    return a.tolist()


def play(sc, ctx, d, space):
    """Plays the operations and stores what was sent in sc["_sent"]: ("r", seed) | ("s", action)."""
    hist = []
    buf = None
    for op in sc["ops"]:
        if op[0] == "r":
            d.reset(op[1])
            hist.append(["r", op[1]])
            continue
        if d.terminated:
            continue
        if op[0] == "bad":
            if space[0] == "box":
                continue
            try:
                d.env.step(-1 if space[0] == "discrete" else np.array([-1] * len(space[1])))
            except Exception:
                ctx.fault("refused-action")
                continue
            raise Violation("not-refused", "action -1 accepted")
        a = op[1]
        hist.append(["s", a])
        if isinstance(a, list):
            if sc["buffer"] == "list" and space[0] == "multi":
                x = list(a)
            else:
                if buf is None or sc["buffer"] == "fresh":
                    buf = build.to_action(d.space, a)
                buf[:] = a
                x = buf
        else:
            x = a
        (s, r), rew, term, trunc, _ = d.env.step(x)
        d.trace.append(("step", np.array(s, float), np.array(r, float), float(rew), bool(term), bool(trunc)))
        d.terminated = bool(term)
        ctx.steps += 1
        ctx.sim_time += d.tau
        ctx.log(d.trace[-1])
        ctx.obs_state(d.tag + str(sc["steps"]), s)
        if isinstance(x, (np.ndarray, list)) and sc["buffer"] != "fresh":
            same = plain(x) == [float(v) if space[0] == "box" else v for v in a]
            ctx.check(same, "action-modified", lambda: f"the action {a} was changed to {x}")
            if sc["buffer"] in ("overwrite", "list"):
                x[:] = [7] * len(x) if isinstance(x, list) else np.full_like(x, 0 if space[0] != "box" else 0.77)
            ctx.fault("buffer-reused")
    sc["_sent"] = hist


def judge(sc, ctx, d, dead, order, space, inner, got, sent):
    hist = sc["_sent"]
    if sc["mode"] == "dq-inner":
        mo = Model(sc, inner, dead, order)
        n = 0
        for op in hist:
            if op[0] == "r":
                mo.reset()
                continue
            want = mo.push(sent[n])
            if not close(got[n], want):
                return "delay", f"step {n}: the converter got {got[n]}, due was {want}; sent {sent[:n + 1]}"
            n += 1
        ctx.nontrivial = n > sum(sc["steps"]) + 1
        return None if len(got) == n else ("delay", f"{len(got)} actions applied for {n} sent")
    mo = Model(sc, space, dead, order)
    und = Drive(dict(sc["cfg"], wrappers=([{"$": "DqToAbc"}] if sc["mode"] == "dq-outer" else [])
                     + list(sc["cfg"].get("wrappers", []))))
    n = fresh = 0
    for op in hist:
        if op[0] == "r":
            mo.reset()
            und.reset(op[1])
            fresh = 0
        else:
            if und.terminated:
                return "delay", "the undelayed drive with the shifted actions terminated earlier"
            a = mo.push(op[1])
            und.step(a)
            if sc["mode"] == "plain" and not close(got[n], clip(a, space)) and not close(got[n], a):
                return "delay", f"step {n}: the converter got {got[n]}, due was {a}"
            n += 1
            fresh += 1
            ctx.nontrivial = ctx.nontrivial or fresh > sum(sc["steps"]) + 1
    x = diff(und.trace, d.trace, 0.0, "undelayed with shifted actions vs delayed:")
    return None if x is None else ("delay", x)


def clip(a, space):
    if space[0] != "box":
        return a
    return [min(max(v, lo), hi) for v, (lo, hi) in zip(a, space[1])]


def close(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    return a.shape == b.shape and bool(np.all(a == b))
