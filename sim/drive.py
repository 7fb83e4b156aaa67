"""A driven environment: performs operations and records what a user sees."""
import numpy as np

from . import build, spec
from .core import Violation


def snap(x):
    return np.array(x, dtype=float, copy=True)


class Drive:
    def __init__(self, cfg, ctx=None, callbacks=(), visualization=None, **parts):
        """parts: ready components instead of those described by cfg."""
        self.cfg, self.ctx = cfg, ctx
        self.env = build.make(cfg, callbacks, visualization, **parts)
        self.u = self.env.unwrapped
        self.space = self.env.action_space
        self.trace = []
        self.tau = self.u.physical_system.tau
        self.terminated = True
        self.tag = f"{cfg['id']}|{cfg.get('load', {}).get('$')}|{cfg.get('supply', {}).get('$')}|" \
                   f"{cfg.get('solver', {}).get('$')}|{len(cfg.get('wrappers', []))}"

    def reset(self, seed=None):
        (s, r), info = self.env.reset(seed=seed) if seed is not None else self.env.reset()
        rec = ("reset", snap(s), snap(r))
        self.trace.append(rec)
        self.terminated = False
        if self.ctx:
            self.ctx.resets += 1
            self.ctx.log(*rec)
            self.ctx.obs_state(self.tag, s)
        return rec

    def step(self, a):
        (s, r), rew, term, trunc, info = self.env.step(build.to_action(self.space, a))
        rec = ("step", snap(s), snap(r), float(rew), bool(term), bool(trunc))
        self.trace.append(rec)
        self.terminated = bool(term)
        if self.ctx:
            self.ctx.steps += 1
            self.ctx.sim_time += self.tau
            self.ctx.log(*rec)
            self.ctx.obs_state(self.tag, s)
        return rec

    def auto(self, a):
        """A step; resets first when the episode is over."""
        if self.terminated:
            self.reset()
        return self.step(a)

    def run(self, ops):
        """ops: ["r", seed|None] | ["s", action]"""
        for op in ops:
            if op[0] == "r":
                self.reset(op[1])
            else:
                self.auto(op[1])
        return self.trace


def diff(a, b, tol=0.0, what="trace"):
    """First difference of two traces as text, or None."""
    from .core import same
    for n, (x, y) in enumerate(zip(a, b)):
        if not same(x, y, tol):
            for k, (p, q) in enumerate(zip(x, y)):
                if not same(p, q, tol):
                    if isinstance(p, np.ndarray) and isinstance(q, np.ndarray) and p.shape == q.shape:
                        d = np.flatnonzero(~np.isclose(p, q, rtol=tol, atol=tol, equal_nan=True)) if tol else \
                            np.flatnonzero(p != q)
                        return f"{what} entry {n} ({x[0]}) field {k} index {d.tolist()}: {p[d]} != {q[d]}"
                    return f"{what} entry {n} ({x[0]}) field {k}: {p} != {q}"
            return f"{what} entry {n}: {x} != {y}"
    if len(a) != len(b):
        return f"{what} lengths {len(a)} != {len(b)}"
    return None


def gen_ops(rng, cfg, episodes=(1, 3), steps=(3, 25), amp=None, first_seed=True):
    space = spec.action_space(cfg)
    ops = []
    for e in range(rng.randint(*episodes)):
        seed = rng.choice([0, 1, 7, 42, 2**31, rng.randrange(2**32)]) if (e == 0 and first_seed) or rng.random() < 0.2 \
            else None
        ops.append(["r", seed])
        ops += [["s", x] for x in spec.action_program(rng, space, rng.randint(*steps), amp)]
    return ops


def no_viol(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg)
