"""C03 Instances in one process do not influence each other."""
import copy
import random

import numpy as np

from .. import build, spec
from ..core import Scheduler, Violation, isolated, same
from ..drive import Drive, diff, gen_ops

ID = "C03"
COUNT = {"quick": 420, "thorough": 6000}
RULE = ("two to four environments (some equally configured, some sharing the caller's configuration dictionaries, some "
        "driven by a gem_controllers controller) built, seeded, reset, stepped, sampled and closed interleaved per call "
        "or, in real threads, per executed repository line; every trace is compared with the trace of the same program "
        "alone in a process of its own; non-trivial when at least two instances made steps")
STATES = "visited observation classes plus, for threads, distinct switch points (line, next thread)"
CTL = ["Cont-CC-PermExDc-v0", "Cont-SC-PermExDc-v0", "Finite-CC-PermExDc-v0", "Cont-CC-ExtExDc-v0", "Cont-TC-SeriesDc-v0",
       "Cont-CC-ShuntDc-v0", "Cont-CC-PMSM-v0", "Finite-TC-PermExDc-v0"]


FOCUS = [["reference_generators/"], ["reference_generators/"], ["physical_systems/physical_systems"], ["converters"], ["voltage_supplies"],
         ["solvers"], ["mechanical_loads/"], ["electric_motors/"], ["physical_system_wrappers/"], ["constraint", "reward_functions/"],
         ["core.py", "random_component"], ["gem_controllers/"], ["envs/", "utils"]]


def gen(rng, tier):
    mode = rng.choice(["calls", "calls", "calls", "threads", "threads"])
    shared = rng.random() < 0.35
    n = rng.choice([2, 2, 3, 4])
    cfgs, progs = [], []
    for j in range(n):
        if j and rng.random() < 0.55:
            cfg = copy.deepcopy(rng.choice(cfgs))
        elif shared:
            cfg = spec.gen_cfg(rng, supply=0.5, supply_kinds=("Ideal",), conv=0, load=0, solver=0, ref=0, wrappers=0,
                               reward=0, filter=0.5, vis=0, motor=0.8, constraints=0.8)
            cfg["empty"] = [k for k in ("supply", "converter", "motor", "load", "ode_solver", "reference_generator", "reward_function")
                            if rng.random() < 0.4]
        else:
            cfg = spec.gen_cfg(rng, noise=True, wrappers=0.4, vis=0.1 if mode == "calls" else 0, solver=0.4)
            if rng.random() < 0.12:
                cfg = {"id": rng.choice(CTL), "vis": None, "ctl": True}
        if j and rng.random() < 0.3:
            # the same, but one aspect differs
            for k in ("tau", "motor", "load", "constraints", "ref"):
                if rng.random() < 0.3:
                    cfg.pop(k, None)
        cfgs.append(cfg)
        progs.append(gen_ops(rng, cfg, episodes=(1, 2), steps=(3, 14) if mode == "threads" else (3, 20)))
    return {"mode": mode, "shared": shared, "cfgs": cfgs, "progs": progs, "sched": rng.randrange(1 << 40),
            "q": rng.choice([[1, 15], [1, 60], [5, 400]]), "focus": rng.choice(FOCUS) if rng.random() < 0.6 else []}


class Prog:
    """A program over one instance, executed one operation at a time."""

    def __init__(self, cfg, ops, pool=None, noise=0):
        self.cfg, self.ops, self.pool, self.noise = cfg, ops, pool, noise
        self.pos = -1
        self.d = None
        self.ctl = None

    @property
    def done(self):
        return self.pos >= len(self.ops)

    def make(self):
        if self.cfg.get("ctl"):
            import gem_controllers as gc
            self.d = Drive({k: v for k, v in self.cfg.items() if k != "ctl"})
            self.ctl = gc.GemController.make(self.d.u, self.cfg["id"], block_diagram=False)
        elif self.pool is not None:
            self.d = Drive.__new__(Drive)
            Drive.__init__(self.d, self.cfg) if self.pool is None else self._pooled()
        else:
            self.d = Drive(self.cfg)

    def _pooled(self):
        import gym_electric_motor as gem
        kw = shared_kwargs(self.cfg, self.pool)
        self.d.cfg, self.d.ctx = self.cfg, None
        self.d.env = gem.make(self.cfg["id"], **kw)
        self.d.u = self.d.env.unwrapped
        self.d.space = self.d.env.action_space
        self.d.trace = []
        self.d.tau = self.d.u.physical_system.tau
        self.d.terminated = True
        self.d.tag = self.cfg["id"]

    def next(self):
        if self.pos < 0:
            self.make()
        else:
            op = self.ops[self.pos]
            if op[0] == "r":
                self.rec = self.d.reset(op[1])
                if self.ctl:
                    self.ctl.reset()
            elif self.ctl:
                if self.d.terminated:
                    self.rec = self.d.reset()
                    self.ctl.reset()
                a = self.ctl.control(self.rec[1].copy(), self.rec[2].copy())
                (s, r), rew, t, _, _ = self.d.env.step(a)
                self.rec = ("step", np.array(s), np.array(r), float(rew), bool(t), np.array(a, float))
                self.d.trace.append(self.rec)
                self.d.terminated = bool(t)
            else:
                self.d.auto(op[1])
        self.pos += 1

    def all(self):
        while not self.done:
            self.next()
        return self.d.trace


def shared_kwargs(cfg, pool):
    """Keyword arguments out of the caller's pool of (shared) configuration objects."""
    def get(key, fn):
        k = key + repr(cfg.get(key))
        if k not in pool:
            pool[k] = fn()
        return pool[k]
    kw = {"visualization": ()}
    if "tau" in cfg:
        kw["tau"] = cfg["tau"]
    if "motor" in cfg:
        kw["motor"] = get("motor", lambda: build.obj(cfg["motor"]))
    if "supply" in cfg:
        kw["supply"] = get("supply", lambda: {"u_nominal": cfg["supply"]["u_nominal"]})
    if "constraints" in cfg:
        kw["constraints"] = get("constraints", lambda: build.obj(cfg["constraints"]))
    if "filter" in cfg:
        kw["state_filter"] = get("filter", lambda: list(cfg["filter"]))
    for k in cfg.get("empty", []):
        # one empty dictionary of the caller for the defaults of everything
        if k not in kw:
            kw[k] = pool.setdefault("empty", {})
    return kw


def plain(x):
    """Comparable picture of configuration objects."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return (type(x).__name__, sorted((k, repr(plain(v))) for k, v in vars(x).items()) if hasattr(x, "__dict__") else "")


def solo(cfg, ops, shared):
    return Prog(cfg, ops, {} if shared and not cfg.get("ctl") else None).all()


def run(sc, ctx):
    cfgs, progs = sc["cfgs"], sc["progs"]
    rng = random.Random(sc["sched"])
    pool = {} if sc["shared"] else None
    # an empty program of the solo runs is executed in a process of its own
    want = {}
    for j, (c, p) in enumerate(zip(cfgs, progs)):
        key = repr((c, p))
        if key not in want:
            want[key] = isolated(solo, c, p, sc["shared"])
    P = [Prog(c, p, None if (c.get("ctl") or pool is None) else pool) for c, p in zip(cfgs, progs)]
    before = None
    if sc["mode"] == "calls":
        pending = list(range(len(P)))
        last = None
        while pending:
            j = rng.choice(pending)
            if last is not None and j != last:
                ctx.fault("interleaving-switch")
                ctx.state("call", cfgs[j]["id"], cfgs[last]["id"], P[j].pos < 0)
            last = j
            P[j].next()
            if pool is not None and before is None and all(p.pos >= 0 or False for p in P):
                before = True
            if rng.random() < 0.05:
                P[j].d.env.action_space.seed(rng.randrange(100))
                P[j].d.env.action_space.sample()
                P[j].d.u.physical_system.action_space.sample()
                ctx.fault("sample-action-space")
            if P[j].done:
                pending.remove(j)
                if rng.random() < 0.5:
                    P[j].d.env.close()
                    ctx.fault("close-one")
                if rng.random() < 0.2:
                    cl = Drive(cfgs[j]) if not cfgs[j].get("ctl") else None
                    if cl:
                        cl.reset(9)
                        ctx.fault("late-extra-instance")
    else:
        s = Scheduler(rng, (50, 400) if sc.get("focus") else tuple(sc["q"]), focus=sc.get("focus", ()))
        for j, p in enumerate(P):
            s.spawn(j, p.all)
        _, errors = s.run()
        ctx.fault("thread-switch", s.switches)
        ctx.probe("threads-lines", s.lines)
        ctx.state("order", s.order.hexdigest())
        ctx.log("order", s.order.hexdigest())
        for j, e in errors.items():
            raise Violation("thread-crash", f"instance {j} {cfgs[j]['id']}: {type(e).__name__}: {e}\n"
                            f"{getattr(e, '__tbtext__', '')}")
    for j, p in enumerate(P):
        w = want[repr((cfgs[j], progs[j]))]
        x = diff(w, p.d.trace, 0.0, f"instance {j} {cfgs[j]['id']} alone vs together:")
        ctx.check(x is None, "influence", x or "")
        for r in p.d.trace:
            ctx.log(*r)
        ctx.steps += sum(1 for r in w if r[0] == "step")
        ctx.resets += sum(1 for r in w if r[0] == "reset")
        ctx.sim_time += p.d.tau * sum(1 for r in w if r[0] == "step")
        for r in w[:10]:
            ctx.obs_state(p.d.tag, r[1])
    if pool is not None:
        want_pool = {}
        for c in cfgs:
            if not c.get("ctl"):
                shared_kwargs(c, want_pool)
        for k in pool:
            ctx.check(k not in want_pool or repr(plain(pool[k])) == repr(plain(want_pool[k])), "config-modified",
                      f"the caller's {k} became {plain(pool[k])}")
        ctx.fault("shared-configuration")


def shrink(sc):
    n = len(sc["cfgs"])
    if n > 1:
        for j in range(n):
            yield dict(sc, cfgs=sc["cfgs"][:j] + sc["cfgs"][j + 1:], progs=sc["progs"][:j] + sc["progs"][j + 1:])
    for j in range(n):
        p = sc["progs"][j]
        for k in (len(p) // 2, len(p) - 1):
            if 1 <= k < len(p):
                yield dict(sc, progs=sc["progs"][:j] + [p[:k]] + sc["progs"][j + 1:])
    if sc["mode"] == "threads":
        yield dict(sc, mode="calls")
    from ..run import generic_shrink
    for c in generic_shrink(sc):
        # the action space must not change
        if [spec.action_space(x) for x in c["cfgs"]] == [spec.action_space(x) for x in sc["cfgs"]]:
            yield c
