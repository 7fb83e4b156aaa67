"""C16 State processors are faithful and do not touch the physics."""
import math

import numpy as np

from .. import build, model, parts, spec
from ..core import interrupt_at
from ..drive import Drive, gen_ops

ID = "C16"
COUNT = {"quick": 900, "thorough": 12000}
RULE = ("random drives with stacks of up to four state processors in any order, executed next to the same drive without them with equal "
        "seeds and actions over several episodes; sensor faults inside the stack, failing and interrupted steps and resets followed by a "
        "new episode, episodes cut short; taps between the processors compare each output with its definition applied to its input; "
        "the same stack without taps and with other block lengths of the noise has to deliver the same; non-trivial when at least "
        "one processor and 5 observations were judged")
STATES = "stack of processors x observation in fifths"
KEY = "flux-observer-state-space"


def g_stack(rng, m):
    names = spec.state_names(m)
    cur = [n for n in names if n.startswith("i")]
    stack, gone, added = [], False, set()
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["cos", "sum", "noise", "flux", "spike", "cos"])
        if k == "cos" and m in spec.AC and not gone:
            ang = "psi_angle" if "psi" in added and rng.random() < 0.5 else "epsilon"
            if f"cos({ang})" in names:
                continue
            rem = rng.random() < 0.4
            w = {"$": "CosSinProcessor", "angle": ang, "remove_angle": rem}
            if rem:
                names = [n for n in names if n != ang]
                if ang == "epsilon":
                    gone = True
                else:
                    added.discard("psi")
            names = names + [f"cos({ang})", f"sin({ang})"]
        elif k == "sum" and "i_sum" not in names and m != "ShuntDc":
            sel = rng.sample(cur, rng.randint(1, len(cur)))
            w = {"$": "CurrentSumProcessor", "currents": sel, "limit": rng.choice(["max", "sum"])}
            if rng.random() < 0.3:
                del w["limit"]
            names = names + ["i_sum"]
        elif k == "flux" and m in spec.IM and "psi_abs" not in names:
            w = {"$": "FluxObserver"}
            names = names + ["psi_abs", "psi_angle"]
            added.add("psi")
        elif k == "noise":
            sel = rng.sample(names, rng.randint(1, min(4, len(names))))
            dist = rng.choice(["normal", "uniform", "laplace", "normal"])
            kw = {"uniform": {"low": -0.02, "high": 0.05}}.get(dist, {"loc": rng.choice([0.0, 0.1]), "scale": rng.choice([1e-3, 0.05])})
            w = {"$": "StateNoiseProcessor", "states": rng.choice(["all", {"$t": sel}, sel]), "random_dist": dist, "random_kwargs": kw,
                 "random_length": rng.choice([1, 2, 3, 7, 1000])}
            if rng.random() < 0.15:
                del w["random_kwargs"]
                w["random_dist"] = "normal"
        elif k == "spike":
            w = {"$": "Spike", "plan": [[rng.randint(1, 20), rng.randrange(len(names)),
                                         rng.choice([0.0, 5.0, -2.0, "nan", "inf", ["*", 1.5]])] for _ in range(rng.randint(1, 3))]}
        else:
            continue
        stack.append(w)
    return stack


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, motors=rng.choice([None, spec.IM, spec.AC]), wrappers=0, ref=0.1, reward=0, constraints=0, filter=0, vis=0,
                       solver=0.3, interlock=0.2)
    cfg["constraints"] = []
    m = spec.split(cfg)[2]
    stack = g_stack(rng, m) or g_stack(rng, m) or [{"$": "StateNoiseProcessor", "states": "all", "random_kwargs": {"scale": 0.01}}]
    if any("psi" in str(i) for i in (cfg.get("ref") or {}).values()):
        del cfg["ref"]
    if any(w.get("remove_angle") for w in stack):
        cfg["ref"] = {"$": "ZeroReferenceGenerator"}
    ops = gen_ops(rng, cfg, episodes=(2, 4), steps=(2, 30))
    faults = []
    for k, op in enumerate(ops):
        if rng.random() < 0.03:
            faults.append([k, rng.choice(["interrupt", "boom"]), rng.random()])
    return {"cfg": cfg, "stack": stack, "ops": ops, "faults": faults[:2], "len": rng.choice([1, 2, 5, 11, 1000])}


def shrink(sc):
    from ..run import generic_shrink
    for i in range(len(sc["stack"])):
        yield {**sc, "stack": sc["stack"][:i] + sc["stack"][i + 1:]}
    yield from generic_shrink(sc)


def make_stack(stack, m, taps):
    out, sinks = [], []
    for k, w in enumerate(stack):
        if taps:
            sinks.append([])
            out.append(parts.Tap(sinks[-1], k))
        out.append(build.wrapper(w, m))
    if taps:
        sinks.append([])
        out.append(parts.Tap(sinks[-1], len(stack)))
    return tuple(out), sinks


class Stage:
    """Own model of one processor."""

    def __init__(self, w, names, limits, nominal, par, tau):
        self.w, self.kind = w, w["$"]
        self.inn, self.lim_in = list(names), np.array(limits, float)
        self.tau = tau
        lim, nom, nm = list(limits), list(nominal), list(names)
        if self.kind == "CosSinProcessor":
            self.i = nm.index(w["angle"])
            if w["remove_angle"]:
                for x in (nm, lim, nom):
                    del x[self.i]
            nm += [f"cos({w['angle']})", f"sin({w['angle']})"]
            lim += [1.0, 1.0]
            nom += [1.0, 1.0]
        elif self.kind == "CurrentSumProcessor":
            self.idx = [nm.index(c) for c in w["currents"]]
            f = sum if w.get("limit") == "sum" else max
            nm += ["i_sum"]
            lim += [f(lim[i] for i in self.idx)]
            nom += [f(nom[i] for i in self.idx)]
        elif self.kind == "FluxObserver":
            self.p = par
            self.idx = [nm.index(c) for c in ("i_sa", "i_sb", "i_sc")]
            self.om = nm.index("omega")
            mx = par["l_m"] * lim[nm.index("i_sd")]
            nm += ["psi_abs", "psi_angle"]
            lim += [mx, math.pi]
            nom += [mx, math.pi]
            self.psi = 0j
        elif self.kind == "StateNoiseProcessor":
            st = w["states"]
            st = st["$t"] if isinstance(st, dict) else st
            self.idx = list(range(len(nm))) if st == "all" else [nm.index(s) for s in st]
            self.noise = []
        self.names, self.limits, self.nominal = nm, np.array(lim), np.array(nom)

    def check(self, kind, x, y, ctx, where):
        """x, y: input and output of the same moment."""
        w = self.w

        def eq(a, b, cls, tol=1e-11):
            a, b = np.asarray(a, float), np.asarray(b, float)
            ok = a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
            ctx.check(ok, cls, lambda: f"{where}: {self.kind} {w}: {a} instead of {b}, input {x}")
        with np.errstate(all="ignore"):
            if self.kind == "Spike":
                return
            if self.kind == "CosSinProcessor":
                keep = np.delete(x, self.i) if w["remove_angle"] else x
                eq(y[:-2], keep, "pass-through")
                a = x[self.i] * self.lim_in[self.i]
                eq(y[-2:], [np.cos(a), np.sin(a)], "cos-sin", 1e-9)
            elif self.kind == "CurrentSumProcessor":
                eq(y[:-1], x, "pass-through")
                eq(y[-1], sum(x[i] * self.lim_in[i] for i in self.idx) / self.limits[-1], "current-sum", 1e-9)
            elif self.kind == "FluxObserver":
                eq(y[:-2], x, "pass-through")
                if kind == "r":
                    self.psi = 0j
                else:
                    p = self.p
                    ia, ib, ic = [x[i] * self.lim_in[i] for i in self.idx]
                    i = model.clarke((ia, ib, ic))
                    l_r = p["l_m"] + p["l_sigr"]
                    self.psi += self.tau * (i * p["r_r"] * p["l_m"] / l_r
                                            - self.psi * complex(p["r_r"] / l_r, -p["p"] * x[self.om] * self.lim_in[self.om]))
                bad = not (math.isfinite(self.psi.real) and math.isfinite(self.psi.imag))
                if bad or abs(self.psi) > 1e150:
                    ctx.check(not np.all(np.isfinite(y[-2:])) or not bad, "flux-nan", f"{where}: flux {y[-2:]} after a faulty measurement")
                    self.psi = complex("nan")
                    return
                got = y[-2] * self.limits[-2] * np.exp(1j * y[-1] * self.limits[-1])
                ctx.check(abs(got - self.psi) <= 1e-8 * (abs(self.psi) + 1e-3), "flux", lambda: f"{where}: {got}, definition {self.psi}")
                if abs(self.psi) > 1e-9:
                    ctx.check(y[-2] >= 0 and abs(y[-1]) <= 1 + 1e-12, "flux", lambda: f"{where}: {y[-2:]}")
                self.psi = got if abs(self.psi) > 1e-6 else self.psi   # (rounding does not pile up)
            elif self.kind == "StateNoiseProcessor":
                rest = [i for i in range(len(x)) if i not in self.idx]
                eq(y[rest], x[rest], "pass-through", 0.0)
                self.noise.append((kind, np.where(np.isfinite(x[self.idx]), y[self.idx] - x[self.idx], np.nan)))

    def finish(self, ctx):
        if self.kind != "StateNoiseProcessor" or len(self.noise) < 3:
            return
        n = np.array([v for _, v in self.noise])
        n = n[~np.isnan(n)]
        if n.size < 3:
            return
        ep = [[]]
        for k, v in self.noise:
            if k == "r":
                ep.append([])
            ep[-1] += [float(x) for x in np.atleast_1d(v) if math.isfinite(x)]
        for e in ep:   # (equal seeds give equal noise)
            ctx.check(len(e) < 3 or len(set(e)) > 0.9 * len(e), "noise-frozen", lambda: f"{self.w}: {sorted(e)[:9]}")
        kw = self.w.get("random_kwargs", {})
        d = self.w["random_dist"] if "random_dist" in self.w else "normal"
        if d == "uniform":
            ctx.check(n.min() >= kw["low"] - 1e-12 and n.max() <= kw["high"] + 1e-12, "noise-range", lambda: f"{n.min()}..{n.max()}, {kw}")
            mu, sd = (kw["low"] + kw["high"]) / 2, (kw["high"] - kw["low"]) / math.sqrt(12)
        else:
            mu, sd = kw.get("loc", 0.0), kw.get("scale", 1.0) * (math.sqrt(2) if d == "laplace" else 1.0)
        if n.size >= 40:
            ctx.probe("noise statistics")
            ctx.check(abs(n.mean() - mu) <= 7 * sd / math.sqrt(n.size), "noise-mean", lambda: f"{n.mean()} +- {sd / math.sqrt(n.size)}, {self.w}")
            v = np.mean((n - mu) ** 2) / sd**2
            ctx.check(0.15 < v < 6, "noise-scale", lambda: f"mean square {v} of the configured, {self.w}")


def run(sc, ctx):   # noqa
    cfg, m = sc["cfg"], spec.split(sc["cfg"])[2]
    ws, sinks = make_stack(sc["stack"], m, True)
    d = Drive(cfg, ctx, physical_system_wrappers=ws)
    base = Drive(cfg)
    st2 = [dict(w) for w in sc["stack"]]
    for w in st2:
        if w["$"] == "StateNoiseProcessor":
            w["random_length"] = sc["len"]
    ref = Drive(cfg, physical_system_wrappers=make_stack(st2, m, True)[0])
    b = base.u.physical_system
    par = dict(spec.MOTORS[m]["params"])
    par.update(cfg.get("motor", {}).get("motor_parameter", {}))
    names = list(spec.state_names(m))
    nb = len(names)
    lim, nom = list(map(float, b.limits[:nb])), list(map(float, b.nominal_state[:nb]))
    stages = []
    for w in sc["stack"]:
        stages.append(Stage(w, names, lim, nom, par, d.tau))
        names, lim, nom = stages[-1].names, list(stages[-1].limits), list(stages[-1].nominal)
    full, flim = list(names), list(lim)
    if m == "ShuntDc":
        full.append("i_sum")
        flim.append(max(lim[names.index("i_a")], lim[names.index("i_e")]))
    p = d.u.physical_system
    ctx.check(list(p.state_names) == full, "names", lambda: f"{p.state_names} instead of {full}")
    ctx.check(np.allclose(p.limits, flim, rtol=1e-12), "limits", lambda: f"{p.limits} instead of {flim}")
    ctx.check(np.allclose(p.nominal_state[:len(nom)], nom, rtol=1e-12), "nominal", lambda: f"{p.nominal_state} instead of {nom}")
    ctx.check({k: v for k, v in p.state_positions.items()} == {n: i for i, n in enumerate(full)}, "positions", lambda: str(p.state_positions))
    ctx.check(p.state_space.shape == (len(full),), "space", lambda: f"{p.state_space}")
    for i, n in enumerate(full):
        lo, hi = float(p.state_space.low[i]), float(p.state_space.high[i])
        if n.startswith("psi"):
            if (lo, hi) not in ((-1.0, 1.0), (0.0, 1.0)):
                ctx.recognise(KEY, f"{n}: {lo}..{hi}")
        elif n in spec.state_names(m):
            j = spec.state_names(m).index(n)
            ctx.check((lo, hi) == (float(b.state_space.low[j]), float(b.state_space.high[j])), "space", lambda: f"{n}: {lo}..{hi}")
        else:
            ctx.check((lo, hi) == (-1.0, 1.0), "space", lambda: f"{n}: {lo}..{hi}")
    faults = {f[0]: f[1:] for f in sc["faults"]}
    n = 0
    dead = True
    for k, op in enumerate(sc["ops"]):
        if k in faults:
            kind, frac = faults[k]
            hit(d, base, ref, op, kind, frac, ctx)
            for s in sinks:
                s.clear()
            for x in (d, base, ref):
                x.terminated = True
            dead = True
            continue
        if op[0] != "r" and dead:
            continue
        recs = []
        for x in (d, base, ref):
            recs.append(x.reset(op[1]) if op[0] == "r" else x.step(op[1]))
        dead = False
        kind = "r" if op[0] == "r" else "s"
        where = f"op {k} ({recs[0][0]})"
        for i, s in enumerate(sinks):
            ctx.check(len(s) == 1 and s[0][0] == kind, "protocol", lambda: f"{where}: stage {i} saw {[q[0] for q in s]}")
        vals = [s[0][1] for s in sinks]
        for s in sinks:
            s.clear()
        x0 = recs[1][1][:nb]
        if not np.all(np.isfinite(x0)) or np.max(np.abs(x0)) > 1e6:
            return
        ctx.check(np.array_equal(vals[0], x0), "physics", lambda: f"{where}: {vals[0]} with, {x0} without processors")
        for i, sg in enumerate(stages):
            ctx.check(vals[i + 1].shape == (len(sg.names),), "shape", lambda: f"{where}: {vals[i + 1].shape} for {sg.names}")
            sg.check(kind, vals[i], vals[i + 1], ctx, where)
        out = recs[0][1]
        ctx.check(np.array_equal(out[:len(names)], vals[-1], equal_nan=True), "delivered", lambda: f"{where}: {out} instead of {vals[-1]}")
        if m == "ShuntDc":
            e = sum(vals[-1][names.index(c)] * lim[names.index(c)] for c in ("i_a", "i_e")) / flim[-1]
            ctx.check(abs(out[-1] - e) <= 1e-9 * (1 + abs(e)) or not math.isfinite(e), "current-sum", lambda: f"{where}: {out[-1]}, {e}")
        ctx.check(np.allclose(out, recs[2][1], rtol=1e-12, atol=1e-12, equal_nan=True), "repeat",
                  lambda: f"{where}: {out} != {recs[2][1]} of the same drive with other block length {sc['len']}")
        ctx.state([w["$"] for w in sc["stack"]], np.clip(np.nan_to_num(5 * out, nan=99), -99, 99).round().tolist())
        n += 1
    for sg in stages:
        sg.finish(ctx)
    for w in ws:
        if isinstance(w, parts.Spike) and w.fired:
            ctx.fault("sensor fault", w.fired)
    ctx.nontrivial = n >= 5


def hit(d, base, ref, op, kind, frac, ctx):
    """The same fault (as far as visible) for all: afterwards only a new episode is promised."""
    def do(x):
        if op[0] == "r":
            x.u.reset()   # (below gymnasium's own checks, which do not survive a failing first call)
        elif not x.terminated:
            x.u.step(build.to_action(x.space, op[1]))
    if kind == "boom":
        for x in (d, base, ref):
            t = parts.Trip(x.u.physical_system.unwrapped, "reset" if op[0] == "r" else "simulate", 1, "after")
            try:
                do(x)
            except parts.Boom:
                ctx.fault("failing physical system")
            t.restore()
    else:
        for x in (d, base, ref):
            fired, _ = interrupt_at(frac, lambda: do(x))
            if fired and x is d:
                ctx.fault("interrupt")
    for x in (d, base, ref):
        x.env.reset(seed=1234)
        x.terminated = False
