"""C13 Voltage supplies follow their law in simulated time."""
import math

import numpy as np

from .. import build, model, spec
from ..drive import Drive, gen_ops

ID = "C13"
COUNT = {"quick": 1500, "thorough": 20000}
RULE = ("(a) supply objects driven with random time grids, current histories (zero, drawing, fed back, steps), seeds and resets; "
        "(b) whole drives with every supply, topology and interlocking, random actions, terminations and resets, whose supply is "
        "asked under observation; the reported voltage is compared with the law at that simulated time, the current handed over "
        "with the power delivered by the converter; non-trivial when more than 4 voltages were compared")
STATES = "supply kind x topology x phase of the supply voltage in twentieths x charge of the capacitor in twentieths"


def gen(rng, tier):
    if rng.random() < 0.4:
        kind = rng.choice(["Ideal", "RC", "RC", "AC1", "AC1", "AC3", "AC3"])
        u = rng.choice([1.0, 12.0, 60.0, 230.0, 400.0, 600.0])
        sc = {"mode": "obj", "kind": kind, "u": u}
        if kind == "RC":
            sc["par"] = rng.choice([None, {"R": rng.choice([0.5, 1.0, 30.0]), "C": rng.choice([1e-3, 4e-3, 0.1])}])
        elif kind in ("AC1", "AC3"):
            sc["par"] = rng.choice([None, {"frequency": rng.choice([16.7, 50.0, 60.0, 400.0, rng.uniform(1, 500)])},
                                    {"frequency": rng.choice([50.0, 333.0]), "phase": rng.choice([0.0, math.pi / 2, rng.uniform(0, 6.28)])}])
        ops = []
        for e in range(rng.randint(1, 4)):
            ops.append(["r", rng.choice([None, None, 3, rng.randrange(2**31)])])
            dt = rng.choice([1e-5, 1e-4, 1e-3]) if kind != "RC" else rng.choice([1e-5, 5e-5])
            i = rng.uniform(-1, 1) * 100
            far = kind != "RC" and rng.random() < 0.4     # also long after the reset
            for _ in range(rng.randint(3, 60)):
                if rng.random() < 0.2:
                    i = rng.choice([0.0, rng.uniform(0, 1) * 100, rng.uniform(-1, 1) * 100])
                ops.append(["g", rng.uniform(0, 20) if far and rng.random() < 0.2 else dt * rng.choice([0, 1, 1, 1, 2.5]), i])
        return dict(sc, ops=ops)
    cfg = spec.gen_cfg(rng, supply=1.0, load_kinds=("Poly", "Const", "Ext"), wrappers=0.15, ref=0.1, reward=0, constraints=0.4,
                       filter=0, vis=0, conv=0.7, interlock=0.35, solver=0.4)
    if rng.random() < 0.5:
        cfg["supply"] = spec.g_supply(rng, spec.split(cfg)[2], ("RC",))
    return {"mode": "env", "cfg": cfg, "ops": gen_ops(rng, cfg, episodes=(1, 3), steps=(5, 40), amp=rng.choice([1.0, 1.0, 0.3]))}


class Law:
    """Reference of a supply."""

    def __init__(self, kind, u, par):
        self.kind, self.u = kind, u
        if kind == "RC":
            p = par or {"R": 1.0, "C": 4e-3}
            self.r, self.c = p["R"], p["C"]
        elif kind in ("AC1", "AC3"):
            p = par or {}
            self.f, self.ph = p.get("frequency", 50.0), p.get("phase")
            self.amp = u * math.sqrt(2.0) * (1.0 if kind == "AC1" else 1 / math.sqrt(3.0))
            self.fixed = self.ph is not None
        self.slack = 0.0

    def reset(self, got):
        self.t, self.slack = 0.0, 0.0
        if self.kind in ("Ideal", "RC"):
            self.v = self.u
            return [self.u]
        if self.kind == "AC1" and not self.fixed:
            self.ph = None          # random: the phase is identified with the first voltages
            self.first = got[0] / self.amp
            return [got[0]]
        if self.kind == "AC3" and not self.fixed:
            # sin x, sin(x + 120 deg) determine the phase
            s = got[0] / self.amp
            c = (got[1] / self.amp + s / 2) / (math.sqrt(3) / 2)
            self.ph = math.atan2(s, c)
        return self.wave(0.0)

    def wave(self, t):
        n = 1 if self.kind == "AC1" else 3
        return [self.amp * math.sin(2 * math.pi * self.f * t + self.ph + 2 * math.pi / 3 * k) for k in range(n)]

    def at(self, t, i, got):
        if self.kind == "Ideal":
            return [self.u], 0.0
        if self.kind == "RC":
            dt = t - self.t
            end = self.u - self.r * i
            x = dt / (self.r * self.c)
            gap = abs(end - self.v)
            self.v = end + (self.v - end) * math.exp(-x)
            self.slack = self.slack * 1.0 + 0.5 * x * x * gap * 1.02 + 1e-12 * self.u
            self.t = t
            return [self.v], self.slack + 1e-9 * self.u
        if self.ph is None:
            # the first voltage leaves two phases; the first later voltage that tells them apart decides
            c0 = math.asin(min(1.0, max(-1.0, self.first)))
            cand = [c0, math.pi - c0]
            vs = [self.amp * math.sin(2 * math.pi * self.f * t + p) for p in cand]
            best = min((0, 1), key=lambda j: abs(vs[j] - got[0]))
            if abs(vs[0] - vs[1]) > 1e-3 * self.amp:
                self.ph = cand[best]
            return [vs[best]], 2e-6 * self.amp
        return self.wave(t), 2e-6 * self.amp


CLS = {"Ideal": "IdealVoltageSupply", "RC": "RCVoltageSupply", "AC1": "AC1PhaseSupply", "AC3": "AC3PhaseSupply"}


def run(sc, ctx):
    (run_obj if sc["mode"] == "obj" else run_env)(sc, ctx)


def agree(a, b, tol):
    a, b = np.atleast_1d(np.array(a, float)).ravel(), np.atleast_1d(np.array(b, float)).ravel()
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def run_obj(sc, ctx):
    kind, u = sc["kind"], sc["u"]
    kw = {"u_nominal": u}
    par = sc.get("par")
    if kind != "Ideal":
        kw["supply_parameter"] = None if par is None else dict(par)
    s = build.cls(CLS[kind])(**kw)
    ctx.check(par is None or kw["supply_parameter"] == par, "parameter-modified", lambda: f"{kw} from {par}")
    ctx.check(s.voltage_len == (3 if kind == "AC3" else 1) and s.u_nominal == u, "properties", f"{s.voltage_len} {s.u_nominal}")
    law = Law(kind, u, par)
    rng = {"Ideal": (u, u), "RC": (0, u), "AC1": (-u * 2**.5, u * 2**.5), "AC3": (-u * (2 / 3)**.5, u * (2 / 3)**.5)}[kind]
    ctx.check(agree(s.supply_range, rng, 1e-9 * u), "range", f"announced range {s.supply_range}, should be {rng}")
    seeded, phases, n = {}, [], 0
    t, only_draw = 0.0, True
    for op in sc["ops"]:
        if op[0] == "r":
            if op[1] is not None and hasattr(s, "seed"):
                s.seed(np.random.SeedSequence(op[1]))
            v = s.reset()
            v = [float(x) for x in v]
            want = law.reset(v)
            ctx.check(agree(v, want, 1e-6 * u), "reset", lambda: f"voltage after reset {v}, should be {want}")
            if kind in ("AC1", "AC3") and not law.fixed:
                phases.append(v[0])
                if op[1] is not None:
                    ctx.check(seeded.setdefault(op[1], v) == v, "seed", f"same seed, other phase: {v} {seeded[op[1]]}")
            t, only_draw = 0.0, True
            ctx.resets += 1
            continue
        t += op[1]
        only_draw = only_draw and op[2] >= 0
        v = [float(x) for x in s.get_voltage(t, op[2])]
        want, tol = law.at(t, op[2], v)
        ctx.check(agree(v, want, tol), "law", lambda: f"at t={t} with current {op[2]}: {v}, law gives {want} (allowed {tol:.2g})")
        ctx.log(v)
        if kind == "RC" and only_draw:
            ctx.check(v[0] <= u * (1 + 1e-12), "range", lambda: f"{v} above the source voltage {u} without feedback")
        if kind != "RC":
            ctx.check(all(rng[0] - 1e-9 * u <= x <= rng[1] + 1e-9 * u for x in v), "range", f"{v} outside of {rng}")
        if kind == "AC3":
            ctx.check(abs(sum(v)) < 1e-9 * u, "symmetry", f"phases {v} do not add up to zero")
        ctx.state(kind, [round(20 * x / u) for x in v])
        n += 1
        ctx.steps += 1
        ctx.sim_time += op[1]
    if len(set(phases)) == 1 and len(phases) > 2 and len(seeded) != 1:
        ctx.check(False, "phase", f"random phases of {len(phases)} episodes coincide")
    ctx.nontrivial = n > 4


def run_env(sc, ctx):
    cfg = sc["cfg"]
    a, _, m = spec.split(cfg)
    sup = build.obj(cfg["supply"])
    kind = {v: k for k, v in CLS.items()}[cfg["supply"]["$"]]
    calls = []
    orig = sup.get_voltage

    def spy(t, *args, **kw):
        v = orig(t, *args, **kw)
        calls.append((float(t), float(np.squeeze(args[0] if args else kw.get("i_sup", 0.0))), [float(x) for x in v]))
        return v
    sup.get_voltage = spy
    d = Drive(cfg, ctx, supply=sup)
    ps = d.u.physical_system
    names, lim = list(ps.state_names), [float(x) for x in ps.limits]
    ip = names.index("u_sup")
    u, tau = cfg["supply"]["u_nominal"], d.tau
    ctx.check(abs(lim[ip] - u) < 1e-9 * u, "limit", f"limit of u_sup {lim[ip]}")
    law = Law(kind, u, cfg["supply"].get("supply_parameter"))
    conv = model.Conv(a == "Finite", spec.conv_types(cfg), 0.0, tau)
    til = cfg.get("conv", {}).get("til", 0.0)
    prev = None
    n = tot = 0
    draw = True
    fed = False
    off = False
    for op in sc["ops"]:
        if op[0] == "r":
            calls.clear()
            s = d.reset(op[1])[1]
            v0 = s[ip] * lim[ip]
            if kind != "AC1":
                want = law.reset([v0])
                ctx.check(abs(v0 - want[0]) <= 1e-9 * u, "reset", lambda: f"supply voltage after reset {v0}, should be {want}")
            else:
                want = law.reset([v0])
                ctx.check(abs(v0 - want[0]) <= 1e-6 * u, "reset", lambda: f"supply voltage after reset {v0}, should be {want}")
            conv.reset()
            prev, n, draw, off = s, 0, True, False
            first = True
            continue
        if d.terminated:
            continue
        calls.clear()
        if prev is None:
            continue
        s = d.step(op[1])[1]
        if not (np.all(np.isfinite(s)) and np.max(np.abs(s)) < 1e3):
            off = True
        if off:
            continue
        ctx.check(len(calls) >= 1, "not-asked", "the supply was not asked in this step")
        for t, i, v in calls:
            ctx.check(n * tau - 1e-9 * tau <= t <= (n + 1) * tau + 1e-9 * tau, "time",
                      lambda: f"supply asked at t={t} in the period from {n * tau}")
            want, tol = law.at(t, i, v)
            ctx.check(agree(v, want, tol), "law", lambda: f"step {n}, t={t}, current {i}: {v}, law gives {want} (allowed {tol:.2g})")
            draw = draw and i >= -1e-9
            ctx.state(kind, spec.conv_types(cfg), [round(20 * x / u) for x in v])
        got = s[ip] * lim[ip]
        ctx.check(abs(got - calls[-1][2][0]) <= 1e-9 * u, "reported", lambda: f"step {n}: reported {got}, used {calls[-1]}")
        if kind == "AC1" and law.ph is not None and til == 0:
            want = law.wave(n * tau)[0]
            ctx.check(abs(got - want) <= 4e-6 * law.amp, "reported", lambda: f"step {n}: reported {got}, the wave has {want}")
        if kind == "RC" and draw and tau < 0.5 * law.r * law.c:   # (the documented limit of the integration)
            ctx.check(got <= u * (1 + 1e-9), "range", lambda: f"step {n}: {got} V above the source voltage without feedback")
        if not draw and not fed:
            ctx.probe("fed-back")
            fed = True
        if til == 0 and not cfg.get("wrappers"):
            # the current handed over at the begin of the period is the one the converter draws
            cur = currents(m, names, lim, prev)
            # (a switched converter may account the switching state before or after the switching instant)
            old = freewheel(spec.conv_types(cfg), cur) if first else conv.levels(cur, tau)
            first = False
            conv.begin(op[1])
            new = conv.levels(cur, 0.0)
            i = calls[0][1]
            ps_ = [power(spec.conv_types(cfg), lev, cur) for lev in ([new] if a == "Cont" else [new, old])]
            sc_ = sum(abs(x) for x in cur) + 1e-3
            if "1QC" not in spec.conv_types(cfg) and (n or m in spec.DC):
                ctx.check(any(abs(i - p) <= 1e-6 * sc_ for p in ps_), "supply-current",
                          lambda: f"step {n}: supply is loaded with {i}, the converter draws {ps_}; currents {cur}, action {op[1]}")
                ctx.probe("supply-current")
        prev = s
        n += 1
        tot += 1
    ctx.nontrivial = tot > 4
    if tot:
        ctx.probe("supply-" + kind, tot)


def currents(m, names, lim, s):
    o = {n: v * li for n, v, li in zip(names, s, lim)}
    if m == "ShuntDc":
        return [o["i_a"] + o["i_e"]]
    if m in spec.DC:
        return [o[n] for n in spec.MOTORS[m]["cur"]]
    if m in ("PMSM", "SynRM", "EESM"):
        return [o["i_a"], o["i_b"], o["i_c"]] + ([o["i_e"]] if m == "EESM" else [])
    out = [o["i_sa"], o["i_sb"], o["i_sc"]]
    return out + ([o["i_ra"], o["i_rb"], o["i_rc"]] if m == "DFIM" else [])


def freewheel(types, cur):
    out, n = [], 0
    for t in types:
        w = 3 if t == "B6" else 1
        for y in cur[n:n + w]:
            one = model.Leg.level(0, y)
            out.append(one - (model.Leg.level(0, -y) if t == "4QC" else 0.5 if t == "B6" else 0.0))
        n += w
    return out


def power(types, lev, cur):
    p, n = 0.0, 0
    for t in types:
        w = 3 if t == "B6" else 1
        for x, y in zip(lev[n:n + w], cur[n:n + w]):
            p += (x + (0.5 if t == "B6" else 0.0)) * y
        n += w
    return p
