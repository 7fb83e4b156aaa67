"""C24 Decoupled current loops respond as designed, whatever the speed and the other currents do."""
import math
import random
import warnings

import gem_controllers as gc
import numpy as np

from .. import build, parts, spec
from .. import model as machine

ID = "C24"
COUNT = {"quick": 260, "thorough": 3000}
RULE = ("random drive (parameters, either saliency, sampling time, tuning parameter) with its decoupled current controller and a "
        "reference program for one current, executed at standstill alone and again with a seeded schedule of speed changes, "
        "speed shocks, reference steps of the other currents and resets of an earlier episode; non-trivial when the controller "
        "without decoupling shows the disturbance")
STATES = "drive x quantised observation"
REAL = ["gem_controllers", "gym_electric_motor"]
STUBS = ["speed of the drive train and references (set by the simulator between control steps)"]
ASSUMPTIONS = ["small signals: no voltage clipped in either run", "voltage limits of the motor that equal those of the converter",
               "electrical speeds of at most a seventeenth radian per control step",
               "continuous actions without additional dead time"]
RECHECK = 6
MOTORS = ["PermExDc", "SeriesDc", "ShuntDc", "ExtExDc", "ExtExDc", "PMSM", "PMSM", "SynRM", "SynRM", "EESM", "EESM", "SCIM"]
PRE = 1500           # steps in which the flux of the induction machine is built up


def unit(m, n):
    lim = spec.MOTORS[m]["limits"]
    return lim.get(n, lim.get("i"))


def nominal_design(m, P):
    """Inductance and resistance that each current sees once the others are compensated (documented machine equations)."""
    if m == "PermExDc":
        return [(P["l_a"], P["r_a"])]
    if m == "SeriesDc":
        return [(P["l_a"] + P["l_e"], P["r_a"] + P["r_e"])]
    if m == "ShuntDc":
        return [(P["l_a"], P["r_a"])]
    if m == "ExtExDc":
        return [(P["l_a"], P["r_a"]), (P["l_e"], P["r_e"])]
    if m in ("PMSM", "SynRM"):
        return [(P["l_d"], P["r_s"]), (P["l_q"], P["r_s"])]
    if m == "EESM":
        s = 1 - 1.5 * P["l_m"] ** 2 / (P["l_d"] * P["l_e"])
        return [(P["l_d"], P["r_s"] / s), (P["l_q"], P["r_s"]), (P["l_e"], P["r_e"] / s)]
    ls, lr = P["l_m"] + P["l_sigs"], P["l_m"] + P["l_sigr"]
    ll, r = ls - P["l_m"] ** 2 / lr, P["r_s"] + P["r_r"] * (P["l_m"] / lr) ** 2
    return [(ll, r), (ll, r)]


def gen(rng, tier):
    m = rng.choice(MOTORS)
    M = spec.MOTORS[m]
    P = dict(M["params"])
    names = M["cc"]
    sc = {"id": f"Cont-CC-{m}-v0", "motor": {}, "tau": 1e-4 * rng.choice([1, 1, rng.uniform(.5, 1.5)]), "a": 4,
          "seed": rng.randrange(2**31)}
    if rng.random() < .3:
        sc["a"] = rng.randint(3, 6)
    if m == "EESM":
        P["l_m"] = rng.uniform(.25, .7) * math.sqrt(P["l_d"] * P["l_e"])
        sc["motor"]["l_m"] = P["l_m"]
    if rng.random() < .7:
        for k in P:
            if k == "p":
                P[k] = rng.randint(1, 5)
            elif k in ("k", "j_rotor") or (m == "EESM" and k in ("l_d", "l_e", "l_m")):
                continue
            else:
                P[k] *= rng.uniform(.7, 1.4)
            sc["motor"][k] = P[k]
        if m in ("PMSM", "SynRM") and rng.random() < .3:
            P["l_d"], P["l_q"] = P["l_q"], P["l_d"]
        if m == "EESM" and rng.random() < .3:
            P["l_q"] = P["l_d"] * rng.choice([1., 1.5])
        if m == "SCIM" and rng.random() < .4:
            P["l_sigr"] = P["l_m"] * rng.uniform(.05, .4)
            sc["motor"]["l_sigr"] = P["l_sigr"]
        sc["motor"].update({k: P[k] for k in ("l_d", "l_q") if k in P})
    u = M["limits"].get("u", M["u"])
    U = u / 2 if m in spec.AC else u
    design = nominal_design(m, P)
    # amplitudes whose steps need a part of the voltage
    amp = [min(.3 * U * sc["a"] * sc["tau"] / (l * unit(m, n)), .1) for (l, _), n in zip(design, names)]
    if m in spec.AC:
        amp = [x / 2 for x in amp]
    flux = .25
    if m == "SCIM":
        amp = [min(x, .08) for x in amp]
    I = [x * unit(m, n) for x, n in zip(amp, names)]
    emf = {"PermExDc": lambda: P["psi_e"], "SeriesDc": lambda: P["l_e_prime"] * I[0], "ShuntDc": lambda: P["l_e_prime"] * 20,
           "ExtExDc": lambda: P["l_e_prime"] * I[1],
           "PMSM": lambda: P["p"] * (P["psi_p"] + max(P["l_d"], P["l_q"]) * max(I)),
           "SynRM": lambda: P["p"] * max(P["l_d"], P["l_q"]) * max(I),
           "EESM": lambda: P["p"] * (max(P["l_d"], P["l_q"]) * max(I) + P["l_m"] * I[-1]),
           "SCIM": lambda: P["p"] * P["l_m"] * 1.1 * flux * unit(m, "i")}[m]()
    wmax = min(.35 * U / emf, .6 * M["limits"]["omega"], .06 / (sc["tau"] * P.get("p", 1)))
    n = sc["n"] = rng.randint(80, 250)
    j = sc["axis"] = rng.randrange(len(names))
    low = 0. if m in ("SeriesDc", "ShuntDc") else -1.

    def program(lo, first=None):
        k, out = first or 0, []
        while k < n:
            out.append([k, rng.choice([0., 1., rng.uniform(lo, 1)])])
            k += rng.randint(10, 90)
        return out
    sc["ref"] = [[k, v * amp[j]] for k, v in program(low, rng.randint(1, 10))]
    sc["other"] = {str(i): [[k, v * amp[i]] for k, v in program(0. if names[i] == "i_e" else low, rng.randint(0, 20))]
                   for i in range(len(names)) if i != j}
    neg = m in spec.AC
    sc["speed"] = [[k, v * wmax] for k, v in program(-1. if neg else 0., 0)]
    sc["lag"] = rng.choice([10, 30, 100])
    sc["before"] = rng.choice([0, 0, rng.randint(1, 60)])
    sc["amp"] = max(amp)
    sc["hold"] = flux if m == "SCIM" else 0.
    return sc


def shrink(sc):
    for key in ("ref", "speed"):
        for i in range(len(sc[key])):
            if len(sc[key]) > 1:
                yield {**sc, key: sc[key][:i] + sc[key][i + 1:]}
    for i, p in sc["other"].items():
        for k in range(len(p)):
            yield {**sc, "other": {**sc["other"], i: p[:k] + p[k + 1:]}}
    if sc["before"]:
        yield {**sc, "before": 0}
    for k in list(sc["motor"]):
        if k != "l_m":
            yield {**sc, "motor": {a: b for a, b in sc["motor"].items() if a != k}}
    if sc["n"] > 30:
        yield {**sc, "n": sc["n"] // 2}
        yield {**sc, "n": sc["n"] - 5}


class Loop:
    def __init__(self, sc, decoupling=True):
        _, _, m = spec.split(sc)
        M = spec.MOTORS[m]
        self.sc, self.m, self.names = sc, m, M["cc"]
        cfg = {"id": sc["id"], "tau": sc["tau"], "wrappers": [{"$": "FluxObserver"}] if m == "SCIM" else []}
        if sc["motor"]:
            cfg["motor"] = {"motor_parameter": dict(sc["motor"])}
        self.load = parts.LiveSpeed(load_parameter=dict(a=0.0, b=0.0, c=0.0))
        self.load.lag = sc["lag"] * sc["tau"]
        self.prog = parts.Program(self.names, [0.] * len(self.names))
        self.supply = M["limits"].get("u", M["u"])
        supply = parts.LiveSupply(u_nominal=self.supply)
        self.env = build.make(cfg, load=self.load, supply=supply, reference_generator=self.prog)
        self.c = gc.GemController.make(build.make(cfg, supply=supply), sc["id"], block_diagram=False, decoupling=decoupling, a=sc["a"])
        names = list(self.env.unwrapped.state_names)
        self.idx = [names.index(n) for n in self.names]
        volt = [i for i, n in enumerate(names) if n in ("u_sd", "u_sq")]
        self.volt = volt
        self.uidx = [i for i, n in enumerate(names) if n.startswith("u") and n != "u_sup"]

    def go(self, ctx, moving, n):
        """The program, with the speed and the other references moving or at rest: currents, largest voltage."""
        sc = self.sc
        pre = PRE if self.m == "SCIM" else 0
        (s, r), _ = self.env.reset(seed=sc["seed"])
        self.c.reset()
        base = [sc["hold"] if n == "i_sd" else 0. for n in self.names]
        self.prog.values = list(base)
        self.load.target = 0.
        out, top = [], 0.
        r = self.prog.get_reference_observation()
        for k in range(-pre, n):
            for kk, v in sc["ref"]:
                if kk == k:
                    self.prog.values[sc["axis"]] = base[sc["axis"]] + v
            if moving:
                for i, p in sc["other"].items():
                    for kk, v in p:
                        if kk == k:
                            self.prog.values[int(i)] = base[int(i)] + v
                for kk, v in sc["speed"]:
                    if kk == k:
                        self.load.target = v
            r = self.prog.get_reference_observation()
            a = self.c.control(s, r)
            (s, _), _, term, _, _ = self.env.step(a)
            ctx.steps += 1
            ctx.sim_time += sc["tau"]
            ctx.log(np.array(s))
            if k >= 0:
                out.append([s[i] for i in self.idx])
                top = max(top, float(np.max(np.abs(a))), float(np.hypot(*s[self.volt])) if self.volt else 0.)
                if k % 40 == 0:
                    ctx.obs_state(sc["id"], s)
            if term:
                return np.array(out), 9.
        return np.array(out), top


def model(sc):
    """The designed response of the current under test: sampled PI controller (symmetrical optimum) and first order lag."""
    _, _, m = spec.split(sc)
    P = {**spec.MOTORS[m]["params"], **sc["motor"]}
    l, r = nominal_design(m, P)[sc["axis"]]
    tau, a = sc["tau"], sc["a"]
    e = math.exp(-r / l * tau)
    p = l / (tau * a)
    ki = p / (tau * a * a)
    y = z = ref = 0.
    out = []
    for k in range(sc["n"]):
        for kk, v in sc["ref"]:
            if kk == k:
                ref = v
        u = p * (ref - y) + ki * z
        z += tau * (ref - y)
        y = e * y + (1 - e) / r * u
        out.append(y)
    return np.array(out)


def instant(sc, ctx, lp):
    """Without a control error and without history the controller only compensates: each current decays on its own."""
    m = lp.m
    P = {**spec.MOTORS[m]["params"], **sc["motor"]}
    mot, u = machine.Motor(m, P), lp.env.unwrapped
    names, lim = list(u.state_names), np.asarray(u.limits, float)
    L = dict(zip(names, lim))
    U, tau = lp.supply, sc["tau"]
    lr = P.get("l_m", 0) + P.get("l_sigr", 0)
    g = random.Random(sc["seed"])
    for _ in range(12):
        size = g.choice([.05, .2, .5])
        x = {n: size * L[n] * g.uniform(0 if n in ("i", "i_a", "i_e") and m in ("SeriesDc", "ShuntDc") else -1, 1) for n in lp.names}
        if m == "ShuntDc":
            x["i_e"] = size * L["i_e"] * g.random()
        w = x["omega"] = g.choice([-1, 0, 1] if m in spec.AC else [0, 1]) * g.random() * size * L["omega"]
        th = g.uniform(-math.pi, math.pi)
        if m == "SCIM":
            x.update(psi_abs=P["l_m"] * L["i_sd"] * g.uniform(.02, .5), psi_angle=th)
        elif m in spec.AC:
            x["epsilon"] = th
        s = np.zeros(len(names))
        for n, v in x.items():
            s[names.index(n)] = v / L[n]
        lp.c.reset()
        a = np.asarray(lp.c.control(s, np.array([s[i] for i in lp.idx])), float)
        ctx.steps += 1
        if np.max(np.abs(a)) > .98:
            continue
        if m in spec.AC:
            z = machine.rot(machine.clarke(a[:3] * U / 2), -th - .5 * tau * P["p"] * w)
            if abs(z) > .98 * U / 2:
                continue
            volt = [z.real, z.imag] + [float(v) * U for v in a[3:]]
        else:
            volt = [float(v) * U for v in a]
        cur = [x[n] for n in lp.names]
        if m == "SCIM":
            i, psi = machine.rot(complex(*cur), th), machine.rot(complex(x["psi_abs"], 0), th)
            d = mot.rhs([i.real, i.imag, psi.real, psi.imag], [machine.rot(z, th), 0j], w)
            turn = (complex(d[2], d[3]) / psi).imag
            d = machine.rot(complex(d[0], d[1]) - 1j * turn * i, -th)
            d = [d.real, d.imag]
        elif m == "ShuntDc":
            d = mot.rhs([cur[0], x["i_e"]], volt, w)
        else:
            d = mot.rhs(cur, volt, w)
        for n, dx, v, (l, r) in zip(lp.names, d, cur, nominal_design(m, P)):
            ctx.check(abs(l * dx + r * v) <= 1e-7 * U, "compensation",
                      lambda: f"{sc['id']} {n}: the voltages {volt} that the fresh controller commands without control error in {x} leave "
                              f"{l * dx + r * v:.6g} V of {U} V to disturb the current")
        ctx.probe("instantaneous compensation")
        ctx.state(sc["id"], size, round(th), w > 0, w < 0)


def run(sc, ctx):
    warnings.simplefilter("ignore")
    _, _, m = spec.split(sc)
    j, n = sc["axis"], sc["n"]
    lp = Loop(sc)
    instant(sc, ctx, lp)
    rest, top = lp.go(ctx, False, n)
    name = lp.names[j]
    what = f"{sc['id']} {name}"
    amp = max([abs(v) for _, v in sc["ref"]] + [.1 * sc["amp"]])
    if top < .95:
        want = model(sc)
        got = rest[:, j] - (sc["hold"] if name == "i_sd" else 0.)
        dev = np.abs(got - want)
        k = int(np.argmax(dev))
        ctx.probe("designed response")
        ctx.dev1 = float(dev.max() / amp)
        ctx.check(dev.max() <= TOL_DESIGN * amp, "response",
                  lambda: f"{what} at standstill: {got[k]:.5g} of the limit at step {k}, designed {want[k]:.5g} "
                          f"(largest reference step {amp:.4g})")
    if sc["before"]:
        ctx.fault("earlier episode")
        lp.go(ctx, True, sc["before"])
    moved, top2 = lp.go(ctx, True, n)
    bare, _ = Loop(sc, False).go(ctx, True, n)
    ctx.fault("speed change", len(sc["speed"]))
    ctx.fault("other reference step", sum(map(len, sc["other"].values())))
    ctx.check(top2 < 9., "limit-violation", lambda: f"{what}: limit violation at step {len(moved)} of small signals")
    if top >= .95 or top2 >= .95:
        ctx.probe("clipped")
        return
    d = np.abs(moved[:, j] - rest[:, j])
    q = min(len(bare), len(rest))
    b = float(np.max(np.abs(bare[:q, j] - rest[:q, j]), initial=0.))
    if q < n:
        b = max(b, .5)
    scale = max([amp] + [abs(v) for p in sc["other"].values() for _, v in p])
    k = int(np.argmax(d))
    ctx.dev2 = (float(d.max() / scale), b / scale)
    ctx.nontrivial = b > .05 * scale
    if ctx.nontrivial:
        ctx.probe("disturbance visible without decoupling")
    rel = .45 if m == "SCIM" else TOL_REL      # (the rotor flux is observed)
    ctx.check(d.max() <= rel * b + TOL_ABS * scale, "not-decoupled",
              lambda: f"{what}: {moved[k, j]:.5g} of the limit at step {k} with speeds {sc['speed']} and the other references "
                      f"moving, {rest[k, j]:.5g} at standstill; largest deviation without decoupling {b:.4g}")


TOL_DESIGN, TOL_REL, TOL_ABS = .005, .3, .02
