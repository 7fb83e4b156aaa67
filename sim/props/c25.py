"""C25 Episodes start where the initialisers say, whatever happened before."""
import math

import numpy as np
from scipy.stats import truncnorm

from .. import build, spec
from ..core import interrupt_at
from ..drive import Drive

ID = "C25"
COUNT = {"quick": 420, "thorough": 6000}
RULE = ("drives whose motor, load and reference start constant, uniformly or normally distributed in configured or nominal ranges, with "
        "30 to 90 episodes of random lengths, cut short, ended by limits or broken off in the middle of a reset or step; every start is judged "
        "against its range, the starts together against the configured distribution and for independence (with error probabilities below "
        "1e-10); constant starts outside of the range have to be refused; non-trivial when at least 20 episodes were started")
STATES = "motor x initialiser kinds x start in fifths of its range"
REAL = "whole environment; the seams are the operating system's entropy and interruptions at executed lines"


def bounds(cfg, low):
    """Nominal range of every initial state, from the configuration (low: announced normalised minimum by name)."""
    m = spec.split(cfg)[2]
    nom = {**spec.MOTORS[m]["nominal"], **cfg.get("motor", {}).get("nominal_values", {})}
    out = {}
    for s in spec.MOTOR_STATES[m]:
        if s.startswith("psi"):
            p = {**spec.MOTORS[m]["params"], **cfg.get("motor", {}).get("motor_parameter", {})}
            x = p["l_m"] * nom["i"]
            out[s] = (-x, x)
        else:
            x = math.pi if s == "epsilon" else nom.get(s, nom.get("i"))
            out[s] = (x * (low.get(s, -1.0)), x)
    return out, (nom["omega"] * low["omega"], nom["omega"])


def g_one(rng, names, rng_of, flux=()):
    """An initialiser for the states names with ranges rng_of(name)."""
    kind = rng.choice(["const", "uniform", "uniform", "gaussian", "gaussian", "normal", "bad"])
    names = list(names)
    sub = {}
    given = rng.random() < 0.5
    if given and rng.random() < 0.5:
        rng.shuffle(names)
    box = {}
    for s in names:
        lo, hi = rng_of(s)
        a, b = sorted([rng.random(), rng.random()])
        if b - a < 0.1:
            a, b = 0.1, 0.9
        c = rng.random()
        if c < 0.2:
            a = -0.3          # reaches beyond the nominal range
        elif c < 0.4:
            b = 1.4
        box[s] = [lo + a * (hi - lo), lo + b * (hi - lo)]
        if s in flux:
            box[s] = [3 * lo, 3 * hi]
    inter = rng.random() < 0.6
    out = {}
    if inter:
        out["interval"] = [box[s] for s in names]
    rg = {s: (max(rng_of(s)[0], box[s][0]), min(rng_of(s)[1], box[s][1])) if inter else rng_of(s) for s in names}
    if kind in ("const", "bad"):
        sub = {s: 0.0 if s in flux else rg[s][0] + rng.choice([0.001, rng.random(), 0.5, 0.999]) * (rg[s][1] - rg[s][0]) for s in names}
        if kind == "bad":
            s = rng.choice([x for x in names if x not in flux])
            w = rg[s][1] - rg[s][0]
            sub[s] = rg[s][1] + 0.2 * w if rng.random() < 0.5 else rg[s][0] - 0.2 * w
        out["states"] = sub
        return kind, out
    if given:
        out["states"] = {s: 0.0 for s in names}
    elif inter:
        out["interval"] = [box[s] for s in list(rng_of.order)]
    out["random_init"] = kind
    if kind != "uniform" and rng.random() < 0.8:
        lo, hi = max(rg[s][0] for s in names if s not in flux), min(rg[s][1] for s in names if s not in flux)
        mue = sg = None
        if hi > lo:
            w = hi - lo
            if rng.random() < 0.7:
                mue = lo + rng.choice([0.02, 0.3, 0.5, 0.8, rng.random()]) * w
                if lo < 0 < hi and rng.random() < 0.3 or lo == 0 and rng.random() < 0.2:
                    mue = 0.0
            if rng.random() < 0.7:
                sg = rng.choice([0.02, 0.1, 0.5, 2.0]) * w
        out["random_params"] = {"$t": [mue, sg]}
    return kind, out


class Ranges(dict):
    order = ()

    def __call__(self, s):
        return self[s]


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, load=0, supply=0.2, wrappers=0.15, noise=False, ref=0, reward=0, constraints=0, filter=0, vis=0, conv=0.5,
                       interlock=0.2, solver=0.4, motor=0.6, init=0)
    cfg["constraints"] = []
    m = spec.split(cfg)[2]
    types = spec.conv_types(cfg)
    # which states can be negative is read from the announced space at run time; here only a guess to place the intervals
    quad = all(t in ("4QC", "B6") for t in types)
    low = {s: -1.0 if quad or m in spec.AC else 0.0 for s in spec.MOTOR_STATES[m] + ["omega"]}
    mb, ob = bounds(cfg, low)
    sc = {"cfg": cfg, "kinds": {}}
    if rng.random() < 0.85:
        r = Ranges(mb)
        r.order = tuple(spec.MOTOR_STATES[m])
        flux = [s for s in r.order if s.startswith("psi")]
        k, ini = g_one(rng, r.order, r, flux)
        cfg.setdefault("motor", {})["motor_initializer"] = ini
        sc["kinds"]["motor"] = k
    if rng.random() < 0.6:
        r = Ranges({"omega": ob})
        r.order = ("omega",)
        k, ini = g_one(rng, r.order, r)
        if k == "bad" and "motor" in sc["kinds"]:
            k, ini = "uniform", {"random_init": "uniform"}
        kind = rng.choice(["PolynomialStaticLoad", "PolynomialStaticLoad", "ConstantSpeedLoad"])
        cfg["load"] = {"$": kind, "load_initializer": ini}
        sc["kinds"]["load"] = k
    if rng.random() < 0.5:
        s = rng.choice(spec.MOTORS[m]["cc"] + ["omega", "torque"])
        a = rng.uniform(0, 0.5)
        b = rng.uniform(a + 0.05, 0.9)
        cfg["ref"] = {"$": "WienerProcessReferenceGenerator", "reference_state": s, "sigma_range": {"$t": [1e-7, 1e-6]},
                      "initial_range": {"$t": [a, b]}, "limit_margin": {"$t": [0.0, 1.0]},
                      "episode_lengths": {"$t": [20, 40]}}
        sc["kinds"]["ref"] = "uniform"
    space = spec.action_space(cfg)
    sc["seed"] = rng.choice([None, 0, 7, rng.randrange(2**32)])
    eps = []
    for _ in range(rng.randint(30, 60) if tier == "quick" else rng.randint(40, 90)):
        n = rng.choice([0, 0, 1, 1, 2, 4]) if rng.random() < 0.97 else rng.randint(10, 60)
        e = {"acts": spec.action_program(rng, space, n)}
        if rng.random() < 0.04:
            e["int"] = [rng.choice(["reset", "step"]), rng.randint(1, 150)]
        eps.append(e)
    sc["eps"] = eps
    return sc


def shrink(sc):
    from ..run import generic_shrink
    for n in (20, 30, 40):
        if len(sc["eps"]) > n:
            yield {**sc, "eps": sc["eps"][:n]}
    if any(e["acts"] or e.get("int") for e in sc["eps"]):
        yield {**sc, "eps": [{"acts": []} for _ in sc["eps"]]}
    for x in generic_shrink(sc):
        if "motor_initializer" in x.get("cfg", {}).get("motor", {}) or "motor" not in x.get("kinds", {}):
            if "load" in x.get("cfg", {}) or "load" not in x.get("kinds", {}):
                if "ref" in x.get("cfg", {}) or "ref" not in x.get("kinds", {}):
                    yield x


def starts(d, m, s):
    """The initial values a user sees, in physical units."""
    names, lim = list(d.u.state_names), np.asarray(d.u.limits, float)
    v = dict(zip(names, np.asarray(s, float) * lim))
    out = {"omega": v["omega"]}
    if m not in spec.IM:
        for x in spec.MOTOR_STATES[m]:
            if x in v:
                out[x] = v[x]
        return out
    a = v["i_sa"] * 2 / 3 - (v["i_sb"] + v["i_sc"]) / 3
    b = (v["i_sb"] - v["i_sc"]) / math.sqrt(3)
    out["i_salpha"], out["i_sbeta"] = a, b
    if "epsilon" in v:
        out["epsilon"] = v["epsilon"]
    n = math.hypot(a, b)
    if n > 1e-3 * lim[names.index("i_sa")] and abs(v["i_sq"]) > 0.05 * n:
        p = d.u.physical_system.unwrapped.electrical_motor.motor_parameter
        psi = v["torque"] / (1.5 * p["p"] * p["l_m"] / (p["l_m"] + p["l_sigr"]) * v["i_sq"])
        ang = math.atan2(b, a) - math.atan2(v["i_sq"], v["i_sd"])
        out["psi_ralpha"], out["psi_rbeta"] = psi * math.cos(ang), psi * math.sin(ang)
    return out


def law(ini, names, nominal):
    """name -> (lo, hi, cdf or None, constant or None)"""
    order = list(ini.get("states", {})) or list(names)
    order += [s for s in names if s not in order]
    iv = dict(zip(order, ini["interval"])) if ini.get("interval") else {}
    out = {}
    for s in order:
        lo, hi = nominal[s]
        if s in iv:
            lo, hi = max(lo, iv[s][0]), min(hi, iv[s][1])
        k = ini.get("random_init")
        if k is None:
            out[s] = (lo, hi, None, ini["states"][s])
        elif k == "uniform":
            out[s] = (lo, hi, lambda v, lo=lo, hi=hi: (v - lo) / (hi - lo), None)
        else:
            mue, sg = (ini.get("random_params") or {"$t": [None, None]})["$t"]
            mue = (lo + hi) / 2 if mue is None else mue
            sg = sg or 1
            out[s] = (lo, hi, lambda v, a=(lo - mue) / sg, b=(hi - mue) / sg, c=mue, d=sg: truncnorm.cdf(v, a, b, loc=c, scale=d), None)
    return out


def run(sc, ctx):
    cfg, kinds = sc["cfg"], sc["kinds"]
    m = spec.split(cfg)[2]
    d = Drive(cfg, ctx)
    ps = d.u.physical_system.unwrapped
    low = {s: float(ps.state_space.low[ps.state_positions[s]]) for s in ps.state_names}
    for s in ("i_salpha", "i_sbeta"):
        low[s] = -1.0
    mb, ob = bounds(cfg, low)
    laws = {}
    if "motor" in kinds:
        laws.update(law(cfg["motor"]["motor_initializer"], spec.MOTOR_STATES[m], mb))
    if "load" in kinds:
        laws.update(law(cfg["load"]["load_initializer"], ["omega"], {"omega": ob}))
    if any(hi <= lo for lo, hi, _, _ in laws.values()):
        return       # an interval beside the nominal range
    bad = [s for s, (lo, hi, _, c) in laws.items() if c is not None and not lo <= c <= hi]
    edge = [s for s, (lo, hi, _, c) in laws.items() if c is not None and min(abs(c - lo), abs(c - hi)) < 1e-9 * (hi - lo)]
    if edge:
        return
    seen = {}
    first = True
    for e in sc["eps"]:
        if e.get("int") and not first:
            fn = (lambda: d.env.reset()) if e["int"][0] == "reset" or d.terminated else (lambda: d.env.step(build.to_action(d.space, e["acts"][0] if e["acts"] else spec.rand_action(__import__("random").Random(1), spec.action_space(cfg)))))
            try:
                fired, where = interrupt_at(e["int"][1], fn)
            except Exception:
                if not bad:
                    raise
                fired = False
            if fired:
                ctx.fault(f"interrupted {e['int'][0]}")
        try:
            rec = d.reset(sc["seed"] if first else None)
        except Exception as x:
            ctx.check(bad and type(x) is Exception, "start-refused", lambda: f"{m} {kinds}: {x!r} for {cfg.get('motor')} {cfg.get('load')}")
            ctx.fault("refused start")
            ctx.nontrivial = True
            return
        first = False
        ctx.check(not bad, "start-accepted", lambda: f"{bad} start outside of their range: {[(s, laws[s][:2], laws[s][3]) for s in bad]}")
        v = starts(d, m, rec[1])
        for s, (lo, hi, cdf, c) in laws.items():
            if s not in v:
                continue
            x, w = v[s], hi - lo
            tol = 1e-9 * w + 1e-9 * max(abs(lo), abs(hi))
            flux = s.startswith("psi")
            if c is not None:
                if s == "epsilon":
                    x = c + math.remainder(x - c, 2 * math.pi)
                ctx.check(abs(x - c) <= (1e-6 * w if flux else tol), "start", lambda: f"{s} starts with {x} instead of {c}")
                continue
            ctx.check(lo - (1e-6 * w if flux else tol) <= x <= hi + (1e-6 * w if flux else tol), "start-range",
                      lambda: f"{s} starts with {x}, outside of {lo}..{hi}")
            if not flux:
                seen.setdefault(s, []).append(float(cdf(x)))
        if "ref" in kinds:
            lo, hi = cfg["ref"]["initial_range"]["$t"]
            x = float(rec[2][0])
            ctx.check(lo - 2e-5 <= x <= hi + 2e-5, "start-reference", lambda: f"reference starts with {x}, outside of {lo}..{hi}")
            seen.setdefault("reference", []).append((x - lo) / (hi - lo))
        for a in e["acts"]:
            if d.terminated:
                break
            d.step(a)
    ctx.state(m, sorted(kinds.items()), [(s, round(5 * u[-1])) for s, u in sorted(seen.items())])
    n = len(sc["eps"])
    for s, u in seen.items():
        judge(ctx, s, np.asarray(u), f"{m} {kinds}")
    names = sorted(seen)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            x, y = np.asarray(seen[a]), np.asarray(seen[b])
            if len(x) == len(y) >= 20 and x.std() > 0 and y.std() > 0:
                r = float(np.corrcoef(x, y)[0, 1])
                # Fisher's transformation: standard normal for independent starts
                z = math.atanh(min(abs(r), 1 - 1e-12)) * math.sqrt(len(x) - 3)
                ctx.check(z < 8.5, "start-dependent", lambda: f"{m} {kinds}: {a} and {b} of {len(x)} episodes are correlated: {r}")
                ctx.probe("pairs of starts judged")
    ctx.nontrivial = n >= 20


def judge(ctx, s, u, what):
    """u are uniformly distributed in [0, 1], with an error probability below 1e-10."""
    n = len(u)
    if n < 20:
        return
    ctx.probe("distributions judged")
    ctx.check(len(set(u.tolist())) > n // 2, "start-repeated", lambda: f"{what}: only {len(set(u.tolist()))} different values of {s} in {n} episodes")
    z = (u.mean() - 0.5) * math.sqrt(12 * n)
    # (mean of n uniform numbers: Hoeffding's bound 2 exp(-2 n t^2) < 1e-10)
    ctx.check(abs(u.mean() - 0.5) < math.sqrt(math.log(2e10) / (2 * n)), "start-mean", lambda: f"{what}: mean of {s} is {z} standard deviations off in {n} episodes")
    v = np.sort(u)
    k = np.arange(n)
    dev = max(float(np.max((k + 1) / n - v)), float(np.max(v - k / n)))
    # (Dvoretzky, Kiefer, Wolfowitz)
    ctx.check(dev < math.sqrt(math.log(2e10) / (2 * n)), "start-distribution",
              lambda: f"{what}: distribution of {s} in {n} episodes is {dev} off: {[round(x, 3) for x in v.tolist()]}")
    d = (u - 0.5) ** 2            # mean 1/12, at most 1/4
    lim = 0.25 * math.sqrt(math.log(2e10) / (2 * n))
    ctx.check(abs(d.mean() - 1 / 12) < lim, "start-spread", lambda: f"{what}: variance of {s} in {n} episodes is {d.mean()} instead of {1 / 12}")
