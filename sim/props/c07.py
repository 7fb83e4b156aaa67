"""C07 The reference shown is the reference that is rewarded, and stays in bounds."""
import math

from gym_electric_motor.callbacks import RampingLimitMargin

from .. import build, spec
from ..drive import Drive, diff
from ..parts import Recorder

ID = "C07"
COUNT = {"quick": 2400, "thorough": 14000}
RULE = ("random trees of reference generators (all kinds, nested, switched with probabilities), margins, lengths, wrappers and "
        "filters on a running drive, episodes of random lengths; every reference shown and used is compared with the rules; "
        "length rules are decided with probe generators whose values name their sub-episode; non-trivial when at least two "
        "sub-episodes or two episodes were seen")


def cheap(rng, **p):
    cfg = spec.gen_cfg(rng, supply=0.2, conv=0.4, motor=0.3, load=0.5, solver=0, wrappers=p.pop("wrappers", 0.3), ref=0, reward=0.2,
                       constraints=0, filter=0.2, vis=0, load_kinds=("Const", "Poly"), init=0.2, **p)
    cfg["solver"] = {"$": "EulerSolver", "nsteps": 1}
    cfg["constraints"] = []
    return cfg


def gen(rng, tier):
    mode = rng.choice(["tree", "tree", "tree", "probe", "probe", "indep", "ramp", "shape", "shape"])
    cfg = cheap(rng)
    names = spec.all_state_names(cfg)
    pool = [s for s in names if s not in ("u_sup",) and not s.startswith(("cos", "sin", "psi"))]
    space = spec.action_space(cfg)

    def acts(n):
        return spec.action_program(rng, space, n, amp=rng.choice([0.1, 0.5]))
    sc = {"cfg": cfg, "mode": mode}
    if mode == "probe":
        def probe(i, s):
            lo = rng.choice([1, 1, 2, 3, 7])
            ln = {"$t": [lo, lo + rng.choice([0, 1, 4])]} if rng.random() < 0.8 else lo
            return {"$": "CountRef", "ident": i, "reference_state": s, "episode_lengths": ln, "limit_margin": 1.0}
        s = rng.choice(pool)
        if rng.random() < 0.4:
            cfg["ref"] = probe(0, s)
        else:
            n = rng.choice([1, 2, 3])
            lo = rng.choice([1, 2, 5, 12])
            ref = {"$": "SwitchedReferenceGenerator", "sub_generators": [probe(i, s) for i in range(n)],
                   "super_episode_length": {"$t": [lo, lo + rng.choice([1, 2, 6])]} if rng.random() < 0.7 else lo}
            if n > 1 and rng.random() < 0.6:
                p = [rng.choice([0.0, 0.3, 1.0]) for _ in range(n)]
                p[rng.randrange(n)] = 1.0
                ref["p"] = [x / sum(p) for x in p]
            cfg["ref"] = ref
        if rng.random() < 0.3:
            other = [x for x in pool if x != s]
            extra = spec.g_ref1(rng, rng.choice(other))
            subs = [cfg["ref"], extra]
            rng.shuffle(subs)
            cfg["ref"] = {"$": "MultipleReferenceGenerator", "sub_generators": subs}
    elif mode == "ramp":
        a = rng.choice([0.05, 0.1, 0.3])
        kinds = ["Wiener", "Laplace", "Sin", "Tri", "Step", "Saw"]
        s = rng.choice(pool)
        sub = [spec.g_ref1(rng, s, kinds) for _ in range(rng.choice([1, 2]))]
        if rng.random() < .5:
            # jumps beyond every margin in each step show the margins themselves
            sc["wide"] = True
            sub = [{"$": rng.choice(["Wiener", "Laplace"]) + "ProcessReferenceGenerator", "reference_state": s,
                    "sigma_range": {"$t": [1e6, 1e6]}, "episode_lengths": 1} for _ in sub]
        cfg["ref"] = sub[0] if len(sub) == 1 else {"$": "SwitchedReferenceGenerator", "sub_generators": sub,
                                                   "super_episode_length": {"$t": [3, 9]}}
        sc["ramp"] = {"initial_limit_margin": {"$t": [-a, a]}, "maximum_limit_margin": {"$t": [-rng.choice([0.5, 1]), rng.choice([0.4, 1])]},
                      "step_size": rng.choice([0.1, 0.25]), "update_time": rng.choice(["step", "episode"]),
                      "update_freq": rng.choice([1, 2, 5])}
    elif mode == "shape":
        # one known wave: amplitude, frequency and offset are given
        tau = cfg.get("tau", spec.TAU[spec.split(cfg)[0]])
        cfg.update(supply={"$": "IdealVoltageSupply", "u_nominal": spec.MOTORS[spec.split(cfg)[2]]["u"]})
        cfg.pop("conv", None)
        amp, off = rng.choice([0.05, 0.2, 0.4]), rng.choice([0.0, 0.1, -0.05])
        f = 1.0 / (rng.choice([8.0, 12.5, 20.0, 33.3]) * tau)
        cfg["ref"] = {"$": rng.choice(["Sinusoidal", "Triangular", "Step", "Sawtooth"]) + "ReferenceGenerator",
                      "reference_state": rng.choice([s for s in pool if s.startswith("i")]), "amplitude_range": {"$t": [amp, amp]},
                      "frequency_range": {"$t": [f, f]}, "offset_range": {"$t": [off, off]}, "episode_lengths": {"$t": [40, 60]},
                      "limit_margin": 1.0}
        if rng.random() < .6:
            # margins of different widths and offsets which do not fit between them
            off = rng.choice([off, -0.3, -0.9, 0.35, 0.9])
            cfg["ref"].update(offset_range={"$t": [off, off]}, limit_margin={"$t": rng.choice([[0.3, 0.9], [0.9, 0.45], [0.25, 0.25]])})
        sc["wave"] = [amp, f * tau, off]
    else:
        cfg["ref"] = spec.g_ref(rng, pool)
    if cfg.get("ref", {}).get("$") == "MultipleReferenceGenerator" and rng.random() < .4:
        cfg["ref"]["by_class"] = True
    ops = []
    for e in range(rng.randint(2, 4)):
        ops.append(["r", rng.randrange(1000) if e == 0 else None])
        ops += [["s", a] for a in acts(rng.choice([1, 2, 5, 20, 40]))]
    sc["ops"] = ops
    if mode == "indep":
        # the same seed, another length of the first episode
        n = next(i for i, o in enumerate(ops) if i and o[0] == "r")
        first = ops[1:n]
        k = rng.choice([0, 1, len(first) - 1, len(first) + 7])
        sc["other"] = [ops[0]] + [["s", a] for a in acts(max(k, 0))] + ops[n:]
    return sc


def margins(ref, ps, i):
    """Bounds of the reference of state i from the configuration."""
    lo, hi = float(ps.state_space.low[i]), float(ps.state_space.high[i])
    k = float(ps.nominal_state[i]) / float(ps.limits[i])
    mg = ref.get("limit_margin")
    if mg is None:
        return k * lo, k * hi
    if isinstance(mg, dict):
        a, b = mg["$t"]
        return a * lo, b * hi
    return mg * lo, mg * hi


def leaves(ref):
    """[(state, [leaf generators])] in announced order."""
    if ref["$"] == "MultipleReferenceGenerator":
        return sum([leaves(r) for r in ref["sub_generators"]], [])
    if ref["$"] == "ZeroReferenceGenerator":
        return []
    if ref["$"] == "SwitchedReferenceGenerator":
        return [(ref["sub_generators"][0]["reference_state"], ref["sub_generators"])]
    return [(ref["reference_state"], [ref])]


def jump(leafs):
    """Largest possible difference of consecutive references of random walks, None for other kinds."""
    out = 0.0
    for g in leafs:
        s = (g.get("sigma_range") or {"$t": [1e-3, 1e-1]})["$t"][1]
        if g["$"].startswith("Wiener"):
            out = max(out, 8 * s)
        elif g["$"].startswith("Laplace"):
            out = max(out, 40 * s)
        else:
            return None
    return out


WAVES = ("Sin", "Tri", "Saw", "Step")


def extent(g, lo, hi):
    """Smallest and largest value of a wave with the configured amplitudes and offsets that fits between lo and hi."""
    a = min(build.obj(g.get("amplitude_range") or {"$t": [0, math.inf]})[1], (hi - lo) / 2)
    b, c = [min(max(x, lo), hi) for x in build.obj(g.get("offset_range") or {"$t": [-math.inf, math.inf]})]
    return max(min(b, hi - a), lo + a) - a, min(max(c, lo + a), hi - a) + a


def waves(ctx, leafs, marg, ep):
    """Periodic references stay within their amplitudes and are not cut off at the margins."""
    if not all(g["$"].startswith(WAVES) for g in leafs):
        return
    ext = [extent(g, *m) for g, m in zip(leafs, marg)]
    lo, hi = min(x[0] for x in ext), max(x[1] for x in ext)
    for v in ep:
        ctx.check(lo - 1e-9 <= v <= hi + 1e-9, "amplitude", lambda: f"reference {v} of {leafs} outside of {lo}..{hi}")
    g, (lo, hi) = leafs[0], marg[0]
    fixed = [build.obj(g[k])[0] == build.obj(g[k])[1] for k in ("amplitude_range", "offset_range") if k in g]
    if len(leafs) == 1 and g["$"].startswith("Step") and len(fixed) == 2 and all(fixed):
        ctx.check(all(min(abs(v - x) for x in ext[0]) < 1e-9 for v in ep), "levels", lambda: f"{g}: {ep[:20]} instead of {ext}")
    if len(leafs) > 1 or g["$"].startswith("Step") or ext[0][1] - ext[0][0] < 1e-6 or hi - lo < 1e-6:
        return
    ctx.probe("waves judged", len(ep) > 3)
    for k in range(len(ep) - 2):
        ctx.check(not (ep[k] == ep[k + 1] == ep[k + 2] and min(abs(ep[k] - lo), abs(ep[k] - hi)) < 1e-12), "cut-off",
                  lambda: f"{g} is cut off at {ep[k]}: {ep[max(k - 5, 0):k + 8]}")


def run(sc, ctx):
    cfg = sc["cfg"]
    rec = Recorder()
    ramp = RampingLimitMargin(**build.obj(sc["ramp"])) if "ramp" in sc else None
    d = Drive(cfg, ctx, callbacks=[rec] + ([ramp] if ramp else []))
    ps = d.u.physical_system
    names = list(ps.state_names)
    lv = leaves(cfg["ref"])
    idx = [names.index(s) for s, _ in lv]
    ctx.check(list(d.u.reference_names) == [s for s, _ in lv], "reference-names", f"{d.u.reference_names} != {[s for s, _ in lv]}")
    sp = d.env.observation_space[1]
    ctx.check(sp.shape == (len(lv),), "reference-space", f"{sp}")
    bounds, margs = [], []
    for (s, leafs), i in zip(lv, idx):
        b = []
        margs.append(b)
        for g in leafs:
            if g["$"].startswith("Const"):
                v = g.get("reference_value", 0.5)
                b.append((v, v))
            else:
                b.append(margins(g, ps, i))
        bounds.append((min(x[0] for x in b), max(x[1] for x in b)))
    for j, (lo, hi) in enumerate(bounds):
        ctx.check(abs(sp.low[j] - lo) < 1e-9 and abs(sp.high[j] - hi) < 1e-9, "reference-space",
                  lambda: f"{lv[j][0]}: announced {sp.low[j]}..{sp.high[j]}, configured {lo}..{hi}")
    cur = None
    if ramp:
        r = build.obj(sc["ramp"])
        cur, top = list(r["initial_limit_margin"]), r["maximum_limit_margin"]
        count = 0

    def widen(ev):
        nonlocal count
        if not ramp or r["update_time"] != ev:
            return
        count += 1
        if count % r["update_freq"] == 0:
            cur[0], cur[1] = max(cur[0] - r["step_size"], top[0]), min(cur[1] + r["step_size"], top[1])

    shown = None
    episodes = []          # per episode and referenced state: shown values
    for op in sc["ops"]:
        if op[0] == "r":
            o = d.reset(op[1])
            ref = rec.events[-1][3]
            ctx.check(rec.events[-1][1] == "reset_end" and len(ref) == len(names), "reference-array", lambda: f"{rec.events[-1]}")
            prev = [ref[i] for i in idx]
            episodes.append([[] for _ in lv])
        else:
            if d.terminated:
                continue
            o = d.step(op[1])
            ref = rec.events[-1][4]
            ctx.check(rec.events[-1][1] == "step_end" and len(ref) == len(names), "reference-array", lambda: f"{rec.events[-1]}")
            used = [ref[i] for i in idx]
            ctx.check(used == shown, "shown-is-rewarded", lambda: f"shown {shown}, used {used} ({[s for s, _ in lv]})")
            prev = used
        ctx.check(all(v == 0.0 for i, v in enumerate(ref) if i not in idx), "unreferenced", lambda: f"{ref} referenced {idx}")
        shown = [float(v) for v in o[2]]
        del rec.events[:]
        for j, v in enumerate(shown):
            lo, hi = bounds[j]
            if ramp:
                lo, hi = max(cur[0], -1e9), cur[1]
            ctx.check(lo - 1e-12 <= v <= hi + 1e-12, "margin", lambda: f"reference {lv[j][0]} = {v} outside of {lo}..{hi}")
            if sc.get("wide"):
                ctx.check(min(abs(v - lo), abs(v - hi)) < 1e-9, "margin-not-opened", lambda: f"reference {lv[j][0]} = {v}, margin {lo}..{hi}")
            if not ramp:
                ctx.check(sp.low[j] - 1e-12 <= v <= sp.high[j] + 1e-12, "space", lambda: f"reference {v} outside of {sp}")
            mx = jump(lv[j][1]) if not ramp else None
            # (switched generators and sub-episodes go on from the last reference)
            if mx is not None and lo - 1e-12 <= prev[j] <= hi + 1e-12:
                ctx.check(abs(v - prev[j]) <= mx, "jump", lambda: f"random walk {lv[j]} jumps from {prev[j]} to {v}")
            episodes[-1][j].append(v)
        if ramp:
            # the callback acts after this observation was made
            count_event = "episode" if op[0] == "r" else "step"
            widen(count_event)
    ctx.nontrivial = len(episodes) > 1
    for j, (s, leafs) in enumerate(lv):
        for ep in episodes:
            if not ramp:
                waves(ctx, leafs, margs[j], ep[j])
            ctx.state(cfg["id"], s, leafs[0]["$"], len(ep[j]), len(set(ep[j])))
    if sc["mode"] == "probe":
        probe(sc, ctx, d, lv, episodes)
    if sc["mode"] == "shape":
        a, b = extent(cfg["ref"], *margs[0][0])
        for ep in episodes:
            x = wave(cfg["ref"]["$"], ep[0][:40], (b - a) / 2, sc["wave"][1], (a + b) / 2)
            ctx.probe("wave")
            ctx.check(x is None, "wave", lambda: f"{x}: {ep[0][:40]}")
    if sc["mode"] == "indep":
        t = Drive(cfg)
        t.run(sc["other"])

        def tail(trace):
            n = [i for i, x in enumerate(trace) if x[0] == "reset"]
            return [("ref", x[2]) for x in trace[n[1]:]]
        if not any(x[0] == "step" and x[4] for x in t.trace + d.trace):
            x = diff(tail(d.trace), tail(t.trace), 0.0, "references of the second episode:")
            ctx.fault("episode-of-other-length")
            ctx.check(x is None, "length-dependent", x or "")


def wave(kind, v, amp, ft, off):
    """Whether v is the beginning of the announced wave (ft: periods per step); text if not."""
    e = 1e-9
    if any(abs(x - off) > amp + e for x in v):
        return f"leaves {off} +- {amp}"
    for n in (1, 2):
        q = round(n / ft)
        if abs(n / ft - q) < 1e-6 and not kind.startswith("Step"):
            if any(abs(x - y) > 1e-6 and abs(abs(x - y) - 2 * amp) > 1e-6 for x, y in zip(v, v[q:])):
                return f"does not repeat after {q} steps"
    if kind.startswith("Sin"):
        c = 2 * math.cos(2 * math.pi * ft)
        for a, b, x in zip(v, v[1:], v[2:]):
            if abs((a - off) + (x - off) - c * (b - off)) > 1e-7:
                return f"no sine of {ft} periods per step"
        if len(v) * ft > 1.2 and max(v) - min(v) < 2 * amp * math.cos(math.pi * ft) - e:
            return "amplitude too small"
    elif kind.startswith("Step"):
        if any(abs(abs(x - off) - amp) > e for x in v):
            return f"levels other than {off} +- {amp}"
        edges = sum(1 for a, b in zip(v, v[1:]) if a != b)
        if edges > 2 * (len(v) * ft + 2) + 1:
            return f"{edges} edges in {len(v) * ft} periods"
    else:
        d = [b - a for a, b in zip(v, v[1:])]
        if kind.startswith("Saw"):
            bad = [x for x in d if abs(x - 2 * amp * ft) > 1e-7]
            if len(bad) > len(v) * ft + 1 or any(x > 0 for x in bad):
                return f"slopes {bad[:5]} instead of {2 * amp * ft}"
    return None


def probe(sc, ctx, d, lv, episodes):
    gens = d.u.reference_generator

    def walk(g):
        return sum([walk(x) for x in g._sub_generators], []) if hasattr(g, "_sub_generators") else [g]
    probes = {}
    for g in walk(gens):
        for v, c in getattr(g, "codes", {}).items():
            probes[v] = c
    for j, (s, leafs) in enumerate(lv):
        if leafs[0]["$"] != "CountRef":
            continue
        spec_ref = find(sc["cfg"]["ref"], s)
        sw = spec_ref["$"] == "SwitchedReferenceGenerator"
        for ep in episodes:
            codes = []
            for v in ep[j]:
                ctx.check(v in probes, "value", f"reference {v} was never generated")
                codes.append(probes[v])
            runs = []                      # [code, length]
            for c in codes:
                if runs and runs[-1][0] == c:
                    runs[-1][1] += 1
                else:
                    runs.append([c, 1])
            # a sub-episode ends because it is over, because the generator is switched, or with the episode
            for a, b in zip(runs, runs[1:]):
                ln = leafs[a[0][0]]["episode_lengths"]
                lo, hi = ln["$t"] if isinstance(ln, dict) else (ln, ln)
                same_gen = a[0][:2] == b[0][:2]
                ok = a[1] <= hi and (a[1] >= lo or not same_gen)
                ctx.check(ok, "sub-episode-length", lambda: f"sub-episode {a} of {leafs[a[0][0]]}, next {b}")
                ctx.probe("sub-episode")
            sup = []
            for c in codes:
                if sup and sup[-1][0] == c[:2]:
                    sup[-1][1] += 1
                else:
                    sup.append([c[:2], 1])
            if not sw:
                ctx.check(len(sup) <= 1, "restart", lambda: f"generator restarted within an episode: {sup}")
                continue
            n = spec_ref["super_episode_length"]
            lo, hi = n["$t"] if isinstance(n, dict) else (n, n + 1)
            for q, (c, ln) in enumerate(sup):
                ctx.check(spec_ref.get("p", [1] * 9)[c[0]] > 0, "probability", lambda: f"generator {c[0]} has probability 0")
                if q + 1 < len(sup):
                    # (the reference shown at the reset comes in addition)
                    ctx.check(lo <= ln <= hi - 1 + (q == 0), "super-episode-length", lambda: f"super-episode {q} lasted {ln}, "
                              f"configured {n}: {sup}")
                    ctx.probe("super-episode")


def find(ref, state):
    if ref["$"] == "MultipleReferenceGenerator":
        for r in ref["sub_generators"]:
            x = find(r, state)
            if x:
                return x
        return None
    st = ref["sub_generators"][0]["reference_state"] if ref["$"] == "SwitchedReferenceGenerator" else ref.get("reference_state")
    return ref if st == state else None
