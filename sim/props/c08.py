"""C08 Switching commands act at the commanded time with correct blanking."""
import math

from .. import build, model, spec
from ..core import Violation
from . import c11

ID = "C08"
COUNT = {"quick": 1600, "thorough": 20000}
RULE = ("(a) converter objects of every topology driven with random switching histories, period lengths, interlocking times, "
        "start times, current signs (and zero) changing between the slices, resets and refused actions, compared slice by slice "
        "with half-bridge automata; (b) pulse patterns of the switched converters averaged over a period against the averaged "
        "converters; (c) whole drives with interlocking against the reference model; non-trivial when a blanking or a sign change "
        "occurred or a drive was compared")
TOPO = [["1QC"], ["2QC"], ["2QC"], ["4QC"], ["4QC"], ["B6"], ["B6"], ["2QC", "4QC"], ["4QC", "4QC"], ["B6", "4QC"], ["B6", "B6"],
        ["1QC", "2QC"], ["1QC", "B6", "2QC"]]
KEY = "cont-4qc-interlocking"


def gen(rng, tier):
    mode = rng.choice(["obj", "obj", "obj", "pwm", "env"])
    if mode == "env":
        cfg = spec.gen_cfg(rng, supply=0.4, supply_kinds=("Ideal",), load_kinds=("Poly", "Poly", "Const"), load=0.8, motor=0.6, init=0.5,
                           wrappers=0, ref=0.05, reward=0, constraints=0, filter=0, vis=0, solver=0.7, solvers=c11.SAFE, conv=1,
                           interlock=0.85)
        cfg["constraints"], cfg["wrappers"] = [], []
        m = spec.split(cfg)[2]
        ini = cfg.get("motor", {}).get("motor_initializer")
        if m in spec.IM and ini and "states" not in ini:
            cfg["motor"]["motor_initializer"] = spec.g_init(rng, m, ("const",))
        return {"mode": mode, "cfg": cfg, "ops": c11.gen_ops(rng, cfg, episodes=(1, 3), steps=(6, 30))}
    tau = rng.choice([1e-5, 5e-5, 1e-4, 7.3e-5, 1e-3, 1.0])
    types = rng.choice(TOPO)
    til = rng.choice([0.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9]) * tau
    n_i = sum(3 if t == "B6" else 1 for t in types)
    if mode == "pwm":
        n = rng.choice([10, 20, 40])
        return {"mode": mode, "types": types, "tau": tau, "n": n, "til": rng.choice([0.0, 0.2, 0.5, 0.8]) * tau / n,
                "acts": [round(rng.uniform(-0.7, 0.7), 1) for _ in range(n_i)],
                "signs": [rng.choice([-1.0, 1.0]) for _ in range(n_i)]}
    finite = rng.random() < 0.6
    sc = {"mode": mode, "finite": finite, "types": types, "tau": tau, "til": til, "t0": rng.choice([0, 0, 1, 17, 1000, 33333])}
    cfg = {"id": f"{'Finite' if finite else 'Cont'}-CC-PMSM-v0", "conv": {"types": types}}
    space = spec.action_space(cfg)
    ops = []

    def cur():
        return [rng.choice([-1.0, 1.0]) * rng.choice([1e-9, 0.5, 3.0]) if rng.random() < 0.93 else 0.0 for _ in range(n_i)]
    sticky = cur()
    for a in spec.action_program(rng, space, rng.randint(5, 60)):
        r = rng.random()
        if r < 0.04:
            ops.append(["r"])
        elif r < 0.07 and finite:
            ops.append(["bad", rng.choice([-1, 99, 8, "x"])])
        elif r < 0.10 and not finite:
            a = [x * rng.choice([1.0, 1.5, -9.0]) for x in a]
        if rng.random() < 0.3:
            sticky = cur()
        # a current for each slice of the period
        ops.append(["s", a, [sticky if rng.random() < 0.7 else cur() for _ in range(len(types) * 2 + 2)]])
    sc["ops"] = ops
    return sc


def make(finite, types, tau, til):
    cfg = {"id": ("Finite" if finite else "Cont") + "-CC-PMSM-v0", "conv": {"types": types, "til": til}}
    c = build.converter(cfg)
    c.tau = tau
    return c


def conv_space(c):
    s = c.action_space
    return s


def run(sc, ctx):
    if sc["mode"] == "env":
        cfg = sc["cfg"]
        defect = cfg["id"].startswith("Cont") and "4QC" in spec.conv_types(cfg) and cfg.get("conv", {}).get("til", 0) > 0
        if defect:
            try:
                c11.run(sc, ctx)
                return
            except Violation as v:
                msg = str(v)
            c11.run(sc, ctx, defect=True)
            ctx.recognise(KEY, msg)
            return
        c11.run(sc, ctx)
        return
    {"obj": run_obj, "pwm": run_pwm}[sc["mode"]](sc, ctx)


def run_obj(sc, ctx):
    tau, til, types, finite = sc["tau"], sc["til"], sc["types"], sc["finite"]
    c = make(finite, types, tau, til)
    mo = model.Conv(finite, types, til, tau)
    bad = model.Conv(finite, types, til, tau, defect=True) if not finite and "4QC" in types and til else None
    k = sc["t0"]
    r0 = c.reset()
    ctx.check(same_list(r0, mo.reset_levels()), "reset-voltage", f"{r0}")
    was = None
    for op in sc["ops"]:
        t = k * tau
        if op[0] == "r":
            r0 = c.reset()
            mo.reset()
            bad and bad.reset()
            ctx.check(same_list(r0, mo.reset_levels()), "reset-voltage", f"{r0}")
            ctx.resets += 1
            was = None
            continue
        if op[0] == "bad":
            try:
                c.set_action(op[1] if len(types) == 1 else [op[1]] * len(types), t)
            except Exception:
                ctx.fault("refused-action")
                continue
            raise Violation("not-refused", f"action {op[1]} accepted")
        a, curs = op[1], op[2]
        act = build.to_action(c.action_space, a)
        times = list(c.set_action(act, t))
        ends = mo.begin(a)
        bad and bad.begin(a)
        ctx.check(len(times) == len(ends) and all(abs(x - (t + e)) <= 1e-9 * tau + 1e-12 * abs(t) for x, e in zip(times, ends)),
                  "switching-times", lambda: f"slices end at {[x - t for x in times]}, should be {ends}; action {a} after {was}")
        rel = 0.0
        for j, e in enumerate(ends):
            i = curs[min(j, len(curs) - 1)]
            u = c.convert(list(i), times[j])
            want = mo.levels(i, rel)
            ctx.log(u)
            ctx.state(types, finite, til > 0, [x > 0 for x in i], len(ends), j, [round(x, 1) for x in want])
            if not same_list(u, want):
                w2 = bad.levels(i, rel) if bad else None
                if bad and same_list(u, w2):
                    ctx.recognise(KEY, f"action {a}, currents {i}: {u} instead of {want}")
                else:
                    raise Violation("level", f"slice {j} ({rel}..{e}) of action {a} after {was}, currents {i}: voltages {u}, "
                                    f"half bridges give {want}")
            elif bad:
                bad.levels(i, rel)
            for x, lo, hi in zip(u, c.voltages.low, c.voltages.high):
                ctx.check(lo <= x <= hi, "range", f"{u} outside of {c.voltages}")
            # power balance of lossless switches
            if finite or til == 0:
                si = c.i_sup(list(i))
                p = power(types, u, i)
                one = "1QC" in types   # (its diode conducts only currents that cannot flow)
                ctx.check(one or abs(float(si) - p) <= 1e-9 * (1 + abs(p)), "power", lambda: f"drawn {si}, delivered {p}: {u} {i} {a}")
            rel = e
        ctx.check(abs(times[-1] - t - tau) <= 1e-9 * tau + 1e-12 * abs(t), "period", f"{times[-1] - t} != {tau}")
        if len(ends) > 1:
            ctx.fault("blanking")
        was = a
        k += 1
        ctx.steps += 1
        ctx.sim_time += tau
        ctx.nontrivial = True


def power(types, u, i):
    """Power delivered by the converter per supply voltage; B6 levels are against the mid point."""
    p, n = 0.0, 0
    for t in types:
        w = 3 if t == "B6" else 1
        for x, y in zip(u[n:n + w], i[n:n + w]):
            p += (x + (0.5 if t == "B6" else 0.0)) * y
        n += w
    return p


def run_pwm(sc, ctx):
    """Mean over one period of the switched converter under a pulse pattern = the averaged converter."""
    tau, n, til, types, acts, signs = sc["tau"], sc["n"], sc["til"], sc["types"], sc["acts"], sc["signs"]
    tf = tau / n
    if any(t == "1QC" for t in types):
        til = 0.0
    fin, con = make(True, types, tf, til), make(False, types, tau, til)
    fin.reset(), con.reset()
    q, a = 0, []
    legs = []   # per converter: list of numbers of fine steps with the upper switch on
    for t in types:
        if t in ("1QC", "2QC"):
            d = round((acts[q] + 1) / 2 * n)
            d = min(max(d, 2), n - 2)
            legs.append([d])
            a.append(d / n)
            if t == "1QC" and signs[q] < 0:
                signs = signs[:q] + [1.0] + signs[q + 1:]
            q += 1
        elif t == "4QC":
            d = min(max(round((acts[q] + 1) / 2 * n), 2), n - 2)
            legs.append([d, n - d])
            a.append(2 * d / n - 1)
            q += 1
        else:
            ds = [min(max(round((x + 1) / 2 * n), 2), n - 2) for x in acts[q:q + 3]]
            legs.append(ds)
            a += [2 * d / n - 1 for d in ds]
            q += 3
    con.set_action(build.to_action(con.action_space, [float(x) for x in a]), 0.0)
    avg = con.convert(list(signs), tau)
    mean = [0.0] * len(signs)
    for k in range(3 * n):
        ph = k % n
        act = []
        for t, ds in zip(types, legs):
            s = [ph < d for d in ds]
            if t == "1QC":
                act.append(int(s[0]))
            elif t == "2QC":
                act.append(1 if s[0] else 2)
            elif t == "4QC":
                act.append({(True, True): 0, (True, False): 1, (False, True): 2, (False, False): 3}[(s[0], s[1])])
            else:
                act.append(sum((1 << (2 - j)) for j in range(3) if s[j]))
        t0 = k * tf
        last = t0
        times = fin.set_action(build.to_action(fin.action_space, act if len(act) > 1 else act[0]), t0)
        for e in times:
            u = fin.convert(list(signs), e)
            if k >= 2 * n:
                mean = [x + y * (e - last) / tau for x, y in zip(mean, u)]
            last = e
        ctx.steps += 1
    ctx.nontrivial = True
    ctx.probe("pulse-pattern")
    ctx.log(mean, avg)
    ctx.state(types, legs, signs, til > 0)
    if til and not same_list(mean, avg, 1e-6) and "4QC" in types:
        mo = model.Conv(False, types, til, tau, defect=True)
        mo.begin([float(x) for x in a])
        if same_list(avg, mo.levels(signs, 0.0), 1e-9):
            ok = True
            j = 0
            for t in types:
                w = 3 if t == "B6" else 1
                ok = ok and (t == "4QC" or same_list(mean[j:j + w], avg[j:j + w], 1e-6))
                j += w
            if ok:
                ctx.recognise(KEY, f"mean of the switched converter {mean}, averaged converter {avg}")
                return
    ctx.check(same_list(mean, avg, 1e-6), "mean", lambda: f"mean of the switched converter {mean}, averaged converter {avg}, "
              f"action {a}, currents {signs}, interlocking {til / tau} periods")


def same_list(a, b, tol=1e-9):
    a = [float(x) for x in a]
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b)) and all(math.isfinite(x) for x in a)


def probes():
    """The known finding is exercised in every run."""
    return [{"mode": "obj", "finite": False, "types": ["4QC"], "tau": 1e-4, "til": 1e-5, "t0": 0, "ops": [["s", [0.0], [[1.0]]]]}]
