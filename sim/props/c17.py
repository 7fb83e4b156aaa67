"""C17 Field-oriented actions reach the motor with the right angle."""
import cmath
import math

import gem_controllers as gc
import numpy as np
from gym_electric_motor.physical_systems import physical_systems as pss

from .. import build, parts, spec
from ..core import interrupt_at
from ..drive import Drive
from ..model import clarke, rot, unclarke, wrap

ID = "C17"
COUNT = {"quick": 1200, "thorough": 16000}
RULE = ("random three phase drives behind the dq-to-abc processor (with dead time on either side of it and further processors) or in the "
        "dq control space or controlled by a field oriented controller of gem_controllers, over several episodes with random dq actions, reused action buffers, speed disturbances, reversal and fast rotation, "
        "failing and interrupted steps followed by a new episode; the duty cycles reaching the converter and the voltages observed "
        "are compared with the command turned by the angle of the field when it takes effect; non-trivial when at least 4 commands "
        "were judged")
STATES = "motor x mode x dead time x angle in twelfths x sense of rotation"


def gen(rng, tier):
    mode = rng.choice(["proc", "proc", "proc", "proc", "space", "ctrl"])
    m = rng.choice(["PMSM", "SynRM", "SCIM"] if mode == "space" else ["PMSM", "SynRM", "SCIM", "EESM"] if mode == "ctrl" else ["PMSM", "SynRM", "EESM", "SCIM", "DFIM", "PMSM", "SynRM"])
    cfg = spec.gen_cfg(rng, motors=[m], action="Cont", wrappers=0, ref=0, reward=0, constraints=0, filter=0, vis=0, conv=0, solver=0.3,
                       load=0.9, load_kinds=("Const", "Const", "Ext", "Poly"), supply=0.4, motor=0.8, init=0.8, tau=0.7)
    if mode == "ctrl":
        cfg["id"] = f"Cont-CC-{m}-v0"
        if m == "EESM":
            cfg["motor"] = {"motor_parameter": {"l_m": 1e-3}}
    cfg["constraints"] = []
    if mode != "ctrl":
        cfg["ref"] = {"$": "ZeroReferenceGenerator"}
    wn = cfg.get("motor", {}).get("nominal_values", spec.MOTORS[m]["nominal"])["omega"]
    if cfg.get("load", {}).get("$") == "ConstantSpeedLoad":
        cfg["load"]["omega_fixed"] = rng.choice([-1, 1, 1]) * rng.choice([0.0, 0.05, 0.5, 0.7, 1.0]) * wn
    n = {"EESM": 3, "DFIM": 4}.get(m, 2) if mode == "proc" else 2
    sc = {"cfg": cfg, "mode": mode, "buffer": rng.choice(["fresh", "reuse", "list"])}
    inner = [rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    outer = [rng.choice([1, 2]) for _ in range(rng.choice([0, 0, 0, 1]))]
    if mode == "space":
        inner = []
    if mode == "ctrl":
        outer = []
    sc.update(inner=inner, outer=outer, extra=rng.choice([None, None, "cos", "noise", "cosin"]) if mode == "proc" else rng.choice([None, "noise"]) if mode == "ctrl" else None)
    if m not in spec.SYNC and sc["extra"] == "cosin":
        sc["extra"] = "cos"
    ops = []
    for e in range(rng.randint(1, 4)):
        ops.append(["r", rng.choice([None, rng.randrange(2**32)]) if e else rng.randrange(2**32)])
        amp = rng.choice([1.0, 0.9, 0.3])
        prog = spec.action_program(rng, ("box", [(-1.0, 1.0)] * n), rng.randint(2, 25), amp)
        ops += [["s", a] for a in prog]
    sc["ops"] = ops
    sc["faults"] = [[k, rng.choice(["boom", "interrupt"]), rng.random()] for k in range(1, len(ops)) if rng.random() < 0.02][:2]
    return sc


def spy(conv, sink):
    orig = conv.set_action

    def f(action, t):
        sink.append([float(x) for x in np.ravel(action)])
        return orig(action, t)
    conv.set_action = f


class Buf:
    """The caller's way to hand over actions."""

    def __init__(self, kind, n):
        self.kind, self.b = kind, np.zeros(n)

    def __call__(self, a):
        if self.kind == "reuse":
            self.b[:] = a
            return self.b
        return list(a) if self.kind == "list" else np.array(a, float)

    def after(self):
        if self.kind == "reuse":
            self.b[:] = 7.7


def run(sc, ctx):
    {"proc": run_proc, "space": run_space, "ctrl": run_ctrl}[sc["mode"]](sc, ctx)


def tap_stage(controller, sink):
    """Records the dq voltages that the controller hands to its coordinate transformation."""
    stage = controller.transformation_stage

    class Tapped(type(stage)):
        def __call__(self, state, reference):
            sink.append([float(v) for v in reference])
            return super().__call__(state, reference)
    stage.__class__ = Tapped


def run_ctrl(sc, ctx):
    """The field oriented current controllers that gem_controllers designs."""
    cfg = sc["cfg"]
    m = spec.split(cfg)[2]
    ws = [build.wrapper(w, m) for w in wrappers(sc, m) if w["$"] != "DqToAbc"]
    env = build.make(cfg, physical_system_wrappers=tuple(ws))
    c = gc.GemController.make(env, cfg["id"], block_diagram=False)
    u = env.unwrapped
    names, lim = list(u.state_names), np.asarray(u.limits, float)
    par = dict(spec.MOTORS[m]["params"])
    par.update(cfg.get("motor", {}).get("motor_parameter", {}))
    p, tau, D = par["p"], u.physical_system.tau, sum(sc["inner"])
    ang = "psi_angle" if m == "SCIM" else "epsilon"
    ulim = lim[names.index("u_sa" if m == "SCIM" else "u_a")]
    judged, end = 0, True
    raw = u.physical_system.unwrapped
    duty, cmds = [], []
    tap_stage(c.controller, cmds)
    spy(raw.converter, duty)
    for op in sc["ops"]:
        if op[0] == "r" or end:
            (s, r), _ = env.reset(seed=op[1] if op[0] == "r" else 5)
            c.reset()
            sent, end = [], False
            continue
        # the references follow the drawn program
        ref = np.array(op[1][:len(r)], float)
        ref = 0.5 * np.concatenate([ref, np.zeros(len(r) - len(ref))])
        x = dict(zip(names, np.asarray(s, float) * lim))
        if not all(math.isfinite(v) and abs(v) < 1e7 for v in x.values()):
            break
        act = c.control(s, ref)
        cmd = cmds.pop()
        th = x[ang] + (0.5 + D) * tau * p * x["omega"]
        want = [v / ulim for v in unclarke(rot(complex(*cmd[:2]), th))]
        ctx.check(np.allclose(act[:3], want, rtol=1e-6, atol=1e-7), "controller-angle",
                  lambda: f"{cfg['id']} controller: action {act}, its voltages {cmd} turned by the angle when they take effect give {want} "
                          f"(dead time {sc['inner']}, speed {x['omega']})")
        sent.append(want)
        duty.clear()
        (s, r), _, end, _, _ = env.step(act)
        ctx.steps += 1
        ctx.sim_time += tau
        if D and len(sent) > D:
            ctx.check(np.allclose(duty[0][:3], sent[-1 - D], rtol=1e-6, atol=1e-7), "controller-delay", lambda: f"{duty[0]} {sent[-1 - D]}")
        judged += 1
        ctx.log(act, s)
        ctx.state(m, "ctrl", D, round(x[ang] * 6 / math.pi), x["omega"] > 0, x["omega"] < 0)
    ctx.probe("controller")
    ctx.nontrivial = judged > 3


def wrappers(sc, m):
    ws = []
    if m in spec.IM:
        ws.append({"$": "FluxObserver"})
    if sc["extra"] == "cosin":   # between the motor and the processor; the angle moves within the state vector
        ws.append({"$": "CosSinProcessor", "angle": "epsilon"})
    k = len(sc["inner"]) // 2
    ws += [{"$": "DeadTimeProcessor", "steps": s} for s in sc["inner"][:k]]
    if sc["extra"] == "cos":
        ws.append({"$": "CosSinProcessor", "angle": "epsilon"})
    ws += [{"$": "DeadTimeProcessor", "steps": s} for s in sc["inner"][k:]]
    ws.append({"$": "DqToAbc"})
    ws += [{"$": "DeadTimeProcessor", "steps": s} for s in sc["outer"]]
    if sc["extra"] == "noise":
        ws.append({"$": "StateNoiseProcessor", "states": "all", "random_kwargs": {"scale": 0.3}})
    return ws


def run_proc(sc, ctx):
    m = spec.split(sc["cfg"])[2]
    sinks = [[]]
    ws = [build.wrapper(w, m) for w in wrappers(sc, m)]
    i = next(k for k, w in enumerate(ws) if hasattr(w, "_advance_angle"))
    # measured states as the drive delivers them (in front of any noise)
    ws.insert(i, parts.Tap(sinks[0]))
    d = Drive(sc["cfg"], ctx, physical_system_wrappers=tuple(ws))
    ps = d.u.physical_system
    n = {"EESM": 3, "DFIM": 4}.get(m, 2)
    ctx.check(ps.action_space.shape == (n,) and np.all(ps.action_space.low == -1) and np.all(ps.action_space.high == 1), "action-space",
              lambda: f"{ps.action_space}")
    raw = ps.unwrapped
    duty = []
    spy(raw.converter, duty)
    names = list(ws[i].state_names)
    lim = dict(zip(names, map(float, ws[i].limits)))
    par = dict(spec.MOTORS[m]["params"])
    par.update(sc["cfg"].get("motor", {}).get("motor_parameter", {}))
    p, tau, D = par["p"], d.tau, sum(sc["inner"])
    Do = sum(sc["outer"])
    ang = "psi_angle" if m == "SCIM" else "epsilon"
    const = sc["cfg"].get("load", {}).get("$") == "ConstantSpeedLoad"
    buf = Buf(sc["buffer"], n)
    faults = {f[0]: f[1:] for f in sc["faults"]}
    judged, dead = 0, True
    reached, cmds, x = [], [], None

    def state():
        ctx.check(len(sinks[0]) == 1, "protocol", lambda: f"{len(sinks[0])} states for one step")
        s = {k: v * lim[k] for k, v in zip(names, sinks[0].pop()[1])}
        return s
    for k, op in enumerate(sc["ops"]):
        if k in faults:
            kind, frac = faults[k]

            def do():
                if op[0] == "r":
                    d.u.reset()
                elif not d.terminated:
                    d.u.step(buf(op[1]))
            t = parts.Trip(raw, "reset" if op[0] == "r" else "simulate", 1, "after") if kind == "boom" else None
            try:
                if kind == "boom":
                    do()
                elif interrupt_at(frac, do)[0]:
                    ctx.fault("interrupt")
            except parts.Boom:
                ctx.fault("failing physical system")
            if t:
                t.restore()
            dead = True
        if op[0] == "r" or dead:
            sinks[0].clear()
            d.reset(op[1] if op[0] == "r" else 5)
            x = state()
            reached, cmds, dead = [], [[0.0] * n] * Do, False
            if op[0] == "r" or k in faults:
                continue
        duty.clear()
        before = [float(v) for v in op[1]]
        cmds.append(before)
        a = cmds[len(cmds) - 1 - Do]
        act = buf(op[1])
        ob = d.env.step(act)
        ctx.steps += 1
        ctx.sim_time += tau
        if sc["buffer"] != "reuse":
            ctx.check([float(v) for v in act] == before, "action-modified", lambda: f"{act} was {before}")
        buf.after()
        # own conversion of the command of this step
        w = x["omega"]
        th = x[ang] + (0.5 + D) * tau * p * w
        want = unclarke(rot(complex(*a[:2]), th))
        if m == "EESM":
            want.append(a[2])
        elif m == "DFIM":
            want += unclarke(rot(complex(*a[2:]), x["psi_angle"] - th))
        reached.append((want, a, k))
        got = duty[0]
        ctx.check(len(duty) == 1 and len(got) == len(want), "converter", lambda: f"{duty}")
        j = len(reached) - 1 - D
        if j < 0:
            ctx.check(max(map(abs, got)) == 0, "reset-actions", lambda: f"op {k}: duty cycles {got} during the dead time after a reset")
            a = None
        else:
            want, a, _ = reached[j]
            if max(abs(v) for v in x.values()) < 1e6 and abs(th) < 1e6:
                ctx.check(np.allclose(got, want, rtol=1e-6, atol=1e-7), "angle",
                          lambda: f"op {k}: duty cycles {got}, command {a} turned by the angle when it takes effect gives {want} "
                                  f"(dead time {sc['inner']}, outer {sc['outer']}, angle difference {turn(got, want)})")
        y = state()
        if not all(math.isfinite(v) and abs(v) < 1e7 for v in y.values()):
            ctx.nontrivial = judged > 3
            return
        if a is not None and const and m in spec.SYNC:
            # the middle of the angles at both ends of the period, as observed
            mid = x["epsilon"] + 0.5 * wrap(y["epsilon"] - x["epsilon"])
            if abs(tau * p * w) < 3.0 and abs(complex(*a[:2])) > 1e-3:
                z = rot(clarke(got[:3]), -mid)
                # the speed at the moment of the conversion is that of the whole period
                e = abs(z - complex(*a[:2]))
                ctx.check(e <= 1e-5 * (1 + abs(w) * tau * p), "field-angle",
                          lambda: f"op {k}: voltage along the field {z}, command {a}; {cmath.phase(z / complex(*a[:2]))} rad off")
                u = clarke([y["u_a"], y["u_b"], y["u_c"]]) * (-1 if y["u_sup"] < 0 else 1)
                if max(map(abs, got)) <= 1.0 and abs(u) > 1e-3 * lim["u_a"]:
                    dif = wrap(cmath.phase(rot(u, -mid)) - cmath.phase(complex(*a[:2])))
                    ctx.check(abs(dif) < 1e-4 / abs(complex(*a[:2])), "observed-voltage", lambda: f"op {k}: voltage {dif} rad beside the command")
                    ctx.probe("observed voltage")
        x = y
        judged += 1
        ctx.log(got, ob[0][0])
        ctx.state(m, D, Do, round(x[ang] * 6 / math.pi), w > 0, w < 0)
        d.terminated = bool(ob[2])
        if d.terminated:
            dead = True
    ctx.nontrivial = judged > 3


def turn(got, want):
    a, b = clarke(got[:3]), clarke(want[:3])
    return cmath.phase(a / b) if abs(b) > 0 and abs(a) > 0 else None


def run_space(sc, ctx):
    """The dq control space of the physical systems themselves (with and without dead time)."""
    cfg = sc["cfg"]
    m = spec.split(cfg)[2]
    M = spec.MOTORS[m]
    kw = build.kwargs(cfg)
    cl = pss.SynchronousMotorSystem if m in spec.SYNC else pss.SquirrelCageInductionMotorSystem
    mk = {k: v for k, v in kw.get("motor", {}).items()}
    motor = build.cls(M["cls"])(**mk)
    sys_ = cl(control_space="dq", converter=build.cv.ContB6BridgeConverter(), motor=motor,
              load=kw.get("load", build.ps.ConstantSpeedLoad(omega_fixed=100.0)), supply=kw.get("supply", build.ps.IdealVoltageSupply(M["u"])),
              ode_solver=kw.get("ode_solver") or build.sv.ScipyOdeSolver(), tau=cfg.get("tau", 1e-4))
    raw = sys_
    tap = []
    top = parts.Tap(tap, 0, raw)
    for s in sc["outer"]:
        top = build.pw.DeadTimeProcessor(steps=s, physical_system=top)
    ctx.check(top.action_space.shape == (2,), "action-space", lambda: f"{top.action_space}")
    duty = []
    spy(raw.converter, duty)
    lim = dict(zip(raw.state_names, map(float, raw.limits)))
    buf = Buf(sc["buffer"], 2)
    Do = sum(sc["outer"])
    faults = {f[0]: f[1:] for f in sc["faults"]}
    cmds, judged, dead, k0 = [], 0, True, 0
    x = None
    ph = "s" if m in spec.IM else ""

    def reset():
        nonlocal cmds, dead, x
        tap.clear()
        top.reset()
        x = {n: v * lim[n] for n, v in zip(raw.state_names, tap.pop()[1])}
        cmds, dead = [[0.0, 0.0]] * Do, False
    for k, op in enumerate(sc["ops"]):
        if k in faults:
            t = parts.Trip(raw, "simulate", 1, "after") if faults[k][0] == "boom" else None

            def do():
                if op[0] == "s" and not dead:
                    top.simulate(buf(op[1]))
            try:
                if t:
                    do()
                elif interrupt_at(faults[k][1], do)[0]:
                    ctx.fault("interrupt")
            except parts.Boom:
                ctx.fault("failing physical system")
            if t:
                t.restore()
            dead = True
        if op[0] == "r" or dead:
            reset()
            if op[0] == "r" or k in faults:
                continue
        cmds.append([float(v) for v in op[1]])
        a = cmds[len(cmds) - 1 - Do]
        duty.clear()
        tap.clear()
        top.simulate(buf(op[1]))
        buf.after()
        ctx.steps += 1
        ctx.sim_time += raw.tau
        y = {n: v * lim[n] for n, v in zip(raw.state_names, tap.pop()[1])}
        if not all(math.isfinite(v) and abs(v) < 1e7 for v in y.values()):
            break
        got = duty[0]
        # angle of the field at the begin of the step: rotor angle, or (induction machine) the angle between the observed
        # currents in phase and in field coordinates
        if m in spec.SYNC:
            th = x["epsilon"]
        else:
            ab, dq = clarke([x["i_sa"], x["i_sb"], x["i_sc"]]), complex(x["i_sd"], x["i_sq"])
            th = cmath.phase(ab / dq) if abs(dq) > 1e-4 * lim["i_sd"] else None
        if th is not None:
            want = unclarke(rot(complex(*a), th))
            ctx.check(np.allclose(got, want, rtol=1e-6, atol=1e-6 if m in spec.SYNC else 1e-5), "angle",
                      lambda: f"op {k}: duty cycles {got}, {a} along the field gives {want} (turned by {turn(got, want)})")
            judged += 1
        if max(map(abs, got)) <= 1.0 and abs(y["u_sup"]) > 1e-3 * lim["u_sup"]:
            u = complex(y["u_sd"], y["u_sq"])
            e = abs(u - complex(*a) * 0.5 * y["u_sup"])
            ctx.check(e <= 1e-6 * abs(y["u_sup"]), "observed-voltage", lambda: f"op {k}: u_dq {u} with u_sup {y['u_sup']}, command {a}")
            ctx.probe("observed voltage")
        x = y
        ctx.log(got)
        ctx.state(m, "space", Do, round((th or 0) * 6 / math.pi), x["omega"] > 0)
    ctx.nontrivial = judged > 3
