"""Scenario configurations: JSON documents -> environments, and their seeded generation.

A configuration is pure JSON, so that a scenario can be stored, minimised and replayed.
    {"$": "Class", ...kwargs}   object of a class of gym-electric-motor (or of sim.parts)
    {"$t": [...]}               tuple
    {"$f": "name", ...}         callable from sim.parts.FUNCS
"""
import math

DC1 = dict(kind="dc", n_conv=1)
MOTORS = {
    "PermExDc": dict(cls="DcPermanentlyExcitedMotor", u=60.0, kind="dc", conv=["4QC"], cur=["i"], volt=["u"], cc=["i"],
                     params=dict(r_a=16e-3, l_a=19e-6, psi_e=0.165, j_rotor=0.025),
                     limits=dict(omega=400.0, torque=38.0, i=210.0), nominal=dict(omega=300.0, torque=16.0, i=97.0)),
    "SeriesDc": dict(cls="DcSeriesMotor", u=60.0, kind="dc", conv=["4QC"], cur=["i"], volt=["u"], cc=["i"],
                     params=dict(r_a=16e-3, r_e=48e-3, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                     limits=dict(omega=400.0, torque=38.0, i=210.0), nominal=dict(omega=300.0, torque=16.0, i=97.0)),
    "ShuntDc": dict(cls="DcShuntMotor", u=60.0, kind="dc", conv=["4QC"], cur=["i_a", "i_e"], volt=["u"], cc=["i_a"],
                    params=dict(r_a=16e-3, r_e=4e-1, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                    limits=dict(omega=400.0, torque=38.0, i_a=210.0, i_e=210.0),
                    nominal=dict(omega=300.0, torque=16.0, i_a=97.0, i_e=97.0)),
    "ExtExDc": dict(cls="DcExternallyExcitedMotor", u=60.0, kind="dc", conv=["4QC", "4QC"], cur=["i_a", "i_e"],
                    volt=["u_a", "u_e"], cc=["i_a", "i_e"],
                    params=dict(r_a=16e-3, r_e=16e-2, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
                    limits=dict(omega=400.0, torque=38.0, i_a=210.0, i_e=210.0),
                    nominal=dict(omega=300.0, torque=16.0, i_a=97.0, i_e=97.0)),
    "PMSM": dict(cls="PermanentMagnetSynchronousMotor", u=300.0, kind="ac", conv=["B6"], cur=["i_sd", "i_sq"],
                 volt=["u_a", "u_b", "u_c"], cc=["i_sd", "i_sq"],
                 params=dict(p=3, l_d=0.37e-3, l_q=1.2e-3, j_rotor=0.03883, r_s=18e-3, psi_p=66e-3),
                 limits=dict(omega=4e3 * math.pi / 30, i=400.0, u=300.0),
                 nominal=dict(omega=3e3 * math.pi / 30, i=240.0, u=300.0)),
    "SynRM": dict(cls="SynchronousReluctanceMotor", u=420.0, kind="ac", conv=["B6"], cur=["i_sd", "i_sq"],
                  volt=["u_a", "u_b", "u_c"], cc=["i_sd", "i_sq"],
                  params=dict(p=4, l_d=10.1e-3, l_q=4.1e-3, j_rotor=0.8e-3, r_s=0.57),
                  limits=dict(omega=4.3e3 * math.pi / 30, i=18.0, u=80.0),
                  nominal=dict(omega=3e3 * math.pi / 30, i=10.0, u=80.0)),
    "EESM": dict(cls="ExternallyExcitedSynchronousMotor", u=420.0, kind="ac", conv=["B6", "4QC"],
                 cur=["i_sd", "i_sq", "i_e"], volt=["u_a", "u_b", "u_c", "u_e"], cc=["i_sd", "i_sq", "i_e"],
                 params=dict(p=3, l_d=1.66e-3, l_q=0.35e-3, l_m=1.589e-3, l_e=1.74e-3, j_rotor=0.3883, r_s=15.55e-3,
                             r_e=7.2e-3, k=65.21),
                 limits=dict(omega=12e3 * math.pi / 30, i=150.0, i_e=150.0, u=320.0),
                 nominal=dict(omega=4.3e3 * math.pi / 30, i=120.0, i_e=150.0, u=320.0)),
    "SCIM": dict(cls="SquirrelCageInductionMotor", u=420.0, kind="ac", conv=["B6"], cur=["i_sd", "i_sq"],
                 volt=["u_sa", "u_sb", "u_sc"], cc=["i_sd", "i_sq"],
                 params=dict(p=2, l_m=143.75e-3, l_sigs=5.87e-3, l_sigr=5.87e-3, j_rotor=1.1e-3, r_s=2.9338, r_r=1.355),
                 limits=dict(omega=4e3 * math.pi / 30, i=5.5, u=560.0),
                 nominal=dict(omega=3e3 * math.pi / 30, i=3.9, u=560.0)),
    "DFIM": dict(cls="DoublyFedInductionMotor", u=420.0, kind="ac", conv=["B6", "B6"], cur=["i_sd", "i_sq"],
                 volt=["u_sa", "u_sb", "u_sc"], cc=["i_sd", "i_sq"],
                 params=dict(p=2, l_m=297.5e-3, l_sigs=25.71e-3, l_sigr=25.71e-3, j_rotor=13.695e-3, r_s=4.42, r_r=3.51),
                 limits=dict(omega=1800 * math.pi / 30, i=9.0, u=720.0),
                 nominal=dict(omega=1650 * math.pi / 30, i=7.5, u=720.0)),
}
DC = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"]
SYNC = ["PMSM", "SynRM", "EESM"]
IM = ["SCIM", "DFIM"]
AC = SYNC + IM
TAU = {"Finite": 1e-5, "Cont": 1e-4}
CLS_CONV = {"1QC": "OneQuadrantConverter", "2QC": "TwoQuadrantConverter", "4QC": "FourQuadrantConverter",
            "B6": "B6BridgeConverter", "Multi": "MultiConverter"}


def split(cfg):
    a, t, m, _ = cfg["id"].split("-")
    return a, t, m


# ------------------------------------------------------------------ action spaces (own table, not the repository's)
def conv_types(cfg):
    """The half bridge types of the configured converter, in order."""
    _, _, m = split(cfg)
    return cfg.get("conv", {}).get("types", MOTORS[m]["conv"])


FIN_N = {"1QC": 2, "2QC": 3, "4QC": 4, "B6": 8}
CONT_B = {"1QC": [(0.0, 1.0)], "2QC": [(0.0, 1.0)], "4QC": [(-1.0, 1.0)], "B6": [(-1.0, 1.0)] * 3}


def action_space(cfg):
    """('discrete', n) | ('multi', [n, ...]) | ('box', [(low, high), ...])"""
    a, _, m = split(cfg)
    for w in reversed(cfg.get("wrappers", [])):
        if w["$"] == "DqToAbc":
            n = {"EESM": 3, "DFIM": 4}.get(m, 2)
            return ("box", [(-1.0, 1.0)] * n)
    if cfg.get("control_space") == "dq":
        return ("box", [(-1.0, 1.0)] * 2)
    types = conv_types(cfg)
    if a == "Finite":
        return ("discrete", FIN_N[types[0]]) if len(types) == 1 else ("multi", [FIN_N[t] for t in types])
    return ("box", sum([CONT_B[t] for t in types], []))


def rand_action(rng, space, amp=1.0):
    k, s = space
    if k == "discrete":
        return rng.randrange(s)
    if k == "multi":
        return [rng.randrange(n) for n in s]
    out = []
    for lo, hi in s:
        c = 0.0 if lo < 0 else 0.5
        r = rng.random()
        if r < 0.08:
            v = lo
        elif r < 0.16:
            v = hi
        elif r < 0.2:
            v = c
        else:
            v = rng.uniform(lo, hi)
        out.append(c + (v - c) * amp if amp != 1.0 else v)
    return out


def action_program(rng, space, n, amp=None):
    """n actions: held, alternating, random or ramped (swarm style)."""
    mode = rng.choice(["rand", "hold", "burst", "alt", "rand"])
    if amp is None:
        amp = rng.choice([1.0, 1.0, 0.3, 0.1])
    out = []
    cur, alt = rand_action(rng, space, amp), rand_action(rng, space, amp)
    left = 0
    for i in range(n):
        if mode == "rand":
            cur = rand_action(rng, space, amp)
        elif mode == "hold":
            if left == 0:
                cur, left = rand_action(rng, space, amp), rng.randint(3, 25)
            left -= 1
        elif mode == "burst":
            if left == 0:
                cur, left = rand_action(rng, space, amp), rng.choice([1, 1, 2, 3, 8])
            left -= 1
        elif mode == "alt":
            cur, alt = alt, cur
        out.append(list(cur) if isinstance(cur, list) else cur)
    return out


# ------------------------------------------------------------------ random configurations
def g_conv(rng, a, m, interlock=0.5, tau=None, types=True):
    base = MOTORS[m]["conv"]
    ts = list(base)
    if types and rng.random() < 0.6:
        if m in ("PermExDc", "SeriesDc", "ShuntDc"):
            ts = [rng.choice(["1QC", "2QC", "4QC"])]
        elif m == "ExtExDc":
            ts = [rng.choice(["1QC", "2QC", "4QC"]) for _ in range(2)]
        elif m == "EESM":
            ts = ["B6", rng.choice(["1QC", "2QC", "4QC"])]
    til = 0.0
    if rng.random() < interlock:
        til = rng.choice([0.01, 0.05, 0.1, 0.2, 0.33, 0.5, 0.9]) * tau
    return dict(types=ts, til=til)


def g_supply(rng, m, kinds=("Ideal", "RC", "AC1")):
    u = MOTORS[m]["u"] * rng.choice([1.0, 1.0, 0.5, 0.8, 1.3])
    k = rng.choice(kinds)
    if k == "Ideal":
        return {"$": "IdealVoltageSupply", "u_nominal": u}
    if k == "RC":
        return {"$": "RCVoltageSupply", "u_nominal": u,
                "supply_parameter": {"R": rng.choice([0.1, 1.0, 2.0, 10.0]), "C": rng.choice([1e-3, 4e-3, 1e-2])}}
    if k == "AC1":
        p = {"frequency": rng.choice([50.0, 60.0, 400.0])}
        if rng.random() < 0.5:
            p["phase"] = rng.uniform(0, 2 * math.pi)
        elif rng.random() < 0.3:
            p = None
        return {"$": "AC1PhaseSupply", "u_nominal": u, "supply_parameter": p}
    raise KeyError(k)


SOLVERS = [
    {"$": "EulerSolver", "nsteps": 1}, {"$": "EulerSolver", "nsteps": 3}, {"$": "EulerSolver", "nsteps": 10},
    {"$": "ScipyOdeSolver"},  # not dop853: scipy's own implementation reads uninitialised memory
    {"$": "ScipyOdeSolver", "integrator": "lsoda"}, {"$": "ScipyOdeSolver", "integrator": "vode"},
    {"$": "ScipySolveIvpSolver"}, {"$": "ScipySolveIvpSolver", "method": "DOP853"},
    {"$": "ScipySolveIvpSolver", "method": "Radau"}, {"$": "ScipySolveIvpSolver", "method": "LSODA"},
    {"$": "ScipyOdeIntSolver"},
]


def g_solver(rng):
    return dict(rng.choice(SOLVERS))


MOTOR_STATES = {"PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a", "i_e"], "ExtExDc": ["i_a", "i_e"],
                "PMSM": ["i_sq", "i_sd", "epsilon"], "SynRM": ["i_sq", "i_sd", "epsilon"],
                "EESM": ["i_sq", "i_sd", "i_e", "epsilon"],
                "SCIM": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
                "DFIM": ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]}


def g_init(rng, m, kinds=("const", "uniform", "gaussian")):
    """Motor initializer."""
    k = rng.choice(kinds)
    M = MOTORS[m]
    names = list(MOTOR_STATES[m])

    def bound(s):
        if s == "epsilon":
            return 3.0
        if s.startswith("psi"):
            return 0.2
        return M["nominal"].get(s, M["nominal"].get("i", 1.0))
    if k == "const":
        lo = 0.0 if M["kind"] == "dc" else -0.5
        states = {s: 0.0 if s.startswith("psi") else rng.uniform(lo, 0.5) * bound(s) for s in names}
        if "epsilon" in states and rng.random() < 0.3:       # about to pass half a turn
            states["epsilon"] = rng.choice([-1, 1]) * math.pi * (1 - 10 ** -rng.uniform(2, 6))
        if rng.random() < 0.4:
            rng.shuffle(names)
            states = {s: states[s] for s in names}
        return {"states": states}
    out = {"random_init": k}
    if k == "gaussian":
        out["random_params"] = {"$t": [None, rng.choice([None, 0.5])]}
    if rng.random() < 0.5 and m not in IM:
        out["interval"] = [[0.0 if M["kind"] == "dc" else -0.3 * bound(s), 0.4 * bound(s)] for s in MOTOR_STATES[m]]
    return out


def g_motor(rng, m, vary=True, init=0.5):
    M = MOTORS[m]
    kw = {}
    if vary and rng.random() < 0.7:
        kw["motor_parameter"] = {k: (v if k == "p" else v * rng.uniform(0.8, 1.25)) for k, v in M["params"].items()
                                 if k != "k" and rng.random() < 0.7}
        if m == "EESM":  # keep the inductance matrix positive definite
            for k in ("l_d", "l_m", "l_e"):
                kw["motor_parameter"].pop(k, None)
        if m in ("PMSM", "SCIM", "DFIM", "SynRM") and rng.random() < 0.3:
            kw["motor_parameter"]["p"] = rng.choice([1, 2, 3, 4])
        if m in SYNC and rng.random() < 0.25:      # any saliency, also none and the unusual one
            P = M["params"]
            if m == "EESM":
                kw["motor_parameter"]["l_q"] = P["l_d"] * rng.choice([1.0, 2.0])
            elif m == "PMSM" and rng.random() < 0.4:
                kw["motor_parameter"]["l_d"] = kw["motor_parameter"]["l_q"] = P["l_q"]
            else:
                kw["motor_parameter"]["l_d"], kw["motor_parameter"]["l_q"] = P["l_q"], P["l_d"]
    if vary and rng.random() < 0.3:
        s = rng.choice([0.8, 1.2, 1.5])
        kw["limit_values"] = {k: v * s for k, v in M["limits"].items() if k != "u"}
        kw["nominal_values"] = {k: v * s for k, v in M["nominal"].items() if k != "u"}
    if rng.random() < init:
        kw["motor_initializer"] = g_init(rng, m)
    return kw


def g_load(rng, m, tau, kinds=("Const", "Poly", "Ext", "OU")):
    k = rng.choice(kinds)
    wn = MOTORS[m]["nominal"]["omega"]
    if k == "Const":
        return {"$": "ConstantSpeedLoad", "omega_fixed": rng.choice([0.0, 0.1, 0.35, 0.6]) * wn}
    if k == "Ext":
        return {"$": "ExternalSpeedLoad", "speed_profile": {"$f": "sine", "a": rng.uniform(0.1, 0.5) * wn,
                                                           "w": 2 * math.pi * rng.choice([5.0, 20.0, 50.0]),
                                                           "b": rng.uniform(0, 0.3) * wn, "ph": rng.uniform(0, 6)},
                "tau": tau}
    if k == "OU":
        return {"$": "OrnsteinUhlenbeckLoad", "mu": rng.uniform(0, 0.3) * wn, "sigma": rng.choice([1.0, 30.0]) * 10,
                "theta": rng.choice([1.0, 20.0]), "tau": tau, "omega_range": {"$t": [-0.1 * wn, 0.6 * wn]}}
    j = MOTORS[m]["params"]["j_rotor"]
    tn = MOTORS[m]["nominal"].get("torque", 0) or 2.0
    p = dict(a=rng.choice([0.0, 0.01, 0.1]) * tn, b=rng.choice([0.0, 0.05, 0.3]) * tn / wn,
             c=rng.choice([0.0, 0.05, 0.3]) * tn / wn**2, j_load=j * rng.choice([0.01, 0.1, 1.0]))
    out = {"$": "PolynomialStaticLoad", "load_parameter": p}
    r = rng.random()
    if r < 0.25:
        out["load_initializer"] = {"states": {"omega": rng.uniform(0, 0.8) * wn}}
    elif r < 0.4:
        out["load_initializer"] = {"random_init": "uniform"}
    elif r < 0.5:
        out["load_initializer"] = {"random_init": "gaussian", "interval": [[0.0, 0.5 * wn]]}
    return out


def state_names(m):
    """Announced order of the states (documented layout)."""
    if m == "PermExDc" or m == "SeriesDc":
        return ["omega", "torque", "i", "u", "u_sup"]
    if m == "ShuntDc":
        return ["omega", "torque", "i_a", "i_e", "u", "u_sup"]
    if m == "ExtExDc":
        return ["omega", "torque", "i_a", "i_e", "u_a", "u_e", "u_sup"]
    if m in ("PMSM", "SynRM"):
        return ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon",
                "u_sup"]
    if m == "EESM":
        return ["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq",
                "u_e", "epsilon", "u_sup"]
    if m == "SCIM":
        return ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq",
                "epsilon", "u_sup"]
    return ["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "i_ra", "i_rb", "i_rc", "i_rd", "i_rq",
            "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "u_ra", "u_rb", "u_rc", "u_rd", "u_rq", "epsilon", "u_sup"]


def all_state_names(cfg):
    """State names including those added by the configured wrappers."""
    _, _, m = split(cfg)
    n = list(state_names(m))
    for w in cfg.get("wrappers", []):
        if w["$"] == "CosSinProcessor":
            ang = w.get("angle", "epsilon")
            if w.get("remove_angle"):
                n.remove(ang)
            n += [f"cos({ang})", f"sin({ang})"]
        elif w["$"] == "CurrentSumProcessor":
            n += ["i_sum"]
        elif w["$"] == "FluxObserver":
            n += ["psi_abs", "psi_angle"]
    if m == "ShuntDc":  # these environments always add the sum of the currents
        n += ["i_sum"]
    return n


def g_ref1(rng, state, kinds=None, short=True):
    kinds = kinds or ["Wiener", "Laplace", "Sin", "Tri", "Step", "Saw", "Const"]
    k = rng.choice(kinds)
    kw = {"reference_state": state}
    if k == "Const":
        return {"$": "ConstReferenceGenerator", "reference_value": rng.uniform(0, 0.6), **kw}
    if rng.random() < 0.8:
        lo = rng.choice([1, 2, 5, 10])
        kw["episode_lengths"] = {"$t": [lo, lo + rng.choice([0, 1, 5, 20])]} if rng.random() < 0.8 else lo
    if rng.random() < 0.4:
        kw["limit_margin"] = rng.choice([0.5, 0.9, {"$t": [0.3, 0.7]}])
    if k == "Wiener":
        kw["sigma_range"] = {"$t": rng.choice([[1e-3, 1e-1], [1e-2, 0.5]])}
        if rng.random() < 0.3:
            kw["initial_range"] = {"$t": [0.0, 0.2]}
        return {"$": "WienerProcessReferenceGenerator", **kw}
    if k == "Laplace":
        kw["sigma_range"] = {"$t": rng.choice([[1e-3, 1e-1], [1e-2, 0.5]])}
        return {"$": "LaplaceProcessReferenceGenerator", **kw}
    if rng.random() < 0.6:
        kw["amplitude_range"] = {"$t": rng.choice([[0.0, 0.3], [0.1, 0.1], [0.2, 1.5]])}
    if rng.random() < 0.6:
        kw["frequency_range"] = {"$t": rng.choice([[1.0, 10.0], [50.0, 500.0], [200.0, 2000.0]])}
    if rng.random() < 0.5:
        kw["offset_range"] = {"$t": rng.choice([[0.0, 0.2], [-0.3, 0.3], [0.0, 0.0]])}
    return {"$": {"Sin": "SinusoidalReferenceGenerator", "Tri": "TriangularReferenceGenerator",
                  "Step": "StepReferenceGenerator", "Saw": "SawtoothReferenceGenerator"}[k], **kw}


def g_ref(rng, names, allow_zero=True, kinds=None):
    """names: states that may be referenced."""
    r = rng.random()
    if allow_zero and r < 0.04:
        return {"$": "ZeroReferenceGenerator"}

    def one(s):
        if rng.random() < 0.3:
            n = rng.choice([1, 2, 3])
            lo = rng.choice([1, 2, 4, 10])
            d = {"$": "SwitchedReferenceGenerator", "sub_generators": [g_ref1(rng, s, kinds) for _ in range(n)],
                 "super_episode_length": {"$t": [lo, lo + rng.choice([1, 2, 10])]} if rng.random() < 0.8 else lo}
            if rng.random() < 0.4:
                w = [rng.uniform(0.1, 1) for _ in range(n)]
                p = [x / sum(w) for x in w]
                p[-1] = 1 - sum(p[:-1])
                d["p"] = p
            return d
        return g_ref1(rng, s, kinds)
    if r < 0.5 or len(names) < 2:
        return one(rng.choice(names))
    sel = rng.sample(names, min(len(names), rng.choice([2, 2, 3])))
    return {"$": "MultipleReferenceGenerator", "sub_generators": [one(s) for s in sel]}


def ref_states(ref):
    """Referenced states in announced order."""
    if ref["$"] == "ZeroReferenceGenerator":
        return []
    if ref["$"] == "MultipleReferenceGenerator":
        return sum([ref_states(r) for r in ref["sub_generators"]], [])
    if ref["$"] == "SwitchedReferenceGenerator":
        return ref_states(ref["sub_generators"][0])
    return [ref["reference_state"]]


REF_DEFAULT = {"SC": lambda m: ["omega"], "TC": lambda m: ["torque"], "CC": lambda m: MOTORS[m]["cc"]}


def g_reward(rng, names):
    kw = {}
    if rng.random() < 0.7:
        sel = rng.sample(names, rng.randint(1, min(3, len(names))))
        kw["reward_weights"] = {s: rng.choice([0.1, 0.5, 1.0, 2.0]) for s in sel}
    if rng.random() < 0.3:
        kw["normed_reward_weights"] = True
    r = rng.random()
    if r < 0.3:
        kw["violation_reward"] = rng.choice([-10.0, -1.0, 0.0, -100.0])
    elif r < 0.6:
        kw["gamma"] = rng.choice([0.0, 0.5, 0.99])
    r = rng.random()
    if r < 0.3:
        kw["reward_power"] = rng.choice([0.5, 2, 1.0])
    elif r < 0.5 and "reward_weights" in kw:
        kw["reward_power"] = {s: rng.choice([0.5, 1, 2]) for s in names}
    r = rng.random()
    if r < 0.2:
        kw["bias"] = "positive"
    elif r < 0.4:
        kw["bias"] = rng.choice([0.5, -0.2, 1.0])
    return {"$": "WeightedSumOfErrors", **kw}


def g_constraints(rng, names, none=0.2):
    if rng.random() < none:
        return []
    lim = [s for s in names if s not in ("u_sup",)]
    out = []
    r = rng.random()
    if r < 0.15:
        return ["all_states"]
    for s in rng.sample(lim, rng.randint(1, min(3, len(lim)))):
        out.append(s)
    if rng.random() < 0.3:
        out.append({"$": "LimitConstraint", "observed_state_names": {"$t": rng.sample(lim, 1)}})
    if rng.random() < 0.3 and len(lim) > 1:
        out.append({"$": "SquaredConstraint", "states": {"$t": rng.sample(lim, 2)}})
    if rng.random() < 0.25:
        out.append({"$f": "soft", "i": names.index(rng.choice(lim)), "lo": rng.choice([0.3, 0.6, 0.8]), "hi": rng.choice([1.0, 1.5])})
    rng.shuffle(out)
    return out


def g_wrappers(rng, m, cfg, dead=True, noise=False, cossin=True, dq=False):
    ws = []
    names = state_names(m)
    pool = []
    if cossin and m in AC:
        pool.append({"$": "CosSinProcessor", "angle": "epsilon", "remove_angle": rng.random() < 0.4})
    cur = [n for n in names if n.startswith("i")]
    if m != "ShuntDc":
        pool.append({"$": "CurrentSumProcessor", "currents": rng.sample(cur, rng.randint(1, min(3, len(cur)))),
                     "limit": rng.choice(["max", "sum"])})
    if m in IM:
        pool.append({"$": "FluxObserver"})
    if dead:
        pool.append({"$": "DeadTimeProcessor", "steps": rng.choice([1, 1, 2, 3])})
    if noise:
        pool.append({"$": "StateNoiseProcessor", "states": rng.choice(["all", {"$t": rng.sample(names, 2)}]),
                     "random_dist": rng.choice(["normal", "uniform", "laplace"]),
                     "random_kwargs": {"loc": 0.0, "scale": 0.01}, "random_length": rng.choice([1, 3, 7, 1000])})
        if pool[-1]["random_dist"] == "uniform":
            pool[-1]["random_kwargs"] = {"low": -0.01, "high": 0.01}
    for w in rng.sample(pool, rng.randint(0, min(3, len(pool)))):
        ws.append(w)
    gone = False
    for w in ws:
        gone = gone or bool(w.get("remove_angle"))
        if gone and w["$"] == "StateNoiseProcessor" and isinstance(w["states"], dict):
            w["states"]["$t"] = [n for n in w["states"]["$t"] if n != w.get("angle", "epsilon")] or ["omega"]
    return ws


def gen_cfg(rng, motors=None, action=None, task=None, only=None, **p):
    """Random configuration.  p: probability per aspect (0 disables)."""
    pr = dict(tau=0.4, supply=0.5, conv=0.6, motor=0.5, load=0.6, solver=0.5, ref=0.6, reward=0.5, constraints=0.5,
              wrappers=0.3, filter=0.3, vis=0.1)
    pr.update(p)
    m = rng.choice(motors or DC + AC)
    a = action or rng.choice(["Finite", "Cont"])
    t = task or rng.choice(["SC", "TC", "CC"])
    cfg = {"id": f"{a}-{t}-{m}-v0"}
    tau = TAU[a]
    on = {k: rng.random() < v for k, v in pr.items() if isinstance(v, (int, float)) and not isinstance(v, bool)}
    if on["tau"]:
        tau = rng.choice([1e-5, 2e-5, 5e-5, 1e-4, 7.3e-5, 2e-4])
        cfg["tau"] = tau
    if on["supply"]:
        cfg["supply"] = g_supply(rng, m, pr.get("supply_kinds", ("Ideal", "RC", "AC1")))
    if on["conv"]:
        cfg["conv"] = g_conv(rng, a, m, tau=tau, interlock=pr.get("interlock", 0.5))
    if on["motor"]:
        cfg["motor"] = g_motor(rng, m, init=pr.get("init", 0.5))
    if on["load"]:
        cfg["load"] = g_load(rng, m, tau, pr.get("load_kinds", ("Const", "Poly", "Ext", "OU")))
    if on["solver"]:
        cfg["solver"] = dict(rng.choice(pr["solvers"])) if "solvers" in pr else g_solver(rng)
    if cfg.get("load", {}).get("$") == "OrnsteinUhlenbeckLoad":
        # a right hand side with noise: only explicit solvers make sense
        cfg["solver"] = dict(rng.choice([{"$": "EulerSolver", "nsteps": 1}, {"$": "EulerSolver", "nsteps": 4}]))
    if on["wrappers"]:
        cfg["wrappers"] = g_wrappers(rng, m, cfg, dead=pr.get("dead", True), noise=pr.get("noise", False))
    names = all_state_names(cfg)
    if on["ref"]:
        pool = [s for s in names if s not in ("u_sup",) and not s.startswith("cos") and not s.startswith("sin")
                and not s.startswith("psi")]
        cfg["ref"] = g_ref(rng, pool, kinds=pr.get("ref_kinds"))
    if on["reward"]:
        cfg["reward"] = g_reward(rng, [n for n in names])
    if on["constraints"]:
        cfg["constraints"] = g_constraints(rng, names)
    elif any(w["$"] == "CosSinProcessor" and w.get("remove_angle") for w in cfg.get("wrappers", [])):
        pass
    if on["filter"]:
        cfg["filter"] = rng.sample(names, rng.randint(1, len(names)))
    if on["vis"]:
        cfg["vis"] = rng.choice(["dashboard", "printer"])
    else:
        cfg["vis"] = None
    return cfg


def simplify_cfg(cfg):
    """Candidates for simpler configurations (minimiser)."""
    for k in list(cfg):
        if k in ("id",):
            continue
        c = dict(cfg)
        del c[k]
        yield c
    if cfg.get("wrappers"):
        for i in range(len(cfg["wrappers"])):
            c = dict(cfg)
            c["wrappers"] = cfg["wrappers"][:i] + cfg["wrappers"][i + 1:]
            yield c
    if isinstance(cfg.get("motor"), dict):
        for k in cfg["motor"]:
            c = dict(cfg)
            c["motor"] = {x: v for x, v in cfg["motor"].items() if x != k}
            yield c
    if isinstance(cfg.get("constraints"), list) and len(cfg["constraints"]) > 1:
        for i in range(len(cfg["constraints"])):
            c = dict(cfg)
            c["constraints"] = cfg["constraints"][:i] + cfg["constraints"][i + 1:]
            yield c
