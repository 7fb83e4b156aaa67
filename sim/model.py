"""Executable reference model of the drives, written from the documented equations, independent of the repository.

It is deliberately simple: one right hand side per motor in natural machine coordinates (flux linkages), half bridges as
little state machines, supplies as functions of time.  It is advanced either with many classical Runge-Kutta steps or,
to be compared with the Euler solver, with exactly the same Euler steps.
"""
import math

import numpy as np

from . import spec

SQ3 = math.sqrt(3.0)


# ------------------------------------------------------------------------------------------------ frames
def clarke(abc):
    a, b, c = abc
    return complex((2 * a - b - c) / 3.0, (b - c) / SQ3)


def unclarke(z):
    return [z.real, -0.5 * z.real + 0.5 * SQ3 * z.imag, -0.5 * z.real - 0.5 * SQ3 * z.imag]


def rot(z, angle):
    return z * complex(math.cos(angle), math.sin(angle))


def wrap(a):
    a = math.fmod(a, 2 * math.pi)
    if a > math.pi:
        a -= 2 * math.pi
    elif a <= -math.pi:
        a += 2 * math.pi
    return a


def sign(x):
    return 1 if x > 0 else -1 if x < 0 else 0


# ------------------------------------------------------------------------------------------------ converters
class Leg:
    """Half bridge with upper and lower switch (2QC), commanded 0 (both off), 1 (upper), 2 (lower)."""

    def __init__(self, til):
        self.til = til
        self.reset()

    def reset(self):
        self.state = 0

    def command(self, a, tau):
        blank = self.til > 0 and a != 0 and self.state != 0 and a != self.state
        self.seq = [(self.til, 0), (tau, a)] if blank else [(tau, a)]
        return [t for t, _ in self.seq]

    def at(self, rel):
        """State in the slice that begins rel seconds after the step's begin."""
        for end, s in self.seq:
            if rel < end - 1e-12:
                self.state = s
                return s
        self.state = self.seq[-1][1]
        return self.state

    @staticmethod
    def level(s, i):
        return {1: 1.0, 2: 0.0}.get(s, 1.0 if i < 0 else 0.0)


class Conv:
    """types: list of 1QC/2QC/4QC/B6; finite or continuous; til interlocking time."""

    def __init__(self, finite, types, til, tau, defect=False):
        self.finite, self.types, self.til, self.tau, self.defect = finite, types, til, tau, defect
        self.legs = [[Leg(til) for _ in range({"1QC": 0, "2QC": 1, "4QC": 2, "B6": 3}[t])] for t in types]
        self.reset()

    def reset(self):
        for ls in self.legs:
            for lg in ls:
                lg.reset()
        self.act = None

    def n_out(self):
        return [3 if t == "B6" else 1 for t in self.types]

    def reset_levels(self):
        out = []
        for t in self.types:
            out += [-0.5] * 3 if t == "B6" else [0.0]
        return out

    def split(self, action):
        if self.finite:
            return [action] if len(self.types) == 1 else [int(x) for x in action]
        out, n = [], 0
        a = [float(x) for x in np.atleast_1d(np.asarray(action, float))]
        for t in self.types:
            w = 3 if t == "B6" else 1
            lo = 0.0 if t in ("1QC", "2QC") else -1.0
            out.append([min(max(x, lo), 1.0) for x in a[n:n + w]])
            n += w
        return out

    def begin(self, action):
        """New period.  Returns the end times of the slices relative to its begin."""
        self.act = self.split(action)
        ends = {self.tau}
        if self.finite:
            for t, a, ls in zip(self.types, self.act, self.legs):
                for j, lg in enumerate(ls):
                    if t == "2QC":
                        c = int(a)
                    elif t == "4QC":
                        c = ([1, 1, 2, 2] if j == 0 else [1, 2, 1, 2])[int(a)]
                    else:
                        c = 1 if (int(a) >> (2 - j)) & 1 else 2
                    ends.update(lg.command(c, self.tau))
        return sorted(ends)

    def sensitive(self, rel):
        """Whether the sign of a current matters for the levels in this slice."""
        if not self.finite:
            return self.til > 0 or "1QC" in self.types
        for t, ls in zip(self.types, self.legs):
            if t == "1QC":
                return True
            for lg in ls:
                s = next((s for end, s in lg.seq if rel < end - 1e-12), lg.seq[-1][1])
                if s == 0:
                    return True
        return False

    def levels(self, currents, rel):
        """Normalised output voltages of the slice starting rel after the begin, for the currents at that instant."""
        out, n = [], 0
        x = self.til / self.tau
        for t, a, ls in zip(self.types, self.act, self.legs):
            w = 3 if t == "B6" else 1
            i = currents[n:n + w]
            n += w
            if self.finite:
                if t == "1QC":
                    out.append(float(a) if i[0] >= 0 else 1.0)
                elif t == "2QC":
                    out.append(Leg.level(ls[0].at(rel), i[0]))
                elif t == "4QC":
                    out.append(Leg.level(ls[0].at(rel), i[0]) - Leg.level(ls[1].at(rel), -i[0]))
                else:
                    out += [Leg.level(lg.at(rel), ik) - 0.5 for lg, ik in zip(ls, i)]
            else:
                clip = lambda v: min(max(v, 0.0), 1.0)  # noqa
                if t == "1QC":
                    out.append(a[0] if i[0] >= 0 else 1.0)
                elif t == "2QC":
                    out.append(clip(a[0] - sign(i[0]) * x))
                elif t == "4QC":
                    s2 = sign(i[0]) if self.defect else -sign(i[0])
                    out.append(clip((1 + a[0]) / 2 - sign(i[0]) * x) - clip((1 - a[0]) / 2 - s2 * x))
                else:
                    out += [clip((1 + ak) / 2 - sign(ik) * x) - 0.5 for ak, ik in zip(a, i)]
        return out


# ------------------------------------------------------------------------------------------------ loads
def ramp(x):
    """Smooth step from 0 to 1 (solvers cannot be expected to hit a jump)."""
    x = min(max(x, 0.0), 1.0)
    return x * x * (3 - 2 * x)


class Load:
    def __init__(self, cfg, env, j_rotor):
        c = cfg.get("load")
        ld = env.unwrapped.physical_system.unwrapped.mechanical_load
        name = c["$"] if c else type(ld).__name__
        self.name = name
        self.profile = None
        if name == "PolynomialStaticLoad" or name == "StepLoad":
            p = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
            p.update((c or {}).get("load_parameter", {}) if c else ld.load_parameter)
            self.p, self.j = p, p["j_load"] + j_rotor
            self.lim = p["a"] / self.j * 1e-3
            self.pulses = (c or {}).get("pulses", [])
        elif name == "ConstantSpeedLoad":
            self.omega = c["omega_fixed"] if c else ld.omega_fixed
        elif name == "ExternalSpeedLoad":
            from . import build
            self.profile, self.tau = build.obj(c["speed_profile"]), c["tau"]
        else:
            raise ValueError(name)

    def domega(self, t, w, torque):
        if self.name == "ConstantSpeedLoad":
            return 0.0
        if self.name == "ExternalSpeedLoad":
            return (self.profile(t + self.tau) - w) / self.tau
        p, s = self.p, sign(w)
        a = s * p["a"] if abs(w) > self.lim else self.j / 1e-3 * w
        tl = s * p["c"] * w * w + p["b"] * w + a
        tl += sum(m * (ramp((t - t0) / r) - ramp((t - t1) / r)) for t0, t1, m, r in self.pulses)
        return (torque - tl) / self.j


# ------------------------------------------------------------------------------------------------ motors
class Motor:
    def __init__(self, m, par):
        self.m, self.par = m, par
        self.p = par.get("p", 1)

    def torque(self, x):
        P, m = self.par, self.m
        if m == "PermExDc":
            return P["psi_e"] * x[0]
        if m == "SeriesDc":
            return P["l_e_prime"] * x[0] ** 2
        if m in ("ShuntDc", "ExtExDc"):
            return P["l_e_prime"] * x[0] * x[1]
        if m in ("PMSM", "SynRM"):
            return 1.5 * self.p * (P.get("psi_p", 0.0) + (P["l_d"] - P["l_q"]) * x[0]) * x[1]
        if m == "EESM":
            return 1.5 * self.p * (P["l_m"] * x[2] + (P["l_d"] - P["l_q"]) * x[0]) * x[1]
        lr = P["l_m"] + P["l_sigr"]
        return 1.5 * self.p * P["l_m"] / lr * (x[2] * x[1] - x[3] * x[0])

    def rhs(self, x, u, w):
        P, m = self.par, self.m
        if m == "PermExDc":
            return [(u[0] - P["r_a"] * x[0] - P["psi_e"] * w) / P["l_a"]]
        if m == "SeriesDc":
            return [(u[0] - (P["r_a"] + P["r_e"]) * x[0] - P["l_e_prime"] * x[0] * w) / (P["l_a"] + P["l_e"])]
        if m in ("ShuntDc", "ExtExDc"):
            ue = u[1] if m == "ExtExDc" else u[0]
            return [(u[0] - P["r_a"] * x[0] - P["l_e_prime"] * x[1] * w) / P["l_a"], (ue - P["r_e"] * x[1]) / P["l_e"]]
        we = self.p * w
        if m in ("PMSM", "SynRM"):
            return [(u[0] - P["r_s"] * x[0] + we * P["l_q"] * x[1]) / P["l_d"],
                    (u[1] - P["r_s"] * x[1] - we * (P["l_d"] * x[0] + P.get("psi_p", 0.0))) / P["l_q"], we]
        if m == "EESM":
            # psi_d = l_d i_d + l_m i_e ; psi_e = 1.5 l_m i_d + l_e i_e
            vd = u[0] - P["r_s"] * x[0] + we * P["l_q"] * x[1]
            ve = u[2] - P["r_e"] * x[2]
            det = P["l_d"] * P["l_e"] - 1.5 * P["l_m"] ** 2
            return [(P["l_e"] * vd - P["l_m"] * ve) / det,
                    (u[1] - P["r_s"] * x[1] - we * (P["l_d"] * x[0] + P["l_m"] * x[2])) / P["l_q"],
                    (P["l_d"] * ve - 1.5 * P["l_m"] * vd) / det, we]
        ls, lr, lm = P["l_m"] + P["l_sigs"], P["l_m"] + P["l_sigr"], P["l_m"]
        i_s, psi = complex(x[0], x[1]), complex(x[2], x[3])
        i_r = (psi - lm * i_s) / lr
        dpsi = u[1] - P["r_r"] * i_r + 1j * we * psi
        dis = (u[0] - P["r_s"] * i_s - lm / lr * dpsi) / (ls - lm * lm / lr)
        return [dis.real, dis.imag, dpsi.real, dpsi.imag, we]

    def rotor_current(self, x):
        P = self.par
        return (complex(x[2], x[3]) - P["l_m"] * complex(x[0], x[1])) / (P["l_m"] + P["l_sigr"])


def supply_law(cfg, env, tau):
    """k -> supply voltage in period k, for supplies whose voltage depends on time only."""
    c = cfg.get("supply")
    if not c:
        u = env.unwrapped.physical_system.unwrapped.supply.u_nominal
        return lambda k: u
    u = c["u_nominal"]
    if c["$"] == "IdealVoltageSupply":
        return lambda k: u
    if c["$"] == "DipSupply":
        def dip(k):
            f = [f for t0, t1, f in c["dips"] if t0 <= k * tau < t1]
            return u * f[-1] if f else u
        return dip
    if c["$"] == "AC1PhaseSupply":
        p = c["supply_parameter"]
        return lambda k: u * math.sqrt(2) * math.sin(2 * math.pi * p["frequency"] * k * tau + p["phase"])
    raise ValueError(c["$"])


class Drive:
    """Reference model of one environment's drive (without wrappers)."""

    def __init__(self, cfg, env, supply=None, defect=False, substeps=24):
        self.cfg = cfg
        _, _, self.m = spec.split(cfg)
        ps = env.unwrapped.physical_system.unwrapped
        self.finite = spec.split(cfg)[0] == "Finite"
        self.tau = ps.tau
        par = dict(spec.MOTORS[self.m]["params"])
        par.update(cfg.get("motor", {}).get("motor_parameter", {}))
        self.motor = Motor(self.m, par)
        self.load = Load(cfg, env, par["j_rotor"])
        self.conv = Conv(self.finite, spec.conv_types(cfg), cfg.get("conv", {}).get("til", 0.0), self.tau, defect)
        self.u_sup = supply if supply is not None else supply_law(cfg, env, self.tau)
        sv = cfg.get("solver", {"$": "ScipyOdeSolver"})
        self.euler = sv.get("nsteps", 1) if sv["$"] == "EulerSolver" else None
        self.substeps = substeps
        self.ac = spec.MOTORS[self.m]["kind"] == "ac"
        self.names = spec.state_names(self.m)
        tol = tolerance(cfg)
        self.zero = (1e-8 if tol <= 2e-5 else 5 * tol) * spec.MOTORS[self.m]["nominal"].get("i", 97.0)

    # -------------------------------------------------------------------------------------------- state
    def reset(self, obs, psi=0j):
        """obs: dict name -> physical value of the reset observation."""
        m = self.m
        self.k = 0
        self.t = 0.0
        self.ambiguous = False
        self.conv.reset()
        if not self.ac:
            x = [obs[n] for n in spec.MOTORS[m]["cur"]]
        elif m in spec.SYNC:
            x = [obs["i_sd"], obs["i_sq"]] + ([obs["i_e"]] if m == "EESM" else []) + [obs["epsilon"]]
        else:
            i = clarke([obs["i_sa"], obs["i_sb"], obs["i_sc"]])
            x = [i.real, i.imag, psi.real, psi.imag, obs["epsilon"]]
        self.y = [float(obs["omega"])] + [float(v) for v in x]

    def f(self, t, y, u):
        x = y[1:]
        return [self.load.domega(t, y[0], self.motor.torque(x))] + self.motor.rhs(x, u, y[0])

    def integrate(self, t0, t1, u):
        if self.euler:
            n, h = self.euler, (t1 - t0) / self.euler
            for k in range(n):
                d = self.f(t0 + k * h, self.y, u)
                self.y = [a + h * b for a, b in zip(self.y, d)]
            return
        n = max(1, int(math.ceil(self.substeps * (t1 - t0) / self.tau)))
        n = max(n, int(math.ceil((t1 - t0) / 1e-5)) * 4)
        h = (t1 - t0) / n
        y = self.y
        for k in range(n):
            t = t0 + k * h
            k1 = self.f(t, y, u)
            k2 = self.f(t + h / 2, [a + h / 2 * b for a, b in zip(y, k1)], u)
            k3 = self.f(t + h / 2, [a + h / 2 * b for a, b in zip(y, k2)], u)
            k4 = self.f(t + h, [a + h * b for a, b in zip(y, k3)], u)
            y = [a + h / 6 * (p + 2 * q + 2 * r + s) for a, p, q, r, s in zip(y, k1, k2, k3, k4)]
        self.y = y

    def field(self):
        z = complex(self.y[3], self.y[4])
        return math.atan2(z.imag, z.real)

    def currents(self):
        """Currents flowing out of the converter."""
        m, x = self.m, self.y[1:]
        if m == "ShuntDc":
            return [x[0] + x[1]]
        if not self.ac:
            return list(x)
        if m in spec.SYNC:
            return unclarke(rot(complex(x[0], x[1]), x[-1])) + ([x[2]] if m == "EESM" else [])
        s = unclarke(complex(x[0], x[1]))
        if m == "DFIM":
            s += unclarke(rot(self.motor.rotor_current(x), -x[4]))
        return s

    def frame(self, uabc):
        """Phase voltages -> input of the motor's equations."""
        m, x = self.m, self.y[1:]
        if not self.ac:
            return list(uabc)
        z = clarke(uabc[:3])
        if m in spec.SYNC:
            dq = rot(z, -x[-1])
            return [dq.real, dq.imag] + ([uabc[3]] if m == "EESM" else [])
        return [z, rot(clarke(uabc[3:6]), x[4]) if m == "DFIM" else 0j]

    def step(self, action):
        """Advances one period; returns physical values by state name."""
        us = self.u_sup(self.k)
        ends = self.conv.begin(action)
        rel = 0.0
        self.slices = []
        for e in ends:
            cur = self.currents()
            if self.conv.sensitive(rel) and any(abs(i) < self.zero and (i != 0 or (self.ac and (self.k or rel))) for i in cur):
                self.ambiguous = True  # the sign of a current that is zero up to rounding decides
            lev = self.conv.levels(cur, rel)
            uabc = [v * us for v in lev]
            self.slices.append((rel, e, lev))
            u = self.frame(uabc)
            eps0 = self.y[-1]
            fld = self.field() if self.m in spec.IM else 0.0
            psi0 = math.hypot(self.y[3], self.y[4]) if self.m in spec.IM else 1.0
            self.integrate(self.t + rel, self.t + e, u)
            rel = e
        self.k += 1
        self.t = self.k * self.tau
        return self.observe(uabc, us, eps0, fld, psi0)

    def observe(self, uabc, us, eps0, fld, psi0):
        m, x = self.m, self.y[1:]
        o = {"omega": self.y[0], "torque": self.motor.torque(x), "u_sup": us}
        if not self.ac:
            o.update(zip(spec.MOTORS[m]["cur"], x))
            o.update(zip(spec.MOTORS[m]["volt"], uabc))
            return o
        o["epsilon"] = wrap(x[-1])
        if m in spec.SYNC:
            o["i_sd"], o["i_sq"] = x[0], x[1]
            o.update(zip(("i_a", "i_b", "i_c"), unclarke(rot(complex(x[0], x[1]), x[-1]))))
            o.update(zip(("u_a", "u_b", "u_c"), uabc[:3]))
            u = rot(clarke(uabc[:3]), -eps0)
            o["u_sd"], o["u_sq"] = u.real, u.imag
            if m == "EESM":
                o["i_e"], o["u_e"] = x[2], uabc[3]
            return o
        i_s = complex(x[0], x[1])
        f = self.field()
        o.update(zip(("i_sa", "i_sb", "i_sc"), unclarke(i_s)))
        o.update(zip(("u_sa", "u_sb", "u_sc"), uabc[:3]))
        self.psi_small = min(psi0, math.hypot(x[2], x[3]))
        z = rot(i_s, -f)
        o["i_sd"], o["i_sq"] = z.real, z.imag
        z = rot(clarke(uabc[:3]), -fld)
        o["u_sd"], o["u_sq"] = z.real, z.imag
        if m == "DFIM":
            i_r = self.motor.rotor_current(x)
            z = rot(i_r, -f)
            o["i_rd"], o["i_rq"] = z.real, z.imag
            o.update(zip(("i_ra", "i_rb", "i_rc"), unclarke(rot(i_r, -x[4]))))
            o.update(zip(("u_ra", "u_rb", "u_rc"), uabc[3:6]))
            z = rot(clarke(uabc[3:6]), eps0 - fld)
            o["u_rd"], o["u_rq"] = z.real, z.imag
        return o


def tolerance(cfg):
    """Agreement (relative to the limits) the configured solver promises over some tens of steps."""
    s = cfg.get("solver", {"$": "ScipyOdeSolver"})
    if s["$"] == "EulerSolver":
        return 1e-9
    if s["$"] == "ScipyOdeIntSolver":
        return 1e-5
    if s["$"] == "ScipyOdeSolver":
        return {"lsoda": 2e-4, "vode": 2e-4, "dopri5": 5e-6}.get(s.get("integrator", "dopri5"), 1e-4)
    return {"RK45": 1e-4, "Radau": 1e-4, "DOP853": 1e-3, "LSODA": 2e-2, "BDF": 3e-2}.get(s.get("method", "RK45"), 2e-2)


def mismatch(obs, limits, names, want, tol, model=None, angle_limit=math.pi):
    """First difference between a (normalised) observation and the physical prediction, as text."""
    for n, v, lim in zip(names, obs, limits):
        if n not in want:
            continue
        w = want[n]
        if n == "epsilon":
            d = abs(wrap(v * lim - w))
            # the angle is an integral of the speed
            if not d <= max(tol, 1e-7) * 20:
                return f"{n}: reported {v * lim!r}, equations give {w!r} (difference {d:.3g})"
            continue
        t = tol
        if model is not None and model.m in spec.IM and n[-2:] in ("sd", "sq", "rd", "rq"):
            ps = getattr(model, "psi_small", 1.0)
            if ps < 1e-6:
                continue
            t = tol * (1 + 0.05 / ps)
        w_n = w / lim if lim and math.isfinite(lim) else w
        if not abs(v - w_n) <= t * (1 + abs(w_n)):
            return f"{n}: reported {v!r} (normalised), equations give {w_n!r}"
    return None
