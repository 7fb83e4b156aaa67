"""User components handed to the environments by the simulator (profiles, soft constraints, faulty components)."""
import gymnasium.spaces
import numpy as np

import gym_electric_motor as gem
from gym_electric_motor.core import Callback
from gym_electric_motor.physical_systems.solvers import OdeSolver
from gym_electric_motor.physical_systems.voltage_supplies import VoltageSupply


class Boom(Exception):
    """Raised by faulty user components."""


class Interrupt(KeyboardInterrupt):
    """Raised by the simulator at an arbitrary line."""


class Sine:
    def __init__(self, a, w, b=0.0, ph=0.0):
        self.a, self.w, self.b, self.ph = a, w, b, ph

    def __call__(self, t, **_):
        return self.b + self.a * np.sin(self.w * t + self.ph)


class StepProfile:
    """Piecewise constant speed profile."""

    def __init__(self, values, dt):
        self.values, self.dt = values, dt

    def __call__(self, t, **_):
        return self.values[min(max(int(t / self.dt + 1e-9), 0), len(self.values) - 1)]


class Soft:
    """Soft constraint: violation degree rises from 0 at lo to 1 at hi."""

    def __init__(self, i, lo, hi):
        self.i, self.lo, self.hi = i, lo, hi

    def __call__(self, state):
        v = abs(state[self.i])
        if v != v:
            return 1.0   # (a constraint has to return a degree within 0..1 for everything)
        return float(min(max((v - self.lo) / (self.hi - self.lo), 0.0), 1.0))


class Const:
    def __init__(self, v):
        self.v = v

    def __call__(self, *_, **__):
        return self.v


FUNCS = {"sine": Sine, "soft": Soft, "profile": StepProfile, "const": Const}


class DipSupply(VoltageSupply):
    """An ideal supply with scheduled dips: [[t0, t1, factor], ...]."""

    def __init__(self, u_nominal=60.0, dips=()):
        super().__init__(u_nominal)
        self.supply_range = (0.0, u_nominal)
        self.dips = [tuple(d) for d in dips]
        self.fired = 0

    def get_voltage(self, t, *_, **__):
        u = self._u_nominal
        for t0, t1, f in self.dips:
            if t0 <= t < t1:
                u = self._u_nominal * f
                self.fired += 1
        return [u]


class StepLoad(gem.physical_systems.PolynomialStaticLoad):
    """Polynomial load with scheduled additional torque pulses with smooth edges: [[t0, t1, torque, edge], ...]."""

    HAS_JACOBIAN = False

    def __init__(self, pulses=(), **kw):
        super().__init__(**kw)
        self.pulses = [tuple(p) for p in pulses]

    def mechanical_ode(self, t, mechanical_state, torque):
        def s(x):
            x = min(max(x, 0.0), 1.0)
            return x * x * (3 - 2 * x)
        extra = sum(m * (s((t - t0) / r) - s((t - t1) / r)) for t0, t1, m, r in self.pulses)
        return super().mechanical_ode(t, mechanical_state, torque - extra)


class Recorder(Callback):
    """Records every event it gets, with copies of the data."""

    def __init__(self, sink=None, name="r"):
        super().__init__()
        self.events = sink if sink is not None else []
        self.name = name

    @staticmethod
    def _c(x):
        if x is None or isinstance(x, (int, float, bool)):
            return x
        return np.array(x, dtype=float).tolist()

    def set_env(self, env):
        super().set_env(env)

    def on_reset_begin(self):
        self.events.append((self.name, "reset_begin"))

    def on_reset_end(self, state, reference):
        self.events.append((self.name, "reset_end", self._c(state), self._c(reference)))

    def on_step_begin(self, k, action):
        self.events.append((self.name, "step_begin", int(k), self._c(action)))

    def on_step_end(self, k, state, reference, reward, terminated):
        self.events.append((self.name, "step_end", int(k), self._c(state), self._c(reference), float(reward),
                            bool(terminated)))

    def on_close(self):
        self.events.append((self.name, "close"))


class Trip:
    """Makes a method of an object raise Boom on its n-th call (1-based) from now on, once; then restores it."""

    def __init__(self, obj, method, n, when="before"):
        self.obj, self.method, self.n, self.when = obj, method, n, when
        self.fired = self.off = False
        self.orig = getattr(obj, method)
        self.had = method in vars(obj)
        setattr(obj, method, self._call)

    def _call(self, *a, **k):
        if self.fired or self.off:
            return self.orig(*a, **k)
        self.n -= 1
        if self.n == 0 and self.when == "before":
            self._fire()
        r = self.orig(*a, **k)
        if self.n == 0:
            self._fire()
        return r

    def _fire(self):
        self.fired = True
        self.restore()
        raise Boom(f"{type(self.obj).__name__}.{self.method}")

    def restore(self):
        self.off = True
        if not self.had and self.method in vars(self.obj):
            delattr(self.obj, self.method)
        elif self.had:
            setattr(self.obj, self.method, self.orig)


class Mean:
    """Merge rule: the mean of the violation degrees."""

    def __call__(self, v):
        return float(np.mean(v))


FUNCS["mean"] = Mean


class Spike(gem.physical_system_wrappers.PhysicalSystemWrapper):
    """Sensor fault: overwrites entries of the state at chosen steps of each episode.  plan: [[step, index, value], ...]

    value: number or "nan", "inf", "-inf", or ["*", factor]"""

    def __init__(self, plan=(), physical_system=None):
        self.plan = {}
        for k, i, v in plan:
            self.plan.setdefault(int(k), []).append((int(i), v))
        self.fired = 0
        super().__init__(physical_system)

    def reset(self):
        self._n = 0
        return super().reset()

    def simulate(self, action):
        s = super().simulate(action)
        self._n += 1
        if self._n in self.plan:
            s = np.array(s, dtype=float)
            for i, v in self.plan[self._n]:
                s[i % len(s)] = s[i % len(s)] * v[1] if isinstance(v, (list, tuple)) else float(v)
            self.fired += 1
        return s


class CountRef(gem.reference_generators.SubepisodedReferenceGenerator):
    """Reference generator whose reference is constant within each of its sub episodes and unique to it."""

    def __init__(self, ident=0, **kw):
        super().__init__(**kw)
        self.ident, self.n, self.resets = ident, 0, 0
        self.codes = {}

    def reset(self, *a, **k):
        self.resets += 1
        return super().reset(*a, **k)

    def _reset_reference(self):
        self.n += 1
        v = (self.ident + 1) * 0.05 + self.n * 1e-6
        self.codes[v] = (self.ident, self.resets, self.n)
        self._reference = np.full(self._current_episode_length, v)


class SpySolver(OdeSolver):
    """Delegates to another solver, records every call and compares the Jacobian with differences of the equation."""

    def __init__(self, inner, want_jac=False, kinks=(0.0,)):
        self.kinks = kinks
        self.inner, self.want_jac = inner, want_jac
        self.calls, self.bad, self.checked, self.jac = [], None, 0, None

    t = property(lambda self: self.inner.t)
    y = property(lambda self: self.inner.y)

    def set_system_equation(self, system_equation, jac=None):
        self.eq, self.jac = system_equation, jac
        self.inner.set_system_equation(system_equation, jac)

    def set_initial_value(self, initial_value, t=0):
        self.calls.append(("init", float(t), np.array(initial_value, float)))
        self.inner.set_initial_value(initial_value, t)

    def set_f_params(self, *args):
        self.par = args
        self.inner.set_f_params(*args)

    def integrate(self, t):
        t0 = self.inner.t
        if self.want_jac and self.jac is not None and self.bad is None:
            self._compare(t0, np.array(self.inner.y, float))
        y = self.inner.integrate(t)
        self.calls.append(("int", float(t0), float(t), np.array(self.par[0], float).ravel(), np.array(y, float), float(self.inner.t)))
        return y

    def _compare(self, t, y):
        n = len(y)
        h = 1e-3 * np.maximum(1.0, np.abs(y))
        if any(abs(abs(y[0]) - k) < 3 * h[0] for k in self.kinks) or not np.all(np.isfinite(y)):
            return   # (the static friction is not differentiable there)
        f = np.array(self.eq(t, y.copy(), *self.par), float)
        j = np.array(self.jac(t, y.copy(), *self.par), float)
        d = np.empty((n, n))
        for k in range(n):
            e = np.zeros(n)
            e[k] = h[k]
            d[:, k] = (np.array(self.eq(t, y + e, *self.par), float) - np.array(self.eq(t, y - e, *self.par), float)) / (2 * h[k])
        self.checked += 1
        tol = 1e-5 * (np.abs(j) + np.abs(d)) + 1e-10 * (np.abs(f)[:, None] + 1) / h[None, :]
        if j.shape != d.shape or not np.all(np.abs(j - d) <= tol):
            k = tuple(int(x) for x in np.argwhere(np.abs(j - d) > tol)[0]) if j.shape == d.shape else None
            self.bad = f"jacobian entry {k}: {j if k is None else j[k]}, difference quotient {d if k is None else d[k]} at {y}, u {self.par}"


class Tap(gem.physical_system_wrappers.PhysicalSystemWrapper):
    """Records copies of what passes between two wrappers."""

    def __init__(self, sink=None, ident=0, physical_system=None):
        self.sink, self.ident = sink if sink is not None else [], ident
        super().__init__(physical_system)

    def reset(self, **kwargs):
        s = super().reset(**kwargs)
        self.sink.append(("r", np.array(s, dtype=float)))
        return s

    def simulate(self, action):
        s = super().simulate(action)
        self.sink.append(("s", np.array(s, dtype=float)))
        return s


class LiveSupply(VoltageSupply):
    """An ideal supply whose voltage the simulator scales between control steps."""

    def __init__(self, u_nominal=60.0):
        super().__init__(u_nominal)
        self.supply_range = (0.0, u_nominal)
        self.factor = 1.0

    def get_voltage(self, t, *_, **__):
        return [self._u_nominal * self.factor]


class LiveLoad(gem.physical_systems.PolynomialStaticLoad):
    """Polynomial load with an additional torque that the simulator sets between control steps."""

    HAS_JACOBIAN = False
    extra = 0.0

    def mechanical_ode(self, t, mechanical_state, torque):
        return super().mechanical_ode(t, mechanical_state, torque - self.extra)


class LiveSpeed(gem.physical_systems.PolynomialStaticLoad):
    """A drive train whose speed the simulator sets between control steps (followed with a lag)."""

    HAS_JACOBIAN = False
    target, lag = 0.0, 1e-3

    def mechanical_ode(self, t, mechanical_state, torque):
        return np.array([(self.target - mechanical_state[self.OMEGA_IDX]) / self.lag])


class Program(gem.ReferenceGenerator):
    """Reference that the simulator sets between control steps (in the order of the states)."""

    def __init__(self, names=(), values=()):
        super().__init__()
        self.names, self.values = list(names), list(values)

    def set_modules(self, physical_system):
        super().set_modules(physical_system)
        names = list(physical_system.state_names)
        self._referenced_states = np.array([n in self.names for n in names])
        self.order = sorted(range(len(self.names)), key=lambda j: names.index(self.names[j]))
        low, high = physical_system.state_space.low, physical_system.state_space.high
        self.reference_space = gymnasium.spaces.Box(low[self._referenced_states], high[self._referenced_states],
                                                    dtype=np.float64)

    def _now(self):
        return np.array([self.values[j] for j in self.order], float)

    def get_reference(self, state, *_, **__):
        out = np.zeros_like(np.asarray(state, float))
        out[self._referenced_states] = self._now()
        return out

    def get_reference_observation(self, *_, **__):
        return self._now()

    def reset(self, initial_state=None, initial_reference=None):
        return self.get_reference(initial_state), self._now(), None
