"""C19 Monitoring and rendering record faithfully and never interfere."""
import collections
import contextlib
import errno
import io
import math
import os
import re
import shutil
import tempfile

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from gym_electric_motor import visualization as vz
from gym_electric_motor.visualization import motor_dashboard_plots as mp
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure

from .. import parts, spec
from ..core import Skip
from ..drive import Drive, diff

ID = "C19"
COUNT = {"quick": 420, "thorough": 9000}
RULE = ("random drives with one to three dashboards and printers (random plots, window lengths of a few steps, update intervals, render modes, "
        "window and notebook layout), rendered, reset, saved and closed at random moments between steps, resets and failing steps; the points of "
        "every line after an update are compared with the history kept by an independent recorder, printed lines are parsed and compared, and the "
        "trajectory is compared with that of the same environment without monitoring; failing storage while a figure is saved is injected; "
        "non-trivial when at least one updated figure or printed line was judged")
STATES = "kinds of plots x window wraps x resets and violations shown x render mode"
REAL = "environment, dashboards, plots, printers, matplotlib's line objects and (in a part of the runs) its renderer"
STUBS = "pauses; in most runs the rasterisation and the writing of the image file (a small file on simulated storage with injected errors)"
ASSUMPTIONS = ("flux states are not judged on state plots, because the flux observer announces their space in physical units (known finding of C16); "
               "nothing is promised about a dashboard between its updates; rejected actions may count as steps of step plots")
RECHECK = 6


def g_vis(rng, names, n_act):
    if rng.random() < 0.25:
        return {"kind": "printer", "verbose": rng.choice([0, 1, 1, 2, 2]), "freq": rng.choice([1, 1, 2, 3, 7])}
    v = {"kind": "dash", "interval": rng.choice([1, 1, 2, 3, 5, 8, 20]), "width": rng.choice([2, 2, 3, 4, 5, 7, 10, 20, 60, 10000]),
         "mode": rng.choice([None, None, "Figure", "FigureOnce"]), "state": rng.sample(names, rng.choice([0, 1, 1, 2])) if rng.random() < 0.95 else "all",
         "action": rng.choice([[], [], "all", [rng.randrange(n_act)]]), "reward": rng.random() < 0.5,
         "extra": [x for x in ("len", "mean", "viol") if rng.random() < 0.4]}
    if rng.random() < 0.04:
        v["state"], v["action"], v["reward"], v["extra"] = [], [], False, []
    if rng.random() < 0.1:
        v["style"] = rng.choice(["dark_background", "ggplot"])
    return v


def gen(rng, tier):
    cfg = spec.gen_cfg(rng, wrappers=0.3, constraints=0.6, vis=0, ref=0.6, reward=0.3, filter=0.3, solver=0.1, supply=0.1, noise=rng.random() < 0.2)
    names = spec.all_state_names(cfg)
    space = spec.action_space(cfg)
    n_act = 1 if space[0] == "discrete" else len(space[1])
    if rng.random() < 0.6:
        cfg["wrappers"] = list(cfg.get("wrappers", [])) + [{"$": "Spike", "plan": [
            [rng.randint(1, 15), rng.randrange(len(names)), rng.choice([2.0, -1.5, 2.0, 0.5, "nan", "inf"])] for _ in range(rng.randint(1, 3))]}]
    vis = [g_vis(rng, names, n_act) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    ops = [["r", rng.choice([0, 5, 77])]]
    n = rng.randint(5, 70)
    p_r = rng.choice([0.01, 0.05, 0.2])
    p_v = rng.choice([0.02, 0.08, 0.3])
    for a in spec.action_program(rng, space, n, rng.choice([None, 0.1, 1.0])):
        if rng.random() < p_r:
            ops += [["r", rng.choice([None, None, 3])] for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        if rng.random() < p_v:
            r = rng.random()
            i = rng.randrange(len(vis))
            if r < 0.45:
                ops.append(["render"])
            elif r < 0.7:
                ops.append(["force", i])
            elif r < 0.85:
                ops.append(["figs", i])
            else:
                ops.append(["save", i, rng.choice([None, None, "named"]), rng.choice([None, None, "mkdir", "open", "part", "raise", "file"])])
        if rng.random() < 0.03:
            ops.append(["trip", rng.choice(["ref", "reward", "solve"]), a])
        ops.append(["s", a])
    ops += [["force", i] for i in range(len(vis))] + [["render"]]
    if rng.random() < 0.3:
        ops.append(["close"])
    real = rng.random() < (0.03 if tier == "quick" else 0.08)
    return {"cfg": cfg, "vis": vis, "ops": ops, "scale": rng.random() < 0.4, "notebook": rng.random() < 0.2, "real": real}


def shrink(sc):
    from ..run import generic_shrink
    for i in range(len(sc["vis"])):
        if len(sc["vis"]) > 1:
            ops = []
            for op in sc["ops"]:
                if op[0] in ("force", "figs", "save"):
                    if op[1] == i:
                        continue
                    op = [op[0], op[1] - (op[1] > i)] + op[2:]
                ops.append(op)
            yield {**sc, "vis": sc["vis"][:i] + sc["vis"][i + 1:], "ops": ops}
        v = sc["vis"][i]
        for k, w in (("state", []), ("action", []), ("reward", False), ("extra", []), ("style", None)):
            if v.get(k):
                yield {**sc, "vis": sc["vis"][:i] + [{**v, k: w}] + sc["vis"][i + 1:]}
                if isinstance(v[k], list) and len(v[k]) > 1:
                    for j in range(len(v[k])):
                        yield {**sc, "vis": sc["vis"][:i] + [{**v, k: v[k][:j] + v[k][j + 1:]}] + sc["vis"][i + 1:]}
    yield from generic_shrink(sc)


class Storage:
    """The file system below 'savefig' and 'makedirs', with injected errors."""

    def __init__(self, ctx, real):
        self.ctx, self.real, self.fault, self.last = ctx, real, None, None
        self.mk, self.sf = os.makedirs, Figure.savefig
        os.makedirs = self.makedirs
        st = self

        def savefig(fig, path, *a, **k):
            return st.save(fig, path, *a, **k)
        Figure.savefig = savefig

    def makedirs(self, name, *a, **k):
        if self.fault == "mkdir":
            self.fault = None
            self.ctx.fault("directory cannot be created")
            raise OSError(errno.EACCES, "injected", name)
        return self.mk(name, *a, **k)

    def save(self, fig, path, *a, **k):
        f, self.fault = self.fault, None
        self.last = (fig, str(path))
        if f == "open":
            self.ctx.fault("no space for a file")
            raise OSError(errno.ENOSPC, "injected", path)
        if f == "part":
            with open(path, "wb") as h:
                h.write(b"\x89PN")
            self.ctx.fault("torn write")
            raise OSError(errno.ENOSPC, "injected", path)
        if f == "raise":
            self.ctx.fault("rendering backend fails")
            raise parts.Boom("backend")
        if self.real:
            return self.sf(fig, path, *a, **{**k, "dpi": 40})
        with open(path, "wb") as h:
            h.write(b"\x89PNG-simulated")

    def close(self):
        os.makedirs, Figure.savefig = self.mk, self.sf


class Dash:
    """Reference model of one dashboard: the history since the figures were reset."""

    def __init__(self, v, d, sim):
        self.v, self.sim = v, sim
        mode = {None: None, "Figure": vz.render_modes.RenderMode.Figure, "FigureOnce": vz.render_modes.RenderMode.FigureOnce}[v["mode"]]
        cls = {"len": mp.EpisodeLengthPlot, "mean": mp.MeanEpisodeRewardPlot, "viol": mp.CumulativeConstraintViolationPlot}
        self.extra = {x: cls[x]() for x in v["extra"]}
        self.obj = vz.MotorDashboard(mode, state_plots=v["state"], action_plots=v["action"], reward_plot=v["reward"], additional_plots=list(self.extra.values()),
                                     update_interval=v["interval"], time_plot_width=v["width"], style=v.get("style"))
        self.k = 0          # steps since the environment was made
        self.due = False
        self.done = None    # how the last episode ended so far
        self.clear()
        self.updates = 0

    def clear(self):
        self.n = 0
        self.rows, self.acts = [], {}
        self.lines = []      # (t, 'red' | 'blue')
        self.episodes = None
        self.cur = [0, 0.0]
        self.viol = 0
        self.begun, self.at = 0, []   # steps begun; (begun, completed) at each violation

    def empty(self):
        v = self.v
        return not (self.names() or self.actions() or v["reward"] or v["extra"])

    def names(self):
        return spec.all_state_names(self.sim.cfg) if self.v["state"] == "all" else self.v["state"]

    def actions(self):
        if self.v["action"] == "all":
            space = spec.action_space(self.sim.cfg)
            return [0] if space[0] == "discrete" else list(range(len(space[1])))
        return self.v["action"]

    # events of the recorder
    def reset_begin(self):
        if self.done is not None:
            self.lines.append((self.n, "red" if self.done else "blue"))
        self.done = False
        if self.episodes is None:
            self.episodes = []
        else:
            self.episodes.append((self.cur[0], self.cur[1] / self.cur[0] if self.cur[0] else math.nan))
        self.cur = [0, 0.0]

    def step_begin(self, k, a):
        self.acts[self.n] = a
        self.begun += 1

    def step_end(self, k, state, ref, rew, term):
        self.n += 1
        self.rows.append((state, ref, rew))
        self.done = term
        self.cur[0] = k   # (a step that failed after the simulation counts)
        self.cur[1] += rew
        self.viol += bool(term)
        if term:
            self.at.append((self.begun, self.n))
        self.k += 1
        if self.k % self.v["interval"] == 0:
            self.due = True

    # judging
    @staticmethod
    def pts(x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape:
            return f"{x.shape} abscissas for {y.shape} values"
        ok = ~np.isnan(y)
        return sorted(zip(x[ok].tolist(), y[ok].tolist()))

    def compare(self, line, want, what, lim=None):
        ctx = self.sim.ctx
        got = self.pts(line.get_xdata(orig=True), line.get_ydata(orig=True))
        want = sorted((x, y) for x, y in want if y == y)

        def near(p, q):
            return abs(p[0] - q[0]) <= 1e-9 * max(1.0, abs(q[0]), 1e3 * self.sim.d.tau) + 1e-6 * self.sim.d.tau and \
                (p[1] == q[1] or abs(p[1] - q[1]) <= 1e-9 * max(abs(q[1]), 1e-3))
        ctx.check(isinstance(got, list) and len(got) == len(want) and all(near(p, q) for p, q in zip(got, want)), f"shown-{what.split()[0]}",
                  lambda: f"{what} after {self.n} steps, window {self.v['width']}: shown "
                          f"{got if not isinstance(got, list) else [p for p in got if not any(near(p, q) for q in want)][:4]} "
                          f"(of {len(got)} points) instead of {[q for q in want if isinstance(got, list) and not any(near(p, q) for p in got)][:4]} (of {len(want)})")
        ctx.log(what, len(got))
        return got

    def axis_of(self, figs):
        out = {}
        for f in figs:
            for ax in f.axes:
                out[ax.get_ylabel()] = ax
        return out

    def judge(self):
        """The figures have just been updated."""
        sim, ctx, v = self.sim, self.sim.ctx, self.v
        if self.empty():
            return
        tau, w = sim.d.tau, v["width"]
        figs = self.obj._figures
        want_figs = 1 if sim.notebook else sum([bool(set(v["extra"]) & {"len", "mean"}), "viol" in v["extra"],
                                                bool(self.names() or self.actions() or v["reward"])])
        ctx.check(len(figs) == want_figs, "figures", lambda: f"{len(figs)} figures instead of {want_figs}")
        axes = [ax for f in figs for ax in f.axes]
        n_axes = len(self.names()) + len(self.actions()) + bool(v["reward"]) + len(v["extra"])
        ctx.check(len(axes) == n_axes, "figures", lambda: f"{len(axes)} axes instead of {n_axes}")
        labels = collections.defaultdict(list)
        for ax in axes:
            labels[ax.get_ylabel()].append(ax)
        lo = max(0, self.n - w)
        names, u = spec.all_state_names(sim.cfg), sim.d.u
        high = [float(x) for x in u.physical_system.state_space.high]
        low = [float(x) for x in u.physical_system.state_space.low]
        limits, refd = [float(x) for x in u.physical_system.limits], sim.refd

        def pick(label):
            ctx.check(len(labels[label]) == 1, "figures", lambda: f"{len(labels[label])} axes labelled {label!r} of {[a.get_ylabel() for a in axes]}")
            return labels[label][0]

        timed = []
        for s in self.names():
            i = names.index(s)
            ax = pick(mp.StatePlot.state_labels.get(s, s))
            timed.append(ax)
            if s.startswith("psi"):
                continue
            self.compare(ax.lines[0], [((j + 1) * tau, self.rows[j][0][i] * limits[i]) for j in range(lo, self.n)], f"state {s}")
            if s in refd:
                self.compare(ax.lines[1], [((j + 1) * tau, self.rows[j][1][i] * limits[i]) for j in range(lo, self.n)], f"reference {s}")
            # the limits are drawn
            h = [ln.get_ydata(orig=True)[0] for ln in ax.lines if ln.get_linestyle() == "--"]
            ctx.check(any(abs(y - limits[i] * high[i]) <= 1e-6 * abs(limits[i]) + 1e-12 for y in h), "shown-limit",
                      lambda: f"{s}: {h}, limit {limits[i]}, space up to {high[i]}")
            self.scaled(ax, [0, 1] if s in refd else [0])
            self.visible(ax, [0, 1] if s in refd else [0], low[i] * limits[i], high[i] * limits[i])
            if low[i] < 0:
                ctx.check(any(abs(y - limits[i] * low[i]) <= 1e-6 * abs(limits[i]) + 1e-12 for y in h), "shown-limit",
                          lambda: f"{s}: {h}, limit {limits[i]}, space down to {low[i]}")
        for a in self.actions():
            ax = pick(f"Action {a}")
            timed.append(ax)
            n_a = max([x + 1 for x in self.acts], default=0)   # (the action of an aborted step is shown, too)
            self.compare(ax.lines[0], [(j * tau, float(np.ravel(self.acts[j])[a])) for j in self.acts if j >= n_a - w], f"action {a}")
            self.scaled(ax, [0])
            space = spec.action_space(sim.cfg)
            lo_a, hi_a = space[1][a] if space[0] == "box" else (0, space[1] - 1 if space[0] == "discrete" else space[1][a] - 1)
            self.visible(ax, [0], lo_a, hi_a)
        if v["reward"]:
            ax = pick("reward")
            timed.append(ax)
            self.compare(ax.lines[0], [(j * tau, self.rows[j][2]) for j in range(lo, self.n)], "reward")
            self.scaled(ax, [0])
            self.visible(ax, [0], *map(float, u.reward_range))
        for ax in timed:
            for col in ("red", "blue"):
                got = sorted(float(ln.get_xdata(orig=True)[0]) for ln in ax.lines if ln.get_color() == col and ln.get_linestyle() == "-")
                want = sorted(t * tau for t, c in self.lines if c == col)
                ctx.check(len(got) == len(want) and all(abs(x - y) <= 1e-9 + 1e-6 * tau for x, y in zip(got, want)), "shown-marks",
                          lambda: f"{'violations' if col == 'red' else 'resets'} at {got} instead of {want} on {ax.get_ylabel()}")
            x0, x1 = ax.get_xlim()
            ctx.check(x0 <= lo * tau + 1e-6 * tau + 1e-12 and x1 >= self.n * tau - 1e-6 * tau - 1e-12, "view",
                      lambda: f"view {x0, x1} of steps {lo} to {self.n}, tau {tau}")
        ep = self.episodes or []
        for x, label, j in (("len", "Episode Length", 0), ("mean", "Mean Reward Per Step", 1)):
            if x in v["extra"]:
                ax = pick(label)
                self.compare(ax.lines[0], [(n, e[j]) for n, e in enumerate(ep)], f"episode {label}")
                if len(ep) > (x == "mean"):
                    self.visible(ax, [0], -math.inf, math.inf, True, False)
        if "viol" in v["extra"]:
            ax = pick("Cum. No. of Constraint Violations")
            x, y = (np.asarray(z, float) for z in ax.lines[0].get_data(orig=True))
            ctx.check(x.shape == y.shape and y[-1] == self.viol and np.all(np.diff(y) >= 0) and np.all(np.diff(x) >= 0)
                      and len(set(y.tolist())) == self.viol + 1, "shown-violations", lambda: f"{list(zip(x, y))[-4:]}, {self.viol} violations")
            self.visible(ax, [0], -math.inf, math.inf, True, False)
            # The curve rises with the step of each violation, neither earlier nor later.
            for m, at in enumerate(self.at, 1):
                x_m = float(x[int(np.argmax(y >= m))])
                ctx.check(x_m in at and float(np.interp(x_m - 1, x, y)) == m - 1, "shown-violations",
                          lambda: f"violation {m} rises until {x_m}, from {float(np.interp(x_m - 1, x, y))} one step before, "
                                  f"instead of at {at} (steps begun, completed): {list(zip(x, y))[-6:]}")
        ctx.nontrivial = True
        self.updates += 1
        ctx.probe("updates judged")
        ctx.state(len(self.names()), len(self.actions()), bool(v["reward"]), sorted(v["extra"]), self.n // w if w < 10000 else 0,
                  min(len(self.lines), 6), str(v["mode"]), sim.notebook)
        if self.n > w:
            ctx.probe("window wrapped")

    def visible(self, ax, idx, lo, hi, along=False, fixed=True):
        """Values from lo to hi are inside of the visible part of the axis."""
        if fixed and self.sim.scale:
            return
        for ln in (ax.lines[i] for i in idx):
            x, y = (np.asarray(z, float) for z in ln.get_data(orig=True))
            ok = np.isfinite(y) & (y >= lo) & (y <= hi)
            if not ok.any():
                continue
            for what, v, (a, b) in [("values", y[ok], ax.get_ylim())] + [("abscissas", x[ok], ax.get_xlim())] * along:
                tol = 1e-6 * (1e-9 + abs(a) + abs(b))
                self.sim.ctx.check(a < b and a <= v.min() + tol and b >= v.max() - tol, "view",
                                   lambda: f"{what} {v.min(), v.max()} outside of the shown range {a, b} on {ax.get_ylabel()}")

    def scaled(self, ax, idx):
        if not self.sim.scale:
            return
        ys = np.concatenate([np.asarray(ax.lines[i].get_ydata(orig=True), float) for i in idx])
        ys = ys[np.isfinite(ys)]
        if len(ys):
            a, b = ax.get_ylim()
            self.sim.ctx.check(a <= ys.min() + 1e-9 * (1 + abs(ys.min())) and b >= ys.max() - 1e-9 * (1 + abs(ys.max())), "view",
                               lambda: f"scaled to {a, b}, data {ys.min(), ys.max()} on {ax.get_ylabel()}")

    def pending_render(self):
        """The environment (or the dashboard itself) called render."""
        if self.due:
            self.due = False
            self.judge()


class Printer:
    PAT_E = re.compile(r"Episode (\d+)\s+(Constraint Violation! |External Reset. )\s*Number of steps:\s*(-?\d+)\s+Cumulative Reward:\s*(\S+)\s*\n")
    PAT_S = re.compile(r"Episode (\d+) Step\s+(-?\d+) State \[(.*?)\] Reference \[(.*?)\] Reward\s+(\S+) Cumulative Reward\s+(\S+?)\r", re.S)

    def __init__(self, v, d, sim):
        self.v, self.sim = v, sim
        self.obj = vz.ConsolePrinter(verbose=v["verbose"], update_freq=v["freq"])
        self.ended, self.ep, self.run = [], 0, False
        self.k, self.cum, self.done = 0, 0.0, False
        self.state = self.ref = None
        self.rew = math.nan

    def clear(self):
        pass

    def empty(self):
        return False

    def reset_begin(self):
        if self.run:
            self.ended.append((self.ep, self.done, self.k, self.cum))
        self.run = False

    def reset_end(self, state, ref):
        self.state, self.ref, self.rew, self.cum, self.k, self.done, self.run = state, ref, math.nan, 0.0, 0, False, True
        self.ep += 1

    def step_begin(self, k, a):
        self.k = k

    def step_end(self, k, state, ref, rew, term):
        self.k = k
        self.state, self.ref, self.rew, self.done = state, ref, rew, term
        self.cum += rew

    def printed(self, text):
        """Judges the text printed by one render call; returns what is left of it."""
        ctx, v = self.sim.ctx, self.v
        want_e = self.ended if v["verbose"] > 0 else []
        self.ended = []
        want_s = v["verbose"] == 2 and self.k % v["freq"] == 0
        return want_e, want_s

    @staticmethod
    def close(txt, val):
        x = float(txt)
        if x != x or val != val or math.isinf(val):
            return (x != x and val != val) or x == val
        return abs(x - val) <= 5.01e-4 + 1e-9 * abs(val)

    def judge(self, eps, steps):
        ctx = self.sim.ctx
        want_e, want_s = self.printed(None)
        ctx.check(len(eps) == len(want_e), "printed-episodes", lambda: f"{eps} instead of {want_e}")
        for g, e in zip(eps, want_e):
            ctx.check(int(g[0]) == e[0] and g[1].startswith("Constraint") == bool(e[1]) and int(g[2]) == e[2] and self.close(g[3], e[3]), "printed-episodes",
                      lambda: f"{g} instead of {e}")
        ctx.check(len(steps) == int(want_s), "printed-steps", lambda: f"{len(steps)} step lines instead of {int(want_s)} at step {self.k}")
        if want_s and self.state is not None:
            lim = [float(x) for x in self.sim.d.u.physical_system.limits]
            g = steps[0]
            st, rf = g[2].split(), g[3].split()
            ctx.check(int(g[0]) == self.ep and int(g[1]) == self.k and len(st) == len(lim) == len(rf)
                      and all(self.close(a, x * l) for a, x, l in zip(st, self.state, lim)) and all(self.close(a, x * l) for a, x, l in zip(rf, self.ref, lim))
                      and self.close(g[4], self.rew) and self.close(g[5], self.cum), "printed-steps",
                      lambda: f"{g} instead of episode {self.ep}, step {self.k}, {[x * l for x, l in zip(self.state, lim)]}, "
                              f"{[x * l for x, l in zip(self.ref, lim)]}, {self.rew}, {self.cum}")
        if want_e or want_s:
            ctx.nontrivial = True
            ctx.probe("prints judged")


class Feed(parts.Recorder):
    """Feeds the models.  It is the last visualisation, so that it sees an event only after all dashboards."""

    def __init__(self, sim):
        super().__init__()
        self.sim = sim

    def on_reset_begin(self):
        for m in self.sim.models:
            m.reset_begin()

    def on_reset_end(self, state, reference):
        for m in self.sim.models:
            if isinstance(m, Printer):
                m.reset_end(self._c(state), self._c(reference))

    def on_step_begin(self, k, action):
        for m in self.sim.models:
            m.step_begin(k, self._c(action))

    def on_step_end(self, k, state, reference, reward, terminated):
        s, r = self._c(state), self._c(reference)
        for m in self.sim.models:
            m.step_end(k, s, r, float(reward), bool(terminated))

    def on_close(self):
        pass

    def render(self):
        pass


class Sim:
    pass


def play(d, ops, ctx, sim=None):
    """Performs the operations; sim: the monitored environment with its models."""
    u = d.u
    # wrapper objects between us and the visualisations are not used: the operations of the user are called as he does
    for op in ops:
        if op[0] == "r":
            d.reset(op[1])
        elif op[0] == "s":
            if d.terminated:
                continue
            d.step(op[1])
        elif op[0] == "trip":
            if d.terminated:
                continue
            obj, m = {"ref": (u.reference_generator, "get_reference_observation"), "reward": (u.reward_function, "reward"),
                      "solve": (u.physical_system.unwrapped._ode_solver, "integrate")}[op[1]]
            t = parts.Trip(obj, m, 1, "before")
            try:
                d.step(op[2])
            except parts.Boom:
                if ctx:
                    ctx.fault(f"failing {op[1]}")
                if op[1] == "ref":   # (the step may have ended the episode)
                    d.reset()
            finally:
                t.restore()
        elif op[0] == "close":
            if sim is not None:
                sim.close()
            else:
                d.env.close()
        elif sim is not None:
            sim.op(op)
            continue
        if sim is not None:
            sim.after(op)


def install(ctx, sc):
    plt.pause = lambda *_: ctx.probe("pauses")
    plt.show = lambda *_, **__: None
    if not sc["real"]:
        def draw(canvas):
            for ax in canvas.figure.axes:
                for ln in ax.lines:
                    ln.recache(always=True)
        FigureCanvasAgg.draw = draw
    if sc["notebook"]:
        plt.get_backend = lambda: "nbAgg"


def run(sc, ctx):
    matplotlib.use("Agg")
    plain = Drive(sc["cfg"], None, scale_plots=sc["scale"])
    play(plain, sc["ops"], None)
    home, work = os.getcwd(), tempfile.mkdtemp(prefix="gemsim")
    install(ctx, sc)
    st = Storage(ctx, sc["real"])
    try:
        os.chdir(work)
        monitored(sc, ctx, st, plain, work)
    finally:
        st.close()
        os.chdir(home)
        shutil.rmtree(work, ignore_errors=True)
        plt.close("all")


def monitored(sc, ctx, st, plain, work):
    sim = Sim()
    sim.cfg, sim.ctx, sim.scale, sim.notebook = sc["cfg"], ctx, sc["scale"], sc["notebook"]
    sim.models = []
    for v in sc["vis"]:
        sim.models.append(Dash(v, None, sim) if v["kind"] == "dash" else Printer(v, None, sim))
    out = io.StringIO()
    feed = Feed(sim)
    sim.dead = False

    def split(text):
        return Printer.PAT_E.findall(text), Printer.PAT_S.findall(text)

    def renders():
        """env.render()"""
        out.truncate(0)
        out.seek(0)
        with contextlib.redirect_stdout(out):
            d.env.render()
        eps, steps = split(out.getvalue())
        rest = Printer.PAT_S.sub("", Printer.PAT_E.sub("", out.getvalue())).strip()
        ctx.check(rest == "", "printed-noise", lambda: f"unexpected output {rest!r}")
        for m in sim.models:
            if isinstance(m, Dash):
                m.pending_render()
            else:
                ne, ns = len(m.ended) if m.v["verbose"] > 0 else 0, int(m.v["verbose"] == 2 and m.k % m.v["freq"] == 0)
                m.judge(eps[:ne], steps[:ns])
                eps, steps = eps[ne:], steps[ns:]
        ctx.check(not eps and not steps, "printed-noise", lambda: f"unexpected output {eps} {steps}")

    def op(o):
        m = sim.models[o[1]] if len(o) > 1 else None
        if o[0] == "render":
            renders()
        elif isinstance(m, Printer):
            return
        elif o[0] == "force":
            m.obj.force_render()
            m.due = False
            m.judge()
        elif o[0] == "figs":
            m.obj.reset_figures()
            m.clear()
            plt.close("all")
        elif o[0] == "save":
            save(m, o[2], o[3])

    def save(m, name, fault):
        if m.empty():
            return
        if fault == "file" and not os.path.exists("saved_plots"):
            with open("saved_plots", "w") as h:
                h.write("in the way")
            ctx.fault("a file instead of a directory")
        elif fault == "mkdir" and os.path.isdir("saved_plots"):
            shutil.rmtree(os.path.join(work, "saved_plots"))
        st.fault, st.last = (fault if fault != "file" else None), None
        out.truncate(0)
        out.seek(0)
        err = None
        try:
            with contextlib.redirect_stdout(out):
                m.obj.save_to_file(*(["mine"] if name else []))
        except (OSError, parts.Boom, AssertionError) as e:
            err = e
        m.due = False
        blocked = os.path.isfile("saved_plots")
        if err is None:
            ctx.check(st.last is not None and os.path.isfile(st.last[1]) and os.path.dirname(os.path.abspath(st.last[1])) == os.path.join(os.path.realpath(work), "saved_plots")
                      and (not name or os.path.basename(st.last[1]).startswith("mine")), "saved", lambda: f"no file {st.last} in {os.listdir(work)}")
            ctx.check(st.last[0] in m.obj._figures, "saved", "another figure was saved")
            if st.real:
                with open(st.last[1], "rb") as h:
                    ctx.check(h.read(8) == b"\x89PNG\r\n\x1a\n", "saved", "the file is no image")
            ctx.probe("figures saved")
        else:
            expected = fault is not None or blocked or len(m.obj._figures) != 1
            ctx.check(expected, "saved", lambda: f"{type(err).__name__}: {err} without a fault")
        st.fault = None
        if blocked:
            os.remove("saved_plots")
        m.judge()   # the figure is up to date whether or not it could be stored

    def after(o):
        """The dashboards with the render mode 'Figure' have rendered by themselves."""
        if o[0] in ("s", "trip"):
            for m in sim.models:
                if isinstance(m, Dash) and m.v["mode"] == "Figure" and m.due:
                    m.pending_render()

    def close():
        with contextlib.redirect_stdout(out):
            d.env.close()
        for m in sim.models:
            if isinstance(m, Dash) and m.v["mode"] == "FigureOnce":
                m.pending_render()

    sim.op, sim.after, sim.close = op, after, close
    d = sim.d = Drive(sc["cfg"], ctx, visualization=[m.obj for m in sim.models] + [feed], scale_plots=sc["scale"])
    names = spec.all_state_names(sc["cfg"])
    refs = np.asarray(d.u.reference_generator.referenced_states)
    sim.refd = [n for n, x in zip(names, refs) if x]
    play(d, sc["ops"], ctx, sim)
    df = diff(d.trace, plain.trace, 0.0, "monitored against unmonitored")
    ctx.check(df is None, "interference", df)
