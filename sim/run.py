"""Driver of the checks:  run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--count N] [--only I]

Every scenario is generated from random.Random(f"{seed}:{property}:{index}") and executed in a process forked from
a pristine one, so that a scenario is exactly repeatable on its own.
"""
import argparse
import collections
import importlib
import json
import os
import random
import selectors
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from sim import boot  # noqa: E402,F401
from sim import core, spec  # noqa: E402

WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
SC_TIMEOUT = 90


def gen(mod, seed, i, tier):
    rng = random.Random(f"{seed}:{mod.ID}:{i}")
    sc = mod.gen(rng, tier)
    sc["prop"], sc["i"], sc["seed"] = mod.ID, i, seed
    return sc


def execute(mod, sc):
    """Runs one scenario in this process.  Returns the result record."""
    ctx = core.Ctx()
    t0 = time.time()
    viol = None
    skip = False
    core.seed_entropy(f"{mod.ID}:{sc.get('i')}")
    try:
        mod.run(sc, ctx)
    except core.Violation as v:
        viol = {"cls": v.cls, "msg": v.msg[:2000], "key": v.key}
    except core.Skip:
        skip = True
    except core.ChildError as e:
        viol = {"cls": f"crash:{e.name}", "msg": (e.msg + "\n" + e.tb)[:3000], "key": None}
    except BaseException as e:
        viol = {"cls": f"crash:{type(e).__name__}", "msg": "".join(traceback.format_exception(e, limit=-8))[-3000:],
                "key": None}
    return {"i": sc.get("i"), "viol": viol, "skip": skip, "hash": ctx.h.hexdigest(), "steps": ctx.steps,
            "resets": ctx.resets, "sim": ctx.sim_time, "faults": dict(ctx.faults), "probes": dict(ctx.probes),
            "states": list(ctx.states), "nt": bool(ctx.nontrivial), "known": ctx.known, "t": time.time() - t0,
            "tail": repr(list(ctx.tail))[-1500:] if viol else ""}


class Pool:
    """Runs scenarios in forked children, at most WORKERS at a time."""

    def __init__(self, mod, workers=WORKERS):
        self.mod, self.workers = mod, workers
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def start(self, sc):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                os.setpgid(0, 0)
                res = execute(self.mod, sc)
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(res).encode())
            finally:
                os._exit(0)
        os.close(w)
        self.live[r] = [pid, sc, time.time(), b""]
        self.sel.register(r, selectors.EVENT_READ)

    def wait(self):
        """Yields finished (scenario, result)."""
        out = []
        for key, _ in self.sel.select(timeout=0.2):
            r = key.fd
            d = os.read(r, 1 << 20)
            if d:
                self.live[r][3] += d
                continue
            pid, sc, _, data = self.live.pop(r)
            self.sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            self._kill(pid)
            if data:
                out.append((sc, json.loads(data)))
            else:
                out.append((sc, self._dead(sc, "crash:died", "the process executing the scenario died")))
        for r in list(self.live):
            pid, sc, t, _ = self.live[r]
            if time.time() - t > SC_TIMEOUT:
                self._kill(pid)
                os.waitpid(pid, 0)
                self.sel.unregister(r)
                os.close(r)
                del self.live[r]
                out.append((sc, self._dead(sc, "hang", f"no end after {SC_TIMEOUT} s")))
        return out

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass

    @staticmethod
    def _dead(sc, cls, msg):
        return {"i": sc.get("i"), "viol": {"cls": cls, "msg": msg, "key": None}, "skip": False, "hash": "", "steps": 0,
                "resets": 0, "sim": 0.0, "faults": {}, "probes": {}, "states": [], "nt": False, "known": [],
                "t": SC_TIMEOUT, "tail": ""}

    def stop(self):
        for r in list(self.live):
            pid = self.live[r][0]
            self._kill(pid)
            os.waitpid(pid, 0)
            os.close(r)
            self.sel.unregister(r)
        self.live = {}

    def one(self, sc):
        self.start(sc)
        while True:
            for _, res in self.wait():
                return res


# ------------------------------------------------------------------------------------------------ minimising
def generic_shrink(sc):
    """Simpler candidates of a scenario: shorter lists, simpler configuration."""
    for key in ("ops", "faults", "acts"):
        lst = sc.get(key)
        if isinstance(lst, list) and lst:
            n = len(lst)
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    cut = lst[:a] + lst[a + size:]
                    if len(cut) < n:
                        c = dict(sc)
                        c[key] = cut
                        yield c
                size //= 2
                if size and n / size > 16:
                    break
    for key in ("cfg",):
        if isinstance(sc.get(key), dict):
            for cfg in spec.simplify_cfg(sc[key]):
                c = dict(sc)
                c[key] = cfg
                yield c
    if isinstance(sc.get("cfgs"), list):
        for j, cfg in enumerate(sc["cfgs"]):
            for s in spec.simplify_cfg(cfg):
                c = dict(sc)
                c["cfgs"] = sc["cfgs"][:j] + [s] + sc["cfgs"][j + 1:]
                yield c


def minimise(mod, sc, viol, budget=25.0, tries=400):
    pool = Pool(mod)
    end = time.time() + budget
    shrink = getattr(mod, "shrink", generic_shrink)
    best, bestv = sc, viol
    n = 0
    improved = True
    while improved and time.time() < end and n < tries:
        improved = False
        it = iter(shrink(best))
        batch = []
        exhausted = False
        while not exhausted and time.time() < end and n < tries and not improved:
            while len(pool.live) < pool.workers and not exhausted:
                try:
                    cand = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pool.start(cand)
                n += 1
            while pool.live and (exhausted or len(pool.live) >= pool.workers) and time.time() < end + 5:
                for c, res in pool.wait():
                    v = res["viol"]
                    if v and v["cls"] == viol["cls"] and v.get("key") == viol.get("key"):
                        batch.append((c, v))
                if batch:
                    break
            if batch:
                batch.sort(key=lambda cv: len(json.dumps(cv[0])))
                if len(json.dumps(batch[0][0])) < len(json.dumps(best)):
                    best, bestv = batch[0]
                    improved = True
                batch = []
        pool.stop()
    pool.stop()
    return best, bestv, n


def fresh(args, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__)] + args, env=e,
                          capture_output=True, text=True, timeout=timeout)


def load_known(prop):
    out = {}
    p = os.path.join(ROOT, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out[d["key"]] = d
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier_pos", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--hashes")
    ap.add_argument("--count", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--all", action="store_true", help="go on after a violation and list all")
    a = ap.parse_args()
    tier = a.tier_pos or a.tier
    tier = tier if tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module(f"sim.props.{a.prop.lower()}")
    if a.replay:
        sc = json.load(open(a.replay))["scenario"]
        res = Pool(mod).one(sc)
        for k, msg in res["known"]:
            if k not in load_known(mod.ID) and not res["viol"]:
                res["viol"] = {"cls": k, "msg": msg, "key": k}
        print(json.dumps(res, indent=1))
        if res["viol"]:
            print(f"VIOLATION property={mod.ID} replay={a.replay}")
            sys.exit(1)
        sys.exit(0)
    if a.hashes:
        pool = Pool(mod, 2)
        todo = [int(x) for x in a.hashes.split(",")]
        out = {}
        while todo or pool.live:
            while todo and len(pool.live) < 2:
                pool.start(gen(mod, a.seed, todo.pop(0), tier))
            for sc, res in pool.wait():
                out[res["i"]] = res["hash"]
        print(json.dumps(out))
        return
    if a.only is not None:
        sc = gen(mod, a.seed, a.only, tier)
        print(json.dumps(sc)[:4000])
        res = Pool(mod).one(sc)
        res["states"] = len(res["states"])
        print(json.dumps(res, indent=1))
        if res["viol"]:
            print(res["viol"]["msg"])
        return
    sys.exit(check(mod, a, tier))


def check(mod, a, tier):
    t0 = time.time()
    known = load_known(mod.ID)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    count = a.count or mod.COUNT[tier]
    cap = getattr(mod, "CAP", {"quick": 60, "thorough": 780})[tier]
    pool = Pool(mod)
    stats = collections.Counter()
    faults, probes, states = collections.Counter(), collections.Counter(), set()
    hashes, nthash = {}, set()
    samples, viols, known_seen = [], [], {}
    slow = []
    # a sample is executed again in another interpreter with another hash seed
    nre = getattr(mod, "RECHECK", 6)
    re_idx = [int(x * count / nre) for x in range(nre)] if nre and not a.all else []
    re_p = None
    if re_idx:
        env = dict(os.environ, PYTHONHASHSEED="4242", SIM_NOISE="1")
        re_p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), mod.ID, tier, "--seed",
                                 str(a.seed), "--hashes", ",".join(map(str, re_idx))], env=env,
                                stdout=subprocess.PIPE, text=True)
    fixed = list(getattr(mod, "probes", lambda: [])())
    queue = [dict(s, prop=mod.ID, i=-1 - j, seed=a.seed) for j, s in enumerate(fixed)]
    nxt = 0

    def account(sc, res):
        stats["n"] += 1
        stats["steps"] += res["steps"]
        stats["resets"] += res["resets"]
        stats["sim_us"] += int(res["sim"] * 1e6)
        stats["skip"] += res["skip"]
        faults.update(res["faults"])
        probes.update(res["probes"])
        states.update(res["states"])
        hashes[res["i"]] = res["hash"]
        if res["nt"] and not res["skip"]:
            nthash.add(res["hash"])
        slow.append((res["t"], res["i"]))
        v = res["viol"]
        for k, msg in res["known"]:
            if k in known:
                known_seen.setdefault(k, res["i"])
            elif v is None:   # recognised, but not on the list
                v = res["viol"] = {"cls": k, "msg": msg, "key": k}
        if v is None:
            if len(samples) < 3 and res["nt"]:
                samples.append({"scenario": json.loads(json.dumps(sc)), "result": {k: res[k] for k in
                               ("hash", "steps", "resets", "faults")}})
            return
        if v.get("key") and v["key"] in known:
            known_seen.setdefault(v["key"], res["i"])
            return
        viols.append((sc, res))

    while True:
        stop = (viols and not a.all) or time.time() - t0 > cap
        while not stop and len(pool.live) < pool.workers and (queue or nxt < count):
            if queue:
                pool.start(queue.pop(0))
            else:
                pool.start(gen(mod, a.seed, nxt, tier))
                nxt += 1
        if not pool.live:
            break
        for sc, res in pool.wait():
            account(sc, res)
    truncated = nxt < count and not viols

    mism = []
    if re_p is not None:
        try:
            out, _ = re_p.communicate(timeout=300)
            other = {int(k): v for k, v in json.loads(out or "{}").items()}
            mism = [i for i in re_idx if i in hashes and i in other and hashes[i] != other[i]]
            stats["recheck"] = len([i for i in re_idx if i in other and i in hashes])
        except Exception as e:  # noqa
            print("recheck failed:", e)
            re_p.kill()
    if mism and os.environ.get("SIM_DEBUG"):
        print("mismatch", mism)
    if mism and getattr(mod, "RECHECK_IS_VIOLATION", False) and not viols:
        i = mism[0]
        sc = gen(mod, a.seed, i, tier)
        sc["cross"] = True
        viols.append((sc, {"i": i, "viol": {"cls": "cross-process", "key": None, "msg":
                     "the same scenario gives another history in an interpreter with another hash seed"}, "tail": ""}))

    for k, d in known.items():
        if k in known_seen:
            print(f"KNOWN-FINDING: property={mod.ID} {d['what']}")
    rc = 0
    nviol = 0
    if a.all:
        agg = collections.Counter((r["viol"]["cls"]) for _, r in viols)
        print("violations:", dict(agg))
        seen = set()
        for sc, r in sorted(viols, key=lambda x: x[1]["i"]):
            if r["viol"]["cls"] not in seen:
                seen.add(r["viol"]["cls"])
                print("---", r["i"], r["viol"]["cls"], r["viol"]["msg"][-1500:], json.dumps(sc.get("cfg", ""))[:700])
        rc = 1 if viols else 0
    elif viols:
        viols.sort(key=lambda x: x[1]["i"] if x[1]["i"] >= 0 else 10**9)
        for sc, res in viols[:3]:
            v = res["viol"]
            ok, best, bestv, tries = confirm(mod, a, sc, v, evdir)
            path = os.path.join(evdir, f"{mod.ID}.replay.json")
            if ok:
                nviol += 1
                rc = 1
                print(f"{bestv['cls']}: {bestv['msg'][:1500]}")
                print(f"VIOLATION property={mod.ID} replay={path}")
                break
            stats["unreproduced"] += 1
            print(f"not reproduced in a fresh process (ignored): scenario {res['i']} {v['cls']} {v['msg'][:300]}")
    wall = time.time() - t0
    ev = {
        "property": mod.ID, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": stats["n"], "distinct_nontrivial": len(nthash), "rule": mod.RULE,
            "samples": samples or [{"note": "no passing non-trivial scenario in this run"}],
            "runs": stats["n"], "runs_per_hour": round(stats["n"] / max(wall, 1e-3) * 3600),
            "seeds": f"{a.seed}:{mod.ID}:0..{nxt - 1}", "scenario_seeds_used": nxt,
            "env_steps": stats["steps"], "env_resets": stats["resets"],
            "simulated_seconds": stats["sim_us"] / 1e6,
            "faults_fired": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "distinct_states": len(states),
            "distinct_states_measure": getattr(mod, "STATES", "configuration class x observation quantised to fifths "
                                               "of the limits (and schedule points where threads are used)"),
            "distinct_histories": len(set(hashes.values())),
            "reexecuted_in_other_interpreter": stats["recheck"], "reexecution_mismatches": len(mism),
            "unreproduced": stats["unreproduced"], "skipped": stats["skip"], "stopped_by_wall_cap": truncated,
            "real": getattr(mod, "REAL", "gym_electric_motor from /repo/src, gymnasium, numpy, scipy"),
            "stubs": getattr(mod, "STUBS", "none; surroundings only (actions, callbacks, profiles)"),
            "known_findings_seen": known_seen,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(evdir, f"{mod.ID}.json"), "w"), indent=1, default=str)
    slow.sort(reverse=True)
    print(f"{mod.ID} {tier}: {stats['n']} runs ({len(nthash)} distinct non-trivial), {stats['steps']} steps, "
          f"faults {sum(faults.values())}, states {len(states)}, skipped {stats['skip']}, recheck {stats['recheck']}"
          f"/{len(mism)} mismatches, {wall:.1f} s, slowest {slow[0][0] if slow else 0:.1f} s (#{slow[0][1] if slow else '-'})"
          + (" TRUNCATED" if truncated else ""))
    return rc


def confirm(mod, a, sc, v, evdir):
    """Minimises, writes the replay file and replays it in a fresh process."""
    best, bestv, tries = (sc, v, 0)
    if not sc.get("cross") and v["cls"] != "hang":
        best, bestv, tries = minimise(mod, sc, v)
    path = os.path.join(evdir, f"{mod.ID}.replay.json")
    for cand, cv in ((best, bestv), (sc, v)):
        json.dump({"property": mod.ID, "violation": cv, "scenario": cand, "minimiser_runs": tries,
                   "original_scenario": sc["i"], "how": f"./check {mod.ID} --replay {path}"},
                  open(path, "w"), indent=1)
        for _ in range(2):
            if cand.get("cross"):
                return True, cand, cv, tries
            r = fresh([mod.ID, "--replay", path], timeout=300)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return True, cand, cv, tries
        if cand is sc:
            break
    return False, sc, v, tries


if __name__ == "__main__":
    main()
