"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over {}, judged by {}"
WHAT = {
    "C01": ("construction orders, interleavings, interrupts, forks and seeds", "bitwise comparison of repeated executions"),
    "C02": ("histories, interruptions and raising components before a reset", "comparison with a freshly built twin"),
    "C03": ("schedules of several environments in one process and in threads", "comparison with each environment alone"),
    "C04": ("call sequences with misuse, component failures and sensor spikes", "a protocol automaton, constraint oracle and a twin"),
    "C05": ("call sequences, raising callbacks and refused actions", "the driver's own log of calls and results"),
    "C06": ("drives, histories, resets and supply faults", "announced layout and frame definitions"),
    "C07": ("reference generator trees, wrappers, histories and resets", "recorded history against reference definitions"),
    "C08": ("switching histories, current signs, interlocking and instants", "reference models of half bridges and power balance"),
    "C09": ("legal and illegal actions in histories", "refusal rules and twin environments"),
    "C10": ("action delays, stacked processors, resets and reused buffers", "a queue reference model and an undelayed twin"),
    "C11": ("drives, action histories, supply dips, load pulses and resets", "an independent executable model and energy balance"),
    "C12": ("solvers, Jacobians, sub-steps and action histories", "agreement between solvers and clocks"),
    "C13": ("supplies, load current histories and resets", "executable supply laws"),
    "C14": ("loads, torque histories, torque pulses and resets", "executable load laws and invariants"),
    "C15": ("sensor spikes, non-finite values, disturbances and constraint sets", "a constraint oracle per step"),
    "C16": ("wrapper stacks, drives, histories and resets", "unwrapped twin and definitions of derived entries"),
    "C17": ("drives, rotation, dead times, stacks and resets", "dq definition of observed voltages"),
    "C18": ("reward configurations, histories and violating steps", "an executable reward definition"),
    "C19": ("plots, render schedules, episodes and file-system faults", "recorded history and an unobserved twin"),
    "C20": ("histories with kept, overwritten and reused arrays", "snapshots and an undisturbed twin"),
    "C21": ("controllers, state and reference histories, sensor faults and resets", "admissibility and a freshly designed twin"),
    "C22": ("closed loops with supply dips, lost and repeated actions, sensor glitches", "bounded recovery after the last fault"),
    "C23": ("motor parameters, speeds, torque references, supply dips and link faults", "the machine equations and a search for the best operating point"),
    "C24": ("drives, reference programs, speed changes, steps of the other currents and earlier episodes", "a sampled model of the designed loop and an undisturbed twin"),
    "C25": ("initialisers, seeds, lengths and ends of many episodes", "configured ranges and distributions with bounded error probability"),
    "C26": ("drives, controller settings, state and reference histories, closed loops, sensor glitches and resets", "an independent executable model of the cascade"),
}
NOTE = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "sim", "props", i.lower() + ".py")):
            a, b = WHAT[i]
            checks.append({
                "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                "technique": TECH.format(a, b), "level": "exploration",
                "level_note": NOTE.get(i, "Seeded search, not exhaustive: every simulated run executes the real packages from "
                                       "/repo/src in one process; each violation is confirmed by replaying its minimised "
                                       "scenario in a fresh process. Trusted: the simulator, the oracle in "
                                       f"sim/props/{i.lower()}.py, CPython, numpy, scipy, gymnasium.")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: all seams used are public constructor arguments and subclassing."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
