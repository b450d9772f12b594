"""C12: the simulator executes circuits instruction by instruction and runs are independent."""
import numpy as np

from checks.C05 import check_measured
from checks.common import (ONE, ZERO, alleq, bor, frame_tableau, gate_row, group_sign, land, land_imp, masked_product, rows_of, sym_tableau,
                           symplectic_ok)
from symx.harness import Job, Rng

FUNCTIONS = ("plaquette.device._circuitsim:CircuitSimulator.__next__", "plaquette.device._circuitsim:CircuitSimulator._handle_gate",
             "plaquette.device._circuitsim:CircuitSimulator.run", "plaquette.device._circuitsim:CircuitSimulator.reset",
             "plaquette.device._circuitsim:CircuitSimulator.process_results", "plaquette.device:Device.run", "plaquette.device:Device.get_sample",
             "plaquette.device:QuantumState")
BOUNDS = {"quick": "one instruction with <= 2 targets (pairs) from every valid tableau on 2 qubits and sampled 3-qubit frames with all signs; histories of <= 3 runs over 7 programs, all draws symbolic",
          "thorough": "as quick with more frames, <= 3 targets, 4-qubit frames, histories of <= 4 runs"}
ASSUMPTIONS = ["plaquette.rng replaced by a stub whose draws are arbitrary values of their range"]
PRELOAD = ("plaquette.circuit", "plaquette.device", "plaquette.device._circuitsim")


def state_of(env, n, frame):
    return sym_tableau(env, n) if frame is None else frame_tableau(env, n, frame)


def step(env, n, gate, k, frame):
    """One instruction, stepped through the iterator from an arbitrary state."""
    import plaquette
    from plaquette.circuit import Circuit
    from plaquette.device._circuitsim import CircuitSimulator

    plaquette.rng = Rng(env)
    env.merge_fn("measure")
    ts = [env.pick(f"t{i}", list(range(n))) for i in range(k)]
    if gate in ("CX", "CZ") and any(ts[i] == ts[i + 1] for i in range(0, k, 2)):
        return env.check(True, "distinct control and target only")
    c = Circuit()
    c.append(gate, *ts)
    c.append("X", n - 1)
    sim = CircuitSimulator(c)
    st = state_of(env, n, frame)
    T = rows_of(st)
    sim.state.tableau = st
    it = iter(sim)
    next(it)
    T2 = rows_of(sim.state.tableau)
    env.check(sim.state.tableau.shape == (2 * n, 2 * n + 1) and sim.n_qubits == n, "the state keeps its size")
    if gate in ("X", "Y", "Z", "H"):
        want = T
        for t in ts:
            want = [gate_row(r, gate, [t], n) for r in want]
    elif gate in ("CX", "CZ"):
        want = T
        for i in range(0, k, 2):
            want = [gate_row(r, gate, ts[i:i + 2], n) for r in want]
    else:
        want = None
    if want is not None:
        env.check(land(*[alleq(a, b) for a, b in zip(T2, want)]), f"{gate} conjugates every row, targets in order")
        env.check(len(sim.meas_results) == 0, "gates yield no results")
    else:
        env.check(symplectic_ok(T2, n), "the tableau is still valid")
        env.check(len(sim.meas_results) == (k if gate == "M" else 0), "one result per measured qubit, none for resets")
        env.check(len(sim.erasure) == 0, "no erasure information")
        c_ = [env.bit(f"coef{i}") for i in range(n)]
        bits, lo, hi = masked_product(T[n:], c_, n)
        g = bits + [hi]
        keep = ONE
        for i, t in enumerate(ts):
            op = [ZERO] * (2 * n + 1)
            op[n + t] = ONE
            if gate == "M":
                op[-1] = sim.meas_results[i]
                keep = keep & (g[t] ^ ONE)
            else:
                keep = keep & (g[t] ^ ONE) & (g[t + n] ^ ONE)
            inn, s = group_sign(T2, op, n)
            env.check(land(inn, s == 0), f"{gate}: qubit {t} is in the reported/reset Z eigenstate")
        inn, s = group_sign(T2, g, n)
        env.check(land_imp(keep, land(inn, s == 0)), f"{gate}: compatible stabilisers survive")
        if gate == "M" and k == 1:
            op = [ZERO] * (2 * n + 1)
            op[n + ts[0]] = ONE
            check_measured(env, T, T2, op, sim.meas_results[0], None, n, "M")
    # the next step is the next instruction, then the circuit ends
    next(it)
    T3 = rows_of(sim.state.tableau)
    env.check(land(*[alleq(a, gate_row(b, "X", [n - 1], n)) for a, b in zip(T3, T2)]), "the second step runs the second instruction")
    env.raises(StopIteration, lambda: next(it), "the iteration ends with the circuit")


PROGS = {
    "bell": [("H", 0), ("CX", 0, 1), ("M", 0), ("M", 1, 0)],
    "block": [("ERROR", "p", "X", 0), ("ERROR_CONTINUE", "X", 1), ("M", 0, 1)],
    "open-block": [("X", 2), ("M", 2, 0), ("ERROR", "p", "X", 0)],
    "else": [("ERROR", "p", "X", 0), ("ERROR_ELSE", "p", "X", 1), ("M", 1, 0)],
    "erase": [("M", 0), ("E_ERASE", "p", 1), ("M", 1)],
    "plain": [("X", 0), ("M", 0, 1)],
    "silent": [("H", 0)],
}


def build(env, names, p):
    from plaquette.circuit import Circuit

    c = Circuit()
    for nm in names:
        for name, *args in PROGS[nm]:
            c.append(name, *[p if a == "p" else a for a in args])
    return c


def snapshot(dev):
    meas, er = dev.get_sample()
    return [m for m in meas], (None if er is None else [e for e in er]), rows_of(dev.state.tableau), meas


def compare(env, a, b, what):
    env.check(len(a[0]) == len(b[0]), f"{what}: number of results")
    env.check(alleq(a[0], b[0]), f"{what}: measurement results")
    env.check((a[1] is None) == (b[1] is None), f"{what}: erasure information present")
    if a[1] is not None:
        env.check(len(a[1]) == len(b[1]), f"{what}: number of erasure entries")
        env.check(alleq(a[1], b[1]), f"{what}: erasure entries")
    env.check(len(a[2]) == len(b[2]), f"{what}: state size")
    env.check(land(*[alleq(x, y) for x, y in zip(a[2], b[2])]), f"{what}: final state")


def same_with_fresh(env, dev, run, ref_run, what):
    """run(dev) must behave like ref_run on a fresh device fed with the same draws."""
    import plaquette
    from plaquette.device import Device

    plaquette.rng = Rng(env, "last")
    run()
    a = snapshot(dev)
    plaquette.rng = Rng(env, "last")
    d2 = Device("clifford")
    ref_run(d2)
    compare(env, a, snapshot(d2), what)


def history(env, first, second, mode):
    """What an earlier run did leaves no trace in a later one."""
    import plaquette
    from plaquette.circuit import CircuitBuilder
    from plaquette.device import Device

    p = env.real("p", 0, 1)
    c1, c2 = build(env, [first], p), build(env, [second], p)
    dev = Device("clifford")
    plaquette.rng = Rng(env, "h")
    dev.run(c1)
    if mode == "again":
        same_with_fresh(env, dev, lambda: dev.run(c1), lambda d: d.run(build(env, [first], p)), "second run of the same circuit")
    elif mode == "other":
        same_with_fresh(env, dev, lambda: dev.run(c2), lambda d: d.run(build(env, [second], p)), "run of another circuit")
    elif mode == "back":
        dev.run(c2)
        same_with_fresh(env, dev, lambda: dev.run(c1), lambda d: d.run(build(env, [first], p)), "return to the first circuit")
    elif mode == "grown":
        for name, args in c2.gates:
            c1.append(name, *args)
        same_with_fresh(env, dev, lambda: dev.run(c1), lambda d: d.run(build(env, [first, second], p)), "run of the circuit after it grew")
    elif mode == "reset":
        dev.reset_backend()
        meas, er = dev.get_sample()
        env.check(len(meas) == 0 and er is None, "reset discards all results")
        n = c1.number_of_qubits
        T = rows_of(dev.state.tableau)
        env.check(len(T) == 2 * n and land(*[alleq(r, [ONE if c == i else ZERO for c in range(2 * n + 1)]) for i, r in enumerate(T)]), "reset prepares the zero state")
    elif mode == "builder":
        same_with_fresh(env, dev, lambda: dev.run(CircuitBuilder(c2)), lambda d: d.run(build(env, [second], p)), "run through a builder")
    elif mode == "step":
        def steps():
            dev.reset_backend()
            for _ in dev:
                pass
        same_with_fresh(env, dev, steps, lambda d: d.run(build(env, [first], p)), "stepping through the circuit")
    elif mode == "dirty":
        # after_reset=False continues from the previous run and keeps its results
        dev.reset_backend()
        plaquette.rng = Rng(env, "last")
        dev.run(c1)
        dev.run(c1, after_reset=False)
        a = snapshot(dev)
        plaquette.rng = Rng(env, "last")
        d2 = Device("clifford")
        d2.run(build(env, [first, first], p))
        compare(env, a, snapshot(d2), "after_reset=False")
    if mode not in ("reset",):
        meas, er = dev.get_sample()
        env.check(meas.ndim == 1, "results are one-dimensional")


MODES = ["again", "other", "back", "grown", "reset", "builder", "step", "dirty"]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for g, ks in (("X", 2), ("Y", 2), ("Z", 2), ("H", 2), ("M", 2), ("R", 2)):
        for k in range(1, ks + 1):
            out.append(Job(f"step-{g}-{k}", step, n=2, gate=g, k=k, frame=None, timeout=600, weight=k * 3))
            for fr in range(2 if not th else 8):
                out.append(Job(f"step3-{g}-{k}-{fr}", step, n=3, gate=g, k=k + (1 if th else 0), frame=fr, timeout=600, weight=k))
    for g in ("CX", "CZ"):
        for k in (2, 4):
            out.append(Job(f"step-{g}-{k}", step, n=2, gate=g, k=k, frame=None, timeout=600, weight=k))
            for fr in range(2 if not th else 8):
                out.append(Job(f"step3-{g}-{k}-{fr}", step, n=3, gate=g, k=k, frame=fr, timeout=600, weight=k))
    for mode in MODES:
        for a in PROGS:
            for b in PROGS if mode in ("other", "back", "grown") else ["plain"]:
                out.append(Job(f"history-{mode}-{a}-{b}", history, first=a, second=b, mode=mode, timeout=300))
    return out
