"""C11: probabilistic instructions have the documented distribution (pure-Python simulator)."""
import numpy as np

from checks import dist, refsim
from symx.harness import Job

FUNCTIONS = ("plaquette.device._circuitsim:CircuitSimulator._handle_error", "plaquette.device._circuitsim:CircuitSimulator._handle_gate",
             "plaquette.device._circuitsim:CircuitSimulator._apply_pauli_from_int", "plaquette.device._circuitsim:CircuitSimulator._run_gate")
BOUNDS = {"quick": "listed programs of 1-6 probabilistic instructions on <= 3 data qubits, each data qubit entangled with a reference qubit so that every Pauli is visible; every probability a symbolic real in [0, 1] (sums <= 1)",
          "thorough": "more programs, up to 8 instructions"}
ASSUMPTIONS = ["plaquette.rng.random() is uniform on [0,1); choice/integers/binomial are reduced to it as documented by numpy",
               "probabilities are exact reals, not floats"]
EXPLANATION = "The probability of every path is an exact term in the symbolic parameters; one query per outcome compares the sum with the documented probability."
PRELOAD = ("plaquette.circuit", "plaquette.device", "plaquette.device._circuitsim")


def P(*names):
    return list(names)


# programs: (name, args); strings starting with p are symbolic probabilities
PROGRAMS = {
    "error-X": [("ERROR", "p0", "X", 0)],
    "error-Y": [("ERROR", "p0", "Y", 0)],
    "error-Z": [("ERROR", "p0", "Z", 0)],
    "error-H": [("ERROR", "p0", "H", 0)],
    "error-XX": [("ERROR", "p0", "X", 0, 1)],
    "error-CX": [("ERROR", "p0", "CX", 0, 1)],
    "error-CZ": [("ERROR", "p0", "CZ", 1, 0)],
    "error-M": [("ERROR", "p0", "M", 0)],
    "error-R": [("ERROR", "p0", "R", 0)],
    "error-DEPOLARIZE": [("ERROR", "p0", "DEPOLARIZE", 0, 1)],
    "continue": [("ERROR", "p0", "X", 0), ("ERROR_CONTINUE", "Z", 1), ("ERROR_CONTINUE", "Y", 0)],
    "else": [("ERROR", "p0", "X", 0), ("ERROR_ELSE", "p1", "Y", 1)],
    "else-else": [("ERROR", "p0", "X", 0), ("ERROR_ELSE", "p1", "Y", 0), ("ERROR_ELSE", "p2", "Z", 0)],
    "else-continue": [("ERROR", "p0", "X", 0), ("ERROR_CONTINUE", "Z", 1), ("ERROR_ELSE", "p1", "Y", 0), ("ERROR_CONTINUE", "X", 1)],
    "else-continue-2": [("ERROR", "p0", "X", 0), ("ERROR_ELSE", "p1", "Y", 0), ("ERROR_CONTINUE", "X", 1), ("ERROR_ELSE", "p2", "Z", 0), ("ERROR_CONTINUE", "Y", 1)],
    "else-depolarize": [("ERROR", "p0", "X", 0), ("ERROR_ELSE", "p1", "DEPOLARIZE", 0)],
    "two-blocks": [("ERROR", "p0", "X", 0), ("ERROR", "p1", "Y", 0), ("ERROR_CONTINUE", "Z", 1)],
    "two-blocks-else": [("ERROR", "p0", "X", 0), ("ERROR_ELSE", "p1", "Z", 0), ("ERROR", "p2", "Y", 1), ("ERROR_CONTINUE", "Z", 0)],
    "block-gate-block": [("ERROR", "p0", "X", 0), ("H", 0), ("ERROR", "p1", "Y", 1), ("ERROR_ELSE", "p2", "Z", 1)],
    "block-measure-block": [("ERROR", "p0", "X", 2), ("M", 2), ("ERROR", "p1", "X", 2), ("ERROR_CONTINUE", "M", 2)],
    "erase": [("E_ERASE", "p0", 0)],
    "erase-erase": [("E_ERASE", "p0", 0), ("E_ERASE", "p1", 0)],
    "erase-order": [("E_ERASE", "p0", 1), ("ERROR", "p1", "X", 0), ("E_ERASE", "p2", 0)],
    "erase-measure": [("X", 2), ("M", 2), ("E_ERASE", "p0", 2), ("M", 2)],
    "pauli": [("E_PAULI", "p0", "p1", "p2", 0)],
    "pauli-q1": [("E_PAULI", "p0", "p1", "p2", 1)],
    "pauli-pauli": [("E_PAULI", "p0", "p1", "p2", 0), ("E_PAULI", "p2", "p0", "p1", 0)],
    "pauli2": [("E_PAULI2", *[f"p{i}" for i in range(15)], 0, 1)],
    "pauli2-swapped": [("E_PAULI2", *[f"p{i}" for i in range(15)], 1, 0)],
    "pauli2-in-block": [("ERROR", "p15", "X", 0), ("E_PAULI2", *[f"p{i}" for i in range(15)], 0, 1)],
    "depolarize": [("DEPOLARIZE", 0)],
    "depolarize-list": [("DEPOLARIZE", 1, 0)],
    "depolarize-twice": [("DEPOLARIZE", 0), ("DEPOLARIZE", 0)],
    "all": [("E_ERASE", "p0", 0), ("E_PAULI", "p1", "p2", "p3", 1), ("DEPOLARIZE", 0), ("CX", 0, 1)],
    "measure-random": [("H", 2), ("M", 2), ("M", 2)],
    "reset-entangled": [("R", 0), ("M", 0)],
}
MORE = {
    "erase3": [("E_ERASE", "p0", 0), ("E_ERASE", "p1", 1), ("E_ERASE", "p2", 2)],
    "long-block": [("ERROR", "p0", "X", 0), ("ERROR_CONTINUE", "Z", 1), ("ERROR_ELSE", "p1", "Y", 0), ("ERROR_CONTINUE", "H", 1), ("ERROR_ELSE", "p2", "Z", 0),
                   ("ERROR_CONTINUE", "M", 2), ("ERROR_ELSE", "p3", "X", 1)],
    "pauli-long": [("E_PAULI", "p0", "p1", "p2", 0), ("H", 0), ("E_PAULI", "p3", "p4", "p5", 0), ("CX", 0, 1), ("E_PAULI", "p6", "p7", "p8", 1)],
    "depolarize3": [("DEPOLARIZE", 0, 1, 2)],
    "erase-block": [("ERROR", "p0", "X", 2), ("E_ERASE", "p1", 2), ("M", 2), ("ERROR", "p2", "R", 2), ("M", 2)],
}


def program(env, prog):
    """(gates with parameters filled in, number of qubits)."""
    ps = {}
    groups = []
    gates = []
    for name, *args in prog:
        out = []
        for a in args:
            if isinstance(a, str) and a.startswith("p"):
                if a not in ps:
                    ps[a] = env.real(a, 0, 1)
                out.append(ps[a])
            else:
                out.append(a)
        if name in ("E_PAULI", "E_PAULI2"):
            tot = 0
            for p in out[:3 if name == "E_PAULI" else 15]:
                tot = tot + p
            env.assume(tot <= 1)
        gates.append((name, tuple(out)))
    data = sorted({q for n, *a in prog for q in a if isinstance(q, int)})
    # prefix: entangle qubits 0 and 1 with reference qubits 3 and 4; qubit 2 starts in |0>
    ent = [q for q in data if q in (0, 1)]
    top = max(data) + 1
    pre = []
    for i, q in enumerate(ent):
        pre += [("H", (top + i,)), ("CX", (top + i, q))]
    return pre + gates, top + len(ent)


def one_run(gates):
    from plaquette.circuit import Circuit
    from plaquette.device import Device

    c = Circuit()
    for name, args in gates:
        c.append(name, *args)
    dev = Device("clifford")
    dev.run(c)
    meas, er = dev.get_sample()
    tab = dev.state.tableau
    er = () if er is None else tuple(bool(e) for e in er)
    return refsim.short(refsim.canon_tableau(tab)), tuple(int(m) for m in meas), er


def distribution(env, prog):
    import plaquette

    gates, n = program(env, prog)
    expected = refsim.distribution(refsim.run(gates, n))
    if not env.symbolic:
        dist.replay(env, lambda: one_run(gates), expected, "distribution")
        return
    env.expected = expected
    dist.begin(env)
    rng = plaquette.rng = dist.DistRng(env)
    k = one_run(gates)
    env.check(k in expected, "only documented outcomes occur", repr(k))
    dist.record(env, rng, k)


def finish(env, prog):
    dist.conclude(env, env.expected, "distribution")


def misplaced(env):
    """ERROR_CONTINUE / ERROR_ELSE outside an error block are rejected."""
    from plaquette.circuit import Circuit
    from plaquette.device import Device
    import plaquette
    from symx.harness import Rng

    plaquette.rng = Rng(env)
    c = Circuit()
    p = env.real("p", 0, 1)
    pre = env.pick("pre", ["nothing", "gate", "block-gate", "block-measure", "block-erase", "previous-run"])
    bad = env.pick("bad", ["ERROR_CONTINUE", "ERROR_ELSE"])
    if pre.startswith("block") or pre == "gate":
        if pre != "gate":
            c.append("ERROR", p, "X", 0)
        c.append(*{"gate": ("X", 0), "block-gate": ("H", 0), "block-measure": ("M", 0), "block-erase": ("E_ERASE", p, 0)}[pre])
    dev = Device("clifford")
    if pre == "previous-run":
        # a first run that ends inside a block, then the same simulator starts over
        c.append("ERROR", p, "X", 0)
        dev.run(c)
        c.gates.clear()
    c.append(*((bad, "X", 0) if bad == "ERROR_CONTINUE" else (bad, p, "X", 0)))
    env.raises(ValueError, lambda: dev.run(c), f"{bad} outside a block is rejected ({pre})")


def jobs(tier):
    progs = dict(PROGRAMS)
    if tier == "thorough":
        progs.update(MORE)
    out = [Job("misplaced", misplaced)]
    for k, v in progs.items():
        out.append(Job(f"dist-{k}", distribution, finish=finish, prog=v, timeout=300 if tier == "quick" else 1500, weight=len(v), witnesses=1))
    return out
