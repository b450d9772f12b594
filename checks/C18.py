"""C18: generated QEC circuits measure the code's operators and inject exactly the configured errors."""
import warnings

import numpy as np

from checks import affine
from checks.codetools import lattice_rows, make
from checks.common import ONE, ZERO, alleq, anticommute, land, xorsum
from symx.harness import Job

FUNCTIONS = ("plaquette.circuit.generator:QECCircuitGenerator.__init__", "plaquette.circuit.generator:QECCircuitGenerator.get_circuit",
             "plaquette.circuit.generator:QECCircuitGenerator.measure_op", "plaquette.circuit.generator:QECCircuitGenerator.measure_logical_ops",
             "plaquette.circuit.generator:QECCircuitGenerator.measure_stabgens_pl", "plaquette.circuit.generator:QECCircuitGenerator.measure_stabgens_seq",
             "plaquette.circuit.generator:QECCircuitGenerator.apply_dataqubit_errors", "plaquette.circuit.generator:QECCircuitGenerator.apply_measurement_error",
             "plaquette.circuit.generator:QECCircuitGenerator.apply_gate_and_error", "plaquette.circuit.generator:QECCircuitGenerator.get_gate_error",
             "plaquette.device:MeasurementSample.from_code_and_raw_results", "plaquette.errors:ErrorData.check_against_code",
             "plaquette.codes.latticebase:CodeLattice.assign_stab_edge_order")
BOUNDS = {"quick": "five-qubit, Shor, repetition 3-5, planar 2-4, rotated and XZZX 3-5, toric 2-3, fabricated planar/rotated; 1-3 rounds; every measured set of logical operators; "
                   "every Pauli error pattern on every data qubit in every round, every measurement error, every random outcome; error probabilities symbolic reals, presence of entries on two sites at a time symbolic (gate errors; Pauli, erasure and measurement errors)",
          "thorough": "also planar 5, rotated 6, toric 4, 4 rounds"}
ASSUMPTIONS = ["generated circuits are read by the documented semantics of their instructions (an independent stabiliser simulation with symbolic signs); C01, C05, C11, C12 relate the simulator to the same semantics",
               "where results are unpacked, erasure errors are given for all data qubits or none (otherwise unpacking raises, as documented)",
               "codes with Pauli Y factors are documented as unsupported: raising is accepted"]
EXPLANATION = "the x/z frame of the simulation is concrete; all signs, outcomes and injected errors are symbolic bits"
ERR = {"E_PAULI", "E_PAULI2", "E_ERASE", "ERROR", "ERROR_ELSE", "ERROR_CONTINUE"}


def zero(args):
    return all((not hasattr(a, "z")) and a == 0 for a in args)


def gates_of(circ):
    return [(g, tuple(a)) for g, a in circ.gates]


def build(kind, d, rounds, fab):
    code = make(kind, d, rounds)
    if fab:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code.apply_fabrication_errors(faulty_qubits=list(fab))
    return code


def selections(k, which):
    """Selections of logical operators, as strings or index lists."""
    out = ["X" * k, "Z" * k]
    if k > 1:
        out += ["XZ" + "X" * (k - 2), "ZX" + "Z" * (k - 2)]
    out += [[2 * i for i in range(k)], [2 * i + 1 for i in range(k)]]
    return out[which]


def qec(env, kind, d, rounds, sel, ancilla, fab=None, errors=("pauli", "measurement")):
    """Syndrome and toggles of the circuit against commutators with the injected errors."""
    from plaquette.circuit.generator import QECCircuitGenerator, generate_qec_circuit
    from plaquette.device import MeasurementSample

    code = build(kind, d, rounds, fab)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    S, L = lattice_rows(code.lattice)
    logical = selections(k, sel)
    chosen = [2 * i + (c == "Z") for i, c in enumerate(logical)] if isinstance(logical, str) else logical
    q = {}
    if "pauli" in errors:
        q["pauli"] = {i: {f: env.real(f"p{f}{i}", 0, 1) for f in "xyz"} for i in range(n)}
    if "erasure" in errors:
        q["erasure"] = {i: {"p": env.real(f"e{i}", 0, 1)} for i in range(n)}
    if "measurement" in errors:
        q["measurement"] = {n + i: {"p": env.real(f"m{i}", 0, 1)} for i in range(s)}
    spec = {a: {b: dict(v) for b, v in x.items()} for a, x in q.items()}
    if errors:
        circ = generate_qec_circuit(code, q, {}, logical, logical_ancilla=ancilla)
    else:
        circ = QECCircuitGenerator(code, {}, {}, logical_ancilla=ancilla).get_circuit(logical)
    sim, outs, erased, inj = affine.run(env, circ, n + s + 2 * k)
    # which error is which: by kind, qubit and order of occurrence
    D = [[[ZERO, ZERO] for _ in range(n)] for _ in range(rounds)]
    flips = [[ZERO] * s for _ in range(rounds)]
    seen = {}
    flags = [[None] * n for _ in range(rounds)]
    fi = 0
    for _, g, args, bits in inj:
        qs = args[-1]
        r = seen.get((g, qs), 0)
        seen[g, qs] = r + 1
        if g in ("E_PAULI", "E_ERASE"):
            env.check(qs < n and r < rounds, f"{g}: one per data qubit and round")
            D[r][qs][0] = D[r][qs][0] ^ bits[0]
            D[r][qs][1] = D[r][qs][1] ^ bits[1]
            if g == "E_PAULI":
                env.check(land(*[args[j] == spec["pauli"][qs][f] for j, f in enumerate("xyz")]), "probabilities of the Pauli channel")
            else:
                env.check(args[0] == spec["erasure"][qs]["p"], "probability of the erasure")
                flags[r][qs] = erased[fi]
                fi += 1
        else:
            env.check(g == "ERROR" and n <= qs < n + s and r < rounds - 1 and len(args) == 3, f"{g}: one measurement error per generator and noisy round")
            env.check(args[0] == spec["measurement"][qs]["p"], "probability of the measurement error")
            flips[r][qs - n] = bits[0]
    env.check(all(seen.get(("E_PAULI", i), 0) == (rounds if "pauli" in errors else 0) for i in range(n)), "Pauli channel on every data qubit in every round")
    env.check(all(seen.get(("E_ERASE", i), 0) == (rounds if "erasure" in errors else 0) for i in range(n)), "erasure on every data qubit in every round")
    env.check(all(seen.get(("ERROR", n + i), 0) == (rounds - 1 if "measurement" in errors else 0) for i in range(s)), "measurement error in every noisy round")
    res = MeasurementSample.from_code_and_raw_results(
        code, env.array(outs), env.array(erased) if "erasure" in errors else None, logical_ancilla=ancilla)
    env.check(res.syndrome.shape == (rounds, s) and res.stabilizer_gen.shape == (rounds + 1, s) and res.logical_op_toggle.shape == (k,), "shapes")
    tot = [ZERO] * (2 * n + 1)
    for r in range(rounds):
        row = [D[r][i][0] for i in range(n)] + [D[r][i][1] for i in range(n)] + [ZERO]
        tot = [a ^ b for a, b in zip(tot, row)]
        want = [anticommute(S[i], row, n) ^ flips[r][i] ^ (flips[r - 1][i] if r else ZERO) for i in range(s)]
        env.check(alleq(res.syndrome[r], want), f"syndrome of round {r}")
    env.check(alleq(res.logical_op_toggle, [anticommute(L[c], tot, n) for c in chosen]), "logical operators toggle exactly with the errors that flip them")
    if "erasure" in errors:
        env.check(res.erased_qubits.shape == (rounds, n), "shape of the erasure information")
        env.check(land(*[alleq(res.erased_qubits[r], flags[r]) for r in range(rounds)]), "erasure information per round and qubit")
    # the last round's outcomes are those of the generators in the final state
    if ancilla:
        for i in range(s):
            det, sign = sim.sign_of(embed(S[i], n, sim.n))
            env.check(det, "the final state is an eigenstate of every generator")
            env.check(sign == res.stabilizer_gen[rounds][i], "eigenvalue reported for the generator")
        for j, c in enumerate(chosen):
            det, sign = sim.sign_of(embed(L[c], n, sim.n))
            env.check(det, "the final state is an eigenstate of the logical operator")
            env.check(sign == res.logical_op_final[j], "eigenvalue reported for the logical operator")


def embed(row, n, m):
    return list(row[:n]) + [ZERO] * (m - n) + list(row[n:2 * n]) + [ZERO] * (m - n) + [ZERO]


def two(prefix, env):
    return {a + b: env.real(f"{prefix}{a}{b}", 0, 1) for a in "ixyz" for b in "ixyz" if a + b != "ii"}


def partial(env, name, full):
    """One of: no entry, an empty entry, one channel only, all channels."""
    how = env.pick(name, ["none", "empty", "one", "all"])
    if how == "none":
        return None
    if how == "empty":
        return {}
    if how == "one":
        f = sorted(full)[len(full) // 2]
        return {f: full[f]}
    return full


def placement(env, kind, d, rounds, ancilla, special, order):
    """Every configured error follows its gate, in noisy rounds only, and nothing else is added."""
    from plaquette.circuit.generator import QECCircuitGenerator

    code = build(kind, d, rounds, None)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    g, q = {}, {}
    sg = code.lattice.stabgens
    for name in ("H", "R", "M"):
        g[name] = {}
        for i in order(range(s)):
            full = {f: env.real(f"{name}{i}{f}", 0, 1) for f in "xyz"}
            v = partial(env, f"{name}?", full) if (name, i) in special else full
            if v is not None:
                g[name][n + i] = v
    for name in ("CX", "CZ"):
        g[name] = {}
        for i in range(s):
            for j, e in enumerate(sg[i].edges):
                if e.factor.name != {"CX": "X", "CZ": "Z"}[name]:
                    continue
                key = (n + i, e.data.equbit_idx)
                full = two(f"{name}{i}.{j}", env) if i < 2 else {"xz": 0.125}
                v = partial(env, f"{name}?", full) if (name, i, j) in special else full
                if v is not None:
                    g[name][key] = v
    q["pauli"] = {}
    for i in range(n):
        full = {f: env.real(f"p{f}{i}", 0, 1) for f in "xyz"}
        v = partial(env, "p?", full) if ("pauli", i) in special else full
        if v is not None:
            q["pauli"][i] = v
    q["measurement"] = {n + i: {"p": env.real(f"m{i}", 0, 1)} for i in range(s) if ("nomeas", i) not in special}
    spec = {**{a: {b: dict(v) for b, v in x.items()} for a, x in g.items()}, **{a: {b: dict(v) for b, v in x.items()} for a, x in q.items()}}
    logical = "Z" * k
    clean = gates_of(QECCircuitGenerator(code, {}, {}, ancilla).get_circuit(logical))
    noisy = gates_of(QECCircuitGenerator(code, q, g, ancilla).get_circuit(logical))
    env.check([x for x in noisy if x[0] not in ERR] == clean, "errors are the only difference from the circuit without errors")
    # rounds: a generator's ancilla is measured once per round
    cnt = {}
    pend = []  # (kind, qubits, expected args) still to be met before the next gate on these qubits
    paulis = {}
    for name, args in noisy:
        if name not in ERR:
            pend = [p for p in pend if not (zero(p[2]) and set(p[1]) & set(args))]
            for p in pend:
                if set(p[1]) & set(args) and not zero(p[2]):
                    env.check(False, f"missing error after {p[3]} on {p[1]}")
            if name == "M" and args[0] in spec["measurement"] and args[0] >= n:
                r = cnt.get(args[0], 0)
                want = 0 < r < rounds
                env.check(paulis.pop(("flip", args[0]), 0) == want, "measurement error immediately before the measurement, in noisy rounds only")
            a = args[0]
            if n <= a < n + s:
                r = cnt.get(a, 0)
                v = spec[name].get(a if len(args) == 1 else tuple(args)) if name in spec else None
                if 0 < r < rounds and v:
                    if len(args) == 1:
                        pend.append(("E_PAULI", args, [v.get(f, 0) for f in "xyz"], name))
                    else:
                        pend.append(("E_PAULI2", args, [v.get(x + y, 0) for x in "ixyz" for y in "ixyz"][1:], name))
                if name == "M":
                    cnt[a] = r + 1
            continue
        if name == "E_PAULI" and args[3] < n:
            i = args[3]
            v = spec["pauli"].get(i, {})
            if not zero(args[:3]) or v:
                env.check(land(*[args[j] == v.get(f, 0) for j, f in enumerate("xyz")]), "probabilities of the data qubit error")
                paulis[i] = paulis.get(i, 0) + 1
        elif name == "ERROR":
            i = args[2]
            env.check(args[1] == "X" and len(args) == 3 and i in spec["measurement"], "measurement error is a flip of the ancilla")
            env.check(args[0] == spec["measurement"][i]["p"], "probability of the measurement error")
            paulis["flip", i] = paulis.get(("flip", i), 0) + 1
        elif name in ("E_PAULI", "E_PAULI2"):
            np_ = 3 if name == "E_PAULI" else 15
            m = [p for p in pend if p[0] == name and tuple(p[1]) == tuple(args[np_:])]
            if not m and zero(args[:np_]):
                continue
            env.check(len(m) >= 1, f"{name} follows a faulty gate on {args[np_:]}")
            env.check(land(*[a == b for a, b in zip(args[:np_], m[0][2])]), f"{name}: probabilities of the gate's channel")
            pend.remove(m[0])
        else:
            env.check(False, f"unexpected {name}")
    env.check(all(zero(p[2]) for p in pend), "an error is missing at the end")
    env.check(all(paulis.get(i, 0) == (rounds if spec["pauli"].get(i) else 0) for i in range(n)), "data qubit errors once per round")
    env.check(not any(isinstance(x, tuple) for x in paulis), "no measurement error without a measurement")


def presence(env, kind, d, rounds, ancilla, sites):
    """Every combination of Pauli, erasure and measurement errors given for some qubits only."""
    from plaquette.circuit.generator import QECCircuitGenerator

    code = make(kind, d, rounds)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    q = {"pauli": {}, "erasure": {}, "measurement": {}}
    want = {}
    for i in sites:
        full = {f: env.real(f"p{f}{i}", 0, 1) for f in "xyz"}
        v = partial(env, f"pauli {i}", full)
        if v is not None:
            q["pauli"][i] = v
            if v:
                want["E_PAULI", i] = [v.get(f, 0) for f in "xyz"]
        if env.pick(f"erasure {i}", [False, True]):
            e = env.real(f"e{i}", 0, 1)
            q["erasure"][i] = {"p": e}
            want["E_ERASE", i] = [e]
    for i in range(min(s, 2)):
        if env.pick(f"measurement {i}", [False, True]):
            m = env.real(f"m{i}", 0, 1)
            q["measurement"][n + i] = {"p": m}
            want["ERROR", n + i] = [m]
    q = {a: v for a, v in q.items() if v or env.pick(f"{a} given", [True, False])}
    logical = "Z" * k
    clean = gates_of(QECCircuitGenerator(code, {}, {}, ancilla).get_circuit(logical))
    noisy = gates_of(QECCircuitGenerator(code, q, {}, ancilla).get_circuit(logical))
    env.check([x for x in noisy if x[0] not in ERR] == clean, "errors are the only difference from the circuit without errors")
    seen = {}
    measured = 0
    for name, args in noisy:
        if name == "M" and args[0] == n + s - 1:
            measured += 1
        if name not in ERR:
            continue
        key, ps = (name, args[-1]), list(args[:1] if name == "ERROR" else args[:-1])
        if key not in want:
            env.check(zero(ps), f"{name} on a qubit without one")
            continue
        env.check(len(ps) == len(want[key]) and land(*[a == b for a, b in zip(ps, want[key])]), f"{name}: probabilities")
        if name != "ERROR":
            env.check(measured == 1 + seen.get(key, 0), f"{name}: one per round, before the generators are measured")
        seen[key] = seen.get(key, 0) + 1
    for (name, i) in want:
        env.check(seen.get((name, i), 0) == (rounds - 1 if name == "ERROR" else rounds), f"{name} of qubit {i} in every round")


def _plain(r):
    return list(r)


def twice(env, kind, d, ancilla):
    """A generator can be used again: circuits do not depend on what it generated before."""
    from plaquette.circuit.generator import QECCircuitGenerator

    code = make(kind, d, 2)
    k = code.n_logical_qubits
    p = env.real("p", 0, 1)
    sel = env.pick("sel", list(range(2)))
    sel2 = env.pick("sel2", list(range(2)))
    gen = QECCircuitGenerator(code, {"pauli": {0: {"x": p}}}, {}, ancilla)
    a = gen.get_circuit(selections(k, sel))
    ga = gates_of(a)
    b = gen.get_circuit(selections(k, sel2))
    ref = QECCircuitGenerator(code, {"pauli": {0: {"x": p}}}, {}, ancilla).get_circuit(selections(k, sel2))
    gb, gr = gates_of(b), gates_of(ref)
    env.check(len(gb) == len(gr) and land(*[x[0] == y[0] and land(*[u == v for u, v in zip(x[1], y[1])]) for x, y in zip(gb, gr)]), "second circuit of a generator")
    env.check(len(a.gates) == len(ga), "the first circuit is not changed by the second")


def rejects(env, kind, d):
    """Invalid requests are rejected."""
    from plaquette.circuit.generator import QECCircuitGenerator

    code = make(kind, d, 1)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    p = env.real("p", 0, 1)
    what = env.pick("what", ["pauli", "erasure", "measurement", "H", "R", "M", "key", "param", "CX", "CZ"])
    q, g = {}, {}
    ok = True
    ii = env.pick("ii", list(range(-1, n + s + 2 * k + 1)))
    jj = env.pick("jj", list(range(-1, n + s + 1))) if what in ("CX", "CZ") else 0
    if what in ("pauli", "erasure"):
        q[what] = {ii: {"x" if what == "pauli" else "p": p}}
        ok = 0 <= ii < n
    elif what == "measurement":
        q[what] = {ii: {"p": p}}
        ok = n <= ii < n + s
    elif what in ("H", "R", "M"):
        g[what] = {ii: {"x": p}}
        ok = n <= ii < n + s
    elif what in ("CX", "CZ"):
        g[what] = {(ii, jj): {"xx": p}}
        ok = n <= ii < n + s and 0 <= jj < n
    elif what == "key":
        q["paulis"] = {}
        ok = False
    else:
        q["pauli"] = {0: {"X": p}}
        ok = False
    if ok:
        QECCircuitGenerator(code, q, g)
        env.check(True, "valid specification accepted")
    else:
        env.raises((ValueError, KeyError, TypeError, IndexError), lambda: QECCircuitGenerator(code, q, g), f"{what} on ({ii}, {jj}) rejected")


def jobs(tier):
    th = tier == "thorough"
    out = []
    codes = [("five", None), ("shor", None), ("repetition", 3), ("repetition", 5), ("planar", 2), ("planar", 3), ("planar", 4),
             ("rotated", 3), ("rotated", 4), ("rotated", 5), ("xzzx", 3), ("xzzx", 4), ("xzzx", 5), ("toric", 2), ("toric", 3)]
    if th:
        codes += [("planar", 5), ("rotated", 6), ("rotated", 7), ("xzzx", 6), ("toric", 4), ("repetition", 9)]
    for kind, d in codes:
        k = 2 if kind == "toric" else 1
        big = d is not None and d >= 4 and kind != "repetition"
        for sel in range(2 * (k > 1) + 4):
            for anc in (False, True):
                for rounds in ((1, 2, 3) if not big else (2,)) + ((4,) if th and not big else ()):
                    errs = [("pauli", "measurement")]
                    if rounds == 2 and sel < 2:
                        errs += [("erasure",), ("pauli", "erasure", "measurement"), ()]
                    if sel >= 2 and rounds != 2:
                        continue
                    for e in errs:
                        out.append(Job(f"qec-{kind}-{d}-{rounds}-{sel}-{int(anc)}-{'+'.join(x[0] for x in e) or 'none'}", qec, kind=kind, d=d, rounds=rounds,
                                       sel=sel, ancilla=anc, errors=e, timeout=600, weight=(d or 3) ** 2, witnesses=1))
    fabs = [("planar", 3, [6]), ("planar", 3, [0]), ("planar", 4, [12]), ("planar", 4, [8, 16]), ("rotated", 3, [4]), ("rotated", 4, [5]), ("xzzx", 3, [4])]
    for kind, d, fab in fabs:
        for sel in (0, 1):
            for anc in (False, True):
                out.append(Job(f"fab-{kind}-{d}-{'_'.join(map(str, fab))}-{sel}-{int(anc)}", qec, kind=kind, d=d, rounds=2, sel=sel, ancilla=anc, fab=fab, timeout=300, witnesses=1))
    for kind, d in (("repetition", 3), ("planar", 2), ("rotated", 3), ("five", None)) + ((("toric", 2), ("shor", None)) if th else ()):
        for anc in (False, True):
            for si, special in enumerate([(("H", 0), ("pauli", 1)), (("R", 1), ("nomeas", 0)), (("M", 0), ("CZ", 0, 0)), (("CX", 0, 0), ("CX", 1, 1), ("CZ", 1, 1))]):
                for rounds in (1, 3) if not th else (1, 2, 3, 4):
                    out.append(Job(f"place-{kind}-{d}-{rounds}-{si}-{int(anc)}", placement, kind=kind, d=d, rounds=rounds, ancilla=anc, special=special,
                                   order=_plain, timeout=300, witnesses=1))
    for kind, d in (("repetition", 3), ("planar", 2)):
        for anc in (False, True):
            for sites in [(0, 1), (1, 2)] + ([(0, 2), (0, 1, 2)] if th else []):
                out.append(Job(f"presence-{kind}-{'_'.join(map(str, sites))}-{int(anc)}", presence, kind=kind, d=d, rounds=2, ancilla=anc, sites=sites, timeout=300, witnesses=1, weight=6))
    for kind, d in (("planar", 2), ("toric", 2), ("five", None)):
        for anc in (False, True):
            out.append(Job(f"twice-{kind}-{int(anc)}", twice, kind=kind, d=d, ancilla=anc, timeout=120))
    for kind, d in (("planar", 2), ("rotated", 3), ("repetition", 3)):
        out.append(Job(f"rejects-{kind}", rejects, kind=kind, d=d, timeout=200))
    return out
