"""C19: raw results are unpacked as documented and success is judged by the corrected logical operators."""
import numpy as np

from checks.codetools import lattice_rows, make, sym_pauli
from checks.common import ONE, ZERO, alleq, anticommute, land, xorsum
from symx.harness import Job

FUNCTIONS = ("plaquette.device:MeasurementSample.from_code_and_raw_results", "plaquette.decoders.decoderbase:check_success",
             "plaquette.codes:StabilizerCode.logical_ops_to_indices", "plaquette.pauli:count_qubits", "plaquette.pauli:commutator_sign")
BOUNDS = {"quick": "every raw result array and erasure array for five-qubit, Shor, repetition, planar, rotated, toric codes (1-3 rounds) and codes given by operators with 2-3 logical qubits of different weights; every correction, toggle vector and selection of logical operators",
          "thorough": "larger sizes and up to 5 rounds"}
ASSUMPTIONS = ["without ancillas for the logical operators, the numbers of results must determine which operators were measured (otherwise a ValueError is accepted)"]

OPS = {
    # name: (generators, logical operators)
    "mixed": (["Z0Z1", "X0X1X2X3"], ["X0X1", "Z0Z2Z3", "X2", "Z2Z3"]),
    "three": (["Z0Z1Z2Z3Z4"], ["X0X1", "Z1", "X2X3X4", "Z2", "X0X4", "Z3Z1Z2"]),
}


def code_of(kind, d, rounds):
    from plaquette.codes import LatticeCode
    from plaquette.pauli import string_to_pauli

    if kind in OPS:
        g, lo = OPS[kind]
        n = 5 if kind == "three" else 4
        return LatticeCode.from_operators([string_to_pauli(x, qubits=n) for x in g], [string_to_pauli(x, qubits=n) for x in lo], rounds)
    return make(kind, d, rounds)


def weight(row, n):
    return sum(1 for i in range(n) if row[i] or row[i + n])


def unpack(env, kind, d, rounds, ancilla, erasure):
    from plaquette.device import MeasurementSample

    code = code_of(kind, d, rounds)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    _, L = lattice_rows(code.lattice)
    sel = [env.pick(f"sel{i}", [0, 1]) for i in range(k)]
    ws = [1 if ancilla else weight(L[2 * i + sel[i]], n) for i in range(k)]
    opts = [(1,) if ancilla else tuple({weight(L[2 * i], n), weight(L[2 * i + 1], n)}) for i in range(k)]
    total = sum(ws)
    combos = [()]
    for o in opts:
        combos = [c + (w,) for c in combos for w in o]
    unique = sum(1 for c in combos if sum(c) == total) == 1
    m = 2 * total + (rounds + 1) * s
    raw = [env.bit(f"r{i}") for i in range(m)]
    er = [env.bit(f"e{i}") for i in range(rounds * n)] if erasure else None
    def go():
        return MeasurementSample.from_code_and_raw_results(code, env.array(raw), None if er is None else env.array(er, dtype=bool), logical_ancilla=ancilla)
    if not unique:
        try:
            res = go()
        except ValueError:
            return env.check(True, "ambiguous results rejected")
    else:
        res = go()
    ini, fin, p = [], [], 0
    for w in ws:
        ini.append(xorsum(raw[p:p + w]))
        p += w
    stab = [raw[p + r * s:p + (r + 1) * s] for r in range(rounds + 1)]
    p += (rounds + 1) * s
    for w in ws:
        fin.append(xorsum(raw[p:p + w]))
        p += w
    env.check(res.logical_op_initial.shape == res.logical_op_final.shape == res.logical_op_toggle.shape == (k,), "one value per logical operator")
    env.check(alleq(res.logical_op_initial, ini), "initial logical values are the parities of the first results")
    env.check(alleq(res.logical_op_final, fin), "final logical values are the parities of the last results")
    env.check(alleq(res.logical_op_toggle, [a ^ b for a, b in zip(ini, fin)]), "toggle")
    env.check(res.stabilizer_gen.shape == (rounds + 1, s) and res.syndrome.shape == (rounds, s), "shapes")
    env.check(land(*[alleq(res.stabilizer_gen[r], stab[r]) for r in range(rounds + 1)]), "generator results in order")
    env.check(land(*[alleq(res.syndrome[r], [a ^ b for a, b in zip(stab[r + 1], stab[r])]) for r in range(rounds)]), "syndrome is the change between rounds")
    if erasure:
        env.check(res.erased_qubits.shape == (rounds, n), "erasure shape")
        env.check(land(*[alleq(res.erased_qubits[r], er[r * n:(r + 1) * n]) for r in range(rounds)]), "erasure per round and qubit")
    else:
        env.check(res.erased_qubits is None, "no erasure information")


def wrong_sizes(env, kind, d, rounds, ancilla):
    """Arrays that do not fit the code are rejected."""
    from plaquette.device import MeasurementSample

    code = code_of(kind, d, rounds)
    n, s, k = code.n_data_qubits, code.n_stabgens, code.n_logical_qubits
    _, L = lattice_rows(code.lattice)
    total = sum(1 if ancilla else weight(L[2 * i], n) for i in range(k))
    m = 2 * total + (rounds + 1) * s
    de = env.pick("de", [-n, -1, 1, n])
    raw = env.array([env.bit(f"r{i}") for i in range(m)])
    er = env.array([env.bit(f"e{i}") for i in range(rounds * n + de)], dtype=bool)
    env.raises(ValueError, lambda: MeasurementSample.from_code_and_raw_results(code, raw, er, logical_ancilla=ancilla), "erasure array of the wrong size")


def success(env, kind, d, logical, as_index):
    from plaquette.decoders.decoderbase import check_success

    code = code_of(kind, d, 1)
    n, k = code.n_data_qubits, code.n_logical_qubits
    _, L = lattice_rows(code.lattice)
    idx = list(range(2 * k)) if logical is None else [2 * i + (c == "Z") for i, c in enumerate(logical)]
    corr = sym_pauli(env, "c", n)
    corr[-1] = env.bit("sign")
    tog = [env.bit(f"t{i}") for i in range(len(idx))]
    sel = None if logical is None else (idx if as_index else logical)
    ok = check_success(code, env.array(corr), env.array(tog), sel)
    want = land(*[tog[j] == anticommute(L[i], corr, n) for j, i in enumerate(idx)])
    env.check(ok == want, "success iff every measured logical operator toggled exactly as the correction predicts")


def jobs(tier):
    th = tier == "thorough"
    out = []
    kinds = [("five", None), ("shor", None), ("repetition", 3), ("repetition", 5), ("planar", 2), ("planar", 3), ("rotated", 3), ("xzzx", 4), ("toric", 2),
             ("toric", 3), ("mixed", None), ("three", None)]
    if th:
        kinds += [("planar", 5), ("rotated", 6), ("toric", 4), ("repetition", 9), ("rotated", 5), ("xzzx", 5)]
    for kind, d in kinds:
        for rounds in (1, 2, 3) + ((5,) if th else ()):
            for anc in (False, True):
                for er in (False, True):
                    out.append(Job(f"unpack-{kind}-{d}-{rounds}-{int(anc)}{int(er)}", unpack, kind=kind, d=d, rounds=rounds, ancilla=anc, erasure=er, timeout=200))
        for anc in (False, True):
            out.append(Job(f"sizes-{kind}-{d}-{int(anc)}", wrong_sizes, kind=kind, d=d, rounds=2, ancilla=anc, timeout=100))
        k = {"toric": 2, "mixed": 2, "three": 3}.get(kind, 1)
        sels = [None] + ["".join("XZ"[(m >> i) & 1] for i in range(k)) for m in range(2 ** k)]
        for sel in sels:
            for ai in ((False, True) if sel else (False,)):
                out.append(Job(f"success-{kind}-{d}-{sel}-{int(ai)}", success, kind=kind, d=d, logical=sel, as_index=ai, timeout=200))
    return out
