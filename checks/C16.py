"""C16: fabrication errors turn a code into a valid code without the faulty qubits."""
import warnings

import numpy as np

from checks.codetools import at_least, combine, lattice_rows, make, sym_pauli
from checks.common import ONE, ZERO, anticommute, bor, land
from symx.harness import Job

FUNCTIONS = ("plaquette.codes.latticebase:CodeLattice.apply_fabrication_errors", "plaquette.codes.latticebase:CodeLattice.remove_dataqubit",
             "plaquette.codes.latticebase:CodeLattice._handle_dataqubit_edgegroups", "plaquette.codes.latticebase:CodeLattice.create_superstab",
             "plaquette.codes.latticebase:CodeLattice.multiply_logical_with_stab", "plaquette.codes.latticebase:CodeLattice._boundary_qubit_remove_stabilizer",
             "plaquette.codes.latticebase:CodeLattice._fabrication_errors_get_remove_qubits", "plaquette.codes:LatticeCode.apply_fabrication_errors")
BOUNDS = {"quick": "planar 3-4 and rotated 3: every pair of faulty qubits, every faulty gate, every faulty generator; toric 3: every qubit; every Pauli error on the remaining qubits",
          "thorough": "planar 3-5, rotated 3-4, toric 3: also triples on planar 3 and two successive calls"}
ASSUMPTIONS = ["flags other than the default (keep_gauge 'none', boundary_join False) are documented as experimental: one faulty qubit which is no corner only, and keep_gauge 'all' (non-commuting generators) not at all",
               "sets of faulty qubits that leave no logical operator raise the documented NoLogicalOperatorError and are not judged further"]


def pauli_on(row, keep, n):
    """Restrict a row on n qubits to the qubits in keep."""
    return [row[q] for q in keep] + [row[q + n] for q in keep] + [ZERO]


def embed(row, keep, n):
    out = [ZERO] * (2 * n + 1)
    m = len(keep)
    for j, q in enumerate(keep):
        out[q] = row[j]
        out[q + n] = row[j + m]
    return out


def judge(env, code, faulty, S0, L0, pos0, stabpos, logpos, k):
    lat = code.lattice
    n0 = len(pos0)
    keep = [i for i, p in enumerate(pos0) if p not in faulty]
    n = len(keep)
    env.check([v.pos for v in lat.dataqubits] == [pos0[i] for i in keep], "exactly the faulty qubits are removed")
    env.check(all(p in stabpos for p in (v.pos for v in lat.stabgens)) and [v.pos for v in lat.logical_ops] == logpos, "no vertex is invented")
    env.check([v.equbit_idx for v in lat.equbits] == list(range(n + len(lat.stabgens) + 2 * k)) and
              [v.pos for v in lat.equbits] == [v.pos for v in [*lat.dataqubits, *lat.stabgens, *lat.logical_ops]], "extended indices are consecutive again")
    env.check([v.dataqubit_idx for v in lat.dataqubits] == list(range(n)) and [v.stabgen_idx for v in lat.stabgens] == list(range(len(lat.stabgens))), "data and generator indices are consecutive again")
    S, L = lattice_rows(lat)
    rows = [list(map(int, r)) for r in [*code.stabilisers, *code.logical_ops]]
    env.check(rows == [list(map(int, r)) for r in S + L], "the code's operators are those of the reduced lattice")
    env.check(code.n_stabgens == len(S) and code.n_logical_qubits == k and (not S or code.n_data_qubits == n), "the code's sizes follow the lattice")
    env.check([list(map(int, r)) for r in [*code.logical_x, *code.logical_z]] == [list(map(int, r)) for r in L[::2] + L[1::2]], "logical X and Z follow the lattice")
    c = [env.bit(f"c{i}") for i in range(len(S))]
    g = combine(S, c) if S else None
    for r in S + L:
        if g is not None:
            env.check(anticommute(g, r, n) == 0, "the reduced code's generators commute with each other and the logical operators")
    for i in range(2 * k):
        for j in range(i):
            env.check(anticommute(L[i], L[j], n) == (1 if i ^ 1 == j else 0), "logical operators keep their commutation relations")
    # errors the original code does not see are not seen by the reduced one and act the same on the logical qubits
    E = sym_pauli(env, "e", n)
    E0 = embed(E, keep, n0)
    silent = land(*[anticommute(E0, r, n0) == 0 for r in S0])
    for r in S:
        bad = land(silent, anticommute(E, r, n) == 1)
        env.check(bad == False, "every remaining generator belongs to the original code")  # noqa: E712
    for r, r0 in zip(L, L0):
        bad = land(silent, (anticommute(E, r, n) ^ anticommute(E0, r0, n0)) == 1)
        env.check(bad == False, "logical operators stay equivalent to the original ones")  # noqa: E712


def fabricate(env, kind, size, mode, k=2, calls=1, half=None):
    from plaquette.codes.latticebase import NoLogicalOperatorError

    code = make(kind, size)
    lat = code.lattice
    S0, L0 = lattice_rows(lat)
    pos0 = [v.pos for v in lat.dataqubits]
    stabpos = [v.pos for v in lat.stabgens]
    logpos = [v.pos for v in lat.logical_ops]
    kl = len(logpos) // 2
    faulty = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for call in range(calls):
            kw = {}
            if mode == "qubits":
                qs = []
                for i in range(k):
                    opts = [v for v in lat.dataqubits]
                    q = opts[env.pick(f"q{call}.{i}", [j for j in range(len(opts)) if half is None or i or call or j % half[1] == half[0]])]
                    qs.append(q)
                as_pos = env.pick(f"pos{call}", [False, True])
                kw["faulty_qubits"] = [q.pos if as_pos else q.equbit_idx for q in qs]
                now = [q.pos for q in qs]
            elif mode == "gate":
                st = lat.stabgens[env.pick(f"s{call}", list(range(len(lat.stabgens))))]
                q = lat.dataqubits[env.pick(f"q{call}", list(range(len(lat.dataqubits))))]
                as_pos = env.pick(f"pos{call}", [False, True])
                kw["faulty_gates"] = [(st.pos, q.pos) if as_pos else (st.equbit_idx, q.equbit_idx)]
                now = [q.pos]
                if not any(e.data is q for e in st.edges):
                    env.raises(ValueError, lambda: code.apply_fabrication_errors(**kw), "a gate needs a generator acting on the qubit")
                    return judge(env, code, faulty, S0, L0, pos0, stabpos, logpos, kl)
            elif mode == "stab":
                st = lat.stabgens[env.pick(f"s{call}", list(range(len(lat.stabgens))))]
                as_pos = env.pick(f"pos{call}", [False, True])
                kw["faulty_stabilizers"] = [st.pos if as_pos else st.equbit_idx]
                now = [e.data.pos for e in st.edges]
            else:  # invalid
                v = lat.equbits[env.pick("v", list(range(len(lat.equbits))))]
                key = env.pick("key", ["faulty_qubits", "faulty_stabilizers"])
                kw[key] = [v.equbit_idx]
                if (key == "faulty_qubits") == (v in lat.dataqubits) and (key == "faulty_qubits" or v in lat.stabgens):
                    return env.check(True, "valid")
                env.raises(ValueError, lambda: code.apply_fabrication_errors(**kw), "vertices of the wrong type are rejected")
                return judge(env, code, faulty, S0, L0, pos0, stabpos, logpos, kl)
            try:
                code.apply_fabrication_errors(**kw)
            except NoLogicalOperatorError:
                d = {"planar": size, "rotated": size, "toric": size}[kind]
                env.check(len(set(now + faulty)) >= d, "fewer faulty qubits than the distance leave the logical operators intact")
                return
            faulty += now
    judge(env, code, faulty, S0, L0, pos0, stabpos, logpos, kl)


def flags(env, kind, size, arg):
    """The flags of a call replace those of the lattice; without arguments the lattice's own count."""
    from plaquette.codes.latticebase import NoLogicalOperatorError

    code, plain = make(kind, size), make(kind, size)
    lat = code.lattice
    S0, L0 = lattice_rows(lat)
    pos0 = [v.pos for v in lat.dataqubits]
    stabpos, logpos = [v.pos for v in lat.stabgens], [v.pos for v in lat.logical_ops]
    gauge, join = env.pick("gauge before", ["none", "half"]), env.pick("join before", [False, True])
    gauge_arg, join_arg = env.pick("gauge", [None, "none", "half"]), arg
    q = env.pick("q", list(range(len(pos0))))
    kw = {k: v for k, v in (("keep_gauge", gauge_arg), ("boundary_join", join_arg)) if v is not None or env.pick(f"{k} given", [False, True])}
    lat.fabrication_err_keep_gauge, lat.fabrication_err_boundary_join = gauge, join
    plain.lattice.fabrication_err_keep_gauge = gauge if gauge_arg is None else gauge_arg
    plain.lattice.fabrication_err_boundary_join = join if join_arg is None else join_arg
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for c, k in ((code, kw), (plain, {})):
            try:
                c.apply_fabrication_errors(faulty_qubits=[q], **k)
                out.append([[list(map(int, r)) for r in rows] for rows in lattice_rows(c.lattice)])
            except NoLogicalOperatorError:
                return env.check(False, "one faulty qubit leaves the logical operators intact")
    env.check(out[0] == out[1], "the flags of the call count, else those of the lattice")
    env.check([lat.fabrication_err_keep_gauge, lat.fabrication_err_boundary_join] == [plain.lattice.fabrication_err_keep_gauge, plain.lattice.fabrication_err_boundary_join],
              "flags given to the call stay with the lattice")
    groups = edge_groups(kind, size, q)
    joins = plain.lattice.fabrication_err_boundary_join
    half = plain.lattice.fabrication_err_keep_gauge == "half"
    inner = all(g == 2 for g in groups)
    if not inner and groups.count(1) > 1:
        return  # the corner of a lattice: what becomes of its two generators is not documented
    lost = (1 if half else 2) if inner else 1
    env.check(len(out[0][0]) == len(S0) - lost, f"{lost} generator(s) less (keep_gauge half: {half}, boundary_join: {joins}, inner qubit: {inner})")
    if not inner:
        n0 = len(pos0)
        keep = [i for i in range(n0) if i != q]
        trimmed = [pauli_on([int(b) for b in r], keep, n0)[:-1] for r in S0 if r[q] != r[q + n0] or r[q]]
        whole = [[int(b) for b in r][:-1] for r in out[0][0]]
        kept = sum(t in whole for t in trimmed)
        env.check(kept == (1 if joins else 2), "at a boundary one generator is disabled, or joined and the third one kept")
    judge(env, code, [pos0[q]], S0, L0, pos0, stabpos, logpos, len(logpos) // 2)


def edge_groups(kind, size, q):
    """How many generators act with each factor on the qubit."""
    from plaquette.codes.latticebase import StabGenVertex

    fs = [e.factor for e in make(kind, size).lattice.dataqubits[q].edges if isinstance(e.op, StabGenVertex)]
    return [fs.count(f) for f in dict.fromkeys(fs)]


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, split=1, **kw):
        for h in range(split):
            out.append(Job(f"{name}" + (f"-{h}" if split > 1 else ""), fabricate, timeout=3000 if th else 800, half=(h, split) if split > 1 else None,
                           weight=50 if split > 1 else 5, **kw))

    add("planar-3-pairs", kind="planar", size=3, mode="qubits", k=2, split=2)
    add("rotated-3-pairs", kind="rotated", size=3, mode="qubits", k=2)
    add("planar-4-pairs", kind="planar", size=4, mode="qubits", k=2, split=8)
    add("toric-3-one", kind="toric", size=3, mode="qubits", k=1)
    for kind, size in (("planar", 3), ("rotated", 3)):
        add(f"{kind}-{size}-gate", kind=kind, size=size, mode="gate")
        add(f"{kind}-{size}-stab", kind=kind, size=size, mode="stab")
        add(f"{kind}-{size}-invalid", kind=kind, size=size, mode="invalid")
        for arg in (None, False, True):
            out.append(Job(f"{kind}-{size}-flags-{arg}", flags, kind=kind, size=size, arg=arg, timeout=600, weight=20))
    add("planar-4-stab", kind="planar", size=4, mode="stab")
    add("planar-3-twice", kind="planar", size=3, mode="qubits", k=1, calls=2, split=2)
    if th:
        add("planar-3-triples", kind="planar", size=3, mode="qubits", k=3, split=13)
        add("toric-3-pairs", kind="toric", size=3, mode="qubits", k=2, split=9)
        add("rotated-4-pairs", kind="rotated", size=4, mode="qubits", k=2, split=8)
        add("planar-5-one", kind="planar", size=5, mode="qubits", k=1)
        add("planar-5-stab", kind="planar", size=5, mode="stab")
        add("planar-3-thrice", kind="planar", size=3, mode="qubits", k=1, calls=3, split=13)
        add("planar-4-gate", kind="planar", size=4, mode="gate")
    return out
