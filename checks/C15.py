"""C15: the predefined codes are the codes they claim to be; code-level checks and queries are exact."""
import numpy as np

from checks.codetools import at_least, combine, lattice_rows, make, sym_pauli
from checks.common import ONE, ZERO, alleq, anticommute, bor, land, rows_of
from symx.harness import Job

FUNCTIONS = ("plaquette.codes.latticeinstances:ToricCodeLattice", "plaquette.codes.latticeinstances:PlanarCodeLattice",
             "plaquette.codes.latticeinstances:RotatedPlanarCodeLattice", "plaquette.codes.latticeinstances:RepetitionCodeLattice",
             "plaquette.codes.latticeinstances:FiveQubitCodeLattice", "plaquette.codes.latticeinstances:ShorCodeLattice",
             "plaquette.codes:StabilizerCode.check", "plaquette.codes:StabilizerCode.__eq__",
             "plaquette.codes:StabilizerCode.logical_ops_to_indices", "plaquette.codes.latticebase:CodeLattice._vertices_to_operators")
BOUNDS = {"quick": "five-qubit, Shor, repetition 3-7, planar 2-5, rotated and XZZX 2-7, toric 2-5: every Pauli error on the code; check()/==: every pair of codes with <= 2 generators and 1 logical qubit on 2 qubits",
          "thorough": "also planar 6-7, rotated/XZZX 8-9, toric 6-7, repetition 9-11; check() on 3 qubits"}
ASSUMPTIONS = ["toric size 1 and other degenerate lattices excluded"]

SHAPE = {
    "five": lambda d: (5, 4, 1), "shor": lambda d: (9, 8, 1), "repetition": lambda d: (d, d - 1, 1),
    "planar": lambda d: (d * d + (d - 1) ** 2, 2 * d * (d - 1), 1), "rotated": lambda d: (d * d, d * d - 1, 1),
    "xzzx": lambda d: (d * d, d * d - 1, 1), "toric": lambda d: (2 * d * d, 2 * d * d, 2),
}


def predefined(env, kind, d):
    code = make(kind, d, 2)
    lat = code.lattice
    n, s, k = SHAPE[kind](d)
    env.check(code.n_data_qubits == n and code.n_stabgens == s and code.n_logical_qubits == k and code.n_logical_ops == 2 * k,
              "numbers of data qubits, generators and logical qubits")
    env.check(code.n_ext_qubits == n + s + 2 * k == len(lat.equbits), "number of extended qubits")
    env.check([v.equbit_idx for v in lat.equbits] == list(range(n + s + 2 * k)), "extended indices are consecutive")
    env.check([v.dataqubit_idx for v in lat.equbits[:n]] == list(range(n)) and [v.stabgen_idx for v in lat.equbits[n:n + s]] == list(range(s))
              and [v.logical_idx for v in lat.equbits[n + s:]] == list(range(2 * k)), "data qubits, then generators, then logical operators")
    S, L = lattice_rows(lat)
    env.check([list(map(int, r)) for r in code.stabilisers] == [list(map(int, r)) for r in S], "stabilisers are the lattice's generators")
    env.check([list(map(int, r)) for r in code.logical_ops] == [list(map(int, r)) for r in L], "logical operators are the lattice's")
    code.check()
    # an arbitrary element of the group generated by the generators commutes with everything
    c = [env.bit(f"c{i}") for i in range(s)]
    g = combine(S, c)
    env.check(land(*[anticommute(g, r, n) == 0 for r in S + L]), "generators commute with each other and with the logical operators")
    # independence: only the known relations give the identity
    ident = land(*[b == 0 for b in g])
    if kind == "toric":
        grp = [int(v.group) for v in lat.stabgens]
        same = land(*[c[i] == c[grp.index(grp[i])] for i in range(s)])
        env.check(ident == same, "the only relation is that each group multiplies to the identity")
    else:
        zero = land(*[x == 0 for x in c])
        env.check(ident == zero, "the generators are independent")
    lc = [env.bit(f"l{i}") for i in range(2 * k)]
    lo = combine(L, lc)
    for i in range(2 * k):
        env.check(anticommute(lo, L[i], n) == lc[i ^ 1], "logical X_i and Z_j anticommute exactly for i = j")
    # distance
    E = sym_pauli(env, "e", n)
    silent = land(*[anticommute(E, r, n) == 0 for r in S])
    flips = [anticommute(E, r, n) for r in L]
    supp = [bor([E[i], E[i + n]]) for i in range(n)]
    if kind == "repetition":
        # bit-flip code: distance d against X, none against Z
        harm = flips[1]  # logical Z flipped
        env.check(imp3(silent, harm, at_least(supp, d)), "no fewer than d errors flip logical Z undetected")
        w = at_least([E[i] for i in range(n)], d)
        env.check(imp3(silent, harm, w), "they contain at least d bit flips")
    else:
        dist = {"five": 3, "shor": 3}.get(kind, d)
        harm = bor(flips)
        env.check(imp3(silent, harm, at_least(supp, dist)), "no undetected logical error has weight below the distance")
    ws = [sum(int(b) for b in bits_support(r, n)) for r in L]
    if kind in ("planar", "rotated", "xzzx", "toric"):
        env.check(all(w == d for w in ws), "logical operators have weight d")
    # schedule for parallel measurement
    if lat.n_time_steps is not None:
        for v in lat.stabgens:
            ts = [e.measurement_time_step for e in v.edges]
            env.check(len(set(ts)) == len(ts) and all(0 <= t < lat.n_time_steps for t in ts), "a generator touches one qubit per time step")
        for v in lat.dataqubits:
            ts = [e.measurement_time_step for e in v.edges if e.op in lat.stabgens]
            env.check(len(set(ts)) == len(ts), "a data qubit is touched once per time step")


def bits_support(r, n):
    return [r[i] | r[i + n] for i in range(n)]


def imp3(a, b, c):
    """a (bool) and b (bit) imply c (bit)."""
    bad = land(a, b == 1, c == 0)
    return (not bad) if isinstance(bad, (bool, np.bool_)) else ~bad


def sym_code(env, name, n, s, k):
    from plaquette.codes import StabilizerCode

    st = [[env.bit(f"{name}s{i}.{j}") for j in range(2 * n)] + [ZERO] for i in range(s)]
    lo = [[env.bit(f"{name}l{i}.{j}") for j in range(2 * n)] + [ZERO] for i in range(2 * k)]
    return st, lo, StabilizerCode([env.array(r) for r in st], [env.array(r) for r in lo])


def validity(env, n, s, k):
    """check() accepts exactly the operators that form a code."""
    st, lo, code = sym_code(env, "a", n, s, k)
    conds = []
    for i in range(s):
        conds += [anticommute(st[i], r, n) == 0 for r in st[:i] + lo]
    for i in range(2 * k):
        for j in range(i):
            want = ONE if (i ^ 1) == j else ZERO
            conds.append(anticommute(lo[i], lo[j], n) == want)
    try:
        code.check()
        ok = True
    except AssertionError:
        ok = False
    env.check(land(*conds) == ok, "check() passes exactly for commuting generators and paired logical operators")


def equality(env, n, sa, sb, ka, kb, nb=None):
    st, lo, a = sym_code(env, "a", n, sa, ka)
    st2, lo2, b = sym_code(env, "b", nb or n, sb, kb)
    same = land(sa == sb, ka == kb, nb in (None, n))
    if same is True:
        same = land(*[alleq(x, y) for x, y in zip(st + lo, st2 + lo2)])
    env.check((a == b) == same, "codes are equal exactly if their operators are")
    env.check((b == a) == same, "equality is symmetric")
    env.check(not (a == 3), "a code is not equal to something else")


def indices(env, kind, k):
    """logical_ops_to_indices on strings and on index lists."""
    code = make(kind, 3 if kind == "toric" else None)
    m = env.pick("len", list(range(0, k + 2)))
    form = env.pick("form", ["str", "list"])
    if form == "str":
        s = "".join(env.pick(f"o{i}", ["X", "Z", "Y", "x", "I"]) for i in range(m))
        good = m == k and all(c in "XZ" for c in s)
        if good:
            env.check(list(code.logical_ops_to_indices(s)) == [2 * i + "XZ".index(c) for i, c in enumerate(s)], "string selects X or Z of each logical qubit")
        else:
            env.raises(ValueError, lambda: code.logical_ops_to_indices(s), "malformed strings are rejected")
        return
    v = [env.int(f"i{j}") for j in range(m)]
    ok = land(m == k, *[land(x >= 0, x < 2 * k) for x in v])
    try:
        r = list(code.logical_ops_to_indices(v))
        env.check(ok, "only valid indices are accepted")
        env.check(alleq(r, v), "indices are returned unchanged")
    except ValueError:
        env.check(land(ok, True) == False, "valid indices are accepted")  # noqa: E712


def jobs(tier):
    th = tier == "thorough"
    out = []
    sizes = {"five": [None], "shor": [None], "repetition": [3, 5, 7] + ([9, 11] if th else []), "planar": [2, 3, 4, 5] + ([6, 7] if th else []),
             "rotated": [2, 3, 4, 5, 6, 7] + ([8, 9] if th else []), "xzzx": [2, 3, 4, 5, 6, 7] + ([8, 9] if th else []), "toric": [2, 3, 4, 5] + ([6, 7] if th else [])}
    for kind, ds in sizes.items():
        for d in ds:
            out.append(Job(f"{kind}-{d}", predefined, kind=kind, d=d, timeout=3000 if th else 600, weight=(d or 3) ** 3))
    out.append(Job("check-2-2-1", validity, n=2, s=2, k=1, timeout=600))
    out.append(Job("eq-sizes", equality, n=2, sa=1, sb=1, ka=1, kb=1, nb=3, timeout=300))
    out.append(Job("check-2-1-2", validity, n=2, s=1, k=2, timeout=600))
    if th:
        out.append(Job("check-3-2-1", validity, n=3, s=2, k=1, timeout=3000))
    for args in ((2, 1, 1, 1, 1), (2, 1, 2, 1, 1), (1, 2, 1, 1, 1), (1, 1, 1, 2, 1), (1, 1, 1, 1, 2)):
        n, sa, sb, ka, kb = args
        out.append(Job("eq-" + "-".join(map(str, args)), equality, n=n, sa=sa, sb=sb, ka=ka, kb=kb, timeout=300))
    out.append(Job("indices-five", indices, kind="five", k=1))
    out.append(Job("indices-toric", indices, kind="toric", k=2))
    return out
