"""C17: codes defined from operators or from a lattice have exactly the given operators."""
import itertools

import numpy as np

from checks.codetools import at_least, combine, lattice_rows, vertex_row
from checks.common import ONE, ZERO, alleq, anticommute, land, rows_of
from symx.harness import Job

FUNCTIONS = ("plaquette.codes:LatticeCode.from_operators", "plaquette.codes.latticebase:CodeLatticeFromStab.__init__",
             "plaquette.codes.latticebase:CodeLatticeFromStab._add_edges_from_str", "plaquette.codes.latticebase:CodeLattice._vertices_to_operators",
             "plaquette.codes.latticebase:CodeLattice.add_edge", "plaquette.codes.latticebase:CodeLattice.remove_edge",
             "plaquette.codes.latticebase:CodeLattice.remove_vertex", "plaquette.codes.latticebase:CodeLattice.assign_indices",
             "plaquette.codes.latticebase:CodeLattice.multiply_logical_with_stab", "plaquette.codes.latticebase:CodeLattice.create_superstab")
BOUNDS = {"quick": "from_operators: one operator with arbitrary factors and sign among <= 6 on 2-3 qubits, sizes up to [[6,4,2]]; lattices with 3 qubits, 2 operators, <= 4 edges added in any order with any factors, then one edit; a lattice with 6 edges, then two edits in turn with or without new indices in between",
          "thorough": "from_operators: two arbitrary operators on 3 qubits, one on 4; lattices with <= 5 edges; three edits in turn"}
ASSUMPTIONS = ["the sign of an operator is not part of a lattice code (documented: only the factors are kept)"]


def from_operators(env, n, s, k, which):
    """Operators given to from_operators come back, in order."""
    from plaquette.codes import LatticeCode

    rows = []
    for i in range(s + 2 * k):
        if i in which:
            rows.append([env.bit(f"o{i}.{j}") for j in range(2 * n + 1)])
        else:
            rows.append([ONE if (j * (i + 3)) % 5 in (1, 2) or j == i % n else ZERO for j in range(2 * n)] + [ZERO])
    for i in which:
        env.assume(at_least(rows[i][:-1], 1) == 1)  # the identity is not a generator
    ops = [env.array(r) for r in rows]
    code = LatticeCode.from_operators(ops[:s], ops[s:], 2)
    env.check(code.n_rounds == 2 and code.n_data_qubits == n and code.n_stabgens == s and code.n_logical_qubits == k, "counts")
    got = [*code.stabilisers, *code.logical_ops]
    env.check(len(got) == s + 2 * k, "number of operators")
    for r, o in zip(rows, got):
        env.check(o.shape == (2 * n + 1,), "operators act on all data qubits")
        env.check(alleq(o[:-1], r[:-1]), "factors are the given ones")
        env.check(o[-1] == 0, "operators carry no sign")
    S, L = lattice_rows(code.lattice)
    env.check(land(*[alleq(a[:-1], b[:-1]) for a, b in zip(S + L, rows)]), "lattice edges are the factors")
    env.check(all(alleq(a, b) for a, b in zip(code.logical_x, code.logical_ops[::2])) and len(code.logical_x) == k == len(code.logical_z), "X and Z logicals")


def detectors(env, n):
    """Codes with more logical operators than qubits: the [[n, n-2, 2]] codes."""
    from plaquette.codes import LatticeCode
    from plaquette.pauli import string_to_pauli

    k = n - 2
    st = ["X" * n, "Z" * n]
    lo = []
    for i in range(k):
        lo.append("X" + "".join("X" if j == i else "I" for j in range(n - 1)))
        lo.append("".join("Z" if j == i else "I" for j in range(n - 1)))
        lo[-1] = "I" + lo[-1][:n - 2] + "Z"
    code = LatticeCode.from_operators([string_to_pauli(x) for x in st], [string_to_pauli(x) for x in lo], 1)
    env.check(["".join("IXZY"[int(r[q]) + 2 * int(r[q + n])] for q in range(n)) for r in [*code.stabilisers, *code.logical_ops]] == st + lo, "factors are the given ones")
    code.check()


def lor(a, b):
    if isinstance(a, (bool, np.bool_)):
        return True if a else b
    if isinstance(b, (bool, np.bool_)):
        return True if b else a
    return a | b


def build(env, n, edges, given):
    from plaquette.codes import latticebase as lb

    lat = lb.CodeLattice((n, 4))
    for i in range(n):
        lat.add_data((i, 1))
    lat.add_stabgen((0, 0), lb.StabGroup.A)
    lat.add_stabgen((1, 0), lb.StabGroup.B)
    lat.add_logical((0, 2), "X")
    lat.add_logical((1, 2), "Z")
    ops = [lat.lattice[0, 0], lat.lattice[1, 0], lat.lattice[0, 2], lat.lattice[1, 2]]
    spec = {}
    for (q, o) in edges:
        fs = [lb.Pauli.X, lb.Pauli.Y, lb.Pauli.Z]
        f = env.choice(f"f{q}.{o}", fs) if given is None else fs[given[q, o]]
        spec[q, o] = f
        lat.add_edge(lat.lattice[q, 1], ops[o], f)
    return lat, ops, spec


def want_rows(spec, qubits, nops):
    n = len(qubits)
    rows = [[ZERO] * (2 * n + 1) for _ in range(nops)]
    for (q, o), f in spec.items():
        i = qubits.index(q)
        rows[o][i] = ZERO if f is None else lor(f == 1, f == 2)
        rows[o][i + n] = ZERO if f is None else lor(f == 2, f == 3)
    return rows


def check_lat(env, lat, spec, qubits, stabs, logs, what):
    rows = want_rows(spec, qubits, 4)
    n = len(qubits)
    st, lo = lat.stabilisers, lat.logical_operators
    env.check(len(st) == len(stabs) and len(lo) == len(logs), f"{what}: number of operators")
    for o, g in zip(stabs + logs, [*st, *lo]):
        env.check(g.shape == (2 * n + 1,), f"{what}: operators act on all qubits")
        env.check(land(*[(a == 1) == (b == 1) for a, b in zip(g, rows[o])]), f"{what}: operators are read off the edges")
    env.check([v.equbit_idx for v in lat.equbits] == list(range(n + len(stabs) + len(logs))), f"{what}: extended indices")
    env.check([v.pos[0] for v in lat.equbits[:n]] == qubits, f"{what}: data qubits come first")
    for v in lat.vertices:
        env.check(len(v.edges) == len(v.neighbours), f"{what}: edges and neighbours agree")
    env.check(sum(len(v.edges) for v in lat.vertices) == 2 * len(lat.edges), f"{what}: edge list is complete")


def lattice(env, m, n, edit):
    """Edges in any order; then an edit of the lattice."""
    slots = [(q, o) for q in range(n) for o in range(4)]
    first = env.pick("e0", slots)
    edges = [first]
    for i in range(1, m):
        rest = [s for s in slots if s not in edges]
        # any order, any set: orders of the same set are explored by the picks
        edges.append(rest[env.pick(f"e{i}", [0, 1, len(rest) // 2, len(rest) - 1] if m < 3 else [0, len(rest) - 1])])
    lat, ops, spec = build(env, n, edges, None)
    lat.assign_indices()
    if edit == "none":
        return check_lat(env, lat, spec, list(range(n)), [0, 1], [2, 3], "as built")
    if edit == "remove-edge":
        e = edges[env.pick("gone", list(range(m)))]
        lat.remove_edge(next(x for x in lat.edges if x.data is lat.lattice[e[0], 1] and x.op is ops[e[1]]))
        del spec[e]
        return check_lat(env, lat, spec, list(range(n)), [0, 1], [2, 3], "after removing an edge")
    if edit == "remove-stab":
        lat.remove_stabilizer(ops[0])
        lat.assign_indices()
        spec = {k: v for k, v in spec.items() if k[1] != 0}
        return check_lat(env, lat, spec, list(range(n)), [1], [2, 3], "after removing a generator")
    if edit == "remove-data":
        q = env.pick("q", list(range(n)))
        if any(k[0] == q for k in spec):
            env.raises(ValueError, lambda: lat.remove_vertex(lat.lattice[q, 1]), "a connected vertex cannot be removed")
            return check_lat(env, lat, spec, list(range(n)), [0, 1], [2, 3], "after a refused removal")
        lat.remove_vertex(lat.lattice[q, 1])
        lat.assign_indices()
        return check_lat(env, lat, spec, [i for i in range(n) if i != q], [0, 1], [2, 3], "after removing a qubit")
    clash = False
    if edit == "superstab":
        a, b = 0, 1
    else:
        a, b = 2, 0
    new = {k: v for k, v in spec.items() if k[1] != a and not (edit == "superstab" and k[1] == b)}
    for q in range(n):
        fa, fb = spec.get((q, a)), spec.get((q, b))
        if fa is not None and fb is not None:
            clash = lor(clash, fa != fb)
        elif fa is not None or fb is not None:
            new[q, a] = fb if fa is None else fa
    run = (lambda: lat.create_superstab(ops[0], ops[1])) if edit == "superstab" else (lambda: lat.multiply_logical_with_stab(ops[2], ops[0]))
    env.assume(clash == False)  # factors that differ are not supported  # noqa: E712
    run()
    lat.assign_indices()
    check_lat(env, lat, new, list(range(n)), [0] if edit == "superstab" else [0, 1], [2, 3], f"after {edit}")


def edits(env, first, steps):
    """Several edits in a row, with or without new indices in between."""
    from plaquette.codes import latticebase as lb

    n = 3
    edges = [(0, 0), (1, 0), (1, 1), (2, 1), (0, 2), (2, 3)]
    lat, ops, spec = build(env, n, edges, {e: i % 3 for i, e in enumerate(edges)})
    for pos in ((n, 1), (n + 1, 1)):  # free places
        lat.lattice = np.vstack([lat.lattice, np.full((1, lat.lattice.shape[1]), None, dtype=object)])
    lat.assign_indices()
    qubits, live = list(range(n)), [0, 1, 2, 3]
    indexed = list(lat.equbits)
    vert = {("q", q): lat.lattice[q, 1] for q in qubits} | {("o", o): ops[o] for o in live}

    def cut(keep):
        for x in [x for x in lat.edges if not keep(x)]:
            lat.remove_edge(x)

    for k in range(steps):
        kind = first if k == 0 else env.pick(f"edit{k}", ["drop-data", "drop-op", "add-edge", "remove-edge", "add-data"])
        if kind == "drop-data":
            if not qubits:
                return
            q = qubits.pop(env.pick(f"q{k}", list(range(len(qubits)))))
            v = vert.pop(("q", q))
            cut(lambda x: x.data is not v)
            lat.remove_vertex(v)
            spec = {s: f for s, f in spec.items() if s[0] != q}
            indexed = [x for x in indexed if x is not v]
        elif kind == "drop-op":
            if not live:
                return
            o = live.pop(env.pick(f"o{k}", list(range(len(live)))))
            v = vert.pop(("o", o))
            if o < 2 and env.pick(f"how{k}", [0, 1]):
                lat.remove_stabilizer(v)
            else:
                cut(lambda x: x.op is not v)
                lat.remove_vertex(v)
            spec = {s: f for s, f in spec.items() if s[1] != o}
            indexed = [x for x in indexed if x is not v]
        elif kind == "add-data":
            q = n if n not in qubits and ("q", n) not in vert and lat.lattice[n, 1] is None else n + 1
            if q in qubits:
                return
            lat.add_data((q, 1))
            vert["q", q] = lat.lattice[q, 1]
            qubits.append(q)
        else:
            slots = [(q, o) for q in qubits for o in live if ((q, o) in spec) == (kind == "remove-edge")]
            if not slots:
                return
            q, o = slots[env.pick(f"slot{k}", sorted({0, len(slots) // 2, len(slots) - 1}))]
            if kind == "add-edge":
                f = env.choice(f"new{k}", [lb.Pauli.X, lb.Pauli.Y, lb.Pauli.Z])
                lat.add_edge(vert["q", q], vert["o", o], f)
                spec[q, o] = f
            else:
                lat.remove_edge(next(x for x in lat.edges if x.data is vert["q", q] and x.op is vert["o", o]))
                del spec[q, o]
        same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))  # noqa: E731
        env.check(same(lat.dataqubits, [vert["q", q] for q in qubits]), f"{kind}: data qubits")
        env.check(same([*lat.stabgens, *lat.logical_ops], [vert["o", o] for o in live]), f"{kind}: operators")
        env.check(same(lat.equbits, indexed), f"{kind}: vertices with an index")
        env.check({id(v) for v in lat.vertices} == {id(v) for v in vert.values()} and len(lat.vertices) == len(vert), f"{kind}: vertices")
        env.check(all(lat.get_vertex_at_pos(v.pos, allow_empty=False) is v for v in vert.values()), f"{kind}: places")
        if env.pick(f"assign{k}", [False, True]) or k == steps - 1:
            lat.assign_indices()
            indexed = [vert["q", q] for q in qubits] + [vert["o", o] for o in live]
            env.check(same(lat.equbits, indexed), f"{kind}: new indices")
    if qubits:
        check_lat(env, lat, spec, qubits, [o for o in live if o < 2], [o for o in live if o > 1], "after several edits")
    for i, (check, cls) in itertools.product([-1, *range(len(indexed) + 1), "0", 0.0, (0, 1)],
                                             ((lat.check_equbit_is_data, lb.DataVertex), (lat.check_equbit_is_stabgen, lb.StabGenVertex))):
        if isinstance(i, int) and 0 <= i < len(indexed) and isinstance(indexed[i], cls):
            check(i, what="test")
        else:
            env.raises(ValueError, lambda: check(i), "only indices of the right kind are accepted")


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n, s, k in ((2, 1, 1), (3, 2, 1), (3, 1, 1)):
        for w in range(s + 2 * k):
            out.append(Job(f"from-{n}-{s}-{k}-{w}", from_operators, n=n, s=s, k=k, which=(w,), timeout=600))
    if th:
        for w in itertools.combinations(range(3), 2):
            out.append(Job(f"from2-2-{w}", from_operators, n=2, s=1, k=1, which=w, timeout=2000))
        out.append(Job("from-4", from_operators, n=4, s=3, k=1, which=(1,), timeout=2000))
        out.append(Job("from2-3", from_operators, n=3, s=2, k=1, which=(0, 3), timeout=2000))
    for n in (4, 6, 8):
        out.append(Job(f"detector-{n}", detectors, n=n))
    for first in ("drop-data", "drop-op", "add-edge", "remove-edge", "add-data"):
        out.append(Job(f"edits-{first}", edits, first=first, steps=2, timeout=600, weight=5))
        if th:
            out.append(Job(f"edits3-{first}", edits, first=first, steps=3, timeout=3000, weight=5))
    for edit in ("none", "remove-edge", "remove-stab", "remove-data", "superstab", "multiply"):
        for m in (2, 3) + ((4,) if th else ()):
            out.append(Job(f"lattice-{edit}-{m}", lattice, m=m, n=3 if m < 4 else 2, edit=edit, timeout=1500))
    return out
