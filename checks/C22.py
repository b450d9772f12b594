"""C22: the syndrome graph is the code's, and data reach and leave it unchanged."""
import itertools

import numpy as np

from checks.codetools import lattice_rows, make
from checks.common import ONE, ZERO, alleq, anticommute, bor, land, xorsum
from checks.stubs import as_bit
from symx.harness import Job

G_ = "plaquette.syngraph:SyndromeGraph."
FUNCTIONS = tuple(G_ + f for f in ("__init__", "_init_vertices", "_init_qubit_error_edges", "_init_measurement_error_edges", "_check_edges_infweight",
                                   "_check_edges_duplicate", "_init_conn_components", "set_edge_weights", "set_erasure", "set_syndrome", "update_decoder_results",
                                   "result_as_error_op_selection", "result_as_pauli_frame", "get_statistics", "combine_decoding_results")) + (
    "plaquette.decoders.decoderbase:ComponentDecoder.decode", "plaquette.decoders.decoderbase:ComponentDecoder._check_decodable")
BOUNDS = {"quick": "graphs of every 2 generators on 2 qubits (1-3 rounds) and every 3 on 1 qubit; data on planar, rotated, XZZX and toric codes of distance 2-3, repetition 3-5, 1-3 rounds: every syndrome, erasure, edge selection, "
                   "and every such history of two; weights 1, 2, inf, NaN or arbitrary reals on graphs with parallel edges",
          "thorough": "every 3 generators on 2 qubits, every 2 on 3 qubits; distance 5"}
ASSUMPTIONS = ["edges of the same vertices are interchangeable: one of them stands for all"]
PRELOAD = ("plaquette.decoders",)
INF, NAN = float("inf"), float("nan")


def flips(rows, n, p, q):
    op = [ONE if j == q + (n if p == "Z" else 0) else ZERO for j in range(2 * n)] + [ZERO]
    return [i for i, r in enumerate(rows) if anticommute(r, op, n) == 1]


def oracle(rows, n, rounds):
    """[(kind, data, vertices)] of all possible errors."""
    out = []
    for t in range(rounds):
        for p in "XZ":
            for q in range(n):
                out.append(("qubit", (t, p, q), frozenset((t, g) for g in flips(rows, n, p, q))))
    for t in range(1, rounds):
        for g in range(len(rows)):
            out.append(("meas", (t, g), frozenset({(t - 1, g), (t, g)})))
    return out


def classes(verts, links):
    comp = {v: v for v in verts}

    def root(v):
        while comp[v] != v:
            v = comp[v]
        return v

    for e in links:
        e = list(e)
        for v in e[1:]:
            comp[root(v)] = root(e[0])
    out = {}
    for v in verts:
        out.setdefault(root(v), set()).add(v)
    return sorted(map(frozenset, out.values()), key=sorted)


def describe(graph):
    """What is in the components, by names which do not depend on numbering."""
    name = [(v.time_step, v.stabgen_idx) for v in graph.vertices]
    out = []
    for c in graph.components:
        vs = [name[i] for i in c.parent_vertex_idx]
        out.append((vs, [frozenset(vs[v] for v in e) for e in c.edges]))
    return out


def check_graph(env, graph, rows, n, rounds, gone=lambda kind, data: False):
    errs = oracle(rows, n, rounds)
    vname = [(v.time_step, v.stabgen_idx) for v in graph.vertices]
    have = []
    for e in graph.edges:
        vset = frozenset(vname[v.vertex_idx] for v in e.vertices)
        if hasattr(e, "pauli_str"):
            have.append(("qubit", (e.time_step, e.pauli_str, int(e.qubit_idx)), vset))
        else:
            have.append(("meas", (e.time_step, e.stabgen_idx), vset))
    env.check(sorted(vname) == sorted((t, g) for t in range(rounds) for g in range(len(rows))), "one vertex per generator and round")
    env.check(sorted(have, key=repr) == sorted(errs, key=repr), "one edge per error, between the bits it flips")
    links = {v for k, d, v in errs if v and not gone(k, d)}
    want = classes(vname, links)
    desc = describe(graph)
    env.check(sorted((frozenset(vs) for vs, _ in desc), key=sorted) == want and all(len(set(vs)) == len(vs) for vs, _ in desc), "components are the connected parts")
    env.check(all(len(set(es)) == len(es) and set(es) == {e for e in links if e <= set(vs)} for vs, es in desc), "each component has its edges, once")
    env.check(all(c.has_dangling_edges == any(len(e) == 1 for e in es) for c, (_, es) in zip(graph.components, desc)), "dangling edges are known")
    env.check([len(c.edges) > 0 for c in graph.components].count(True) == len(graph.components_with_edges) and all(len(c.edges) > 0 for c in graph.components_with_edges),
              "components with edges are listed")
    st = graph.get_statistics()
    ok = [st["n_vertices"] == len(vname), st["n_edges"] == len(errs), st["n_edges_qubit"] + st["n_edges_stab"] == len(errs),
          st["n_edges_stab"] == sum(k == "meas" for k, _, _ in errs)]
    ok += [st[f"n_{i}_edges"] == sum(len(v) == i for _, _, v in errs) for i in range(3)]
    ok += [st["n_comp"] == len(want), st["n_comp_nontrivial"] + st["n_comp_trivial"] == len(want), st["n_comp_nontrivial"] == len({w for w in want for e in links if e <= w})]
    ok += [sorted(st["n_vertices_in_comp"]) == sorted(len(vs) for vs, es in desc if es), sorted(st["n_edges_in_comp"]) == sorted(len(es) for vs, es in desc if es)]
    env.check(all(ok), "statistics describe the graph")
    env.check(str(len(vname)) in graph.format_statistics(), "statistics can be shown")


def gens(env, n, m, first=None):
    paulis = list(itertools.product((0, 1), repeat=2 * n))
    rows = []
    for i in range(m):
        b = paulis[first] if i == 0 and first is not None else paulis[env.pick(f"g{i}", list(range(len(paulis))))]
        rows.append([np.uint8(x) for x in b] + [np.uint8(env.pick(f"s{i}", [0, 1]) if i == 0 else 0)])
    return rows


def structure(env, n, m, rounds, first=None):
    """Every list of generators."""
    from plaquette.syngraph import SyndromeGraph

    rows = gens(env, n, m, first)
    ops = [np.array(r, dtype="u1") for r in rows]
    if any(len(flips(rows, n, p, q)) > 2 for p in "XZ" for q in range(n)):
        return env.raises(ValueError, lambda: SyndromeGraph(rounds, ops, None), "errors flipping three generators are rejected")
    graph = SyndromeGraph(rounds, ops, None)
    check_graph(env, graph, rows, n, rounds)


def data(env, kind, d, rounds, twice=False, results=True):
    """Syndrome, erasure and decoding result of a code, all values."""
    from plaquette.syngraph import SyndromeGraph

    code = make(kind, d, rounds)
    rows, _ = lattice_rows(code.lattice)
    n, m = code.n_data_qubits, len(rows)
    graph = SyndromeGraph.from_code(code, None)
    errs = oracle(rows, n, rounds)
    for k in range(2 if twice else 1):
        syn = [[env.boolean(f"s{k}.{t}.{g}") for g in range(m)] for t in range(rounds)]
        er = [[env.boolean(f"e{k}.{t}.{q}") for q in range(n)] for t in range(rounds)]
        u1 = k == 1 or rounds == 2  # both kinds of arrays are accepted

        def arr(x):
            if u1:
                return env.state([[as_bit(b) for b in r] for r in x])
            return env.array([b for r in x for b in r], dtype=bool).reshape(len(x), len(x[0]))

        graph.set_syndrome(arr(syn))
        graph.set_erasure(arr(er))
        eb = [[as_bit(b) for b in r] for r in er]
        for c, (vs, es) in zip(graph.components, describe(graph)):
            env.check(alleq([as_bit(b) for b in c.syndrome], [as_bit(syn[t][g]) for t, g in vs]), "every component sees its syndrome")
            if es:
                want = [bor([eb[x[0]][x[2]] for kk, x, v in errs if kk == "qubit" and v == e] + [ZERO]) for e in es]
                env.check(alleq([as_bit(b) for b in c.edge_erased], want), "an edge is erased iff an error it stands for is")
        if not results:
            continue
        sel = []
        for c in graph.components_with_edges:
            y = [env.boolean(f"y{k}.{len(sel)}.{i}") for i in range(len(c.edges))]
            sel.append(y)
            c.set_edge_decoder_results(env.array(y, dtype=bool))
        env.raises(ValueError, graph.result_as_error_op_selection, "results which were not read yet are not used")
        graph.update_decoder_results()
        got = [as_bit(b) for b in graph.result_as_error_op_selection()] + [ZERO]
        env.check(len(got) == 2 * n + 1, "one bit per error operator")
        # boundary of the selection, summed over rounds
        desc = [x for x in describe(graph) if x[1]]
        bd = []
        for g in range(m):
            bd.append(xorsum([as_bit(b) for (vs, es), y in zip(desc, sel) for e, b in zip(es, y) if sum(1 for _, h in e if h == g) % 2]))
        for r, b in zip(rows, bd):
            env.check(anticommute(r, got, n) == b, "the result explains what its edges explain")
        # a selection within the erasure stays within erased qubits
        for c, y in zip(graph.components_with_edges, sel):
            c.set_edge_decoder_results(env.array([(as_bit(b) & as_bit(e)) == 1 for b, e in zip(y, c.edge_erased)], dtype=bool))
        graph.update_decoder_results()
        inside = [as_bit(b) for b in graph.result_as_error_op_selection()]
        for q in range(2 * n):
            env.check((inside[q] & (bor([eb[t][q % n] for t in range(rounds)]) ^ ONE)) == 0, "a correction within the erasure acts on erased qubits only")
        comb = graph.combine_decoding_results([env.array(y, dtype=bool) for y in sel])
        env.check(len(comb) == len(errs), "combined results have one entry per edge")
        for (vs, es), y in zip(desc, sel):
            for e, b in zip(es, y):
                same = [i for i, x in enumerate(graph.edges) if frozenset((v.time_step, v.stabgen_idx) for v in x.vertices) == e]
                env.check(xorsum([as_bit(comb[i]) for i in same]) == as_bit(b), "combined results are the components'")


def frame(env, n, rounds, rows, k):
    """Conversion to an operator, for selections of at most k errors (one path each)."""
    from plaquette.syngraph import SyndromeGraph

    from checks.codetools import at_least

    graph = SyndromeGraph(rounds, [np.array(r, dtype="u1") for r in rows], None)
    y = {}
    for j, c in enumerate(graph.components_with_edges):
        y[j] = [env.bit(f"y{j}.{i}") for i in range(len(c.edges))]
    allb = [b for v in y.values() for b in v]
    if k < len(allb):
        env.assume(at_least(allb, k + 1) == 0)
    for j, c in enumerate(graph.components_with_edges):
        c.set_edge_decoder_results(env.array([b == 1 for b in y[j]], dtype=bool))
    graph.update_decoder_results()
    sel = [as_bit(b) for b in graph.result_as_error_op_selection()]
    got = graph.result_as_pauli_frame()
    env.check(len(got) == 2 * n + 1, "an operator on the data qubits")
    env.check(alleq(list(got[: 2 * n]), sel), "the operator is the product of the selected errors")


def weights(env, rows, n, rounds, mode):
    """Parallel edges keep the lightest, infinitely heavy ones disappear."""
    from plaquette.syngraph import SyndromeGraph

    m = len(rows)
    if mode == "real":
        def draw(k):
            return env.real(k, 0, 100) if env.symbolic else float(env.real(k))
        px, pz, pm = [draw(f"x{i}") for i in range(n)], [draw(f"z{i}") for i in range(n)], [draw(f"m{i}") for i in range(m)]
        args = dict(pauli_x=env.array(px, dtype=float), pauli_z=env.array(pz, dtype=float), measurement=env.array(pm, dtype=float))
    elif mode == "scalar":
        a, b, c = env.pick("x", [0.5, 2.0, INF, NAN]), env.pick("z", [0.5, INF, NAN]), env.pick("m", [1.0, INF, NAN])
        px, pz, pm = [a] * n, [b] * n, [c] * m
        args = dict(pauli_x=a, pauli_z=b, measurement=c)
    else:
        opts = [0.5, 2.0, INF]
        px, pz = [env.pick(f"x{i}", opts) for i in range(n)], [env.pick(f"z{i}", opts) for i in range(n)]
        pm = [env.pick(f"m{i}", [1.0, INF]) for i in range(m)]
        args = dict(pauli_x=np.array(px), pauli_z=np.array(pz), measurement=np.array(pm))
    ops = [np.array(r, dtype="u1") for r in rows]
    errs = oracle(rows, n, rounds)
    wt = {(k, x): (px[x[2]] if x[1] == "X" else pz[x[2]]) if k == "qubit" else pm[x[1]] for k, x, _ in errs}

    def isnan(w):
        return isinstance(w, float) and w != w

    def isinf(w):
        return isinstance(w, float) and w == INF

    groups = {}
    for k, x, v in errs:
        if v:
            groups.setdefault(v, []).append(wt[k, x])
    if any(any(map(isnan, ws)) and not all(map(isnan, ws)) for ws in groups.values()):
        return env.raises(ValueError, lambda: SyndromeGraph(rounds, ops, args), "parallel edges with and without weights are rejected")
    graph = SyndromeGraph(rounds, ops, args)
    check_graph(env, graph, rows, n, rounds, gone=lambda k, x: isinf(wt[k, x]))
    for c, (vs, es) in zip(graph.components, describe(graph)):
        if not es:
            continue
        env.check(len(c.edge_weights) == len(es), "one weight per edge")
        for e, w in zip(es, c.edge_weights):
            ws = groups[e]
            if isnan(ws[0]):
                env.check(bool(np.isnan(w)), "no weight stays no weight")
                continue
            env.check(land([w <= x for x in ws]), "an edge is as light as the lightest error it stands for")
            env.check(bor([as_bit(w == x) for x in ws]) == 1, "an edge has the weight of an error it stands for")
    # the represented error is the lightest one
    for j, c in enumerate(graph.components_with_edges):
        for i in range(len(c.edges)):
            for cc in graph.components_with_edges:
                cc.set_edge_decoder_results(np.array([cc is c and k == i for k in range(len(cc.edges))]))
            graph.update_decoder_results()
            sel = [int(x) for x in np.where(graph.result_as_error_op_selection())[0]]
            w = c.edge_weights[i]
            if sel and not isnan(w):
                ok = [wt[k, x] for k, x, v in errs if k == "qubit" and "XZ".index(x[1]) * n + x[2] == sel[0]]
                env.check(len(sel) == 1 and (ok[0] == w), "a result stands for the lightest error")


class Recorder:
    made = []

    def __init__(self):
        Recorder.made.append(self)
        self.calls = 0

    def set_syngraph(self, sgraph):
        self.graph = sgraph

    def update_weights(self):
        pass

    def decode(self):
        self.calls += 1


def decodable(env, rows, n, rounds, args=None, twice=False):
    """Undecodable syndromes are rejected, all others reach every decoder once."""
    from plaquette.decoders.decoderbase import ComponentDecoder
    from plaquette.syngraph import SyndromeGraph

    Recorder.made = []
    graph = SyndromeGraph(rounds, [np.array(r, dtype="u1") for r in rows], args)
    dec = ComponentDecoder(Recorder)
    z = np.zeros([rounds, len(rows)], dtype=bool)
    env.raises(ValueError, lambda: dec.decode(None, z), "no decoding without a graph")
    dec.set_syngraph(graph)
    env.check([r.graph for r in Recorder.made] == graph.components_with_edges, "one decoder per component")
    syn = [[env.boolean(f"s{t}.{g}") for g in range(len(rows))] for t in range(rounds)]
    arr = env.array([b for r in syn for b in r], dtype=bool).reshape(rounds, len(rows))
    odd = []
    for c, (vs, es) in zip(graph.components, describe(graph)):
        if not any(len(e) == 1 for e in es):
            odd.append(xorsum([as_bit(syn[t][g]) for t, g in vs]))
    if bool(bor(odd + [ZERO]) == 1):
        env.raises(ValueError, lambda: dec.decode(None, arr), "a syndrome no error explains is rejected")
    else:
        dec.decode(None, arr)
        env.check(all(r.calls == 1 for r in Recorder.made), "every component is decoded once")


def malformed(env, kind="planar"):
    from plaquette.syngraph import SyndromeGraph

    code = make(kind, 2, 2)
    graph = SyndromeGraph.from_code(code, None)
    n, m = code.n_data_qubits, code.n_stabgens
    a, b = env.pick("rounds", [1, 2, 3]), env.pick("width", [-1, 0, 1])
    t = env.pick("dtype", ["bool", "u1", "float"])
    for f, w in ((graph.set_erasure, n), (graph.set_syndrome, m)):
        x = np.zeros([a, w + b], dtype=t)
        if a == 2 and b == 0 and t != "float":
            f(x)
            env.check(True, "accepted")
        else:
            env.raises(AssertionError, lambda: f(x), "arrays of the wrong form are rejected")
    graph.set_erasure(None)
    graph.set_syndrome(None)
    env.check(not any(c.syndrome.any() for c in graph.components) and not any(c.edge_erased.any() for c in graph.components_with_edges), "nothing means no erasure and no syndrome")


def R(*ops):
    n = len(ops[0])
    return [[np.uint8(c in "XY") for c in o] + [np.uint8(c in "ZY") for c in o] + [ZERO] for o in ops]


SMALL = {
    "zz": (R("ZZ"), 2), "xz-parallel": (R("XX", "ZZ"), 2), "line": (R("ZZI", "IZZ"), 3), "mixed": (R("XZI", "IXX"), 3), "loop": (R("ZZI", "IZZ", "ZIZ"), 3),
}


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        w = kw.pop("weight", 5)
        out.append(Job(name, fn, timeout=3000 if th else 560, weight=w, **kw))

    for r in (1, 2, 3):
        add(f"structure-2-2-r{r}", structure, n=2, m=2, rounds=r, weight=30)
        add(f"structure-1-3-r{r}", structure, n=1, m=3, rounds=r)
    if th:
        for f in range(16):
            add(f"structure-2-3-r2-{f}", structure, n=2, m=3, rounds=2, first=f, weight=40)
        for f in range(64):
            add(f"structure-3-2-r2-{f}", structure, n=3, m=2, rounds=2, first=f, weight=40)
    for kind, d, r in (("planar", 2, 1), ("planar", 3, 2), ("rotated", 3, 1), ("rotated", 2, 3), ("xzzx", 3, 2), ("toric", 2, 2), ("toric", 3, 1), ("repetition", 3, 3),
                       ("repetition", 5, 1)) + ((("planar", 5, 3), ("rotated", 5, 2), ("toric", 4, 2)) if th else ()):
        add(f"data-{kind}-{d}-r{r}", data, kind=kind, d=d, rounds=r, twice=False, logic="QF_FD", alloc=True, weight=20)
        if d < 4:
            add(f"data2-{kind}-{d}-r{r}", data, kind=kind, d=d, rounds=r, twice=True, logic="QF_FD", alloc=True, weight=25)
    for name, (rows, n) in SMALL.items():
        for r in (1, 2):
            add(f"frame-{name}-r{r}", frame, n=n, rounds=r, rows=rows, k=3, logic="QF_FD")
            if not (r == 1 or n > 2):
                add(f"weights-{name}-r{r}", weights, rows=rows, n=n, rounds=r, mode="pick", weight=20)
            add(f"weights-{name}-r{r}-scalar", weights, rows=rows, n=n, rounds=r, mode="scalar")
            add(f"weights-{name}-r{r}-real", weights, rows=rows, n=n, rounds=r, mode="real", alloc=True, weight=20)
            for k, args in (("", None), ("-no-x", dict(pauli_x=INF, pauli_z=1.0, measurement=1.0)), ("-no-z", dict(pauli_x=1.0, pauli_z=INF, measurement=INF))):
                add(f"decodable-{name}-r{r}{k}", decodable, rows=rows, n=n, rounds=r, args=args)
    add("malformed", malformed)
    return out
