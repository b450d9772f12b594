"""C20: union-find and erasure decoding return valid corrections and keep the code's distance."""
import warnings

import numpy as np

from checks.codetools import at_least, lattice_rows, make
from checks.common import ONE, ZERO, alleq, anticommute, bor, land, xorsum
from symx.harness import Job

U, E_, I_ = "plaquette.decoders.unionfind_decoder:", "plaquette.decoders.unionfind_erasure:", "plaquette.decoders.unionfind_interfaces:"
FUNCTIONS = (U + "UnionFindNoWeights.union_find", U + "UnionFindNoWeights.step", U + "UnionFindNoWeights.handle_new_edges", U + "Graph.init",
             U + "Graph.init_erasure_clusters", U + "Cluster.merge_with", U + "Cluster.update_after_growth", U + "UnionFindNoWeights.set_weights",
             E_ + "ErasureDecoder.decode", E_ + "ErasureDecoder.construct_forest", E_ + "ErasureDecoder.peel_forest", E_ + "Graph.enable_edge",
             I_ + "UnionFindBase.decode", I_ + "UnionFindBase.set_syngraph", "plaquette.decoders.decoderbase:DecoderInterface.decode",
             "plaquette.decoders.decoderbase:ComponentDecoder._check_decodable", "plaquette.syngraph:SyndromeGraph.set_erasure",
             "plaquette.syngraph:SyndromeGraph.result_as_pauli_frame")
BOUNDS = {"quick": "every multigraph with <= 3 vertices and 3 edges (dangling and parallel edges included) and selected graphs up to 5 vertices and 7 edges: every erasure, every syndrome, "
                   "every pair of decodings by one decoder, weights from {0.5, 1, 2.25} or arbitrary reals (3 edges, ratios up to 2); codes: planar, rotated, toric of distance 2, planar, rotated, XZZX of distance 3, repetition 3 and 5 (up to 3 rounds): every s erasures and t errors with s + 2t < d (toric 3 and rotated 3 in two rounds: s = 0)",
          "thorough": "graphs with 4 edges, real weights on 4 edges, planar and rotated codes of distance 4 and 5 (all errors, up to 3 erasures), toric 4, up to 4 rounds"}
ASSUMPTIONS = ["edges connect two different vertices or dangle from one", "the distance guarantee is claimed for unweighted decoding and for uniform weights"]


def boundary(edges, sel, v):
    return xorsum([x for e, x in zip(edges, sel) if v in e])


def kinds(nv):
    return [(v,) for v in range(nv)] + [(a, b) for a in range(nv) for b in range(a + 1, nv)]


def components(nv, edges):
    comp = list(range(nv))
    for e in edges * nv:
        m = min(comp[v] for v in e)
        for v in e:
            comp[v] = m
    return [[v for v in range(nv) if comp[v] == c] for c in sorted(set(comp))]


def mkdec(name, nv, edges):
    from plaquette.decoders import unionfind_decoder as ud
    from plaquette.decoders import unionfind_erasure as ue

    g = ue.Graph(nv, edges)
    if name == "erasure":
        return ue.ErasureDecoder(g)
    return ud.UnionFindDecoder(getattr(ud, name), g)


def as_bit(x):
    return x ^ ONE ^ ONE if not isinstance(x, (bool, np.bool_)) else (ONE if x else ZERO)


def graph(env, nv, edges, cls="UnionFindNoWeights", weights=None, mode="any", first=None, pin=0):
    """Low-level decoder on a given or chosen multigraph."""
    if isinstance(edges, int):
        ks = kinds(nv)
        es = []
        for i in range(edges):  # non-decreasing choices: multisets
            lo = ks.index(es[-1]) if es else 0
            es.append(ks[first] if i == 0 and first is not None else ks[env.pick(f"edge{i}", list(range(lo, len(ks))))])
        edges = es
    ne = len(edges)
    dec = mkdec(cls, nv, list(edges))
    if weights == "real":
        # only ratios matter: the smallest weight is 1
        w = [1.0 if i == pin else env.real(f"w{i}", 1, 2) for i in range(ne)]
        w = [1.0 if not hasattr(x, "z") and x == 0 else x for x in w]
        dec.set_weights(env.array(w, dtype=float))
    elif weights:
        dec.set_weights(np.array([env.pick(f"w{i}", list(weights)) for i in range(ne)], dtype=float))
    erased = [env.boolean(f"er{i}") for i in range(ne)]
    comps = components(nv, edges)
    if mode == "erasure":
        x = [env.bit(f"x{i}") & er for i, er in zip(range(ne), erased)]
        syn = [boundary(edges, x, v) for v in range(nv)]
    else:
        syn = [env.boolean(f"s{v}") for v in range(nv)]
    syn_b = [as_bit(s) for s in syn]
    open_comps = [c for c in comps if not any(len(e) == 1 and e[0] in c for e in edges)]
    odd = [xorsum([syn_b[v] for v in c]) for c in open_comps]
    idx = [i for i in range(ne) if erased[i]]
    vec = [bool(s) for s in syn]
    if mode == "history":
        idx0 = [i for i in range(ne) if env.pick(f"er0{i}", [False, True])]
        vec0 = [env.pick(f"s0{v}", [False, True]) for v in range(nv)]
        try:
            dec.decode(idx0, list(vec0))
        except AssertionError:
            pass
        fresh = mkdec(cls, nv, list(edges))
        try:
            want = fresh.decode(list(idx), list(vec))
        except AssertionError:
            return env.raises(AssertionError, lambda: dec.decode(idx, vec), "undecodable whatever was decoded before")
        got = dec.decode(idx, vec)
        env.check(land([bool(a) == bool(b) for a, b in zip(got, want)]), "decoding does not depend on earlier decodings")
        return
    undecodable = any(bool(o) for o in odd)
    if undecodable:
        return env.raises(AssertionError, lambda: dec.decode(idx, vec), "an undecodable syndrome is not silently decoded")
    got = dec.decode(idx, vec)
    env.check(len(got) == ne, "one entry per edge")
    sel = [ONE if g else ZERO for g in got]
    env.check(alleq([boundary(edges, sel, v) for v in range(nv)], syn_b), "the correction explains the syndrome")
    if mode == "erasure":
        env.check(land([(g & (er ^ ONE)) == 0 for g, er in zip(sel, [as_bit(e) for e in erased])]), "a syndrome explained by erasures is corrected within them")
    if cls != "erasure":
        grown = dec.uf.union_find(idx, vec)
        env.check(set(idx) <= set(grown) and {i for i, g in enumerate(got) if g} <= set(grown), "the correction lies within erased and grown edges")


def uniform(code, p=0.05):
    n, m = len(code.lattice.dataqubits), len(code.lattice.stabgens)
    ed = {"pauli": {q: {"x": p, "y": 0.0 + p / 100, "z": p} for q in range(n)}}
    if code.n_rounds > 1:
        ed["measurement"] = {v.equbit_idx: {"p": p + p / 100} for v in code.lattice.stabgens}
    return ed


def surface(env, kind, d, rounds, s, cls, weighted, paulis="XZ", lo=None, hi=None, t=None):
    """s erasures and t faults with s + 2t < d never cause a logical error."""
    from plaquette import decoders

    code = make(kind, d, rounds)
    n = code.n_data_qubits
    S, L = lattice_rows(code.lattice)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dec = getattr(decoders, cls).from_code(code, uniform(code) if weighted else None, weighted=weighted)
    if t is None:
        t = (d - s - 1) // 2
    sites = [(r, q) for r in range(rounds) for q in range(n)]
    er = {x: ZERO for x in sites}
    if s:
        if lo is None:
            er = {x: env.bit(f"er{x[0]}.{x[1]}") for x in sites}
        else:  # first erased site given
            er = {x: (ZERO if i < lo else ONE if i == lo else env.bit(f"er{x[0]}.{x[1]}")) for i, x in enumerate(sites)}
        env.assume(at_least(list(er.values()), s) == 1)
        env.assume(at_least(list(er.values()), s + 1) == 0)
    e = {(x, p): env.bit(f"{p}{x[0]}.{x[1]}") if p in paulis else ZERO for x in sites for p in "XZ"}
    m = {(r, i): env.bit(f"m{r}.{i}") for r in range(rounds - 1) for i in range(len(S))}
    if t == 0 and s == 0:
        for b in list(e.values()) + list(m.values()):
            env.assume((b ^ ZERO) == 0)
    faults = [bor([e[x, "X"], e[x, "Z"]]) & (er[x] ^ ONE) for x in sites] + list(m.values())
    # X and Z parts are decoded independently if every generator is of one type
    env.assume(at_least(faults, t + 1) == 0)
    syn = []
    for r in range(rounds):
        op = [e[(r, q), "X"] for q in range(n)] + [e[(r, q), "Z"] for q in range(n)] + [ZERO]
        for i, row in enumerate(S):
            flips = [m[x] for x in ((r, i), (r - 1, i)) if x in m]
            syn.append(xorsum([anticommute(row, op, n)] + flips))
    synarr = env.array([sy == 1 for sy in syn], dtype=bool).reshape(rounds, len(S))
    erarr = env.array([er[x] == 1 for x in sites], dtype=bool).reshape(rounds, n) if s else None
    corr = dec.decode(erarr, synarr)
    total = [xorsum([e[(r, q), p] for r in range(rounds)]) for p in "XZ" for q in range(n)]
    env.check(len(corr) == 2 * n + 1, "one operator on the data qubits")
    rest = [a ^ b for a, b in zip(total, corr)] + [ZERO]
    env.check(alleq([anticommute(row, rest, n) for row in S], [0] * len(S)), "the correction explains the syndrome")
    env.check(alleq([anticommute(row, rest, n) for row in logicals(kind, L)], [0] * len(logicals(kind, L))), "no logical error within the distance")


def logicals(kind, L):
    # a repetition code only protects against X errors
    return L[1::2] if kind == "repetition" else L


GRAPHS = {
    "path-dangling": (4, [(0,), (0, 1), (1, 2), (2, 3), (3,)]),
    "cycle": (4, [(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)]),
    "parallel": (3, [(0, 1), (0, 1), (1, 2), (2,), (2,)]),
    "grid": (5, [(0,), (0, 1), (1, 2), (2,), (1, 3), (3, 4), (4,)]),
    "star": (5, [(0, 1), (0, 2), (0, 3), (0, 4), (4,)]),
    "two-parts": (5, [(0, 1), (1,), (2, 3), (3, 4), (2, 4)]),
}


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        w = kw.pop("weight", 5)
        out.append(Job(name, fn, timeout=3000 if th else 800, weight=w, **kw))

    ne = 4 if th else 3
    for f in range(6):
        for cls in ("UnionFindNoWeights", "UnionFind"):
            add(f"all-3-{ne}-{cls}-{f}", graph, nv=3, edges=ne, first=f, cls=cls, weight=60)
    for name, (nv, edges) in GRAPHS.items():
        for cls in ("UnionFindNoWeights", "UnionFind"):
            add(f"{name}-{cls}", graph, nv=nv, edges=edges, cls=cls, weight=40)
        add(f"{name}-erasures", graph, nv=nv, edges=edges, mode="erasure", weight=20)
        add(f"{name}-erasure-decoder", graph, nv=nv, edges=edges, cls="erasure", mode="erasure", weight=20)
    for name in ("parallel", "path-dangling") if not th else ("parallel", "path-dangling", "cycle", "star"):
        add(f"{name}-weights", graph, nv=GRAPHS[name][0], edges=GRAPHS[name][1], cls="UnionFind", weights=(0.5, 1.0) if not th else (0.5, 1.0, 2.25), weight=80)
    for nv, edges in ((2, [(0,), (0, 1), (1,)]), (3, [(0, 1), (1, 2), (2,)])) + (((2, [(0,), (0, 1), (0, 1), (1,)]),) if th else ()):
        for pin in range(len(edges)):
            add(f"real-weights-{nv}-{len(edges)}-{pin}", graph, nv=nv, edges=edges, cls="UnionFind", weights="real", pin=pin, weight=50)
    for nv, edges in ((2, [(0,), (0, 1), (1,)]), (3, [(0, 1), (1, 2), (0, 2)])) + (((3, [(0, 1), (1, 2), (0, 2), (2,)]),) if th else ()):
        add(f"history-{nv}-{len(edges)}", graph, nv=nv, edges=edges, mode="history", weight=30)
        add(f"history-{nv}-{len(edges)}-w", graph, nv=nv, edges=edges, mode="history", cls="UnionFind", weight=30)

    decs = (("UnionFindNoWeights", False), ("UnionFindDecoder", False), ("UnionFindDecoder", True))
    for kind, d, rounds in (("planar", 2, 1), ("rotated", 2, 1), ("toric", 2, 1), ("repetition", 3, 1), ("repetition", 3, 2), ("repetition", 3, 3), ("repetition", 5, 1),
                            ("planar", 3, 1), ("rotated", 3, 1), ("xzzx", 3, 1), ("toric", 3, 1), ("rotated", 3, 2), ("repetition", 5, 2)):
        for s in range(0, d):
            for cls, weighted in decs:
                if cls == "UnionFindDecoder" and not weighted and (d == 2 or rounds > 1):
                    continue
                if not th and (rounds > 1 and s > (kind == "repetition") or kind == "toric" and d > 2 and s):
                    continue
                add(f"{kind}-{d}-r{rounds}-s{s}-{cls}{'-w' if weighted else ''}", surface, kind=kind, d=d, rounds=rounds, s=s, cls=cls, weighted=weighted,
                    paulis="X" if kind == "repetition" else "XZ", weight=20 * (1 + s))
    if th:
        for kind, d in (("planar", 4), ("rotated", 4), ("planar", 5), ("rotated", 5), ("toric", 4), ("repetition", 7)):
            for s in range(0, 3 if d == 4 else 2):
                for p in ("X", "Z") if kind != "repetition" else ("X",):
                    add(f"{kind}-{d}-s{s}-{p}", surface, kind=kind, d=d, rounds=1, s=s, cls="UnionFindDecoder", weighted=bool(s % 2), paulis=p, weight=200)
    return out
