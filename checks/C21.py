"""C21: the matching decoders pose the decoding problem and return its solution."""
import warnings

import numpy as np

from checks.codetools import at_least, lattice_rows, make
from checks.common import ONE, ZERO, alleq, anticommute, bor, land, xorsum
from checks.stubs import as_bit, masked, replaced, total
from symx.harness import Job

M_, F_ = "plaquette.decoders.matching:PyMatchingDecoder.", "plaquette.decoders.fusionblossom:FusionBlossomDecoder."
FUNCTIONS = (M_ + "set_syngraph", M_ + "decode", M_ + "update_weights", F_ + "set_syngraph", F_ + "decode", F_ + "get_syndrome_pattern", F_ + "update_weights",
             "plaquette.decoders.decoderbase:DecoderInterface.decode", "plaquette.decoders.decoderbase:ComponentDecoder._check_decodable",
             "plaquette.decoders.decoderbase:check_weights_sane", "plaquette.syngraph:SyndromeGraph.update_decoder_results", "plaquette.syngraph:SyndromeGraph.result_as_pauli_frame")
BOUNDS = {"quick": "every graph on 3 vertices (dangling edges included; two of them for Fusion Blossom with erasures or weights), every syndrome, erasure and real weights, two decodings by one decoder; codes: planar, rotated, XZZX 3 (1-2 rounds), repetition 3 and 5, planar and rotated 5 (PyMatching): every s erasures (FusionBlossom) and t other errors with s + 2t < d",
          "thorough": "4 vertices; codes of distance up to 7 (PyMatching), toric 4, three rounds"}
ASSUMPTIONS = ["PyMatching and Fusion Blossom (compiled) are replaced by their contract: any selection with the given syndrome of least weight; PyMatching's internal discretisation of weights is not considered",
               "Fusion Blossom's weights are posed with a resolution of 1/100 of the largest weight, which the property allows for"]
PRELOAD = ("plaquette.decoders",)
LIBS = {"PyMatchingDecoder": "pymatching", "FusionBlossomDecoder": "fusion_blossom"}


def backend(cls):
    from plaquette.decoders import fusionblossom, matching

    return matching.PyMatchingDecoder() if cls == "PyMatchingDecoder" else fusionblossom.FusionBlossomDecoder()


def kinds(nv):
    return [(a, b) for a in range(nv) for b in range(a + 1, nv)] + [(v,) for v in range(nv)]


def component(env, cls, nv, weights="none", erasure=False, present=None, calls=2, pin=None):
    """Adapter on one connected component."""
    from plaquette import syngraph

    if present is None:
        present = [env.pick(f"edge{i}", [True, False]) for i in range(len(kinds(nv)))]
    edges = [k for k, p in zip(kinds(nv), present) if p]
    if not edges or {v for e in edges for v in e} != set(range(nv)):
        return env.check(True, "not a component")
    vs = [syngraph.Vertex(vertex_idx=i, stabgen_idx=i, time_step=0) for i in range(nv)]
    es = [syngraph.Edge(edge_idx=i, vertices=tuple(vs[v] for v in e)) for i, e in enumerate(edges)]
    ne = len(edges)

    def draw(tag):
        if weights == "none":
            return [float("nan")] * ne
        if pin is not None and pin >= ne:
            return None
        # with a heaviest edge given, only ratios matter
        return [50.0 if i == pin else env.real(f"{tag}w{i}", 0, 50, lo_open=True) if env.symbolic else env.real(f"{tag}w{i}") or 1.0 for i in range(ne)]

    w = draw("a")
    if w is None:
        return env.check(True, "no such edge")
    comp = syngraph.SyndromeGraphComponent(vs, es, env.array(w, dtype=float))
    with replaced(env, LIBS[cls]) as made:
        dec = backend(cls)
        dec.set_syngraph(comp)
        for c in range(calls):
            if c == 1 and weights != "none":
                w = draw("b")
                comp.set_edge_weights(env.array(w, dtype=float))
                dec.update_weights()
            true = [env.bit(f"e{c}.{i}") for i in range(ne)]
            erased = [env.boolean(f"er{c}.{i}") if erasure else False for i in range(ne)]
            syn = [xorsum([b for e, b in zip(edges, true) if v in e]) for v in range(nv)]
            comp.set_syndrome(env.array([s == 1 for s in syn], dtype=bool))
            comp.set_erasure(env.array(erased, dtype=bool))
            env.check(len(made) >= 1, "the library is used")
            made[-1].reference = dict(enumerate(true))
            if cls == "PyMatchingDecoder" and erasure:
                any_er = bor([as_bit(x) for x in erased])
                if bool(any_er == 1):
                    env.raises(ValueError, dec.decode, "erasures are rejected by PyMatching")
                    return
            dec.decode()
            got = [as_bit(x) for x in comp.edge_decoder_result]
            env.check(len(got) == ne, "one entry per edge")
            env.check(alleq([xorsum([b for e, b in zip(edges, got) if v in e]) for v in range(nv)], syn), "the correction explains the syndrome")
            ww = [1 if weights == "none" else x for x in w]
            keep = [(g, t, x, as_bit(er) ^ ONE) for g, t, x, er in zip(got, true, ww, erased)]
            mine, other = total([g & k for g, _, _, k in keep], ww), total([t & k for _, t, _, k in keep], ww)
            if cls == "FusionBlossomDecoder" and weights != "none":
                big = ww[0]
                for x in ww[1:]:
                    big = (masked(as_bit(x > big), x) + masked(as_bit(x > big) ^ ONE, big))
                env.check(mine * 100 <= other * 100 + big * ne + (0 if env.symbolic else 1e-6), "no explanation is lighter, up to the resolution of weights")
            else:
                env.check(mine <= other + (0 if env.symbolic else 1e-6), "no explanation is lighter")


def sane(env, n=3):
    """Weights without meaning are rejected or reported."""
    from plaquette.decoders.decoderbase import check_weights_sane

    nan, inf = float("nan"), float("inf")
    opts = [0.0, 1.5, -0.25, nan, inf, -inf]
    w = [env.pick(f"w{i}", opts) for i in range(n)]
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if any(x != x or x < 0 for x in w):
            env.raises(ValueError, lambda: check_weights_sane(np.array(w)), "NaN and negative weights are rejected")
            return
        ok = check_weights_sane(np.array(w))
    bad = (0.0 in w) + (inf in w)
    env.check(bool(ok) == (bad == 0) and len(log) == bad, "zero and infinite weights are reported")


def uniform(code, p=0.05):
    n = len(code.lattice.dataqubits)
    ed = {"pauli": {q: {"x": p, "y": 0.0 + p / 100, "z": p} for q in range(n)}}
    if code.n_rounds > 1:
        ed["measurement"] = {v.equbit_idx: {"p": p + p / 100} for v in code.lattice.stabgens}
    return ed


def surface(env, cls, kind, d, rounds=1, s=0, weighted=False, paulis="XZ", frame=True):
    """s erasures and t faults with s + 2t < d never cause a logical error."""
    from plaquette import decoders

    code = make(kind, d, rounds)
    n = code.n_data_qubits
    S, L = lattice_rows(code.lattice)
    t = (d - s - 1) // 2
    with replaced(env, LIBS[cls], most=t) as made:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dec = getattr(decoders, cls).from_code(code, uniform(code) if weighted else None, weighted=weighted)
        sites = [(r, q) for r in range(rounds) for q in range(n)]
        er = {x: env.bit(f"er{x[0]}.{x[1]}") if s else ZERO for x in sites}
        if s:
            env.assume(at_least(list(er.values()), s) == 1)
            env.assume(at_least(list(er.values()), s + 1) == 0)
        e = {(x, p): env.bit(f"{p}{x[0]}.{x[1]}") if p in paulis else ZERO for x in sites for p in "XZ"}
        m = {(r, i): env.bit(f"m{r}.{i}") for r in range(rounds - 1) for i in range(len(S))}
        faults = [bor([e[x, "X"], e[x, "Z"]]) & (er[x] ^ ONE) for x in sites] + list(m.values())
        env.assume(at_least(faults, t + 1) == 0)
        syn = []
        for r in range(rounds):
            op = [e[(r, q), "X"] for q in range(n)] + [e[(r, q), "Z"] for q in range(n)] + [ZERO]
            for i, row in enumerate(S):
                flips = [m[x] for x in ((r, i), (r - 1, i)) if x in m]
                syn.append(xorsum([anticommute(row, op, n)] + flips))
        # what happened, as a selection of edges of every component
        units = [ONE if i == j else ZERO for i in range(2 * n) for j in range(2 * n)]
        flip = {}
        for j in range(2 * n):
            row = units[2 * n * j:2 * n * (j + 1)] + [ZERO]
            flip["XZ"[j // n], j % n] = frozenset(i for i, g in enumerate(S) if anticommute(g, row, n) == 1)
        events = [(frozenset((r, i) for i in flip[p, q]), e[(r, q), p]) for (r, q) in sites for p in "XZ"]
        events += [(frozenset({(r, i), (r + 1, i)}), b) for (r, i), b in m.items()]
        graph = dec.synmgr.sgraph
        env.check(len(made) == len(graph.components_with_edges), "one matching problem per component")
        for comp, prob in zip(graph.components_with_edges, made):
            where = {frozenset((graph.vertices[comp.parent_vertex_idx[v]].time_step, graph.vertices[comp.parent_vertex_idx[v]].stabgen_idx) for v in edge): k
                     for k, edge in enumerate(comp.edges)}
            ref = {}
            for vset, b in events:
                if vset in where:
                    ref[where[vset]] = ref.get(where[vset], ZERO) ^ b
            prob.reference = ref
        synarr = env.array([sy == 1 for sy in syn], dtype=bool).reshape(rounds, len(S))
        erarr = env.array([er[x] == 1 for x in sites], dtype=bool).reshape(rounds, n) if s else None
        if not frame:  # conversion to an operator (one path per correction) is C22's
            graph.result_as_pauli_frame = lambda: None
        corr = dec.decode(erarr, synarr)
        if not frame:
            corr = list(graph.result_as_error_op_selection()) + [ZERO]
            corr = [as_bit(x) for x in corr]
    tot = [xorsum([e[(r, q), p] for r in range(rounds)]) for p in "XZ" for q in range(n)]
    env.check(len(corr) == 2 * n + 1, "one operator on the data qubits")
    rest = [a ^ b for a, b in zip(tot, corr)] + [ZERO]
    if frame:
        env.check(alleq([anticommute(row, rest, n) for row in S], [0] * len(S)), "the correction explains the syndrome")
    else:
        for row in S:
            a = anticommute(row, rest, n)
            env.check(a == 0, "the correction explains the syndrome")
            env.assume(a == 0)
    if not frame:  # steps of the proof, each checked before it is used
        for p in range(2):
            for what, k in (([corr[i + p * n] for i in range(n)], t), ([rest[i + p * n] for i in range(n)], 2 * t)):
                few = at_least(what, k + 1) == 0
                if rounds == 1:
                    env.check(few, "error and correction are small")
                    env.assume(few)
    ls = L[1::2] if kind == "repetition" else L
    for row in ls:
        env.check(anticommute(row, rest, n) == 0, "no logical error within the distance")


# presence of (0, 1), (0, 2), (1, 2), (0,), (1,), (2,)
SHAPES = {"path": (True, False, True, True, False, True), "triangle": (True, True, True, False, True, False)}


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        w = kw.pop("weight", 5)
        out.append(Job(name, fn, timeout=3000 if th else 560, weight=w, **kw))

    for cls in LIBS:
        fb = cls == "FusionBlossomDecoder"
        for w in ("none", "real"):
            for er in (False, True):
                name = f"graph-3-{cls}-{w}{'-erasure' if er else ''}"
                if not (fb and (w == "real" or er)):
                    add(name, component, cls=cls, nv=3, weights=w, erasure=er, weight=40)
                    continue
                for pin in range(6) if w == "real" else (None,):
                    if th:
                        add(f"{name}{'' if pin is None else pin}", component, cls=cls, nv=3, weights=w, erasure=er, pin=pin, calls=1 if er else 2, weight=40)
                        continue
                    for g, present in SHAPES.items():
                        if pin is not None and pin >= sum(present):
                            continue
                        add(f"{name}-{g}{'' if pin is None else pin}", component, cls=cls, nv=3, weights=w, erasure=er, pin=pin, present=present,
                            calls=1 if er else 2, weight=20)
        for kind, d, rounds in (("planar", 2, 1), ("rotated", 2, 1), ("repetition", 3, 1), ("repetition", 5, 2), ("planar", 3, 1), ("rotated", 3, 1), ("xzzx", 3, 1), ("rotated", 3, 2)):
            for s in range(d if LIBS[cls] != "pymatching" else 1):
                if rounds > 1 and (s > 1 or s and kind != "repetition") and not th:
                    continue
                for weighted in (False, True):
                    if kind == "planar" and s == 2 and not weighted and not th:
                        continue
                    add(f"{kind}-{d}-r{rounds}-s{s}-{cls}{'-w' if weighted else ''}", surface, cls=cls, kind=kind, d=d, rounds=rounds, s=s, weighted=weighted,
                        paulis="X" if kind == "repetition" else "XZ", weight=30, logic="QF_FD", alloc=True)
    for kind in ("planar", "rotated"):
        for p in "XZ":
            add(f"{kind}-5-{p}", surface, cls="PyMatchingDecoder", kind=kind, d=5, paulis=p, weight=100, frame=False, alloc=True, logic="QF_FD")
    add("sane", sane)
    if th:
        for kind, d, rounds in (("rotated", 7, 1), ("toric", 3, 1), ("toric", 4, 1), ("planar", 3, 3), ("rotated", 3, 3), ("repetition", 9, 2)):
            add(f"{kind}-{d}-r{rounds}", surface, cls="PyMatchingDecoder", kind=kind, d=d, rounds=rounds, paulis="X" if kind == "repetition" else "XZ", weight=100, logic="QF_FD", alloc=True, frame=False)
        for cls in LIBS:
            for w in ("none", "real"):
                add(f"graph-4-{cls}-{w}", component, cls=cls, nv=4, weights=w, calls=1, weight=200)
    return out
