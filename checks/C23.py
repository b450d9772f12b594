"""C23: decoding weights are the log-odds of the configured errors."""
import warnings

import numpy as np

from checks.codetools import make
from checks.common import land
from symx.harness import Job

W_, D_ = "plaquette.syngraph.weights:WeightComputation.", "plaquette.decoders.decoderbase:DecoderInterface."
FUNCTIONS = tuple(W_ + f for f in ("__init__", "_compute_probabs", "_p_meas", "_p_eff_pauli_1", "_p_eff_erasure", "_update_p_eff", "get_edge_probab", "get_edge_weights")) + (
    D_ + "from_code", "plaquette.syngraph:SyndromeGraphManager.__init__", "plaquette.syngraph:SyndromeGraph.set_edge_weights",
    "plaquette.errors:ErrorData.check_against_code", "plaquette.errors:ErrorData._check_single_phys_qubit_error", "plaquette.errors:ErrorData._check_single_stab_qubit_error")
BOUNDS = {"quick": "repetition 3, planar 2, rotated 3, five qubit codes, 1-2 rounds; every combination of given, missing and zero parameters on one qubit and generator at a time, arbitrary real probabilities on all of them",
          "thorough": "every combination on two qubits and generators at a time; planar 3, toric 2, Shor"}
ASSUMPTIONS = ["real arithmetic; the logarithm is uninterpreted but for ln(a/b) = ln a - ln b and ln(ab) = ln a + ln b"]
PRELOAD = ("plaquette.decoders",)
TINY = 1e-15


def rec():
    from plaquette.decoders.decoderbase import DecoderInterface

    class Rec(DecoderInterface):
        def __init__(self, synmgr):
            self.synmgr = synmgr

    return Rec


def logodds(env, p):
    """-ln(p/(1-p)) of a plain or symbolic probability."""
    if env.symbolic and not isinstance(p, (int, float)):
        return -(env.core.fn_log(p) - env.core.fn_log(1 - p))
    with np.errstate(divide="ignore"):
        return float(-np.log(np.float64(p) / np.float64(1 - p)))


def same(env, a, b):
    if isinstance(b, float) and b != b:
        return bool(np.isnan(a))
    if env.symbolic:
        return a == b
    return bool(a == b or abs(a - b) <= 1e-9 * max(1, abs(a)))


def mix(p, q):
    return p * (1 - q) + q * (1 - p)


def prob(env, name, hi=0.25):
    return env.real(name, 0, hi, lo_open=True) if env.symbolic else float(env.real(name))


def params(env, tag, keys, focus):
    """Parameters of one qubit: the one in focus has every subset of the keys, and zeros."""
    out = {}
    for k in keys:
        m = env.pick(f"{tag}.{k}?", ["given", "missing", "zero"]) if focus else "given"
        if m == "given":
            out[k] = prob(env, f"{tag}.{k}")
        elif m == "zero":
            out[k] = 0.0
    return out


def absent(env, tag, focus):
    return focus and env.pick(f"{tag}?", [False, True])


def error_data(env, code, names, focus):
    """Error data and the three probabilities of every qubit; focus = positions treated in full."""
    lat = code.lattice
    ed = {}
    off = len(lat.dataqubits) if "pauli" in names else 0  # generators are counted after the qubits
    if "pauli" in names:
        ed["pauli"] = {v.equbit_idx: params(env, f"q{i}", "xyz", i in focus) for i, v in enumerate(lat.dataqubits) if not absent(env, f"q{i}", i in focus)}
    if "erasure" in names:
        ed["erasure"] = {v.equbit_idx: params(env, f"e{i}", "p", i in focus) for i, v in enumerate(lat.dataqubits) if not absent(env, f"e{i}", i in focus)}
    if "measurement" in names:
        ed["measurement"] = {v.equbit_idx: params(env, f"m{i}", "p", i + off in focus) for i, v in enumerate(lat.stabgens) if not absent(env, f"m{i}", i + off in focus)}
    return ed


def reference(env, code, ed, tiny=False, erasure=False):
    """Probabilities of X and Z flips per data qubit and of measurement flips per generator."""
    px, pz, pm = [], [], []
    for v in code.lattice.dataqubits:
        d = ed.get("pauli", {}).get(v.equbit_idx, {})
        x, y, z = ((d.get(k, 0.0) if not tiny or not isinstance(d.get(k, 0.0), float) or d.get(k, 0.0) else TINY) for k in "xyz")
        x, z = x + y, y + z
        if erasure:
            e = ed.get("erasure", {}).get(v.equbit_idx, {}).get("p", 0.0) / 2
            x, z = mix(x, e), mix(z, e)
        px.append(x)
        pz.append(z)
    for v in code.lattice.stabgens:
        pm.append(ed.get("measurement", {}).get(v.equbit_idx, {}).get("p", 0.0))
    return px, pz, pm


def snapshot(ed):
    return {k: {q: dict(p) for q, p in v.items()} for k, v in ed.items()}


def computation(env, kind, d, names, focus, erasure=False):
    """WeightComputation on its own."""
    from plaquette.syngraph.weights import WeightComputation

    class Comp(WeightComputation):
        erasure_weights = erasure

    code = make(kind, d)
    ed = error_data(env, code, names, focus)
    before = snapshot(ed)
    ref = dict(zip(("pauli_x", "pauli_z", "measurement"), reference(env, code, ed, erasure=erasure)))
    comp = Comp(code, ed)
    got, w = comp.get_edge_probab(), comp.get_edge_weights()
    env.check(set(got) == set(w) == set(ref), "probabilities and weights of all kinds of errors")
    for k, ps in ref.items():
        env.check(len(got[k]) == len(w[k]) == len(ps), "one number per error")
        for g, x, p in zip(got[k], w[k], ps):
            env.check(same(env, g, p), "the probability of an error is that of the configured channels")
            env.check(same(env, x, logodds(env, p)), "the weight is the log-odds of the error")
    env.check(snapshot(ed) == before, "error data are not changed")


def decoder(env, kind, d, rounds, names, focus, twice=False):
    """The weights of the graph a decoder made from a code is given."""
    code = make(kind, d, rounds)
    given = env.pick("data", ["errors", "weights", "none", "both"]) if names == () else "errors"
    weighted = env.pick("weighted", [None, True, False]) if not focus else None
    ed = error_data(env, code, names, focus) if given in ("errors", "both") else None
    ws = None
    if given in ("weights", "both"):
        ws = dict(pauli_x=env.array([prob(env, f"wx{i}", 50) for i in range(code.n_data_qubits)], dtype=float), pauli_z=1.5,
                  measurement=env.array([prob(env, f"wm{i}", 50) for i in range(code.n_stabgens)], dtype=float))
    if given == "both":
        return env.raises(ValueError, lambda: rec().from_code(code, ed, weights=ws, weighted=weighted), "error data and weights together are rejected")
    nan = float("nan")
    if weighted is False or (given == "none" and not weighted):
        want = [[nan] * code.n_data_qubits] * 2 + [[nan] * code.n_stabgens]
    elif given == "weights":
        want = [list(ws["pauli_x"]), [1.5] * code.n_data_qubits, list(ws["measurement"])]
    else:
        want = [[logodds(env, p) for p in ps] for ps in reference(env, code, ed or {}, tiny=True)]
    for _ in range(2 if twice else 1):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dec = rec().from_code(code, ed, weights=ws, weighted=weighted)
        graph = dec.synmgr.sgraph
        rows = {}
        for e in graph.edges:
            kind_, pos = ("XZ".index(e.pauli_str), int(e.qubit_idx)) if hasattr(e, "pauli_str") else (2, int(e.stabgen_idx))
            w = want[kind_][pos]
            env.check(same(env, e.weight, w), "every error has its weight in the graph, in every round")
            rows.setdefault(frozenset((v.time_step, v.stabgen_idx) for v in e.vertices), []).append(w)
        name = [(v.time_step, v.stabgen_idx) for v in graph.vertices]
        seen = []
        for c in graph.components_with_edges:
            for e, w in zip(c.edges, c.edge_weights):
                key = frozenset(name[c.parent_vertex_idx[i]] for i in e)
                seen.append(key)
                if len(rows[key]) == 1:
                    env.check(same(env, w, rows[key][0]), "decoders see the weights of the graph")
        heavy = {k for k, v in rows.items() if all(isinstance(x, float) and x == float("inf") for x in v)}
        env.check(sorted(map(sorted, seen)) == sorted(sorted(k) for k in rows if k and k not in heavy), "decoders see the edges of the graph but impossible ones")


def rejected(env, kind="planar", d=2):
    """Errors which are not known, on the wrong vertices or with wrong parameters."""
    from plaquette.syngraph.weights import WeightComputation

    code = make(kind, d)
    lat = code.lattice
    name = env.pick("name", ["pauli", "erasure", "measurement", "Pauli", "fabrication", "H", "CX"])
    v = env.pick("vertex", list(range(-1, len(lat.equbits) + 1)))
    key = env.pick("key", ["x", "y", "z", "p", "X"])
    data, stab = {q.equbit_idx for q in lat.dataqubits}, {q.equbit_idx for q in lat.stabgens}
    ed = {name: {(v if name != "CX" else (v, min(data))): {key: env.real("p", 0, 1) if env.symbolic else float(env.real("p"))}}}
    ok = {"pauli": v in data and key in "xyz", "erasure": v in data and key == "p", "measurement": v in stab and key == "p"}.get(name, False)
    if ok:
        WeightComputation(code, ed)
        env.check(True, "accepted")
    else:
        env.raises((ValueError, IndexError), lambda: WeightComputation(code, ed), "errors which cannot be are rejected")


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        w = kw.pop("weight", 10)
        out.append(Job(name, fn, timeout=3000 if th else 560, weight=w, **{"alloc": True, **kw}))

    codes = [("repetition", 3), ("planar", 2), ("rotated", 3), ("five", None)]
    for kind, d in codes + ([("planar", 3), ("toric", 2), ("shor", None)] if th else []):
        n, m = make(kind, d).n_data_qubits, make(kind, d).n_stabgens
        for names in (("pauli",), ("measurement",), ("pauli", "measurement")):
            for f in range(n if names == ("pauli",) else m if names == ("measurement",) else 0):
                add(f"computation-{kind}-{d}-{'-'.join(names)}-{f}", computation, kind=kind, d=d, names=names, focus=(f,))
        add(f"computation-{kind}-{d}-pair", computation, kind=kind, d=d, names=("pauli", "measurement"), focus=(n - 1, n))
        add(f"computation-{kind}-{d}-erasure", computation, kind=kind, d=d, names=("pauli", "erasure", "measurement"), focus=(), erasure=True)
        add(f"computation-{kind}-{d}-erasure-1", computation, kind=kind, d=d, names=("erasure",), focus=(1,), erasure=True)
        add(f"computation-{kind}-{d}-erasure-off", computation, kind=kind, d=d, names=("pauli", "erasure"), focus=())
    for kind, d, r in [("repetition", 3, 2), ("planar", 2, 1), ("planar", 2, 2), ("rotated", 3, 1)] + ([("planar", 3, 2), ("toric", 2, 2)] if th else []):
        add(f"decoder-{kind}-{d}-r{r}", decoder, kind=kind, d=d, rounds=r, names=(), focus=(), alloc=True)
        n, m = make(kind, d).n_data_qubits, make(kind, d).n_stabgens
        for f in (0, n - 1, n, n + m - 1) if not th else range(n + m):
            if True:
                add(f"decoder-{kind}-{d}-r{r}-pauli-{f}", decoder, kind=kind, d=d, rounds=r, names=("pauli", "measurement"), focus=(f,), alloc=True, weight=30)
        add(f"decoder-{kind}-{d}-r{r}-erasure", decoder, kind=kind, d=d, rounds=r, names=("pauli", "erasure", "measurement"), focus=(), alloc=True, twice=True)
        add(f"decoder-{kind}-{d}-r{r}-erasure-only", decoder, kind=kind, d=d, rounds=r, names=("erasure", "measurement"), focus=(), alloc=True, twice=True)
    for kind, d in [("planar", 2)] + ([("toric", 2)] if th else []):
        add(f"rejected-{kind}-{d}", rejected, kind=kind, d=d)
    return out
