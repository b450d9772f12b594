"""C26: drawings show the code, its data and circuits as they are."""
import numpy as np

from checks.codetools import make
from checks.common import land
from symx.harness import Job

V_ = "plaquette.visualizer:"
FUNCTIONS = tuple(V_ + f for f in ("LatticeVisualizer.__init__", "LatticeVisualizer._mk_df", "LatticeVisualizer._mk_pauliframe_df", "LatticeVisualizer._draw", "LatticeVisualizer.draw_lattice",
                                   "LatticeVisualizer.draw_latticedata", "LatticeVisualizer.draw_lattice_mpl", "CircuitVisualizer.__init__")) + ("plaquette.circuit.openqasm:convert_to_openqasm",)
BOUNDS = {"quick": "every syndrome on the whole code, every Pauli error or correction on two qubits at a time, or one of both, with five selections of what is drawn; repetition 3, planar 2, five-qubit, Shor, a code with Y operators, rotated 3 without data; circuits of one or two instructions on three qubits",
          "thorough": "errors and corrections on three qubits at a time; toric 2, planar 3, rotated 3"}
ASSUMPTIONS = ["plotly, matplotlib and qiskit hold what they are given; figures are read back from them"]
PRELOAD = ("plaquette.visualizer",)
STAB = {"U": "", "A": "A ", "B": "B "}


def code_of(kind, d):
    from plaquette.codes import LatticeCode
    from plaquette.pauli import string_to_pauli as s

    if kind == "y":
        return LatticeCode.from_operators([s("Y0Y1", qubits=3), s("Z1X2", qubits=3)], [s("X0X1Z2", qubits=3), s("Y0Z2", qubits=3)], 1)
    return make(kind, d)


def pos(v):
    return tuple(float(x) for x in v.pos)


def traces(fig):
    out = {}
    for t in fig.data:
        out.setdefault(t.name, []).append(t)
    return out


def points(ts):
    return sorted((float(x), float(y)) for t in ts for x, y in zip(t.x, t.y))


def segments(x, y):
    out, cur = [], []
    for a, b in zip(x, y):
        if a != a or b != b:
            out.append(tuple(sorted(cur)))
            cur = []
        else:
            cur.append((float(a), float(b)))
    if cur:
        out.append(tuple(sorted(cur)))
    return sorted(out)


def stab_names(lat, syndrome=None):
    want = {}
    for v in lat.stabgens:
        g = STAB[v.group.name]
        on = syndrome is not None and syndrome[v.stabgen_idx]
        name = (f"Toggled {g}stabilizer" if on else f"{g}stabilizer")
        want.setdefault(name[0].upper() + name[1:], []).append(pos(v))
    return want


def lines_of(lat):
    want = {}
    for e in lat.edges:
        want.setdefault("Pauli " + e.factor.name, []).append(tuple(sorted([pos(e.op), pos(e.data)])))
    return {k: sorted(v) for k, v in want.items()}


def frame(env, fig_traces, lat, kind, op, only, n):
    """The markers of an error or correction."""
    for p, off in (("X", 0), ("Z", n)):
        ts = fig_traces.pop(f"{p} {kind}", [])
        want = sorted(i for i in range(n) if op is not None and op[off + i] and only in (None, p))
        got = [(float(x), float(y)) for t in ts for x, y in zip(t.x, t.y)]
        near = sorted(min(range(n), key=lambda i: (pos(lat.dataqubits[i])[0] - x) ** 2 + (pos(lat.dataqubits[i])[1] - y) ** 2) for x, y in got)
        env.check(near == want, f"{p} {kind}s are drawn at their qubits")
        env.check(sorted(h for t in ts for h in t.hovertext) == sorted(f"Data qubit {i}" for i in want), f"{p} {kind}s are labelled with their qubits")


def whole(env, vis, lat, fig, syndrome=None, probs=None, stabs=True, edges=True, rest=False):
    """Vertices and edges of a figure; returns the other traces."""
    ts = traces(fig)
    data = ts.pop("Data qubit")
    env.check(points(data) == sorted(pos(v) for v in lat.dataqubits), "all data qubits are drawn where they are")
    hov = {(float(x), float(y)): h for t in data for x, y, h in zip(t.x, t.y, t.hovertext)}
    for v in lat.dataqubits:
        h = hov[pos(v)]
        env.check(h.startswith(f"Data qubit {v.dataqubit_idx}<br />Ext. qubit {v.equbit_idx}"), "data qubits are labelled with their numbers")
        if probs is not None:
            env.check(h.endswith(f"p = {probs[v.dataqubit_idx]}"), "data qubits are labelled with their error probability")
    if probs is not None:
        at = {(float(x), float(y)): c for x, y, c in zip(data[0].x, data[0].y, data[0].marker.color)}
        env.check(len(data) == 1 and all(at[pos(v)] == probs[v.dataqubit_idx] for v in lat.dataqubits), "data qubits are coloured with their error probability")
    for name, want in (stab_names(lat, syndrome) if stabs else {}).items():
        env.check(name in ts and points(ts[name]) == sorted(want), "generators are drawn where they are, with their syndrome")
        for t in ts.pop(name, []):
            for x, y, h in zip(t.x, t.y, t.hovertext):
                (v,) = [v for v in lat.stabgens if pos(v) == (float(x), float(y))]
                env.check(h.startswith(f"Stabgen {v.stabgen_idx}<br />Ext. qubit {v.equbit_idx}") and ("Syndrome set" in h) == bool(syndrome is not None and syndrome[v.stabgen_idx]), "generators are labelled with their numbers and syndrome")
    if stabs:
        env.check(points(ts.pop("Logical operator", [])) == sorted(pos(v) for v in lat.logical_ops), "logical operators are drawn where they are")
    for name, want in (lines_of(lat) if edges else {}).items():
        env.check(name in ts and segments(ts[name][0].x, ts[name][0].y) == want, "every factor of an operator is drawn as an edge between the operator and the qubit")
        ts.pop(name, None)
    if not rest:
        env.check(not ts, "nothing else is drawn")
    return ts


def drawn(env, kind, d, bits, grey_jobs=False):
    """draw_latticedata draws what it is given; afterwards drawings look as before."""
    from plaquette.visualizer import LatticeVisualizer

    code = code_of(kind, d)
    lat = code.lattice
    n, s = len(lat.dataqubits), len(lat.stabgens)
    vis = LatticeVisualizer(code)
    before = vis.draw_lattice()
    whole(env, vis, lat, before)
    if bits == "syndrome":
        some = [env.bit(f"s{i}") for i in range(s)]
        arr = env.array(some)
        fig = vis.draw_latticedata(syndrome=arr)
        whole(env, vis, lat, fig, syndrome=[bool(b) for b in some])
    else:
        def op(tag, at):
            row = [0] * (2 * n + 1)
            for i in at:
                row[i], row[n + i] = env.bit(f"{tag}x{i}"), env.bit(f"{tag}z{i}")
            return row

        syndrome = [i % 2 for i in range(s)]
        what = env.pick("what", ["error", "correction", "both"])
        both = what == "both"
        err = op("e", bits[:1] if both else bits) if what != "correction" else None
        cor = op("c", bits[-1:] if both else bits) if what != "error" else None
        only, grey, show = env.pick("options", [(None, True, "all"), ("X", False, "all"), ("Z", True, "all"), (None, False, "no edges"), ("X", True, "no generators")])
        kw = {}
        if err is not None:
            kw["error"] = [env.array(err)]
        if cor is not None:
            kw["correction"] = [env.array(cor)]
        fig = vis.draw_latticedata(syndrome=env.array(syndrome), only_pauli=only, grey=grey, draw_edges=show != "no edges", draw_stabs=show != "no generators", **kw)
        ts = whole(env, vis, lat, fig, syndrome=syndrome, stabs=show != "no generators", edges=show != "no edges", rest=True)
        for k, o in (("error", err), ("correction", cor)):
            frame(env, ts, lat, k, o, only, n)
        env.check(not any("tabilizer" in k or k.startswith("Pauli") for k in ts), "what is not to be drawn is not")
        ts.pop("Logical operator", None)
        env.check(not ts, "nothing else is drawn")
        cols = [t.marker.color for t in fig.data if t.name == "Data qubit"]
        plain = [t.marker.color for t in before.data if t.name == "Data qubit"]
        env.check((cols != plain) == grey, "data qubits are grey if asked for")
    after = vis.draw_lattice()
    env.check(after.to_dict().__repr__() == before.to_dict().__repr__(), "drawing data changes no other drawing")


def plain(env, kind, d):
    """The lattice with error probabilities, with plotly and matplotlib."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from plaquette.visualizer import LatticeVisualizer

    code = code_of(kind, d)
    lat = code.lattice
    n = len(lat.dataqubits)
    obj = env.pick("of", ["code", "lattice"])
    probs = np.array([0.01 * (i + 1) for i in range(n)]) if env.pick("probs", [True, False]) else None
    env.raises(ValueError, lambda: LatticeVisualizer(code, np.zeros(n + 1)), "one error probability per data qubit")
    vis = LatticeVisualizer(code if obj == "code" else lat, probs)
    whole(env, vis, lat, vis.draw_lattice(), probs=probs)
    ax = plt.figure().add_subplot()
    vis.draw_lattice_mpl(ax)
    lines = {}
    for ln in ax.get_lines():
        x, y = ln.get_data()
        lines[ln.get_label()] = segments(x, y) if ln.get_label().startswith("Pauli") else sorted((float(a), float(b)) for a, b in zip(x, y))
    plt.close("all")
    want = {k: sorted(v) for k, v in stab_names(lat).items()}
    want.update(lines_of(lat))
    want["Data qubit"] = sorted(pos(v) for v in lat.dataqubits)
    want["Logical operator"] = sorted(pos(v) for v in lat.logical_ops)
    env.check(lines == want, "the lattice with matplotlib")


def circuits(env, names, measured):
    from plaquette.circuit import Circuit
    from plaquette.visualizer import CircuitVisualizer

    c, want, k = Circuit(), [], 0
    low = {"H": "h", "X": "x", "Y": "y", "Z": "z", "CX": "cx", "CZ": "cz"}
    for i, g in enumerate(names):
        q = [env.pick(f"q{i}", [0, 1, 2])]
        q.append((q[0] + 1 + env.pick(f"r{i}", [0, 1])) % 3)
        c.append(g, *q)
        if g == "M":
            for x in q:
                want.append(("measure", [x], [k]))
                k += 1
        elif g in ("CX", "CZ"):
            want.append((low[g], q, []))
        else:
            want += [(low[g], [x], []) for x in q]
    if measured:
        c.append("M", 1)
        want.append(("measure", [1], [k]))
    circ = CircuitVisualizer(c)._circuit
    got = [(x.operation.name, [circ.find_bit(b).index for b in x.qubits], [circ.find_bit(b).index for b in x.clbits]) for x in circ.data]
    env.check(got == want, "the circuit is drawn instruction by instruction")
    env.check(circ.num_qubits == c.number_of_qubits, "the circuit is drawn with all its qubits")


def unsupported(env):
    from plaquette.circuit import Circuit
    from plaquette.circuit.openqasm import GateNotSupportedError
    from plaquette.visualizer import CircuitVisualizer

    t = env.pick("error", ["DEPOLARIZE 0", "E_ERASE 0.1 0", "E_PAULI 0.1 0 0 0", "ERROR 0.1 X 0"])
    env.raises(GateNotSupportedError, lambda: CircuitVisualizer(Circuit.from_str("H 0\n" + t + "\nM 0")), "circuits with errors are not drawn")


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, /, **kw):
        w = kw.pop("weight", 10)
        out.append(Job(name, fn, timeout=3000 if th else 500, weight=w, **kw))

    codes = [("repetition", 3), ("planar", 2), ("five", None), ("rotated", 3), ("y", None)]
    for kind, d in codes + [("shor", None)] + ([("toric", 2)] if th else []):
        if kind != "rotated" or th:
            add(f"syndrome-{kind}-{d}", drawn, kind=kind, d=d, bits="syndrome", weight=20)
        add(f"lattice-{kind}-{d}", plain, kind=kind, d=d)
    for kind, d in codes + ([("planar", 3)] if th else []):
        if kind == "rotated" and not th:
            continue
        n = len(code_of(kind, d).lattice.dataqubits)
        for pair in [(i, (i + 1) % n) for i in (range(n) if th else range(0, min(n, 3), 2))]:
            add(f"frame-{kind}-{d}-{pair[0]}", drawn, kind=kind, d=d, bits=pair if not th else (*pair, (pair[1] + 1) % n) if n > 2 else pair, weight=30)
    gates = ("H", "X", "Y", "Z", "CX", "CZ", "M")
    for a in gates:
        add(f"circuit-{a}", circuits, names=(a,), measured=False)
        for b in gates:
            add(f"circuit-{a}-{b}", circuits, names=(a, b), measured=True)
    add("unsupported", unsupported)
    return out
