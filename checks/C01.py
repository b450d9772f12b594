"""C01: gate functions conjugate every row of a tableau."""
from checks.common import *  # noqa: F403
from checks.common import alleq, gate_row, rows_of
from symx.harness import Job

FUNCTIONS = ("plaquette.pauli:control_not_gate",)
BOUNDS = {
    "quick": {"qubits": "1..4", "rows": "arbitrary bits, 2n rows", "targets": "every index / list of two indices (ordered, repeats included)"},
    "thorough": {"qubits": "1..6", "rows": "arbitrary bits, 2n rows", "targets": "lists up to 3"},
}


def sym_state(env, n, rows=None):
    rows = 2 * n if rows is None else rows
    return env.state([[env.bit(f"s{r}.{c}") for c in range(2 * n + 1)] for r in range(rows)])


def one(env, fn, gate, n, form):
    from plaquette import pauli

    st = sym_state(env, n)
    ref = rows_of(st)
    two = gate in ("CX", "CZ")
    k = 1 if form == "int" else int(form[-1])
    qs = []
    for i in range(k):
        if two:
            pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
            qs.append(env.pick(f"q{i}", pairs))
        else:
            qs.append((env.pick(f"q{i}", list(range(n))),))
    f = getattr(pauli, fn)
    if two:
        args = (qs[0][0], qs[0][1]) if form == "int" else ([q[0] for q in qs], [q[1] for q in qs])
    else:
        args = (qs[0][0],) if form == "int" else ([q[0] for q in qs],)
    out = f(st, *args)
    for q in qs:
        ref = [gate_row(r, gate, q, n) for r in ref]
    env.check(out.shape == (2 * n, 2 * n + 1), f"{fn} keeps the shape")
    for i, r in enumerate(rows_of(out)):
        env.check(alleq(r, ref[i]), f"{fn}{args} row {i}")


GATES = [("x", "X"), ("y", "Y"), ("z", "Z"), ("hadamard", "H"), ("h", "H"), ("phase_gate", "S"),
         ("cx", "CX"), ("cz", "CZ"), ("control_not_gate", "CX"), ("control_phase_gate", "CZ")]


def jobs(tier):
    out = []
    top = 4 if tier == "quick" else 5
    forms = ["int", "list1", "list2"] + (["list3"] if tier == "thorough" else [])
    for fn, gate in GATES:
        for n in range(1 if gate not in ("CX", "CZ") else 2, top + 1):
            for form in forms:
                if form == "list2" and n == top and gate in ("CX", "CZ"):
                    continue
                if form == "list3" and n > 3:
                    continue
                out.append(Job(f"{fn}-{n}-{form}", one, weight=n, fn=fn, gate=gate, n=n, form=form))
    return out
