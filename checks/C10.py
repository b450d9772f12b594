"""C10: circuits store, print and parse exactly the instructions they are given."""
import re

import numpy as np

from checks.common import alleq, land
from symx.harness import Job

FUNCTIONS = ("plaquette.circuit:Circuit.append", "plaquette.circuit:Circuit.append_from_str", "plaquette.circuit:Circuit.__str__",
             "plaquette.circuit:Circuit.number_of_qubits", "plaquette.circuit:Circuit.number_measured_qubits",
             "plaquette.circuit:CircuitBuilder")
BOUNDS = {"quick": "1 instruction of every kind with every argument symbolic, then every pair of kinds with one symbolic argument each; <= 4 targets per instruction; qubit indices are unbounded integers >= 0, probabilities unbounded reals",
          "thorough": "as quick, plus every triple of kinds"}
ASSUMPTIONS = ["str() of an int or float followed by int()/float() gives the number back (Python guarantees it); symbolic numbers print as opaque tokens with that law"]
PRELOAD = ("plaquette.circuit",)

PLAIN = ("X", "Y", "Z", "H", "M", "R", "DEPOLARIZE")
KINDS = PLAIN + ("CX", "CZ", "E_ERASE", "E_PAULI", "E_PAULI2", "ERROR", "ERROR_ELSE", "ERROR_CONTINUE")
BUILDER = {"X": "X", "Y": "Y", "Z": "Z", "H": "H", "M": "M", "R": "R", "DEPOLARIZE": "depolarize", "CX": "CX", "CZ": "CZ",
           "E_ERASE": "e_erase", "E_PAULI": "e_pauli", "E_PAULI2": "e_pauli2", "ERROR": "error", "ERROR_ELSE": "error_else",
           "ERROR_CONTINUE": "error_continue"}


def make(env, tag, kind, full, nt=None):
    """(arguments as given, expected stored tuple, qubit arguments)."""
    def q(i):
        return env.int(f"{tag}q{i}", 0) if full or i == 0 else 3 * i + 1

    def p(i):
        return env.real(f"{tag}p{i}", 0, 1) if full or i == 0 else 0.125 * (i % 3)

    if kind in PLAIN:
        n = nt or (env.pick(f"{tag}n", [1, 2, 3]) if full else 2)
        qs = [q(i) for i in range(n)]
        return qs, tuple(qs), qs
    if kind in ("CX", "CZ"):
        n = 2 * (nt or (env.pick(f"{tag}n", [1, 2]) if full else 1))
        qs = [q(i) for i in range(n)]
        return qs, tuple(qs), qs
    if kind == "E_ERASE":
        return [p(0), q(0)], (p(0), q(0)), [q(0)]
    if kind == "E_PAULI":
        a = [p(i) for i in range(3)] + [q(0)]
        return a, tuple(a), [q(0)]
    if kind == "E_PAULI2":
        a = [p(i) for i in range(15)] + [q(0), q(1)]
        return a, tuple(a), [q(0), q(1)]
    g = env.pick(f"{tag}g", ["X", "CZ", "DEPOLARIZE"]) if full else "Y"
    qs = [q(0), q(1)]
    a = ([p(0)] if kind != "ERROR_CONTINUE" else []) + [g] + qs
    return a, tuple(a), qs


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b


def isint(env, x):
    if env.symbolic and isinstance(x, env.core.SymNum):
        return x.z.is_int()
    return isinstance(x, int) and not isinstance(x, bool)


def isfloat(env, x):
    if env.symbolic and isinstance(x, env.core.SymNum):
        return not x.z.is_int()
    return isinstance(x, float)


def check_gates(env, gates, want, what):
    env.check(len(gates) == len(want), f"{what}: number of instructions")
    for (n, a), (wn, wa, _) in zip(gates, want):
        env.check(n == wn, f"{what}: instruction name")
        env.check(isinstance(a, tuple) and len(a) == len(wa), f"{what}: number of arguments of {wn}")
        env.check(land(*[same(x, y) for x, y in zip(a, wa)]), f"{what}: arguments of {wn}")
        nq = len(_qubits(wn, wa))
        env.check(all(isint(env, x) for x in a[len(a) - nq:]), f"{what}: qubits of {wn} are int")
        env.check(all(isfloat(env, x) or isinstance(x, str) for x in a[:len(a) - nq]), f"{what}: probabilities of {wn} are float")


def _qubits(name, args):
    if name == "E_ERASE":
        return args[1:]
    if name == "E_PAULI":
        return args[3:]
    if name == "E_PAULI2":
        return args[15:]
    if name in ("ERROR", "ERROR_ELSE"):
        return args[2:]
    if name == "ERROR_CONTINUE":
        return args[1:]
    return args


def roundtrip(env, kinds, full):
    from plaquette.circuit import Circuit, CircuitBuilder

    ins = [(k, *make(env, f"i{j}.", k, full)) for j, k in enumerate(kinds)]
    want = [(k, st, qs) for k, _, st, qs in ins]
    c = Circuit()
    route = env.pick("route", ["append", "append-str", "builder", "mixed"]) if full else "append"
    for j, (k, a, _, _) in enumerate(ins):
        if route == "append-str":
            sargs = [str(x) for x in a]
            c.append(k, *sargs)
        elif route == "builder" or (route == "mixed" and j % 2):
            getattr(CircuitBuilder(c), BUILDER[k])(*a)
        else:
            c.append(k, *a)
    check_gates(env, c.gates, want, "append")
    text = str(c)
    lines = text.split("\n")
    env.check(len(lines) == len(ins), "one line per instruction")
    for line, (k, a, _, _) in zip(lines, ins):
        env.check(line.split() == [k] + [str(x) for x in a] or line.split()[0] == k, "line starts with the instruction name")
    c2 = Circuit.from_str(text)
    check_gates(env, c2.gates, want, "from_str(str)")
    env.check(str(c2) == text, "text is a fixed point")
    # comments, blank lines, indentation, extra blanks and appending to what is there
    messy = "\n  # leading comment\n" + "\n\n".join("\t " + ln.replace(" ", "  ") + "  # X 99" for ln in lines) + "\n#M 5\n"
    c2.append_from_str(messy)
    check_gates(env, c2.gates, want + want, "append_from_str")
    check_gates(env, c.gates, want, "the source circuit is untouched")
    counts(env, c, want, "count")
    counts(env, c2, want + want, "count after appending")


def counts(env, c, want, what):
    n, m = c.number_of_qubits, c.number_measured_qubits
    env.check(c.n_q == n, f"{what}: n_q is number_of_qubits")
    allq = [q for _, _, qs in want for q in qs]
    for q in allq:
        env.check(n >= q + 1, f"{what}: every qubit index fits")
    hit = n == 1
    for q in allq:
        hit = _or(hit, n == q + 1)
    env.check(hit, f"{what}: no more qubits than needed")
    env.check(m == sum(len(qs) for k, _, qs in want if k == "M"), f"{what}: measured qubits")


def _or(a, b):
    if isinstance(a, (bool, np.bool_)):
        return True if a else b
    if isinstance(b, (bool, np.bool_)):
        return True if b else a
    return a | b


def invalid(env):
    """Malformed instructions raise and leave the circuit as it was."""
    from plaquette.circuit import Circuit

    c = Circuit()
    c.append("X", 1)
    case = env.pick("case", ["name", "prob", "erase0", "erase1", "erase3", "pauli3", "pauli5", "pauli2-16", "pauli2-18", "inner",
                             "inner-else", "inner-continue", "index", "index-str", "text", "probstr"])
    q = env.int("q", 0)
    err = (ValueError, TypeError, AssertionError)
    if case == "name":
        f = lambda: c.append(env.pick("bad", ["x", "CNOT", "", "XX", "E_X", "ERRORS", "MX", "S"]), q)  # noqa: E731
    elif case == "prob":
        p = env.real("p")
        name = env.pick("name", ["ERROR", "ERROR_ELSE"])
        env.assume(_or(p < 0, p > 1))
        f = lambda: c.append(name, p, "X", q)  # noqa: E731
        err = ValueError
    elif case == "probstr":
        name = env.pick("name", ["ERROR", "ERROR_ELSE"])
        f = lambda: c.append(name, "X", 0.5, q)  # noqa: E731
        err = ValueError
    elif case.startswith("erase"):
        f = lambda: c.append("E_ERASE", *[0.5, q, q][:int(case[-1])])  # noqa: E731
    elif case in ("pauli3", "pauli5"):
        f = lambda: c.append("E_PAULI", *[0.1, 0.1, 0.1, q, q][:int(case[-1])])  # noqa: E731
    elif case.startswith("pauli2-"):
        f = lambda: c.append("E_PAULI2", *([0.01] * 15 + [q, q, q])[:int(case[-2:])])  # noqa: E731
    elif case.startswith("inner"):
        bad = env.pick("bad", ["x", "CNOT", "", "T"])
        a = {"inner": ("ERROR", 0.5), "inner-else": ("ERROR_ELSE", 0.5), "inner-continue": ("ERROR_CONTINUE",)}[case]
        f = lambda: c.append(*a, bad, q)  # noqa: E731
    elif case in ("index", "index-str"):
        name = env.pick("name", ["X", "M", "CX"])
        f = lambda: c.append(name, q, env.pick("bad", ["a", "1.5", "0x1", "-"]))  # noqa: E731
        err = TypeError
    else:
        f = lambda: c.append_from_str(env.pick("bad", ["X a", "FOO 1", "M 1\nE_ERASE 0.5", "ERROR 1.5 X 1", "ERROR -0.1 X 1"]))  # noqa: E731
    env.raises(err, f, f"malformed instruction ({case}) is rejected")
    left = c.gates[:1] == [("X", (1,))]
    if case == "text":
        env.check(left and len(c.gates) <= 2, "rejected text leaves no bad instruction")
    else:
        env.check(left and len(c.gates) == 1, "rejected instruction is not stored")


def valid_prob(env):
    """Every probability in [0, 1] is accepted."""
    from plaquette.circuit import Circuit

    p = env.real("p")
    name = env.pick("name", ["ERROR", "ERROR_ELSE"])
    c = Circuit()
    try:
        c.append(name, p, "X", 0)
        ok = True
    except ValueError:
        ok = False
    env.check(((p >= 0) & (p <= 1)) if ok else _or(p < 0, p > 1), "accepted iff the probability is within [0, 1]")


def jobs(tier):
    out = [Job("invalid", invalid, weight=3), Job("valid-prob", valid_prob)]
    for k in KINDS:
        out.append(Job(f"one-{k}", roundtrip, weight=2, kinds=[k], full=True, timeout=300))
        for l in KINDS:
            out.append(Job(f"two-{k}-{l}", roundtrip, kinds=[k, l], full=False, timeout=300))
    if tier == "thorough":
        for k in KINDS:
            for l in KINDS:
                for m in KINDS:
                    out.append(Job(f"three-{k}-{l}-{m}", roundtrip, kinds=[k, l, m], full=False, timeout=300))
    return out
