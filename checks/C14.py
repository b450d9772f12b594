"""C14: OpenQASM export denotes the same circuit."""
import re

from checks.C10 import KINDS, counts, make
from checks.common import alleq, land
from symx.harness import Job

FUNCTIONS = ("plaquette.circuit.openqasm:convert_to_openqasm",)
BOUNDS = {"quick": "every 1- and 2-instruction circuit kind (<= 3 targets, <= 2 pairs), qubit indices unbounded symbolic integers; 3-instruction circuits over supported kinds",
          "thorough": "as quick plus all 3-instruction kinds"}
ASSUMPTIONS = ["OpenQASM 2.0 text is read by a small reference parser (header, qreg, creg, one statement per line); symbolic integers print as opaque tokens"]
PRELOAD = ("plaquette.circuit", "plaquette.circuit.openqasm")

MAP = {"X": "x", "Y": "y", "Z": "z", "H": "h", "CX": "cx", "CZ": "cz", "M": "measure", "R": "reset"}
KNOWN_R = "openqasm-reset-dropped"


def num(env, tok):
    tok = tok.strip()
    if env.symbolic and tok in env.core.SymNum.tokens:
        return env.core.SymNum.tokens[tok]
    return int(tok)


def parse(env, text):
    """(qubits, bits, [(gate, [qubit...], cbit or None)])"""
    lines = [ln.strip() for ln in re.sub(r"//.*", "", text).split("\n") if ln.strip()]
    assert all(ln.endswith(";") for ln in lines), "statements end with a semicolon"
    lines = [ln[:-1].strip() for ln in lines]
    assert lines[0] == "OPENQASM 2.0" and lines[1] == 'include "qelib1.inc"', "header"
    regs = {}
    ops = []
    for ln in lines[2:]:
        m = re.fullmatch(r"(qreg|creg)\s+(\w+)\[([^\]]+)\]", ln)
        if m:
            regs[m.group(1)] = num(env, m.group(3))
            continue
        m = re.fullmatch(r"measure\s+q\[([^\]]+)\]\s*->\s*c\[([^\]]+)\]", ln)
        if m:
            ops.append(("measure", [num(env, m.group(1))], num(env, m.group(2))))
            continue
        m = re.fullmatch(r"(\w+)\s+(.*)", ln)
        assert m, ln
        qs = [re.fullmatch(r"q\[([^\]]+)\]", a.strip()) for a in m.group(2).split(",")]
        assert all(qs), ln
        ops.append((m.group(1), [num(env, a.group(1)) for a in qs], None))
    return regs.get("qreg"), regs.get("creg"), ops


def expected(ins):
    out = []
    k = 0
    for name, _, args, _ in ins:
        if name not in MAP:
            continue
        if name in ("CX", "CZ"):
            out += [(MAP[name], list(args[i:i + 2]), None) for i in range(0, len(args), 2)]
        elif name == "M":
            for q in args:
                out.append(("measure", [q], k))
                k += 1
        else:
            out += [(MAP[name], [q], None) for q in args]
    return out


def export(env, kinds, full):
    from plaquette.circuit import Circuit
    from plaquette.circuit.openqasm import GateNotSupportedError, convert_to_openqasm

    ins = [(k, *make(env, f"i{j}.", k, full)) for j, k in enumerate(kinds)]
    c = Circuit()
    for k, a, _, _ in ins:
        c.append(k, *a)
    arg = str(c) if env.pick("as", ["circuit", "text"]) == "text" else c
    bad = [k for k in kinds if k not in MAP]
    ignore = env.pick("ignore", [False, True])
    if bad and not ignore:
        try:
            convert_to_openqasm(arg)
            env.check(False, "unsupported instructions are rejected")
        except GateNotSupportedError as e:
            env.check(e.gate == bad[0], "the error names the first unsupported instruction")
        return
    text = convert_to_openqasm(arg, ignore_unsupported=True) if ignore else convert_to_openqasm(arg)
    nq, nc, ops = parse(env, text)
    want = expected(ins)
    if env.known(KNOWN_R) and not any(o[0] == "reset" for o in ops):
        want = [w for w in want if w[0] != "reset"]
    env.check(len(ops) == len(want), "one statement per gate application")
    for o, w in zip(ops, want):
        env.check(o[0] == w[0], "gate name")
        env.check(len(o[1]) == len(w[1]) and land(*[a == b for a, b in zip(o[1], w[1])]), f"qubits of {w[0]}")
        if w[0] == "measure":
            env.check(o[2] == w[2], "results go to consecutive classical bits")
    env.check(nc == sum(1 for w in want if w[0] == "measure"), "classical register size")
    for _, _, _, qs in ins:
        for q in qs:
            env.check(nq >= q + 1, "quantum register holds every qubit")
    env.check(nq == c.number_of_qubits, "quantum register size")
    counts(env, c, [(k, st, qs) for k, _, st, qs in ins], "the circuit is untouched")


def wrong_type(env):
    from plaquette.circuit.openqasm import convert_to_openqasm

    env.raises(TypeError, lambda: convert_to_openqasm(env.pick("bad", [None, 3, ["X 0"]])), "only circuits and text are accepted")


def jobs(tier):
    out = [Job("wrong-type", wrong_type)]
    for k in KINDS:
        out.append(Job(f"one-{k}", export, kinds=[k], full=True, timeout=300))
        for l in KINDS:
            out.append(Job(f"two-{k}-{l}", export, kinds=[k, l], full=False, timeout=300))
    for k in MAP:
        for l in MAP:
            for m in MAP if tier == "quick" else KINDS:
                out.append(Job(f"three-{k}-{l}-{m}", export, kinds=[k, l, m], full=False, timeout=300))
    return out
