"""C08: conversions between tableau, string and dictionary forms lose nothing."""
import numpy as np

from checks.common import *  # noqa: F403
from checks.common import ONE, ZERO, alleq, anticommute, land, rows_of, sym_rows, sym_tableau, symplectic_ok
from symx.harness import Job

FUNCTIONS = ("plaquette.pauli:string_to_pauli", "plaquette.pauli:pauli_to_string", "plaquette.pauli:dict_to_pauli")
BOUNDS = {
    "quick": "operators on 1..3 qubits (every content); 12 and 1003 qubits with two arbitrary factors; strings up to 3 factors; states on 2 qubits",
    "thorough": "operators on 1..4 qubits; strings up to 4 factors; states on 2 qubits",
}


def roundtrip(env, n, free, spots=None):
    """tableau -> string/dict -> tableau."""
    from plaquette import pauli

    if free is None:
        op = [env.bit(f"p{i}") for i in range(2 * n + 1)]
    else:
        op = [ZERO] * (2 * n + 1)
        for k in range(free):
            q = env.pick(f"q{k}", spots or list(range(n)))
            op[q], op[q + n] = env.bit(f"x{k}"), env.bit(f"z{k}")
        op[-1] = env.bit("sign")
    o = env.array(op)
    s = pauli.pauli_to_string(o)
    env.check(len(s) == n + 1, "canonical string has a sign and one letter per qubit")
    # the letters mean what they say (oracle: definition of the symplectic form)
    for q in range(n):
        for letter, (x, z) in XZ.items():
            if s[1 + q] == letter:
                env.check(land(op[q] == x, op[q + n] == z), f"letter of qubit {q}")
    env.check(s[1:].strip("IXYZ") == "" and s[0] in "+-", "alphabet of the string")
    env.check((op[-1] == 1) == (s[0] == "-"), "sign of the string")
    env.check(alleq(list(pauli.string_to_pauli(s)), op), "canonical string round trip")
    short = pauli.pauli_to_string(o, show_identities=False)
    env.check(alleq(list(pauli.string_to_pauli(short, n)), op), "short string round trip")
    d = pauli.pauli_to_dict(o)
    back = pauli.dict_to_pauli(d, n)
    env.check(alleq(list(back)[:-1], op[:-1]), "dictionary round trip")
    env.check(back[-1] == 0, "dictionaries carry no sign")


def parse(env, n, form):
    """string -> tableau for every string of the two documented forms."""
    from plaquette import pauli

    sign = env.pick("sign", ["", "+", "-"])
    sep = env.pick("sep", ["", " ", "_"]) if n < 3 else env.pick("sep", ["", "_ "])
    letters = [env.pick(f"c{i}", "IXYZ") for i in range(n)]
    want = {}
    if form == "canonical":
        text = sign + sep.join(letters)
        want = {i: c for i, c in enumerate(letters) if c != "I"}
        total = n
    else:
        total = 0
        parts = []
        for i, c in enumerate(letters):
            if c == "I":
                continue
            q = env.pick(f"q{i}", [0, 3, 11, 105, 1012][: 3 + n] if n < 3 else [0, 11, 102])
            if q in want:
                return env.check(True, "each qubit once")
            want[q] = c
            parts.append(f"{c}{q}")
        if not parts:
            return env.check(True, "not a short form")
        text = sign + sep.join(parts)
        total = max(want) + 1
    qubits = env.pick("qubits", [None, total, total + 2] if n < 3 else [None, total + 1])
    op = pauli.string_to_pauli(text, qubits) if qubits is not None else pauli.string_to_pauli(text)
    N = qubits or total
    env.check(op.shape == (2 * N + 1,), "number of qubits")
    for q in range(N):
        x, z = XZ[want.get(q, "I")]
        env.check(op[q] == x and op[q + N] == z, f"factor on qubit {q} of {text!r}")
    env.check(op[-1] == (1 if sign == "-" else 0), "sign")
    if want:
        env.check(alleq(list(pauli.dict_to_pauli(want, N))[:-1], list(op)[:-1]), "dict_to_pauli agrees")


def bad(env, pos):
    from plaquette import pauli

    chars = list("XZY")
    chars[pos] = env.pick("bad", ["Q", "x", "i", "z", "*", "W", ","])
    env.raises((ValueError,), lambda: pauli.string_to_pauli("".join(chars)), f"{''.join(chars)} is rejected")


def toofew(env):
    from plaquette import pauli

    q = env.pick("q", list(range(1, 5)))
    n = env.pick("n", list(range(1, 5)))
    if n <= q:
        env.raises((ValueError,), lambda: pauli.dict_to_pauli({q: "X"}, n), "too few qubits are rejected")
        env.raises((ValueError,), lambda: pauli.string_to_pauli(f"X{q}", n), "too few qubits are rejected")
    else:
        env.check(pauli.dict_to_pauli({q: "X"}, n).shape == (2 * n + 1,), "enough qubits")


def single(env, n):
    from plaquette import pauli

    op = env.pick("op", [s + p for s in ("", "+", "-") for p in "XYZ"])
    q = env.pick("q", list(range(n)))
    t = pauli.single_qubit_pauli_operator(op, q, n)
    env.check(t.shape == (2 * n + 1,), "shape")
    for i in range(n):
        x, z = XZ[op[-1]] if i == q else (0, 0)
        env.check(t[i] == x and t[i + n] == z, f"factor {i}")
    env.check(t[-1] == (1 if op[0] == "-" else 0), "sign")


def state_strings(env, n):
    from plaquette import pauli

    st = env.state(sym_rows(env, "t", 2 * n, n))
    rows = rows_of(st)
    d, s = pauli.state_to_stabiliser_string(st, env.pick("ids", [True, False]))
    env.check(len(d) == n and len(s) == n, "n destabilisers and n stabilisers")
    for i, t in enumerate(list(d) + list(s)):
        env.check(alleq(list(pauli.string_to_pauli(t, n)), rows[i]), f"row {i}")


def state_parse(env, n, half):
    """string_to_state with destabilisers: accepts exactly the valid tableaux."""
    from plaquette import pauli

    rows = [[env.bit(f"r{i}.{j}") for j in range(2 * n + 1)] for i in range(2 * n)]
    for i, r in enumerate(rows):
        r[-1] = ZERO if i else r[-1]
    if n == 2:  # fix two rows per job to keep the number of strings in reach
        fixed = {"zz": (2, "ZI", 3, "IZ"), "bell": (2, "XX", 3, "ZZ"), "dd": (0, "XI", 1, "IX"), "ds": (0, "XZ", 2, "ZI"), "ds2": (1, "IX", 2, "YZ")}[half]
        for i, s in (fixed[:2], fixed[2:]):
            rows[i] = [np.uint8(XZ[c][0]) for c in s] + [np.uint8(XZ[c][1]) for c in s] + [ZERO]
    ops = []
    for r in rows:
        bits = [int(env.concrete(b)) for b in r]
        ops.append(("-" if bits[-1] else "+") + "".join(ZX_NAME[(bits[q], bits[q + n])] for q in range(n)))
    ok = symplectic_ok(rows, n)
    try:
        st = pauli.string_to_state(ops[n:], ops[:n])
    except ValueError:
        return env.check(ok == False, f"{ops} is a valid state")  # noqa: E712
    env.check(ok, f"{ops} is accepted although it is not a valid state")
    for i in range(2 * n):
        env.check(alleq(list(st[i]), rows[i]), f"row {i} of {ops}")


def state_default(env, n, first):
    """string_to_state without destabilisers: accepts exactly the independent commuting sets."""
    from plaquette import pauli

    rows = [[env.bit(f"r{i}.{j}") for j in range(2 * n)] + [env.bit("sign") if i else ZERO] for i in range(n)]
    if first:
        rows[0] = [np.uint8(XZ[c][0]) for c in first] + [np.uint8(XZ[c][1]) for c in first] + [ONE]
    ops = []
    for r in rows:
        bits = [int(env.concrete(b)) for b in r]
        ops.append(("-" if bits[-1] else "+") + "".join(ZX_NAME[(bits[q], bits[q + n])] for q in range(n)))
    ok = land(*[anticommute(rows[i], rows[j], n) == 0 for i in range(n) for j in range(i)])
    for m in range(1, 2 ** n):  # independence: no product of a subset is the identity
        bits = [xorsum([rows[i][c] for i in range(n) if m >> i & 1]) for c in range(2 * n)]
        ok = land(ok, land(*[b == 0 for b in bits]) == False)  # noqa: E712
    try:
        st = pauli.string_to_state(ops)
    except ValueError:
        return env.check(ok == False, f"{ops} defines a state")  # noqa: E712
    env.check(ok, f"{ops} is accepted although it does not define a state")
    env.check(st.shape == (2 * n, 2 * n + 1), "shape")
    env.check(symplectic_ok(rows_of(st), n), f"tableau of {ops} is valid")
    for i in range(n):
        env.check(alleq(list(st[n + i]), rows[i]), f"stabiliser {i} of {ops}")


def jobs(tier):
    th = tier == "thorough"
    out = [Job(f"roundtrip-{n}", roundtrip, weight=n * 4, timeout=300, n=n, free=None) for n in range(1, 5 if th else 4)]
    out.append(Job("roundtrip-1003", roundtrip, weight=20, timeout=300, n=1003, free=2, spots=[0, 9, 10, 99, 100, 1002]))
    out.append(Job("roundtrip-12", roundtrip, weight=20, timeout=300, n=12, free=2))
    for n in range(1, 5 if th else 4):
        for form in ("canonical", "short"):
            out.append(Job(f"parse-{form}-{n}", parse, weight=n * 3, timeout=300, n=n, form=form))
    out += [Job(f"bad-{p}", bad, pos=p) for p in range(3)]
    out.append(Job("toofew", toofew))
    out += [Job(f"single-{n}", single, n=n) for n in (1, 2, 4)]
    out += [Job(f"state-strings-{n}", state_strings, weight=9, timeout=300, n=n) for n in (1,)]
    out += [Job("state-parse-1", state_parse, n=1, half=None)]
    out += [Job(f"state-parse-2-{h}", state_parse, weight=6, timeout=300, n=2, half=h) for h in ("zz", "bell", "dd", "ds", "ds2")]
    out += [Job(f"state-default-{n}-{f}", state_default, weight=12, timeout=300, n=n, first=f) for n, f in ((1, None), (2, None), (3, "XXX") ) if n < 3 or th]
    return out
