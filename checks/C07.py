"""C07: growing, shrinking and combining registers."""
import numpy as np

from checks.common import *  # noqa: F403
from checks.common import (ONE, ZERO, alleq, anticommute, frame_tableau, group_sign, land, land_imp, masked_product,
                           rows_of, sym_rows, sym_tableau, symplectic_ok, xorsum)
from checks.C05 import set_rng
from symx.harness import Job

FUNCTIONS = ("plaquette.pauli:_ptrace", "plaquette.pauli:insert_qubit_at", "plaquette.pauli:tensor_product",
             "plaquette.pauli:pad_operator", "plaquette.pauli:count_qubits")
ASSUMPTIONS = ["plaquette.rng replaced by a stub returning arbitrary bits"]
BOUNDS = {
    "quick": "destructive: every valid tableau on 2 qubits, sampled x/z frames with all signs on 3; composition: all contents, up to 3+2 qubits",
    "thorough": "destructive: also frames on 4 qubits; composition up to 4+3 qubits",
}


def paired(rows, n):
    """Stabilisers commute and row i pairs with destabiliser i only (independence)."""
    cs = []
    for i in range(n):
        for j in range(n):
            cs.append(anticommute(rows[n + i], rows[j], n) == (ONE if i == j else ZERO))
            if j < i:
                cs.append(anticommute(rows[n + i], rows[n + j], n) == ZERO)
    return land(*cs)


def destructive(env, n, k, fn, frame, forced):
    from plaquette import pauli

    set_rng(env)
    env.merge_fn("measure")
    st = sym_tableau(env, n) if frame is None else frame_tableau(env, n, frame)
    T = rows_of(st)
    ts = [env.pick(f"t{i}", list(range(n))) for i in range(k)]
    if len(set(ts)) < k:
        return env.check(True, "distinct targets only")
    arg = ts[0] if k == 1 and env.pick("scalar", [True, False]) else ts
    kw = {"forced_outcomes": [env.pick(f"f{i}", [0, 1]) for i in range(k)]} if forced else {}
    st2, res = getattr(pauli, fn)(st, arg, destructive=True, **kw)
    res = [res] if k == 1 else [res[i] for i in range(k)]
    m = n - k
    env.check(st2.shape == (2 * m, 2 * m + 1), "one qubit less per target")
    if m == 0:
        return
    T2 = rows_of(st2)
    env.check(paired(T2, m), "the reduced tableau is a state")
    rest = [q for q in range(n) if q not in ts]
    c = [env.bit(f"coef{i}") for i in range(n)]
    bits, lo, hi = masked_product(T[n:], c, n)
    keeps = ONE
    sgn = hi
    for t, r in zip(ts, res):
        comp, other = (bits[t + n], bits[t]) if "z" in fn else (bits[t], bits[t + n])
        keeps = keeps & (other ^ ONE)
        sgn = sgn ^ (comp & r)
    g = [bits[q] for q in rest] + [bits[q + n] for q in rest] + [sgn]
    inn, s = group_sign(T2, g, m)
    env.check(land_imp(keeps, land(inn, s == 0)), "stabilisers of the remaining qubits survive with the sign of the outcome")


def insert(env, n, how):
    from plaquette import pauli

    st = env.state(sym_rows(env, "t", 2 * n, n))
    T = rows_of(st)
    if how == "append":
        pos = [n]
        out = pauli.append_qubit(st)
    elif how == "one":
        pos = [env.pick("pos", list(range(n + 1)))]
        out = pauli.insert_qubit_at(st, pos[0])
    else:
        a = env.pick("pos", list(range(n + 1)))
        b = env.pick("pos2", list(range(n + 1)))
        pos = [a, b]
        out = pauli.insert_qubit_at(st, pos)
    # index map: qubit q of the old register -> position in the new one
    m = n + len(pos)
    old = [q + sum(p <= q for p in pos) for q in range(n)]
    new = [q for q in range(m) if q not in old]
    env.check(out.shape == (2 * m, 2 * m + 1), "size of the new state")
    env.check(alleq_state(out, T, old, new, n, m), f"insertion at {pos}")
    env.raises((IndexError,), lambda: pauli.insert_qubit_at(st, n + 1), "positions beyond the end are rejected")


def alleq_state(out, T, old, new, n, m):
    cs = []
    rows = rows_of(out)
    for half in range(2):
        for i, q in enumerate(old):
            src, dst = T[half * n + i], rows[half * m + q]
            want = [ZERO] * (2 * m + 1)
            for a, b in enumerate(old):
                want[b], want[b + m] = src[a], src[a + n]
            want[-1] = src[-1]
            cs.append(alleq(dst, want))
        for q in new:
            want = [ZERO] * (2 * m + 1)
            want[q + half * m] = ONE
            cs.append(alleq(rows[half * m + q], want))
    return land(*cs)


def tensor_ops(env, sizes):
    from plaquette import pauli

    ops = [[env.bit(f"p{k}.{i}") for i in range(2 * n + 1)] for k, n in enumerate(sizes)]
    out = pauli.tensor_product(*[env.array(o) for o in ops])
    N = sum(sizes)
    env.check(out.shape == (2 * N + 1,), "number of qubits")
    want = [b for o, n in zip(ops, sizes) for b in o[:n]] + [b for o, n in zip(ops, sizes) for b in o[n:2 * n]]
    env.check(alleq(list(out)[:-1], want), "x and z parts side by side")
    env.check(out[-1] == xorsum([o[-1] for o in ops]), "signs multiply")


def tensor_states(env, sizes):
    from plaquette import pauli

    sts = [env.state(sym_rows(env, f"s{k}.", 2 * n, n)) for k, n in enumerate(sizes)]
    Ts = [rows_of(s) for s in sts]
    out = pauli.tensor_product(*sts)
    N = sum(sizes)
    env.check(out.shape == (2 * N, 2 * N + 1), "size of the joint state")
    rows = rows_of(out)
    off = 0
    for T, n in zip(Ts, sizes):
        for half in range(2):
            for i in range(n):
                want = [ZERO] * (2 * N + 1)
                for q in range(n):
                    want[off + q], want[off + q + N] = T[half * n + i][q], T[half * n + i][q + n]
                want[-1] = T[half * n + i][-1]
                env.check(alleq(rows[half * N + off + i], want), f"row {i} of a factor of size {n}")
        off += n


def tensor_mixed(env):
    from plaquette import pauli

    a = env.state(sym_rows(env, "s", 2, 1))
    b = env.array([env.bit(f"p{i}") for i in range(3)])
    env.raises((ValueError,), lambda: pauli.tensor_product(a, b), "states and operators do not mix")
    env.raises((ValueError,), lambda: pauli.tensor_product(b, a), "states and operators do not mix")


def pad(env, n, total):
    from plaquette import pauli

    o = [env.bit(f"p{i}") for i in range(2 * n + 1)]
    out = pauli.pad_operator(env.array(o), total)
    N = max(n, total)
    env.check(out.shape == (2 * N + 1,), "number of qubits")
    want = o[:n] + [ZERO] * (N - n) + o[n:2 * n] + [ZERO] * (N - n) + o[-1:]
    env.check(alleq(list(out), want), "identities are appended on the right")


def count(env, n, rows):
    from plaquette import pauli

    st = [[env.bit(f"t{r}.{i}") for i in range(2 * n + 1)] for r in range(rows)]
    arr = env.state(st)
    env.check(list(pauli.count_qubits(arr)) == [n], "number of qubits")
    env.check(list(pauli.count_qubits([arr[i] for i in range(rows)])) == [n] * rows, "number of qubits, per operator")
    a = pauli.count_qubits(arr, include_identities=False)
    b = pauli.count_qubits([arr[i] for i in range(rows)], include_identities=False)
    for r in range(rows):
        for v in range(n + 1):
            is_v = exactly([st[r][q] ^ st[r][q + n] ^ (st[r][q] & st[r][q + n]) for q in range(n)], v)
            env.check(land_imp(is_v, land(a[r] == v, b[r] == v)), "weight of an operator")


def exactly(bits, v):
    """1 iff exactly v of the bits are set."""
    row = [ONE] + [ZERO] * len(bits)
    for b in bits:
        row = [(row[j] & (b ^ ONE)) ^ (row[j - 1] & b if j else ZERO) for j in range(len(row))]
    return row[v]


def basics(env):
    from plaquette import pauli

    n = env.pick("n", [1, 2, 3, 5])
    z = pauli.zero_state(n)
    env.check(z.shape == (2 * n, 2 * n + 1) and all(z[i, j] == (i == j) for i in range(2 * n) for j in range(2 * n + 1)), "zero state")
    s = pauli.append_scratch(z)
    env.check(s.shape == (2 * n + 1, 2 * n + 1) and not s[-1].any() and (s[:-1] == z).all(), "scratch row")


def jobs(tier):
    th = tier == "thorough"
    out = [Job("basics", basics), Job("tensor-mixed", tensor_mixed)]
    for fn in ("measure_z_base", "measure_x_base"):
        for forced in (False, True):
            for k in (1, 2):
                out.append(Job(f"destructive-{fn}-1-{forced}" if k == 2 else f"destructive-{fn}-2-1-{forced}", destructive, weight=9, timeout=600,
                               n=2 if k == 1 else 1, k=1, fn=fn, frame=None, forced=forced))
        out.append(Job(f"destructive-{fn}-2-2", destructive, weight=9, timeout=600, n=2, k=2, fn=fn, frame=None, forced=False))
        for n, frames in ((3, 8), (4, 2)) if not th else ((3, 24), (4, 10), (5, 3)):
            for fr in range(frames):
                for k in (1, 2, 3):
                    if k == 3 and n == 3:
                        continue
                    out.append(Job(f"destructive-{fn}-{n}-{k}-frame{fr}", destructive, timeout=600, weight=n, n=n, k=k, fn=fn, frame=fr, forced=k == 1))
    for n in range(1, 5 if th else 4):
        for how in ("append", "one", "two"):
            out.append(Job(f"insert-{n}-{how}", insert, n=n, how=how))
        for total in range(n - 1 or 1, n + 3):
            out.append(Job(f"pad-{n}-{total}", pad, n=n, total=total))
        out.append(Job(f"count-{n}", count, n=n, rows=2))
    for sizes in [(1,), (1, 1), (2, 1), (1, 3), (2, 2), (1, 2, 1), (1, 1, 2, 1)] + ([(4, 3), (3, 3, 2)] if th else []):
        nm = "x".join(map(str, sizes))
        out.append(Job(f"tensor-ops-{nm}", tensor_ops, sizes=sizes))
        if len(sizes) > 1:
            out.append(Job(f"tensor-states-{nm}", tensor_states, sizes=sizes))
    return out
