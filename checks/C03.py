"""C03: Pauli products, phases and commutators agree with matrix multiplication."""
import numpy as np

from checks.common import (ONE, ZERO, alleq, anticommute, land, mul_rows, rows_of, lut, xorsum)
from symx.harness import Job

FUNCTIONS = ("plaquette.pauli:multiply", "plaquette.pauli:_g", "plaquette.pauli:commutator_sign")
BOUNDS = {
    "quick": {"product": "2 operands on 1..4 qubits, 3 operands on 1..2, 4 on 1, any initial phase in {1,-1,i,-i}; "
              "107 qubits with 4 arbitrary qubits (large phase exponents)",
              "commutator": "1-D/1-D, 1-D/2-D, 2-D/2-D, up to 4 qubits, 3x2 rows"},
    "thorough": {"product": "2 operands on 1..5 qubits, 3 on 1..3, 4 on 1..2", "commutator": "up to 6 qubits, 4x4 rows"},
}
PH = [1, 1j, -1, -1j]


def sym_op(env, name, n):
    return env.array([env.bit(f"{name}.{i}") for i in range(2 * n + 1)])


def product(env, n, k, phased):
    from plaquette import pauli

    ops = [sym_op(env, f"p{i}", n) for i in range(k)]
    ref = [list(o) for o in ops]
    ph = env.pick("phase", PH) if phased else 1
    if k > 2 and env.known("multiply-partial-sign"):
        # known finding: a negative partial product of trailing operands is counted twice
        acc, lo, hi = list(ref[-1]), ZERO, ref[-1][-1]
        p = PH.index(ph)
        lo, hi = np.uint8(p & 1), hi ^ np.uint8(p >> 1)
        for o in reversed(ref[1:-1]):
            xz, l, h = mul_rows(o[:-1] + [ZERO], acc[:-1] + [ZERO], n)
            c = lo & l
            lo, hi = lo ^ l, hi ^ h ^ c ^ o[-1]
            acc = xz + [ZERO]
            env.assume(hi == 0)
    out, phase = pauli.multiply(*ops, initial_phase=ph) if phased else pauli.multiply(*ops)
    # left fold with the matrix-derived table
    acc, lo, hi = list(ref[0]), ZERO, ZERO
    for o in ref[1:]:
        xz, l, h = mul_rows(acc[:-1] + [ZERO], o[:-1] + [ZERO], n)
        c = lo & l
        lo, hi = lo ^ l, hi ^ h ^ c
        acc = xz + [ZERO]
    for o in ref:
        hi = hi ^ o[-1]
    a = PH.index(ph)
    if a & 1:
        hi, lo = hi ^ lo, lo ^ ONE
    if a & 2:
        hi = hi ^ ONE
    env.check(out.shape == (2 * n + 1,), "product has the shape of an operator")
    env.check(alleq(list(out)[:-1], acc[:-1]), "product of the x/z parts")
    # out[-1]: sign of the real (or imaginary) part of the phase i^(2hi+lo)
    env.check(out[-1] == hi, "sign bit of the product")
    want_re = [1, 0, -1, 0]
    for v in range(4):
        is_v = (lo if v & 1 else lo ^ ONE) & (hi if v & 2 else hi ^ ONE)
        env.check(
            land_imp(is_v, phase == PH[v]), f"phase is {PH[v]} when the matrices say so"
        )
    for i, (o, r) in enumerate(zip(ops, ref)):
        env.check(alleq(list(o), r), f"operand {i} is left untouched")


def land_imp(b, c):
    """b (0/1) implies c (bool-like), without branching."""
    nb = b == 0
    if isinstance(nb, (bool, np.bool_)):
        return True if nb else c
    if isinstance(c, (bool, np.bool_)):
        return True if c else nb
    return nb | c


def large(env, n, k):
    """Exponents beyond the exact range of complex powers: n qubits, k of them arbitrary."""
    from plaquette import pauli

    kind = env.pick("kind", ["XY", "YX", "ZX"])
    xz = {"X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
    a = [np.uint8(0)] * (2 * n + 1)
    b = [np.uint8(0)] * (2 * n + 1)
    for q in range(n):
        a[q], a[q + n] = map(np.uint8, xz[kind[0]])
        b[q], b[q + n] = map(np.uint8, xz[kind[1]])
    for i in range(k):
        q = i
        a[q], a[q + n] = env.bit(f"a{i}x"), env.bit(f"a{i}z")
        b[q], b[q + n] = env.bit(f"b{i}x"), env.bit(f"b{i}z")
    a[-1], b[-1] = env.bit("as"), env.bit("bs")
    oa, ob = env.array(a), env.array(b)
    out, phase = pauli.multiply(oa, ob)
    xzs, lo, hi = mul_rows(a, b, n)
    env.check(alleq(list(out)[:-1], xzs), "product of the x/z parts")
    env.check(out[-1] == hi, "sign bit of the product")


def comm11(env, n):
    from plaquette import pauli

    a, b = sym_op(env, "a", n), sym_op(env, "b", n)
    r = pauli.commutator_sign(a, b)
    want = anticommute(list(a), list(b), n)
    env.check(np.shape(r) in ((), (1,)), "scalar commutator")
    v = r if np.shape(r) == () else r[0]
    v = v.item() if isinstance(v, np.ndarray) else v
    env.check(v == want, "commutator of two operators")


def comm2(env, n, ra, rb, ignore, aslist):
    from plaquette import pauli

    a = env.state([[env.bit(f"a{r}.{i}") for i in range(2 * n + 1)] for r in range(ra)])
    b = env.state([[env.bit(f"b{r}.{i}") for i in range(2 * n + 1)] for r in range(rb)])
    A, B = rows_of(a), rows_of(b)
    args = ([a[i] for i in range(ra)], [b[i] for i in range(rb)]) if aslist else (a, b)
    if ra == 1 and not aslist:
        args = (a[0], args[1])
    if rb == 1 and not aslist:
        args = (args[0], b[0])
    if ignore:
        r = pauli.commutator_sign(*args, ignore_destabilisers=True)
        A, B = A[len(A) // 2:], B[len(B) // 2:]
    else:
        r = pauli.commutator_sign(*args)
    want = [[anticommute(x, y, n) for y in B] for x in A]
    wsh = tuple(s for s in (len(A), len(B)) if s != 1)
    env.check(np.shape(r) == wsh, f"shape {np.shape(r)} of the commutator table")
    rr = np.asarray(r, dtype=object).reshape(len(A), len(B)) if not env.symbolic else np.asarray(r).reshape(len(A), len(B))
    for i in range(len(A)):
        for j in range(len(B)):
            env.check(rr[i, j] == want[i][j], f"commutator entry {i},{j}")


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 6 if th else 5):
        out.append(Job(f"mul2-{n}", product, weight=n, timeout=400, n=n, k=2, phased=False))
    for n in range(1, 4 if th else 3):
        out.append(Job(f"mul2p-{n}", product, timeout=400, n=n, k=2, phased=True))
        out.append(Job(f"mul3-{n}", product, timeout=400, weight=3 * n, n=n, k=3, phased=False))
        out.append(Job(f"mul3p-{n}", product, timeout=400, weight=3 * n, n=n, k=3, phased=True)) if n < 3 else None
    for n in range(1, 3 if th else 2):
        out.append(Job(f"mul4-{n}", product, timeout=400, n=n, k=4, phased=False))
    out.append(Job("mul-large", large, timeout=400, weight=9, n=107, k=2 if th else 1))
    for n in range(1, 7 if th else 5):
        out.append(Job(f"comm11-{n}", comm11, n=n))
    for ra, rb in [(1, 4), (4, 1), (3, 2), (2, 2)] + ([(4, 4)] if th else []):
        for n in (1, 2, 3):
            for al in (False, True):
                out.append(Job(f"comm-{n}-{ra}x{rb}-{'list' if al else 'arr'}", comm2, n=n, ra=ra, rb=rb, ignore=False, aslist=al))
    for n in (1, 2):
        out.append(Job(f"comm-ign-{n}", comm2, n=n, ra=2 * n, rb=2 * n, ignore=True, aslist=False))
    out.append(Job("comm-ign-op", comm_ign_op, n=3))
    return out


def comm_ign_op(env, n):
    """Operator against a state, destabilisers ignored (as documented in the examples)."""
    from plaquette import pauli

    op = sym_op(env, "op", n)
    st = env.state([[env.bit(f"s{r}.{i}") for i in range(2 * n + 1)] for r in range(2 * n)])
    r = pauli.commutator_sign(op, st, ignore_destabilisers=True)
    env.check(np.shape(r) == (n,), "one entry per stabiliser")
    for i in range(n):
        env.check(r[i] == anticommute(list(op), rows_of(st)[n + i], n), f"entry {i}")
