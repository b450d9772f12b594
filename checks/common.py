"""Independent oracles shared by the checks.

Everything here is derived from 2x2 complex matrices or from plain definitions; nothing
is copied from the code under test.  All functions work on numpy uint8 scalars and on
symbolic bits alike (they only use ``^`` and ``&``).
"""
import functools
import itertools

import numpy as np

ONE = np.uint8(1)
ZERO = np.uint8(0)
PX = np.array([[0, 1], [1, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PI = np.eye(2, dtype=complex)
PY = 1j * PX @ PZ
HAD = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
SGATE = np.diag([1, 1j])
CXM = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
CZM = np.diag([1, 1, 1, -1]).astype(complex)
MAT = {"I": PI, "X": PX, "Y": PY, "Z": PZ, "H": HAD, "S": SGATE, "CX": CXM, "CZ": CZM}
XZ = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
ZX_NAME = {v: k for k, v in XZ.items()}


def pauli_matrix(bits):
    """Matrix of the Hermitian Pauli given by ((x0, z0), (x1, z1), ...)."""
    m = np.eye(1, dtype=complex)
    for b in bits:
        m = np.kron(m, MAT[ZX_NAME[tuple(b)]])
    return m


@functools.lru_cache(None)
def conj_table(gate):
    """{(bits of P): (bits of UPU^dagger, sign)} computed from matrices."""
    u = MAT[gate]
    k = 1 if u.shape[0] == 2 else 2
    out = {}
    paulis = list(itertools.product([(0, 0), (1, 0), (0, 1), (1, 1)], repeat=k))
    mats = {p: pauli_matrix(p) for p in paulis}
    for p in paulis:
        m = u @ mats[p] @ u.conj().T
        for q in paulis:
            for s in (0, 1):
                if np.allclose(m, (-1) ** s * mats[q]):
                    flat = tuple(b for pr in p for b in pr)
                    out[flat] = (tuple(b for pr in q for b in pr), s)
    return out


@functools.lru_cache(None)
def mul_table():
    """{(x1,z1,x2,z2): (x,z,k)} with P1 P2 = i^k P from matrices."""
    out = {}
    for a in itertools.product([0, 1], repeat=4):
        m = pauli_matrix([a[:2]]) @ pauli_matrix([a[2:]])
        for q in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for k in range(4):
                if np.allclose(m, 1j**k * pauli_matrix([q])):
                    out[a] = (q[0], q[1], k)
    return out


def lut(fn, bits):
    """Truth table lookup: XOR of the minterms of ``fn`` (fn: tuple of 0/1 -> 0/1)."""
    r = ZERO
    for v in itertools.product([0, 1], repeat=len(bits)):
        if fn(v):
            t = ONE
            for b, w in zip(bits, v):
                t = t & (b if w else b ^ ONE)
            r = r ^ t
    return r


def xorsum(xs):
    r = ZERO
    for x in xs:
        r = r ^ x
    return r


def gate_row(row, gate, qs, n):
    """Image of one signed Pauli row (list of 2n+1 bits) under a Clifford gate."""
    row = list(row)
    t = conj_table(gate)
    idx = [i for q in qs for i in (q, q + n)]
    bits = [row[i] for i in idx]
    for j, i in enumerate(idx):
        row[i] = lut(lambda v, j=j: t[v][0][j], bits)
    row[2 * n] = row[2 * n] ^ lut(lambda v: t[v][1], bits)
    return row


def mul_rows(a, b, n):
    """Product of two signed Paulis: (x/z bits, phase exponent mod 4 as 2 bits lo, hi)."""
    t = mul_table()
    lo, hi = ZERO, ZERO
    out = [ZERO] * (2 * n)
    for q in range(n):
        bits = [a[q], a[q + n], b[q], b[q + n]]
        out[q] = lut(lambda v: t[v][0], bits)
        out[q + n] = lut(lambda v: t[v][1], bits)
        l = lut(lambda v: t[v][2] & 1, bits)
        h = lut(lambda v: (t[v][2] >> 1) & 1, bits)
        c = lo & l
        lo = lo ^ l
        hi = hi ^ h ^ c
    hi = hi ^ a[2 * n] ^ b[2 * n]
    return out, lo, hi


def anticommute(a, b, n):
    return xorsum([(a[q] & b[q + n]) ^ (a[q + n] & b[q]) for q in range(n)])


def land(*xs):
    """Conjunction without branching."""
    r = True
    for x in xs:
        r = _and(r, x)
    return r


def _and(a, b):
    if isinstance(a, (bool, np.bool_)):
        return b if a else False
    if isinstance(b, (bool, np.bool_)):
        return a if b else False
    return a & b


def alleq(a, b):
    return land(*[x == y for x, y in zip(a, b)])


def rows_of(arr):
    """2-D array -> list of lists of scalars."""
    return [[arr[i, j] for j in range(arr.shape[1])] for i in range(arr.shape[0])]


# ------------------------------------------------------------------ stabiliser oracle
def land_imp(b, c):
    """b (0/1 bit) implies c (bool-like), without branching."""
    nb = b == 0
    if isinstance(nb, (bool, np.bool_)):
        return True if nb else c
    if isinstance(c, (bool, np.bool_)):
        return True if c else nb
    return nb | c


def sym_rows(env, name, nrows, n):
    return [[env.bit(f"{name}{r}.{c}") for c in range(2 * n + 1)] for r in range(nrows)]


def symplectic_ok(rows, n):
    """Rows 0..n-1 (destabilisers) and n..2n-1 (stabilisers) form a symplectic basis."""
    cs = []
    for i in range(2 * n):
        for j in range(i):
            want = ONE if i - j == n else ZERO
            cs.append(anticommute(rows[i], rows[j], n) == want)
    return land(*cs)


def sym_tableau(env, n, name="t"):
    """An arbitrary valid tableau (every valid one, by constraints)."""
    rows = sym_rows(env, name, 2 * n, n)
    env.assume(symplectic_ok(rows, n))
    return env.state(rows)


def masked_product(rows, coeffs, n):
    """Product of the rows selected by coefficient bits; (bits, lo, hi)."""
    acc, lo, hi = [ZERO] * (2 * n) + [ZERO], ZERO, ZERO
    for r, c in zip(rows, coeffs):
        m = [b & c for b in r]
        xz, l, h = mul_rows(acc, m, n)
        k = lo & l
        lo, hi = lo ^ l, hi ^ h ^ k
        acc = xz + [ZERO]
    return acc[:-1], lo, hi


def group_sign(rows, op, n):
    """(op commutes with all stabilisers, sign relative to the stabiliser group).

    For a valid tableau, an operator commuting with every stabiliser equals, up to sign,
    the product of the stabilisers whose destabiliser it anticommutes with.
    """
    cs = [anticommute(op, rows[i], n) for i in range(n)]
    bits, lo, hi = masked_product(rows[n:], cs, n)
    inn = land(*[anticommute(op, rows[n + i], n) == 0 for i in range(n)])
    return land(inn, alleq(bits, op[:-1])), hi ^ op[-1]


def bor(xs):
    r = ZERO
    for x in xs:
        r = r ^ x ^ (r & x)
    return r


def random_tableau(n, seed, depth=None):
    """Concrete x/z part of a valid tableau, from a seeded random Clifford circuit."""
    import random

    rnd = random.Random(f"tableau{n}/{seed}")
    rows = [[ONE if c == r else ZERO for c in range(2 * n + 1)] for r in range(2 * n)]
    for _ in range(depth or 6 * n):
        g = rnd.choice(["H", "S", "CX", "CZ"] if n > 1 else ["H", "S"])
        qs = rnd.sample(range(n), 2 if g in ("CX", "CZ") else 1)
        rows = [gate_row(r, g, qs, n) for r in rows]
    return rows


def frame_tableau(env, n, seed):
    """Random concrete x/z part, arbitrary signs."""
    rows = random_tableau(n, seed)
    for i, r in enumerate(rows):
        r[-1] = env.bit(f"sign{i}")
    return env.state(rows)
