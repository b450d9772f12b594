"""Reference semantics of circuits, from docs/ref/circuits.rst: state vectors, branches."""
import functools
import itertools
from fractions import Fraction

import numpy as np

from checks.common import MAT, ZX_NAME, mul_rows

PAULI2 = [a + b for a in "IXYZ" for b in "IXYZ"]


def op_matrix(name, qs, n):
    if len(qs) == 1:
        m = np.eye(1)
        for q in range(n):
            m = np.kron(m, MAT[name] if q == qs[0] else MAT["I"])
        return m
    a, b = qs
    dim = 2**n
    u = MAT[name]
    m = np.zeros((dim, dim), dtype=complex)
    for i in range(dim):
        bits = [(i >> (n - 1 - q)) & 1 for q in range(n)]
        for v in range(4):
            w = u[v, 2 * bits[a] + bits[b]]
            if w:
                nb = list(bits)
                nb[a], nb[b] = v >> 1, v & 1
                m[sum(x << (n - 1 - q) for q, x in enumerate(nb)), i] += w
    return m


@functools.lru_cache(None)
def op_cached(name, qs, n):
    return op_matrix(name, qs, n)


@functools.lru_cache(None)
def _paulis(n):
    out = []
    for bits in itertools.product([(0, 0), (1, 0), (0, 1), (1, 1)], repeat=n):
        m = np.eye(1)
        for b in bits:
            m = np.kron(m, MAT[ZX_NAME[b]])
        out.append((tuple(b[0] for b in bits) + tuple(b[1] for b in bits), m))
    return out


_CANON = {}


def canon(psi):
    """Stabiliser group of a state vector as a sorted tuple of (bits, sign)."""
    n = int(np.log2(len(psi)))
    key = np.round(np.outer(psi, psi.conj()), 6).tobytes()
    if key not in _CANON:
        out = []
        for bits, m in _paulis(n):
            e = np.vdot(psi, m @ psi).real
            if abs(abs(e) - 1) < 1e-6:
                out.append(bits + (0 if e > 0 else 1,))
        _CANON[key] = tuple(sorted(out))
    return _CANON[key]


def canon_tableau(tab):
    """Same, from the stabiliser half of a concrete tableau."""
    tab = np.asarray(tab, dtype=int)
    n = tab.shape[0] // 2
    rows = [[np.uint8(v) for v in r] for r in tab[n:]]
    group = [[np.uint8(0)] * (2 * n + 1)]
    for r in rows:
        new = []
        for g in group:
            bits, lo, hi = mul_rows(g, r, n)
            if lo:
                return "not commuting"
            new.append(bits + [hi])
        group += new
    return tuple(sorted(tuple(int(v) for v in g) for g in group))


def short(c):
    """Readable key: a generating-independent digest of a stabiliser group."""
    import hashlib

    return hashlib.sha1(repr(c).encode()).hexdigest()[:10]


class Branch:
    """One classical history: probability, state vector, results, erasure list."""

    def __init__(self, p, psi, meas=(), er=()):
        self.p, self.psi, self.meas, self.er = p, psi, meas, er

    def gate(self, name, qs, n):
        return Branch(self.p, op_cached(name, tuple(qs), n) @ self.psi, self.meas, self.er)


def project(psi, q, v, n):
    m = psi.reshape([2] * n).copy()
    idx = [slice(None)] * n
    idx[q] = 1 - v
    m[tuple(idx)] = 0
    m = m.reshape(-1)
    w = np.vdot(m, m).real
    return w, (m / np.sqrt(w) if w > 1e-9 else m)


def simple(brs, name, args, n):
    """Branches after one instruction that is not ERROR*."""
    out = []
    if name in ("X", "Y", "Z", "H"):
        for q in args:
            brs = [b.gate(name, [q], n) for b in brs]
        return brs
    if name in ("CX", "CZ"):
        for i in range(0, len(args), 2):
            brs = [b.gate(name, args[i:i + 2], n) for b in brs]
        return brs
    if name in ("M", "R"):
        for q in args:
            new = []
            for b in brs:
                for v in (0, 1):
                    w, psi = project(b.psi, q, v, n)
                    if w < 1e-9:
                        continue
                    w = 1 if w > 1 - 1e-9 else Fraction(1, 2)
                    nb = Branch(b.p * w if w != 1 else b.p, psi, b.meas + ((v,) if name == "M" else ()), b.er)
                    if name == "R" and v:
                        nb = nb.gate("X", [q], n)
                    new.append(nb)
            brs = new
        return brs
    if name == "DEPOLARIZE":
        for q in args:
            brs = [Branch(b.p * Fraction(1, 3), b.psi, b.meas, b.er).gate(g, [q], n) for b in brs for g in "XYZ"]
        return brs
    if name == "E_ERASE":
        p, q = args
        for b in brs:
            out.append(Branch(b.p * (1 - p), b.psi, b.meas, b.er + (False,)))
            for g in "IXYZ":
                out.append(Branch(b.p * p * Fraction(1, 4), b.psi, b.meas, b.er + (True,)).gate(g, [q], n))
        return out
    if name == "E_PAULI":
        ps, q = args[:3], args[3]
        for b in brs:
            out.append(Branch(b.p * (1 - ps[0] - ps[1] - ps[2]), b.psi, b.meas, b.er))
            for p, g in zip(ps, "XYZ"):
                out.append(Branch(b.p * p, b.psi, b.meas, b.er).gate(g, [q], n))
        return out
    if name == "E_PAULI2":
        ps, (q, r) = args[:15], args[15:]
        for b in brs:
            rest = 1
            for p in ps:
                rest = rest - p
            out.append(Branch(b.p * rest, b.psi, b.meas, b.er))
            for p, g in zip(ps, PAULI2[1:]):
                out.append(Branch(b.p * p, b.psi, b.meas, b.er).gate(g[0], [q], n).gate(g[1], [r], n))
        return out
    raise ValueError(name)


def run(gates, n, start=None):
    """Branches of a whole circuit; gates: list of (name, args)."""
    if start is None:
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
        start = [Branch(Fraction(1), psi)]
    # state per branch group: (branches, chosen in this block, active)
    groups = [(start, False, False)]
    for name, args in gates:
        new = []
        if name == "ERROR":
            allb = [b for g, _, _ in groups for b in g]
            p, inner, rest = args[0], args[1], args[2:]
            yes = simple([Branch(b.p * p, b.psi, b.meas, b.er) for b in allb], inner, rest, n)
            no = [Branch(b.p * (1 - p), b.psi, b.meas, b.er) for b in allb]
            new = [(yes, True, True), (no, False, False)]
        elif name == "ERROR_ELSE":
            p, inner, rest = args[0], args[1], args[2:]
            for g, chosen, _ in groups:
                if chosen:
                    new.append((g, True, False))
                else:
                    yes = simple([Branch(b.p * p, b.psi, b.meas, b.er) for b in g], inner, rest, n)
                    no = [Branch(b.p * (1 - p), b.psi, b.meas, b.er) for b in g]
                    new += [(yes, True, True), (no, False, False)]
        elif name == "ERROR_CONTINUE":
            for g, chosen, active in groups:
                new.append((simple(g, args[0], args[1:], n) if active else g, chosen, active))
        else:
            new = [(simple([b for g, _, _ in groups for b in g], name, args, n), False, False)]
        groups = new
    return [b for g, _, _ in groups for b in g]


def distribution(branches):
    d = {}
    for b in branches:
        k = (short(canon(b.psi)), b.meas, b.er)
        d[k] = d[k] + b.p if k in d else b.p
    return d
