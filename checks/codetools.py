"""Helpers for checks about codes: reading operators off real code objects, plain oracles."""
import numpy as np

from checks.common import ONE, ZERO, anticommute, bor, land, xorsum  # noqa: F401


def make(kind, size=None, rounds=1, xzzx=False):
    from plaquette.codes import LatticeCode

    if kind == "five":
        return LatticeCode.make_five_qubit(rounds)
    if kind == "shor":
        return LatticeCode.make_shor(rounds)
    if kind == "rotated":
        return LatticeCode.make_rotated_planar(rounds, size, xzzx)
    if kind == "xzzx":
        return LatticeCode.make_rotated_planar(rounds, size, True)
    return getattr(LatticeCode, "make_" + kind)(rounds, size)


def vertex_row(v, n):
    """x/z bits of the operator of a lattice vertex, read from its edges."""
    r = [ZERO] * (2 * n + 1)
    for e in v.edges:
        q = e.data.dataqubit_idx
        f = e.factor.name
        if f in "XY":
            r[q] = r[q] ^ ONE
        if f in "ZY":
            r[q + n] = r[q + n] ^ ONE
    return r


def lattice_rows(lat):
    n = len(lat.dataqubits)
    return [vertex_row(v, n) for v in lat.stabgens], [vertex_row(v, n) for v in lat.logical_ops]


def at_least(bits, k):
    """Bit: at least k of the given bits are set."""
    cnt = [ONE] + [ZERO] * k
    for b in bits:
        for j in range(k, 0, -1):
            t = cnt[j - 1] & b
            cnt[j] = bor([cnt[j], t])
    return cnt[k]


def sym_pauli(env, name, n):
    return [env.bit(f"{name}x{i}") for i in range(n)] + [env.bit(f"{name}z{i}") for i in range(n)] + [ZERO]


def combine(rows, coeffs):
    m = len(rows[0])
    return [xorsum([r[j] & c for r, c in zip(rows, coeffs)]) for j in range(m)]
