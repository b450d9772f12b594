"""C05: measurement of Pauli operators and resets on stabiliser states."""
import numpy as np

from checks.common import *  # noqa: F403
from checks.common import (frame_tableau, ONE, ZERO, alleq, anticommute, bor, group_sign, land, land_imp, masked_product,
                           rows_of, sym_rows, sym_tableau, symplectic_ok)
from symx.harness import Job, Rng

FUNCTIONS = ("plaquette.pauli:measure", "plaquette.pauli:_measure_base", "plaquette.pauli:reset_qubits_to_eigenstate")
ASSUMPTIONS = ["plaquette.rng replaced by a stub: choice/integers/random return an arbitrary value of their range"]


def set_rng(env):
    import plaquette

    rng = Rng(env)
    plaquette.rng = rng
    return rng


def check_measured(env, T, T2, op, m, draws, n, what, forced=None):
    """T --measure op, outcome m--> T2, against the projection postulate."""
    env.check(symplectic_ok(T2, n), f"{what}: the tableau is still valid")
    random = bor([anticommute(op, T[n + i], n) for i in range(n)])  # 1 iff outcome random
    _, sgn = group_sign(T, op, n)
    env.check(land_imp(random ^ ONE, m == sgn), f"{what}: determined outcome")
    # (-1)^m op stabilises the new state
    inn, s2 = group_sign(T2, list(op[:-1]) + [op[-1] ^ m], n)
    env.check(land(inn, s2 == 0), f"{what}: outcome is recorded in the new state")
    # every stabiliser of the old state commuting with op is a stabiliser of the new one
    c = [env.bit(f"{what}.coef{i}") for i in range(n)]
    bits, lo, hi = masked_product(T[n:], c, n)
    g = bits + [hi]
    keeps = anticommute(g, op, n) ^ ONE
    inn, s3 = group_sign(T2, g, n)
    env.check(land_imp(keeps, land(inn, s3 == 0)), f"{what}: commuting stabilisers survive")
    return random


def measure(env, n, forced, shape, frame=None):
    from plaquette import pauli

    rng = set_rng(env)
    st = sym_tableau(env, n) if frame is None else frame_tableau(env, n, frame)
    T = rows_of(st)
    if shape == "pauli":
        op = [env.bit(f"op{i}") for i in range(2 * n + 1)]
        o = env.array(op)
        arg = o
    else:
        sgn, kind, q = env.pick("sign", ["", "+", "-"]), env.pick("kind", "XYZ"), env.pick("q", list(range(n)))
        arg = f"{sgn}{kind}{q}"
        op = [ZERO] * (2 * n + 1)
        if kind in "XY":
            op[q] = ONE
        if kind in "ZY":
            op[q + n] = ONE
        if sgn == "-":
            op[-1] = ONE
    kw = {}
    if forced is not None:
        kw["forced_outcome"] = env.pick("forced", [0, 1, None])
    st2, m = pauli.measure(st, arg, **kw)
    T2 = rows_of(st2)
    env.check(st2.shape == (2 * n, 2 * n + 1), "measure keeps the shape")
    random = check_measured(env, T, T2, op, m, None, n, "measure")
    if kw.get("forced_outcome") is not None:
        env.check(land_imp(random, m == kw["forced_outcome"]), "a random outcome is the forced one")
        env.check(len(rng.draws) == 0, "no randomness drawn for a forced outcome")
    else:
        env.check(len(rng.draws) <= 1, "one measurement draws at most once")
        if rng.draws:
            env.check(land(random == 1, m == rng.draws[0][1]), "a random outcome is the drawn bit")
        else:
            env.check(random == 0, "random outcomes are drawn")
    if shape == "pauli":
        env.check(alleq(list(o), op), "the measured operator is left untouched")


def base(env, n, fn, k, forced, frame=None):
    """measure_z_base / measure_x_base on k targets, non destructive."""
    from plaquette import pauli

    set_rng(env)
    env.merge_fn("measure")
    st = sym_tableau(env, n) if frame is None else frame_tableau(env, n, frame)
    T = rows_of(st)
    ts = [env.pick(f"t{i}", list(range(n))) for i in range(k)]
    if len(set(ts)) < k:
        return env.check(True, "distinct targets only")
    arg = ts[0] if k == 1 and env.pick("scalar", [True, False]) else ts
    kw = {}
    fo = [None] * k
    if forced:
        if k == 1:
            v = env.pick("f", [0, 1])
            fo, kw = [v], {"forced_outcomes": v if env.pick("fs", [True, False]) else [v]}
        else:
            if forced == "scalar":
                v = env.pick("f", [0, 1])
                fo, kw = [v] * k, {"forced_outcomes": v}
            else:
                fo = [env.pick(f"f{i}", [0, 1, None]) for i in range(k)]
                kw = {"forced_outcomes": fo}
    st2, res = getattr(pauli, fn)(st, arg, **kw)
    T2 = rows_of(st2)
    res = [res] if k == 1 else [res[i] for i in range(k)]
    env.check(symplectic_ok(T2, n), "the tableau is still valid")
    ops = []
    for t, m in zip(ts, res):
        op = [ZERO] * (2 * n + 1)
        op[t + (n if "z" in fn else 0)] = ONE
        op[-1] = op[-1] ^ m
        ops.append(op)
        inn, s = group_sign(T2, op, n)
        env.check(land(inn, s == 0), f"result of target {t} matches the new state")
    c = [env.bit(f"coef{i}") for i in range(n)]
    bits, lo, hi = masked_product(T[n:], c, n)
    g = bits + [hi]
    keeps = ONE
    for op in ops:
        keeps = keeps & (anticommute(g, op, n) ^ ONE)
    inn, s3 = group_sign(T2, g, n)
    env.check(land_imp(keeps, land(inn, s3 == 0)), "commuting stabilisers survive")
    # an outcome that a single measurement leaves open takes the forced value
    for i, op in enumerate(ops):
        if fo[i] is None:
            continue
        # open even after all the others were measured: no product with others determined
        rnd = random_given(T, ops, i, n)
        env.check(land_imp(rnd, res[i] == fo[i]), f"forced outcome of target {ts[i]}")


def random_given(T, ops, i, n):
    """1 iff op i times any product of the other ops is outside the stabiliser group."""
    k = len(ops)
    r = ONE
    for mask in range(2 ** (k - 1)):
        p = list(ops[i])
        j = 0
        for a in range(k):
            if a == i:
                continue
            if (mask >> j) & 1:
                p = [x ^ y for x, y in zip(p, ops[a])]
            j += 1
        r = r & bor([anticommute(p, T[n + s], n) for s in range(n)])
    return r


def reset(env, n, k, kind, frame):
    from plaquette import pauli

    set_rng(env)
    env.merge_fn("measure")
    st = sym_tableau(env, n) if frame is None else frame_tableau(env, n, frame)
    T = rows_of(st)
    ts = [env.pick(f"t{i}", list(range(n))) for i in range(k)]
    arg = ts[0] if k == 1 and env.pick("scalar", [True, False]) else ts
    st2 = pauli.reset_qubits_to_eigenstate(st, kind, arg)
    T2 = rows_of(st2)
    env.check(symplectic_ok(T2, n), "the tableau is still valid")
    op = [ZERO] * (2 * n + 1)
    for t in ts:
        op = [ZERO] * (2 * n + 1)
        
        if kind[-1] in "XY":
            op[t] = ONE
        if kind[-1] in "ZY":
            op[t + n] = ONE
        op[-1] = ONE if kind[0] == "-" else ZERO
        inn, s = group_sign(T2, op, n)
        env.check(land(inn, s == 0), f"qubit {t} is in the +1 eigenstate of {kind}")
    # stabilisers not involving the reset qubits survive
    c = [env.bit(f"coef{i}") for i in range(n)]
    bits, lo, hi = masked_product(T[n:], c, n)
    g = bits + [hi]
    out = bor([g[t] for t in ts] + [g[t + n] for t in ts]) ^ ONE
    inn, s3 = group_sign(T2, g, n)
    env.check(land_imp(out, land(inn, s3 == 0)), "the other qubits keep their stabilisers")


KINDS = [s + p for p in "ZXY" for s in ("", "-", "+")]


def jobs(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2):
        for f in (None, True):
            out.append(Job(f"measure-{n}-{f}", measure, timeout=500, weight=n * 5, n=n, forced=f, shape="pauli"))
            out.append(Job(f"measure-str-{n}-{f}", measure, timeout=500, weight=n * 7, n=n, forced=f, shape="str"))
        for fn in ("measure_z_base", "measure_x_base"):
            for k in range(1, n + 1):
                for f in (False, "scalar", "list"):
                    if f == "list" and k == 1:
                        continue
                    out.append(Job(f"{fn}-{n}-{k}-{f}", base, timeout=500, weight=n * k * (9 if f == "list" else 3), n=n, fn=fn, k=k, forced=f))
        for k in range(1, n + 1):
            for kind in KINDS:
                out.append(Job(f"reset-{n}-{k}-{kind}", reset, timeout=500, weight=n * k * 2, n=n, k=k, kind=kind, frame=None))
    for n, frames in ((3, 6), (4, 2)) if not th else ((3, 20), (4, 10), (5, 3)):
        for fr in range(frames):
            out.append(Job(f"measure-{n}-frame{fr}", measure, timeout=500 if not th else 1500, weight=n * 4, n=n, forced=True if n == 3 else None, shape="pauli", frame=fr))
            if n == 3:
                for fn in ("measure_z_base", "measure_x_base"):
                    for k in (1, 2, 3):
                        out.append(Job(f"{fn}-{n}-{k}-frame{fr}", base, timeout=500, weight=k, n=n, fn=fn, k=k, forced=False if k == 3 else "scalar" if k == 1 else "list", frame=fr))
                for kind in ("Z", "-X", "+Y"):
                    out.append(Job(f"reset-{n}-2-{kind}-frame{fr}", reset, timeout=500, weight=2, n=n, k=2, kind=kind, frame=fr))
    return out
