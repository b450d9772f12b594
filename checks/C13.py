"""C13: the stim backend samples the same circuit (conversion, batching, result splitting)."""
from fractions import Fraction

import numpy as np

from checks import dist, refsim
from checks.C10 import BUILDER  # noqa: F401
from checks.common import alleq
from symx.harness import Job, Rng

FUNCTIONS = ("plaquette.device._stimsim:circuit_to_stim", "plaquette.device._stimsim:_append_equiprobable", "plaquette.device._stimsim:StimSimulator.run",
             "plaquette.device._stimsim:StimSimulator.process_results", "plaquette.device._stimsim:StimSimulator.reset")
BOUNDS = {"quick": "listed programs of <= 6 instructions on <= 3 data qubits (each entangled with a reference qubit), every probability a symbolic real in [0, 1]; batches of 1-3 samples, <= 5 consecutive runs, all sampled bits symbolic",
          "thorough": "more programs; batches up to 4, <= 9 runs"}
ASSUMPTIONS = ["stim itself is compiled C++ and is not encoded: a recorder stands in for stim.Circuit and its output is interpreted by stim's documented gate semantics; the sampler returns arbitrary bits",
               "replays use the real stim"]
PRELOAD = ("plaquette.circuit", "plaquette.device", "plaquette.device._stimsim")

ALIAS = {"CNOT": "CX", "ZCX": "CX", "ZCZ": "CZ", "MZ": "M", "RZ": "R", "E": "CORRELATED_ERROR", "H_XZ": "H", "ZCY": "CY"}
ARGS = {"X": 0, "Y": 0, "Z": 0, "H": 0, "I": 0, "CX": 0, "CZ": 0, "M": 0, "R": 0, "TICK": 0, "X_ERROR": 1, "Y_ERROR": 1, "Z_ERROR": 1, "DEPOLARIZE1": 1,
        "DEPOLARIZE2": 1, "PAULI_CHANNEL_1": 3, "PAULI_CHANNEL_2": 15, "CORRELATED_ERROR": 1, "ELSE_CORRELATED_ERROR": 1}


class Target:
    def __init__(self, q, pauli=None):
        self.value, self.pauli = q, pauli


class FakeCircuit:
    """Recorder with the part of stim.Circuit's interface that conversion code uses."""

    def __init__(self, text=""):
        self.ops = []
        if text:
            self.append_from_stim_program_text(text)

    def append(self, name, targets=(), arg=None, **kw):
        if "arg" in kw:
            arg = kw["arg"]
        name = ALIAS.get(name.upper(), name.upper())
        if name not in ARGS:
            raise IndexError(f"Gate not found: {name!r}")
        if not isinstance(targets, (list, tuple)) and not hasattr(targets, "__iter__"):
            targets = (targets,)
        ts = [t if isinstance(t, Target) else Target(int(t)) for t in targets]
        args = () if arg is None else tuple(arg) if isinstance(arg, (list, tuple)) else (arg,)
        args = tuple(Fraction(str(a)) if isinstance(a, float) else a for a in args)
        if len(args) != ARGS[name]:
            raise ValueError(f"Gate {name} takes {ARGS[name]} arguments")
        if name in ("CX", "CZ", "PAULI_CHANNEL_2", "DEPOLARIZE2") and len(ts) % 2:
            raise ValueError(f"Two qubit gate {name} requires an even number of targets")
        self.ops.append((name, [(t.value, t.pauli) for t in ts], args))

    append_operation = append

    def append_from_stim_program_text(self, text):
        for line in text.split("\n"):
            line = line.split("#")[0].strip()
            if not line:
                continue
            head, *ts = line.split()
            args = None
            if "(" in head:
                head, rest = head.split("(")
                args = [F(a) for a in rest.rstrip(")").split(",")]
            self.append(head, [Target(int(t[1:]), t[0]) if t[0] in "XYZ" else Target(int(t)) for t in ts], args)

    def __iadd__(self, o):
        self.ops = self.ops + o.ops
        return self

    def __add__(self, o):
        r = FakeCircuit()
        r.ops = self.ops + o.ops
        return r

    def __len__(self):
        return len(self.ops)

    @property
    def num_measurements(self):
        return sum(len(t) for n, t, _ in self.ops if n == "M")

    def compile_sampler(self, *, seed=None, **k):
        return FakeSampler(self, seed)


def F(s):
    from symx import core

    return core.sx_float(s)


class FakeSampler:
    log = None

    def __init__(self, circ, seed):
        self.circ, self.k, self.seed = circ, 0, seed

    def sample(self, shots, **k):
        env = FakeSampler.env
        if FakeSampler.log is None:
            FakeSampler.log = []
        s = len(FakeSampler.log)
        rows = [[env.boolean(f"sample{s}.{i}.{j}") for j in range(self.circ.num_measurements)] for i in range(shots)]
        FakeSampler.log.append((self, rows))
        if not self.circ.num_measurements:
            return np.zeros((shots, 0), dtype=bool)
        return env.state(rows) if env.symbolic else np.array(rows, dtype=bool)


class FakeStim:
    Circuit = FakeCircuit
    CompiledMeasurementSampler = FakeSampler

    @staticmethod
    def target_x(q):
        return Target(q, "X")

    @staticmethod
    def target_y(q):
        return Target(q, "Y")

    @staticmethod
    def target_z(q):
        return Target(q, "Z")


def convert(env, circ):
    """[(name, [(qubit, pauli)], args)], meas_is_erasure"""
    from plaquette.device import _stimsim

    if env.symbolic:
        old, _stimsim.stim = _stimsim.stim, FakeStim
        try:
            res, flags = _stimsim.circuit_to_stim(circ)
        finally:
            _stimsim.stim = old
        return list(res.ops), [bool(f) for f in flags]
    res, flags = _stimsim.circuit_to_stim(circ)
    ops = []
    for i in res.flattened():
        ts = []
        for t in i.targets_copy():
            p = "X" if t.is_x_target else "Y" if t.is_y_target else "Z" if t.is_z_target else None
            ts.append((t.value, p))
        ops.append((ALIAS.get(i.name, i.name), ts, tuple(i.gate_args_copy())))
    return ops, [bool(f) for f in flags]


def tidy(env, t):
    """Solver-proved polynomial form of a chain probability (c p or 1 - c p, c in quarters)."""
    if not env.symbolic or not isinstance(t, env.core.SymNum):
        return t
    z3 = env.core.z3
    vs = [h for n, (kind, h, _) in env.vars.items() if kind == "real" and h.decl().name() in dist._vars(z3, t.z)]
    if len(vs) != 1:
        return t
    p = vs[0]
    val = z3.simplify(z3.substitute(t.z, (p, z3.Q(3, 10))))
    for k in range(5):
        for c in (p * z3.Q(k, 4), 1 - p * z3.Q(k, 4)):
            if z3.simplify(z3.substitute(c, (p, z3.Q(3, 10))) - val).eq(z3.RealVal(0)):
                c = z3.simplify(c)
                if env.ctx.valid(env.E.atom(t.z == c)):
                    return env.core.SymNum(c)
    return t


def interpret(env, ops, n):
    """Branches of a stim program by stim's documented semantics."""
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    brs = [refsim.Branch(Fraction(1), psi)]
    mtargets = []
    chosen = None  # inside a CORRELATED_ERROR chain: branches where one of its errors happened
    B = refsim.Branch
    for name, ts, args in ops:
        qs = [t[0] for t in ts]
        if name in ("CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            if name == "CORRELATED_ERROR" or chosen is None:
                if name.startswith("ELSE"):
                    raise ValueError("ELSE_CORRELATED_ERROR without CORRELATED_ERROR")
                chosen, rest = [], Fraction(1)  # [(branch, probability within the chain)]
                idle = brs
            hit = tidy(env, rest * args[0])
            for b in idle:
                e = B(b.p * hit, b.psi, b.meas, b.er)
                for q, p in ts:
                    e = e.gate(p, [q], n)
                chosen.append(e)
            rest = tidy(env, rest * (1 - args[0]))
            brs = chosen + [B(b.p * rest, b.psi, b.meas, b.er) for b in idle]
            continue
        chosen = None
        if name in ("X", "Y", "Z", "H", "CX", "CZ", "R"):
            brs = refsim.simple(brs, name, qs, n)
        elif name == "M":
            brs = refsim.simple(brs, "M", qs, n)
            mtargets += qs
        elif name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            for q in qs:
                brs = [x for b in brs for x in (B(b.p * args[0], b.psi, b.meas).gate(name[0], [q], n), B(b.p * (1 - args[0]), b.psi, b.meas))]
        elif name == "DEPOLARIZE1":
            for q in qs:
                third = args[0] * Fraction(1, 3) if not isinstance(args[0], float) else args[0] / 3
                brs = [x for b in brs for x in [B(b.p * (1 - args[0]), b.psi, b.meas)] + [B(b.p * third, b.psi, b.meas).gate(g, [q], n) for g in "XYZ"]]
        elif name == "PAULI_CHANNEL_1":
            for q in qs:
                brs = refsim.simple(brs, "E_PAULI", (*args, q), n)
        elif name == "PAULI_CHANNEL_2":
            for i in range(0, len(qs), 2):
                brs = refsim.simple(brs, "E_PAULI2", (*args, *qs[i:i + 2]), n)
        elif name in ("I", "TICK"):
            pass
        else:
            raise ValueError(f"stim instruction {name} has no reference semantics here")
    return brs, mtargets


def reduced(psi, n):
    """Stabilisers on the first n qubits (the rest is classical here)."""
    tot = int(np.log2(len(psi)))
    out = []
    for r in refsim.canon(psi):
        x, z, s = r[:tot], r[tot:2 * tot], r[-1]
        if not any(x[n:]) and not any(z[n:]):
            out.append(x[:n] + z[:n] + (s,))
    return tuple(sorted(out))


PROGS = {
    "gates": [("X", 0), ("Y", 1), ("Z", 0), ("H", 1, 0), ("CX", 0, 1), ("CZ", 1, 0), ("M", 1, 0)],
    "gates-multi": [("X", 0, 1), ("H", 0), ("CX", 0, 1, 1, 2), ("R", 1), ("M", 2, 0, 1), ("M", 0)],
    "reset": [("R", 0, 1), ("H", 0), ("R", 0), ("M", 0)],
    "error-X": [("ERROR", "p0", "X", 0)],
    "error-Y": [("ERROR", "p0", "Y", 0)],
    "error-Z": [("ERROR", "p0", "Z", 1)],
    "error-error": [("ERROR", "p0", "X", 0), ("ERROR", "p1", "Z", 0), ("M", 1)],
    "erase": [("E_ERASE", "p0", 0)],
    "erase-q1": [("E_ERASE", "p0", 1), ("M", 0)],
    "erase-measure": [("M", 2), ("E_ERASE", "p0", 2), ("M", 2, 0)],
    "erase-erase": [("E_ERASE", "p0", 0), ("E_ERASE", "p1", 1)],
    "erase-same": [("E_ERASE", "p0", 0), ("M", 2), ("E_ERASE", "p0", 0)],
    "pauli": [("E_PAULI", "p0", "p1", "p2", 0)],
    "pauli-erase": [("E_PAULI", "p0", "p1", "p2", 1), ("E_ERASE", "p3", 1)],
    "pauli2": [("E_PAULI2", *[f"p{i}" for i in range(15)], 0, 1)],
    "pauli2-swapped": [("E_PAULI2", *[f"p{i}" for i in range(15)], 1, 0), ("M", 0)],
    "depolarize": [("DEPOLARIZE", 0, 1)],
    "depolarize-erase": [("DEPOLARIZE", 1), ("E_ERASE", "p0", 1)],
    "silent": [("H", 0)],
}
MORE = {
    "erase3": [("E_ERASE", "p0", 0), ("E_ERASE", "p1", 1), ("M", 0), ("E_ERASE", "p2", 2)],
    "mix": [("E_PAULI", "p0", "p1", "p2", 0), ("CX", 0, 1), ("E_ERASE", "p3", 1), ("ERROR", "p4", "Y", 0), ("M", 0, 1)],
}
BAD = [("ERROR", "p0", "H", 0), ("ERROR", "p0", "X", 0, 1), ("ERROR", "p0", "CX", 0, 1), ("ERROR_ELSE", "p0", "X", 0), ("ERROR_CONTINUE", "X", 0),
       ("ERROR", "p0", "M", 0), ("ERROR", "p0", "DEPOLARIZE", 0)]


def conversion(env, prog):
    from checks.C11 import program
    from plaquette.circuit import Circuit

    gates, n = program(env, prog)
    c = Circuit()
    for name, args in gates:
        c.append(name, *args)
    want = {}
    for b in refsim.run(gates, n):
        k = (refsim.short(refsim.canon(b.psi)), b.meas, b.er)
        want[k] = want[k] + b.p if k in want else b.p
    ops, flags = convert(env, c)
    top = max([q for _, ts, _ in ops for q, _ in ts] + [0]) + 1
    brs, mtargets = interpret(env, ops, max(top, n))
    env.check(len(flags) == len(mtargets), "one flag per stim measurement")
    env.check(all((q >= n) == f for q, f in zip(mtargets, flags)), "exactly the herald measurements are flagged as erasures")
    got = {}
    for b in brs:
        meas = tuple(m for m, f in zip(b.meas, flags) if not f)
        er = tuple(bool(m) for m, f in zip(b.meas, flags) if f)
        k = (refsim.short(reduced(b.psi, n)), meas, er)
        got[k] = got[k] + b.p if k in got else b.p
    for k in sorted(set(got) | set(want), key=repr):
        g, w = got.get(k, 0), want.get(k, 0)
        if env.symbolic:
            equal_terms(env, g, w, f"probability of {k}")
        else:
            env.check(abs(float(g) - float(w)) < 1e-6, f"probability of {k}", f"{float(g)} expected {float(w)}")


def equal_terms(env, g, w, label):
    z3 = env.core.z3
    d = z3.simplify(env.core.SymNum.lift(g).z - env.core.SymNum.lift(w).z, som=True)
    if z3.is_rational_value(d) and d.numerator_as_long() == 0:
        env.check(True, label)
        return
    env.check(env.core.sbool(env.E.atom(d == 0)), label)


def unsupported(env):
    """Instructions stim cannot represent are rejected, never dropped."""
    from plaquette.circuit import Circuit

    p = env.real("p0", 0, 1)
    name, *args = BAD[env.pick("bad", list(range(len(BAD))))]
    c = Circuit()
    c.append("M", 0)
    if name != "ERROR":
        c.append("ERROR", p, "X", 0)
    c.append(name, *[p if a == "p0" else a for a in args])
    env.raises(ValueError, lambda: convert(env, c), "unsupported instruction is rejected")


def batches(env, batch, runs, prog, regrow=False):
    """Consecutive runs use up each sampled row once, in order, split into results and heralds."""
    import plaquette
    from plaquette.circuit import Circuit
    from plaquette.device import _stimsim

    plaquette.rng = Rng(env)
    c = Circuit()
    flags = []
    for name, *args in prog:
        c.append(name, *args)
        flags += [False] * len(args) if name == "M" else [True] if name == "E_ERASE" else []
    old, _stimsim.stim = _stimsim.stim, FakeStim
    FakeSampler.log = []
    FakeSampler.env = env
    try:
        sim = _stimsim.StimSimulator(c, batch_size=batch, stim_seed=env.pick("seed", [5, 0]))
        used = {}
        for r in range(runs):
            if regrow and r == runs - 1:
                c.append("M", 0, 1)
                flags += [False, False]
            if r % 2:
                sim.run()
                meas, er = sim.process_results()
            else:
                meas, er = sim.get_sample()
            # the run's row: the next unused row of the latest batch
            s = len(FakeSampler.log) - 1
            i = used.get(s, 0)
            used[s] = i + 1
            smp, rows = FakeSampler.log[s]
            env.check(i < len(rows), "no row is used twice")
            env.check(len(smp.circ.ops) > 0 and smp.circ.num_measurements == len(flags), "the sampled circuit is the current one")
            row = rows[i]
            wm = [b for b, f in zip(row, flags) if not f]
            we = [b for b, f in zip(row, flags) if f]
            env.check(len(meas) == len(wm), "number of measurement results")
            env.check(alleq(list(meas), wm), "measurement results of this run's row, in order")
            env.check((er is None) == (not we), "erasure information iff there are heralds")
            if we:
                env.check(len(er) == len(we), "number of heralds")
                env.check(alleq(list(er), we), "heralds of this run's row, in order")
        if not regrow:
            for s, k in list(used.items())[:-1]:
                env.check(k == len(FakeSampler.log[s][1]), "a batch is used up before the next one is drawn")
        # a reset discards what is left of the batch
        before = len(FakeSampler.log)
        sim.reset()
        sim.run()
        env.check(len(FakeSampler.log) == before + 1, "a reset discards the current batch")
        meas, er = sim.process_results()
        rows = FakeSampler.log[-1][1]
        env.check(alleq(list(meas), [b for b, f in zip(rows[0], flags) if not f]), "the first row after a reset")
        env.raises(ValueError, lambda: sim.run(after_reset=False), "sampling without reset is rejected")
    finally:
        _stimsim.stim = old


BATCH_PROGS = {
    "plain": [("H", 0), ("M", 0, 1)],
    "heralds": [("M", 1), ("E_ERASE", 0.3, 0), ("M", 0, 1), ("E_ERASE", 0.2, 1), ("E_ERASE", 0.2, 0), ("M", 0)],
    "only-heralds": [("E_ERASE", 0.3, 0)],
    "silent": [("H", 0)],
}


def jobs(tier):
    th = tier == "thorough"
    progs = dict(PROGS)
    if th:
        progs.update(MORE)
    out = [Job("unsupported", unsupported)]
    for k, v in progs.items():
        out.append(Job(f"convert-{k}", conversion, prog=v, timeout=300 if not th else 1500, weight=len(v)))
    for k, v in BATCH_PROGS.items():
        for b in (1, 2, 3) + ((4,) if th else ()):
            for g in (False, True):
                out.append(Job(f"batch-{k}-{b}{'-grown' if g else ''}", batches, batch=b, runs=9 if th else 5, prog=v, regrow=g, timeout=300))
    return out
