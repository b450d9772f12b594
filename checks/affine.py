"""Reference stabiliser simulation with a concrete x/z frame and symbolic (affine) signs.

Independent of the code under test: Clifford gates move the concrete frame, random
outcomes and injected Pauli errors are symbolic bits that only enter the signs.
"""
from checks.common import ONE, ZERO, xorsum


def _g(x1, z1, x2, z2):
    """Exponent of i in P1 P2 for single-qubit Paulis (from XZ = -iY etc.)."""
    if x1 and z1:
        return z2 - x2
    if x1:
        return z2 * (2 * x2 - 1)
    if z1:
        return x2 * (1 - 2 * z2)
    return 0


class Affine:
    def __init__(self, env, n, name="s"):
        self.env, self.n, self.name, self.k = env, n, name, 0
        self.x = [1 << i if i < n else 0 for i in range(2 * n)]
        self.z = [0 if i < n else 1 << (i - n) for i in range(2 * n)]
        self.s = [ZERO] * (2 * n)
        self.outcomes = []  # (qubit, outcome, was random)

    def fresh(self):
        self.k += 1
        return self.env.bit(f"{self.name}{self.k}")

    def _phase(self, i, x, z):
        """Sum over qubits of _g for row i times (x, z)."""
        x1, z1 = self.x[i], self.z[i]
        tot, m = 0, (x1 | z1) & (x | z)
        while m:
            b = m & -m
            m ^= b
            tot += _g(int(x1 & b > 0), int(z1 & b > 0), int(x & b > 0), int(z & b > 0))
        return tot

    def _mul(self, h, i):
        """row h := row i * row h (commuting rows, or a destabiliser row whose sign is irrelevant)."""
        ph = self._phase(i, self.x[h], self.z[h])
        self.s[h] = self.s[h] ^ self.s[i]
        if ph % 4 == 2:
            self.s[h] = self.s[h] ^ ONE
        self.x[h] ^= self.x[i]
        self.z[h] ^= self.z[i]

    def gate(self, g, *q):
        a = 1 << q[0]
        b = 1 << q[1] if len(q) > 1 else 0
        for i in range(2 * self.n):
            xa, za = bool(self.x[i] & a), bool(self.z[i] & a)
            if g == "H":
                if xa and za:
                    self.s[i] = self.s[i] ^ ONE
                if xa != za:
                    self.x[i] ^= a
                    self.z[i] ^= a
            elif g == "X":
                if za:
                    self.s[i] = self.s[i] ^ ONE
            elif g == "Z":
                if xa:
                    self.s[i] = self.s[i] ^ ONE
            elif g == "Y":
                if xa != za:
                    self.s[i] = self.s[i] ^ ONE
            elif g in ("CX", "CZ"):
                xb, zb = bool(self.x[i] & b), bool(self.z[i] & b)
                if g == "CX":
                    if xa and zb and (xb == za):
                        self.s[i] = self.s[i] ^ ONE
                    if xa:
                        self.x[i] ^= b
                    if zb:
                        self.z[i] ^= a
                else:
                    if xa and xb and (za != zb):
                        self.s[i] = self.s[i] ^ ONE
                    if xa:
                        self.z[i] ^= b
                    if xb:
                        self.z[i] ^= a
            else:
                raise AssertionError(g)

    def pauli(self, q, ex, ez):
        """Apply X^ex Z^ez to qubit q; ex, ez may be symbolic."""
        a = 1 << q
        for i in range(2 * self.n):
            if self.z[i] & a:
                self.s[i] = self.s[i] ^ ex
            if self.x[i] & a:
                self.s[i] = self.s[i] ^ ez

    def measure(self, q):
        a, n = 1 << q, self.n
        p = next((i for i in range(n, 2 * n) if self.x[i] & a), None)
        if p is None:
            sx = sz = 0
            ph = 0
            s = ZERO
            for i in range(n):
                if self.x[i] & a:
                    ph += self._phase(n + i, sx, sz)
                    s = s ^ self.s[n + i]
                    sx ^= self.x[n + i]
                    sz ^= self.z[n + i]
            assert sx == 0 and sz == a
            return (s ^ ONE if ph % 4 == 2 else s), False
        for i in range(2 * n):
            if i != p and self.x[i] & a:
                self._mul(i, p)
        self.x[p - n], self.z[p - n], self.s[p - n] = self.x[p], self.z[p], self.s[p]
        m = self.fresh()
        self.x[p], self.z[p], self.s[p] = 0, a, m
        return m, True

    def reset(self, q):
        m, _ = self.measure(q)
        self.pauli(q, m, ZERO)

    def sign_of(self, row):
        """(determined?, sign) of the operator given as 2n+1 concrete x/z bits."""
        n = self.n
        X = sum(1 << j for j in range(n) if row[j])
        Z = sum(1 << j for j in range(n) if row[j + n])

        def anti(i):
            return (bin(self.x[i] & Z).count("1") + bin(self.z[i] & X).count("1")) % 2

        if any(anti(i) for i in range(n, 2 * n)):
            return False, ZERO
        sx = sz = ph = 0
        s = ZERO
        for i in range(n):
            if anti(i):
                ph += self._phase(n + i, sx, sz)
                s = s ^ self.s[n + i]
                sx ^= self.x[n + i]
                sz ^= self.z[n + i]
        return sx == X and sz == Z, (s ^ ONE if ph % 4 == 2 else s)


def run(env, circ, n=None, name="s"):
    """Interpret circ by its documented semantics.

    Returns (simulation, outcomes, erasure flags, injected) where injected lists, in program
    order, (instruction index, name, args, tuple of symbolic bits chosen for that error).
    """
    from checks.common import land  # noqa: F401

    n = n or circ.number_of_qubits
    sim = Affine(env, n, name)
    outs, erased, inj = [], [], []
    for idx, (g, args) in enumerate(circ.gates):
        if g in ("X", "Y", "Z", "H"):
            for q in args:
                sim.gate(g, q)
        elif g in ("CX", "CZ"):
            for i in range(0, len(args), 2):
                sim.gate(g, args[i], args[i + 1])
        elif g == "R":
            for q in args:
                sim.reset(q)
        elif g == "M":
            for q in args:
                outs.append(sim.measure(q)[0])
        elif g == "E_PAULI":
            bs = (env.bit(f"{name}e{idx}.x"), env.bit(f"{name}e{idx}.z"))
            sim.pauli(args[3], *bs)
            assert len(args) == 4
            inj.append((idx, g, args, bs))
        elif g == "E_PAULI2":
            bs = tuple(env.bit(f"{name}e{idx}.{j}") for j in range(4))
            assert len(args) == 17
            sim.pauli(args[15], bs[0], bs[1])
            sim.pauli(args[16], bs[2], bs[3])
            inj.append((idx, g, args, bs))
        elif g == "E_ERASE":
            assert len(args) == 2
            fl = env.bit(f"{name}e{idx}.f")
            bs = (env.bit(f"{name}e{idx}.x") & fl, env.bit(f"{name}e{idx}.z") & fl)
            sim.pauli(args[1], *bs)
            erased.append(fl)
            inj.append((idx, g, args, bs))
        elif g == "ERROR":
            p, pauli, *qs = args
            b = env.bit(f"{name}e{idx}")
            for q in qs:
                sim.pauli(q, b if pauli in ("X", "Y") else ZERO, b if pauli in ("Y", "Z") else ZERO)
            inj.append((idx, g, args, (b,)))
        else:
            raise AssertionError(f"unexpected instruction {g}")
    return sim, outs, erased, inj


__all__ = ["Affine", "run", "xorsum"]
