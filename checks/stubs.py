"""Contract stubs for the matching libraries (they are compiled code and cannot be encoded).

A stub records the problem it is given and answers with an *arbitrary* selection of edges
which satisfies the library's documented contract: the parity of selected edges at every
detector is the syndrome bit, and no other selection satisfying that is lighter.  The last
part is instantiated for one reference selection, which the check chooses freely.
"""
import contextlib

import numpy as np

from checks.codetools import at_least
from checks.common import ONE, ZERO, bor, xorsum


def contained(name):
    def get(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        unsupported(f"{name}.{attr}")

    return get


def unsupported(what):
    from symx import core

    raise core.Unsupported("stub: " + what)


def plain(x):
    return isinstance(x, (int, float, np.generic))


def masked(b, w):
    """w if b else 0."""
    if plain(b):
        return w if b else 0
    from symx import core

    g = core.truth(b == 1)
    return core.SymNum.lift(core.mk([(w, g), (0, -g)]))


def total(bits, weights):
    s = 0
    for b, w in zip(bits, weights):
        s = s + masked(b, w)
    return s


def as_bit(x):
    if plain(x):
        return ONE if x else ZERO
    return x ^ ONE ^ ONE


class Problem:
    """Weighted matching problem given to a stub."""

    def __init__(self, env, most=None):
        self.env, self.most = env, most
        self.links = []  # (nodes, weight, fault)
        self.virtual = set()
        self.reference = None  # fault -> bit
        self.calls = 0
        self.tag = len(env.made)
        env.made.append(self)

    def parity(self, sel, v):
        return xorsum([b for b, (nodes, _, _) in zip(sel, self.links) if v in nodes])

    def nodes(self):
        return sorted({v for nodes, _, _ in self.links for v in nodes} - self.virtual)

    def valid(self, sel, syn):
        """Bit: ``sel`` explains the syndrome."""
        bad = ZERO
        for v in set(self.nodes()) | set(syn):
            if v in self.virtual:
                continue
            bad = bor([bad, self.parity(sel, v) ^ syn.get(v, ZERO)])
        return bad ^ ONE

    def solve(self, syn, free=()):
        """``syn``: node -> bit; edges in ``free`` have weight zero."""
        env = self.env
        self.calls += 1
        y = [env.bit(f"match{self.tag}.{self.calls}.{i}") for i in range(len(self.links))]
        for v in sorted(set(self.nodes()) | set(syn)):
            if v not in self.virtual:
                env.assume((self.parity(y, v) ^ syn.get(v, ZERO)) == 0)
        if self.reference is not None:
            ref = [self.reference.get(f, ZERO) for _, _, f in self.links]
            w = [0 if i in free else wt for i, (_, wt, _) in enumerate(self.links)]
            ok = self.valid(ref, syn)
            pos = [i for i, x in enumerate(w) if not (plain(x) and x == 0)]
            if self.most is not None and len({w[i] for i in pos if plain(w[i])}) <= 1 and all(plain(w[i]) for i in pos):
                # equal weights: compare numbers of edges, up to the bound on the reference
                a, b = [y[i] for i in pos], [ref[i] for i in pos]
                for k in range(1, self.most + 2):
                    env.assume(((at_least(a, k) & (at_least(b, k) ^ ONE)) & ok) == 0)
            else:
                le = total(y, w) <= total(ref, w) + (0 if env.symbolic else 1e-9)
                env.assume(as_bit(le) | (ok ^ ONE) == 1)
        return y


def pymatching_stub(env, most=None):
    class Matching:
        __getattr__ = contained("Matching")

        def __init__(self, *args, **kw):
            if args or kw:
                unsupported("Matching arguments")
            self.problem = Problem(env, most)

        def add_edge(self, node1, node2, fault_ids=None, weight=1.0, error_probability=None, *, merge_strategy="disallow", **kw):
            if kw or merge_strategy not in ("disallow", "smallest-weight", "independent", "keep-original", "replace"):
                unsupported("add_edge arguments")
            p = self.problem
            nodes = (int(node1), int(node2))
            if nodes[0] == nodes[1]:
                unsupported("loops")
            if any(set(nodes) == set(n) for n, _, _ in p.links):
                if merge_strategy == "disallow":
                    raise ValueError("parallel edges not permitted with disallow")
                unsupported("merging edges")
            if isinstance(fault_ids, (set, frozenset, list, tuple)):
                if len(fault_ids) > 1:
                    unsupported("several fault ids")
                fault_ids = next(iter(fault_ids), None)
            p.links.append((nodes, 1.0 if weight is None else weight, None if fault_ids is None else int(fault_ids)))

        def add_boundary_edge(self, node, fault_ids=None, weight=1.0, error_probability=None, *, merge_strategy="disallow", **kw):
            self.problem.virtual.add("boundary")
            p = self.problem
            if any(set(n) == {int(node), "boundary"} for n, _, _ in p.links):
                raise ValueError("parallel edges not permitted with disallow") if merge_strategy == "disallow" else NotImplementedError()
            if isinstance(fault_ids, (set, frozenset, list, tuple)):
                fault_ids = next(iter(fault_ids), None)
            p.links.append(((int(node), "boundary"), 1.0 if weight is None else weight, None if fault_ids is None else int(fault_ids)))

        def ensure_num_fault_ids(self, n):
            self.least = n

        def set_boundary_nodes(self, nodes):
            p = self.problem
            p.virtual = {x for x in p.virtual if x == "boundary"} | {int(n) for n in nodes}

        def decode(self, z, **kw):
            if kw:
                unsupported("decode arguments")
            p = self.problem
            n = 1 + max([v for nodes, _, _ in p.links for v in nodes if v != "boundary"], default=-1)
            z = list(z)
            if len(z) > n:
                raise ValueError("too many syndrome bits")
            y = p.solve({v: as_bit(b) for v, b in enumerate(z)})
            faults = [f for _, _, f in p.links if f is not None]
            out = [xorsum([b for b, (_, _, f) in zip(y, p.links) if f == k]) for k in range(max([1 + max(faults, default=-1), self.__dict__.get("least", 0)]))]
            return env.array(out, dtype="u1")

    return Module(Matching=Matching)


def fusion_stub(env, most=None):
    class SolverInitializer:
        def __init__(self, vertex_num, weighted_edges, virtual_vertices):
            self.n, self.edges, self.virtual = int(vertex_num), list(weighted_edges), [int(v) for v in virtual_vertices]
            for a, b, w in self.edges:
                if not (0 <= int(a) < self.n and 0 <= int(b) < self.n and int(a) != int(b)):
                    raise IndexError("vertex out of range")
                if isinstance(w, float):
                    raise TypeError("weights are integers")
                if bool(w < 0) or bool(w % 2 != 0):
                    raise ValueError("weights are even and not negative")

    class SyndromePattern:
        def __init__(self, defect_vertices=(), erasures=(), dynamic_weights=(), syndrome_vertices=None):
            if dynamic_weights:
                unsupported("dynamic weights")
            self.defects = [int(v) for v in (defect_vertices if syndrome_vertices is None else syndrome_vertices)]
            self.erasures = [int(e) for e in erasures]

    class SolverSerial:
        __getattr__ = contained("SolverSerial")

        def __init__(self, initializer):
            self.problem = Problem(env, most)
            self.problem.links = [((int(a), int(b)), w, i) for i, (a, b, w) in enumerate(initializer.edges)]
            self.problem.virtual = set(initializer.virtual)
            self.n = initializer.n
            self.result = None

        def solve(self, pattern):
            if self.result is not None:
                raise RuntimeError("the previous problem was not cleared")
            if any(not 0 <= v < self.n for v in pattern.defects) or any(not 0 <= e < len(self.problem.links) for e in pattern.erasures):
                raise IndexError("pattern out of range")
            if len(set(pattern.defects)) != len(pattern.defects):
                raise ValueError("defect given twice")
            self.result = self.problem.solve({v: ONE for v in pattern.defects}, set(pattern.erasures))

        def subgraph(self, visualizer=None):
            if self.result is None:
                raise RuntimeError("nothing solved")
            if all(plain(b) for b in self.result):
                return [i for i, b in enumerate(self.result) if b]
            return Subgraph(self.result)

        def clear(self):
            self.result = None

    return Module(SolverInitializer=SolverInitializer, SyndromePattern=SyndromePattern, SolverSerial=SolverSerial)


class Subgraph:
    """List of edge numbers whose membership is symbolic."""

    __getattr__ = contained("subgraph")

    def __init__(self, bits):
        self.bits = bits

    def sx_contains(self, i):
        return self.bits[int(i)] == 1 if 0 <= int(i) < len(self.bits) else False

    def __iter__(self):
        for i, b in enumerate(self.bits):
            if b == 1:
                yield i

    def __len__(self):
        return sum(1 for _ in self)


class Module:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    __getattr__ = contained("module")


@contextlib.contextmanager
def replaced(env, lib, most=None):
    """Let plaquette's adapter use the stub instead of ``lib``."""
    import importlib

    adapter = importlib.import_module("plaquette.decoders." + {"pymatching": "matching", "fusion_blossom": "fusionblossom"}[lib])
    real = importlib.import_module(lib)
    stub = (pymatching_stub if lib == "pymatching" else fusion_stub)(env, most)
    env.made = []
    old = dict(vars(adapter))
    names = {id(getattr(real, k)): k for k in ("Matching", "SolverInitializer", "SolverSerial", "SyndromePattern") if hasattr(real, k)}
    try:
        for k, v in old.items():
            if v is real:
                setattr(adapter, k, stub)
            elif id(v) in names:
                setattr(adapter, k, getattr(stub, names[id(v)]))
        yield env.made
    finally:
        for k, v in old.items():
            setattr(adapter, k, v)
