"""Symbolic values (guarded unions, z3 numbers) and the path explorer."""
import functools
import math
import operator
import time
from fractions import Fraction

import numpy as np

from . import expr as E
from .expr import z3

np.seterr(over="ignore")


class Inconclusive(Exception):
    """The solver gave no verdict or the engine does not support something."""


class Unsupported(Inconclusive):
    pass


class PathAbort(BaseException):
    """The current path is infeasible / assumed away."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.merged_calls = 0
        self.assertions = 0
        self.assert_queries = 0
        self.infeasible = 0


class Frame:
    __slots__ = ("prefix", "idx", "taken", "pending")

    def __init__(self, prefix):
        self.prefix = prefix
        self.idx = 0
        self.taken = []
        self.pending = []


class Ctx:
    """One exploration context (one per job)."""

    def __init__(self, timeout_ms=120000, logic=None):
        self.stats = Stats()
        self.logic = logic  # "QF_FD": purely propositional jobs
        self.timeout_ms = timeout_ms
        self.deadline = None
        self.new_solver()
        self.frames = []
        self.pc = []
        self.pcset = set()
        self.nums = {}  # theory variables by name
        self.max_alts = 600
        self.rewindables = []  # objects with a counter ``k`` (random generators)

    def new_solver(self):
        self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.level = 0
        self.model = None
        self.memo = {}

    # -- solver ---------------------------------------------------------------
    def _check(self):
        t = time.time()
        r = self.solver.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
            raise Inconclusive(f"solver: {self.solver.reason_unknown()}")
        return r == z3.sat

    def _take_model(self):
        self.model = self.solver.model()
        self.memo = {}

    def _leaf(self, n):
        v = self.model.eval(E.to_z3(n), model_completion=True)
        return z3.is_true(v)

    def holds_in_model(self, g):
        if self.model is None:
            return None
        return E.evaluate(g, self._leaf, self.memo)

    def sat(self, g):
        """Is pc & g satisfiable (keeps the model when it is)?"""
        if g == E.TRUE:
            return True  # pc is kept satisfiable
        if g == E.FALSE or -g in self.pcset:
            return False
        if g in self.pcset:
            return True
        if self.holds_in_model(g):
            return True
        self.solver.push()
        try:
            self.solver.add(E.to_z3(g))
            ok = self._check()
            if ok:
                self._take_model()
            return ok
        finally:
            self.solver.pop()

    def valid(self, g):
        return not self.sat(-g)

    def push_pc(self, g):
        if g == E.TRUE or g in self.pcset:
            self.pc.append(E.TRUE)
            self.solver.push()
            return
        self.solver.push()
        self.solver.add(E.to_z3(g))
        self.pc.append(g)
        self.pcset.add(g)
        if self.holds_in_model(g) is False:
            self.model = None

    def pop_pc(self, n):
        while len(self.pc) > n:
            g = self.pc.pop()
            if g != E.TRUE:
                self.pcset.discard(g)
            self.solver.pop()

    def add_theory(self, z):
        """Permanent side constraint (domain of a theory variable)."""
        self.push_pc(E.atom(z))

    # -- decisions ------------------------------------------------------------
    def decide(self, g):
        if g == E.TRUE or g in self.pcset:
            return True
        if g == E.FALSE or -g in self.pcset:
            return False
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError("job deadline")
        fr = self.frames[-1]
        if fr.idx < len(fr.prefix):
            d = fr.prefix[fr.idx]
        else:
            t = self.sat(g)
            f = self.sat(-g) if t else True
            if t and f:
                d = True
                fr.pending.append(fr.taken + [False])
                self.stats.forks += 1
            else:
                d = t
        fr.idx += 1
        fr.taken.append(d)
        self.push_pc(g if d else -g)
        return d

    def concretise(self, s):
        alts = s.alts
        for p, g in alts[:-1]:
            if self.decide(g):
                return p
        p, g = alts[-1]
        if not self.decide(g):
            raise PathAbort()
        return p

    def assume(self, g):
        if not self.sat(g):
            self.stats.infeasible += 1
            raise PathAbort()
        self.push_pc(g)

    # -- exploration ----------------------------------------------------------
    def explore(self, fn, max_paths=None):
        """Run ``fn`` once per feasible path; yields nothing, fn has side effects."""
        work = [[]]
        n = 0
        while work:
            if max_paths and n >= max_paths:
                return False
            prefix = work.pop()
            self.pop_pc(0)
            self.model = None
            fr = Frame(prefix)
            self.frames = [fr]
            n += 1
            self.stats.paths += 1
            try:
                fn()
            except PathAbort:
                pass
            work.extend(fr.pending)
        self.pop_pc(0)
        return True

    def run_merged(self, fn, args, kwargs):
        """Explore ``fn`` from the current state, merging results of all paths."""
        self.stats.merged_calls += 1
        base = len(self.pc)
        work = [[]]
        outs = []
        saved = [(a, a.copy()) for a in args if isinstance(a, np.ndarray)]
        finals = []
        ks = [o.k for o in self.rewindables]
        kmax = list(ks)
        while work:
            prefix = work.pop()
            fr = Frame(prefix)
            self.frames.append(fr)
            for o, k in zip(self.rewindables, ks):
                o.k = k
            for a, c in saved:
                a[...] = c
            try:
                res = ("ok", fn(*args, **kwargs))
            except PathAbort:
                res = None
            except Inconclusive:
                raise
            except TimeoutError:
                raise
            except Exception as e:  # noqa: BLE001
                res = ("exc", e)
            finally:
                self.frames.pop()
                guard = E.conj(self.pc[base:])
                self.pop_pc(base)
            if self.model is None:
                pass
            work.extend(fr.pending)
            if res is not None:
                outs.append((guard, res))
                finals.append([(a.copy()) for a, _ in saved])
            kmax = [max(k, o.k) for k, o in zip(kmax, self.rewindables)]
            self.model = None
        for o, k in zip(self.rewindables, kmax):
            o.k = k
        if not outs:
            raise PathAbort()
        # split on exceptions and on shape
        keys = {}
        for (g, r), f in zip(outs, finals):
            keys.setdefault(_shape_key(r), []).append((g, r, f))
        groups = list(keys.items())
        for i, (k, items) in enumerate(groups):
            g = E.disj(g for g, _, _ in items)
            if i == len(groups) - 1 or self.decide(g):
                break
        else:  # pragma: no cover
            raise PathAbort()
        for j, (a, _) in enumerate(saved):
            m = merge([(g, f[j]) for g, _, f in items])
            a[...] = m
        if items[0][1][0] == "exc":
            raise items[0][1][1]
        return merge([(g, r[1]) for g, r, _ in items])


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def _shape_key(r):
    if r[0] == "exc":
        return ("exc", type(r[1]).__name__, str(r[1]))
    return ("ok", _sk(r[1]))


def _sk(v):
    if isinstance(v, np.ndarray):
        return ("a", v.shape)
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, tuple(_sk(x) for x in v))
    if v is None:
        return "None"
    return "s"


def merge(items):
    """Merge [(guard, value)] (exclusive, exhaustive guards) into one value."""
    if len(items) == 1:
        return items[0][1]
    v0 = items[0][1]
    if isinstance(v0, np.ndarray):
        if all(v is v0 for _, v in items):
            return v0
        out = np.empty(v0.shape, dtype=object)
        arrs = [(g, obj(v)) for g, v in items]
        for i in np.ndindex(*v0.shape):
            out[i] = merge([(g, a[i]) for g, a in arrs])
        return out.view(SArr)
    if isinstance(v0, (tuple, list)):
        return type(v0)(
            merge([(g, v[i]) for g, v in items]) for i in range(len(v0))
        )
    if v0 is None:
        return None
    alts = []
    for g, v in items:
        if isinstance(v, Sym):
            alts.extend((p, E.and_(g, h)) for p, h in v.alts)
        elif isinstance(v, SymNum):
            return _merge_nums(items)
        else:
            alts.append((v, g))
    return mk(alts)


def _merge_nums(items):
    e = None
    for g, v in reversed(items):
        z = SymNum.lift(v).z
        e = z if e is None else z3.If(E.to_z3(g), z, e)
    return SymNum(e)


def _key(p):
    try:
        return (type(p), p, str(p) if isinstance(p, (complex, float)) else None)
    except Exception:  # noqa: BLE001
        return id(p)


def mk(alts):
    """Build a symbolic value from [(payload, guard)], merging equal payloads."""
    d = {}
    for p, g in alts:
        if g == E.FALSE:
            continue
        k = _key(p)
        try:
            hash(k)
        except TypeError:
            k = ("id", id(p))
        if k in d:
            d[k] = (d[k][0], E.or_(d[k][1], g))
        else:
            d[k] = (p, g)
    if not d:
        raise PathAbort()
    out = list(d.values())
    for p, g in out:
        if g == E.TRUE:
            return p
    if len(out) == 1:
        return out[0][0]
    if len(out) > ctx().max_alts:
        raise Unsupported(f"union with {len(out)} alternatives")
    return Sym(out)


U0, U1 = np.uint8(0), np.uint8(1)


def bit(g):
    """uint8 0/1 value which is 1 iff literal ``g``."""
    if g == E.TRUE:
        return U1
    if g == E.FALSE:
        return U0
    return Sym([(U0, -g), (U1, g)])


def sbool(g):
    if g == E.TRUE:
        return True
    if g == E.FALSE:
        return False
    return Sym([(False, -g), (True, g)])


def is_sym(x):
    return isinstance(x, (Sym, SymNum))


def has_sym(x):
    if isinstance(x, (Sym, SymNum)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values()) or any(has_sym(v) for v in x)
    return False


def truth(x):
    """Literal for bool(x)."""
    if isinstance(x, Sym):
        if len(x.alts) == 2:
            (p, _), (q, g) = x.alts
            if not p and q:
                return g
        return E.disj(g for p, g in x.alts if bool(p))
    if isinstance(x, SymNum):
        return E.atom(x.z != 0)
    return E.TRUE if bool(x) else E.FALSE


def _bitguard(x):
    """Guard literal if x is a 0/1 uint8 (symbolic or not), else None."""
    if type(x) is np.uint8:
        if x == 0:
            return E.FALSE
        if x == 1:
            return E.TRUE
        return None
    if isinstance(x, Sym) and len(x.alts) == 2:
        (p, _), (q, g) = x.alts
        if type(p) is np.uint8 and type(q) is np.uint8 and p == 0 and q == 1:
            return g
    return None


_BITOPS = {
    "xor": E.xor_,
    "and_": E.and_,
    "or_": E.or_,
    "mul": E.and_,
}
_OPS = {
    n: getattr(operator, n)
    for n in "add sub mul truediv floordiv mod pow lshift rshift and_ or_ xor eq ne lt le gt ge".split()
}


def apply2(name, a, b):
    """Apply a binary operator to (possibly symbolic) scalars."""
    bo = _BITOPS.get(name)
    if bo is not None:
        ga = _bitguard(a)
        if ga is not None:
            gb = _bitguard(b)
            if gb is not None:
                return bit(bo(ga, gb))
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return SymNum.op(name, a, b)
    f = _OPS[name]
    return lift(f, a, b)


def lift(f, *args):
    """Apply f to every combination of payloads."""
    if not any(isinstance(a, Sym) for a in args):
        return f(*args)
    combos = [((), E.TRUE)]
    for a in args:
        if isinstance(a, Sym):
            new = []
            for vals, g in combos:
                for p, h in a.alts:
                    gg = E.and_(g, h)
                    if gg != E.FALSE:
                        new.append((vals + (p,), gg))
            combos = new
            if len(combos) > 4000:
                raise Unsupported("too many payload combinations")
        else:
            combos = [(vals + (a,), g) for vals, g in combos]
    alts = []
    for vals, g in combos:
        try:
            r = f(*vals)
        except Exception:  # noqa: BLE001
            if ctx().decide(g):
                raise
            continue
        if isinstance(r, Sym):
            alts.extend((p, E.and_(g, h)) for p, h in r.alts)
        else:
            alts.append((r, g))
    return mk(alts)


class Sym:
    """Guarded union of concrete payloads."""

    __slots__ = ("alts",)
    __array_priority__ = 1e6
    __array_ufunc__ = None  # numpy scalars defer to our reflected operators

    def __init__(self, alts):
        self.alts = alts

    def __bool__(self):
        return ctx().decide(truth(self))

    def _conc(self):
        return ctx().concretise(self)

    def __int__(self):
        return int(self._conc())

    def __index__(self):
        return operator.index(self._conc())

    def __float__(self):
        return float(self._conc())

    def __complex__(self):
        return complex(self._conc())

    def __hash__(self):
        return hash(self._conc())

    def __str__(self):
        return str(self._conc())

    def __repr__(self):
        if CTX is None or not CTX.frames:
            return f"<Sym {[p for p, _ in self.alts]}>"
        return repr(self._conc())

    def __format__(self, spec):
        return format(self._conc(), spec)

    def __len__(self):
        return len(self._conc())

    def __iter__(self):
        return iter(self._conc())

    def __getitem__(self, k):
        return self._conc()[k]

    def __contains__(self, k):
        return k in self._conc()

    def __call__(self, *a, **k):
        return self._conc()(*a, **k)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in ("real", "imag"):
            return lift(lambda p: getattr(p, name), self)
        if all(callable(getattr(p, name)) for p, _ in self.alts):
            return lambda *a, **k: lift(lambda p: getattr(p, name)(*a, **k), self)
        return lift(lambda p: getattr(p, name), self)

    def __neg__(self):
        return lift(operator.neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return lift(abs, self)

    def __invert__(self):
        return lift(operator.invert, self)

    def __divmod__(self, o):
        return (self // o, self % o)


class SymNum:
    """Number backed by a z3 Int or Real expression."""

    __slots__ = ("z",)
    __array_ufunc__ = None
    _uid = [0]
    tokens = {}

    def __init__(self, z):
        self.z = z

    @staticmethod
    def lift(v):
        if isinstance(v, SymNum):
            return v
        if isinstance(v, Sym):
            e = None
            for p, g in v.alts:
                z = SymNum.lift(p).z
                e = z if e is None else z3.If(E.to_z3(g), z, e)
            return SymNum(e)
        if isinstance(v, (bool, np.bool_)):
            return SymNum(z3.IntVal(int(v)))
        if isinstance(v, (int, np.integer)):
            return SymNum(z3.IntVal(int(v)))
        if isinstance(v, (float, np.floating)):
            v = float(v)
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("non-finite float mixed with a symbolic number")
            f = Fraction(str(v))  # decimal reading: 0.1 means 1/10
            return SymNum(z3.Q(f.numerator, f.denominator))
        if isinstance(v, Fraction):
            return SymNum(z3.Q(v.numerator, v.denominator))
        raise Unsupported(f"cannot mix a symbolic number with {type(v)}")

    @staticmethod
    def op(name, a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return elementwise(lambda p, q: apply2(name, p, q), a, b)
        for x in (a, b):
            if x is None or isinstance(x, (str, tuple, list, dict)):
                if name == "eq":
                    return False
                if name == "ne":
                    return True
                return NotImplemented
            if isinstance(x, (float, np.floating)) and float(x) in (
                float("inf"),
                float("-inf"),
            ):
                r = getattr(operator, name)(
                    0.0 if x is not a else a, 0.0 if x is not b else b
                )
                if isinstance(r, (bool, np.bool_)):
                    return bool(r)
                if name in ("add", "sub"):
                    return r
        x, y = SymNum.lift(a).z, SymNum.lift(b).z
        if name == "add":
            return SymNum(x + y)
        if name == "sub":
            return SymNum(x - y)
        if name == "mul":
            return SymNum(x * y)
        if name == "truediv":
            y = z3.ToReal(y) if y.is_int() else y
            x = z3.ToReal(x) if x.is_int() else x
            if ctx().decide(E.atom(y == 0)):
                raise ZeroDivisionError("division by zero")
            return SymNum(x / y)
        if name == "mod" and x.is_int() and y.is_int():
            if ctx().decide(E.atom(y <= 0)):
                raise Unsupported("symbolic modulus <= 0")
            return SymNum(x % y)
        if name == "floordiv" and x.is_int() and y.is_int():
            if ctx().decide(E.atom(y <= 0)):
                raise Unsupported("symbolic divisor <= 0")
            return SymNum(x / y)
        if name == "pow" and isinstance(b, int) and 0 <= b <= 4:
            r = SymNum(z3.IntVal(1))
            for _ in range(b):
                r = SymNum.op("mul", r, a)
            return r
        cmp = {
            "eq": lambda: x == y,
            "ne": lambda: x != y,
            "lt": lambda: x < y,
            "le": lambda: x <= y,
            "gt": lambda: x > y,
            "ge": lambda: x >= y,
        }.get(name)
        if cmp is None:
            raise Unsupported(f"operator {name} on symbolic numbers")
        return sbool(E.atom(cmp()))

    def __bool__(self):
        return ctx().decide(truth(self))

    def __neg__(self):
        return SymNum(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.z < 0, -self.z, self.z))

    def __hash__(self):
        return hash(("SymNum", self.z.get_id()))

    def __str__(self):
        # Opaque injective rendering: str() of a number followed by int()/float()
        # gives the number back (Python guarantees the round trip for int and float).
        for k, v in SymNum.tokens.items():
            if v.z.get_id() == self.z.get_id():
                return k
        SymNum._uid[0] += 1
        t = f"\u27e6{'i' if self.z.is_int() else 'f'}{SymNum._uid[0]}\u27e7"
        SymNum.tokens[t] = self
        return t

    __repr__ = __str__

    def __format__(self, spec):
        import re as _re

        if not spec:
            return str(self)
        m = _re.fullmatch(r"[<>^ +0]*\d*(?:\.(\d+))?([dfFgGer]?)", spec)
        if not m or spec[0] == "+":
            raise Unsupported(f"format {spec!r} of a symbolic number")
        n, t = m.group(1), m.group(2)
        if t == "d" or (self.z.is_int() and not t):
            return str(self)
        n = 6 if n is None else int(n)
        if t in "fF" and t:
            return str(sx_round(self, n))
        if t in ("g", "G", "e", ""):
            return str(sx_significant(self, n + (t == "e")))
        raise Unsupported(f"format {spec!r} of a symbolic number")

    def __round__(self, n=None):
        return sx_round(self, n)

    def __floor__(self):
        return self if self.z.is_int() else SymNum(z3.ToInt(self.z))

    def __ceil__(self):
        return self if self.z.is_int() else SymNum(-z3.ToInt(-self.z))

    def __trunc__(self):
        return sx_trunc(self)

    def rint(self):
        r = sx_round(self)
        return SymNum(z3.ToReal(r.z)) if r.z.is_int() else r

    def floor(self):
        return SymNum(z3.ToReal(self.__floor__().z))

    def ceil(self):
        return SymNum(z3.ToReal(self.__ceil__().z))

    def is_integer(self):
        return True if self.z.is_int() else sbool(E.atom(z3.IsInt(self.z)))

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __index__(self):
        raise Unsupported("index with an unbounded symbolic integer")

    __int__ = __index__

    def __float__(self):
        raise Unsupported("C-level float() of a symbolic number")

    def log(self):  # np.log on object arrays calls this
        return fn_log(self)

    def log1p(self):
        return fn_log(self + 1)


def sx_round(x, n=None):
    """round(), half to even.  With decimals, ties are left out: the floats next to a
    decimal tie lie on either side of it."""
    if not is_sym(x):
        return round(x, n) if n is not None else round(x)
    if isinstance(x, Sym):
        return lift(lambda p: round(p, n) if n is not None else round(p), x)
    if x.z.is_int():
        if n is None or n >= 0:
            return x
        raise Unsupported("round of an integer to tens")
    n = n if n is None else operator.index(n)
    m = z3.Q(10 ** max(0, n or 0), 10 ** max(0, -(n or 0)))
    y = z3.simplify(x.z * m)
    f = z3.ToInt(y)
    d = y - z3.ToReal(f)
    if n:
        ctx().assume(E.atom(d != z3.Q(1, 2)))
    k = z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return SymNum(k) if n is None else SymNum(z3.ToReal(k) / m)


def sx_significant(x, n):
    """The number with ``n`` significant digits."""
    if n >= 17:
        return x
    if x.z.is_int():
        x = SymNum(z3.ToReal(x.z))
    if ctx().decide(E.atom(x.z == 0)):
        return x
    a = abs(x).z
    for e in [-1, -2, 0, -3, 1, -4, 2, -5, 3, -6, 4, -7, -8, -9, -10, -11, -12, -13, -14, -15, -16, 5, 6, 7, 8, 9]:
        lo, hi = (z3.Q(10 ** max(0, f), 10 ** max(0, -f)) for f in (e, e + 1))
        if ctx().decide(E.atom(z3.And(a >= lo, a < hi))):
            return sx_round(x, n - 1 - e)
    raise Unsupported("digits of a very large or small number")


_LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def fn_log(x):
    """Natural logarithm as an uninterpreted function; logs of products and quotients are split."""
    if not isinstance(x, (SymNum, Sym)):
        return np.log(x)
    z = SymNum.lift(x).z
    z = z3.ToReal(z) if z.is_int() else z
    return SymNum(_log(z3.simplify(z)))


def _log(z):
    k = z.decl().kind() if z3.is_app(z) else None
    if k == z3.Z3_OP_DIV:
        return _log(z.arg(0)) - _log(z.arg(1))
    if k == z3.Z3_OP_MUL and not any(z3.is_rational_value(z.arg(i)) and z.arg(i).as_fraction() < 0 for i in range(z.num_args())):
        return z3.Sum([_log(z.arg(i)) for i in range(z.num_args())])
    return _LOG(z3.simplify(z, som=True))


def _array_op(n, a, b):
    """Operator between a symbolic scalar and an array."""
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return elementwise(lambda p, q: apply2(n, p, q), a, b)
    return NotImplemented  # numpy's reflected operator takes over


def _install():
    for n in _OPS:
        if n in ("eq", "ne", "lt", "le", "gt", "ge"):
            def f(self, o, n=n):
                if isinstance(o, np.ndarray):
                    return _array_op(n, self, o)
                return apply2(n, self, o)

            setattr(Sym, f"__{n}__", f)
            setattr(SymNum, f"__{n}__", f)
            continue
        base = n.rstrip("_")

        def f(self, o, n=n):
            if isinstance(o, list):
                return NotImplemented
            if isinstance(o, np.ndarray):
                return _array_op(n, self, o)
            return apply2(n, self, o)

        def r(self, o, n=n):
            if isinstance(o, list):
                return NotImplemented
            if isinstance(o, np.ndarray):
                return _array_op(n, o, self)
            return apply2(n, o, self)

        for c in (Sym, SymNum):
            setattr(c, f"__{base}__", f)
            setattr(c, f"__r{base}__", r)


_install()


# --------------------------------------------------------------------------- arrays
def obj(a):
    """Plain object ndarray whose elements are numpy scalars of the original type."""
    if isinstance(a, SArr):
        return np.asarray(a).view(np.ndarray)
    a = np.asarray(a)
    if a.dtype == object:
        return a
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        flat[i] = v
    return out


_UF = {
    "bitwise_xor": "xor",
    "bitwise_and": "and_",
    "bitwise_or": "or_",
    "logical_xor": None,
    "multiply": "mul",
    "add": "add",
    "subtract": "sub",
    "remainder": "mod",
    "true_divide": "truediv",
    "divide": "truediv",
    "floor_divide": "floordiv",
    "left_shift": "lshift",
    "right_shift": "rshift",
    "equal": "eq",
    "not_equal": "ne",
    "less": "lt",
    "less_equal": "le",
    "greater": "gt",
    "greater_equal": "ge",
    "power": "pow",
}


def _dt_hint(a):
    """Element type of an array, from its first numpy-typed payload."""
    if a.dtype != object:
        return a.dtype.type
    for v in a.flat:
        if isinstance(v, Sym):
            v = v.alts[0][0]
        if isinstance(v, np.generic):
            return type(v)
        return None
    return None


def sx_dtype(x):
    """``x.dtype`` as the code would see it (symbolic arrays are stored as objects)."""
    if not isinstance(x, np.ndarray) or x.dtype != object or x.size == 0:
        return x.dtype
    kinds = set()
    for v in x.flat:
        if isinstance(v, SymNum):
            kinds.add("f8" if v.z.is_real() else "i8")
        elif isinstance(v, Sym):
            kinds.update(_payload_kind(p) for p, _ in v.alts)
        else:
            kinds.add(_payload_kind(v))
    if None in kinds:
        return x.dtype
    return functools.reduce(np.promote_types, [np.dtype(k) for k in kinds])


def _payload_kind(p):
    if isinstance(p, SymNum):
        return "f8" if p.z.is_real() else "i8"
    if isinstance(p, np.generic):
        return p.dtype.str
    if isinstance(p, bool):
        return "?"
    if isinstance(p, int):
        return "i8"
    if isinstance(p, float):
        return "f8"
    return None


def _scalar_like(v, arr):
    t = _dt_hint(arr)
    if t is None or isinstance(v, (bool, np.bool_)):
        return v
    if isinstance(v, (int, np.integer)) and issubclass(t, np.integer):
        info = np.iinfo(t)
        if info.min <= int(v) <= info.max:
            return t(v)
    if isinstance(v, Sym) and issubclass(t, np.integer) and all(
        isinstance(p, int) and not isinstance(p, bool) for p, _ in v.alts
    ):
        info = np.iinfo(t)
        if all(info.min <= p <= info.max for p, _ in v.alts):
            return lift(t, v)
    return v


def elementwise(f, *ins):
    arrs = [i for i in ins if isinstance(i, np.ndarray) and i.ndim > 0]
    conv = []
    for i in ins:
        if isinstance(i, np.ndarray):
            conv.append(obj(i))
        elif isinstance(i, (list, tuple)):
            conv.append(obj(sarray(i)))
        else:
            c = np.empty((), dtype=object)
            v = i
            for a in arrs:
                v = _scalar_like(v, a)
            c[()] = v
            conv.append(c)
    bs = np.broadcast_arrays(*conv, subok=False)
    out = np.empty(bs[0].shape, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = f(*[b[idx] for b in bs])
    if out.shape == ():
        return out[()]
    return out.view(SArr)


def s_matmul(a, b):
    a, b = obj(a), obj(b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("matmul of higher-rank symbolic arrays")
    if a.shape[1] != b.shape[0]:
        raise ValueError("matmul: shape mismatch")
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = SumBits.dot(a[i], b[:, j])
    if a1:
        out = out[0]
    if b1:
        out = out[..., 0]
    return out.view(SArr) if isinstance(out, np.ndarray) else out


class SumBits:
    """Wrap-free helper: integer dot products keep a parity-friendly form."""

    @staticmethod
    def dot(x, y):
        terms = [apply2("mul", p, q) for p, q in zip(x, y)]
        return lazy_sum(terms)


class LSum(Sym):
    """uint8 sum of 0/1 uint8 bits, expanded to a union only when needed."""

    __slots__ = ("lits", "const", "_alts")

    def __init__(self, lits, const):
        self.lits = lits
        self.const = const
        self._alts = None

    @property
    def alts(self):
        if self._alts is None:
            row = {int(self.const): E.TRUE}
            for g in self.lits:
                new = {}
                for k, h in row.items():
                    for kk, hh in ((k, E.and_(h, -g)), ((k + 1) % 256, E.and_(h, g))):
                        if hh != E.FALSE:
                            new[kk] = E.or_(new.get(kk, E.FALSE), hh)
                row = new
            self._alts = [(np.uint8(k), g) for k, g in sorted(row.items())]
        return self._alts

    def __add__(self, o):
        if type(o) is np.uint8:
            return LSum(self.lits, (self.const + int(o)) % 256)
        if isinstance(o, LSum):
            return LSum(self.lits + o.lits, (self.const + o.const) % 256)
        g = _bitguard(o) if isinstance(o, Sym) and not isinstance(o, LSum) else None
        if g is not None:
            return LSum(self.lits + (g,), self.const)
        return apply2("add", self, o)

    __radd__ = __add__

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and int(o) == 2:
            p = E.xors(self.lits)
            return bit(-p if self.const % 2 else p)
        return apply2("mod", self, o)

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and int(o) == 1:
            return self % 2
        return apply2("and_", self, o)


def lazy_sum(terms):
    lits, const, rest = [], 0, []
    for t in terms:
        if type(t) is np.uint8:
            const += int(t)
        elif isinstance(t, LSum):
            lits.extend(t.lits)
            const += t.const
        else:
            g = _bitguard(t)
            if g is None:
                rest.append(t)
            else:
                lits.append(g)
    if rest:
        r = None
        for t in terms:
            r = t if r is None else r + t
        return r
    if not lits:
        return np.uint8(const % 256)
    return LSum(tuple(lits), const % 256)


class SArr(np.ndarray):
    """Object ndarray of (possibly symbolic) scalars."""

    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("dtype", None)
        kw.pop("casting", None)
        if kw.get("where", True) is not True or "initial" in kw:
            raise Unsupported(f"ufunc {name} with a mask")
        if method == "__call__":
            if name == "matmul":
                r = s_matmul(*inputs)
            elif name in ("logical_not",):
                r = elementwise(snot, *inputs)
            elif name == "logical_and":
                r = elementwise(lambda a, b: sbool(E.and_(truth(a), truth(b))), *inputs)
            elif name == "logical_or":
                r = elementwise(lambda a, b: sbool(E.or_(truth(a), truth(b))), *inputs)
            elif name == "logical_xor":
                r = elementwise(lambda a, b: sbool(E.xor_(truth(a), truth(b))), *inputs)
            elif name == "invert":
                r = elementwise(s_invert, *inputs)
            elif name in ("negative", "absolute"):
                f = operator.neg if name == "negative" else abs
                r = elementwise(f, *inputs)
            elif name == "log":
                r = elementwise(fn_log, *inputs)
            elif name == "isinf":
                r = elementwise(lambda v: False if is_sym(v) else bool(np.isinf(v)), *inputs)
            elif name == "isnan":
                r = elementwise(lambda v: False if is_sym(v) else bool(np.isnan(v)), *inputs)
            elif name == "rint":
                r = _np_round(inputs[0], 0)
            elif name in ("floor", "ceil", "isfinite"):
                r = NPFUN[name](*inputs)
            elif name == "minimum" or name == "maximum":
                r = elementwise(lambda a, b: _extreme(name, a, b), *inputs)
            elif _UF.get(name):
                op = _UF[name]
                if op == "add":
                    r = elementwise(lambda a, b: lazy_sum([a, b]) if isinstance(a, Sym) or isinstance(b, Sym) else a + b, *inputs)
                else:
                    r = elementwise(lambda a, b: apply2(op, a, b), *inputs)
            elif not any(has_sym(i) for i in inputs):
                r = ufunc(*[np.array(i.tolist()) if isinstance(i, SArr) else i for i in inputs])
                r = obj(r).view(SArr) if isinstance(r, np.ndarray) else r
            else:
                raise Unsupported(f"ufunc {name}")
            if out is not None:
                (o,) = out if isinstance(out, tuple) else (out,)
                o[...] = r
                return o
            return r
        if method == "reduce":
            (a,) = inputs
            return s_reduce(name, a, kw.get("axis", 0), kw.get("keepdims", False))
        if method == "outer":
            a, b = (obj(np.asarray(i)) for i in inputs)
            return ufunc(
                a.reshape(a.shape + (1,) * b.ndim).view(SArr), b.view(SArr)
            )
        raise Unsupported(f"ufunc method {method} of {name}")

    def __array_function__(self, func, types, args, kwargs):
        impl = NPFUN.get(func.__name__)
        if impl is not None:
            return impl(*args, **kwargs)
        return generic_np(func, args, kwargs)

    def astype(self, dtype, *a, **k):
        return cast_arr(self, dtype)

    def all(self, axis=None, **k):
        return s_reduce("logical_and", self, axis)

    def any(self, axis=None, **k):
        return s_reduce("logical_or", self, axis)

    def sum(self, axis=None, **k):
        return s_reduce("add", self, axis)

    def nonzero(self):
        return np_nonzero(self)

    def dot(self, o):
        return s_matmul(self, o)

    def copy(self, *a, **k):
        return np.array(np.asarray(self).view(np.ndarray), dtype=object, copy=True).view(SArr)

    def tolist(self):
        def conv(v):
            if isinstance(v, Sym):
                return lift(lambda p: p.item() if isinstance(p, np.generic) else p, v)
            return v.item() if isinstance(v, np.generic) else v

        def rec(x):
            if isinstance(x, list):
                return [rec(y) for y in x]
            return conv(x)

        return rec(np.asarray(self).view(np.ndarray).tolist())

    def __getitem__(self, k):
        k = fix_index(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        k = fix_index(k)
        np.ndarray.__setitem__(self, k, _setval(v))


def _setval(v):
    if isinstance(v, SArr):
        return np.asarray(v).view(np.ndarray)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return obj(v)
    if isinstance(v, (int, bool)) and not isinstance(v, Sym):
        if 0 <= int(v) <= 255:
            return np.uint8(v)
    return v


def fix_index(k):
    """Concretise symbolic indices / boolean masks."""
    if isinstance(k, Sym):
        return operator.index(k) if not isinstance(k.alts[0][0], (bool, np.bool_)) else bool(k)
    if isinstance(k, tuple):
        return tuple(fix_index(x) for x in k)
    if isinstance(k, SArr) or (isinstance(k, np.ndarray) and k.dtype == object):
        flat = [bool(v) if _boolish(v) else operator.index(v) for v in k.flat]
        t = bool if flat and all(isinstance(v, bool) for v in flat) else int
        return np.array(flat, dtype=t).reshape(k.shape)
    if isinstance(k, list) and has_sym(k):
        return [fix_index(x) for x in k]
    return k


def _boolish(v):
    if isinstance(v, Sym):
        v = v.alts[0][0]
    return isinstance(v, (bool, np.bool_))


def snot(x):
    return sbool(-truth(x))


def s_invert(v):
    if _boolish(v):
        return snot(v)
    return lift(operator.invert, v)


def merge2(g, a, b):
    return merge([(g, a), (-g, b)])


def s_reduce(name, a, axis=None, keepdims=False):
    a = obj(a)
    if axis is None:
        return _red1(name, list(a.flat))
    if isinstance(axis, tuple):
        raise Unsupported("reduce over several axes")
    if a.ndim == 1:
        return _red1(name, list(a))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = _red1(name, list(m[idx]))
    return out.view(SArr)


def _extreme(name, a, b):
    g = truth(apply2("lt" if name == "minimum" else "gt", a, b))
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        if not ctx().sat(-g):
            return a
        if not ctx().sat(g):
            return b
        return SymNum(z3.If(E.to_z3(g), SymNum.lift(a).z, SymNum.lift(b).z))
    return merge2(g, a, b)


def _red1(name, xs):
    if name == "logical_and":
        return sbool(E.conj(truth(x) for x in xs))
    if name == "logical_or":
        return sbool(E.disj(truth(x) for x in xs))
    if name == "add":
        if not xs:
            return 0
        xs = [_bool2int(x) for x in xs]
        return lazy_sum(xs) if any(isinstance(x, Sym) for x in xs) else sum(xs[1:], xs[0])
    op = _UF.get(name)
    if op is None:
        if not has_sym(xs):
            return getattr(np, name).reduce(np.array(xs))
        if name in ("maximum", "minimum"):
            return functools.reduce(lambda a, b: _extreme(name, a, b), xs)
        raise Unsupported(f"reduce {name}")
    if not xs:
        raise Unsupported("empty reduce")
    r = xs[0]
    for x in xs[1:]:
        r = apply2(op, r, x)
    return r


def _bool2int(x):
    if isinstance(x, Sym):
        if _boolish(x):
            return bit(truth(x))
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.uint8(x)
    return x


def np_nonzero(a):
    a = obj(a)
    mask = np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)
    return np.nonzero(mask)


def cast_one(v, dtype):
    t = np.dtype(dtype)
    if t == np.dtype(bool):
        return sbool(truth(v)) if is_sym(v) else np.bool_(v)
    if t == object:
        return v
    if isinstance(v, SymNum):
        if t.kind in "iu":
            return sx_trunc(v)
        return SymNum(z3.ToReal(v.z)) if t.kind == "f" and v.z.is_int() else v
    if isinstance(v, LSum) and t.type is np.uint8:
        return v
    if t.kind in "iu" and isinstance(v, Sym):
        return lift(lambda p: np.array(p).astype(t)[()], v)
    if isinstance(v, Sym):
        return lift(t.type, v)
    return np.array(v).astype(t)[()]


def sx_trunc(v):
    """Conversion to an integer (towards zero)."""
    if v.z.is_int():
        return v
    return SymNum(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z)))


def cast_arr(a, dtype):
    out = np.empty(a.shape, dtype=object)
    o = obj(a)
    for idx in np.ndindex(*a.shape):
        out[idx] = cast_one(o[idx], dtype)
    return out.view(SArr)


def sarray(x, dtype=None):
    """np.array for nested sequences containing symbolic values."""
    if isinstance(x, np.ndarray):
        r = np.array(obj(x), dtype=object, copy=True).view(SArr)
    else:
        def shape(v):
            if isinstance(v, np.ndarray):
                return v.shape
            if isinstance(v, (list, tuple)):
                if len(v) == 0:
                    return (0,)
                return (len(v),) + shape(v[0])
            return ()

        x = list(x) if not isinstance(x, (Sym, SymNum)) else x
        sh = shape(x)
        out = np.empty(sh, dtype=object)

        def get(v, idx):
            for i in idx:
                v = v[i]
            return v

        for idx in np.ndindex(*sh):
            v = get(x, idx)
            if isinstance(v, (int,)) and not isinstance(v, bool) and dtype is None:
                v = np.int64(v)
            out[idx] = v
        r = out.view(SArr)
    if dtype is not None:
        r = cast_arr(r, dtype)
    return r


def _plain(v):
    if isinstance(v, SArr):
        return np.asarray(v).view(np.ndarray)
    if isinstance(v, np.ndarray) and v.dtype != object:
        return v
    if isinstance(v, list):
        return [_plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(_plain(x) for x in v)
    return v


def _objs(v):
    """Like _plain, but numeric arrays become object arrays with typed scalars."""
    if isinstance(v, np.ndarray):
        return obj(v)
    if isinstance(v, list):
        return [_objs(x) for x in v]
    if isinstance(v, tuple):
        return tuple(_objs(x) for x in v)
    return v


def _wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SArr)
    if isinstance(r, (list, tuple)):
        return type(r)(_wrap(x) for x in r)
    return r


def generic_np(func, args, kwargs):
    dtype = kwargs.pop("dtype", None)
    r = _wrap(func(*_objs_args(args), **kwargs))
    if dtype is not None and isinstance(r, SArr):
        r = cast_arr(r, dtype)
    return r


def _objs_args(args):
    return tuple(_objs(a) for a in args)


def _np_where(cond, *xy):
    if not xy:
        return np_nonzero(cond)
    x, y = xy
    return elementwise(
        lambda c, a, b: merge2(truth(c), a, b) if is_sym(c) else (a if c else b),
        *(v if isinstance(v, np.ndarray) else v for v in (cond, x, y)),
    )


def _np_count_nonzero(a, axis=None, **k):
    a = elementwise(lambda v: bit(truth(v)), a if isinstance(a, np.ndarray) else sarray(a))
    return s_reduce("add", a, axis)


def _np_array_equal(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return s_reduce("logical_and", elementwise(lambda p, q: apply2("eq", p, q), a.view(SArr) if a.dtype == object else a, b))


def _cat(fname):
    f = getattr(np, fname)

    def g(*args, dtype=None, **kw):
        r = _wrap(f(*_objs_args(args), **kw))
        return cast_arr(r, dtype) if dtype is not None else r

    return g


def _np_insert(arr, idx, values, axis=None):
    fill = values
    t = _dt_hint(np.asarray(arr))
    if isinstance(values, (int, np.integer)) and t is not None:
        fill = t(values)
    return _wrap(np.insert(obj(arr), _plain(idx), fill, axis))


NPFUN = {
    "where": _np_where,
    "nonzero": np_nonzero,
    "flatnonzero": lambda a: np_nonzero(np.ravel(obj(a)))[0],
    "argwhere": lambda a: np.transpose(np_nonzero(a)),
    "count_nonzero": _np_count_nonzero,
    "all": lambda a, axis=None, **k: s_reduce("logical_and", _asarr(a), axis),
    "any": lambda a, axis=None, **k: s_reduce("logical_or", _asarr(a), axis),
    "sum": lambda a, axis=None, **k: s_reduce("add", _asarr(a), axis),
    "array_equal": _np_array_equal,
    "concatenate": _cat("concatenate"),
    "hstack": _cat("hstack"),
    "vstack": _cat("vstack"),
    "stack": _cat("stack"),
    "block": lambda a: _wrap(np.block(_objs(a))),
    "insert": _np_insert,
    "dot": s_matmul,
    "matmul": s_matmul,
    "copy": lambda a, **k: sarray(a),
    "array": lambda a, dtype=None, **k: sarray(a, dtype),
    "asarray": lambda a, dtype=None, **k: a if isinstance(a, SArr) and dtype is None else sarray(a, dtype),
    "logical_not": lambda a: elementwise(snot, a),
    "logical_and": lambda a, b: elementwise(lambda p, q: sbool(E.and_(truth(p), truth(q))), a, b),
    "logical_or": lambda a, b: elementwise(lambda p, q: sbool(E.or_(truth(p), truth(q))), a, b),
    "logical_xor": lambda a, b: elementwise(lambda p, q: sbool(E.xor_(truth(p), truth(q))), a, b),
    "bitwise_xor": lambda a, b: elementwise(lambda p, q: apply2("xor", p, q), a, b),
    "bitwise_and": lambda a, b: elementwise(lambda p, q: apply2("and_", p, q), a, b),
    "bitwise_or": lambda a, b: elementwise(lambda p, q: apply2("or_", p, q), a, b),
    "mod": lambda a, b: elementwise(lambda p, q: apply2("mod", p, q), a, b),
    "log": lambda a: elementwise(fn_log, a) if isinstance(a, np.ndarray) else fn_log(a),
    "isinf": lambda a: False if is_sym(a) else elementwise(lambda v: False if is_sym(v) else bool(np.isinf(v)), a),
    "isnan": lambda a: False if is_sym(a) else elementwise(lambda v: False if is_sym(v) else bool(np.isnan(v)), a),
    "isclose": lambda a, b, **k: apply2("eq", a, b),
    "round": lambda a, decimals=0, **k: _np_round(a, decimals),
    "around": lambda a, decimals=0, **k: _np_round(a, decimals),
    "rint": lambda a: _np_round(a, 0),
    "floor": lambda a: _np_num(lambda v: v.floor() if is_sym(v) else np.floor(v), a),
    "ceil": lambda a: _np_num(lambda v: v.ceil() if is_sym(v) else np.ceil(v), a),
    "isfinite": lambda a: True if is_sym(a) else elementwise(lambda v: True if is_sym(v) else bool(np.isfinite(v)), a),
    "squeeze": lambda a, **k: _wrap(np.squeeze(obj(a), **k)),
}


def _np_num(f, a):
    return f(a) if is_sym(a) else elementwise(f, _asarr(a))


def _np_round(a, n):
    def one(v):
        if isinstance(v, SymNum):
            r = sx_round(v, n)
            return SymNum(z3.ToReal(r.z)) if r.z.is_int() and v.z.is_real() else r
        return lift(lambda p: np.round(p, n), v)

    return _np_num(one, a)


def _asarr(a):
    return a if isinstance(a, np.ndarray) else sarray(a)


class UFuncProxy:
    """Stand-in for a numpy ufunc: symbolic operands may be lists or scalars too."""

    def __init__(self, real, f):
        self._real, self._f = real, f
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def reduce(self, a, axis=0, **k):
        if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.dtype == object):
            if has_symarr(a):
                return s_reduce(self._real.__name__, _asarr(a), axis, k.get("keepdims", False))
        return self._real.reduce(a, axis=axis, **k)

    def outer(self, a, b, **k):
        if has_symarr(a) or has_symarr(b):
            a, b = (obj(sarray(i)) for i in (a, b))
            return self._f(a.reshape(a.shape + (1,) * b.ndim).view(SArr), b.view(SArr))
        return self._real.outer(a, b, **k)

    def accumulate(self, a, axis=0, **k):
        if has_symarr(a):
            o = obj(_asarr(a))
            if o.ndim != 1:
                raise Unsupported("accumulate over several dimensions")
            out = []
            for v in o:
                out.append(v if not out else _red1(self._real.__name__, [out[-1], v]))
            return sarray(out)
        return self._real.accumulate(a, axis=axis, **k)


class NPProxy:
    """Stand-in for the ``np`` module inside instrumented modules."""

    def __init__(self):
        self.alloc_symbolic = False

    def __getattr__(self, name):
        real = getattr(np, name)
        if not callable(real) or isinstance(real, type):
            return real
        if isinstance(real, np.ufunc):
            return UFuncProxy(real, self._function(name, real))
        return self._function(name, real)

    def _function(self, name, real):
        def f(*args, **kw):
            if has_symarr(args) or has_symarr(tuple(kw.values())):
                impl = NPFUN.get(name)
                if impl is not None:
                    return impl(*args, **kw)
                if isinstance(real, np.ufunc):
                    return SArr.__array_ufunc__(None, real, "__call__", *args, **kw)
                return generic_np(real, args, dict(kw))
            r = real(*args, **kw)
            if (
                NP.alloc_symbolic
                and name in ("zeros", "ones", "empty", "eye", "zeros_like", "full")
                and isinstance(r, np.ndarray)
                and r.dtype.kind in "iubf"
            ):
                return obj(r).view(SArr)
            return r

        f.__name__ = name
        return f


def has_symarr(x):
    if isinstance(x, (Sym, SymNum, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_symarr(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(v, (Sym, SymNum)) for v in x.flat)
    return False


NP = NPProxy()


class MathProxy:
    """Stand-in for the ``math`` module inside instrumented modules."""

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real

        def f(*args, **kw):
            if not any(is_sym(v) or (isinstance(v, (list, tuple)) and has_sym(v)) for v in args):
                return real(*args, **kw)
            x = args[0]
            if name == "log":
                return fn_log(x) if len(args) == 1 else fn_log(x) / fn_log(args[1])
            if name == "log1p":
                return fn_log(x + 1)
            if name in ("floor", "ceil", "trunc") and isinstance(x, SymNum):
                return real(x)
            if name in ("isnan", "isinf"):
                return False if isinstance(x, SymNum) else lift(real, x)
            if name == "isfinite":
                return True if isinstance(x, SymNum) else lift(real, x)
            if name in ("fsum", "prod"):
                return functools.reduce(operator.add if name == "fsum" else operator.mul, x, 0 if name == "fsum" else 1)
            if name == "isclose":
                return apply2("eq", *args[:2])
            if name == "fabs":
                return abs(x)
            if name == "pow" and isinstance(args[1], int):
                return x ** args[1]
            if not any(isinstance(v, SymNum) for v in args):
                return lift(lambda *p: real(*p, **kw), *args)
            raise Unsupported(f"math.{name} of a symbolic number")

        return f


MATH = MathProxy()


# ------------------------------------------------------------------ AST call targets
def sx_in(a, b):
    if hasattr(b, "sx_contains"):
        return b.sx_contains(a)
    if isinstance(a, SymNum) and isinstance(b, range):
        return sbool(E.atom(z3.And(a.z >= b.start, a.z < b.stop)))
    if isinstance(a, Sym) and isinstance(
        b, (str, tuple, list, set, frozenset, dict, range)
    ) and not has_sym(b):
        return lift(lambda p: p in b, a)
    if isinstance(b, (list, tuple)) and (has_sym(b) or is_sym(a)):
        g = E.FALSE
        for v in b:
            if v is a:
                return True
            r = v == a
            g = E.or_(g, truth(r))
        return sbool(g)
    return a in b


def sx_notin(a, b):
    r = sx_in(a, b)
    return snot(r) if isinstance(r, Sym) else not r


def sx_not(a):
    if isinstance(a, (Sym, SymNum)):
        return snot(a)
    return not a


def sx_ifexp(c, a, b):
    if isinstance(c, (Sym, SymNum)):
        return merge2(truth(c), a, b)
    return a if c else b


def sx_int(*a):
    if len(a) == 1:
        (v,) = a
        if isinstance(v, SymNum):
            return sx_trunc(v)
        if isinstance(v, Sym):
            return lift(int, v)
        if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
            return sx_int(v.item())
        if isinstance(v, str) and v in SymNum.tokens:
            n = SymNum.tokens[v]
            if not n.z.is_int():
                raise ValueError("invalid literal for int(): " + v)
            return n
    return int(*a)


def sx_float(*a):
    if len(a) == 1:
        (v,) = a
        if isinstance(v, SymNum):
            return SymNum(z3.ToReal(v.z)) if v.z.is_int() else v
        if isinstance(v, Sym):
            return lift(float, v)
        if isinstance(v, str) and v in SymNum.tokens:
            return sx_float(SymNum.tokens[v])
    return float(*a)


def sx_bool(*a):
    if len(a) == 1 and isinstance(a[0], (Sym, SymNum)):
        return sbool(truth(a[0]))
    return bool(*a)


def sx_isinstance(x, t):
    if isinstance(x, Sym):
        r = lift(lambda p: isinstance(p, t), x)
        return r
    if isinstance(x, SymNum):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for u in ts:
            flat.extend(getattr(u, "__args__", (u,)))
        names = {getattr(u, "__name__", "") for u in flat}
        if x.z.is_int():
            return bool(names & {"int", "integer", "Integral", "Number", "Real"})
        return bool(names & {"float", "floating", "Number", "Real"})
    return isinstance(x, t)


def sx_map(f, *its):
    return map(f, *its)
