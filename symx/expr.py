"""Hash-consed boolean DAG (AND / n-ary XOR / theory atoms) with export to z3.

A literal is a non-zero int: ``+id`` is the node, ``-id`` its negation; node 1 is TRUE.
"""
import sys

try:
    import z3
except ImportError:  # pragma: no cover - depends on the environment
    for _p in (
        "/verif/.deps",
        "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
    ):
        sys.path.append(_p)
    import z3

TRUE, FALSE = 1, -1

_kind = [None, "T"]  # node id -> kind
_data = [None, None]
_and_tab = {}
_xor_tab = {}
_z3cache = {1: z3.BoolVal(True)}
_atoms = {}
names = {}


def reset():
    """Forget all nodes (used between independent jobs)."""
    del _kind[2:]
    del _data[2:]
    _and_tab.clear()
    _xor_tab.clear()
    _z3cache.clear()
    _z3cache[1] = z3.BoolVal(True)
    _atoms.clear()
    names.clear()


def n_nodes():
    return len(_kind) - 1


def _new(kind, data):
    _kind.append(kind)
    _data.append(data)
    return len(_kind) - 1


def var(name):
    if name in names:
        return names[name]
    n = _new("V", name)
    names[name] = n
    return n


def atom(z3bool):
    """Wrap a z3 boolean (theory) expression as a leaf."""
    z3bool = z3.simplify(z3bool)
    if z3.is_true(z3bool):
        return TRUE
    if z3.is_false(z3bool):
        return FALSE
    if z3.is_not(z3bool):
        return -atom(z3bool.arg(0))
    k = z3bool.get_id()
    if k in _atoms:
        return _atoms[k][0]
    n = _new("A", z3bool)
    _atoms[k] = (n, z3bool)
    return n


def and_(a, b):
    if a == FALSE or b == FALSE or a == -b:
        return FALSE
    if a == TRUE or a == b:
        return b
    if b == TRUE:
        return a
    # one-level absorption
    for x, y in ((a, b), (b, a)):
        if abs(x) > 1 and _kind[abs(x)] == "&":
            p, q = _data[abs(x)]
            if x > 0:
                if y == p or y == q:
                    return x
                if y == -p or y == -q:
                    return FALSE
            else:  # not(p & q)
                if y == -p or y == -q:
                    return y
                if y == p:
                    return and_(y, -q)
                if y == q:
                    return and_(y, -p)
    if a > b:
        a, b = b, a
    k = (a, b)
    n = _and_tab.get(k)
    if n is None:
        n = _new("&", k)
        _and_tab[k] = n
    return n


def or_(a, b):
    return -and_(-a, -b)


def conj(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
        if r == FALSE:
            break
    return r


def disj(xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
        if r == TRUE:
            break
    return r


def _lin(a):
    n = abs(a)
    if n == 1:
        return frozenset(), a < 0  # TRUE counts as constant 1
    if _kind[n] == "^":
        return _data[n], a < 0
    return frozenset((n,)), a < 0


def xor_(a, b):
    if a == FALSE:
        return b
    if b == FALSE:
        return a
    if a == TRUE:
        return -b
    if b == TRUE:
        return -a
    if a == b:
        return FALSE
    if a == -b:
        return TRUE
    sa, na = _lin(a)
    sb, nb = _lin(b)
    s = sa ^ sb
    neg = na ^ nb
    if not s:
        return TRUE if neg else FALSE
    if len(s) == 1:
        (n,) = s
    else:
        n = _xor_tab.get(s)
        if n is None:
            n = _new("^", s)
            _xor_tab[s] = n
    return -n if neg else n


def xors(xs):
    r = FALSE
    for x in xs:
        r = xor_(r, x)
    return r


def ite(c, a, b):
    if c == TRUE or a == b:
        return a
    if c == FALSE:
        return b
    if a == TRUE:
        return or_(c, b)
    if a == FALSE:
        return and_(-c, b)
    if b == TRUE:
        return or_(-c, a)
    if b == FALSE:
        return and_(c, a)
    if a == -b:
        return xor_(c, b)
    return xor_(b, and_(c, xor_(a, b)))


def eq(a, b):
    return -xor_(a, b)


def at_most_k(xs, k):
    """Literal: at most ``k`` of ``xs`` hold (sequential counter)."""
    row = [TRUE] + [FALSE] * (k + 1)  # row[j]: exactly j so far (last = >k)
    for x in xs:
        new = [FALSE] * (k + 2)
        for j in range(k + 2):
            stay = and_(row[j], -x) if j <= k else row[j]
            come = and_(row[j - 1], x) if j > 0 else FALSE
            new[j] = or_(stay, come)
        row = new
    return -row[k + 1]


def to_z3(a):
    n = abs(a)
    r = _z3cache.get(n)
    if r is None:
        stack = [n]
        while stack:
            m = stack[-1]
            if m in _z3cache:
                stack.pop()
                continue
            k = _kind[m]
            if k == "V":
                _z3cache[m] = z3.Bool(_data[m])
                stack.pop()
            elif k == "A":
                _z3cache[m] = _data[m]
                stack.pop()
            else:
                kids = sorted(abs(c) for c in _data[m]) if k == "^" else [abs(c) for c in _data[m]]
                todo = [c for c in kids if c not in _z3cache]
                if todo:
                    stack.extend(todo)
                    continue
                if k == "&":
                    p, q = _data[m]
                    zp = _z3cache[abs(p)]
                    zq = _z3cache[abs(q)]
                    _z3cache[m] = z3.And(
                        z3.Not(zp) if p < 0 else zp, z3.Not(zq) if q < 0 else zq
                    )
                else:
                    e = _z3cache[kids[0]]
                    for c in kids[1:]:
                        e = z3.Xor(e, _z3cache[c])
                    _z3cache[m] = e
                stack.pop()
        r = _z3cache[n]
    return z3.Not(r) if a < 0 else r


def evaluate(a, assign, memo):
    """Evaluate literal under ``assign`` (node id -> bool for leaves, default False)."""
    n = abs(a)
    if n not in memo:
        stack = [n]
        while stack:
            m = stack[-1]
            if m in memo:
                stack.pop()
                continue
            k = _kind[m]
            if k == "T":
                memo[m] = True
                stack.pop()
            elif k in "VA":
                memo[m] = assign(m)
                stack.pop()
            else:
                todo = [abs(c) for c in _data[m] if abs(c) not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                if k == "&":
                    p, q = _data[m]
                    memo[m] = (memo[abs(p)] ^ (p < 0)) and (memo[abs(q)] ^ (q < 0))
                else:
                    v = False
                    for c in _data[m]:
                        v ^= memo[c]
                    memo[m] = v
                stack.pop()
    return memo[n] ^ (a < 0)
