"""Probabilistic symbolic execution: exact outcome distributions of randomised code.

Every draw of the stub generator is reduced to an independent uniform number u in [0, 1).
The code is explored path by path; the probability of a path is the measure of the box
its conditions cut out of the unit cube, an exact z3 term in the symbolic parameters.
The probabilities of all paths with the same outcome are added up and compared with the
documented distribution by one solver query per outcome.
"""
import itertools
import time

import numpy as np

from symx.harness import Rng, Violated

MC_RUNS = 2500
MC_TOL = 0.055


class DistRng(Rng):
    def choice(self, opts, size=None, replace=True, p=None):
        opts = list(range(opts)) if isinstance(opts, (int, np.integer)) else list(opts)
        if size is not None:
            return self.env.array([self.choice(opts, p=p) for _ in range(int(size))])
        if p is None:
            cuts = [(i + 1, len(opts)) for i in range(len(opts))]
            z3 = self.env.core.z3
            cum = [self.env.core.SymNum(z3.Q(a, b)) for a, b in cuts]
        else:
            p = list(p)
            if len(p) != len(opts):
                raise ValueError("'a' and 'p' must have same size")
            for x in p:
                if x < 0:
                    raise ValueError("probabilities are not non-negative")
            tot = 0
            cum = []
            for x in p:
                tot = tot + x
                cum.append(tot)
            if tot != 1:
                raise ValueError("probabilities do not sum to 1")
        u = self.random()
        for o, c in zip(opts[:-1], cum[:-1]):
            if u < c:
                return o
        return opts[-1]

    def binomial(self, n, p, size=None):
        if size is not None:
            return self.env.array([self.binomial(n, p) for _ in range(int(size))])
        return sum(1 if self.random() < p else 0 for _ in range(n))

    def normal(self, *a, **k):
        raise self.env.core.Unsupported("normal draw in a distribution job")


def _flatten(z3, f, out):
    if z3.is_and(f):
        for c in f.children():
            _flatten(z3, c, out)
    elif z3.is_not(f) and z3.is_or(f.arg(0)):
        for c in f.arg(0).children():
            _flatten(z3, z3.Not(c), out)
    elif z3.is_not(f) and z3.is_not(f.arg(0)):
        _flatten(z3, f.arg(0).arg(0), out)
    else:
        out.append(f)


def _vars(z3, f, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if f.get_id() in seen:
        return acc
    seen.add(f.get_id())
    if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.add(f.decl().name())
    for c in f.children():
        _vars(z3, c, acc, seen)
    return acc


def begin(env):
    """Call after the parameters exist and before the first draw."""
    env.base = list(env.ctx.pc)


def record(env, rng, outcome):
    """Call at the end of a path."""
    z3 = env.core.z3
    draws = {n: env.vars[n][1] for n in env.vars if n.startswith(rng.prefix + "#")}
    lits = []
    for g in env.ctx.pc[len(env.base):]:
        _flatten(z3, env.E.to_z3(g), lits)
    lo = {n: [z3.RealVal(0)] for n in draws}
    hi = {n: [z3.RealVal(1)] for n in draws}
    side = []
    for f in lits:
        vs = _vars(z3, f) & set(draws)
        if not vs:
            side.append(f)
            continue
        if len(vs) > 1:
            raise env.core.Unsupported("condition relating two draws")
        n = vs.pop()
        neg = z3.is_not(f)
        a = f.arg(0) if neg else f
        if not (z3.is_le(a) or z3.is_lt(a) or z3.is_ge(a) or z3.is_gt(a)):
            raise env.core.Unsupported(f"condition on a draw: {f}")
        d = a.arg(0) - a.arg(1)
        u = draws[n]
        d0 = z3.substitute(d, (u, z3.RealVal(0)))
        c = z3.simplify(z3.substitute(d, (u, z3.RealVal(1))) - d0, som=True)
        if not z3.is_rational_value(c) or c.numerator_as_long() == 0:
            raise env.core.Unsupported(f"condition on a draw: {f}")
        t = z3.simplify(-d0 / c)
        upper = z3.is_le(a) or z3.is_lt(a)  # d <= 0
        if c.numerator_as_long() < 0:
            upper = not upper
        if neg:
            upper = not upper
        (hi if upper else lo)[n].append(t)
    prob = z3.RealVal(1)
    for n in draws:
        up = hi[n][0]
        for t in hi[n][1:]:
            up = t if _implied(env, t <= up) else up if _implied(env, up <= t) else z3.If(t < up, t, up)
        dn = lo[n][0]
        for t in lo[n][1:]:
            dn = t if _implied(env, t >= dn) else dn if _implied(env, dn >= t) else z3.If(t > dn, t, dn)
        w = z3.simplify(up - dn, som=True)
        if not z3.is_rational_value(w) and not _implied(env, w >= 0):
            w = z3.simplify(z3.If(w > 0, w, z3.RealVal(0)))
        prob = prob * w
    side = [f for f in side if not _implied(env, f)]
    if side:
        prob = z3.If(z3.And(*side), prob, z3.RealVal(0))
    env.records.append((outcome, z3.simplify(prob, som=True)))


def _implied(env, f):
    """The parameters' constraints imply f."""
    z3 = env.core.z3
    cache = env.__dict__.setdefault("implied", {})
    k = f.get_id()
    if k not in cache:
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*[env.E.to_z3(g) for g in env.base])
        s.add(z3.Not(f))
        env.ctx.stats.queries += 1
        cache[k] = (s.check() == z3.unsat, f)
    return cache[k][0]


def conclude(env, expected, label):
    """expected: {outcome key: z3/SymNum/number probability}; every other outcome has probability 0."""
    z3 = env.core.z3
    base = [env.E.to_z3(g) for g in env.base]
    got = {}
    for k, p in env.records:
        got.setdefault(k, []).append(p)

    def term(x):
        if isinstance(x, env.core.SymNum):
            return x.z
        if z3.is_expr(x):
            return x
        return env.core.SymNum.lift(x).z

    st = env.ctx.stats
    for k in sorted(set(got) | set(expected), key=repr):
        g = z3.Sum(got[k]) if k in got else z3.RealVal(0)
        w = term(expected[k]) if k in expected else z3.RealVal(0)
        env.labels.append(f"{label}: probability of each outcome")
        st.assertions += 1
        st.assert_queries += 1
        verdict = None
        for gap in (None, 0.3, 0.15):
            s = z3.Solver()
            s.set("timeout", 60000)
            s.add(*base)
            d = z3.simplify(g - w, som=True)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                break
            s.add(d != 0 if gap is None else z3.Or(d > gap, d < -gap))
            t0 = time.time()
            r = s.check()
            st.queries += 1
            st.solver_s += time.time() - t0
            if r == z3.unsat:
                st.unsat += 1
                if gap is None:
                    break
                continue
            if r != z3.sat:
                if gap is None:
                    raise env.core.Inconclusive(f"solver: {r} on the distribution of {k}")
                continue
            st.sat += 1
            verdict = s.model()
            if gap is not None:
                break
        if verdict is not None:
            inputs = {}
            for n, (kind, h, _) in env.vars.items():
                if "#" in n or kind not in ("real", "int"):
                    continue
                v = verdict.eval(h, model_completion=True)
                if kind == "int":
                    inputs[n] = v.as_long()
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(12)
                    inputs[n] = {"frac": [v.numerator_as_long(), v.denominator_as_long()]}
            raise Violated(f"{label}: probability of {k}", f"computed {verdict.eval(g)} expected {verdict.eval(w)}", inputs)


def replay(env, run, expected, label):
    """Real code, real generator: frequencies against the documented distribution."""
    import plaquette

    plaquette.rng = np.random.default_rng(12345)
    freq = {}
    for _ in range(MC_RUNS):
        k = run()
        freq[k] = freq.get(k, 0) + 1
    for k in sorted(set(freq) | set(expected), key=repr):
        f = freq.get(k, 0) / MC_RUNS
        w = float(expected.get(k, 0.0))
        bad = abs(f - w) > MC_TOL or (w == 0 and f > 0)
        env.check(not bad, f"{label}: probability of {k}", f"{f:.3f} over {MC_RUNS} runs, expected {w:.3f}")
