"""Job runner shared by all checks: symbolic run, replay on the real code, evidence.

A *job* is a function ``fn(env, **params)``.  The same function runs in two modes:

* symbolic: ``env`` hands out solver variables; ``env.check`` asks the solver whether the
  condition holds for every value on the current path;
* replay: ``env`` hands out the concrete values of a counterexample and the job runs
  against the real, uninstrumented code in a fresh interpreter.
"""
import copy
import hashlib
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

ROOT = os.environ.get("SYMX_ROOT", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")


class Violated(BaseException):
    def __init__(self, label, detail="", inputs=None):
        super().__init__(label)
        self.label = label
        self.detail = detail
        self.inputs = inputs


class Skip(BaseException):
    """Replay: an assumption does not hold for these inputs."""


class Job:
    def __init__(self, name, fn, /, timeout=120, weight=1, witnesses=2, finish=None, logic=None, alloc=False, **params):
        self.logic = logic  # solver logic (QF_FD for purely propositional jobs)
        self.alloc = alloc  # np.zeros and the like return arrays which can hold symbols
        self.witnesses = witnesses
        self.finish = finish  # finish(env, **params): runs once after all paths
        self.name = name
        self.fn = fn
        self.timeout = timeout
        self.weight = weight
        self.params = params


def known_findings(prop=None):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data["findings"] if prop in (None, k["property"])]


def _jsonable(v):
    import numpy as np

    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, Fraction):
        return {"frac": [v.numerator, v.denominator]}
    return v


# ------------------------------------------------------------------------ environments
class BaseEnv:
    symbolic = False

    def __init__(self):
        self.labels = []
        self.notes = {}

    def note(self, key, value):
        self.notes[key] = value

    def known(self, fid):
        return any(k["id"] == fid and k["status"] == "known" for k in known_findings())

    def merge_fn(self, name, mod="plaquette.pauli"):
        """Symbolic mode: explore calls of this function in place and merge the results."""

    # conveniences common to both modes
    def bits(self, name, n):
        import numpy as np

        out = [self.bit(f"{name}[{i}]") for i in range(n)]
        return self.array(out)

    def raises(self, excs, fn, label):
        """fn() must raise one of ``excs``."""
        try:
            fn()
        except excs:
            self.check(True, label)
            return
        self.check(False, label)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ctx, eager=False):
        super().__init__()
        from . import core, expr

        self.core, self.E, self.ctx = core, expr, ctx
        self.eager = eager
        self.sample = None  # concretising mode: which values numbers get
        self.pinned = False
        self.vars = {}
        self.counter = 0
        self.deferred = []
        self.records = []

    def merge_fn(self, name, mod="plaquette.pauli"):
        from . import loader

        loader.MERGE_FUNCS.add((mod, name))

    def begin_path(self):
        self.vars = {}
        self.draw_log = {}
        self.ctx.rewindables = []
        self.labels = []
        self.core.SymNum.tokens.clear()

    # ---- inputs
    def _reg(self, name, kind, data):
        if name in self.vars:
            return self.vars[name][2]
        if kind == "bit":
            g = self.E.var(name)
            v = self.core.bit(g)
            if self.eager:
                v = self.core.U1 if self.ctx.decide(g) else self.core.U0
            self.vars[name] = (kind, g, v)
        elif kind == "bool":
            g = self.E.var(name)
            v = self.core.sbool(g)
            if self.eager:
                v = self.ctx.decide(g)
            self.vars[name] = (kind, g, v)
        elif kind in ("choice", "pick"):
            # one-hot union over the options, log-encoded
            opts = data
            n = len(opts)
            k = max(1, (n - 1).bit_length()) if n > 1 else 0
            vs = [self.E.var(f"{name}.{i}") for i in range(k)]
            alts = []
            for i, o in enumerate(opts):
                g = self.E.conj(v if (i >> j) & 1 else -v for j, v in enumerate(vs))
                alts.append((i, g))
            rng = self.E.disj(g for _, g in alts)
            if rng != self.E.TRUE:
                self.ctx.assume(rng)
            if kind == "pick" or self.eager:
                for i, g in alts[:-1]:
                    if self.ctx.decide(g):
                        break
                else:
                    i = n - 1
                v = opts[i]
            else:
                v = (
                    self.core.mk([(opts[i], g) for i, g in alts])
                    if n > 1
                    else opts[0]
                )
            self.vars[name] = (kind, alts, v)
        elif kind in ("int", "real"):
            z3 = self.core.z3
            z = (z3.Int if kind == "int" else z3.Real)(name)
            lo, hi, lo_open, hi_open = data
            cs = []
            if lo is not None:
                cs.append(z > _zr(z3, lo) if lo_open else z >= _zr(z3, lo))
            if hi is not None:
                cs.append(z < _zr(z3, hi) if hi_open else z <= _zr(z3, hi))
            if cs:
                self.ctx.assume(self.E.atom(z3.And(*cs)))
            v = self.core.SymNum(z)
            if self.eager:
                if self.sample is None:
                    raise self.core.Unsupported("number in concretising mode")
                v = self._pin(name, kind, z, lo, hi)
            self.vars[name] = (kind, z, v)
        return self.vars[name][2]

    def _pin(self, name, kind, z, lo, hi):
        """Concretising mode: the number gets an arbitrary value which the path allows."""
        import random

        rnd = random.Random(f"{os.environ.get('VERIF_SEED', '1')}/{self.sample}/{name}")
        z3 = self.core.z3
        self.pinned = True
        a = lo if isinstance(lo, (int, float)) else -10 if hi is None else hi - 20
        b = hi if isinstance(hi, (int, float)) else a + 20
        for k in range(5):
            if kind == "int":
                v = rnd.randint(int(a), int(b)) if k < 4 else int(a)
                g = self.E.atom(z == v)
            else:
                u = [rnd.random() * 0.3, rnd.random(), rnd.random() * 1e-3][self.sample % 3] if k < 4 else 0.0
                # few binary digits: sums and products stay exact
                v = int((a + (b - a) * u) * 2**20) / 2**20
                g = self.E.atom(z == z3.Q(*v.as_integer_ratio()) if isinstance(v, float) else z == v)
            if self.ctx.sat(g):
                self.ctx.push_pc(g)
                return v
        raise self.core.Unsupported("no value for a number in concretising mode")

    def log_draw(self, prefix, k, kind, name):
        g = self.E.conj(self.ctx.pc)
        key = (prefix, k, kind, name)
        self.draw_log[key] = self.E.or_(self.draw_log.get(key, self.E.FALSE), g)

    def bit(self, name):
        return self._reg(name, "bit", None)

    def boolean(self, name):
        return self._reg(name, "bool", None)

    def choice(self, name, opts):
        return self._reg(name, "choice", list(opts))

    def pick(self, name, opts):
        return self._reg(name, "pick", list(opts))

    def int(self, name, lo=None, hi=None):
        return self._reg(name, "int", (lo, hi, False, False))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self._reg(name, "real", (lo, hi, lo_open, hi_open))

    def array(self, items, dtype="u1"):
        import numpy as np

        if not self.core.has_sym(list(items)):
            return np.array(list(items), dtype=dtype)
        return self.core.sarray(list(items))

    def state(self, rows):
        """2-D array from rows of (possibly symbolic) bits."""
        import numpy as np

        if not any(self.core.has_sym(list(r)) for r in rows):
            return np.array([list(r) for r in rows], dtype="u1")
        return self.core.sarray([list(r) for r in rows])

    # ---- logic on literals (oracles)
    def lit(self, x):
        return self.core.truth(x)

    def assume(self, cond):
        self.ctx.assume(self.core.truth(cond))

    def check(self, cond, label, detail=None):
        g = self.core.truth(cond)
        st = self.ctx.stats
        st.assertions += 1
        self.labels.append(label)
        if g == self.E.TRUE:
            return
        st.assert_queries += 1
        if self.ctx.sat(-g):
            raise Violated(label, detail or "")

    def concrete(self, x):
        """Fork until x is concrete."""
        if isinstance(x, self.core.Sym):
            return self.ctx.concretise(x)
        return x

    # ---- counterexample
    def random_model(self):
        """Pick a model of the path condition with (seeded) random input bits."""
        import random

        rnd = random.Random(
            f"{os.environ.get('VERIF_SEED', '1')}/{self.ctx.stats.paths}/{len(self.vars)}"
        )
        lits = []
        for kind, h, _ in self.vars.values():
            if kind in ("bit", "bool"):
                gs = [h]
            elif kind in ("choice", "pick"):
                gs = []
            else:
                continue
            for g in gs:
                z = self.E.to_z3(g)
                lits.append(z if rnd.random() < 0.5 else self.core.z3.Not(z))
        s = self.ctx.solver
        while True:
            r = s.check(*lits)
            self.ctx.stats.queries += 1
            if r == self.core.z3.sat:
                self.ctx._take_model()
                return
            core = {c.get_id() for c in s.unsat_core()}
            if r != self.core.z3.unsat or not core:
                self.ctx.model = None
                return
            lits = [x for x in lits if x.get_id() not in core]

    def model_inputs(self):
        z3 = self.core.z3
        out = {}
        m = self.ctx
        drawn = {k[3] for k in self.draw_log}
        if m.model is None:
            if not m._check():
                raise self.core.Inconclusive("path condition unsatisfiable")
            m._take_model()
        order = [n for n in self.vars if n not in drawn]
        rename = {}
        seq = {}
        for (prefix, k, kind, name), g in sorted(self.draw_log.items()):
            if m.holds_in_model(g):
                j = seq.get(prefix, 0)
                seq[prefix] = j + 1
                rename[name] = f"{prefix}#{j}.{kind}"
                order.append(name)
        for name in order:
            kind, h, _ = self.vars[name]
            name = rename.get(name, name)
            if kind in ("bit", "bool"):
                out[name] = int(bool(m.holds_in_model(h)))
            elif kind in ("choice", "pick"):
                for i, g in h:
                    if m.holds_in_model(g):
                        out[name] = i
                        break
            else:
                v = m.model.eval(h, model_completion=True)
                if kind == "int":
                    out[name] = v.as_long()
                else:
                    if z3.is_algebraic_value(v):
                        v = v.approx(12)
                    out[name] = {
                        "frac": [v.numerator_as_long(), v.denominator_as_long()]
                    }
        return out


def _zr(z3, v):
    if isinstance(v, int):
        return v
    f = Fraction(str(v))
    return z3.Q(f.numerator, f.denominator)


class ReplayEnv(BaseEnv):
    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.counter = 0

    def begin_path(self):
        pass

    def bit(self, name):
        import numpy as np

        return np.uint8(self.inputs.get(name, 0))

    def boolean(self, name):
        return bool(self.inputs.get(name, 0))

    def choice(self, name, opts):
        opts = list(opts)
        i = self.inputs.get(name, 0)
        if i >= len(opts):
            raise Skip()
        return opts[i]

    pick = choice

    def int(self, name, lo=None, hi=None):
        return int(self.inputs.get(name, lo or 0))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self.inputs.get(name)
        if v is None:
            return float(lo or 0.0)
        if isinstance(v, dict):
            return float(Fraction(*v["frac"]))
        return float(v)

    def array(self, items, dtype="u1"):
        import numpy as np

        return np.array(list(items), dtype=dtype)

    def state(self, rows):
        import numpy as np

        return np.array([list(r) for r in rows], dtype="u1")

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def check(self, cond, label, detail=None):
        self.labels.append(label)
        if not bool(cond):
            raise Violated(label, detail or "")

    def concrete(self, x):
        return x


class Rng:
    """Stand-in for ``plaquette.rng``: every draw is an arbitrary value of its kind."""

    def __init__(self, env, prefix="rng"):
        self.env = env
        self.k = 0
        self.prefix = prefix
        self.draws = []
        self.forced = None  # optional list of ready-made draws

        if env.symbolic:
            env.ctx.rewindables.append(self)

    def _draw(self, kind, mk):
        name = f"{self.prefix}#{self.k}.{kind}"
        self.k += 1
        v = mk(name)
        if self.env.symbolic:
            self.env.log_draw(self.prefix, self.k - 1, kind, name)
        self.draws.append((kind, v))
        return v

    def random(self, size=None, *a, **k):
        if size is not None:
            import numpy as np

            out = [self.random() for _ in range(int(np.prod(size)))]
            if self.env.symbolic:
                return self.env.core.sarray(out).reshape(size)
            return np.array(out).reshape(size)
        return self._draw(
            "random", lambda n: self.env.real(n, 0, 1, hi_open=True)
        )

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None or low != 0.0 or high != 1.0:
            raise NotImplementedError("rng.uniform form")
        return self.random()

    def choice(self, opts, size=None, replace=True, p=None):
        opts = list(range(opts)) if isinstance(opts, int) else list(opts)
        if p is not None:
            opts = [o for o, q in zip(opts, p) if q != 0]
        if size is not None:
            import numpy as np

            return self.env.array([self.choice(opts) for _ in range(int(size))])
        if len(opts) == 2 and [int(o) if not isinstance(o, str) else o for o in opts] == [0, 1]:
            return self._draw("bit", lambda n: self.env.bit(n))
        return self._draw(f"choice{len(opts)}", lambda n: self.env.choice(n, opts))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        hi = high + 1 if endpoint else high
        return self.choice(list(range(low, hi)), size=size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is not None:
            raise NotImplementedError("rng.normal(size)")
        return self._draw("normal", lambda n: self.env.real(n))


# ------------------------------------------------------------------------ job execution
def _job_symbolic(job, eager, deadline, sample=0):
    from . import core, expr as E, loader

    E.reset()
    ctx = core.Ctx(logic=job.logic)
    core.NP.alloc_symbolic = job.alloc
    ctx.deadline = deadline
    core.set_ctx(ctx)
    loader.ENTERED.clear()
    env = SymEnv(ctx, eager)
    env.sample = None if job.finish is not None else sample
    res = {
        "job": job.name,
        "status": "ok",
        "eager": eager,
        "violations": [],
        "why": "",
    }
    t0 = time.time()
    labels = {}
    wits = res["witnesses"] = []

    def one():
        env.begin_path()
        try:
            job.fn(env, **job.params)
            if ctx.stats.paths in (1, 2, 5, 17, 65, 257) and len(wits) < job.witnesses:
                env.random_model()
                wits.append(env.model_inputs())
        except (core.Inconclusive, TimeoutError):
            raise
        except Violated as v:
            res["violations"].append(
                {
                    "label": v.label,
                    "detail": v.detail,
                    "kind": "check",
                    "inputs": env.model_inputs(),
                }
            )
            raise
        except RecursionError as e:
            raise core.Unsupported(f"recursion: {e}")
        except Exception as e:  # noqa: BLE001 - the code under test failed on this path
            # numpy replaces exceptions which leave Sym.__bool__ and the like
            c = e
            while c is not None:
                if isinstance(c, (core.Inconclusive, TimeoutError)):
                    raise c
                c = c.__cause__ or c.__context__
            if time.time() > deadline:
                raise TimeoutError("job deadline")
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename}:{f.lineno}" for f in tb][-3:]
            res["violations"].append(
                {
                    "label": f"unexpected {type(e).__name__}: {e}",
                    "detail": " <- ".join(reversed(where)),
                    "trace": traceback.format_exc()[-3000:],
                    "kind": "exception",
                    "exc": type(e).__name__,
                    "inputs": env.model_inputs(),
                }
            )
            raise Violated("exception")
        finally:
            for lab in env.labels:
                labels[lab] = labels.get(lab, 0) + 1

    try:
        ctx.explore(one)
        if job.finish is not None:
            env.labels = []
            try:
                job.finish(env, **job.params)
            except Violated as v:
                res["violations"].append({"label": v.label, "detail": v.detail, "kind": "check", "inputs": v.inputs or {}})
                raise
            finally:
                for lab in env.labels:
                    labels[lab] = labels.get(lab, 0) + 1
    except Violated:
        res["status"] = "violation"
    except core.Inconclusive as e:
        res["status"] = "inconclusive"
        res["why"] = f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-2500:]
    except TimeoutError as e:
        res["status"] = "timeout"
        res["why"] = str(e)
    core.set_ctx(None)
    s = ctx.stats
    res["stats"] = dict(vars(s))
    res["labels"] = labels
    res["notes"] = env.notes
    res["nodes"] = E.n_nodes()
    res["entered"] = dict(loader.ENTERED)
    res["wall_s"] = time.time() - t0
    res["pinned"] = env.pinned
    if res["status"] == "ok" and s.assertions == 0:
        res["status"] = "vacuous"
        res["why"] = "no assertion was reached"
    return res


def _child(job, path, eager, stop):
    import resource

    def until(limit):
        return min(time.time() + limit, stop)

    try:
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        sys.setrecursionlimit(20000)
    except Exception:  # noqa: BLE001
        pass
    try:
        try:
            res = _job_symbolic(job, eager, until(min(job.timeout, 150) if eager else job.timeout))
            if res["status"] == "inconclusive" and not eager and "solver:" not in res["why"]:
                first = res
                for sample in range(3):
                    res = _job_symbolic(job, True, until(min(job.timeout, 150) / (2 if sample else 1)), sample)
                    if not res.get("pinned") or res["violations"]:
                        break
                if res.get("pinned") and not res["violations"]:
                    res["status"] = "inconclusive"
                    res["why"] = "numbers had to be concrete: " + first["why"]
                res["first_try"] = {k: first[k] for k in ("why", "trace")}
        except MemoryError:
            res = {"job": job.name, "status": "timeout", "why": "out of memory"}
    except BaseException as e:  # noqa: BLE001
        res = {
            "job": job.name,
            "status": "engine",
            "why": f"{type(e).__name__}: {e}",
            "trace": traceback.format_exc()[-3000:],
        }
    with open(path, "wb") as f:
        pickle.dump(res, f)
    os._exit(0)


def run_jobs(jobs, workers=8, eager_for=(), stop=None, enough=None, verbose=False):
    """Fork one process per job, at most ``workers`` at a time.

    Jobs end as "timeout" at time ``stop``; if ``enough(result)`` is true of a result,
    the jobs which have not ended yet are given up.
    """
    stop = time.time() + 1e6 if stop is None else stop
    todo = sorted(jobs, key=lambda j: -j.weight)
    running = {}
    out = {}
    tmp = tempfile.mkdtemp(prefix="symx")
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        i = 0
        while todo or running:
            while todo and len(running) < workers:
                j = todo.pop(0)
                p = os.path.join(tmp, f"{i}.pkl")
                i += 1
                pid = os.fork()
                if pid == 0:
                    _child(j, p, j.name in eager_for, stop)
                running[pid] = (j, p, time.time())
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid and pid in running:
                j, p, t = running.pop(pid)
                try:
                    with open(p, "rb") as f:
                        out[j.name] = pickle.load(f)
                except Exception:  # noqa: BLE001
                    out[j.name] = {
                        "job": j.name,
                        "status": "timeout",
                        "why": "worker ended without a result",
                    }
                if verbose:
                    print(f"# {len(out)}/{len(jobs)} {j.name}: {out[j.name]['status']} {time.time()-t:.1f}s", file=sys.stderr, flush=True)
                if enough is not None and enough(out[j.name]):
                    for q in [k[0] for k in running.values()] + todo:
                        out[q.name] = {"job": q.name, "status": "skipped", "why": "a violation was confirmed before"}
                    break
                continue
            now = time.time()
            for pid, (j, p, t) in list(running.items()):
                if now - t > 2 * j.timeout + 40 or now > stop + 25:
                    os.kill(pid, signal.SIGKILL)
            time.sleep(0.02)
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return out


# ------------------------------------------------------------------------ replay
def replay_file(path):
    """Run in a fresh interpreter, on the uninstrumented code."""
    with open(path) as f:
        data = json.load(f)
    mod = importlib.import_module(f"checks.{data['property']}")
    jobs = {j.name: j for j in mod.jobs(data["tier"])}
    job = jobs[data["job"]]
    env = ReplayEnv(data["inputs"])
    try:
        job.fn(env, **job.params)
    except Violated as v:
        print(f"REPRODUCED {v.label} {v.detail}")
        return 1
    except Skip:
        print("NOT REPRODUCED (assumption fails)")
        return 0
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        print(f"REPRODUCED unexpected {type(e).__name__}: {e}")
        return 1
    print("NOT REPRODUCED")
    return 0


def run_replay(path, timeout=120):
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(HERE, "run.py"), "--replay", path],
            capture_output=True,
            text=True,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return False, "replay timed out"
    return p.returncode == 1 and "REPRODUCED" in p.stdout, (p.stdout + p.stderr)[-1500:]


def replay_witnesses(path):
    """Run every witness of a finished check against the real code; JSON on stdout."""
    with open(path) as f:
        data = json.load(f)
    mod = importlib.import_module(f"checks.{data['property']}")
    jobs = {j.name: j for j in mod.jobs(data["tier"])}
    out = []
    t0 = time.time()
    for name, inputs in data["witnesses"]:
        if time.time() - t0 > data["budget"]:
            break
        env = ReplayEnv(inputs)
        try:
            jobs[name].fn(env, **jobs[name].params)
            out.append([name, inputs, "ok", ""])
        except Violated as v:
            out.append([name, inputs, "violated", f"{v.label} {v.detail}"])
        except Skip:
            out.append([name, inputs, "skip", ""])
        except Exception as e:  # noqa: BLE001
            out.append([name, inputs, "violated", f"unexpected {type(e).__name__}: {e}"])
    sys.stdout.flush()
    with open(path + ".out", "w") as f:
        json.dump(out, f)
    return 0


def run_witnesses(prop, tier, res):
    wits = [[k, w] for k, r in sorted(res.items()) if r["status"] == "ok" for w in r.get("witnesses", [])]
    d = tempfile.mkdtemp(prefix="symw")
    out = []
    procs = []
    try:
        for c in range(8):
            part = wits[c::8]
            if not part:
                continue
            path = os.path.join(d, f"w{c}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "budget": 45, "witnesses": part}, f)
            procs.append((path, subprocess.Popen(
                [sys.executable, os.path.join(HERE, "run.py"), "--witnesses", path],
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        t0 = time.time()
        for path, p in procs:
            try:
                p.wait(max(1, 100 - (time.time() - t0)))
                with open(path + ".out") as f:
                    out += json.load(f)
            except Exception:  # noqa: BLE001
                p.kill()
                p.wait()
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return out


# ------------------------------------------------------------------------ driver
def save_replay(prop, tier, res, v):
    os.makedirs(REPLAYS, exist_ok=True)
    body = {
        "property": prop,
        "tier": tier,
        "job": res["job"],
        "label": v["label"],
        "detail": v.get("detail", ""),
        "inputs": v["inputs"],
    }
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def drive(prop, tier, only=None, verbose=False):
    t0 = time.time()
    from . import loader

    loader.install(ROOT)
    import plaquette  # noqa: F401  (instrumented, shared by the forked workers)

    mod = importlib.import_module(f"checks.{prop}")
    for m in getattr(mod, "PRELOAD", ()):
        importlib.import_module(m)
    jobs = mod.jobs(tier)
    if only:
        jobs = [j for j in jobs if only in j.name]
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), "duplicate job names"
    budget = 780 if tier == "quick" else 3300
    stop = t0 + (640 if tier == "quick" else 1e6)
    violations = []
    problems = []
    eager_again = []
    confirmed = {}

    def enough(r):
        """A violation which the real code reproduces ends a quick check."""
        for v in r.get("violations", []):
            path = save_replay(prop, tier, r, v)
            confirmed[path] = run_replay(path)
            if confirmed[path][0] and tier == "quick":
                return True
        return False

    res = run_jobs(jobs, stop=stop, enough=enough, verbose=verbose)

    def handle(r, final):
        for v in r.get("violations", []):
            path = save_replay(prop, tier, r, v)
            ok, log = confirmed.pop(path, None) or run_replay(path)
            if ok:
                violations.append((path, r["job"], v, log))
            else:
                if os.path.exists(path):
                    os.unlink(path)
                if final:
                    problems.append(
                        f"{r['job']}: counterexample not reproduced ({v['label']}; "
                        f"{v.get('detail','')}): {log.strip()[-300:]}"
                    )
                else:
                    r["mismatch"] = f"{v['label']} {v.get('detail','')}"
                    if verbose:
                        print(v.get("trace", ""), v["inputs"], log)
                    eager_again.append(r["job"])

    for r in res.values():
        handle(r, False)
    if eager_again and time.time() - t0 < budget / 2:
        again = run_jobs([j for j in jobs if j.name in eager_again], eager_for=eager_again, stop=stop)
        for k, r in again.items():
            r["mismatch"] = res[k]["mismatch"]
            res[k] = r
            handle(r, True)
    elif eager_again and not violations:
        for k in eager_again:
            problems.append(f"{k}: {res[k]['mismatch']} not reproduced")
    wit = run_witnesses(prop, tier, res)
    for name, inputs, st, what in wit:
        if st == "violated":
            # the encoding accepted this path, the real code does not: report what the
            # real code does, and say that the encoding is off
            r = res[name]
            v = {"label": what, "detail": "(witness replay)", "inputs": inputs}
            path = save_replay(prop, tier, r, v)
            ok, log = run_replay(path)
            if ok:
                violations.append((path, name, v, log))
                problems.append(f"{name}: encoding and real code disagree: {what}")
    known_lines = []
    for k in known_findings(prop):
        if k.get("status") == "known":
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    incomplete = [r for r in res.values() if r["status"] not in ("ok", "violation")]
    ev = evidence(prop, tier, mod, jobs, res, violations, problems, incomplete, wit, time.time() - t0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    for r in res.values():
        if verbose or r["status"] != "ok":
            s = r.get("stats", {})
            print(
                f"# {r['job']}: {r['status']} {r.get('why','')} {'EAGER' if r.get('eager') else ''} wall={r.get('wall_s',0):.1f}s "
                f"paths={s.get('paths')} asserts={s.get('assertions')} queries={s.get('queries')} solver={s.get('solver_s',0):.1f}s"
            )
            if verbose and r.get("trace"):
                print(r["trace"])
            if verbose and r.get("first_try"):
                print("first try:", r["first_try"]["why"], r["first_try"]["trace"])
    for p in problems:
        print("# PROBLEM", p)
    for path, jobname, v, log in violations:
        print(f"# {jobname}: {v['label']} {v.get('detail','')}")
        if verbose:
            print(v.get("trace", ""), v["inputs"], log)
        print(f"VIOLATION property={prop} replay={path}")
    tot = {"ok": sum(r["status"] == "ok" for r in res.values())}
    print(
        f"{prop} {tier}: {tot['ok']}/{len(res)} jobs complete, {len(violations)} violations, "
        f"{ev['coverage']['queries']} queries, {time.time()-t0:.1f}s"
    )
    return 1 if violations else 0


def evidence(prop, tier, mod, jobs, res, violations, problems, incomplete, wit, wall):
    def tot(k):
        return sum(r.get("stats", {}).get(k, 0) for r in res.values())

    fns = {}
    for r in res.values():
        for k, n in r.get("entered", {}).items():
            fns[k] = fns.get(k, 0) + n
    anchors = getattr(mod, "FUNCTIONS", ())
    missing = [a for a in anchors if not any(f.startswith(a) for f in fns)]
    cov = {
        "states": max(1, tot("paths")),
        "transitions": max(1, tot("queries") + tot("forks")),
        "traces_validated_against_impl": sum(w[2] == "ok" for w in wit),
        "witnesses_disagreeing": sum(w[2] == "violated" for w in wit),
        "samples": [{"job": w[0], "inputs": w[1]} for w in wit[:3]],
        "jobs": len(res),
        "jobs_complete": sum(r["status"] == "ok" for r in res.values()),
        "jobs_concretised": sorted(k for k, r in res.items() if r.get("eager")),
        "jobs_incomplete": {r["job"]: r["status"] + ": " + r.get("why", "") for r in incomplete},
        "queries": tot("queries"),
        "queries_sat": tot("sat"),
        "queries_unsat": tot("unsat"),
        "assertions_reached": tot("assertions"),
        "assertions_sent_to_solver": tot("assert_queries"),
        "paths": tot("paths"),
        "forks": tot("forks"),
        "merged_calls": tot("merged_calls"),
        "solver_s": round(tot("solver_s"), 3),
        "formula_nodes": sum(r.get("nodes", 0) for r in res.values()),
        "functions_encoded": fns,
        "anchors_not_reached": missing,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
        "jobs_detail": {
            k: {
                "status": r["status"],
                "paths": r.get("stats", {}).get("paths"),
                "assertions": r.get("stats", {}).get("assertions"),
                "queries": r.get("stats", {}).get("queries"),
                "wall_s": round(r.get("wall_s", 0), 2),
            }
            for k, r in res.items()
        },
        "problems": problems,
        "violations_found": [
            {"replay": p, "job": j, "what": v["label"] + " " + v.get("detail", "")}
            for p, j, v, _ in violations
        ],
        "explanation": (
            "Symbolic execution of the instrumented current source; states = execution "
            "paths explored, transitions = solver queries plus path forks; every "
            "assertion is decided by z3 for all values of the symbolic inputs within "
            "the bounds. " + getattr(mod, "EXPLANATION", "")
        ),
    }
    return {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": cov,
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
    }
