"""C24: error data hold exactly the errors they were given, however they are built, updated, saved or read."""
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

from checks.codetools import make
from checks.common import land
from symx.harness import Job

E_ = "plaquette.errors:"
FUNCTIONS = tuple(E_ + f for f in (
    "ErrorData.__post_init__", "ErrorData.from_csv", "ErrorData.from_lattice", "ErrorData.add_qubit_error", "ErrorData.update_qubit_error", "ErrorData.add_gate_error",
    "ErrorData.update", "ErrorData.update_from_csv", "ErrorData.error_data_dict", "ErrorData.save_to_csv", "ErrorData.qubit_errors_dict", "ErrorData.gate_errors_dict",
    "ErrorData.check_against_code", "assimilate_qubit_errors", "assimilate_gate_errors", "generate_empty_qubit_errors", "generate_gaussian_errors", "generate_constant_errors",
    "delimited_string_list_to_series"))
BOUNDS = {"quick": "repetition 3, planar 2, five qubit code; every probability, mean and deviation an arbitrary real; every distribution of each pair of errors; tables of one to three rows in any order",
          "thorough": "also toric 2; every distribution of each triple of errors"}
ASSUMPTIONS = ["numbers survive printing and parsing in a CSV file (symbolic numbers print as opaque tokens with that law)",
               "scipy's truncnorm(a, b, loc, scale) draws from [loc + a*scale, loc + b*scale]: replaced by a contract stub which checks the call and returns arbitrary numbers in that range"]
PRELOAD = ("plaquette.errors",)
KNOWN = "gate-config-last-channel"
QUBIT = ("X", "Y", "Z", "erasure", "measurement")
SINGLE, DOUBLE = ("X", "Y", "Z"), tuple(a + b for a in "IXYZ" for b in "IXYZ" if a + b != "II")


def same(env, a, b):
    if env.symbolic:
        return a == b
    return bool(abs(a - b) <= 1e-9)


def prob(env, name):
    return env.real(name, 0, 1) if env.symbolic else float(env.real(name))


class TruncNorm:
    """Contract stub of scipy.stats.truncnorm."""

    def __init__(self, env, err):
        self.env, self.err, self.calls, self.states = env, err, [], []

    def __call__(self, a, b, loc=0, scale=1):
        return Frozen(self, a, b, loc, scale)

    def rvs(self, a, b, loc=0, scale=1, size=1, random_state=None):
        return Frozen(self, a, b, loc, scale).rvs(size, random_state)


class Frozen:
    def __init__(self, owner, a, b, loc, scale):
        self.owner, self.args = owner, (a, b, loc, scale)

    def rvs(self, size=1, random_state=None):
        import plaquette

        env, (a, b, loc, scale) = self.owner.env, self.args
        env.check(same(env, loc + a * scale, 0), "nothing below 0 is drawn")
        env.check(same(env, loc + b * scale, 1), "nothing above 1 is drawn")
        env.check(random_state is plaquette.rng, "drawn from plaquette's generator")
        self.owner.states.append(str(plaquette.rng.bit_generator.state))
        k = len(self.owner.calls)
        out = [prob(env, f"draw{k}.{i}") for i in range(int(size))]
        self.owner.calls.append((loc, scale, out))
        return env.array(out, dtype=float)


class Files:
    """A scratch directory, and read_csv giving symbolic numbers back."""

    def __init__(self, env):
        import plaquette.errors as err

        self.env, self.err = env, err

    def __enter__(self):
        env, err = self.env, self.err
        self.tmp = tempfile.TemporaryDirectory(prefix="c24.")
        import scipy.stats

        self.saved = pd.read_csv, scipy.stats.truncnorm, getattr(err, "truncnorm", None)
        self.stub = scipy.stats.truncnorm = err.truncnorm = TruncNorm(env, err)
        real = pd.read_csv

        def read(*a, **k):
            df = real(*a, **k)
            if not env.symbolic or k.get("dtype") is str:
                return df
            for c in df.columns:
                if c in ("qubit_type", "fabrication", "qubit_id") or df[c].dtype != object:
                    continue
                df[c] = pd.Series([env.core.sx_float(v) if isinstance(v, str) else v for v in df[c]], index=df.index, dtype=object)
            return df

        pd.read_csv = read
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter("ignore")
        return self

    def __exit__(self, *a):
        self.warn.__exit__(*a)
        import scipy.stats

        pd.read_csv, scipy.stats.truncnorm, self.err.truncnorm = self.saved
        self.tmp.cleanup()

    def path(self, name):
        return os.path.join(self.tmp.name, name)

    def write(self, name, header, rows):
        with open(self.path(name), "w") as f:
            for r in [header, *rows]:
                f.write(",".join(str(x) for x in r) + "\n")
        return self.path(name)


def vertices(code):
    from plaquette.codes.latticebase import LogicalVertex

    return [v for v in code.lattice.equbits if not isinstance(v, LogicalVertex)]


def as_dict(code, table):
    """The error data dictionary of a table {error: {qubit: value}}."""
    data = [v.equbit_idx for v in code.lattice.dataqubits]
    stab = [v.equbit_idx for v in code.lattice.stabgens]
    out = {}
    paulis = [k for k in "XYZ" if k in table]
    if paulis:
        out["pauli"] = {q: {k.lower(): table[k][q] for k in paulis} for q in data}
    if "erasure" in table:
        out["erasure"] = {q: {"p": table["erasure"][q]} for q in data}
    if "measurement" in table:
        out["measurement"] = {q: {"p": table["measurement"][q]} for q in stab}
    return out


def compare(env, got, want, what):
    env.check(set(got) == set(want), f"{what}: which errors there are")
    for name in want:
        g = {k if not isinstance(k, tuple) else tuple(int(x) for x in k): v for k, v in got[name].items()}
        env.check(set(g) == set(want[name]), f"{what}: which qubits have {name} errors")
        for q, params in want[name].items():
            env.check(set(g[q]) == set(params), f"{what}: the channels of {name} errors")
            for c, p in params.items():
                env.check(same(env, g[q][c], p), f"{what}: the probability of {name} errors")


def full(want_q, want_g):
    return {**want_q, **want_g}


# ---------------------------------------------------------------------------- configurations


def qubit_config(env, fs, code, names, kinds):
    """A configuration, the CSV file it names, and the table it denotes."""
    vs = vertices(code)
    cfg, table, gauss = {}, {}, []
    user = [n for n, k in zip(names, kinds) if k == "user"]
    path = fs.path("none.csv")
    if user:
        rows = vs if env.pick("rows", ["all", "some"]) == "all" else vs[1::2]
        if env.pick("order", ["same", "reversed"]) == "reversed":
            rows = rows[::-1]
        cells = {(n, v.equbit_idx): prob(env, f"csv.{n}.{v.equbit_idx}") for n in user for v in rows}
        path = fs.write("qubits.csv", ["qubit_id", "qubit_type", *user], [[v.equbit_idx, v.type.value, *(cells[n, v.equbit_idx] for n in user)] for v in rows])
    for n, k in zip(names, kinds):
        if k == "constant":
            p = prob(env, f"const.{n}")
            cfg[n], table[n] = ("constant", p), {v.equbit_idx: p for v in vs}
        elif k == "gaussian":
            m, s = prob(env, f"mean.{n}"), prob(env, f"std.{n}")
            cfg[n] = ("gaussian", m, s)
            table[n] = None
            gauss.append((n, m, s))
        elif k == "user":
            cfg[n], table[n] = ("user",), {v.equbit_idx: cells.get((n, v.equbit_idx), 0.0) for v in vs}
    return (cfg, path), table, gauss


def from_lattice_qubits(env, kind, d, names, kinds):
    from plaquette.errors import ErrorData

    code = make(kind, d)
    vs = vertices(code)
    with Files(env) as fs:
        cfg, table, gauss = qubit_config(env, fs, code, names, kinds)
        errs = ErrorData.from_lattice(code.lattice, qubit_error_config=cfg)
        calls = list(fs.stub.calls)
        for n, m, s in gauss:
            if calls and len(calls) > 0 and not bool(s == 0):
                loc, scale, out = calls.pop(0)
                env.check(land(same(env, loc, m), same(env, scale, s)), "gaussian errors have the configured mean and deviation")
                env.check(len(out) == len(vs), "one gaussian probability per qubit")
                table[n] = {v.equbit_idx: p for v, p in zip(vs, out)}
            else:
                env.check(s == 0, "gaussian errors are drawn from a normal distribution")
                table[n] = {v.equbit_idx: m for v in vs}
        env.check(not calls, "nothing else is drawn")
        env.check([int(q) for q in errs.qubit_errors["qubit_id"]] == [v.equbit_idx for v in vs], "one row per qubit")
        env.check(list(errs.qubit_errors["qubit_type"]) == [v.type.value for v in vs], "the types of the qubits")
        env.check(set(errs.qubit_errors.columns[2:]) == set(table), "one column per configured error")
        for n in table:
            env.check(land(*[same(env, errs.qubit_errors[n][q], p) for q, p in table[n].items()]), "the table holds the configured probabilities")
        compare(env, errs.error_data_dict, as_dict(code, table), "from_lattice")
        errs.check_against_code(code)
        # disabled errors are not simulated
        off = env.pick("disable", [None, *names])
        if off:
            errs.enabled_qubit_errors = set(table) - {off}
            compare(env, errs.error_data_dict, as_dict(code, {k: v for k, v in table.items() if k != off}), "disabled")


def default(env, kind, d):
    from plaquette.errors import ErrorData

    code = make(kind, d)
    with Files(env):
        errs = ErrorData.from_lattice(code.lattice)
        table = {k: {v.equbit_idx: 0.1 for v in vertices(code)} for k in "XYZ"}
        compare(env, errs.error_data_dict, as_dict(code, table), "default")
        both = ErrorData.from_lattice(code.lattice, qubit_error_config=({}, ""), gate_error_config=({}, ""))
        compare(env, both.error_data_dict, {}, "nothing configured")


def gate_targets(code, gate):
    if gate in ("CX", "CZ"):
        return [(s.equbit_idx, e.data.equbit_idx) for s in code.lattice.stabgens for e in s.edges]
    return [s.equbit_idx for s in code.lattice.stabgens]


def from_lattice_gates(env, kind, d, gates, kinds, channels):
    from plaquette.errors import ErrorData

    code = make(kind, d)
    with Files(env) as fs:
        cfg, want, draws = {}, {}, []
        path, rows = fs.path("none.csv"), []
        for g, k in zip(gates, kinds):
            tg = gate_targets(code, g)
            chans = (DOUBLE if g in ("CX", "CZ") else SINGLE)
            if len(gates) > 1 or channels > 1:
                chans = chans[::4] if len(chans) > 3 else chans
            ch = [env.pick(f"ch.{g}.{i}", list(chans[i::channels])) for i in range(channels)]
            if k == "user":
                cfg[g] = ("user",)
                ps = [prob(env, f"csv.{g}.{c}") for c in ch]
                n = env.pick(f"targets.{g}", [1, len(tg)])
                flat = [x for t in tg[:n] for x in (t if isinstance(t, tuple) else (t,))]
                rows.append([g, "|".join(map(str, flat)), "|".join(ch), "|".join(str(p) for p in ps)])
                want[g] = {t: {c.lower(): p for c, p in zip(ch, ps)} for t in tg[:n]}
                continue
            cfg[g], want[g] = [], {t: {} for t in tg}
            for c in ch:
                if k == "constant":
                    p = prob(env, f"const.{g}.{c}")
                    cfg[g].append(("constant", c, p))
                    for t in tg:
                        want[g][t][c.lower()] = p
                else:
                    m, s = prob(env, f"mean.{g}.{c}"), prob(env, f"std.{g}.{c}")
                    cfg[g].append(("gaussian", c, m, s))
                    draws.append((g, c, m, s, tg))
        if rows:
            if env.pick("order", ["same", "reversed"]) == "reversed":
                rows = rows[::-1]
            path = fs.write("gates.csv", ["gate", "on_qubits", "induced_errors", "probs"], rows)
        errs = ErrorData.from_lattice(code.lattice, gate_error_config=(cfg, path))
        calls = list(fs.stub.calls)
        for g, c, m, s, tg in draws:
            if not bool(s == 0):
                env.check(bool(calls), "gaussian errors are drawn from a normal distribution")
                loc, scale, out = calls.pop(0)
                env.check(land(same(env, loc, m), same(env, scale, s)), "gaussian errors have the configured mean and deviation")
                env.check(len(out) == len(tg), "one gaussian probability per gate")
            else:
                out = [m] * len(tg)
            for t, p in zip(tg, out):
                want[g][t][c.lower()] = p
        env.check(not calls, "nothing else is drawn")
        if channels > 1 and env.known(KNOWN):
            # known finding: every channel becomes a table row of its own, and the last row wins
            for g, k in zip(gates, kinds):
                if k != "user":
                    for t in want[g]:
                        (last,) = [x[1].lower() for x in cfg[g]][-1:]
                        want[g][t] = {last: want[g][t][last]}
        compare(env, errs.error_data_dict, want, "from_lattice")
        errs.check_against_code(code)
        off = env.pick("disable", [None, *gates])
        if off:
            errs.enabled_gate_errors = set(gates) - {off}
            compare(env, errs.error_data_dict, {k: v for k, v in want.items() if k != off} if len(gates) > 1 else {}, "disabled")


# ---------------------------------------------------------------------------- tables


def table_frame(env, code, names, tag, subset="all"):
    vs = vertices(code)
    if subset != "all":
        vs = [vs[i] for i in subset]
    table = {n: {v.equbit_idx: prob(env, f"{tag}.{n}.{v.equbit_idx}") for v in vs} for n in names}
    df = pd.DataFrame([(v.equbit_idx, v.type.value) for v in vs], columns=["qubit_id", "qubit_type"])
    for n in names:
        df[n] = pd.Series([table[n][v.equbit_idx] for v in vs], dtype=object if env.symbolic else float)
    return df, table


def gate_frame(env, code, rows, tag):
    """Rows of a gate error table and what they denote: the last row of a gate's qubits wins."""
    recs, want = [], []
    for i, (g, first, count, chans) in enumerate(rows):
        tg = gate_targets(code, g)[first:first + count]
        flat = [x for t in tg for x in (t if isinstance(t, tuple) else (t,))]
        ps = [prob(env, f"{tag}.{i}.{c}") for c in chans]
        recs.append((g, flat, list(chans), ps))
        want.append((g, tg, {c.lower(): p for c, p in zip(chans, ps)}))
    return pd.DataFrame(recs, columns=["gate", "on_qubits", "induced_errors", "probs"]), want


def settle(*wants):
    out = {}
    for want in wants:
        for g, tg, params in want:
            for t in tg:
                out.setdefault(g, {})[t] = params
    return out


ROWS = {"one": [("H", 0, 2, ("X", "Z"))],
        "single": [("M", 0, 1, ("Y",))],
        "overlap": [("R", 0, 2, ("X",)), ("R", 1, 1, ("Y", "Z"))],
        "cx": [("CX", 0, 2, ("XX", "IZ")), ("CZ", 1, 1, ("ZI",)), ("CX", 1, 2, ("YX",))],
        "mixed": [("H", 0, 1, ("Z",)), ("CZ", 0, 2, ("IX", "YI", "ZZ")), ("H", 0, 2, ("X", "Y"))]}


def files(env, kind, d, names, rows):
    """Tables keep their errors when saved and read, when updating from files, and in dictionaries."""
    from plaquette.errors import ErrorData

    code = make(kind, d)
    with Files(env) as fs:
        df, table = table_frame(env, code, names, "t")
        gf, gw = gate_frame(env, code, ROWS[rows], "g")
        if env.pick("order", ["same", "reversed"]) == "reversed":
            df = df.iloc[::-1].reset_index(drop=True)
        with_fab = env.pick("fabrication", [False, True])
        if with_fab:
            df["fabrication"] = ["missing"] + ["available"] * (len(df) - 1)
        want = full(as_dict(code, table), settle(gw))
        errs = ErrorData(qubit_errors=df.copy(), gate_errors=gf.copy())
        compare(env, errs.error_data_dict, want, "tables")
        errs.check_against_code(code)
        q, g = fs.path("q.csv"), fs.path("g.csv")
        errs.save_to_csv(q, g)
        compare(env, errs.error_data_dict, want, "saving changes nothing")
        back = ErrorData.from_csv(q, g)
        compare(env, back.error_data_dict, want, "save_to_csv, from_csv")
        if with_fab:
            env.check(list(back.qubit_errors["fabrication"]) == list(df["fabrication"]), "fabrication errors survive")
        env.check(list(back.qubit_errors["qubit_id"]) == list(df["qubit_id"]) and list(back.qubit_errors["qubit_type"]) == list(df["qubit_type"]), "qubits survive")
        new = ErrorData()
        new.update_from_csv(q, g, overwrite=env.pick("overwrite", [False, True]))
        compare(env, new.error_data_dict, want, "update_from_csv")
        only_q, only_g = ErrorData.from_csv(qubit_error_csv=q), ErrorData.from_csv(gate_error_csv=g)
        compare(env, only_q.error_data_dict, as_dict(code, table), "from_csv of qubit errors")
        compare(env, only_g.error_data_dict, settle(gw), "from_csv of gate errors")


def updates(env, kind, d, names, names2, subset, rows, rows2, overwrite, via):
    """update() replaces what it is given and keeps the rest, or replaces everything."""
    from plaquette.errors import ErrorData

    code = make(kind, d)
    vs = vertices(code)
    with Files(env) as fs:
        start = subset if via == "appended" else "all"
        df, table = table_frame(env, code, names, "t", start)
        gf, gw = gate_frame(env, code, ROWS[rows], "g")
        df2, table2 = table_frame(env, code, names2, "u", "all" if via == "appended" else subset)
        gf2, gw2 = gate_frame(env, code, ROWS[rows2], "h")
        errs = ErrorData(qubit_errors=df, gate_errors=gf)
        which = env.pick("which", ["both", "qubits", "gates"])
        a = df2 if which != "gates" else None
        b = gf2 if which != "qubits" else None
        if via == "csv":
            tmp = ErrorData(qubit_errors=df2.copy(), gate_errors=gf2.copy())
            tmp.save_to_csv(fs.path("q.csv"), fs.path("g.csv"))
            errs.update_from_csv(fs.path("q.csv") if a is not None else None, fs.path("g.csv") if b is not None else None, overwrite=overwrite)
        else:
            errs.update(a, b, overwrite=overwrite)
        have = {q for t in table.values() for q in t}
        if a is not None and overwrite:
            table, have = table2, {q for t in table2.values() for q in t}
        elif a is not None:
            have |= {q for t in table2.values() for q in t}
            table = {n: {q: table2.get(n, {}).get(q, table.get(n, {}).get(q, 0.0)) for q in have} for n in {*table, *table2}}
        gates = settle(gw2) if overwrite and b is not None else settle(gw, gw2) if b is not None else settle(gw)
        every = as_dict(code, {n: {v.equbit_idx: t.get(v.equbit_idx) for v in vs} for n, t in table.items()})
        want = {k: {q: ps for q, ps in v.items() if q in have} for k, v in every.items()}
        compare(env, errs.error_data_dict, full(want, gates), "update")


def columns(env, kind, d, error):
    """add_qubit_error and update_qubit_error change the qubits given, and nothing else."""
    from plaquette.errors import ErrorData

    code = make(kind, d)
    vs = [v.equbit_idx for v in vertices(code)]
    with Files(env):
        names = [n for n in ("X", "measurement", "erasure") if n != error]
        df, table = table_frame(env, code, names, "t")
        errs = ErrorData(qubit_errors=df)
        some = env.pick("qubits", [vs, vs[::-1], vs[:1], vs[1:3][::-1], vs[-2:]])
        ps = [prob(env, f"add{i}") for i in range(len(some))]
        arr = env.pick("as", ["list", "array"])
        errs.add_qubit_error(some if arr == "list" else np.array(some), error, ps if arr == "list" else env.array(ps, dtype=float))
        table[error] = {q: 0.0 for q in vs}
        table[error].update(zip(some, ps))
        compare(env, errs.error_data_dict, as_dict(code, table), "add_qubit_error")
        which = env.pick("update", ["one", "some", "wrong"])
        target = env.pick("column", [error, names[0]])
        if which == "one":
            p = prob(env, "upd")
            errs.update_qubit_error(some[0], target, p)
            table[target][some[0]] = p
        elif which == "some":
            us = [prob(env, f"upd{i}") for i in range(len(some))]
            errs.update_qubit_error(list(some), target, us if arr == "list" else env.array(us, dtype=float))
            table[target].update(zip(some, us))
        else:
            env.raises(ValueError, lambda: errs.add_qubit_error(some, error, ps), "an error which is there is not added again")
            env.raises(ValueError, lambda: errs.add_qubit_error(some, "fabrication", ps), "fabrication errors are not added")
            env.raises(ValueError, lambda: errs.update_qubit_error(some, "fabrication", ps), "fabrication errors are not updated")
            missing = [n for n in QUBIT if n not in table][0]
            env.raises(ValueError, lambda: errs.update_qubit_error(some, missing, ps), "an error which is not there is not updated")
            env.raises(ValueError, lambda: errs.update_qubit_error(list(some), error, ps + ps), "as many probabilities as qubits")
            env.raises(TypeError, lambda: errs.update_qubit_error(some[0], error, ps), "one probability for one qubit")
        compare(env, errs.error_data_dict, as_dict(code, table), "update_qubit_error")


def added_gates(env, kind, d, rows, rows2):
    from plaquette.errors import ErrorData

    code = make(kind, d)
    with Files(env):
        gf, gw = gate_frame(env, code, ROWS[rows], "g")
        errs = ErrorData(gate_errors=gf) if env.pick("start", ["table", "lattice"]) == "table" else None
        if errs is None:
            errs, gw = ErrorData.from_lattice(code.lattice, qubit_error_config=({}, "")), []
        gf2, gw2 = gate_frame(env, code, ROWS[rows2], "h")
        for r in gf2.itertuples():
            errs.add_gate_error(r.gate, r.on_qubits, r.induced_errors, r.probs)
        compare(env, errs.error_data_dict, settle(gw, gw2), "add_gate_error")
        errs.check_against_code(code)


def ranges(env, n):
    """Means, deviations and probabilities are checked."""
    from plaquette.errors import generate_constant_errors, generate_gaussian_errors

    def lim(x):
        return land(x >= 0, x <= 1)

    with Files(env) as fs:
        m = env.real("m", -2, 3) if env.symbolic else float(env.real("m"))
        s = env.real("s", -2, 3) if env.symbolic else float(env.real("s"))
        for fn, args, ok in ((generate_constant_errors, (m,), lim(m)), (generate_gaussian_errors, (m, s), land(lim(m), lim(s)))):
            try:
                out = fn(*args, list(range(n)))
            except ValueError:
                env.check(ok == False, "rejected although it is a probability")  # noqa: E712
                continue
            env.check(ok, "accepted although it is not a probability")
            env.check(len(out) == n, "one probability per qubit")
            calls = fs.stub.calls
            ref = calls[-1][2] if calls else [m] * n
            env.check(land(*[same(env, x, y) for x, y in zip(out, ref)]) if n else True, "the probabilities of the distribution")


def rejected_gates(env, kind="repetition", d=3):
    """Gate errors on the wrong vertices, of unknown gates or with unknown channels are rejected."""
    from plaquette.errors import ErrorData

    code = make(kind, d)
    lat = code.lattice
    data, stab = {q.equbit_idx for q in lat.dataqubits}, {q.equbit_idx for q in lat.stabgens}
    n = len(lat.equbits)
    gate = env.pick("gate", ["H", "R", "M", "CX", "CZ", "h", "X"])
    p = prob(env, "p")
    if gate in ("CX", "CZ"):
        key = (env.pick("a", list(range(n))), env.pick("b", list(range(n))))
        if env.pick("length", [2, 3]) == 3:
            key = key + (0,)
        ch = env.pick("channel", ["ix", "zz", "x", "ii", "XX"])
        ok = len(key) == 2 and key[0] in stab and key[1] in data and ch in ("ix", "zz")
    else:
        key = env.pick("a", list(range(n)))
        ch = env.pick("channel", ["x", "y", "z", "p", "X", "xx"])
        ok = gate in ("H", "R", "M") and key in stab and ch in "xyz"
    ed = {gate: {key: {ch: p}}}
    if ok:
        ErrorData().check_against_code(code, ed)
        env.check(True, "accepted")
    else:
        env.raises((ValueError, IndexError), lambda: ErrorData().check_against_code(code, ed), "errors which cannot be are rejected")


def empty(env, kind, d):
    from plaquette.errors import generate_empty_qubit_errors, generate_empty_qubit_errors_csv

    code = make(kind, d)
    vs = vertices(code)
    with Files(env) as fs:
        names = [n for n in (*QUBIT, "fabrication") if env.pick(f"has {n}", [False, True])]
        if env.pick("unknown", [False, True]):
            env.raises(ValueError, lambda: generate_empty_qubit_errors(code.lattice, names + ["x"]), "unknown errors are rejected")
            return
        df = generate_empty_qubit_errors(code.lattice, names)
        generate_empty_qubit_errors_csv(code.lattice, names, fs.path("e.csv"))
        for t in (df, pd.read_csv(fs.path("e.csv"))):
            env.check(list(t.columns) == ["qubit_id", "qubit_type", *names], "the columns of an empty table")
            env.check(list(zip(t["qubit_id"], t["qubit_type"])) == [(v.equbit_idx, v.type.value) for v in vs], "one row per qubit")
            env.check(all(bool((t[n] == ("available" if n == "fabrication" else 0.0)).all()) for n in names), "no errors in an empty table")


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        w = kw.pop("weight", 10)
        out.append(Job(name, fn, timeout=3000 if th else 500, weight=w, **{"alloc": True, **kw}))

    import itertools

    codes = [("repetition", 3), ("planar", 2)] + ([("five", None), ("toric", 2)] if th else [])
    for kind, d in codes:
        pairs = list(itertools.combinations(QUBIT, 3 if th else 2))
        for names in pairs:
            for kinds in itertools.product(("constant", "gaussian", "user"), repeat=len(names)):
                if not th and kind == "planar" and (kinds[0] == kinds[1] or "constant" in kinds):
                    continue
                add(f"qubits-{kind}-{d}-{'-'.join(names)}-{'-'.join(k[0] for k in kinds)}", from_lattice_qubits, kind=kind, d=d, names=names, kinds=kinds)
    for kind, d in codes + [("five", None)]:
        add(f"default-{kind}-{d}", default, kind=kind, d=d)
        add(f"empty-{kind}-{d}", empty, kind=kind, d=d)
    for kind, d in [("repetition", 3), ("planar", 2)] + ([("five", None)] if th else []):
        for g in ("H", "R", "M", "CX", "CZ"):
            for k in ("constant", "gaussian", "user"):
                for ch in (1, 2):
                    add(f"gates-{kind}-{d}-{g}-{k}-{ch}", from_lattice_gates, kind=kind, d=d, gates=(g,), kinds=(k,), channels=ch, weight=30)
    for gates in [("H", "CX"), ("CZ", "M"), ("CX", "CZ"), ("R", "H")]:
        for kinds in itertools.product(("constant", "gaussian", "user"), repeat=2):
            add(f"gates-{'-'.join(gates)}-{'-'.join(k[0] for k in kinds)}", from_lattice_gates, kind="repetition", d=3, gates=gates, kinds=kinds, channels=1, weight=30)
    for kind, d in codes:
        for rows in ROWS:
            for names in (("X", "Y", "Z"), ("measurement", "Z", "erasure")):
                add(f"files-{kind}-{d}-{rows}-{names[0]}", files, kind=kind, d=d, names=names, rows=rows)
        for over in (False, True):
            for via in ("frame", "csv", "appended"):
                for names, names2, rows, rows2 in ((("X", "Z"), ("X", "Y"), "one", "mixed"), (("measurement", "X"), ("measurement",), "overlap", "cx"), (("erasure",), ("X", "Y", "Z"), "cx", "overlap")):
                    n = len(vertices(make(kind, d)))
                    for i, subset in enumerate(((0, 2), (n - 1, 1), tuple(range(n)))):
                        add(f"update-{kind}-{d}-{'over' if over else 'keep'}-{via}-{names[0]}-{i}", updates, kind=kind, d=d, names=names, names2=names2, subset=subset, rows=rows, rows2=rows2, overwrite=over, via=via)
        for name in QUBIT:
            add(f"columns-{kind}-{d}-{name}", columns, kind=kind, d=d, error=name)
        for a, b in (("one", "mixed"), ("overlap", "cx"), ("cx", "overlap"), ("mixed", "single")):
            add(f"added-{kind}-{d}-{a}-{b}", added_gates, kind=kind, d=d, rows=a, rows2=b)
        add(f"rejected-{kind}-{d}", rejected_gates, kind=kind, d=d)
    for n in (0, 1, 3):
        add(f"ranges-{n}", ranges, n=n)
    return out
