"""C25: experiments are configured, saved and run as described."""
import copy
import json
import os
import tempfile
import warnings

import numpy as np

from checks.C24 import DOUBLE, SINGLE, Files, as_dict, compare, gate_targets, prob, same, vertices
from checks.codetools import make
from checks.common import land
from symx.harness import Job

F_ = "plaquette.frontend:"
FUNCTIONS = tuple(F_ + f for f in (
    "CodeConfig.__post_init__", "CodeConfig.from_dict", "CodeConfig.update", "CodeConfig.instantiate", "_QubitErrorMetadata.__post_init__", "_QubitErrorMetadata.from_dict",
    "QubitErrorsConfig.from_dict", "QubitErrorsConfig.simulated_errors", "_GateErrorMetadata.__post_init__", "_GateErrorMetadata.from_dict", "GateErrorsConfig.from_dict",
    "GateErrorsConfig.simulated_errors", "ErrorsConfig.from_dict", "ErrorsConfig.instantiate", "CircuitConfig.instantiate", "DeviceConfig.__post_init__", "DeviceConfig.instantiate",
    "DecoderConfig.__post_init__", "DecoderConfig.instantiate", "ExperimentConfig.from_dict", "ExperimentConfig.as_dict", "ExperimentConfig.load_toml", "ExperimentConfig.load_json",
    "ExperimentConfig.dump_toml", "ExperimentConfig.dump_json", "ExperimentConfig.build", "ExperimentConfig.run", "_validate_config")) + (
    "plaquette.decoders.decoderbase:check_success", "plaquette.device:MeasurementSample.from_code_and_raw_results")
BOUNDS = {"quick": "sizes, rounds and shots arbitrary integers; every code, device and decoder name; every distribution, number of parameters, flag and missing key for one or two errors; runs of 1-3 shots with arbitrary results and corrections",
          "thorough": "also three errors at a time, runs of 5 shots and other codes"}
ASSUMPTIONS = ["toml and json give back the dictionaries of plain values they were given (stub in the symbolic run, the libraries themselves in the replay)",
               "devices and decoders are replaced by stubs giving arbitrary results and corrections"]
PRELOAD = ("plaquette.frontend", "plaquette.decoders", "plaquette.device")
SIZED = ("RotatedPlanarCode", "PlanarCode", "ToricCode", "RepetitionCode")
MAKE = {"RotatedPlanarCode": "make_rotated_planar", "PlanarCode": "make_planar", "ToricCode": "make_toric", "RepetitionCode": "make_repetition",
        "FiveQubitCode": "make_five_qubit", "ShorCode": "make_shor"}


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


def plain(env, x):
    """Only what toml and json can hold."""
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(env, v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(env, v) for v in x)
    return isinstance(x, (str, bool, int, float)) or (env.symbolic and isinstance(x, env.core.SymNum))


def equal(env, a, b):
    """Equality of nested configurations: a condition."""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)):
            return False
        return land(*[equal(env, a[k], b[k]) for k in a])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)):
            return False
        return land(*[equal(env, x, y) for x, y in zip(a, b)]) if len(a) else True
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return type(a) is type(b) and a == b
    return same(env, a, b)


class TextFiles:
    """toml and json dumping to and loading from memory, for symbolic numbers."""

    def __init__(self, env):
        import plaquette.frontend as fe

        self.env, self.fe, self.mem = env, fe, {}

    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="c25.")
        fe, mem, env = self.fe, self.mem, self.env
        self.saved = fe.toml, fe.json
        if env.symbolic:
            class Lib:
                @staticmethod
                def dumps(d, *a, **k):
                    env.check(plain(env, d), "only plain values are saved")
                    key = f"@{len(mem)}@"
                    mem[key] = deep(d)
                    return key

                @classmethod
                def dump(cls, d, f, *a, **k):
                    f.write(cls.dumps(d))

                @staticmethod
                def loads(t, *a, **k):
                    return deep(mem[t.strip()])

                @classmethod
                def load(cls, f, *a, **k):
                    if hasattr(f, "read"):
                        return cls.loads(f.read())
                    with open(f) as h:
                        return cls.loads(h.read())

            fe.toml = fe.json = Lib
        return self

    def __exit__(self, *a):
        self.fe.toml, self.fe.json = self.saved
        self.tmp.cleanup()

    def path(self, name):
        return os.path.join(self.tmp.name, name)


# ---------------------------------------------------------------------------- codes, devices, decoders


def integer(env, name, lo, hi):
    return env.int(name, lo, hi) if env.symbolic else int(env.int(name))


def code_config(env, name):
    """A configuration is accepted iff size and rounds make sense, and makes that code."""
    import plaquette.frontend as fe

    calls = []
    real = fe.LatticeCode

    class Rec:
        def __getattr__(self, attr):
            def fn(*a, **k):
                calls.append((attr, dict(zip(("n_rounds", "size"), a), **k)))
                return "code"

            return fn

    n, s = integer(env, "rounds", -3, 50), integer(env, "size", -3, 50)
    sized = name in SIZED
    how = env.pick("how", ["init", "dict", "dict-no-rounds", "dict-no-size", "update", "float"])
    if how == "float":
        x = env.real("x", 1, 5) if env.symbolic else float(env.real("x"))
        env.raises(ValueError, lambda: fe.CodeConfig(name=name, rounds=x, size=3), "rounds which are no integer are rejected")
        if sized:
            env.raises(ValueError, lambda: fe.CodeConfig(name=name, rounds=1, size=x), "sizes which are no integer are rejected")
        return
    if how == "dict-no-rounds":
        n = 1
    if how == "dict-no-size":
        s = -1
    bad = land(n >= 1, s >= 1) == False if sized else (n >= 1) == False  # noqa: E712
    try:
        if how == "init":
            c = fe.CodeConfig(name=name, rounds=n, size=s)
        elif how == "update":
            c = fe.CodeConfig(name="PlanarCode", rounds=2, size=2)
            c.update(name=name, rounds=n, size=s)
        else:
            d = dict(name=name, rounds=n, size=s)
            d = {k: v for k, v in d.items() if how == "dict" or k != how[8:]}
            c = fe.CodeConfig.from_dict(d)
    except ValueError:
        return env.check(bad, "a sensible size and number of rounds is rejected")
    env.check(bad == False, "a senseless size or number of rounds is accepted")  # noqa: E712
    env.check(equal(env, c.as_dict(), {"name": name, "rounds": n, "size": s if sized else -1}), "the configuration as a dictionary")
    fe.LatticeCode = Rec()
    try:
        c.instantiate()
    finally:
        fe.LatticeCode = real
    env.check(len(calls) == 1 and calls[0][0] == MAKE[name], "the code of that name")
    env.check(equal(env, calls[0][1], {"n_rounds": n, "size": s} if sized else {"n_rounds": n}), "its size and rounds")


def names(env):
    import plaquette.frontend as fe

    bad = env.pick("bad", ["", "clifford2", "planarcode", "PyMatching", None])
    env.raises(ValueError, lambda: fe.CodeConfig.from_dict(dict(name=bad, size=3, rounds=1)), "unknown codes are rejected")
    env.raises(ValueError, lambda: fe.DeviceConfig(name=bad), "unknown devices are rejected")
    env.raises(ValueError, lambda: fe.DecoderConfig(name=bad), "unknown decoders are rejected")
    conf = fe.DecoderConfig(name="UnionFindNoWeights", weighted=False)
    env.raises(ValueError, lambda: conf.update(name=bad), "unknown decoders are rejected")


def device_config(env):
    import plaquette.frontend as fe
    from plaquette import Device

    name = env.pick("name", ["clifford", "stim"])
    shots = integer(env, "shots", -5, 10000)
    how = env.pick("how", ["init", "dict", "default"])
    try:
        c = fe.DeviceConfig(name=name, shots=shots) if how == "init" else fe.DeviceConfig.from_dict(dict(name=name, shots=shots) if how == "dict" else {})
    except ValueError:
        return env.check(shots < 1, "a number of shots is rejected")
    if how == "default":
        name, shots = "clifford", 1024
    env.check(shots >= 1, "no shots are accepted")
    env.check(equal(env, c.as_dict(), {"name": name, "shots": shots}), "the configuration as a dictionary")
    dev = c.instantiate()
    env.check(isinstance(dev, Device) and dev._backend_name == name, "the device of that name")


def decoder_config(env):
    """The decoder of that name, of the code, its errors and with weights as configured."""
    import plaquette.frontend as fe
    from plaquette import decoders
    from plaquette.errors import ErrorData

    name = env.pick("name", ["PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights", "FusionBlossomDecoder"])
    given = env.pick("weighted", [True, False, None])
    how = env.pick("how", ["init", "dict"])
    if given is None:
        c, weighted = (fe.DecoderConfig(name=name), True) if how == "init" else (fe.DecoderConfig.from_dict(dict(name=name)), False)
    else:
        c, weighted = fe.DecoderConfig(name=name, weighted=given) if how == "init" else fe.DecoderConfig.from_dict(dict(name=name, weighted=given)), given
    env.check(c.as_dict() == {"name": name, "weighted": weighted}, "the configuration as a dictionary")
    code = make("planar", 2)
    p, m = prob(env, "p"), prob(env, "m")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ed = ErrorData.from_lattice(code.lattice, qubit_error_config=({"X": ("constant", p), "measurement": ("constant", m)}, "none.csv"))
    calls = []
    cls = getattr(decoders, name)
    had = cls.__dict__.get("from_code")

    def from_code(*a, **k):
        calls.append(dict(zip(("code", "errordata", "weights"), a), **k))
        return "decoder"

    cls.from_code = from_code
    try:
        if name == "UnionFindNoWeights" and weighted:
            return env.raises(ValueError, lambda: c.instantiate(code, ed), "a decoder without weights is not configured with weights")
        dec = c.instantiate(code, ed)
    finally:
        if had is None:
            del cls.from_code
        else:
            cls.from_code = had
    env.check(dec == "decoder" and len(calls) == 1, "the decoder of that name")
    env.check(calls[0]["code"] is code, "a decoder of the code")
    env.check(calls[0].get("weighted") is weighted and calls[0].get("weights") is None, "weights as configured")
    compare(env, calls[0]["errordata"], as_dict(code, {"X": {v.equbit_idx: p for v in vertices(code)}, "measurement": {v.equbit_idx: m for v in vertices(code)}}), "the decoder's errors")


# ---------------------------------------------------------------------------- errors


def qubit_meta(env, tag, full=True):
    """Metadata of one qubit error, and what it denotes (None: not simulated, 'bad': rejected)."""
    dist = env.pick(f"{tag}.dist", ["user", "constant", "gaussian", "uniform"]) if full else env.pick(f"{tag}.dist", ["absent", "constant"])
    if dist == "absent":
        return None, None
    count = env.pick(f"{tag}.n", [0, 1, 2, 3]) if full else 1
    ps = [prob(env, f"{tag}.p{i}") for i in range(count)]
    d = {"distribution": dist}
    if count or env.pick(f"{tag}.params?", [True, False]):
        d["params"] = list(ps)
    en = env.pick(f"{tag}.enabled", [True, False, None]) if full else True
    if en is not None:
        d["enabled"] = en
    need = {"user": 0, "constant": 1, "gaussian": 2}
    if need.get(dist) != count:
        return d, "bad"
    return d, None if en is False else (dist, *ps)


def qubit_config(env, labels):
    import plaquette.frontend as fe

    conf, want, bad = {}, {}, False
    for i, lab in enumerate(labels):
        d, w = qubit_meta(env, lab, i == 0)
        if d is not None:
            conf[lab] = d
        if w == "bad":
            bad = True
        elif w is not None:
            want[lab] = w
    samp = env.pick("sample", [True, False, None])
    if samp is not None:
        conf["sample"] = samp
    given = copy.deepcopy(conf) if not env.symbolic else deep(conf)
    if bad:
        return env.raises(ValueError, lambda: fe.QubitErrorsConfig.from_dict(conf), "impossible distributions are rejected")
    c = fe.QubitErrorsConfig.from_dict(conf)
    again = fe.QubitErrorsConfig.from_dict(conf)
    back = fe.QubitErrorsConfig.from_dict(deep(c.as_dict()))
    for x, what in ((c, "from_dict"), (again, "from_dict again"), (back, "from_dict of as_dict")):
        got = x.simulated_errors
        if samp is False:
            env.check(got is None, f"{what}: nothing is sampled")
        else:
            env.check(equal(env, got[0], want), f"{what}: the errors simulated")
            env.check(got[1] == "qubit_errors.csv", f"{what}: the default path")
        full = x.as_dict()
        for lab in given:
            if lab != "sample":
                env.check(land(full[lab]["distribution"] == given[lab]["distribution"], equal(env, full[lab]["params"], given[lab].get("params", [])), full[lab]["enabled"] is given[lab].get("enabled", True)), f"{what}: the error's metadata")
    both = fe.ErrorsConfig.from_dict({"qubit_errors": conf})
    env.check(both.simulated_errors[1] is None, "no gate errors if there are none")
    code = make("repetition", 3)
    with Files(env) as fs:
        ed = both.instantiate(code.lattice)
        calls = [c_[2] for c_ in fs.stub.calls]
        table = {}
        for lab, w in (want if samp is not False else {}).items():
            vs = [v.equbit_idx for v in vertices(code)]
            if w[0] == "constant":
                table[lab] = {q: w[1] for q in vs}
            elif w[0] == "gaussian":
                table[lab] = dict(zip(vs, calls.pop(0))) if calls else {q: w[1] for q in vs}
            else:
                table[lab] = {q: 0.0 for q in vs}
        compare(env, ed.error_data_dict, as_dict(code, table), "the error data of the configuration")


def gate_meta(env, tag, gate, full):
    chans = DOUBLE[:5] if gate in ("CX", "CZ") else SINGLE
    dist = env.pick(f"{tag}.dist", ["user", "list"]) if full else env.pick(f"{tag}.dist", ["absent", "list"])
    if dist == "absent":
        return None, None
    d, bad, want = {}, False, None
    en = env.pick(f"{tag}.enabled", [True, False, None]) if full else True
    if en is not None:
        d["enabled"] = en
    if dist == "user":
        d["distribution"] = "user"
        if env.pick(f"{tag}.extra", [False, True]):
            d["induced_errors"], d["params"] = [chans[0]], [[prob(env, f"{tag}.p")]]
            return d, "bad"
        return d, None if en is False else ("user",)
    n = env.pick(f"{tag}.n", [1, 2]) if full else 1
    d["distribution"] = [env.pick(f"{tag}.d{i}", ["constant", "gaussian", "uniform"] if full and i == 0 else ["constant"]) for i in range(n)]
    d["induced_errors"] = [env.pick(f"{tag}.c0", [*chans, "x", "XYZ"] if full else [chans[0]])] + [chans[1]] * (n - 1)
    d["params"] = [[prob(env, f"{tag}.p{i}.{j}") for j in range(env.pick(f"{tag}.n{i}", [1, 2, 0]) if full and i == 0 else 1)] for i in range(n)]
    if full and env.pick(f"{tag}.short", [False, True]):
        d["params"] = d["params"][1:]
        return d, "bad"
    for x, c, p in zip(d["distribution"], d["induced_errors"], d["params"]):
        if c in ("x", "XYZ") or {"constant": 1, "gaussian": 2}.get(x) != len(p):
            return d, "bad"
    return d, None if en is False else [(x, c, *p) for x, c, p in zip(d["distribution"], d["induced_errors"], d["params"])]


def gate_config(env, labels):
    import plaquette.frontend as fe

    conf, want, bad = {}, {}, False
    for i, lab in enumerate(labels):
        d, w = gate_meta(env, lab, lab, i == 0)
        if d is not None:
            conf[lab] = d
        if w == "bad":
            bad = True
        elif w is not None:
            want[lab] = w
    samp = env.pick("sample", [True, False, None])
    if samp is not None:
        conf["sample"] = samp
    given = deep(conf)
    if bad:
        return env.raises(ValueError, lambda: fe.GateErrorsConfig.from_dict(conf), "impossible gate errors are rejected")
    c = fe.GateErrorsConfig.from_dict(conf)
    again = fe.GateErrorsConfig.from_dict(conf)
    back = fe.GateErrorsConfig.from_dict(deep(c.as_dict()))
    for x, what in ((c, "from_dict"), (again, "from_dict again"), (back, "from_dict of as_dict")):
        got = x.simulated_errors
        if not samp:
            env.check(got is None, f"{what}: nothing is sampled")
        else:
            env.check(equal(env, got[0], want), f"{what}: the errors simulated")
            env.check(got[1] == "gate_errors.csv", f"{what}: the default path")
        full = x.as_dict()
        for lab in given:
            if lab != "sample":
                env.check(land(equal(env, full[lab]["distribution"], given[lab]["distribution"]), equal(env, full[lab]["params"], given[lab].get("params", [])),
                               equal(env, full[lab]["induced_errors"], given[lab].get("induced_errors", [])), full[lab]["enabled"] is given[lab].get("enabled", True)), f"{what}: the error's metadata")
    both = fe.ErrorsConfig.from_dict({"gate_errors": conf})
    env.check(both.simulated_errors[0] is not None and both.simulated_errors[0][0] == {}, "no qubit errors if there are none")
    if not samp or any(len(w) > 1 for w in want.values() if isinstance(w, list)) or any(w == ("user",) for w in want.values()):
        return  # several channels: see C24
    code = make("repetition", 3)
    with Files(env) as fs:
        ed = both.instantiate(code.lattice)
        calls = [c_[2] for c_ in fs.stub.calls]
        out = {}
        for lab, ((x, ch, *ps),) in want.items():
            tg = gate_targets(code, lab)
            vals = [ps[0]] * len(tg) if x == "constant" or not calls else calls.pop(0)
            out[lab] = {t: {ch.lower(): v} for t, v in zip(tg, vals)}
        compare(env, ed.error_data_dict, out, "the error data of the configuration")


def csv_paths(env):
    """A configured file is loaded; one which is not there is rejected."""
    import plaquette.frontend as fe

    code = make("repetition", 3)
    vs = vertices(code)
    with Files(env) as fs:
        cells = {v.equbit_idx: prob(env, f"x{v.equbit_idx}") for v in vs}
        q = fs.write("q.csv", ["qubit_id", "qubit_type", "X"], [[v.equbit_idx, v.type.value, cells[v.equbit_idx]] for v in vs])
        h = [prob(env, f"h{i}") for i in range(2)]
        tg = gate_targets(code, "CX")[1:3]
        g = fs.write("g.csv", ["gate", "on_qubits", "induced_errors", "probs"], [["CX", "|".join(f"{a}|{b}" for a, b in tg), "XI|ZZ", "|".join(str(x) for x in h)]])
        load = env.pick("load_file", [True, False, None])
        there = env.pick("there", ["yes", "no file", "no directory"])
        conf = {"qubit_errors": {"data_path": q, "X": {"distribution": "user"}}, "gate_errors": {"data_path": g, "sample": True, "CX": {"distribution": "user"}}}
        which = env.pick("which", ["qubit_errors", "gate_errors"])
        if load is not None:
            for v in conf.values():
                v["load_file"] = load
        if there != "yes":
            conf[which]["data_path"] = fs.path("missing.csv") if there == "no file" else fs.path("missing/x.csv")
        if there == "no directory" or (there == "no file" and load is not False):
            return env.raises((FileNotFoundError, NotADirectoryError), lambda: fe.ErrorsConfig.from_dict(conf), "files which are not there are rejected")
        ed = fe.ErrorsConfig.from_dict(conf).instantiate(code.lattice)
        table = {"X": {k: (cells[k] if there == "yes" or which != "qubit_errors" else 0.0) for k in cells}}
        gates = {"CX": {t: {"xi": h[0], "zz": h[1]} for t in tg}} if there == "yes" or which != "gate_errors" else {}
        compare(env, ed.error_data_dict, {**as_dict(code, table), **gates}, "errors from files")


def circuit_config(env):
    """The generated circuit of code and errors, or the one provided."""
    import plaquette.frontend as fe
    from plaquette.errors import ErrorData

    with Files(env) as fs:
        p = prob(env, "p")
        text = f"H 0 1\nE_PAULI {p} 0.0 0.0 1\nCX 0 1\nM 0 1"
        with open(fs.path("c.txt"), "w") as f:
            f.write(text)
        prov = env.pick("provided", [True, False, None])
        errs = env.pick("has_errors", [True, False, None])
        d = {"circuit_path": fs.path("c.txt")}
        if prov is not None:
            d["circuit_provided"] = prov
        if errs is not None:
            d["has_errors"] = errs
        c = fe.CircuitConfig.from_dict(dict(d))
        env.check(c.as_dict() == {"circuit_path": fs.path("c.txt"), "circuit_provided": bool(prov), "has_errors": bool(errs)}, "the configuration as a dictionary")
        code = make("planar", 2)
        ed = ErrorData.from_lattice(code.lattice, qubit_error_config=({"X": ("constant", p)}, "none.csv"))
        if prov:
            if not errs:
                return env.raises(NotImplementedError, lambda: c.instantiate(code, ed, "X"), "no errors are inserted")
            circ = c.instantiate(code, ed, "X")
            env.check([n for n, _ in circ.gates] == ["H", "E_PAULI", "CX", "M"], "the circuit provided")
            env.check(same(env, circ.gates[1][1][0], p), "the circuit provided")
            gone = dict(d, circuit_path=fs.path("gone.txt"))
            return env.raises(FileNotFoundError, lambda: fe.CircuitConfig.from_dict(gone), "circuits which are not there are rejected")
        env.raises(ValueError, lambda: c.instantiate(None, ed, "X"), "no circuit without a code")
        env.raises(ValueError, lambda: c.instantiate(code, None, "X"), "no circuit without errors")
        op = env.pick("op", ["X", "Z"])
        circ = c.instantiate(code, ed, op)
        ref = fe.generator.generate_qec_circuit(code, ed.qubit_errors_dict, ed.gate_errors_dict, op)
        env.check(len(circ.gates) == len(ref.gates) and all(a[0] == b[0] for a, b in zip(circ.gates, ref.gates)), "the circuit of the code and its errors")
        env.check(land(*[equal(env, a[1], b[1]) for a, b in zip(circ.gates, ref.gates)]), "the circuit of the code and its errors")


# ---------------------------------------------------------------------------- experiments


def experiment(env, name, size):
    """Configurations survive being saved and loaded; missing parts have their defaults."""
    import plaquette.frontend as fe

    with TextFiles(env) as tf:
        p, q = prob(env, "p"), prob(env, "q")
        rounds = env.pick("rounds", [1, 3])
        conf = {"code": {"name": name, "rounds": rounds}, "errors": {}}
        if size:
            conf["code"]["size"] = size
        if env.pick("errors", [True, False]):
            conf["errors"] = {"qubit_errors": {"X": {"distribution": "constant", "params": [p]}, "Z": {"distribution": "gaussian", "params": [q, p], "enabled": False}},
                              "gate_errors": {"sample": True, "CZ": {"distribution": ["constant", "gaussian"], "induced_errors": ["XX", "IZ"], "params": [[q], [p, q]]},
                                              "fabrication": {"distribution": "user", "enabled": False}}}
        extra = {"general": {"logical_op": "Z", "qec_property": ["logical_error_rate"], "seed": 7}, "device": {"name": "stim", "shots": 11},
                 "decoder": {"name": "UnionFindDecoder", "weighted": False}, "circuit": {"circuit_provided": False, "has_errors": True}}
        default = {"general": {"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 12345}, "device": {"name": "clifford", "shots": 1024},
                   "decoder": {"name": "PyMatchingDecoder", "weighted": False}, "circuit": {"circuit_provided": False, "has_errors": False}}
        want = {}
        for k in extra:
            if env.pick(k, [True, False]):
                conf[k] = extra[k]
                want[k] = extra[k]
            else:
                want[k] = default[k]
        exp = fe.ExperimentConfig.from_dict(deep(conf))
        first = exp.as_dict()
        env.check(equal(env, first["code"], conf["code"]), "the code of the configuration")
        for k in want:
            env.check(all(first[k].get(x) == v for x, v in want[k].items()), "the other parts of the configuration")
        if conf["errors"]:
            e = first["errors"]
            env.check(equal(env, e["qubit_errors"]["X"], {"distribution": "constant", "params": [p], "enabled": True}), "qubit errors of the configuration")
            env.check(equal(env, e["qubit_errors"]["Z"], {"distribution": "gaussian", "params": [q, p], "enabled": False}), "disabled errors of the configuration")
            env.check(equal(env, e["gate_errors"]["CZ"]["params"], [[q], [p, q]]), "gate errors of the configuration")
            env.check(e["gate_errors"]["fabrication"]["distribution"] == "user", "gate fabrication of the configuration")
        fmt = env.pick("format", ["toml", "json"])
        getattr(exp, "dump_" + fmt)(tf.path("a." + fmt))
        back = getattr(fe.ExperimentConfig, "load_" + fmt)(tf.path("a." + fmt))
        env.check(equal(env, back.as_dict(), first), "saving and loading keeps the configuration")
        env.check(equal(env, exp.as_dict(), first), "saving changes nothing")
        env.check(exp.validate() is True and back.validate() is True, "a configuration which was read is valid")


def invalid(env):
    import jsonschema
    import plaquette.frontend as fe

    good = {"code": {"name": "PlanarCode", "rounds": 1, "size": 3}, "errors": {}, "device": {"name": "stim", "shots": 4}, "decoder": {"name": "PyMatchingDecoder"},
            "general": {"logical_op": "X", "qec_property": ["logical_error_rate"], "seed": 1}}
    part, key, val = env.pick("what", [("code", "name", "Planar"), ("code", "rounds", 0), ("code", "rounds", "1"), ("code", "size", 0), ("device", "name", "ibm"), ("device", "shots", 0),
                                       ("decoder", "name", "Best"), ("general", "logical_op", "Y"), ("general", "seed", "x"), ("general", "qec_property", ["fidelity"]), ("code", None, None), ("errors", None, None)])
    with TextFiles(env) as tf:
        d = deep(good)
        if key is None:
            del d[part]
        else:
            d[part][key] = val
        for fmt, lib in (("toml", fe.toml), ("json", fe.json)):
            for x, ok in ((d, False), (good, True)):
                with open(tf.path("x"), "w") as f:
                    f.write(lib.dumps(x))
                load = getattr(fe.ExperimentConfig, "load_" + fmt)
                if ok:
                    env.check(load(tf.path("x")).validate() is True, "a valid configuration is accepted")
                else:
                    env.raises((jsonschema.ValidationError, ValueError), lambda: load(tf.path("x")), "an invalid configuration is rejected")


class StubDevice:
    def __init__(self, env, raws, erasures):
        self._backend_name = "clifford"
        self.env, self.raws, self.erasures, self.ran, self.read = env, raws, erasures, [], 0

    def run(self, circuit):
        self.ran.append(circuit)

    def get_sample(self):
        self.env.check(len(self.ran) == self.read + 1, "every sample is of a run of its own")
        i = self.read
        self.read += 1
        return self.raws[i], self.erasures[i]


class StubDecoder:
    def __init__(self, env, corrections):
        self.env, self.corrections, self.seen = env, corrections, []

    def decode(self, erased, syndrome, **k):
        self.seen.append((erased, syndrome))
        return self.corrections[len(self.seen) - 1]


def run(env, kind, name, d, rounds, shots, op):
    """The rate is the fraction of shots whose correction does not predict the toggle."""
    import plaquette.frontend as fe
    from plaquette.circuit import Circuit
    from plaquette.decoders.decoderbase import check_success
    from plaquette.device import MeasurementSample

    conf = {"code": dict({"name": name, "rounds": rounds}, **({"size": d} if d else {})), "errors": {}, "device": {"name": "clifford", "shots": shots},
            "general": {"logical_op": op, "qec_property": ["logical_error_rate"], "seed": 3}}
    exp = fe.ExperimentConfig.from_dict(conf)
    exp.build_code()
    code = exp.code
    n, s = code.n_data_qubits, code.n_stabgens
    circ = Circuit.from_str("M 0")
    w = sum(1 for e in [v for v in code.lattice.logical_ops][0 if op == "X" else 1].edges)
    m = 2 * w + s * (rounds + 1)
    raws = [env.array([env.bit(f"r{t}.{i}") for i in range(m)]) for t in range(shots)]
    ers = [env.array([env.bit(f"e{t}.{i}") for i in range(rounds * n)], dtype=bool) for t in range(shots)]
    cor = [env.array([env.bit(f"c{t}.{i}") for i in range(2 * n)] + [0]) for t in range(shots)]
    exp._circuit, exp._device, exp._decoder = circ, StubDevice(env, raws, ers), StubDecoder(env, cor)
    saved = fe.tqdm
    fe.tqdm = lambda x, *a, **k: x
    try:
        rate = exp.run()
    finally:
        fe.tqdm = saved
    env.check(len(exp._device.ran) == exp._device.read == shots and all(c is circ for c in exp._device.ran), "as many runs of the circuit as shots")
    env.check(len(exp._decoder.seen) == shots, "one decoding per shot")
    fails = 0
    for t in range(shots):
        res = MeasurementSample.from_code_and_raw_results(code, raws[t], ers[t])
        er, sy = exp._decoder.seen[t]
        env.check(land(*[a == b for a, b in zip(np.ravel(er), np.ravel(res.erased_qubits))], *[a == b for a, b in zip(np.ravel(sy), np.ravel(res.syndrome))]), "the decoder sees the shot's erasures and syndrome")
        env.check(np.shape(er) == np.shape(res.erased_qubits) and np.shape(sy) == np.shape(res.syndrome), "the decoder sees all rounds")
        ok = check_success(code, cor[t], res.logical_op_toggle, op)
        if not bool(ok):
            fails += 1
    env.check(abs(rate - fails / shots) < 1e-12, "the rate is the fraction of failed shots")


def built(env, kind, name, d):
    """build() makes everything from the configuration, with the seed; results are the same again."""
    import plaquette
    import plaquette.frontend as fe

    seed = env.pick("seed", [0, 12345])
    p = prob(env, "p")
    order = []
    conf = {"code": dict({"name": name, "rounds": 2}, **({"size": d} if d else {})), "errors": {"qubit_errors": {"X": {"distribution": "constant", "params": [p]}, "Z": {"distribution": "gaussian", "params": [0.25, 0.5]}}},
            "device": {"name": "clifford", "shots": 2}, "decoder": {"name": "UnionFindNoWeights", "weighted": False}, "general": {"logical_op": "Z", "qec_property": ["logical_error_rate"], "seed": seed}}
    saved = plaquette.rng
    try:
        with Files(env) as fs:
            exp = fe.ExperimentConfig.from_dict(conf)
            for a in ("errors", "circuit", "decoder"):
                env.raises(ValueError, lambda: getattr(exp, a), "what was not built is not there")
            exp.build()
            order.append(plaquette.rng)
            env.check(len(fs.stub.calls) == 1, "the gaussian errors are drawn once")
            env.check(fs.stub.states == [str(np.random.default_rng(seed).bit_generator.state)], "the errors are drawn with the seeded generator")
            code = exp.code
            ref = make(kind, d, 2)
            env.check(code.n_rounds == 2 and code.n_data_qubits == ref.n_data_qubits and code.n_stabgens == ref.n_stabgens, "the code")
            table = {"X": {v.equbit_idx: p for v in vertices(code)}, "Z": {v.equbit_idx: x for v, x in zip(vertices(code), fs.stub.calls[0][2])}}
            compare(env, exp.errors.error_data_dict, as_dict(code, table), "the errors")
            gen = fe.generator.generate_qec_circuit(ref, exp.errors.qubit_errors_dict, exp.errors.gate_errors_dict, "Z")
            env.check(len(gen.gates) == len(exp.circuit.gates), "the circuit")
            env.check(land(*[a[0] == b[0] and equal(env, a[1], b[1]) for a, b in zip(gen.gates, exp.circuit.gates)]), "the circuit")
            env.check(exp.device._backend_name == "clifford", "the device")
            env.check(type(exp.decoder).__name__ == "UnionFindNoWeights", "the decoder")
            state = plaquette.rng.bit_generator.state
            env.check(str(state) == str(np.random.default_rng(seed).bit_generator.state), "the generator starts from the seed")
    finally:
        plaquette.rng = saved


def jobs(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, /, **kw):
        w = kw.pop("weight", 10)
        out.append(Job(name, fn, timeout=3000 if th else 500, weight=w, **{"alloc": True, **kw}))

    for c in MAKE:
        add(f"code-{c}", code_config, name=c)
    add("names", names)
    add("device", device_config)
    add("decoder", decoder_config)
    import itertools

    q = ("X", "Y", "Z", "erasure", "measurement", "fabrication")
    for a in q[:5]:
        add(f"qubits-{a}", qubit_config, labels=(a,))
    for a, b in itertools.permutations(q[:5], 2):
        if th or (a, b) in (("X", "Z"), ("measurement", "Y"), ("erasure", "X")):
            add(f"qubits-{a}-{b}", qubit_config, labels=(a, b))
    gates = ("CZ", "CX", "H", "R", "M")
    for a in gates:
        add(f"gates-{a}", gate_config, labels=(a,), weight=20)
    for a, b in itertools.permutations(gates, 2):
        if th or (a, b) in (("CX", "H"), ("R", "CZ"), ("M", "R")):
            add(f"gates-{a}-{b}", gate_config, labels=(a, b), weight=30)
    add("csv-paths", csv_paths)
    add("circuit", circuit_config)
    for name, size in (("RotatedPlanarCode", 3), ("PlanarCode", 2), ("FiveQubitCode", None)) + ((("ToricCode", 2), ("RepetitionCode", 5), ("ShorCode", None)) if th else ()):
        add(f"experiment-{name}", experiment, name=name, size=size)
    add("invalid", invalid)
    for kind, name, d, rounds in (("planar", "PlanarCode", 2, 1), ("repetition", "RepetitionCode", 3, 2), ("five", "FiveQubitCode", None, 1)) + ((("rotated", "RotatedPlanarCode", 3, 1),) if th else ()):
        for op in ("X", "Z"):
            for shots in (1, 3) + ((5,) if th else ()):
                add(f"run-{name}-{op}-{shots}", run, kind=kind, name=name, d=d, rounds=rounds, shots=shots, op=op, weight=20)
    for kind, name, d in (("planar", "PlanarCode", 2), ("repetition", "RepetitionCode", 3)) + ((("rotated", "RotatedPlanarCode", 3),) if th else ()):
        add(f"built-{name}", built, kind=kind, name=name, d=d)
    return out
