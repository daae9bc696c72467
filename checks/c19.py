"""C19: kinematic.Converter for every input quantity, unit combination, mass, magnitude and history of calls.

The oracle works with 50 digits on the exact value of the given float.  The allowed error is a few roundings multiplied
with the condition number of the question (how much the answer moves when the input moves by one rounding)."""
import contextlib
import io
import re
import sys

import mpmath as mp
import numpy as np
from scipy import constants

from mc.core import Harness, require

mp.mp.dps = 50
E, C = mp.mpf(constants.e), mp.mpf(constants.c)
ME = mp.mpf(constants.physical_constants["electron mass energy equivalent in MeV"][0]) * 10 ** 6
INPUTS = ("momentum", "velocity", "energy", "kenergy", "betagamma", "brho", "beta", "gamma")
FACTOR = {"momentum": E / C, "energy": E, "kenergy": E}          # eV -> SI
CLI = {"momentum": "-p", "velocity": "-v", "energy": "-E", "kenergy": "-KE", "betagamma": "-bg", "brho": "-r", "beta": "-b",
       "gamma": "-g"}
MASSES = {"electron": None, "proton": 938.27208816e6, "alpha": 3.7273794066e9, "light": 1.0}
NORMAL = ("0.3", "1", "0.02", "57.25", "195695.0")
EXTREME = ("1e-6", "1e-4", "3e7", "1e9", "1e12")


def of_betagamma(bg, m):
    g = mp.sqrt(1 + bg * bg)
    b = bg / g
    return {"momentum": bg * m, "velocity": b * C, "energy": g * m, "kenergy": m * bg * bg / (g + 1), "betagamma": bg,
            "brho": bg * m / C, "beta": b, "gamma": g}


def betagamma_of(kind, v, m):
    if kind == "momentum":
        return v / m
    if kind == "brho":
        return v * C / m
    if kind == "betagamma":
        return v
    if kind in ("velocity", "beta"):
        b = v / C if kind == "velocity" else v
        return b / mp.sqrt(1 - b * b)
    g = v if kind == "gamma" else v / m + (1 if kind == "kenergy" else 0)
    return mp.sqrt((g - 1) * (g + 1))


def setup(kind, bg, mass, mass_unit, input_unit):
    """arguments (floats) and the exact mass in eV and betagamma they stand for"""
    m = ME
    margs = None
    if MASSES[mass] is not None:
        margs = MASSES[mass]
        m = mp.mpf(margs)
        if mass_unit == "SI":
            margs = float(m * E / C ** 2)
            m = mp.mpf(margs) * C ** 2 / E
    v = of_betagamma(mp.mpf(bg), m)[kind] * (FACTOR.get(kind, 1) if input_unit == "SI" else 1)
    v = float(v)
    exact = mp.mpf(v) / (FACTOR.get(kind, 1) if input_unit == "SI" else 1)
    return v, margs, m, exact


def tolerance(kind, want, mass_si, m):
    """relative error allowed for each output"""
    g, b = want["gamma"], want["beta"]
    amp = mp.mpf(1)
    if kind in ("velocity", "beta"):
        amp = g ** 2
    elif kind in ("energy", "gamma"):
        amp = 1 / b ** 2 + g / (g - 1)
    # masses in kg and in eV are related by rounded CODATA constants
    return 1e-11 + float(amp) * (2e-9 if mass_si else 4e-15)


def words(s):
    return s.replace(" ", "").replace("*", "").replace("^", "").replace("**", "")


def check(out, case, want):
    kind, v, margs, m, mass, mass_unit, input_unit, output_unit = case
    rel = tolerance(kind, want, mass_unit == "SI" and margs is not None, m)
    for k in INPUTS:
        w = want[k] * (FACTOR.get(k, 1) if output_unit == "SI" else 1)
        got = mp.mpf(float(out[k]))
        require(abs(got - w) <= rel * abs(w), "%s from %s" % (k, kind), got=float(out[k]), want=float(w), case=case)
    if "input_type" in out:
        require(out["input_type"] == kind, "input type", got=out["input_type"], want=kind)
    require(abs(float(out["input"]) - v) <= 1e-15 * abs(v), "reported input", got=out["input"], want=v, case=case)
    wm = margs if margs is not None else float(ME if mass_unit == "eV" else constants.m_e)
    require(abs(float(out["mass"]) - wm) <= 2e-9 * wm, "reported mass", got=out["mass"], want=wm, case=case)
    require(words(out["mass_unit"]) == ("eV/c2" if mass_unit == "eV" else "kg"), "mass unit", got=out["mass_unit"])
    require(words(out["p_unit"]) == ("eV/c" if output_unit == "eV" else "kgm/s"), "momentum unit", got=out["p_unit"])
    require(words(out["e_unit"]) == ("eV" if output_unit == "eV" else "J"), "energy unit", got=out["e_unit"])
    iu = {"momentum": ("eV/c", "kgm/s"), "energy": ("eV", "J"), "kenergy": ("eV", "J"), "velocity": ("m/s", "m/s")}
    if kind in iu:
        require(words(out["input_unit"]) == iu[kind][input_unit == "SI"], "input unit", got=out["input_unit"])


def scrape(text):
    """values and units from the printed report"""
    out = {}
    num = r"([-+0-9.eE]+|nan|inf|None)"
    m = re.search(r"input (\w+) of " + num + r" ?(.*)", text)
    require(m, "report: input line", got=text)
    out["input_type"], out["input"], out["input_unit"] = m.group(1), m.group(2), m.group(3)
    m = re.search(r"mass: " + num + r" (.*)", text)
    require(m, "report: mass line", got=text)
    out["mass"], out["mass_unit"] = m.groups()
    for key, label in (("velocity", "velocity"), ("beta", "beta"), ("gamma", "gamma"), ("momentum", "momentum"),
                       ("betagamma", r"beta \* gamma"), ("energy", "energy"), ("kenergy", "kinetic energy"),
                       ("brho", "Brho")):
        m = re.findall(r"(?m)^\s*" + label + ": " + num + r" ?(.*)$", text)
        require(len(m) == 1, "report: line " + label, got=text)
        out[key] = m[0][0]
        if key == "momentum":
            out["p_unit"] = m[0][1]
        if key in ("energy", "kenergy"):
            require(out.setdefault("e_unit", m[0][1]) == m[0][1], "energy units differ", got=text)
    return out


def printed(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f()
    return r, buf.getvalue()


def harnesses(tier):
    deep = tier == "thorough"

    def make(ch, magnitudes, dev):
        kind = ch.pick("input", INPUTS, dev=dev)
        bg = ch.pick("beta*gamma", magnitudes, dev=dev)
        mass = ch.pick("mass", tuple(MASSES) if deep else tuple(MASSES)[:3], dev=dev)
        mu, iu, ou = (ch.pick(n, ("eV", "SI"), dev=dev) for n in ("mass_unit", "input_unit", "output_unit"))
        v, margs, m, exact = setup(kind, bg, mass, mu, iu)
        if kind in ("velocity", "beta") and mp.mpf(bg) > 10 ** 6:
            return None         # not a question that a double can ask
        if kind in ("energy", "gamma") and mp.mpf(bg) < 10 ** -5:
            return None
        want = of_betagamma(betagamma_of(kind, exact, m), m)
        kw = {kind: v, "mass_unit": mu, "input_unit": iu, "output_unit": ou}
        if margs is not None:
            kw["mass"] = margs
        return (kind, v, margs, m, mass, mu, iu, ou), want, kw

    def values(ch):
        from rsbeams.rsstats import kinematic
        r = make(ch, NORMAL + EXTREME, False)
        if r is None:
            ch.nontrivial = False
            return
        case, want, kw = r
        out = kinematic.Converter(**kw)(silent=True)
        check(out, case, want)
        ch.observe(sorted((k, str(v)) for k, v in out.items()))

    def histories(ch):
        from rsbeams.rsstats import kinematic
        r = make(ch, NORMAL, True)
        case, want, kw = r
        how = ch.pick("interface", ("class", "command line", "array"), dev=False)
        if how == "command line":
            argv = ["kinematic", CLI[case[0]], repr(case[1])]
            if "mass" in kw:
                argv += [ch.pick("mass option", ("-m", "--mass")), repr(kw["mass"])]
            if case[5] != "eV" or ch.flag("mass unit given"):
                argv += ["--mass_unit", case[5]]
            if case[6] != "eV" or ch.flag("unit given"):
                argv += ["--unit", case[6]]
            if case[7] != "eV" or ch.flag("output unit given"):
                argv += ["--output_unit", case[7]]
            old = sys.argv
            try:
                sys.argv = argv
                _, text = printed(kinematic.main)
            finally:
                sys.argv = old
            check(scrape(text), case, want)
            ch.observe(text)
            return
        if how == "array":
            arr = np.array([case[1], case[1]])
            keep = arr.copy()
            kw[case[0]] = arr
        conv = kinematic.Converter(**kw)
        other = kinematic.Converter(gamma=3.0, output_unit="SI", mass=5e6)
        results = []
        for step in range(4 if deep else 3):
            op = ch.pick("then %d" % step, ("call", "print", "other", "spoil result", "new converter"), dev=step > 0)
            if op in ("call", "print"):
                out, text = printed(lambda: conv(silent=op == "call"))
                require((op == "call") == (text.strip() == ""), "silent", got=text)
                if how == "array":
                    require(np.array_equal(arr, keep), "input array changed")
                    require(all(np.shape(out[k]) == (2,) for k in INPUTS), "array results", got=out)
                    for i in (0, 1):
                        check({k: (v[i] if k in INPUTS + ("input",) else v) for k, v in out.items()}, case, want)
                else:
                    check(out, case, want)
                    if op == "print":
                        check(scrape(text), case, want)
                results.append((out, dict(out)))
            elif op == "other":
                o = other(silent=True)
                require(abs(o["energy"] / (15e6 * constants.e) - 1) < 1e-9, "another converter", got=o["energy"])
            elif op == "new converter":
                kinematic.Converter(beta=0.5, input_unit="SI", mass_unit="SI", mass=1e-27)(silent=True)
            elif results:
                for k in list(results[-1][0]):
                    results[-1][0][k] = None
                results.pop()
            for live, was in results:
                require(all(np.all(live[k] == was[k]) for k in was), "a result that was returned has changed", was=was, now=live)
        ch.observe(case[0], how, len(results))

    def refused(ch):
        from rsbeams.rsstats import kinematic
        given = {k: 0.5 if ch.flag(k, dev=False) else None for k in ("momentum", "beta", "gamma", "brho")}
        if given["gamma"]:
            given["gamma"] = 2.0
        n = sum(v is not None for v in given.values())
        zero = ch.flag("momentum is zero", dev=False) and given["momentum"] is not None
        if zero:
            given["momentum"] = 0.0
        units = {u: ch.pick(u, ("eV", "SI", "ev", "MeV", ""), dev=True) for u in ("mass_unit", "input_unit", "output_unit")}
        ok = n == 1 and all(u in ("eV", "SI") for u in units.values())
        how = ch.pick("interface", ("class", "command line"), dev=False)
        buf = io.StringIO()
        old = sys.argv
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            try:
                if how == "class":
                    out = kinematic.Converter(**{k: v for k, v in given.items()}, **units)(silent=True)
                else:
                    sys.argv = ["kinematic"]
                    for k, v in given.items():
                        if v is not None:
                            sys.argv += [CLI[k], repr(v)]
                    for o, u in (("--mass_unit", "mass_unit"), ("--unit", "input_unit"), ("--output_unit", "output_unit")):
                        if units[u] != "eV":
                            sys.argv += [o, units[u]]
                    kinematic.main()
                res = "done"
            except AssertionError:
                res = "assertion"
            except SystemExit as e:
                res = "done" if not e.code else "exit"
            finally:
                sys.argv = old
        if ok:
            require(res == "done", "refused", got=res, given=given, units=units)
            if how == "class" and zero:
                require(out["momentum"] == 0 and out["beta"] == 0 and out["gamma"] == 1 and out["kenergy"] == 0,
                        "particle at rest", got=out)
        else:
            require(res == ("assertion" if how == "class" else "exit"), "accepted", got=res, given=given, units=units)
        ch.observe(res)

    def types(ch):
        """Whole numbers of any type, and arrays of masses."""
        from rsbeams.rsstats import kinematic
        kind = ch.pick("input", INPUTS, dev=False)
        pool = {"velocity": (1, 1000, 10 ** 8, 299792457), "beta": (0,), "gamma": (1, 2, 100000, 10 ** 10, 10 ** 12),
                "betagamma": (0, 1, 3, 100000, 10 ** 10, 10 ** 12), "brho": (0, 1, 2, 10 ** 5, 10 ** 11),
                "energy": (10 ** 9, 10 ** 15, 10 ** 18), "momentum": (0, 1, 1000, 10 ** 9, 10 ** 18),
                "kenergy": (0, 1, 1000, 10 ** 9, 10 ** 18)}[kind]
        v = ch.pick("value", pool, dev=False)
        t = ch.pick("type", ("int", "int64", "int32", "uint64", "array", "array of int32"), dev=False)
        if "32" in t and v > 2 ** 31 - 1:
            ch.nontrivial = False
            return
        x = {"int": int, "int64": np.int64, "int32": np.int32, "uint64": np.uint64, "array": lambda v: np.array([v, v]),
             "array of int32": lambda v: np.array([v, v], dtype=np.int32)}[t](v)
        mass = ch.pick("mass", (None, "int", "float", "array"), dev=False)
        m = ME if mass is None else mp.mpf(938272088)
        kw = {kind: x}
        if mass:
            kw["mass"] = {"int": 938272088, "float": 938272088.0, "array": np.array([938272088.0, 938272088.0])}[mass]
        if kind == "energy" and v < m:
            ch.nontrivial = False
            return
        mu = "eV"
        if mass and ch.flag("mass in kg", dev=False):
            kw["mass"] = np.multiply(kw["mass"], float(E / C ** 2))
            kw["mass_unit"] = mu = "SI"
        out = kinematic.Converter(**kw)(silent=True)
        want = of_betagamma(betagamma_of(kind, mp.mpf(v), m), m)
        rel = tolerance(kind, want, mu == "SI", m) if want["beta"] else 1e-11
        shape = (2,) if "array" in t or mass == "array" else ()
        for k in INPUTS:
            got = np.asarray(out[k], dtype=float)
            same_for_all = k in ("velocity", "beta", "gamma", "betagamma") and kind in ("velocity", "beta", "gamma", "betagamma")
            require(got.shape == shape or same_for_all, "shape of " + k, got=got.shape, want=shape)
            for g in got.reshape(-1):
                require(abs(mp.mpf(float(g)) - want[k]) <= rel * abs(want[k]), "%s from %s" % (k, kind), got=float(g), want=float(want[k]),
                        value=v, type=t)
        require(np.all(np.asarray(out["input"]) == v), "reported input", got=out["input"])
        ch.observe(kind, v, t, mass)

    return [Harness("values", values), Harness("types", types), Harness("histories", histories, bound=4 if deep else 3),
            Harness("refused", refused, bound=2 if deep else 1)]
