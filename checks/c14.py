"""C14: generate_matrix against closed-form transfer matrices for every short beamline."""
import math

import numpy as np

from mc.core import Harness, require


def drift(L):
    return np.array([[1, L, 0, 0], [0, 1, 0, 0], [0, 0, 1, L], [0, 0, 0, 1.0]])


def focus(k, L):
    """2x2 matrix of u'' = -k u."""
    if k == 0:
        return np.array([[1, L], [0, 1.0]])
    w = math.sqrt(abs(k))
    if k > 0:
        return np.array([[math.cos(w * L), math.sin(w * L) / w], [-w * math.sin(w * L), math.cos(w * L)]])
    return np.array([[math.cosh(w * L), math.sinh(w * L) / w], [w * math.sinh(w * L), math.cosh(w * L)]])


def quad(k, L):
    m = np.zeros((4, 4))
    m[:2, :2] = focus(k, L)
    m[2:, 2:] = focus(-k, L)
    return m


# values of the free parameters
SYMBOLS = ("ka", "kb", "la")
VALUES = ((1.7, -0.6, 0.3), (0.0, -0.6, 0.3), (-1.7, 0, 0.3), (0, 0.0, 1.3), (3e-9, -1e-8, 0.0))
# names that mean something else in the matrices, in SymPy, in Python or in NumPy
NAMES = (("ka", "kb", "la"), ("L", "S", "K1"), ("K1", "L", "I"), ("I", "E", "pi"), ("beta", "gamma", "lambda"), ("Q1.K1", "Q-2", "2L"),
         ("N", "O", "Q"), ("k1", "K", "l"), ("zeta", "def", "a b"), ("a:3", "b,c", "x*y"))
KINDS = (("drift", {"L": 0.75}), ("quadrupole", {"K1": 2.5, "L": 0.4}), ("quadrupole", {"l": 0.2, "k1": -6.0}),
         ("quadrupole", {"K1": "ka", "L": 0.5}), ("drift", {"l": "la"}), ("quadrupole", {"L": "la", "K1": "kb"}),
         ("quadrupole", {"K1": 0.0, "L": 1.25}), ("quadrupole", {"K1": 1, "L": 2, "TILT": 0.0, "group": "g"}),
         ("drift", {"L": 0}), ("quadrupole", {"K1": 1e-8, "L": 0.5}), ("quadrupole", {"K1": -3e-8, "L": 1e-3}),
         ("quadrupole", {"K1": np.float64(4.0), "L": np.float64(0.3)}))


def reference(kind, sym):
    t, p = kind
    p = {k.upper(): sym.get(v, v) if isinstance(v, str) else v for k, v in p.items()}
    return drift(p["L"]) if t == "drift" else quad(p["K1"], p["L"])


def numeric(m):
    return np.array(m.tolist() if hasattr(m, "tolist") else m, dtype=complex)


def agree(got, want, what):
    g = numeric(got)
    require(g.shape == (4, 4), what + ": shape", got=g.shape)
    require(np.all(np.abs(g - want) <= 1e-9 * np.abs(want) + 1e-13 * max(1, np.max(np.abs(want)))), what, got=np.round(g, 12).tolist(),
            want=want.tolist())


def harnesses(tier):
    deep = tier == "thorough"

    def matrix(ch):
        from rsbeams.rslattice.Beamline import StructuredBeamline
        n = ch.pick("elements", (1, 2, 3, 4) if deep else (1, 2, 3), dev=False)
        kinds = [ch.pick("element %d" % i, range(len(KINDS) if i < 3 or not deep else 3), dev=False)
                 if i < 2 or deep else ch.pick("element %d" % i, (0, 1, 3), dev=False) for i in range(n)]
        nest = ch.pick("lines", ("flat", "last in a line", "all in a line", "line twice", "own lines, same name"))
        names = values = None
        if any(isinstance(v, str) and key.upper() in ("K1", "L") for k in kinds for key, v in KINDS[k][1].items()):
            names = ch.pick("names", NAMES if n < 3 or deep else NAMES[:1])
            values = ch.pick("values", VALUES if n < 3 or deep else VALUES[:1])
        rename = dict(zip(SYMBOLS, names or SYMBOLS))
        sym = dict(zip(names or (), values or ()))
        kind = {k: (KINDS[k][0], {key: rename[v] if isinstance(v, str) and key.upper() in ("K1", "L") else v
                                  for key, v in KINDS[k][1].items()}) for k in kinds}
        top = StructuredBeamline("top")
        order = list(kinds)
        for i, k in enumerate(kinds):
            line = top
            if nest == "all in a line" or nest == "line twice" or (nest == "last in a line" and i == n - 1):
                if "s" not in top.lines:
                    top.add_beamline("s")
                line = top.lines["s"]
            elif nest == "own lines, same name":
                top.add_beamline("s%d" % i)
                line = top.lines["s%d" % i]
            t, p = kind[k]
            line.add_element("e" if nest == "own lines, same name" else "e%d" % k, t, dict(p))
        if nest == "line twice":
            top.add_beamline("s")
            order = kinds * 2
        before = [(e.name, dict(e.parameters)) for e in top.get_beamline_elements()]
        each = [reference(kind[k], sym) for k in order]
        total = np.eye(4)
        for m in each:
            total = m @ total
        args = []
        for k in order:
            for key, v in kind[k][1].items():
                if isinstance(v, str) and key.upper() in ("K1", "L") and v not in args:
                    args.append(v)
        cat = ch.pick("concatenate", (True, False))
        for call in (0, 1):     # asking again gives the same
            res = top.generate_matrix(concatenate=cat)
            if args:
                require(isinstance(res, tuple) and len(res) == 2, "function and symbolic matrix", got=type(res))
                f, symbolic = res
                got = f(*[sym[a] for a in args])
                names = {s.name for m in (symbolic if not cat else [symbolic]) for s in m.free_symbols}
                require(names == set(args), "free symbols", got=names, want=args)
            else:
                got = res
            if cat:
                agree(got, total, "matrix of the line")
            else:
                require(len(got) == len(each), "one matrix per element", got=len(got))
                for i, (g, w) in enumerate(zip(got, each)):
                    agree(g, w, "matrix of element %d" % i)
            require([(e.name, dict(e.parameters)) for e in top.get_beamline_elements()] == before,
                    "generate_matrix changed the line")
            if call == 0 and n == 1 and not args and ch.flag("edited in between"):
                # the strength or length of the only element is changed
                ele = next(top.get_beamline_elements())
                ele.parameters["L"] = 0.35
                t, p = kind[kinds[0]]
                p = {k.upper(): v for k, v in p.items()}
                p["L"] = 0.35
                m = drift(0.35) if t == "drift" else quad(p["K1"], 0.35)
                each = [m] * len(order)
                total = np.linalg.matrix_power(m, len(order))
                before = [(e.name, dict(e.parameters)) for e in top.get_beamline_elements()]
            if n > 1:
                break
        ch.observe(np.round(total, 9).tolist(), cat)

    def chain(ch):
        """Longer lines: any repeated pattern of elements, flat or in lines of lines."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        n = ch.pick("elements", (6, 13, 25) + ((8, 40, 70) if deep else ()), dev=False)
        numbers = [i for i, k in enumerate(KINDS) if not any(isinstance(v, str) and key.upper() in ("K1", "L") for key, v in k[1].items())]
        pattern = ch.pick("pattern", ((0, 1), (2, 0, 1, 0), (1, 2), (6, 7, 10), (11, 8, 9, 2, 0)), dev=False)
        free = ch.pick("free strength at", (None,) + ((n // 2,) if n < 20 or deep else ()) + ((0, n - 1) if deep else ()), dev=False)
        shape = ch.pick("lines", ("nested", "flat", "lines of four")[:1 if free is None and not deep else 3], dev=False)
        top = StructuredBeamline("top")
        line, each, value = top, [], -0.35
        for i in range(n):
            if i and i % 4 == 0 and shape != "flat":
                parent = top if shape == "lines of four" else line
                parent.add_beamline("s%d" % i)
                line = parent.lines["s%d" % i]
            t, p = KINDS[numbers[pattern[i % len(pattern)] % len(numbers)]]
            p = {k.upper(): v for k, v in p.items()}
            if t == "quadrupole":
                p["K1"] = p["K1"] / 4          # keeps the numbers of long lines moderate
            if i == free:
                t, p = "quadrupole", {"K1": "kx", "L": 0.3}
            line.add_element("e%d" % i, t, dict(p))
            each.append(drift(p["L"]) if t == "drift" else quad(value if i == free else p["K1"], p["L"]))
        total = np.eye(4)
        for m in each:
            total = m @ total
        cat = ch.pick("concatenate", (True, False), dev=False)
        res = top.generate_matrix(concatenate=cat)
        if free is not None:
            res = res[0](value)
        if cat:
            g = numeric(res)
            require(np.all(np.abs(g - total) <= 1e-9 * max(1, np.max(np.abs(total)))), "matrix of the line", got=np.round(g, 9).tolist(),
                    want=total.tolist())
        else:
            require(len(res) == n, "one matrix per element", got=len(res))
            for i, (g, w) in enumerate(zip(res, each)):
                agree(g, w, "matrix of element %d" % i)
        ch.observe(np.round(total, 6).tolist())

    return [Harness("chain", chain, timeout=120), Harness("matrix", matrix, bound=None if deep else 1)]
