"""C20: statistics of 6D distributions (rsstats.stats6d) under every short sequence of operations."""
import math
from fractions import Fraction

import numpy as np

from mc.core import Harness, require

GOLD = (math.sqrt(5) - 1) / 2


def table(n):
    """6 x n values without any pattern, fixed"""
    i, j = np.meshgrid(np.arange(6), np.arange(n), indexing="ij")
    return np.sin(1.0 + 3.7 * i + 2.3 * j + i * i * j * GOLD)


def make(kind, n):
    a = table(n)
    if kind == "correlated":
        a[1] += 0.8 * a[0]
        a[5] -= 2 * a[2]
        a[3] += a[4]
    elif kind == "offset":
        a += np.array([1e3, -1e3, 10, 0, 5e4, -1])[:, None]
    elif kind == "scales":
        a *= np.array([1e-6, 1e-3, 1, 1e3, 1e-9, 1e6])[:, None]
    elif kind == "constant coordinate":
        a[3] = 2.5
    elif kind == "zeros":
        a[:] = 0
    elif kind == "equal particles":
        a[:] = a[:, :1]
    elif kind == "first particle far":
        a[:, 0] += 100
    elif kind == "last particle far":
        a[:, -1] -= 100
    elif kind == "integers":
        a = np.round(a * 4)
    return a


def layout(a, how):
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "every second":
        b = np.full((6, 2 * a.shape[1]), 7.0)
        b[:, ::2] = a
        return b[:, ::2]
    if how == "transposed rows":
        return np.ascontiguousarray(a.T).T
    return a.copy()


KINDS = ("plain", "correlated", "offset", "scales", "constant coordinate", "zeros", "equal particles", "first particle far",
         "last particle far", "integers")
READS = ("calc_avg6d", "calc_variance6d", "calc_rms6d", "calc_min6d", "calc_max6d", "calc_correlations6d")
CHANGES = ("sub_avg6d", "normalize_rms6d", "rm_correlations6d")


def cov(a):
    L = a.astype(np.longdouble)
    m = L.mean(axis=1)
    d = L - m[:, None]
    return m, d @ d.T / a.shape[1]


def near(got, want, scale, what, **k):
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    require(g.shape == w.shape, what + ": shape", got=g.shape, want=w.shape)
    require(np.all(np.abs(g - w) <= scale), what, got=g, want=w, **k)


def harnesses(tier):
    deep = tier == "thorough"

    def large(ch):
        """More particles, two operations."""
        operations(ch, (129, 1030) + ((10007,) if deep else ()), 2)

    def operations(ch, sizes=None, steps=4 if deep else 3):
        from rsbeams.rsstats import stats6d
        n = ch.pick("particles", sizes or (7, 1, 2, 3, 8, 20), dev=not sizes)
        kind = ch.pick("distribution", KINDS, dev=False)
        how = ch.pick("layout", ("plain", "fortran", "every second", "transposed rows"))
        model = make(kind, n)
        a = layout(model, how)
        model = model.copy()
        ops = []
        for step in range(steps):
            op = ch.pick("operation %d" % step, READS + CHANGES, dev=False)
            ops.append(op)
            m, c = cov(model)
            v = np.maximum(np.diag(c), 0)
            big = np.max(np.abs(model), axis=1).astype(float) + 1e-300
            if op == "normalize_rms6d" and np.any(np.sqrt(v) < 1e-7 * big):
                ops.pop()       # a coordinate without spread cannot be normalised
                continue
            res = getattr(stats6d, op)(a)
            if op in READS:
                require(np.array_equal(a, model), op + " changed the particles", before=model, now=a)
            if op == "calc_avg6d":
                near(res, m, 1e-13 * big, "average")
            elif op == "calc_variance6d":
                near(res, v, 1e-11 * v + 1e-13 * big * np.sqrt(v) + 1e-26 * big ** 2, "variance", ops=ops)
            elif op == "calc_rms6d":
                near(res, np.sqrt(v), 1e-11 * np.sqrt(v) + 1e-13 * big, "rms", ops=ops)
            elif op == "calc_min6d":
                near(res, model.min(axis=1), 0, "minimum")
            elif op == "calc_max6d":
                near(res, model.max(axis=1), 0, "maximum")
            elif op == "calc_correlations6d":
                s = np.sqrt(v)
                near(res, c, 1e-11 * np.outer(s, s) + 1e-13 * (np.outer(big, s) + np.outer(s, big)) + 1e-26 * np.outer(big, big),
                     "correlations", ops=ops)
            else:
                require(a.shape == model.shape, "shape", got=a.shape)
                if op == "sub_avg6d":
                    near(a, model - m[:, None], 1e-13 * big[:, None], "deviation from the average", ops=ops)
                elif op == "normalize_rms6d":
                    near(a, model / np.sqrt(v)[:, None], 1e-10 * np.abs(model / np.sqrt(v)[:, None]) + 1e-300, "normalised", ops=ops)
                else:
                    # an orthogonal change of the coordinates ...
                    top = np.max(big)
                    near(a.T @ a, model.T @ model, 1e-12 * top ** 2 * 6, "lengths and angles of the particles", ops=ops)
                    # ... after which no two coordinates are correlated
                    _, d = cov(a)
                    off = np.abs(d - np.diag(np.diag(d)))
                    require(np.all(off <= 1e-11 * float(np.max(v)) + 1e-15 * top ** 2), "coordinates are still correlated", got=d,
                            ops=ops)
                    near(np.sort(np.diag(d)), np.linalg.eigvalsh(c.astype(float)), 1e-11 * float(np.max(v)) + 1e-15 * top ** 2,
                         "variances along the principal axes", ops=ops)
                model = a.copy()
        ch.observe(kind, n, ops, np.round(a, 6).tolist())

    def eigen(ch):
        from rsbeams.rsstats import stats6d
        diag = ch.pick("diagonal", ((1, 2, 3, 4, 5, 6), (1, 1, 1, 1, 1, 1), (0, 0, 0, 0, 0, 0), (1e-12, 1, 1e-6, 1e3, 1e-9, 2),
                                    (-1, 2, -3, 0, 5, -6), (6, 5, 4, 3, 2, 1)), dev=False)
        s = np.diag(np.array(diag, dtype=float))
        for i in range(6):
            for j in range(i + 1, 6):
                s[i, j] = s[j, i] = ch.pick("sigma[%d,%d]" % (i, j), (0.0, 0.5, -2.0, 1e-9))
        scale = ch.pick("scale", (1.0, 1e-18, 1e9))
        s *= scale
        w, v = stats6d.jacobi_eigen_solver6d(s.copy())
        top = np.max(np.abs(s)) + 1e-300
        near(v.T @ v, np.eye(6), 1e-12, "eigenvectors are orthonormal")
        near(s @ v, v * np.asarray(w)[None, :], 1e-11 * top, "eigenvalues and eigenvectors", sigma=s)
        ch.observe(np.round(np.sort(w) / scale, 9).tolist())

    def digits(ch):
        from rsbeams.rsstats import stats6d
        mant = ch.pick("mantissa", (1.0, 9.999, 1.2345678, 5.5555, 9.95, 4.0, 0.0, 7.49999, 1.0000001, 8.15), dev=False)
        e = ch.pick("exponent", range(-30, 31) if deep else (-20, -9, -3, -2, -1, 0, 1, 2, 5, 8, 15, 22), dev=False)
        d = ch.pick("digits", (1, 2, 3, 4, 6, 9, 12), dev=False)
        x = float("%re%d" % (mant, e)) * (-1 if ch.flag("negative", dev=False) else 1)
        x = ch.pick("type", (float, np.float64), dev=False)(x)
        got = stats6d.specify_significant_figures(x, d)
        if x == 0:
            require(got == 0, "zero", got=got)
            ch.observe(0)
            return
        # exact neighbours with d significant digits
        f = abs(Fraction(float(x)))
        k = 0
        while f >= Fraction(10) ** (k + 1):
            k += 1
        while f < Fraction(10) ** k:
            k -= 1
        unit = Fraction(10) ** (k - d + 1)
        q = f / unit
        lo = int(q)
        frac = float(q - lo)
        ok = [lo] if frac < 0.5 - 1e-3 else [lo + 1] if frac > 0.5 + 1e-3 else [lo, lo + 1]
        require(any(abs(abs(float(got)) - float(o * unit)) <= 4e-15 * float(f) for o in ok) and got * x > 0,
                "rounded to %d significant digits" % d, value=x, got=got, want=[float(o * unit) for o in ok])
        ch.observe(float(got))

    return [Harness("large", large, bound=0), Harness("operations", operations, bound=2 if deep else 1), Harness("eigen", eigen, bound=3 if deep else 2),
            Harness("digits", digits)]
