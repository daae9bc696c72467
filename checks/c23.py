"""C23: inverse transform sampling.  The uniform draws are answers of the explorer (ends, middle, neighbours of 0 and 1)."""
import math
import random

import numpy as np

from mc.core import Harness, require
from mc.rng import Stream


def gauss(x, mu=0.0, s=1.0):
    return np.exp(-0.5 * ((x - mu) / s) ** 2) / s / math.sqrt(2 * math.pi)


# name -> (function, a, b, args, exact integral of the function on [a, x] up to a factor)
DIST = {
    "uniform": (lambda x: np.ones_like(x) / 2, -1.0, 1.0, None, lambda x: x + 1),
    "gauss": (gauss, -3.0, 3.0, None, lambda x: math.erf(x / math.sqrt(2)) + math.erf(3 / math.sqrt(2))),
    "gauss(mu)": (gauss, -2.0, 4.0, 1.0, lambda x: math.erf((x - 1) / math.sqrt(2)) + math.erf(3 / math.sqrt(2))),
    "gauss(mu=0)": (lambda x, mu: gauss(x, mu), -2.0, 2.0, 0, lambda x: math.erf(x / math.sqrt(2)) + math.erf(math.sqrt(2))),
    "gauss(mu, s)": (gauss, -2.0, 4.0, (1.0, 2.0), lambda x: math.erf((x - 1) / math.sqrt(8)) + math.erf(3 / math.sqrt(8))),
    "gauss[mu, s]": (gauss, -2.0, 4.0, [0.0, 2.0], lambda x: math.erf(x / math.sqrt(8)) + math.erf(2 / math.sqrt(8))),
    "gauss()": (gauss, -2.0, 2.0, (), lambda x: math.erf(x / math.sqrt(2)) + math.erf(math.sqrt(2))),
    "exponential": (lambda x, k: k * np.exp(-k * x), 0, 5, 1.5, lambda x: -math.expm1(-1.5 * x)),
    "ramp": (lambda x: x + 0.25, 0, 2, None, lambda x: x * x / 2 + x / 4),
    "shifted": (lambda x: 2 + np.cos(x), 100.0, 106.0, None, lambda x: 2 * (x - 100) + math.sin(x) - math.sin(100)),
    "downwards": (gauss, 3.0, -2.0, None, lambda x: math.erf(3 / math.sqrt(2)) - math.erf(x / math.sqrt(2))),
    "gap": (lambda x: ((np.abs(x) > 0.5) & (np.abs(x) < 1)) * 1.0, -1.5, 2.0, None,
            lambda x: min(max(x + 1, 0), 0.5) + min(max(x - 0.5, 0), 0.5)),
    "not normalised": (lambda x: 1e6 * (1 + x * x), -1.0, 3.0, None, lambda x: x + x ** 3 / 3 + 4 / 3),
}
DRAWS = (0.5, 0.0, 2.0 ** -53, 1e-4, 0.25, 0.75, 0.9999, 1 - 2.0 ** -30, 1 - 2.0 ** -53)


def weights(name, grid):
    f, _a, _b, args, _F = DIST[name]
    args = () if args is None else tuple(args) if isinstance(args, (tuple, list)) else (args,)
    return f(grid, *args)


def check(samples, y, name, wn, invert):
    _f, a, b, _args, F = DIST[name]
    n = len(y)
    require(np.shape(samples) == (n,), "one sample per draw", got=np.shape(samples), want=(n,))
    s = np.asarray(samples, dtype=float)
    require(np.all((s >= min(a, b)) & (s <= max(a, b))), "samples within the range", got=s, a=a, b=b)
    grid = np.linspace(a, b, wn)
    w = np.abs(weights(name, grid))
    res = 3 * w.max() / w.sum()      # resolution of the grid
    total = F(b)
    for x, v in zip(s, y):
        require(abs(F(x) / total - v) <= res, "sample is the inverse of the cumulative distribution", draw=v, sample=x,
                cdf=F(x) / total, resolution=res)
    if invert == "numeric":
        require(all(np.any(x == grid) for x in s), "samples are points of the grid", got=s)
    order = np.argsort(y, kind="stable")
    require(np.all(np.diff(s[order]) * np.sign(b - a) >= -res * abs(b - a) * 1e-3), "samples grow with the draws", got=s, draws=y)


def van_der_corput(n):
    out = []
    for i in range(n):
        q, d = 0.0, 0.5
        while i:
            q += d * (i & 1)
            i >>= 1
            d /= 2
        out.append(q)
    return out


def harnesses(tier):
    deep = tier == "thorough"

    def cdf(ch):
        from rsbeams.rsstats import sample
        name = ch.pick("distribution", tuple(DIST), dev=False)
        n = ch.pick("points", (1, 2, 5, 1000), dev=False)
        f, a, b, args, _F = DIST[name]
        grid = np.linspace(a, b, n) + ch.pick("shift", (0.0, 1e-3), dev=False)
        if ch.flag("uneven grid", dev=False):
            grid = np.sort(grid * (1 + 0.01 * np.sin(np.arange(n))))
        keep = grid.copy()
        kw = {} if args is None and not ch.flag("args=None", dev=False) else {"args": args}
        w = weights(name, keep)
        if not w.sum():          # a distribution that vanishes on the whole grid has none
            ch.nontrivial = False
            return
        got = np.asarray(sample.cdf_on_grid(f, grid, **kw))
        want = np.cumsum(w.astype(np.longdouble)) / w.astype(np.longdouble).sum()
        require(got.shape == (n,) and np.all(np.abs(got - want) <= 1e-12), "cumulative distribution", got=got, want=want)
        require(np.array_equal(grid, keep), "grid was changed")
        ch.observe(name, n, np.round(got, 9).tolist())

    def random_draws(ch):
        from rsbeams.rsstats import sample
        name = ch.pick("distribution", tuple(DIST), dev=False)
        # (functions that vanish in places cannot be interpolated, as is documented)
        invert = ch.pick("invert", ("interpolate", "numeric", None) if name != "gap" else ("numeric",), dev=False)
        wn = ch.pick("wn", (None, 500, 4000, 10001), dev=True)
        n = ch.pick("n", (3, 1, 2, 6, 300))
        f, a, b, args, _F = DIST[name]
        kw = {}
        if args is not None:
            kw["args"] = args
        if wn is not None:
            kw["wn"] = wn
        if invert is not None:
            kw["invert"] = invert
        if ch.flag("method given"):
            kw["method"] = "random"
        with Stream(lambda i: ch.pick("draw %d" % i, (None,) + DRAWS) if i < 3 else None) as st:
            s = sample.sample(n, f, a, b, **kw)
        require(len(st.uniforms) == n, "one draw per sample", got=len(st.uniforms))
        check(s, st.uniforms, name, wn or 10000, invert or "interpolate")
        ch.observe(name, invert, np.round(s, 6).tolist())

    def steps(ch):
        """Draws that are values of the cumulative distribution: the first point of the grid that has this value, never one without probability."""
        from rsbeams.rsstats import sample
        wn = ch.pick("wn", (4, 5, 8, 9, 16, 33, 100), dev=False)
        bits = ch.pick("where there is probability", tuple(range(1, 16)), dev=False)

        def f(x):
            part = np.clip(((np.asarray(x) + 1) / 2 * 4).astype(int), 0, 3)
            return ((bits >> part) & 1) * 1.0
        grid = np.linspace(-1.0, 1.0, wn)
        if not f(grid).sum():
            ch.nontrivial = False
            return
        cdf = np.asarray(sample.cdf_on_grid(f, grid))
        k = ch.pick("value", range(wn), dev=False)
        u = float(cdf[k])
        if not 0 < u < 1:
            ch.nontrivial = False
            return
        with Stream(lambda i: u) as _st:
            s = sample.sample(2, f, -1.0, 1.0, wn=wn, invert="numeric")
        require(np.shape(s) == (2,) and np.all(f(s) > 0), "samples have probability", got=s, draw=u, cdf=cdf)
        i = int(np.argmin(np.abs(grid - s[0])))
        require(abs(cdf[i] - u) <= 1e-9, "sample is the inverse of the cumulative distribution", draw=u, sample=s, cdf=cdf)
        ch.observe(wn, bits, i)

    def halton(ch):
        from rsbeams.rsstats import sample
        name = ch.pick("distribution", tuple(DIST), dev=False)
        invert = ch.pick("invert", ("interpolate", "numeric") if name != "gap" else ("numeric",), dev=False)
        n = ch.pick("n", (1, 2, 5, 16, 33, 500), dev=False)
        wn = ch.pick("wn", (10000, 700), dev=False)
        f, a, b, args, _F = DIST[name]
        kw = {} if args is None else {"args": args}
        runs = []
        for seed in (1, 2):
            np.random.seed(seed)
            random.seed(seed)
            runs.append(sample.sample(n, f, a, b, wn=wn, method="halton", invert=invert, **kw))
        require(np.array_equal(runs[0], runs[1]), "halton samples are not reproducible", got=runs)
        s = np.asarray(runs[0])
        require(s.shape == (n,), "shape", got=s.shape)
        # low discrepancy: every dyadic part of the probability gets its share
        _f, a, b, _args, F = DIST[name]
        require(np.all((s >= min(a, b)) & (s <= max(a, b))), "samples within the range", got=s)
        u = np.array([F(x) / F(b) for x in s])
        w = np.abs(weights(name, np.linspace(a, b, wn)))
        res = 3 * w.max() / w.sum()
        k = 1
        while k * 2 <= n:
            k *= 2
        for lo in range(k):
            inside = np.sum((u[:k] >= lo / k - res) & (u[:k] <= (lo + 1) / k + res))
            require(inside >= 1, "low discrepancy", part=lo, of=k, got=np.sort(u))
        ch.observe(name, invert, n, np.round(s, 6).tolist())

    def refused(ch):
        from rsbeams.rsstats import sample
        method = ch.pick("method", ("random", "halton", "sobol", "", None), dev=False)
        invert = ch.pick("invert", ("interpolate", "numeric", "newton", "", None), dev=False)
        f = ch.pick("distribution", (gauss, "gauss", None, 3.0), dev=False)
        try:
            s = sample.sample(4, f, -1, 1, method=method, invert=invert)
            res = "done"
        except NotImplementedError:
            res = "not implemented"
        except AssertionError:
            res = "assertion"
        if not callable(f):
            require(res == "assertion", "distribution that cannot be called", got=res)
        elif method not in ("random", "halton") or invert not in ("interpolate", "numeric"):
            require(res == "not implemented", "unknown method or inversion", got=res)
        else:
            require(res == "done" and np.shape(s) == (4,), "samples", got=res)
        ch.observe(res)

    return [Harness("cdf", cdf), Harness("random", random_draws, bound=3 if deep else 2), Harness("steps", steps), Harness("halton", halton),
            Harness("refused", refused)]
