"""C24: decoherence of the centroid and phase/tune analysis.  Oracle: x_n = Z * integral_0^1 cos(2 pi n (nu0 - sum mu_k s^k)) ds,
evaluated with Gauss-Legendre panels; rotations and tones with known phase for the analysis functions."""
import cmath
import math

import numpy as np

from mc.core import Harness, require

GX, GW = np.polynomial.legendre.leggauss(24)


def centroid(n, Z, nu0, mu):
    if n == 0:
        return Z
    turns = n * sum(abs(m) for m in mu)
    panels = 2 + int(2 * turns)
    edges = np.linspace(0, 1, panels + 1)
    tot = 0.0
    for lo, hi in zip(edges[:-1], edges[1:]):
        s = (hi - lo) / 2 * GX + (hi + lo) / 2
        ph = nu0 - sum(m * s ** (k + 1) for k, m in enumerate(mu))
        tot += (hi - lo) / 2 * float(np.sum(GW * np.cos(2 * np.pi * n * ph)))
    return Z * tot


NU = (0.3, 0.0, 0.27, 0.5, -0.1)
MU1 = (1e-3, -2e-2, 0.15, 0.0, 0, 1e-4, -3e-7)
MU2 = (2e-3, 0.04, 1e-2, -3e-2, 0.0, 1e-4, 5e-7)


def harnesses(tier):
    deep = tier == "thorough"

    def near(got, want, Z, what, tol=1e-9, **k):
        require(abs(float(got) - want) <= tol * max(abs(Z), 1e-300), what, got=got, want=want, **k)

    def turns(ch):
        from rsbeams.rsphysics.decoherence import CentroidPosition
        nu0 = ch.pick("nu0", NU, dev=False)
        Z = ch.pick("Z", (1.0, -2.5, 0.0), dev=False)
        order = ch.pick("order", (1, 2, 3, 4), dev=False)
        mu = [ch.pick("mu1", MU1, dev=False)]
        if order > 1:
            mu.append(ch.pick("mu2", MU2, dev=False))
        if order > 2:
            mu.append(ch.pick("mu3", (-5e-3, 0.02), dev=False))
        if order > 3:
            mu.append(1e-3)
        mu = ch.pick("container", (list, tuple, np.array))(mu)
        N = ch.pick("N", (5, 0, 1, 60))
        c = CentroidPosition(N, Z, nu0, mu)
        n = ch.pick("turn", (None, 0, 1, 2, 7, 33, 150), dev=False)
        m = N if n is None else n
        want = centroid(m, Z, nu0, mu)
        kw = {} if n is None else {"turn": n}
        if m * sum(abs(x) for x in mu) < 12:
            near(c.integrate_any_order(**kw), want, Z, "centroid, numerical", 1e-7, n=m, nu0=nu0, mu=mu)
        if order == 1:
            near(c.integrate_first_order(**kw), want, Z, "centroid, first order", n=m, nu0=nu0, mu=mu)
        if order == 2:
            near(c.integrate_second_order(**kw), want, Z, "centroid, second order", 1e-8, n=m, nu0=nu0, mu=mu)
        ch.observe(round(want, 9))

    def history(ch):
        from rsbeams.rsphysics.decoherence import CentroidPosition
        mu = ch.pick("mu", ([2e-3], [0.0], [-1e-2], [1e-3, 4e-3], [0.0, 3e-3], [1e-2, -4e-3], [1e-2, 0.0], [-2e-2, 1e-3],
                            [1e-3, 2e-3, -3e-3], [0.0, 0.0, 0.0], []), dev=False)
        nu0 = ch.pick("nu0", NU[:3], dev=False)
        N = ch.pick("N", (4, 1, 11, 37) + ((150,) if deep else ()), dev=False)
        p = ch.pick("processes", (1, 2), dev=True)
        c = CentroidPosition(N, 1.5, nu0, list(mu))
        for k in range(2):
            res = c.calculate_centroids(p=p)
            require(len(res) == N, "one centroid per turn", got=len(res), want=N)
            for n, x in enumerate(res):
                near(x, centroid(n, 1.5, nu0, mu), 1.5, "centroid of turn %d" % n, 1e-7, mu=mu, nu0=nu0)
            if not ch.flag("again"):
                break
            c.nu0 = nu0 = 0.41
        require(list(c.mu) == list(mu), "coefficients changed")
        ch.observe(N, [round(float(x), 9) for x in res])

    def advance(ch):
        from rsbeams.rsptcls import phases
        n = 24 if deep else 16
        a = ch.pick("start", range(n), dev=False) * 2 * math.pi / n
        d = ch.pick("advance", range(n), dev=False) * 2 * math.pi / n
        r1, r2 = ch.pick("amplitudes", ((1.0, 1.0), (1e-3, 5.0), (40.0, 1e-6)), dev=False)
        p1 = (r1 * math.cos(a), r1 * math.sin(a))
        p2 = (r2 * math.cos(a - d), r2 * math.sin(a - d))       # clockwise rotation by d
        p1, p2 = (ch.pick("type", (np.array, list), dev=False)(p) for p in (p1, p2))
        cw = ch.pick("clockwise", (None, True, False), dev=False)
        got = float(phases.phase_advance(p1, p2) if cw is None else phases.phase_advance(p1, p2, cw))
        want = -d if cw is False else d
        require(0 <= got <= 2 * math.pi and abs(cmath.exp(1j * (got - want)) - 1) < 1e-9, "phase advance", got=got, want=want)
        ch.observe(round(got, 9))

    def tunes(ch):
        from rsbeams.rsptcls import phases
        n = ch.pick("turns used", (8, 20, 33, 64), dev=False)
        k = ch.pick("line", range(n // 2 + 1) if deep else range(0, n // 2 + 1, max(1, n // 10)), dev=False)
        ph = ch.pick("phase", (0.3, 1.1, -2.0), dev=False)
        t_i = ch.pick("t_i", (None, 0, 1, 5), dev=False)
        tail = ch.pick("t_f", (None, 0, 3, 1), dev=False)
        alias = ch.flag("alias", dev=False)     # 1 - tune is the same signal
        q = (1 - k / n) if alias else k / n
        start = 1 if t_i is None else t_i
        total = start + n + (tail or 0)
        x = 0.7 * np.cos(2 * np.pi * q * np.arange(total) + ph)
        x[:start] = 99.0            # must not be used
        x[start + n:] = -55.0
        keep = x.copy()
        kw = {}
        if t_i is not None:
            kw["t_i"] = t_i
        if tail is not None:
            kw["t_f"] = start + n
            if tail and ch.flag("from the end", dev=False):
                kw["t_f"] = -tail
        got = float(phases.tune_fft(x, **kw))
        require(abs(got - k / n) < 1e-12, "tune", got=got, want=k / n, turns=n, start=start)
        require(np.array_equal(x, keep), "coordinates changed")
        ch.observe(n, k)

    def lines(ch):
        """Tunes between the lines of the spectrum, weaker lines beside the strongest one, kinds of data."""
        from rsbeams.rsptcls import phases
        n = ch.pick("turns used", (16, 17, 31, 64, 101, 256) + ((1000, 1024, 4099) if deep else ()), dev=False)
        frac = ch.pick("between the lines", (0.0, 0.25, 0.4, -0.3), dev=False)
        ks = range(1, n // 2 + 1 if n < 80 else n // 2, 1 if n < 80 and deep else max(1, n // 9))
        k = ch.pick("line", [k for k in ks if 1 / 8 <= k / n <= 3 / 8 or frac == 0], dev=False)
        q = (k + frac) / n
        amp = ch.pick("amplitude", (1.0, 1e-12, 3e6))
        ph = ch.pick("phase", (0.3, 2.0, -1.1))
        start = ch.pick("t_i", (None, 0, 3, 50))
        off = ch.pick("turns before", (1, 7)) if start is None else start
        t = np.arange(1 + off + n)
        x = amp * np.cos(2 * np.pi * q * t + ph)
        second = ch.pick("second line", (None, 0.1, 0.3))
        if second is not None and 2 * q != 1 and (frac == 0 or n > 60):
            q2 = (k + 3 if k + 3 <= n // 2 - 2 else max(k - 4, 0)) / n
            x = x + amp * second * np.cos(2 * np.pi * q2 * t + 0.7)
        kind = ch.pick("kind", ("array", "list", "tuple", "float32", "integers", "read-only", "strided", "big-endian"))
        if kind == "integers":
            x = np.round(x / amp * 1e4).astype(int)
        elif kind == "float32":
            x = x.astype(np.float32)
        elif kind == "big-endian":
            x = x.astype(">f8")
        elif kind == "strided":
            x = np.repeat(x, 3)[::3]
        elif kind == "read-only":
            x.setflags(write=False)
        first = 1 if start is None else start
        x = {"list": list, "tuple": tuple}.get(kind, np.asarray)(x)
        keep = np.array(x)
        kw = {} if start is None else {"t_i": start}
        got = float(phases.tune_fft(x, t_f=first + n, **kw))
        tol = 1e-12 if frac == 0 else (0.5 if n > 60 else 1.0) / n + 1e-12     # the nearest line of the spectrum
        require(abs(got - q) <= tol, "tune", got=got, want=q, turns=n, resolution=1 / n)
        require(np.array_equal(np.array(x), keep), "coordinates changed")
        ch.observe(n, k, frac)

    return [Harness("lines", lines, bound=3 if deep else 2), Harness("turns", turns, bound=2 if deep else 1), Harness("history", history, bound=2 if deep else 1, timeout=60),
            Harness("advance", advance), Harness("tunes", tunes)]
