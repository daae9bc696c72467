"""C22: StandardBunch and NonlinearBunch.  Random numbers are owned by the harness; every particle is transformed back to normal
coordinates and its invariant compared with the one the distribution allows."""
import cmath
import contextlib
import functools
import io
import math
import re

import numpy as np

from mc.core import Harness, require
from mc.rng import Stream


# rounding takes the elliptic coordinates of these points (in units of c, on the x-axis) out of their range
PAST = [k / 97 for k in range(98, 1000, 3) if (abs(k / 97 + 1) - abs(k / 97 - 1)) / 2 > 1][:12]
PAST += [-k for k in PAST[:2]]


def potential(x, y, t, c):
    """Danilov-Nagaitsev elliptic potential, in complex form"""
    u = 0.5 * (x * x + y * y)
    if t:
        z = complex(x / c, abs(y / c) + 1e-310)        # even in y; one side of the branch cut
        u += t * c * c * (z * cmath.asin(z) / (cmath.sqrt(1 - z) * cmath.sqrt(1 + z))).real
    return u


def normal(p, m):
    """normal coordinates of a particle"""
    bx, ax, by, ay = m["betax"], m["alphax"], m["betay"], m["alphay"]
    return (p[0] / math.sqrt(bx), p[1] * math.sqrt(bx) + ax * p[0] / math.sqrt(bx),
            p[2] / math.sqrt(by), p[3] * math.sqrt(by) + ay * p[2] / math.sqrt(by))


def energy(p, m):
    x, px, y, py = normal(p, m)
    return 0.5 * (px * px + py * py) + potential(x, y, m.get("t", 0), m.get("c", 1))


@functools.lru_cache(maxsize=None)
def region(t, c, levels):
    """for each level of the potential: mean x^2 and y^2 and largest x and y in the region below it"""
    x, y = (np.arange(600) + 0.5) / 600, (np.arange(600) + 0.5) / 600 * 1.1 * math.sqrt(2 * levels[-1] / (1 - 2 * t))
    x = x * (0.9999 * c if t else 1.05 * math.sqrt(2 * levels[-1]))
    z = (x[:, None] + 1j * y[None, :]) / c
    u = 0.5 * (x[:, None] ** 2 + y[None, :] ** 2) + t * c * c * (z * np.arcsin(z) / (np.sqrt(1 - z) * np.sqrt(1 + z))).real
    out = []
    for h in levels:
        i, j = np.nonzero(u < h)
        out.append((np.mean(x[i] ** 2), np.mean(y[j] ** 2), x[i].max(), y[j].max()))
    return tuple(zip(*out))


def check_attributes(b, m):
    for k, v in m.items():
        if k == "emit":
            continue
        got = getattr(b, k)
        require(got == v or (isinstance(v, float) and abs(got - v) <= 1e-12 * abs(v)), "attribute " + k, got=got, want=v)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        b.print_Twiss()
    out = dict(re.findall(r"(\w+) : (\S+)", buf.getvalue()))
    want = {k: m[k] for k in ("betax", "betay", "alphax", "alphay")}
    want["gammax"] = (1 + m["alphax"] ** 2) / m["betax"]
    want["gammay"] = (1 + m["alphay"] ** 2) / m["betay"]
    require(set(out) == set(want) and all(abs(float(out[k]) - want[k]) <= 1e-12 * max(1, abs(want[k])) for k in want),
            "printed Twiss parameters", got=out, want=want)


def check_transverse(b, m, nonlinear, stream):
    p = b.particles
    n = m["npart"]
    require(p.shape == (n, 7) and np.all(np.isfinite(p)), "particles", got=p)
    require(np.array_equal(p[:, 6], np.arange(n)), "particle numbers", got=p[:, 6])
    if m["dist"] == "Gaussian" and not nonlinear:
        sig = [math.sqrt(m["emitx"] * m["betax"]), math.sqrt(m["emitx"] * (1 + m["alphax"] ** 2) / m["betax"]),
               math.sqrt(m["emity"] * m["betay"]), math.sqrt(m["emity"] * (1 + m["alphay"] ** 2) / m["betay"])]
        got = np.sort((p[:, :4] / np.array(sig)).ravel())
        want = np.sort(np.array(stream.normals))
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12),
                "coordinates are independent normal numbers times the rms sizes", got=got, want=want)
        return
    e = np.array([energy(q, m) for q in p])
    if m["dist"] == "KV":
        h = m["emitx"] * (1 if nonlinear else 4)
        require(np.all(np.abs(e - h) <= 1e-9 * h), "all particles have the same Hamiltonian", got=e, want=h, parameters=m)
    else:
        h = m["emit"] * (m["cutoff"] if m["dist"] == "Gaussian" else 1)
        require(np.all((0 < e) & (e <= h * (1 + 1e-9))), "Hamiltonian within the limit", got=e, limit=h, parameters=m)
    require(len({tuple(q) for q in p[:, :4].tolist()}) == n, "particles are different", got=p[:, :4])
    if m["quiet"]:
        for i in range(0, n - n % 4, 4):
            s = np.abs(p[i:i + 4, :4].sum(axis=0))
            require(np.all(s <= 1e-12 * np.abs(p[i:i + 4, :4]).max(axis=0)), "quiet groups have zero centroid", got=p[i:i + 4, :4])
            require(np.ptp(e[i:i + 4]) <= 1e-9 * e[i], "quiet groups have one Hamiltonian", got=e[i:i + 4])


def harnesses(tier):
    deep = tier == "thorough"

    def histories(ch):
        from rsbeams.rsptcls import bunch
        nonlinear = ch.flag("nonlinear", dev=False)
        dist = ch.pick("distribution", ("KV", "waterbag", "Gaussian") if nonlinear else ("Gaussian", "KV"), dev=False)
        m = {"npart": ch.pick("particles", (4, 1, 7, 12)), "dist": dist, "emitx": 1e-6, "emity": 1e-6, "betax": 1.0, "alphax": 0.0,
             "betay": 1.0, "alphay": 0.0, "stdz": 1.0, "dpop": 0, "quiet": False}
        given = {}
        for k, v in (("betax", (2.5, 0.04)), ("alphax", (1.5, -0.75)), ("betay", (0.3, 20.0)), ("alphay", (-2.0, 0.5)),
                     ("emitx", (4e-7, 3e-5)), ("emity", (2e-6, 1e-8)), ("stdz", (0.1,)), ("dpop", (1e-3,)), ("quiet", (True,))):
            w = ch.pick(k, (None,) + v)
            if w is not None:
                given[k] = w
        if nonlinear:
            m.update(t=0.1, c=0.01, cutoff=4)
            for k, v in (("t", (0.4, 0.0)), ("c", (0.02, 0.009)), ("cutoff", (1.5, 9, 0.5))):
                w = ch.pick(k, (None,) + v)
                if w is not None:
                    given[k] = w
        if dist == "KV" and ("emitx" in given or "emity" in given) and not ch.flag("unequal emittances"):
            given["emitx"] = given["emity"] = given.get("emitx", given.get("emity"))
        m.update(given)
        m["emit"] = m["emitx"] + m["emity"]
        kw = dict(given)
        if dist == ("KV" if nonlinear else "Gaussian") and ch.flag("distribution by default"):
            b = (bunch.NonlinearBunch if nonlinear else bunch.StandardBunch)(m["npart"], **kw)
        else:
            b = (bunch.NonlinearBunch if nonlinear else bunch.StandardBunch)(m["npart"], dist, **kw)
        other = bunch.StandardBunch(4)
        check_attributes(b, m)
        require(np.all(b.particles[:, :6] == 0), "particles before they are distributed", got=b.particles)
        for step in range(3 if deep else 2):
            op = ch.pick("operation %d" % step, ("transverse", "longitudinal", "assign", "negative"), dev=step > 0)
            before = b.particles.copy()
            if op == "assign":
                names = ("alphax", "alphay", "betax", "betay", "emitx", "emity", "both emittances", "quiet", "dist", "stdz", "dpop")
                k = ch.pick("what %d" % step, names + (("t", "c", "cutoff") if nonlinear else ()), dev=False)
                v = {"alphax": 0.9, "alphay": -1.1, "betax": 3.0, "betay": 5.0, "t": 0.3, "c": 0.015, "cutoff": 2, "emitx": 7e-7,
                     "emity": 3e-6, "quiet": True, "stdz": 0.5, "dpop": 3e-3}.get(k)
                if k == "both emittances":
                    b.emitx = b.emity = m["emitx"] = m["emity"] = 2e-7
                elif k == "dist":
                    v = dist = b.dist = m["dist"] = ch.pick("new distribution %d" % step, ("KV", "waterbag", "Gaussian") if nonlinear
                                                            else ("Gaussian", "KV"), dev=False)
                else:
                    setattr(b, k, v)
                    m[k] = v
                if nonlinear and k in ("betax", "betay"):
                    m["betax"] = m["betay"] = v         # documented: they are equal in a nonlinear insert
                require(np.array_equal(b.particles, before), "assignment changed the particles")
            elif op == "negative":
                for k in ("betax", "betay") + (("t", "c", "cutoff") if nonlinear else ()):
                    try:
                        setattr(b, k, -1.0)
                    except ValueError:
                        continue
                    require(False, "negative %s is accepted" % k)
                for k in ("betax", "betay") + (("t", "c", "cutoff") if nonlinear else ()):
                    try:
                        type(b)(2, dist, **{k: -1.0})
                    except ValueError:
                        continue
                    require(False, "negative %s is accepted from the start" % k)
            elif op == "longitudinal":
                args = {}
                for k, v in (("stdz", 0.25), ("dpop", 2e-3)):
                    if ch.flag("%s %d" % (k, step)):
                        args[k] = m[k] = v
                with Stream(start=1000 * step) as st:
                    b.set_longitudinal_coordinates(**args)
                got = []
                for col, sig in ((4, m["stdz"]), (5, m["dpop"])):
                    if sig == 0:
                        require(np.all(b.particles[:, col] == 0), "coordinate without spread", got=b.particles[:, col])
                    else:
                        got.extend(b.particles[:, col] / sig)
                want = list(st.normals)
                for g in got:
                    i = int(np.argmin(np.abs(np.array(want) - g)))
                    require(abs(want[i] - g) <= 1e-9, "longitudinal coordinates are normal numbers times the spread", got=g)
                    want.pop(i)
                require(np.array_equal(b.particles[:, (0, 1, 2, 3, 6)], before[:, (0, 1, 2, 3, 6)]), "transverse coordinates changed")
            else:
                args = {}
                names = [("betax", 7.0), ("alphax", -1.25), ("emitx", 5e-6), ("emity", 8e-7)]
                names += [("cutoff", 3)] if nonlinear else [("betay", 0.6), ("alphay", 2.0)]
                for k, v in names:
                    if ch.flag("%s %d" % (k, step)):
                        args[k] = m[k] = v
                        if nonlinear and k == "betax":
                            m["betay"] = v
                m["emit"] = m["emitx"] + m["emity"]
                special = ch.pick("draws %d" % step, (None, 0.02, 0.5, 0.98))
                where = ch.pick("draw %d" % step, (0, 1, 2, 3), dev=False) if special is not None else -1
                with Stream(lambda i: special if i == where else None, start=1000 * step) as st:
                    if dist == "KV" and m["emitx"] != m["emity"]:
                        try:
                            b.set_transverse_coordinates(**args)
                        except AssertionError:
                            ch.observe("unequal emittances")
                            return
                        require(False, "KV bunch with unequal emittances")
                    b.set_transverse_coordinates(**args)
                check_transverse(b, m, nonlinear, st)
                require(np.array_equal(b.particles[:, 4:], before[:, 4:]), "longitudinal coordinates changed")
            check_attributes(b, m)
        require(np.all(other.particles[:, :6] == 0) and other.betax == 1 and other.alphay == 0, "another bunch was changed")
        ch.observe(nonlinear, dist, given, np.round(b.particles, 9).tolist())

    def elliptic(ch):
        from rsbeams.rsptcls import bunch
        t = ch.pick("t", (0.1, 0.0, 0.45, 0.01, 4e-4), dev=False)
        c = ch.pick("c", (0.01, 1.0, 0.3), dev=False)
        b = bunch.NonlinearBunch(1, t=t, c=c)
        grid = (0.0, 1e-6, -0.2, 0.5, -0.99, 1.5, -3.0, 20.0)
        x = ch.pick("x", grid + tuple(sorted(PAST)) + (0.1, 0.3, 0.7, -1.01), dev=False) * c
        y = ch.pick("y", grid, dev=False) * c
        px, py = ch.pick("p", ((0.0, 0.0), (0.5 * c, -2 * c)), dev=False)
        want = potential(x, y, t, c)
        scale = c * c * (1 + (x / c) ** 2 + (y / c) ** 2)
        if abs(x) > c and abs(y) < 1e-3 * c:
            scale *= 1e5        # next to the cut behind the pole the elliptic coordinates cancel
        got = b.compute_potential(x, y)
        require(abs(got - want) <= 1e-11 * scale, "elliptic potential", x=x / c, y=y / c, got=got, want=want)
        got = b.compute_Hamiltonian(x, px, y, py)
        require(abs(got - want - (px * px + py * py) / 2) <= 1e-11 * scale, "Hamiltonian", got=got)
        arr = b.compute_potential(np.array([x, x]), np.array([y, -y]))
        require(np.all(np.abs(arr - want) <= 1e-11 * scale), "potential of arrays", got=arr, want=want)
        s = bunch.StandardBunch(1)
        require(abs(s.compute_potential(x, y) - (x * x + y * y) / 2) <= 1e-13 * scale, "linear potential")
        require(abs(s.compute_Hamiltonian(x, px, y, py) - (x * x + y * y + px * px + py * py) / 2) <= 1e-13 * scale,
                "linear Hamiltonian")
        for q in (s, b):
            require(abs(q.whatsleft(y) - (q.emit - q.compute_potential(0, y))) <= 1e-13 * scale, "rest of the emittance")
        ch.observe(round(want / scale, 12))

    def moments(ch):
        """distribution of the Hamiltonian and of its parts in a large bunch (fixed well mixed draws)"""
        from rsbeams.rsptcls import bunch
        kind, dist = ch.pick("bunch", (("standard", "KV"), ("nonlinear", "KV"), ("nonlinear", "waterbag"),
                                       ("nonlinear", "Gaussian")), dev=False)
        quiet = ch.flag("quiet", dev=False)
        cutoff = ch.pick("cutoff", (4, 1.5, 0.5, 9), dev=False) if dist == "Gaussian" else 4
        t = ch.pick("t", (0.1, 0.4) + ((0.0,) if deep else ()), dev=False) if kind == "nonlinear" else 0
        n = 4000 if deep else 800
        eps = ch.pick("emittance", (1e-6, 2e-5), dev=False)
        kw = dict(betax=2.0, betay=2.0, alphax=0.7, alphay=-0.4, quiet=quiet)
        m = dict(kw, emit=2 * eps)
        kw.update(emitx=eps, emity=eps)
        if kind == "nonlinear":
            kw.update(t=t, cutoff=cutoff)
            m.update(t=t, c=0.01)
            b = bunch.NonlinearBunch(n, dist, **kw)
        else:
            b = bunch.StandardBunch(n, dist, **kw)
        with Stream(start=77):
            b.set_transverse_coordinates()
        e = np.array([energy(q, m) for q in b.particles])
        z = np.array([normal(q, m) for q in b.particles])
        eff = n / (4 if quiet else 1)
        tol = 5 / math.sqrt(eff)
        if dist == "waterbag":
            h = e / m["emit"]
            require(abs(h.mean() - 2 / 3) < 0.24 * tol and abs((h < 0.5).mean() - 0.25) < 0.44 * tol, "H of a waterbag",
                    mean=h.mean(), below_half=(h < 0.5).mean())
        elif dist == "Gaussian":
            h = e / m["emit"]
            L = cutoff
            norm = 1 - math.exp(-L) * (1 + L)
            mean = (2 - math.exp(-L) * (L * L + 2 * L + 2)) / norm
            require(abs(h.mean() - mean) < 1.0 * tol, "H of a truncated Gaussian", mean=h.mean(), want=mean)
            for x in (L / 8, L / 4, L / 2):
                want = (1 - math.exp(-x) * (1 + x)) / norm
                require(abs((h < x).mean() - want) < 0.5 * tol, "H of a truncated Gaussian", below=x, got=(h < x).mean(), want=want)
        # momentum has no preferred direction
        kin = (z[:, 1] ** 2 + z[:, 3] ** 2).mean() / 2
        require(abs((z[:, 1] ** 2).mean() - kin) < kin * tol and abs((z[:, 1] * z[:, 3]).mean()) < kin * tol, "momentum directions",
                px2=(z[:, 1] ** 2).mean(), py2=(z[:, 3] ** 2).mean())
        # for each value of H the positions fill the region of lower potential evenly
        h = np.array([eps * (1 if kind == "nonlinear" else 4)]) if dist == "KV" else np.linspace(0, 1, 41)[1:] * e.max()
        if kind != "nonlinear" or t or np.sqrt(2 * h[-1]) < 0.01:
            want = region(t, 0.01, tuple(h))
            for i, k in ((0, 0), (2, 1)):
                q = np.interp(e, h, want[k]) if len(h) > 1 else want[k][0]
                fit = (e >= h[0]) | (len(h) == 1)
                r = (z[:, i] ** 2 / q)[fit]
                require(abs(r.mean() - 1) < 1.1 * tol + 0.02, "spread of the positions", plane=i, got=r.mean())
                top = np.interp(e, h, want[2 + k]) if len(h) > 1 else want[2 + k][0]
                require(np.max((np.abs(z[:, i]) / top)[fit]) > 0.9, "positions reach the limit of the region", plane=i)
        if t == 0:
            # equipartition in the linear case, no correlation of position and momentum
            for i in (0, 2):
                require(abs((z[:, i] ** 2).mean() - kin) < kin * tol, "position spread", got=(z[:, i] ** 2).mean(), want=kin)
        for i in (0, 2):
            s = math.sqrt((z[:, i] ** 2).mean() * (z[:, i + 1] ** 2).mean())
            require(abs((z[:, i] * z[:, i + 1]).mean()) < s * tol, "matched ellipse: no correlation in normal coordinates")
            require(abs(z[:, i].mean()) < math.sqrt((z[:, i] ** 2).mean()) * tol, "centroid")
        ch.observe(round(float(e.mean()), 12))

    def seeds(ch):
        from rsbeams.rsptcls import bunch
        import random
        cls = ch.pick("class", ("StandardBunch", "NonlinearBunch"), dev=False)
        dist = ch.pick("distribution", ("KV", "Gaussian") + (("waterbag",) if cls == "NonlinearBunch" else ()), dev=False)
        seed = ch.pick("seed", (0, 1, 12345, 0.5, 2 ** 40), dev=False)
        runs = []
        for s, noise in ((seed, 3), (seed, 8), (seed + 1, 3)):
            random.seed(noise)
            np.random.seed(noise)
            b = getattr(bunch, cls)(8, dist, seed=s)
            b.set_transverse_coordinates()
            b.set_longitudinal_coordinates(dpop=1e-3)
            runs.append(b.particles.copy())
        require(np.array_equal(runs[0], runs[1]), "bunches of one seed differ")
        require(not np.array_equal(runs[0][:, :4], runs[2][:, :4]) and not np.array_equal(runs[0][:, 4:6], runs[2][:, 4:6]),
                "bunches of different seeds are equal")
        ch.observe(cls, dist, seed)

    return [Harness("histories", histories, bound=3 if deep else 2), Harness("elliptic", elliptic), Harness("seeds", seeds),
            Harness("moments", moments, timeout=120)]
