"""C21: RsPtclBeam6D / RsDistrib6D / RsPhaseSpace6D.  The harness owns the random numbers: a fixed equidistributed stream in
which every draw can be replaced by adversarial values."""
import math
import os

import numpy as np
from scipy import constants

from mc.core import Harness, require
from mc.rng import Stream

def adversary(ch, count):
    """the first draws may be adversarial"""
    return lambda i: ch.pick("draw %d" % i, (None, 0.0, 1.0 - 2.0 ** -53, 0.5, 1e-9)) if i < count else None


ALPHAS = (0.0, 1.3, -0.75, 0.75, -2.0, 20.0, 1e-9, -3e3)
BETAS = (1.25, 1.0, 0.02, 12.5, 600.0, 0.5, 2e9, 4e-8)
EMITS = (1e-6, 2.5e-9, 1.0, 4e-4, 1e-16)


def covariance(a):
    L = a.astype(np.longdouble)
    m = L.mean(axis=1)
    d = L - m[:, None]
    return m.astype(float), (d @ d.T / a.shape[1]).astype(float)


def sigma_of(twiss):
    s = np.zeros((6, 6))
    for i, (al, be, em) in enumerate(twiss):
        s[2 * i:2 * i + 2, 2 * i:2 * i + 2] = em * np.array([[be, -al], [-al, (1 + al * al) / be]])
    return s


def check_sigma(a, s, mean, what, em_of=None):
    m, c = covariance(a)
    root = np.sqrt(np.diag(s))
    require(np.all(np.abs(m - mean) <= 1e-9 * root + 1e-12 * np.abs(mean)), what + ": average", got=m, want=mean)
    require(np.all(np.abs(c - s) <= 1e-9 * np.outer(root, root)), what + ": covariance", got=c, want=s)
    # round ellipses after normalisation: this shows alpha even if it is small, and the emittance even if alpha is large
    t = np.eye(6)
    for i in (0, 2, 4):
        be, al = s[i, i], -s[i, i + 1]
        em = math.sqrt(max(s[i, i] * s[i + 1, i + 1] - al * al, 0)) if em_of is None else em_of[i // 2]
        t[i, i] = 1 / math.sqrt(be)
        t[i + 1, i] = al / math.sqrt(be) / em
        t[i + 1, i + 1] = math.sqrt(be) / em
    b = t @ (a - np.asarray(mean)[:, None])
    _, d = covariance(b)
    al2 = np.array([x for i in (0, 2, 4) for x in (0, s[i, i + 1] ** 2 / s[i, i] / s[i + 1, i + 1])])
    tol = 1e-9 + 1e-12 / np.sqrt(np.maximum(1 - al2, 1e-15))
    require(np.all(np.abs(d - np.eye(6)) <= np.maximum.outer(tol, tol)), what + ": normalised covariance", got=d)


def check_twiss(t, want, what):
    al, be, em = want
    ga = (1 + al * al) / be
    tol = 1e-8 + 1e-13 * (1 + al * al)
    for name, w in (("alpha_rms", al), ("beta_rms", be), ("emit_rms", em), ("gamma_rms", ga)):
        g = getattr(t, "get_" + name)()
        require(abs(g - w) <= tol * max(abs(w), 1.0 if name == "alpha_rms" else 0), what + ": " + name, got=g, want=w)


def refuse(f, what):
    try:
        f()
    except Exception as e:
        return e
    require(False, what + " was accepted")


def harnesses(tier):
    deep = tier == "thorough"

    def beam(ch):
        from rsbeams.rsptcls import RsPtclBeam6D
        kind = ch.pick("distribution", ("gaussian", "uniform"), dev=False)
        n = ch.pick("particles", (9, 8, 15) + ((40,) if deep else ()))
        fac = ch.pick("max_rms_fac", (4.7, 1.0, 100))
        plane = ch.pick("plane", (0, 1, 2), dev=not deep)
        tw = [(0.5, 2.0, 1e-6), (-1.5, 8.0, 3e-7), (0.0, 0.3, 1e-5)]
        tw[plane] = (ch.pick("alpha", ALPHAS, dev=False), ch.pick("beta", BETAS, dev=False), ch.pick("emittance", EMITS))
        for other in range(3):
            if other != plane and ch.flag("same ellipse in plane %d" % other):
                tw[other] = tw[plane]
        p0 = ch.pick("momentum", (1e8, 2e5, 0.511e6, 7e12, 150.0))
        q = ch.pick("charge", (1e-9, 0.0, 3.2e-10, -1e-9))
        mass = ch.pick("mass", (0.511e6, 938.27e6))
        with Stream(adversary(ch, 4 if deep else 2)):
            b = RsPtclBeam6D.RsPtclBeam6D(n, p0, q, mass, kind, fac, *[x for t in tw for x in t])
        ps = b.get_distrib6d().get_phase_space_6d()
        a = ps.get_array_6d()
        require(a.shape == (6, n) and ps.get_num_ptcls() == n, "number of particles", got=a.shape)
        s = sigma_of(tw)
        check_sigma(a, s, np.zeros(6), "beam", [t[2] for t in tw])
        for name, t in zip(("twiss_x", "twiss_y", "twiss_z"), tw):
            check_twiss(b.get_twiss2d_by_name(name), t, "requested " + name)
        bg = p0 / mass
        for got, want, what in ((b.get_beta0_gamma0(), bg, "beta gamma"), (b.get_gamma0(), math.hypot(1, bg), "gamma"),
                                (b.get_beta0(), bg / math.hypot(1, bg), "beta"), (b.get_design_p_ev(), p0, "momentum"),
                                (b.get_total_charge_c(), q, "charge"), (b.get_mass_ev(), mass, "mass")):
            require(abs(got - want) <= 1e-12 * abs(want), what, got=got, want=want)
        keep = a.copy()
        d = b.get_distrib6d()
        require(d.get_distrib_type() == kind and d.get_max_rms_fac() == fac, "distribution parameters")
        want_i = q * (bg / math.hypot(1, bg)) * constants.c / math.sqrt(s[4, 4])
        require(abs(b.get_peak_current_rms() - want_i) <= 1e-8 * abs(want_i), "peak current", got=b.get_peak_current_rms(), want=want_i)
        # history of operations on the beam
        mean = np.zeros(6)
        scale = np.ones(6)
        for step in range(2):
            op = ch.pick("operation %d" % step, ("nothing", "offset", "multiply", "bad index", "statistics", "measure twiss"))
            if op == "offset":
                i = ch.pick("index", range(6), dev=False)
                v = ch.pick("offset", (0.25, -1.5), dev=False)
                d.offset_component(v, i)
                mean[i] += v
                keep = keep.copy()
                keep[i] += v
            elif op == "multiply":
                i = ch.pick("index", range(6), dev=False)
                v = ch.pick("factor", (-3.0, 0.125), dev=False)
                d.multiply_component(v, i)
                mean[i] *= v
                scale[i] *= v
                keep = keep.copy()
                keep[i] *= v
            elif op == "bad index":
                for i in (-1, 6, 7):
                    refuse(lambda: d.offset_component(1.0, i), "index %d" % i)
                    refuse(lambda: d.multiply_component(2.0, i), "index %d" % i)
            elif op == "statistics":
                av, rms = d.calc_averages_6d(), d.calc_rms_values_6d()
                r = np.sqrt(np.diag(s)) * np.abs(scale)
                require(np.all(np.abs(av - mean) <= 1e-8 * r + 1e-12 * np.abs(mean)), "averages", got=av, want=mean)
                require(np.all(np.abs(rms - r) <= 1e-7 * r), "rms values", got=rms, want=r)
            elif op == "measure twiss":
                b.calc_twiss6d()
                for k, name in enumerate(("twiss_x", "twiss_y", "twiss_z")):
                    al, be, em = tw[k]
                    sx, sp = scale[2 * k], scale[2 * k + 1]
                    e = abs(sx * sp)
                    check_twiss(b.get_twiss2d_by_name(name), (al * sx * sp / e, be * sx * sx / e, em * e), "measured " + name)
            a = b.get_distrib6d().get_phase_space_6d().get_array_6d()
            require(np.allclose(a, keep, rtol=1e-14, atol=0), "particles", op=op)
        ch.observe(kind, tw, np.round(a / np.sqrt(np.diag(s))[:, None], 6).tolist())

    def measured(ch):
        """The Twiss functions of all planes, measured after any two operations."""
        from rsbeams.rsptcls import RsPtclBeam6D
        kind = ch.pick("distribution", ("gaussian", "uniform"), dev=False)
        tw = []
        for i in range(3):
            tw.append((ch.pick("alpha %d" % i, (0.5, -1.5, 0.0)), ch.pick("beta %d" % i, (2.0, 0.3, 40.0)),
                       ch.pick("emittance %d" % i, (1e-6, 1e-16, 3.0))))
        with Stream():
            b = RsPtclBeam6D.RsPtclBeam6D(9, 1e8, 1e-9, 0.511e6, kind, 4.0, *[x for t in tw for x in t])
        scale = np.ones(6)
        d = b.get_distrib6d()
        for step in range(2):
            op = ch.pick("operation %d" % step, ("offset", "multiply"), dev=False)
            i = ch.pick("index %d" % step, range(6), dev=False)
            if op == "offset":
                d.offset_component(-2.0 * math.sqrt(sigma_of(tw)[i, i]) * abs(scale[i]), i)
            else:
                f = ch.pick("factor %d" % step, (-3.0, 0.125), dev=False)
                d.multiply_component(f, i)
                scale[i] *= f
        if ch.flag("no emittance in one plane"):
            d.multiply_component(0.0, ch.pick("flat index", range(6), dev=False))
            refuse(b.calc_twiss6d, "a plane without emittance")
            ch.observe("flat")
            return
        b.calc_twiss6d()
        for k, name in enumerate(("twiss_x", "twiss_y", "twiss_z")):
            al, be, em = tw[k]
            sx, sp = scale[2 * k], scale[2 * k + 1]
            e = abs(sx * sp)
            check_twiss(b.get_twiss2d_by_name(name), (al * sx * sp / e, be * sx * sx / e, em * e), "measured " + name)
        l = sigma_of(tw)[4, 4] * scale[4] ** 2
        bg = 1e8 / 0.511e6
        want = 1e-9 * bg / math.hypot(1, bg) * constants.c / math.sqrt(l)
        require(abs(b.get_peak_current_rms() - want) <= 1e-8 * want, "peak current", got=b.get_peak_current_rms(), want=want)
        ch.observe(tw, scale.tolist())

    def distribution(ch):
        from rsbeams.rsptcls import RsDistrib6D
        kind = ch.pick("distribution", ("gaussian", "uniform", "Gaussian", "", None), dev=False)
        n = ch.pick("particles", (8, 7, 9, 25, 0, -1), dev=False)
        fac = ch.pick("max_rms_fac", (3.0, 0.5, 1e9, 0, -1.0), dev=False)
        make = lambda: RsDistrib6D.RsDistrib6D(n, kind, fac)
        with Stream(adversary(ch, 12 if deep else 8)):
            if kind not in ("gaussian", "uniform") or n <= 0 or fac <= 0:
                e = refuse(make, "distribution %r, %r particles, factor %r" % (kind, n, fac))
                require(not isinstance(e, (AttributeError, TypeError, NameError)), "helpful error", got=e)
                ch.observe(type(e).__name__)
                return
            d = make()
        a = d.get_phase_space_6d().get_array_6d()
        require(a.shape == (6, n), "number of particles", got=a.shape)
        if n > 7:
            check_sigma(a, np.eye(6), np.zeros(6), "clean distribution")
        ch.observe(kind, n, np.round(a, 6).tolist())

    def shape(ch):
        """Uniform beams fill one ball of positions and one of momenta, Gaussian ones have normal coordinates that are cut.
        The coordinates may be turned by the removal of correlations, so only the distance in phase space is looked at."""
        from rsbeams.rsptcls import RsDistrib6D
        kind, fac = ch.pick("distribution", (("uniform", 3.0), ("uniform", 1.0), ("gaussian", 1e9), ("gaussian", 1.0)), dev=False)
        n = ch.pick("particles", (1500, 500) + ((6000,) if deep else ()), dev=False)
        with Stream(start=ch.pick("stream", (1, 5000000, 90000000) if deep else (1, 5000000), dev=False)) as st:
            d = RsDistrib6D.RsDistrib6D(n, kind, fac)
        a = d.get_phase_space_6d().get_array_6d()
        r2 = np.sum(a * a, axis=0)
        # fourth moment of one coordinate in units of its variance, largest distance
        if kind == "uniform":
            want, top = 2 * 75 / 7 + 2 * 9, 10.0
        elif fac == 1.0:
            want, top = 6 * 1.9409 + 30, 6 / 0.29113
        else:
            want, top = 48.0, math.inf
        got = float(np.mean(r2 * r2))
        require(abs(got - want) <= 90.0 / math.sqrt(n), "fourth moment of the distance in phase space", got=got, want=want, n=n)
        require(r2.max() <= top * (1 + 6 / math.sqrt(n)), "largest distance in phase space", got=r2.max(), want=top)
        require(len({tuple(q) for q in a.T.tolist()}) == n and len(set(a[0].tolist())) == n, "particles are different")
        for i in range(6):
            for j in range(i):
                require(len(np.unique(np.round(a[i] - a[j], 12))) > n - 3, "coordinates are different", i=i, j=j)
        ch.observe(kind, fac, n, round(got, 6), len(st.uniforms) + len(st.normals))

    def storage(ch):
        from rsbeams.rsptcls import RsPhaseSpace6D
        n = ch.pick("particles", (3, 1, 6), dev=False)
        p = RsPhaseSpace6D.RsPhaseSpace6D(n)
        q = RsPhaseSpace6D.RsPhaseSpace6D(2)
        q.get_array_6d()[:] = 5
        model = np.zeros((6, n))
        name = "ps6d"
        files = {}
        for step in range(4 if deep else 3):
            op = ch.pick("operation %d" % step, ("set_array", "write", "read", "set_num", "set_file", "edit view", "bad array",
                                                "bad number", "bad file", "check"), dev=False)
            if op == "set_array":
                m = ch.pick("with", (2, 4, n), dev=False)
                model = np.arange(6.0 * m).reshape(6, m) + step
                p.set_array_6d(ch.pick("as", (np.array, np.ndarray.tolist), dev=False)(model))
            elif op == "write":
                p.write_array()
                files[name] = model.copy()
            elif op == "read":
                if name in files:
                    p.read_array()
                    model = files[name].copy()
                else:
                    refuse(p.read_array, "a missing file")
            elif op == "set_num":
                m = ch.pick("to", (1, 5), dev=False)
                p.set_num_ptcls(m)
                model = np.zeros((6, m))
            elif op == "set_file":
                name = ch.pick("file", ("b", "a.b"), dev=False)
                p.set_file_name(name)
            elif op == "edit view":
                p.get_array_6d()[2, -1] = 9.5
                model[2, -1] = 9.5
            elif op == "bad array":
                bad = ch.pick("shape", ((5, 3), (6, 0), (18,), (1, 6, 3)), dev=False)
                refuse(lambda: p.set_array_6d(np.zeros(bad)), "array of shape %s" % (bad,))
            elif op == "bad number":
                refuse(lambda: p.set_num_ptcls(0), "0 particles")
                refuse(lambda: p.set_num_ptcls(-3), "-3 particles")
            elif op == "bad file":
                refuse(lambda: p.set_file_name(""), "empty file name")
            else:
                p.check_array()
            require(p.get_num_ptcls() == model.shape[1], "number of particles", got=p.get_num_ptcls(), want=model.shape[1], after=op)
            require(p.get_file_name() == name, "file name", got=p.get_file_name())
            require(np.array_equal(p.get_array_6d(), model), "array", got=p.get_array_6d(), want=model, after=op)
            for i, c in enumerate(("x", "xp", "y", "yp", "s", "dp")):
                require(np.array_equal(getattr(p, "get_array_" + c)(), model[i]), "coordinate " + c)
            require(np.all(q.get_array_6d() == 5) and q.get_num_ptcls() == 2, "another phase space was changed")
            require(sorted(os.listdir(".")) == sorted(f + ".npz" for f in files), "files", got=os.listdir("."))
        ch.observe(model.tolist(), name, sorted(files))

    return [Harness("beam", beam, bound=2 if deep else 1), Harness("measured", measured, bound=2 if deep else 1),
            Harness("distribution", distribution, bound=2 if deep else 1),
            Harness("shape", shape, bound=0, timeout=120), Harness("storage", storage)]
