"""C26: figures show the particles and quantities they were asked for (matplotlib figures are inspected, not pictures)."""
import itertools
import math
import os

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.figure import Figure
from matplotlib.path import Path

from mc import sddsref
from mc.core import Harness, require
from mc.rng import mix


def cloud(n, seed, sizes, offsets):
    out = []
    for j, (s, o) in enumerate(zip(sizes, offsets)):
        out.append([o + s * (mix(seed * 1000 + 17 * j + i * 7919) - 0.5) * (1 + (i == 0)) for i in range(n)])
    return np.array(out)


def close_all():
    plt.close("all")


def figure():
    nums = plt.get_fignums()
    require(len(nums) >= 1, "a figure is shown")
    return plt.figure(nums[-1])


def image(ax, x, y, bins, what):
    require(len(ax.images) == 1, what + ": one density", got=len(ax.images))
    im = ax.images[0]
    a = np.asarray(im.get_array())
    want, xe, ye = np.histogram2d(x, y, bins=bins)
    if a.shape == want.T.shape and im.origin == "upper":
        a = a[::-1]
    require(a.shape == want.T.shape, what + ": size of the density", got=a.shape, want=want.T.shape)
    require(a.sum() == len(x) and np.abs(a - want.T).sum() <= 0.02 * len(x), what + ": density of the particles",
            differences=np.abs(a - want.T).sum(), particles=a.sum())
    ext = im.get_extent()
    require(np.allclose(ext, (min(x), max(x), min(y), max(y)), rtol=1e-9, atol=1e-9 * max(abs(x).max(), abs(y).max())) or
            np.ptp(x) == 0 or np.ptp(y) == 0, what + ": range of the axes", got=ext, want=(min(x), max(x), min(y), max(y)))


def line(ax, what):
    require(len(ax.lines) == 1, what + ": one line", got=len(ax.lines))
    return np.asarray(ax.lines[0].get_xdata(), float), np.asarray(ax.lines[0].get_ydata(), float)


def profile_line(pos, counts, data, n, what):
    """counts of n equal bins of the data, drawn at the centers"""
    require(len(pos) == n, what + ": number of bins", got=len(pos), want=n)
    want, edges = np.histogram(data, bins=n)
    c = (edges[1:] + edges[:-1]) / 2
    require(np.all(np.abs(pos - c) <= 1e-9 * np.abs(edges).max()), what + ": positions", got=pos[:4], want=c[:4])
    require(np.abs(counts - want).sum() <= 0.02 * len(data), what + ": counts", differences=np.abs(counts - want).sum())


def three(fig):
    heat = [a for a in fig.axes if a.images]
    rest = [a for a in fig.axes if not a.images]
    require(len(heat) == 1 and len(rest) == 2, "a density and two profiles", got=len(fig.axes))
    right = max(rest, key=lambda a: a.get_position().x0)
    bottom = min(rest, key=lambda a: a.get_position().y0)
    require(right is not bottom and right.get_position().x0 >= heat[0].get_position().x1 - 1e-9 and
            bottom.get_position().y1 <= heat[0].get_position().y0 + 1e-9, "profiles are to the right of and below the density")
    return heat[0], right, bottom


COORDS = ("x", "xp", "y", "yp", "t", "p")


def beam_file(ch, npages, n, charge, other=True, order=COORDS, fixed=False):
    """an elegant-like file; returns (reader, pages) with pages[k][name] the data"""
    from rsbeams.rsdata.SDDS import readSDDS
    pages, data = [], []
    for k in range(npages):
        d = cloud(n, k + 1, (2e-3, 1e-4, 5e-4, 3e-5, 1e-11, 2.0), (1e-3, 0, -2e-4, 1e-6, 3e-9, 200.0 + 10 * k))
        d = dict(zip(COORDS, d))
        pages.append(d)
        params = []
        if other:
            params.append(17 + k)
        if charge is not None and not fixed:
            params.append(charge * (k + 1))
        data.append((params, [[d[c][i] for c in order] for i in range(n)]))
    head = []
    if other:
        head.append(dict(name="Step", type="long"))
    if charge is not None:
        head.append(dict(name="Charge", type="double", **({"fixed": charge} if fixed else {})))
    mode = ch.pick("mode", ("binary", "ascii"))
    spec = sddsref.Spec(mode, head, [dict(name=c, type="double") for c in order], data)
    with open("beam.sdds", "wb") as f:
        f.write(spec.encode())
    r = readSDDS("beam.sdds", buffer=ch.flag("buffer"))
    r.read()
    return r, pages


def harnesses(tier):
    deep = tier == "thorough"

    def options(ch, kw):
        page = ch.pick("page", (None, 0, 1, 2), dev=False)
        if page is not None:
            kw["page"] = page
        if ch.flag("save"):
            kw["save"] = "figure." + ch.pick("format", ("png", "pdf", "svg"), dev=False)
        return page or 0

    def saved(kw):
        if "save" in kw:
            require(os.path.getsize(kw["save"]) > 1000, "saved figure")
        else:
            require(sorted(os.listdir(".")) == ["beam.sdds"], "files written", got=os.listdir("."))

    def phase_space(ch):
        from rsbeams.rsplot import beam_plots
        close_all()
        r, pages = beam_file(ch, 3, ch.pick("particles", (60, 1, 2, 300)), ch.pick("charge", (1e-9, None)), ch.flag("step", dev=True),
                             ch.pick("order", (COORDS, COORDS[::-1])))
        kw = {}
        k = options(ch, kw)
        bins = ch.pick("bins", (None, 128, 5, 32))
        if bins is not None:
            kw["bins"] = bins
        beam_plots.phase_space(r, **kw)
        d = pages[k]
        fig = figure()
        require(len(fig.axes) == 4, "four projections", got=len(fig.axes))
        want = {("x (mm)", "x' (mrad)"): (d["x"] * 1e3, d["xp"] * 1e3), ("y (mm)", "y' (mrad)"): (d["y"] * 1e3, d["yp"] * 1e3),
                ("x (mm)", "y (mm)"): (d["x"] * 1e3, d["y"] * 1e3),
                ("t (ps)", r"$\delta$ ( )"): ((d["t"] - d["t"].mean()) * 1e12, d["p"] / d["p"].mean() - 1)}
        seen = set()
        for ax in fig.axes:
            key = (ax.get_xlabel(), ax.get_ylabel())
            require(key in want and key not in seen, "labels", got=key)
            seen.add(key)
            image(ax, want[key][0], want[key][1], bins or 128, str(key))
        saved(kw)
        close_all()
        ch.observe(k, bins, len(d["x"]))

    def longitudinal(ch):
        from rsbeams.rsplot import beam_plots
        close_all()
        stored = ch.pick("stored charge", (1e-9, None, 0.0, -2.5e-10), dev=False)
        given = ch.pick("given charge", (None, "auto", 3e-9, 1.0), dev=False)
        fixed = stored is not None and ch.flag("charge in the header")
        r, pages = beam_file(ch, 3, ch.pick("particles", (60, 2, 300)), stored, ch.flag("step"), fixed=fixed)
        kw = {}
        k = options(ch, kw)
        if given is not None:
            kw["charge"] = given
        beam_plots.longitudinal_phase_space(r, **kw)
        d = pages[k]
        heat, right, bottom = three(figure())
        t = (d["t"] - d["t"].mean()) * 1e12
        image(heat, t, d["p"], 128, "longitudinal phase space")
        counts, pos = line(right, "momentum profile")
        profile_line(pos, counts, d["p"], 256, "momentum profile")
        pos, cur = line(bottom, "current profile")
        charge = given if given not in (None, "auto") else stored * (1 if fixed else k + 1) if stored is not None else 0.0
        c, edges = np.histogram(t, bins=256)
        width = edges[1] - edges[0]
        if charge:
            # amperes over picoseconds
            profile_line(pos, cur * width * 1e-12 / (charge / len(t)), t, 256, "current profile")
            require("(A)" in bottom.get_ylabel(), "unit of the current", got=bottom.get_ylabel())
        else:
            require(abs(cur.max() - 1) < 1e-12, "normalised profile", got=cur.max())
            profile_line(pos, cur * c.max(), t, 256, "normalised profile")
            require("(A)" not in bottom.get_ylabel(), "unit of counts", got=bottom.get_ylabel())
        require("p" in heat.get_ylabel() and "c" in heat.get_ylabel(), "label of the momentum", got=heat.get_ylabel())
        require("ps" in bottom.get_xlabel(), "unit of time", got=bottom.get_xlabel())
        require(r.columns[k]["p"][0] == d["p"][0], "columns changed")
        saved(kw)
        close_all()
        ch.observe(stored, given, k)

    def transverse(ch):
        from rsbeams.rsplot import beam_plots
        close_all()
        r, pages = beam_file(ch, 3, ch.pick("particles", (60, 2, 300)), 1e-9, ch.flag("step"), ch.pick("order", (COORDS, COORDS[::-1])))
        kw = {}
        which = ch.pick("function", ("horizontal", "vertical", "projection"), dev=False)
        k = options(ch, kw)
        if which == "projection":
            a, b = ch.pick("coordinates", list(itertools.permutations(COORDS[:4], 2)), dev=False)
            labels = ch.pick("labels", (None, ("first", "second")), dev=False)
            if labels:
                kw.update(x_label=labels[0], y_label=labels[1])
            labels = labels or ("", "")
            beam_plots.phase_space_projection(r, a, b, **kw)
        elif which == "horizontal":
            a, b, labels = "x", "xp", ("x (mm)", "x' (mrad)")
            beam_plots.horizontal_phase_space(r, **kw)
        else:
            a, b, labels = "y", "yp", ("y (mm)", "y' (mrad)")
            beam_plots.vertical_phase_space(r, **kw)
        d = pages[k]
        x, y = d[a] * 1e3, d[b] * 1e3
        heat, right, bottom = three(figure())
        image(heat, x, y, 128, "phase space")
        counts, pos = line(right, "vertical profile")
        profile_line(pos, counts, y, 256, "vertical profile")
        pos, counts = line(bottom, "horizontal profile")
        profile_line(pos, counts, x, 256, "horizontal profile")
        require((bottom.get_xlabel(), heat.get_ylabel()) == labels, "labels", got=(bottom.get_xlabel(), heat.get_ylabel()), want=labels)
        saved(kw)
        close_all()
        ch.observe(which, a, b, k)

    META = {"Sx": [("symbol", '"$gs$r$bx$n"'), ("units", "m"), ("description", '"rms size"')],
            "Sy": [("units", "m"), ("description", '"vertical size"')],
            "enx": [("symbol", '"$ge$r$bx,n$n"'), ("units", '"m$be$nc"')],
            "ma1": [("symbol", '"max$sb$ex$sb$e"'), ("description", '"largest x"')]}
    META["tau"] = [("symbol", "t"), ("units", "s"), ("description", '"a time"')]
    META["psix"] = [("symbol", '"$gy$r$bx$n"'), ("units", "rad"), ("description", '"phase advance"')]
    SYMBOL = {"tau": "$t$", "psix": r"$\psi_{x}$", "Sx": r"$\sigma_{x}$", "Sy": "vertical size", "enx": r"$\varepsilon_{x,n}$", "ma1": "$max|x|$"}
    UNITS = {"tau": "$s$", "psix": "$rad$", "Sx": "$m$", "Sy": "$m$", "enx": "$m_{e}c$", "ma1": "$-$"}

    def beamline(ch):
        from rsbeams.rsdata.SDDS import readSDDS
        from rsbeams.rsplot import beam_plots
        close_all()
        names = list(META)
        quantities = ch.pick("quantities", [None] + [list(q) for n in (1, 2) for q in itertools.permutations(names[:4], n)] +
                             [["tau"], ["psix", "enx"], names[:3], ["psix", "Sx", "tau"], ["ma1", "tau", "Sy", "Sx"], names], dev=False)
        types = ["MARK", "DRIF", "QUAD", "CSBEND", "RFCA"]
        s = [0.0, 0.5, 0.75, 2.0, 2.5]
        cols = ["s", "ElementType"] + names
        order = ch.pick("order", (cols, cols[::-1]))
        npages = 2
        pages = []
        for k in range(npages):
            d = {"s": [x * (k + 1) for x in s], "ElementType": types}
            for j, q in enumerate(names):
                d[q] = [1e-3 * mix(100 * k + 10 * j + i) for i in range(5)]
            pages.append(d)
        spec = sddsref.Spec(ch.pick("mode", ("binary", "ascii")), [dict(name="Step", type="long")],
                            [dict(name=c, type="string" if c == "ElementType" else "double", meta=META.get(c, ())) for c in order],
                            [([k], [[d[c][i] for c in order] for i in range(5)]) for k, d in enumerate(pages)])
        with open("beam.sdds", "wb") as f:
            f.write(spec.encode())
        r = readSDDS("beam.sdds", buffer=ch.flag("buffer"))
        r.read()
        kw = {}
        page = ch.pick("page", (None, 0, 1), dev=False)
        if page is not None:
            kw["page"] = page
        if quantities is not None:
            kw["quantities"] = list(quantities)
        limits = ch.pick("limits", ("", "xlim", "ylim", "xlim ylim"))
        for lim, v in (("xlim", (0.25, 1.5)), ("ylim", (-1e-3, 4e-3))):
            if lim in limits:
                kw[lim] = v
        if ch.flag("save"):
            kw["save"] = "figure.png"
        beam_plots.beamline_profile(r, **kw)
        d = pages[page or 0]
        q = quantities or ["Sx", "Sy"]
        fig = figure()
        main = [a for a in fig.axes if a.get_legend() is not None]
        require(len(main) == 1 and len(fig.axes) == 2, "axes", got=len(fig.axes))
        main = main[0]
        top = [a for a in fig.axes if a is not main][0]
        require(len(main.lines) == len(q), "one line per quantity", got=len(main.lines))
        for l, name in zip(main.lines, q):
            require(np.allclose(l.get_xdata(), d["s"], rtol=1e-12) and np.allclose(l.get_ydata(), d[name], rtol=1e-12), "line of " + name,
                    x=l.get_xdata(), y=l.get_ydata(), want=d[name])
        legend = [t.get_text() for t in main.get_legend().get_texts()]
        require(legend == [SYMBOL[n] for n in q], "legend", got=legend, want=[SYMBOL[n] for n in q])
        want = ",".join(SYMBOL[n] for n in q) + " (" + ",".join(UNITS[n] for n in q) + ")"
        require(main.get_ylabel() == want, "label", got=main.get_ylabel(), want=want)
        require("(m)" in main.get_xlabel(), "label of the position", got=main.get_xlabel())
        require(len(top.collections) == 1 and len(top.collections[0].get_paths()) == 3, "magnets on the top")
        ends = sorted((float(p.vertices[:, 0].min()), float(p.vertices[:, 0].max())) for p in top.collections[0].get_paths())
        f = (page or 0) + 1
        require(np.allclose(ends, [(0.5 * f, 0.75 * f), (0.75 * f, 2 * f), (2 * f, 2.5 * f)]), "places of the magnets", got=ends)
        require(top.get_xlim() == main.get_xlim(), "magnets and quantities have the same axis", got=(top.get_xlim(), main.get_xlim()))
        if "xlim" in kw:
            require(main.get_xlim() == kw["xlim"], "given limits", got=main.get_xlim())
        else:
            require(main.get_xlim()[0] <= 0 and main.get_xlim()[1] >= d["s"][-1], "limits", got=main.get_xlim())
        if "ylim" in kw:
            require(main.get_ylim() == kw["ylim"], "given limits", got=main.get_ylim())
        else:
            lo, hi = min(min(d[n]) for n in q), max(max(d[n]) for n in q)
            require(main.get_ylim()[0] <= lo and main.get_ylim()[1] >= hi, "limits", got=main.get_ylim())
        saved(kw)
        close_all()
        ch.observe(q, page)

    def scatter(ch):
        """histories of RsScatterPS6D objects"""
        from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        close_all()
        names = ["x [m]", "px/p0", "y [m]", "py/p0", "s [m]", "dp/p0"]
        objs = []

        def new(k):
            n = ch.pick("particles %d" % k, (5, 2, 40))
            offset = ch.pick("offset %d" % k, (0.0, 10.0, -10.0))
            d = cloud(n, 40 + k, (2e-3, 1e-4, 5e-4, 3e-5, 1.0, 2.0), (offset * 1e-3, 0, 0, offset * 1e-5, 0, offset))
            ps = RsPhaseSpace6D(n)
            ps.set_array_6d(d)
            o = RsScatterPS6D(ps)
            objs.append({"o": o, "d": d.copy(), "label": list(names), "title": o.get_title()})

        new(0)
        shown = []          # (figure number, object, h, v, title, labels)
        current = None
        for step in range(4 if deep else 3):
            op = ch.pick("step %d" % step, ("plot", "label", "title", "new", "data", "save", "clear"), dev=step > 0)
            m = objs[-1] if len(objs) == 1 else objs[ch.pick("object %d" % step, (0, 1), dev=False)]
            o = m["o"]
            if op == "plot":
                h, v = ch.pick("axes %d" % step, ((0, 1), (5, 2), (3, 3)) if step == 0 else ((0, 1), (5, 2)), dev=False)
                before = set(plt.get_fignums())
                o.plot_data6d(h, v)
                fig = plt.gcf()
                require(fig.number not in before or fig.number not in [s[0] for s in shown], "a plot goes to its own figure",
                        figure=fig.number)
                current = (fig.number, m, h, v, m["title"], list(m["label"]))
                shown.append(current)
            elif op == "label":
                i = ch.pick("index %d" % step, (0, 5, 2) if not step else (1,), dev=False)
                m["label"][i] = ch.pick("text %d" % step, ("horizontal position [mm]", "y"), dev=step > 0)
                o.set_label(i, m["label"][i])
            elif op == "title":
                m["title"] = "a title"
                o.set_title("a title")
            elif op == "new":
                if len(objs) < 2:
                    new(1)
            elif op == "data":
                m["d"] = cloud(7, 99, (1, 1, 1, 1, 1, 1), (0, 1, 2, 3, 4, -5))
                o.set_data6d(m["d"].copy())
            elif op == "save" and shown:
                name = "plot%d.png" % step
                o.save_plots(name)
                require(os.path.getsize(name) > 1000, "saved plot")
                shown = [s for s in shown if s[0] != plt.gcf().number]
            elif op == "clear" and shown:
                n = plt.gcf().number
                o.clear_plots()
                shown = [s for s in shown if s[0] != n]
                require(n not in plt.get_fignums(), "figure is closed")
            for m in objs:
                require(m["o"].get_title() == m["title"], "title", got=m["o"].get_title(), want=m["title"])
                for i in range(6):
                    require(str(m["o"].get_label(i)) == m["label"][i], "label", got=m["o"].get_label(i), want=m["label"][i])
                require(np.array_equal(m["o"].get_data6d(), m["d"]), "data changed")
        for num, m, h, v, title, labels in shown:
            fig = plt.figure(num)
            require(len(fig.axes) == 1 and len(fig.axes[0].collections) == 1, "one distribution per figure",
                    got=[len(a.collections) for a in fig.axes])
            ax = fig.axes[0]
            xy = np.asarray(ax.collections[0].get_offsets(), float)
            # set_data6d after the plot does not change it, so look for the data of that time
            ok = xy.shape[1] == 2 and ax.get_title() == title and ax.get_xlabel() == labels[h] and ax.get_ylabel() == labels[v]
            require(ok, "title and labels", got=(ax.get_title(), ax.get_xlabel(), ax.get_ylabel()), want=(title, labels[h], labels[v]))
            for c, i, lim in ((0, h, ax.get_xlim()), (1, v, ax.get_ylim())):
                if len(xy) == m["d"].shape[1]:
                    require(np.array_equal(xy[:, c], m["d"][i]), "particles are drawn where they are", got=xy[:, c], want=m["d"][i])
                require(lim[0] <= xy[:, c].min() and lim[1] >= xy[:, c].max() and abs(lim[0] + lim[1]) <= 1e-12 * lim[1],
                        "symmetric limits that contain all particles", got=lim, data=xy[:, c])
        close_all()
        ch.observe(len(shown), [s[2:] for s in shown])

    def axes(ch):
        from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        close_all()
        n = ch.pick("particles", (4, 2), dev=False)
        d = cloud(n, 5, (1,) * 6, [ch.pick("offset", (0.0, 9.0, -9.0), dev=False)] * 6) * np.array([[1, 2, 3, 4, 5, 6.0]]).T
        ps = RsPhaseSpace6D(n)
        ps.set_array_6d(d.copy())
        o = RsScatterPS6D(ps)
        h, v = ch.pick("axes", list(itertools.product(range(6), range(6))), dev=False)
        o.plot_data6d(h, v)
        ax = plt.gcf().axes[0]
        require(np.array_equal(np.asarray(ax.collections[0].get_offsets(), float), d[[h, v]].T), "particles are drawn where they are",
                axes=(h, v))
        for lim, w in ((ax.get_xlim(), d[h]), (ax.get_ylim(), d[v])):
            m = np.abs(w).max()
            require(abs(lim[0] + m) <= 1e-12 * m and abs(lim[1] - m) <= 1e-12 * m, "symmetric limits at the outermost particle", got=lim,
                    data=w)
        require((ax.get_xlabel(), ax.get_ylabel()) == (o.get_label(h), o.get_label(v)), "labels")
        close_all()
        ch.observe(h, v)

    def refused(ch):
        from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        n = ch.pick("particles", (1, 2, 3), dev=False)
        ps = RsPhaseSpace6D(n)
        ps.set_array_6d(np.arange(6.0 * n).reshape(6, n))
        try:
            RsScatterPS6D(ps)
            res = "done"
        except Exception as e:
            res = "refused"
        require(res == ("refused" if n < 2 else "done"), "number of particles", got=res, particles=n)
        ch.observe(res)

    def contour(ch):
        from rsbeams.rsplot.plot_ptcls import scatter_contour
        flag = ch.pick("flag", ("contour", "combo", "scatter", "scatter-line", "line"), dev=False)
        typ = ch.pick("type", ("linear", "log-log", "semi-logx", "semi-logy"), dev=False)
        n = ch.pick("particles", (400, 3, 40, 2000), dev=False)
        shape = ch.pick("distribution", ("one", "two", "ring", "ring and center"), dev=False)
        pts = cloud(n, 7, (1.0, 1.0), (3.0, 5.0))
        if shape == "two":
            pts[0, ::2] += 6.0
        elif shape.startswith("ring"):
            a = np.linspace(0, 6.28, n)
            pts = np.array([10 + 5 * np.cos(a), 20 + 7 * np.sin(a)]) + 0.1 * cloud(n, 3, (1, 1), (0, 0))
            if shape.endswith("center"):
                pts[:, :n // 100 + 1] = 0.1 * (pts[:, :n // 100 + 1] - [[10], [20]]) + [[10], [20]]
        if ch.flag("some not positive"):
            pts -= np.median(pts, axis=1)[:, None] * 0.97
        x, y = pts
        kw = {}
        divs = ch.pick("divs", (None, 5, 20))
        levels = ch.pick("levels", (None, 3, (1, 2, 5)))
        if divs is not None:
            kw["divs"] = divs
        if levels is not None:
            kw["levels"] = levels
        keep = pts.copy()
        ax = Figure().add_subplot()
        ref = scatter_contour(flag, typ, x, y, ax, **kw)
        require(np.array_equal(pts, keep), "data changed")
        dots = [c for c in ax.collections if hasattr(c, "get_offsets") and len(c.get_offsets()) > 0 and len(np.asarray(c.get_offsets())) and
                not hasattr(c, "levels")]
        dots = np.concatenate([np.asarray(c.get_offsets(), float) for c in dots]) if dots else np.empty((0, 2))
        want = set(zip(x.tolist(), y.tolist()))
        drawn = set(map(tuple, dots.tolist()))
        require(drawn <= want, "dots are particles", got=len(drawn - want))
        if flag in ("scatter", "scatter-line"):
            require(drawn == want, "all particles are drawn", missing=len(want - drawn))
        elif flag == "combo":
            # a particle is drawn or lies in the region of the contours
            # (the contours are interpolated between the counts, which are spread over the whole extent)
            counts, xe, ye = np.histogram2d(x, y, divs or 10)
            threshold = min(ref.levels)
            for px, py in want - drawn:
                gx, gy = (px - xe[0]) / (xe[-1] - xe[0]) * (len(xe) - 2), (py - ye[0]) / (ye[-1] - ye[0]) * (len(ye) - 2)
                i, j = min(int(gx), len(xe) - 3), min(int(gy), len(ye) - 3)
                near = counts[i:i + 2, j:j + 2]
                u, v = gx - i, gy - j
                density = near[0, 0] * (1 - u) * (1 - v) + near[1, 0] * u * (1 - v) + near[0, 1] * (1 - u) * v + near[1, 1] * u * v
                # inside of a cell a contour is a straight line
                require(density >= threshold - 0.5 * np.ptp(near) - 1e-6, "particle of low density is not drawn", x=px, y=py,
                        counts=near, threshold=threshold)
        else:
            require(not drawn, "no dots", got=len(drawn))
        lines = [np.array(l.get_xydata()) for l in ax.lines]
        if flag.endswith("line"):
            require(len(lines) == 1 and np.array_equal(lines[0], pts.T), "line through all particles", got=[l.shape for l in lines])
        else:
            require(not lines, "no lines", got=[l.shape for l in lines])
        if flag in ("contour", "combo"):
            require(ref is not None and np.all(np.diff(ref.levels) > 0), "contours are returned")
            if levels == (1, 2, 5):
                require(list(ref.levels) == list(levels), "given levels", got=ref.levels)
            else:
                # without dots every bin with a particle belongs to the contours
                require(flag == "combo" or min(ref.levels) <= 1, "contours start at one particle", got=ref.levels)
            if levels and levels != (1, 2, 5):
                require(len(ref.levels) == levels, "number of levels", got=ref.levels)
        if flag in ("scatter", "scatter-line", "line"):
            scales = (ax.get_xscale(), ax.get_yscale())
            want = ("log" if typ in ("log-log", "semi-logx") else "linear", "log" if typ in ("log-log", "semi-logy") else "linear")
            require(scales == want, "scales of the axes", got=scales, want=want)
            for lim, v, scale in ((ax.get_xlim(), x, want[0]), (ax.get_ylim(), y, want[1])):
                if scale == "log":              # others have no place on the axis
                    v = v[v > 0]
                    if not len(v):
                        continue
                require(lim[0] <= v.min() and lim[1] >= v.max(), "all particles are within the axes", got=lim, data=(v.min(), v.max()))
        ch.observe(flag, typ, n, shape, len(drawn))

    def mesh(ch):
        from rsbeams.rsplot.plot_ptcls import scatter_contour
        nx = ch.pick("nx", (2, 5, 9), dev=False)
        ny = ch.pick("ny", (2, 5, 7), dev=False)
        lx, ly = ch.pick("range", ((1.0, 1.0), (2.0, 0.5), (1e-3, 40.0)), dev=False)
        xs, ys = np.linspace(1, 1 + lx, nx), np.linspace(-2, -2 + ly, ny)
        X, Y = np.meshgrid(xs, ys)
        z = ((X - 1) / lx + 10 * (Y + 2) / ly).ravel()
        kw = {}
        levels = ch.pick("levels", (None, 4, (0.0, 3.0, 11.0)), dev=False)
        if levels is not None:
            kw["levels"] = levels
        ax = Figure().add_subplot()
        ref = scatter_contour("contour", "linear", [xs, ys], z, ax, **kw)
        if isinstance(levels, tuple):
            require(list(ref.levels) == list(levels), "given levels", got=ref.levels)
        else:
            require(np.allclose(ref.levels, np.linspace(0, 11, levels or 10)), "levels", got=ref.levels)
        # boundaries of the filled regions are lines of constant value (or the border)
        inner = list(ref.levels)[1:-1]
        seen = set()
        for p in ref.get_paths():
            for vx, vy in p.vertices:
                u, w = (vx - 1) / lx, (vy + 2) / ly
                require(-1e-9 <= u <= 1 + 1e-9 and -1e-9 <= w <= 1 + 1e-9, "contours within the mesh", got=(vx, vy))
                val = u + 10 * w
                border = min(u, 1 - u, w, 1 - w) < 1e-9
                near = [l for l in ref.levels if abs(val - l) < 1e-6]
                seen.update(near)
                require(border or near, "contour at its value", at=(vx, vy), value=val, levels=ref.levels)
        require(all(l in seen for l in inner), "all levels are drawn", got=seen, want=inner)
        ch.observe(nx, ny, len(seen))

    def levels(ch):
        from rsbeams.rsplot.plot_ptcls import gen_contour_levels
        scale = ch.pick("scale", (1.0, 1e-6, 0.02, 1e5), dev=False)
        lo, hi = ch.pick("field", ((-1.0, 2.0), (0.0, 1.0), (-3.0, -1.0), (1.0, 2.0), (2.0, 2.0), (-1.5, 1.5), (-0.1, 0.0)), dev=False)
        n = ch.pick("levels", (None, 1, 2, 7, 40), dev=False)
        mult = ch.pick("multiplier", (None, 1.5), dev=False)
        kw = {} if n is None else {"nLevels": n}
        if mult:
            kw["multiplier"] = mult
        field = np.array([[lo, hi], [hi, lo]]) * scale
        out = np.array(gen_contour_levels(field, **kw), dtype=float)
        n, mult = n or 40, mult or 1.1
        top = mult * max(abs(lo), abs(hi)) * scale
        require(len(out) == n, "number of levels", got=len(out))
        require(abs(out[0] + top) <= 6e-4 * max(top, 1) and abs(out[0] + top) <= 6e-3 * top, "levels start below the field", got=out[0], want=-top)
        require(np.allclose(np.diff(out), -2 * out[0] / n, rtol=1e-9) and (n == 1 or np.all(np.diff(out) > 0)), "equal steps", got=out)
        ch.observe(np.round(out / scale, 6).tolist())

    b = 2 if deep else 1
    return [Harness("phase_space", phase_space, bound=b, timeout=60), Harness("longitudinal", longitudinal, bound=b, timeout=60),
            Harness("transverse", transverse, bound=b, timeout=60), Harness("beamline", beamline, bound=b, timeout=60),
            Harness("scatter", scatter, bound=b + 1, timeout=60), Harness("axes", axes), Harness("refused", refused), Harness("contour", contour, bound=b),
            Harness("mesh", mesh), Harness("levels", levels)]
