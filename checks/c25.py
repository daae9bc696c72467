"""C25: what rsplot.util computes for plots: magnet profiles, symbols of SDDS quantities, histograms and beam currents."""
import itertools
import math
from fractions import Fraction

import matplotlib.colors
import matplotlib.mathtext
import numpy as np
from matplotlib.figure import Figure

from mc.core import Harness, require

GROUPS = (("KQUAD", "QUAD"), ("SBEND", "CSBEND", "CSRCSBEND", "RBEND", "SBEN"), ("SEXT",), ("RFCW", "RFCA"), ("OCTU", "KOCT"))
GROUP = {t: i for i, g in enumerate(GROUPS) for t in g}
OTHER = ("DRIF", "MARK", "WATCH", "quad", "QUADS", "")
GREEK = {"a": "\u03b1", "b": "\u03b2", "g": "\u03b3", "d": "\u03b4", "e": "\u03b5\u03f5", "z": "\u03b6", "c": "\u03b7",
         "G": "\u0393", "D": "\u0394", "Q": "\u0398", "q": "\u03b8\u03d1", "i": "\u03b9", "k": "\u03ba", "l": "\u03bb",
         "m": "\u03bc", "n": "\u03bd", "x": "\u03be", "L": "\u039b", "X": "\u039e", "P": "\u03a0", "p": "\u03c0",
         "r": "\u03c1", "s": "\u03c3", "t": "\u03c4", "S": "\u03a3", "U": "\u03a5\u03d2", "F": "\u03a6", "u": "\u03c5",
         "f": "\u03d5\u03c6", "v": "\u03c7", "y": "\u03c8", "w": "\u03c9", "Y": "\u03a8", "W": "\u03a9"}
SPECIAL = {"a": "\u00b1", "b": "|"}
MATH = {"'": "'\u20320", "-": "-\u2212", "*": "*\u2217"}


def box(path):
    """vertices of a closed polygon, without orientation and start"""
    v = np.asarray(path.vertices)
    return (v[:, 0].min(), v[:, 0].max(), v[:, 1].min(), v[:, 1].max())


def harnesses(tier):
    deep = tier == "thorough"
    types = [t for g in GROUPS for t in g] + list(OTHER)

    def profile(ch):
        from rsbeams.rsplot import util
        n = ch.pick("elements", (1, 2, 3), dev=False)
        start = ch.flag("begin marker")         # elegant writes a first row for the begin of the beamline
        rows = [("MARK", 0.0)] if start else []
        s = 0.0
        want = []
        scale = ch.pick("scale", (1.0, 1e3, 0.25), dev=False)
        height = ch.pick("height", (None, 0.25, 3.0))
        h = 0.25 if height is None else height
        for i in range(n):
            full = i == 0 and n < 3 or deep and n < 3
            t = ch.pick("type %d" % i, types if full else ("DRIF", "QUAD", "SBEN", "RFCA"), dev=False)
            length = ch.pick("length %d" % i, (0.5, 0.125, 0.0, 7.0), dev=n > 1)
            if t in GROUP:
                want.append((s * scale, (s + length) * scale, -h / 2, h / 2, GROUP[t]))
            s += length
            rows.append((t, s))
        extra = ch.flag("more columns")
        cols = np.zeros(len(rows), dtype=[("ElementName", "U8"), ("ElementType", "U100"), ("s", "f8")] if extra else
                        [("s", "f8"), ("ElementType", "U16")])
        cols["ElementType"] = [r[0] for r in rows]
        cols["s"] = [r[1] for r in rows]
        keep = cols.copy()
        fig = Figure()
        ax = fig.add_subplot()
        kw = {} if scale == 1.0 else {"scale": scale}
        if height is not None:
            kw["height"] = height
        pc = util.plot_profile(cols, ax, **kw)
        require(np.array_equal(cols, keep), "columns were changed")
        require(any(c is pc for c in ax.collections) and len(ax.collections) == 1 and not ax.patches,
                "magnets are in the returned collection", got=ax.collections)
        boxes = [box(p) for p in pc.get_paths()]
        require(len(boxes) == len(want), "one rectangle per magnet", got=boxes, want=want)
        face = pc.get_facecolor()
        by_group = {}
        for i, (b, w) in enumerate(zip(boxes, want)):
            require(np.allclose(b, w[:4], rtol=1e-12, atol=1e-12 * scale), "place of magnet %d" % i, got=b, want=w[:4])
            by_group.setdefault(w[4], set()).add(tuple(face[i % len(face)]))
        require(all(len(v) == 1 for v in by_group.values()) and len(set.union(set(), *by_group.values())) == len(by_group),
                "one colour for every kind of magnet", got=by_group)
        total = s * scale
        whole = False
        for line in ax.lines:
            x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            require(np.all(y == 0) and np.all((x >= -1e-12 * scale) & (x <= total + 1e-12 * max(scale, total))),
                    "lines stay on the axis of the beamline", x=x, y=y, length=total)
            if len(x) and abs(x.min()) <= 1e-12 * scale and abs(x.max() - total) <= 1e-12 * max(scale, total):
                whole = True
            c = matplotlib.colors.to_rgba(line.get_color())
            if x.min() != x.max() and c != (0, 0, 0, 1):
                require(False, "coloured line outside of magnets", x=x, colour=c)
        require(whole, "line through the whole beamline")
        ch.observe(rows, scale, height)

    def long(ch):
        """Beamlines with many elements."""
        from rsbeams.rsplot import util
        n = ch.pick("elements", (10, 40, 300) + ((3000,) if deep else ()), dev=False)
        step = ch.pick("every", (1, 2, 5, 7), dev=False)
        seq = [types[(k * step) % len(types)] if k % 3 or step != 7 else "DRIF" for k in range(n)]
        scale = ch.pick("scale", (1.0, 1e3), dev=False)
        cols = np.zeros(n, dtype=[("s", "f8"), ("ElementType", "U16")])
        cols["ElementType"] = seq
        s = np.cumsum([0.125 * (1 + k % 3) for k in range(n)])
        cols["s"] = s
        want = [((s[k - 1] if k else 0.0) * scale, s[k] * scale, -0.125, 0.125, GROUP[t]) for k, t in enumerate(seq) if t in GROUP]
        ax = Figure().add_subplot()
        pc = util.plot_profile(cols, ax, scale=scale)
        boxes = [box(p) for p in pc.get_paths()]
        face = pc.get_facecolor()
        require(len(boxes) == len(want), "one rectangle per magnet", got=len(boxes), want=len(want))
        colour = {}
        for i, (b, w) in enumerate(zip(boxes, want)):
            require(np.allclose(b, w[:4], rtol=1e-12, atol=1e-12 * scale), "place of magnet %d" % i, got=b, want=w[:4])
            c = tuple(face[i % len(face)])
            require(colour.setdefault(w[4], c) == c, "one colour for every kind of magnet", got=c, want=colour)
        require(len(set(colour.values())) == len(colour), "different kinds of magnets have different colours", got=colour)
        xs = np.concatenate([np.asarray(l.get_xdata(), float) for l in ax.lines])
        require(abs(xs.min()) <= 1e-9 and abs(xs.max() - s[-1] * scale) <= 1e-9 * s[-1] * scale, "line through the whole beamline", got=xs)
        ch.observe(n, step, scale)

    def colours(ch):
        """colour is a function of the kind of element only"""
        from rsbeams.rsplot import util
        a = ch.pick("first", sorted(GROUP), dev=False)
        b = ch.pick("second", sorted(GROUP), dev=False)
        cols = np.zeros(2, dtype=[("s", "f8"), ("ElementType", "U16")])
        cols["s"] = (1.0, 3.0)
        cols["ElementType"] = (a, b)
        pc = util.plot_profile(cols, Figure().add_subplot())
        f = pc.get_facecolor()
        same = tuple(f[0]) == tuple(f[1 % len(f)])
        require(same == (GROUP[a] == GROUP[b]), "colour tells the kind of magnet", first=a, second=b, colours=f)
        require(np.array_equal(f, pc.get_edgecolor()), "edges have the colour of the magnet")
        ch.observe(same)

    parser = matplotlib.mathtext.MathTextParser("path")

    def symbols(ch):
        from rsbeams.rsplot import util
        text, want = "", []
        level = 0
        n = ch.pick("parts", (1, 2, 3, 4) if deep else (1, 2, 3), dev=False)
        greek = False
        base = False
        below = []
        had = set()
        for i in range(n):
            kinds = ["x", "s", "2", "/", "(", "m-1", "%", "#", "greek", "greek2", "special", "mode", "normal"] + ["'"] * (base or i == 0)
            if base:                            # something to attach an index to
                kinds += ["sub", "sup", "nested", "nested4", "subgreek", "subgreek-outside", "supgreek-outside", "nestedgreek"]
            elif len(had) == 1:                 # both indices
                kinds += list({"sub", "sup"} - had)
            if i == n - 1 and base:
                kinds += ["open", "open4", "opengreek"]
            k = ch.pick("part %d" % i, kinds, dev=False)
            if k in ("greek", "greek2", "subgreek", "subgreek-outside", "supgreek-outside", "nestedgreek", "opengreek"):
                letters = sorted(GREEK) if i == 0 and n == 1 else ("a", "D", "s")
                g = ch.pick("letter %d" % i, letters, dev=False)
            if k == "greek":
                text += "$g%s$r" % g
                want.append((GREEK[g], 0))
            elif k == "greek2":
                text += "$g%sc$r" % g
                want += [(GREEK[g], 0), (GREEK["c"], 0)]
            elif k == "special":
                c = ch.pick("special %d" % i, sorted(SPECIAL), dev=False)
                text += "$s%s$e" % c
                want.append((SPECIAL[c], 0))
            elif k in ("sub", "sup"):
                inner = ch.pick("index %d" % i, ("x", "2", "min", "x'"), dev=False)
                text += "$%s%s$n" % ("b" if k == "sub" else "a", inner)
                new = [(MATH.get(c, c), -1 if k == "sub" else 1) for c in inner]
                # (matplotlib draws the upper one of two indices first)
                at = len(want) - len(below) if k == "sup" and below else len(want)
                want[at:at] = new
                below = new if k == "sub" else []
            elif k == "nested":
                text += "$bi$ax$n$n"
                want += [("i", -1), ("x", 2)]
            elif k == "open":                   # the index ends with the symbol
                text += "$bi$ax"
                want += [("i", -1), ("x", 2)]
            elif k in ("nested4", "open4"):
                text += "$bi$aj$bk$al" + "$n$n$n$n" * (k == "nested4")
                want += [("i", -1), ("j", 2), ("k", 2), ("l", 2)]
            elif k in ("mode", "normal"):       # other modes have no influence, and there is nothing to close
                text += {"mode": "$u", "normal": "$n"}[k]
            elif k == "subgreek":
                text += "$b$g%s$r$n" % g
                want.append((GREEK[g], -1))
            elif k in ("nestedgreek", "opengreek"):     # a letter follows the Greek one
                text += "$bi$a$g%s$rx" % g + "$n$n" * (k == "nestedgreek")
                want += [("i", -1), (GREEK[g], 2), ("x", 2)]
            elif k in ("subgreek-outside", "supgreek-outside"):     # as in $gs$bd$n$r of elegant
                text += "$gs$%s%s$n$r" % ("b" if k == "subgreek-outside" else "a", g)
                want += [(GREEK["s"], 0), (GREEK[g], -1 if k == "subgreek-outside" else 1)]
            else:
                text += k
                want += [(MATH.get(c, c), 0) for c in k]
            if k != "sub":
                below = []
            had = had | {k} if k in ("sub", "sup") else set()
            # an index cannot follow another one, nor a prime (which is an index, too)
            base = k in ("x", "s", "2", "greek", "greek2", "m-1", "(")
        if not want:                            # nothing to draw
            ch.nontrivial = False
            return
        kw = ch.pick("matplotlib", ({}, {"matplotlib": True}, {"matplotlib": False}), dev=False)
        out = util.format_symbol(text, **kw)
        if kw.get("matplotlib", True):
            require(out.startswith("$") and out.endswith("$"), "math text", got=out)
        else:
            require(not out.startswith("$") and not out.endswith("$"), "plain LaTeX", got=out)
            out = "$" + out + "$"
        try:
            glyphs = parser.parse(out, 72, None)[3]
        except ValueError as e:
            require(False, "not a valid formula: %s" % str(e).replace("\n", " "), symbol=text, got=out)
        got = [(chr(g[2]), g[1], g[-1]) for g in glyphs]
        require(len(got) == len(want), "characters", symbol=text, formula=out, got=[g[0] for g in got], want=want)
        big = max(g[1] for g in got)
        for (c, size, y), (w, lev) in zip(got, want):
            require(c in w, "character", symbol=text, formula=out, got=c, want=w)
            if c not in MATH["'"]:
                small = size < 0.8 * big
                require(small == (lev != 0) or all(l for _w, l in want), "size of indices", symbol=text, formula=out, got=got)
        # indices are below or above the line
        line = [y for (c, _size, y), (_w, lev) in zip(got, want) if lev == 0 and c not in MATH["'"]]
        for (c, _size, y), (_w, lev) in zip(got, want):
            if line and c not in MATH["'"]:
                if lev == 2:
                    continue
                place = int(y > line[0] + 0.5) - int(y < line[0] - 0.5)
                require(place == lev, "place of indices", symbol=text, formula=out, got=got)
        ch.observe(text)

    def histogram(ch):
        from rsbeams.rsplot import util
        n = ch.pick("particles", (1, 2, 3, 4, 5) if deep else (1, 2, 3, 4), dev=False)
        scale = ch.pick("unit", (1.0, 2.0 ** -40, -2.0 ** 20))
        offset = ch.pick("offset", (0, 8, -3))
        data = [ch.pick("value %d" % i, range(5), dev=False) for i in range(n)]
        bins = ch.pick("bins", (1, 2, 4, 3, 8.0, 256) + (1000,) * deep, dev=False)
        arr = np.array([(v + offset) * scale for v in data])
        keep = arr.copy()
        centers, counts = util.get_histogram_points(arr, bins)
        require(np.array_equal(arr, keep), "data changed")
        lo, hi = min(arr), max(arr)
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        w = (hi - lo) / bins
        require(len(centers) == len(counts) == bins and sum(counts) == n, "counts", got=counts)
        for i, c in enumerate(centers):
            require(abs(c - (lo + (i + 0.5) * w)) <= 1e-12 * max(abs(lo), abs(hi)), "center of bin %d" % i, got=c)
        for i in range(int(bins)):
            a, b = lo + i * w, lo + (i + 1) * w
            eps = 1e-9 * w
            inside = int(np.sum((arr > a + eps) & (arr < b - eps)))
            possible = int(np.sum((arr >= a - eps) & (arr <= b + eps)))
            require(inside <= counts[i] <= possible, "count of bin %d" % i, got=counts, data=arr)
        ch.observe(data, bins)

    def current(ch):
        from rsbeams.rsplot import util
        n = ch.pick("particles", (1, 2, 3, 4) if deep else (1, 2, 3), dev=False)
        unit = ch.pick("unit", (1e-12, 1.0, 3e-9), dev=False)
        offset = ch.pick("offset", (0.0, 5.0, -100.0))
        data = np.array([(ch.pick("time %d" % i, (0, 1, 2, 3, 7), dev=False) + offset) * unit for i in range(n)])
        if ch.flag("float32"):
            data = data.astype(np.float32)
        copies = ch.pick("copies", (1, 50))
        data = np.repeat(data, copies)
        charge = ch.pick("charge", (1e-9, -3.05e-9, 0.0, 1.0))
        bins = ch.pick("bins", (None, 1, 4, 100.0, 256), dev=False)
        keep = data.copy()
        t, i = util.get_current_from_t(data, charge) if bins is None else util.get_current_from_t(data, charge, bins)
        require(np.array_equal(data, keep), "data changed")
        nb = int(bins or 256)
        require(len(t) == len(i) == nb, "number of points", got=(len(t), len(i)))
        rel = data.astype(float) - np.mean(data.astype(float))
        span = rel.max() - rel.min()
        res = 4e-7 * abs(data).max() if data.dtype == np.float32 else 1e-14 * abs(data).max()
        if span <= res:
            width = None
            if nb > 1:
                width = t[1] - t[0]
            require(abs(np.sum(i) * (width if width else 1.0) - charge) <= 1e-9 * abs(charge), "charge of simultaneous particles")
            ch.observe("equal")
            return
        width = span / nb
        tol = 1e-9 + 10 * res / span + (nb * 3e-7 if data.dtype == np.float32 else 0)
        require(abs(float(np.sum(i)) * width - charge) <= tol * abs(charge), "current times time is the charge", got=float(np.sum(i)) * width,
                want=charge)
        edges = rel.min() + np.arange(nb + 1) * width
        require(np.all(np.abs(t - (edges[:-1] + width / 2)) <= tol * span), "times of the points", got=t, want=edges[:-1] + width / 2)
        q = charge / len(data)
        eps = max(1e-9 * width, 4 * res, tol * span)
        a, b = edges[:-1, None], edges[1:, None]
        lo = np.sum((rel > a + eps) & (rel < b - eps), axis=1)
        hi = np.sum((rel >= a - eps) & (rel <= b + eps), axis=1)
        if q == 0:
            require(not np.any(i), "current without charge", got=i)
        else:
            m = i * width / q
            bad = np.flatnonzero((m < lo * (1 - tol) - 1e-3) | (m > hi * (1 + tol) + 1e-3))
            require(len(bad) == 0, "current", points=bad, particles=m[bad], at_least=lo[bad], at_most=hi[bad])
        ch.observe(n, bins, np.round(np.asarray(i) / (abs(charge) or 1) * width, 6).tolist())

    return [Harness("profile", profile, bound=2 if deep else 1), Harness("colours", colours), Harness("long", long, timeout=60), Harness("symbols", symbols),
            Harness("histogram", histogram, bound=2 if deep else 1), Harness("current", current, bound=3 if deep else 2)]
