"""Shared pieces of the SDDS checks: reading back through the public API only."""
import numpy as np
from mc.core import require
from mc.sddsref import text

VALUES = {
    "double": [1.5, -2.25e-10, 1.0 / 3.0, 0.0, -7.5e7, 6.02214076e23, 1e-300],
    "float": [0.5, -1.25, 3.0, 0.0, 8.0e5, -2.0, 0.1],
    "long": [1, -70000, 2147483647, 0, -2147483648, 12, 255],
    "short": [3, -4, 300, 0, 32767, -32768, 10],
    "string": ["ab", "QUAD", "d12-3", "e", "a.very_long.name+", "x", "µm-é"],
}
SPECIAL = [float("nan"), float("inf"), float("-inf"), -0.0, 5e-324, 1.7976931348623157e308, 1.0000000000000002]


def equal(t, got, want):
    if t == "string":
        return text(got) == want
    if t in ("long", "short"):
        return int(got) == int(want) and float(got) == float(want)
    if t == "float":
        want = np.float32(want)
    got, want = float(got), float(want)
    if want != want:
        return got != got
    return got == want and np.signbit(got) == np.signbit(want)


def load(path, buffer=True, pages=None, **kw):
    from rsbeams.rsdata.SDDS import readSDDS
    r = readSDDS(path, buffer=buffer, **kw)
    r.read() if pages is None else r.read(pages=pages)
    return r


def pages_of(table, name, n, what):
    col = table[name]
    require(len(col) == n, "%s %r has %d pages, the file has %d" % (what, name, len(col), n))
    return [np.ravel(col[i]) for i in range(n)]


def check_tables(r, params, columns, pages):
    """params/columns: [(name, type)] with data in the pages; pages: [(param values, rows)]."""
    n = len(pages)
    for i, (name, t) in enumerate(params):
        got = pages_of(r.parameters, name, n, "parameter")
        for k in range(n):
            require(got[k].size == 1, "parameter %r of page %d is not a single value" % (name, k), got=got[k])
            require(equal(t, got[k][0], pages[k][0][i]), "parameter %r of page %d" % (name, k), type=t,
                    got=got[k][0], written=pages[k][0][i])
    for i, (name, t) in enumerate(columns):
        got = pages_of(r.columns, name, n, "column")
        for k in range(n):
            rows = pages[k][1]
            require(got[k].size == len(rows), "column %r of page %d has %d rows, not %d" % (
                name, k, got[k].size, len(rows)))
            if len(rows) > 500 and t != "string":
                # bit comparison of all at once
                dt = {"double": "f8", "float": "f4", "long": "i4", "short": "i2"}[t]
                want = np.array([row[i] for row in rows], dtype=dt)
                if np.array_equal(np.ascontiguousarray(got[k]).astype(dt).view("u1"), want.view("u1")):
                    continue
            for j in range(len(rows)):
                require(equal(t, got[k][j], rows[j][i]), "column %r, page %d, row %d" % (name, k, j), type=t,
                        got=got[k][j], written=rows[j][i])


def fingerprint(r, params, columns):
    """Everything readable, as plain python (to compare two readers)."""
    out = []
    for name, _t in params:
        out.append((name, [[text(x) if isinstance(x, (bytes, str)) else x.item() for x in np.ravel(p)]
                           for p in r.parameters[name]]))
    for name, _t in columns:
        out.append((name, [[text(x) if isinstance(x, (bytes, str)) else x.item() for x in np.ravel(p)]
                           for p in r.columns[name]]))
    return out
