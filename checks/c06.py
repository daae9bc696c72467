"""C06: a save that cannot be done is reported, and a rejected one leaves an existing file alone."""
import decimal
import fractions
import os
import resource
import numpy as np
from mc.core import Harness, require
from mc.sddslib import check_tables, load

ASSUMPTIONS = ["a full disk is modelled by a file size limit: the write that crosses it fails after a partial write"]
OLD = b"precious results of last week\n" * 3


def writer(ch, nrows, shape):
    from rsbeams.rsdata.SDDS import writeSDDS
    w = writeSDDS()
    pv, params, data, cols = [], [], [], []
    for i, k in enumerate(shape):
        n = "n%d" % i
        if k in "ds":
            t = "double" if k == "d" else "short"
            w.create_parameter(n, i + 1, t)
            params.append((n, t))
            pv.append(i + 1)
        else:
            t = {"D": "double", "L": "long", "S": "string"}[k]
            d = ["s%d" % r for r in range(nrows)] if k == "S" else [r * 2 - i for r in range(nrows)]
            w.create_column(n, np.array(d), t)
            cols.append((n, t))
            data.append(d)
    return w, params, cols, [(pv, [[d[r] for d in data] for r in range(nrows)])]


class DiskFull:
    """No file of this process may grow beyond n bytes while active (what a full disk or quota does)."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, resource.RLIM_INFINITY))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def harnesses(tier):
    deep = tier == "thorough"

    def diskfull(ch):
        mode = ch.pick("mode", ("ascii", "binary"))
        shape = ch.pick("content", ("dDL", "D", "d", "sDS", "dsLLD") if deep else ("dDL", "D", "d", "sDS"))
        nrows = ch.pick("rows", (3, 700, 0) if deep else (3, 700)) if shape != "d" else 0
        w, params, cols, pages = writer(ch, nrows, shape)
        w.save_sdds("full.sdds", dataMode=mode)
        with open("full.sdds", "rb") as f:
            full = f.read()
        # every byte of small files and the first/last bytes of big ones; in between every 1024th (the ends of buffered
        # writes fall on multiples of the buffer size)
        if len(full) < 600:
            points = list(range(len(full)))
        else:
            points = sorted(set(list(range(0, len(full), 1024 if not deep else 64)) + list(range(120))
                                + list(range(len(full) - 40, len(full)))))
        n = ch.pick("disk full at byte", points)
        if ch.flag("over an existing file"):
            with open("t.sdds", "wb") as f:
                f.write(OLD)
        failed = False
        with DiskFull(n):
            try:
                w.save_sdds("t.sdds", dataMode=mode)
            except OSError:
                failed = True
        if not failed:
            with open("t.sdds", "rb") as f:
                got = f.read()
            require(got == full, "save_sdds returned normally but wrote %d of %d bytes" % (len(got), len(full)))
        # once there is space again the same writer must be able to save
        w.save_sdds("t.sdds", dataMode=mode)
        if n == points[0]:
            check_tables(load("t.sdds"), params, cols, pages)
        with open("t.sdds", "rb") as f:
            require(f.read() == full, "the file saved after a failure differs from one saved without")
        ch.observe(mode, shape, nrows, n, failed)

    def rejected(ch):
        """Saves and creates that cannot be valid: the target is untouched, and nothing of the attempt remains."""
        from rsbeams.rsdata.SDDS import writeSDDS
        mode = ch.pick("mode", ("ascii", "binary"))
        existing = ch.pick("target", ("existing file", "no file", "existing SDDS file"))
        if existing == "existing file":
            with open("t.sdds", "wb") as f:
                f.write(OLD)
        elif existing == "existing SDDS file":
            writer(ch, 2, "dD")[0].save_sdds("t.sdds", dataMode=mode)
        before = open("t.sdds", "rb").read() if existing != "no file" else None
        w = writeSDDS()
        if ch.flag("with parameter"):
            w.create_parameter("q", 2.5, "double")
        lens = ch.pick("column lengths", ((2, 3), (3, 2), (0, 1), (1, 0), (2, 2, 1), (1, 2, 2), (2, 1, 2), (5, 1)))
        types = ch.pick("types", ("double", "long", "mixed"))
        for i, n in enumerate(lens):
            w.create_column("c%d" % i, np.arange(n), ("double", "long")[i % 2] if types == "mixed" else types)
        raised = False
        try:
            w.save_sdds("t.sdds", dataMode=mode)
        except Exception:
            raised = True
        require(os.listdir(".") == ([] if before is None else ["t.sdds"]), "the rejected save left a file behind",
                files=os.listdir("."))
        if before is not None:
            after = open("t.sdds", "rb").read()
            require(after == before, "the rejected save destroyed the existing file: %d of %d bytes are left" % (
                len(after), len(before)))
        ch.observe(mode, existing, lens, types, raised)

    def badmode(ch):
        from rsbeams.rsdata.SDDS import writeSDDS
        with open("t.sdds", "wb") as f:
            f.write(OLD)
        w, params, cols, pages = writer(ch, 2, ch.pick("content", ("dDL", "D", "d", "")))
        bad = ch.pick("mode", ("Binary", "text", "", "ASCII", None, 1))
        try:
            w.save_sdds("t.sdds", dataMode=bad)
        except Exception:
            require(open("t.sdds", "rb").read() == OLD, "a save in an unknown mode destroyed the existing file")
            ch.observe(bad, "refused")
            return
        check_tables(load("t.sdds"), params, cols, pages)
        ch.observe(bad, "accepted")

    def badcreate(ch):
        """Definitions that cannot be written are refused at once and do not become part of the file."""
        w, params, cols, pages = writer(ch, 2, ch.pick("content", ("dDL", "D", "d")))
        what = ch.pick("definition", ("column type", "parameter type", "no value", "value and fixed value"))
        bad = ch.pick("type", ("float64", "int", "Double", "", "longlong"))
        try:
            if what == "column type":
                w.create_column("bad", np.arange(2), bad)
            elif what == "parameter type":
                w.create_parameter("bad", 1, bad)
            elif what == "no value":
                w.create_parameter("bad", None, "double")
            else:
                w.create_parameter("bad", 1.0, "double", parFixedVal=ch.pick("fixed", (2.0, 0.0, "x")))
        except Exception:
            pass
        else:
            require(False, "%s is accepted" % what)
        mode = ch.pick("mode", ("ascii", "binary"))
        w.save_sdds("t.sdds", dataMode=mode)
        r = load("t.sdds", ch.pick("buffer", (True, False)))
        check_tables(r, params, cols, pages)
        require(b"bad" not in open("t.sdds", "rb").read(), "the refused definition is in the file")
        ch.observe(what, bad, mode)

    def misfit(ch):
        """Data that its declared type cannot hold: refused with the target untouched, or saved exactly, never as something else."""
        mode = ch.pick("mode", ("ascii", "binary"))
        existing = ch.flag("over an existing file")
        if existing:
            with open("t.sdds", "wb") as f:
                f.write(OLD)
        w, params, cols, pages = writer(ch, 2, ch.pick("content", ("dDL", "D", "d", "sDS", "")))
        t = ch.pick("type", ("long", "short", "double"))
        bad = ch.pick("value", (1.5, 2.0 ** 40, 70000, -32769, 2 ** 31, 2 ** 63, 2 ** 70, float("nan"), float("inf"), -0.25,
                                "abc", None, [1, 2], 1j, "1.5", 3, 2.0, fractions.Fraction(3, 2), decimal.Decimal("-0.5"), fractions.Fraction(-7, 1)))
        kind = ch.pick("as", ("column list", "column array", "objects", "parameter", "numpy parameter"))
        try:
            if kind == "objects":
                data = np.empty(2, dtype=object)
                data[0], data[1] = 5, bad
                w.create_column("z", data, t)
            elif "column" in kind:
                w.create_column("z", [5, bad] if kind == "column list" else np.array([5, bad]), t)
            elif bad is not None:
                w.create_parameter("z", np.array(bad)[()] if kind == "numpy parameter" else bad, t)
            else:
                return
            w.save_sdds("t.sdds", dataMode=mode)
        except Exception as e:
            require(not isinstance(e, OSError), "unexpected " + repr(e))
            require(os.path.exists("t.sdds") == existing, "the refused save left a file behind")
            require(not existing or open("t.sdds", "rb").read() == OLD, "the refused save destroyed the existing file")
            require(bad != 3, "an ordinary value is refused")
            ch.observe(mode, t, bad, kind, "refused")
            return
        r = load("t.sdds", ch.pick("buffer", (True, False)))
        got = np.ravel((r.columns if "column" in kind or kind == "objects" else r.parameters)["z"])[-1]
        want = float(bad) if isinstance(bad, str) else float("nan") if bad is None else bad
        require(got == want or got != got and want != want, "saved as another value", type=t, written=bad, read=got)
        ch.observe(mode, t, bad, kind, "saved")

    return [Harness("diskfull", diskfull), Harness("rejected", rejected), Harness("badmode", badmode),
            Harness("badcreate", badcreate), Harness("misfit", misfit)]
