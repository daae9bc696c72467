"""C04: reading selected pages gives exactly those pages of the file, whatever is passed over, buffered or not."""
import itertools
import numpy as np
from checks.c03 import build
from mc.core import Harness, require
from mc.sddslib import check_tables, fingerprint, load

ASSUMPTIONS = ["pages are selected with a non-empty iterable of non-negative page numbers"]
SHAPES = ((("long",), ("double",)), ((), ("double", "long")), (("string",), ("long", "short")), (("double", "short"), ("string",)),
          (("long", "double", "float"), ("double", "float", "long")), (("string", "long"), ()), (("double",), ()),
          (("short",), ("long", "string", "double")))


def harnesses(tier):
    deep = tier == "thorough"
    maxpages = 5 if deep else 3

    def subsets(ch):
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt, ct = ch.pick("shape", SHAPES)
        npages = ch.pick("pages", range(1, maxpages + 1))
        nrows = ch.pick("rows", (2, 1, 4)) if ct else 0
        kw = {"no_row_counts": ch.flag("no_row_counts")} if mode == "ascii" and ct else {}
        s = build(pt, ct, npages, nrows, 2, mode, **kw)
        opts = [c for k in range(1, npages + 1) for c in itertools.combinations(range(npages), k)]
        sel = ch.pick("selected", opts)
        form = ch.pick("given as", ("list", "tuple", "array", "reversed", "repeated", "with a page beyond the end",
                                     "set", "generator", "dictionary"))
        arg = {"list": list(sel), "tuple": tuple(sel), "array": np.array(sel), "reversed": list(sel)[::-1],
               "repeated": list(sel) + list(sel), "with a page beyond the end": list(sel) + [npages + 3],
               "set": set(sel), "generator": (p for p in sel), "dictionary": dict.fromkeys(sel)}[form]
        with open("f.sdds", "wb") as f:
            f.write(s.encode())
        r = load("f.sdds", buffer, pages=arg)
        params, columns = [("p%d" % i, t) for i, t in enumerate(pt)], [("c%d" % i, t) for i, t in enumerate(ct)]
        check_tables(r, params, columns, [s.pages[i] for i in sel])
        ch.observe(mode, pt, ct, npages, sel, fingerprint(r, params, columns))

    def both(ch):
        """Full read: the buffered and the unbuffered reader return the same, including types and shapes."""
        mode = ch.pick("mode", ("binary", "ascii"))
        pt, ct = ch.pick("shape", SHAPES)
        npages = ch.pick("pages", range(1, maxpages + 1))
        nrows = ch.pick("rows", (2, 1, 3, 10)) if ct else 0
        kw = {"no_row_counts": ch.flag("no_row_counts")} if mode == "ascii" and ct else {}
        s = build(pt, ct, npages, nrows, 3, mode, **kw)
        with open("f.sdds", "wb") as f:
            f.write(s.encode())
        a, b = load("f.sdds", True), load("f.sdds", False)
        for what in (["parameters"] if pt else []) + (["columns"] if ct else []):
            x, y = getattr(a, what), getattr(b, what)
            require(x.dtype == y.dtype and x.shape == y.shape, what + " differ in type or shape", buffered=(x.dtype, x.shape),
                    unbuffered=(y.dtype, y.shape))
            require(x.tobytes() == y.tobytes(), what + " differ", buffered=x, unbuffered=y)
        ch.observe(mode, pt, ct, npages, nrows)

    def uneven(ch):
        """Pages with different numbers of rows may be passed over; those selected have the same number."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt, ct = ch.pick("shape", [x for x in SHAPES if x[1]])
        rows = ch.pick("rows", [r for k in (2, 3, 4) for r in itertools.product((2, 1, 3, 0), repeat=k) if len(set(r)) > 1])
        sel = ch.pick("selected", [c for k in range(1, len(rows)) for c in itertools.combinations(range(len(rows)), k)
                                   if len(set(rows[i] for i in c)) == 1])
        kw = {"no_row_counts": ch.flag("no_row_counts")} if mode == "ascii" and (pt or 0 not in rows) else {}
        s = build(pt, ct, len(rows), 3, 2, mode, **kw)
        s.pages = [(p, r[:n]) for (p, r), n in zip(s.pages, rows)]
        with open("f.sdds", "wb") as f:
            f.write(s.encode())
        r = load("f.sdds", buffer, pages=list(sel))
        params, columns = [("p%d" % i, t) for i, t in enumerate(pt)], [("c%d" % i, t) for i, t in enumerate(ct)]
        check_tables(r, params, columns, [s.pages[i] for i in sel])
        ch.observe(mode, pt, ct, rows, sel, fingerprint(r, params, columns))

    def again(ch, steps):
        """Every sequence of reads with one or two readers (of different files): every read returns just what it asked for."""
        from rsbeams.rsdata.SDDS import readSDDS
        readers, selections = [], (None, (0,), (2,), (0, 2), (1, 2))
        for k in range(2):
            mode = ch.pick("mode %d" % k, ("binary", "ascii"))
            buffer = ch.pick("buffer %d" % k, (True, False))
            pt, ct = ch.pick("shape %d" % k, SHAPES)
            kw = {"no_row_counts": ch.flag("no_row_counts %d" % k)} if mode == "ascii" and ct else {}
            s = build(pt, ct, 3, 2 + k if ct else 0, k, mode, **kw)
            with open("f%d.sdds" % k, "wb") as f:
                f.write(s.encode())
            readers.append((readSDDS("f%d.sdds" % k, buffer=buffer), s, [("p%d" % i, t) for i, t in enumerate(pt)],
                            [("c%d" % i, t) for i, t in enumerate(ct)]))
        latest = [None, None]
        for step in range(steps):
            k = ch.pick("reader", (0, 1), dev=False)
            sel = ch.pick("selection", selections, dev=False)
            r, s, params, columns = readers[k]
            r.read() if sel is None else r.read(pages=list(sel))
            latest[k] = [s.pages[i] for i in sel or range(3)]
            for (r, s, params, columns), pages in zip(readers, latest):
                if pages is not None:
                    check_tables(r, params, columns, pages)
        ch.observe(latest)

    def many(ch):
        """Many pages, small and large: every single page, every neighbouring pair, and some ranges."""
        mode = ch.pick("mode", ("binary", "ascii"), dev=False)
        buffer = ch.pick("buffer", (True, False), dev=False)
        pt, ct = ch.pick("shape", SHAPES, dev=False)
        npages, nrows = ch.pick("pages, rows", [(11, 1), (26, 2), (12, 40), (3, 1100)] + ([(120, 1), (9, 3000), (40, 150)] if deep else []),
                                dev=False)
        if not ct:
            nrows = 0
        s = build(pt, ct, npages, nrows, 1, mode)
        last = npages - 1
        sels = [(k,) for k in range(npages)] + [(k, k + 1) for k in range(last)] + [
            tuple(range(npages)), tuple(range(1, npages)), tuple(range(0, npages, 2)), (0, last), (0, last - 1), tuple(range(last))]
        with open("f.sdds", "wb") as f:
            f.write(s.encode())
        params, columns = [("p%d" % i, t) for i, t in enumerate(pt)], [("c%d" % i, t) for i, t in enumerate(ct)]
        for sel in sels:
            r = load("f.sdds", buffer, pages=list(sel))
            check_tables(r, params, columns, [s.pages[i] for i in sel])
        r = load("f.sdds", buffer)
        check_tables(r, params, columns, s.pages)
        ch.observe(mode, pt, ct, npages, nrows, fingerprint(r, params, columns))

    return [Harness("many", many, timeout=120), Harness("uneven", uneven), Harness("again", lambda ch: again(ch, 3 if deep else 2), 2 if deep else 1),
            Harness("rereads", lambda ch: again(ch, 4 if deep else 3), 0), Harness("subsets", subsets), Harness("both", both)]
