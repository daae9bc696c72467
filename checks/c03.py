"""C03: readSDDS decodes every conforming file (independent encoder), all pages, all types, both reading strategies."""
import itertools
import re

from mc import sddsref
from mc.core import Harness, require
from mc.sddslib import VALUES, check_tables, load, fingerprint

ASSUMPTIONS = ["all pages of a file have the same number of rows (see the known finding for unequal ones)",
               "text-mode string data without whitespace, quotes or '!'"]
TYPES = ("double", "float", "long", "short", "string")


def combos(n, types):
    out = [()]
    for k in range(1, n + 1):
        prev = [()]
        for _ in range(k):
            prev = [p + (t,) for p in prev for t in types]
        out += prev
    return out


def build(pt, ct, npages, nrows, shift, mode, **kw):
    V = dict(VALUES)
    if mode == "binary":
        V["string"] = ["ab", "", "with space", 'q"uote', "!bang", "\n", "µm é"]
    pages = []
    for p in range(npages):
        pages.append(([V[t][(shift + 3 * p + i) % 7] for i, t in enumerate(pt)],
                      [[V[t][(shift + p + 2 * r + i) % 7] for i, t in enumerate(ct)] for r in range(nrows)]))
    return sddsref.Spec(mode, [dict(name="p%d" % i, type=t) for i, t in enumerate(pt)],
                        [dict(name="c%d" % i, type=t) for i, t in enumerate(ct)], pages, **kw)


def check(ch, s, pt, ct, buffer, data=None, **kw):
    with open("f.sdds", "wb") as f:
        f.write(s.encode() if data is None else data)
    r = load("f.sdds", buffer, **kw)
    params, columns = [("p%d" % i, t) for i, t in enumerate(pt)], [("c%d" % i, t) for i, t in enumerate(ct)]
    check_tables(r, params, columns, s.pages)
    ch.observe(s.mode, pt, ct, len(s.pages), fingerprint(r, params, columns))


def harnesses(tier):
    deep = tier == "thorough"
    P = combos(2 if deep else 1, TYPES) + ([] if deep else [("long", "double"), ("string", "double"), ("string", "string"),
                                                            ("float", "string"), ("short", "float", "long")])
    C = combos(2, TYPES)

    def types(ch):
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", P)
        ct = ch.pick("column types", C)
        if not pt and not ct and mode == "ascii":
            return
        npages = ch.pick("pages", (1, 2, 3))
        nrows = ch.pick("rows", (2, 1, 3, 0) if deep else (2, 1, 0)) if ct else 0
        check(ch, build(pt, ct, npages, nrows, ch.pick("values", range(7 if deep else 1)), mode), pt, ct, buffer)

    def norowcounts(ch):
        """ASCII pages that end with a blank line instead of starting with a row count."""
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", P)
        ct = ch.pick("column types", C[1:])
        npages = ch.pick("pages", (1, 2, 3))
        nrows = ch.pick("rows", (2, 1, 3, 0) if pt else (2, 1, 3))
        s = build(pt, ct, npages, nrows, 0, "ascii", no_row_counts=True)
        s.page_end = ch.pick("end of page", ("\n", "  \n", "\t\n", "\r\n"))
        data = s.encode()
        if ch.flag("no blank line after the last page"):
            data = data[:-len(s.page_end)]
        check(ch, s, pt, ct, buffer, data)

    def layout(ch):
        """Header and data layout freedoms of the format on one file with two pages."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", (("long", "double"), (), ("string",), ("double", "string", "short")))
        ct = ch.pick("column types", (("double", "long"), ("string", "double"), ("long",), ()))
        if not pt and not ct:
            return
        npages = ch.pick("pages", (2, 1, 4))
        nrows = ch.pick("rows", (2, 1, 5)) if ct else 0
        kw = dict(style=ch.pick("style", ("plain", "multiline", "spread", "tight", "nospace", "blanks", "columns")),
                  preamble=ch.pick("preamble", ("", "!# little-endian\n", "! a\n\n! b\n", "\n\n", "   \n  ! &column name=q, type=double, &end\n\t\n",
                                                '&associate filename="other.sdds", path="a b/c", description="of &data and &end", contents="x", sdds=1, &end\n',
                                                '&associate\n  filename = "other.sdds",\n  sdds = 0\n&end\n! b\n&description text="a, b", contents="c" &end\n')),
                  description=ch.flag("description"), comments=ch.flag("comments"), blank=ch.flag("blank header lines"))
        if mode == "ascii" and ct:
            kw["no_row_counts"] = ch.flag("no_row_counts")
        if mode == "ascii":
            kw["data_comments"] = ch.pick("data comments", (None, "page", "inline", "indented", "every line"))
        s = build(pt, ct, npages, nrows, 1, mode, **kw)
        for c in s.columns:
            length = ch.pick("field length of " + c["name"], (None, "20", "-20", "0"))
            if length:
                c["meta"] = [("field_length", length)]
        fixed = ch.pick("fixed parameter", (None, "first", "last", "only"))
        f = dict(name="fx", type="long", fixed=12)
        if fixed == "first":
            s.params.insert(0, f)
        elif fixed == "last":
            s.params.append(f)
        elif fixed == "only":
            s.params = [f]
            pt = ()
            s.pages = [([], rows) for _p, rows in s.pages]
            if not ct and mode == "ascii":
                return
        data = s.encode()
        if mode == "ascii":
            tail = ch.pick("end of file", ("plain", "blank lines", "no newline", "comment", "comments"))
            if tail == "blank lines":
                data += b"\n  \n"
            elif tail == "no newline":
                data = data.rstrip(b" \n")
            elif tail == "comment":
                data += b"! 1 2 3"
            elif tail == "comments":
                data += b"!end of the file\n\n  ! 1 2 3\n"
            if ch.flag("line ends of Windows"):
                data = data.replace(b"\n", b"\r\n")
        check(ch, s, pt, ct, buffer, data)

    def strings(ch):
        """Strings of every length up to the declared maximum, in binary and ASCII."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", (("string",), ("string", "string"), ("long", "string"), ()))
        ct = ch.pick("column types", (("string",), ("string", "string"), ("string", "double"), ("long", "string"), ()))
        if not pt and not ct:
            return
        limit = ch.pick("max_string_length", (100, 12, 250))
        n1 = ch.pick("length 1", [n for n in (1, 2, 11, 12, 99, 100, 101, 250) + ((0,) if mode == "binary" else ()) if n <= limit])
        n2 = ch.pick("length 2", [n for n in (3, 1, 12, 100, 249) if n <= limit])
        v = {"string": [("s%dabcdefghij" % k * 25)[:n]
                        for k, n in enumerate((n1, n2))], "long": [4, 5], "double": [0.5, 2.5]}
        pages = [([v[t][(p + i) % 2] for i, t in enumerate(pt)],
                  [[v[t][(p + r + i) % 2] for i, t in enumerate(ct)] for r in range(3)] if ct else []) for p in range(2)]
        s = sddsref.Spec(mode, [dict(name="p%d" % i, type=t) for i, t in enumerate(pt)],
                         [dict(name="c%d" % i, type=t) for i, t in enumerate(ct)], pages)
        check(ch, s, pt, ct, buffer, max_string_length=limit)

    def comments(ch):
        """ASCII pages with comment lines, with and without row counts."""
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", ((), ("long",), ("string", "double")))
        ct = ch.pick("column types", (("double", "long"), ("string", "double"), ("long",)))
        s = build(pt, ct, ch.pick("pages", (2, 1, 3)), ch.pick("rows", (2, 1, 3, 5)), 1, "ascii", no_row_counts=ch.flag("no_row_counts"),
                  data_comments=ch.pick("data comments", ("page", "inline", "indented", "every line")))
        check(ch, s, pt, ct, buffer)

    def spellings(ch):
        """Text files: every spelling of a number of up to five (thorough: six) signs, every bare word of up to two (three)."""
        import numpy as np
        buffer = ch.pick("buffer", (True, False), dev=False)
        typ = ch.pick("type", ("double", "string", "long", "short", "float"), dev=False)
        first = ch.pick("first", {"string": [chr(i) for i in range(35, 127)], "double": "10.-+", "float": "10.-+"}.get(typ, "109-+"), dev=False)
        if typ == "string":
            signs = [chr(i) for i in range(35, 127)] + ["\u00e9"]
            texts = [first + "".join(r) for n in range(3 if deep else 2) for r in itertools.product(signs if n < 2 else signs[::6], repeat=n)]
        else:
            top, signs, form = {"double": (6 if deep else 5, "10.eE+-", r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?"), "long": (5, "019", r"[-+]?\d+"),
                                "short": (4, "019", r"[-+]?\d+"), "float": (5, "10.e+-", r"[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?")}[typ]
            texts = [t for n in range(top) for r in itertools.product(signs, repeat=n) for t in [first + "".join(r)] if re.fullmatch(form, t)]
        texts = [t for t in texts if not re.search("[eE][-+]?\\d{3}" if typ == "double" else "[eE][-+]?\\d{2}", t)] if typ in ("double", "float") else texts
        place = ch.pick("place", ("column", "parameters"), dev=False)
        make = {"string": str, "double": float, "float": np.float32, "long": int, "short": int}[typ]
        width = len(texts) if place == "column" else 300
        for start in range(0, len(texts), width):
            part = texts[start:start + width]
            head, body = "SDDS1\n", ""
            if place == "column":
                head += "&column name=a, type=long, &end\n&column name=x, type=%s, &end\n&column name=b, type=double, &end\n" % typ
                body = "%d\n" % len(part) + "".join("%d %s %d.5\n" % (i % 7, t, i) for i, t in enumerate(part))
            else:
                head += "".join("&parameter name=p%d, type=%s, &end\n" % (i, typ) for i in range(len(part)))
                body = "".join(t + "\n" for t in part)
            with open("f.sdds", "wb") as f:
                f.write((head + "&data mode=ascii, &end\n" + body).encode())
            r = load("f.sdds", buffer)
            if place == "column":
                require(len(r.columns[0]) == len(part), "number of rows")
                require([int(x) for x in r.columns[0]["a"]] == [i % 7 for i in range(len(part))]
                        and [float(x) for x in r.columns[0]["b"]] == [i + .5 for i in range(len(part))], "the columns next to it")
                got = list(r.columns[0]["x"])
            else:
                got = [np.ravel(r.parameters[0]["p%d" % i])[0] for i in range(len(part))]
            for g, t in zip(got, part):
                require(sddsref.same(typ, g, make(t)), "value of %r" % t, got=g, want=make(t))
        ch.observe(typ, first, place, buffer, len(texts))

    def encodings(ch):
        """Strings in UTF-8, and strings of other programs that are not UTF-8 (read as Latin-1)."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", (("string",), ("long", "string"), ()))
        ct = ch.pick("column types", (("string",), ("string", "double"), ("string", "string"), ()))
        if not pt and not ct:
            return
        s = build(pt, ct, 2, 2 if ct else 0, ch.pick("values", range(7)), mode)
        if b"ab" not in s.encode():
            return
        where = ch.pick("string", range(s.encode().count(b"ab")))
        data = s.encode().split(b"ab")
        # strings of ASCII files are returned as they are
        text = ch.pick("text", (b"\xc3\xa9", b"\xb5m", b"\xe9\xe8", b"\xc3m", b"\xff\xfe", b"\x80\x9d")[:6 if mode == "binary" else 1])
        try:
            want = text.decode()
        except UnicodeDecodeError:
            want = text.decode("latin-1")
        data = b"ab".join(data[:where + 1]) + text + b"ab".join(data[where + 1:])
        k = 0
        for params, rows in s.pages:
            for values in [params] + rows:
                for i, v in enumerate(values):
                    if v == "ab":
                        values[i], k = (want if k == where else v), k + 1
        check(ch, s, pt, ct, buffer, data)

    def rowcounts(ch):
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", ((), ("double",), ("string",)))
        ct = ch.pick("column types", (("double",), ("long", "short")))
        nrows = ch.pick("rows", (9, 10, 11, 13, 32, 100, 256, 300) + ((2559, 2560, 2816) if mode == "binary" else ()) +
                        ((65535, 65536, 65546) if mode == "binary" and not pt and len(ct) == 1 else ()))
        check(ch, build(pt, ct, 2, nrows, 0, mode), pt, ct, buffer)

    def wide(ch):
        """Many parameters and columns of every mix of two types in every pattern."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        n = ch.pick("columns", (3, 4, 8, 12, 1, 0))
        m = ch.pick("parameters", (1, 0, 4, 9))
        a, b = ch.pick("first type", TYPES), ch.pick("second type", TYPES)
        pattern = ch.pick("pattern", ("alternate", "halves", "one"))

        def mix(k):
            return tuple({"alternate": (a, b)[i % 2], "halves": (a, b)[2 * i // k], "one": a if i != k // 2 else b}[pattern]
                         for i in range(k))
        pt, ct = mix(m), mix(n)
        if not pt and not ct:
            return
        nrows = ch.pick("rows", (2, 7)) if ct else 0
        check(ch, build(pt, ct, 2, nrows, ch.pick("values", (0, 1, 4)), mode), pt, ct, buffer)

    def empty(ch):
        """Pages without rows between pages with rows: all rows of all pages are read, in order."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", ((), ("long",), ("string", "double")))
        ct = ch.pick("column types", (("double",), ("string", "long"), ("short", "float")))
        nrows = ch.pick("rows", (2, 1))
        rows = [nrows * ch.flag("rows of page %d" % i) for i in range(ch.pick("pages", (2, 3, 4) if deep else (2, 3)))]
        s = build(pt, ct, len(rows), nrows, 0, mode)
        s.pages = [(p, r[:n]) for n, (p, r) in zip(rows, s.pages)]
        with open("f.sdds", "wb") as f:
            f.write(s.encode())
        r = load("f.sdds", buffer)
        check_tables(r, [("p%d" % i, t) for i, t in enumerate(pt)], [], s.pages)
        if any(rows):
            check_tables(r, [], [("c%d" % i, t) for i, t in enumerate(ct)], [p for p in s.pages if p[1]])
        else:
            for i in range(len(ct)):
                require(r.columns["c%d" % i].size == 0, "rows in a file without any")
        ch.observe(mode, pt, ct, rows)

    def unequal(ch):
        """Known finding: pages with different numbers of rows."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        a, b = build(("long",), ("double",), 1, 2, 0, mode), build(("long",), ("double",), 1, 3, 1, mode)
        a.pages += b.pages
        check(ch, a, ("long",), ("double",), buffer)

    return [Harness("types", types), Harness("norowcounts", norowcounts), Harness("layout", layout, bound=5 if deep else 4),
            Harness("strings", strings), Harness("spellings", spellings, timeout=60), Harness("comments", comments), Harness("encodings", encodings),
            Harness("rowcounts", rowcounts), Harness("wide", wide), Harness("empty", empty), Harness("unequal", unequal)]
