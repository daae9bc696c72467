"""C02: names, units, symbols, descriptions, formats, types and fixed values survive in the header."""
import re

import numpy as np
from mc import sddsref
from mc.core import Harness, require
from mc.sddslib import load, check_tables

ASSUMPTIONS = ["header text has no empty lines and no lines that start with an exclamation mark"]
TEXTS = ["", "m", "m$be$nc", "a text with spaces", "x'", "comma, separated, list", "k=v type=short", "%10.4e", "(a)[b]<c>",
         "trailing,", "&n", "! not a comment", " padded ", "name=other", "#1 # b",
         'say "x"', "see &end", "= x", 'end: " &end "', "C:\\", "\\n\\\\", "µm α ²",
         "two\nlines", "a &end\nb", "back\\\nslash", "100%%", "a  b", "tab\there", "{}{0}"]
SIGNS = "\"\\&,=!#{}%' a\n\t;$"
ESC = str.maketrans({'"': '\\"', "\\": "\\\\"})
META = ("units", "symbol", "format_string", "description")
WKEY = {"units": "Units", "symbol": "Symbol", "format_string": "FormatStr", "description": "Description"}


def accessor(r, kind, what, name):
    return getattr(r, "%s_%s" % (kind, what))(name)


def same_fixed(t, got, want):
    if t == "string":
        return got == want
    return type(got) in (int, float, np.float64, np.int64, np.int32) and got == want


def harnesses(tier):
    deep = tier == "thorough"

    def written(ch):
        """writeSDDS -> readSDDS: every combination of present fields and texts."""
        from rsbeams.rsdata.SDDS import writeSDDS
        mode = ch.pick("mode", ("ascii", "binary"))
        buffer = ch.pick("buffer", (True, False))
        order = ch.pick("entries", (("p", "c"), ("p",), ("c",), ("p", "p", "c", "c"), ("c", "p", "f"), ("f", "p", "c")))
        want, params, columns, pv, lengths = [], [], [], [], []
        w = writeSDDS()
        for i, k in enumerate(order):
            name = ch.pick("name%d" % i, ("q", "Sx", "beta-x", "eta_x'", "type", "units", "name_x", "file", "print", "return", "f0", "a:b#+@",
                                          "50%", "a/b", "[x].y", "a&b", "$c$", "é", "f1", "data"))
            name += str(i) if name in [x[1] for x in want] else ""
            t = ch.pick("type%d" % i, ("double", "long", "short") + (("string",) if k == "f" else ()))
            meta = {m: ch.pick("%s%d" % (m, i), TEXTS + [name, t]) for m in META}
            pre = "col" if k == "c" else "par"
            kw = {pre + WKEY[m]: v for m, v in meta.items() if v or ch.flag("pass empty %s%d" % (m, i))}
            fixed = None
            if k == "c":
                length = ch.pick("field length%d" % i, (None, 12, -9, 0))
                if length is not None:
                    kw["colFieldLen"] = length
                w.create_column(name, np.array([i, 7]), t, **kw)
                columns.append((name, t))
            elif k == "p":
                w.create_parameter(name, i + 3, t, **kw)
                params.append((name, t))
                pv.append(i + 3)
            else:
                fixed = ch.pick("fixed%d" % i, {"double": (1.5, 0.0, -2e-9, 3, 0.1 + 0.2, -1e300 / 3, 5e-324),
                                                "long": (5, 0, -2147483648), "short": (7, 0, -3),
                                                "string": ("abc", "two words", "a,b", "it's", "", 'say "x"', "# b\\", "µ")}[t])
                w.create_parameter(name, None, t, parFixedVal=fixed, **kw)
            want.append((k, name, t, meta, fixed))
            lengths += [str(length)] if k == "c" and length else []
        w.save_sdds("h.sdds", dataMode=mode)
        with open("h.sdds", "rb") as f:
            found = re.findall(rb"field_length\s*=\s*\"?([-+]?\d+)", f.read())
        require([x.decode() for x in found] == lengths, "field lengths in the file", got=found, want=lengths)
        cols = [i for i, k in enumerate(order) if k == "c"]
        r = load("h.sdds", buffer)
        verify(r, want)
        check_tables(r, params, columns, [(pv, [[i for i in cols], [7 for _ in cols]] if cols else [])])
        ch.observe(mode, want)

    def verify(r, want):
        for k, name, t, meta, fixed in want:
            kind = "column" if k == "c" else "parameter"
            for m in META:
                got = accessor(r, kind, m, name)
                require(got == meta[m], "%s_%s(%r)" % (kind, m, name), got=got, written=meta[m])
            require(accessor(r, kind, "type", name) == t, "%s_type(%r)" % (kind, name))
            if kind == "parameter":
                got = r.parameter_fixed_value(name)
                require(got is None if fixed is None else same_fixed(t, got, fixed), "parameter_fixed_value(%r)" % name,
                        got=got, written=fixed)

    def fixed(ch):
        """Every fixed value of every type, before, between and after other entries."""
        from rsbeams.rsdata.SDDS import writeSDDS
        mode = ch.pick("mode", ("ascii", "binary"))
        buffer = ch.pick("buffer", (True, False))
        order = ch.pick("entries", ("fc", "f", "fp", "pf", "pfc", "cf", "ffc", "fpf"))
        w, want, live = writeSDDS(), [], []
        for i, k in enumerate(order):
            name = "n%d" % i
            if k == "c":
                w.create_column(name, np.array([4.5, -1.0]), "double")
            elif k == "p":
                w.create_parameter(name, i + 3, "long")
                live.append((name, "long"))
            else:
                t = ch.pick("type%d" % i, ("double", "long", "short", "string"))
                v = ch.pick("value%d" % i, {
                    "double": (0.0, 1.5, -2e-9, 3, 0, 0.1 + 0.2, -1e300 / 3, 5e-324, -0.0, 1e22, 123456789.12345678, float("inf")),
                    "long": (0, 5, -1, 2147483647, -2147483648), "short": (0, 7, -1, -3, 32767, -32768),
                    "string": ("", "abc", "0", "none", " ", "two words", " padded ", "a,b", "it's", 'say "x"', "# b\\", "µ", "&end",
                               "two\nlines", "&end\nx", "name=x")}[t])
                w.create_parameter(name, None, t, parFixedVal=v)
                want.append(("f", name, t, {m: "" for m in META}, v))
        w.save_sdds("h.sdds", dataMode=mode)
        r = load("h.sdds", buffer)
        verify(r, want)
        check_tables(r, live, [("n%d" % i, "double") for i, k in enumerate(order) if k == "c"],
                     [([i + 3 for i, k in enumerate(order) if k == "p"], [[4.5], [-1.0]] if "c" in order else [])]
                     if "p" in order or "c" in order else [])
        ch.observe(mode, want)

    def foreign(ch):
        """Headers of other programs: field order, several lines, comments, quoting, missing fields."""
        mode = ch.pick("mode", ("ascii", "binary"))
        buffer = ch.pick("buffer", (True, False))
        style = ch.pick("style", ("plain", "tight", "multiline", "spread", "nospace", "blanks", "columns"))
        want, params, columns = [], [], []
        for i, k in enumerate(ch.pick("entries", ("pc", "cp", "fpc", "ppcc"))):
            t = ch.pick("type%d" % i, ("double", "long", "short", "float") + (("string",) if k == "f" else ()))
            name = ch.pick("name%d" % i, ("n%d" % i, "file", "print_", "a b", "f%d" % (1 - i), "x,y", "&end"))
            quoted = not name.isidentifier() or ch.flag("quoted name%d" % i)
            if name in [x[1] for x in want]:
                return
            meta, fields = {}, []
            for m in META:
                meta[m] = ch.pick("%s%d" % (m, i), TEXTS)
                if meta[m]:
                    bare = meta[m].isalnum() and ch.flag("bare %s%d" % (m, i))
                    fields.append((m, meta[m] if bare else '"%s"' % meta[m].translate(ESC)))
            e = dict(name=name, header_name='"%s"' % name if quoted else name, type=t, meta=fields, reverse=ch.flag("type and name last%d" % i))
            fixed = None
            if k == "f":
                fixed = ch.pick("fixed%d" % i, {"double": (1.5, 0.0, 0.1 + 0.2), "float": (0.5, 0.0, 0.1, 1e-30, 16777217.0), "long": (5, 0), "short": (7, 0),
                                                "string": ("abc", "two words", "a,b")}[t])
                e["fixed"] = fixed
            (columns if k == "c" else params).append(e)
            want.append((k, name, t, meta, fixed))
        s = sddsref.Spec(mode, params, columns, style=style, preamble=ch.pick(
            "preamble", ("", "!# little-endian\n", "! a comment\n! another\n")), description=ch.flag("description"),
            comments=ch.flag("comments"), blank=ch.flag("blank lines"))
        live = [p for p in params if p.get("fixed") is None]
        pages = [([2 + i for i in range(len(live))], [[9 + j for j in range(len(columns))]])]
        s.pages = pages
        with open("h.sdds", "wb") as f:
            f.write(s.encode())
        r = load("h.sdds", buffer)
        verify(r, want)
        check_tables(r, [(p["name"], p["type"]) for p in live], [(c["name"], c["type"]) for c in columns], pages)
        ch.observe(mode, style, want)

    def texts(ch):
        """Every short text of characters that mean something in a header, in every field."""
        from rsbeams.rsdata.SDDS import writeSDDS
        s = "".join(ch.pick("character %d" % i, SIGNS, dev=False) for i in range(ch.pick("length", (3, 1, 2), dev=False)))
        if any(not l.strip(" ") or l.startswith("!") for l in s.split("\n")[1:-1]) or s.split("\n")[-1].startswith("!") and "\n" in s:
            ch.nontrivial = False
            return
        want = []
        w = writeSDDS()
        for k, name, t, meta in (("p", "p", "double", (s, s + "x", "x" + s, s + "&end")), ("f", "f", "string", ("=" + s, s, s, s)),
                                 ("c", "c", "long", ("&end" + s, "x" + s + "x", s, s + s if "\n" not in s else s))):
            pre = "col" if k == "c" else "par"
            kw = {pre + WKEY[m]: v for m, v in zip(META, meta)}
            if k == "c":
                w.create_column(name, np.array([4, 7]), t, **kw)
            else:
                w.create_parameter(name, None if k == "f" else 2.5, t, **dict(kw, **({"parFixedVal": s} if k == "f" else {})))
            want.append((k, name, t, dict(zip(META, meta)), s if k == "f" else None))
        for mode in ("ascii", "binary"):
            w.save_sdds("h.sdds", dataMode=mode)
            for buffer in (True, False):
                r = load("h.sdds", buffer)
                verify(r, want)
                check_tables(r, [("p", "double")], [("c", "long")], [([2.5], [[4], [7]])])
        ch.observe(s)

    def names(ch):
        """Every name with two of the signs that names may have."""
        from rsbeams.rsdata.SDDS import writeSDDS
        signs = "@:#+-%._$&/[]'()^*~`;|{}<>?!=\\aZ0"
        s = ch.pick("first", signs, dev=False) + ch.pick("second", signs, dev=False)
        names = [(x, t) for x, t in (("x" + s, "double"), ("y" + s + "y", "short"), (s[0] + "z" + s[1], "long"))]
        w = writeSDDS()
        for i, (n, t) in enumerate(names):
            w.create_parameter(n, i + 2, t, parUnits=n)
            w.create_column(n, np.array([i, i + 3]), t, colDescription="of " + n)
        w.create_parameter("f" + s, None, "long", parFixedVal=7)
        for mode in ("ascii", "binary"):
            w.save_sdds("h.sdds", dataMode=mode)
            for buffer in (True, False):
                r = load("h.sdds", buffer)
                for n, t in names:
                    require(r.parameter_units(n) == n and r.column_description(n) == "of " + n, "header of %s" % n)
                    require(r.parameter_type(n) == r.column_type(n) == t, "type of %s" % n)
                require(r.parameter_fixed_value("f" + s) == 7, "fixed value of f%s" % s)
                check_tables(r, names, names, [([2, 3, 4], [[0, 1, 2], [3, 4, 5]])])
        ch.observe(s)

    b = 3 if deep else 2
    return [Harness("written", written, bound=b), Harness("fixed", fixed, bound=None if deep else 3), Harness("foreign", foreign, bound=b),
            Harness("texts", texts), Harness("names", names)]
