"""Independent SDDS encoder (written from the SDDS format description, shares nothing with rsbeams.rsdata)."""
import struct

FMT = {"double": "<d", "float": "<f", "long": "<i", "short": "<h"}


def _num(v, typ):
    if typ in ("long", "short"):
        return "%d" % v
    return repr(float(v))


def field(k, v, quote):
    return '%s="%s"' % (k, v) if quote else "%s=%s" % (k, v)


def namelist(kind, fields, style="plain"):
    """style: plain | tight | nospace | multiline | spread | blanks | columns"""
    items = ["%s=%s" % kv for kv in fields]
    if style == "blanks":
        return "&%s %s, &end\n" % (kind, ", ".join("%s = %s" % kv for kv in fields))
    if style == "columns":
        return "  &%s\n" % kind + "".join("  %-12s= %s,\n" % kv for kv in fields) + "  &end\n"
    if style == "nospace":
        return "&%s %s &end\n" % (kind, ",".join(items))
    if style == "tight":
        return "&%s %s &end\n" % (kind, ", ".join(items))
    if style == "multiline":
        return "&%s\n" % kind + "".join(" %s,\n" % i for i in items) + "&end\n"
    if style == "spread":
        return "&%s %s,\n" % (kind, items[0]) + "".join("   %s,\n" % i for i in items[1:]) + " &end\n"
    return "&%s %s, &end\n" % (kind, ", ".join(items))


class Spec:
    page_end = "\n"         # of ASCII pages without row counts

    def __init__(self, mode, params=(), columns=(), pages=(), no_row_counts=False, style="plain", preamble="",
                 description=False, comments=False, blank=False, data_comments=False, extra=None):
        self.mode, self.params, self.columns, self.pages = mode, list(params), list(columns), list(pages)
        self.no_row_counts, self.style, self.preamble = no_row_counts, style, preamble
        self.description, self.comments, self.blank, self.data_comments = description, comments, blank, data_comments
        self.extra = extra or {}

    # params: dicts name,type,[fixed], extra header fields under 'meta' (list of (key, rendered value))
    def header(self):
        out = ["SDDS1\n"]
        out.append(self.preamble)
        if self.description:
            out.append('&description text="a test file", contents="test", &end\n')
        for i, p in enumerate(self.params):
            if self.comments:
                out.append("! comment before parameter %d\n" % i)
            f = [("name", p.get("header_name", p["name"])), ("type", p["type"])] + list(p.get("meta", ()))
            if p.get("fixed") is not None:
                v = p["fixed"]
                f.append(("fixed_value", '"%s"' % v if p["type"] == "string" else _num(v, p["type"])))
            if p.get("reverse"):
                f.reverse()
            out.append(namelist("parameter", f, self.style))
            if self.blank:
                out.append("\n")
        for i, c in enumerate(self.columns):
            if self.comments:
                out.append("! comment before column %d\n" % i)
            f = [("name", c.get("header_name", c["name"])), ("type", c["type"])] + list(c.get("meta", ()))
            if c.get("reverse"):
                f.reverse()
            out.append(namelist("column", f, self.style))
        d = [("mode", self.mode)]
        if self.no_row_counts:
            d.append(("no_row_counts", "1"))
        out.append(namelist("data", d, "plain" if self.style == "plain" else self.style))
        return "".join(out).encode()

    def page(self, params, rows):
        live = [p for p in self.params if p.get("fixed") is None]
        if self.mode == "binary":
            b = struct.pack("<i", len(rows))
            for p, v in zip(live, params):
                b += self._bin(p["type"], v)
            for r in rows:
                for c, v in zip(self.columns, r):
                    b += self._bin(c["type"], v)
            return b
        s = []
        dc = self.data_comments
        indent, tail = ("  " if dc == "indented" else ""), (" ! x, 1 2" if dc == "inline" else "")
        if dc:
            s.append(indent + "! page comment\n")
        for p, v in zip(live, params):
            s.append((v if p["type"] == "string" else _num(v, p["type"])) + tail + "\n")
            if dc in ("every line", "indented"):
                s.append(indent + "! after a parameter\n")
        if self.columns:
            if not self.no_row_counts:
                s.append("%20d%s\n" % (len(rows), tail))
            for i, r in enumerate(rows):
                if dc in ("every line", "indented") and (i or not self.no_row_counts):
                    s.append(indent + "!%d\n" % i)
                s.append(" ".join(v if c["type"] == "string" else _num(v, c["type"])
                                  for c, v in zip(self.columns, r)) + " " + tail + "\n")
            if self.no_row_counts:
                s.append(self.page_end)
        return "".join(s).encode()

    @staticmethod
    def _bin(t, v):
        if t == "string":
            b = v.encode()
            return struct.pack("<i", len(b)) + b
        return struct.pack(FMT[t], v)

    def encode(self):
        return self.header() + b"".join(self.page(*p) for p in self.pages)


def text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def same(t, got, want):
    """Bit-for-bit equality for numbers, text equality for strings."""
    if t == "string":
        return text(got) == want
    import numpy as np
    if t == "float":
        want = np.float32(want)
    return bool(got == want) and (t in ("long", "short") or np.signbit(got) == np.signbit(want)) or (want != want and got != got)
