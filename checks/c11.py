"""C11: save_beamline / load_beamline round trip over every short structure and every kind of value."""
import math

import numpy as np

from checks.c10 import TYPES, MElement, MLine, build, grow, same
from mc.core import Harness, require

VALUES = (0.5, 2, 0, -0.0, 1e-20, 1e22, 1e5, .1 + .2, -3, 2 ** 70, float("inf"), float("nan"), True, False, None,
          "", "1.5", "1e5", "on", "null", "~", "a: b", "# x", " lead", "two\nlines", "[1]", "{", "é", "0x10", "%x",
          np.float64(0.1), np.int64(7), np.float32(0.5), np.bool_(True), np.str_("yes"), np.uint8(200), -1.2345678901234567e-05, "x" * 200, "a b " * 60, "a\n\n\nb", "\n", "\n\n", "tab\t", "trail ", "a\\b", "---", "...", "- a", "? x", "2001-01-01", "1:30", "0b1", "0o7", "1_000", ".5", "+1",
          ".inf", "<<", "=", "!!int 3", "&a", "*a", "|", ">", "@", "`", "no", "y", "'", '"', ",", "a\r\nb", "\x1b", "\u2028", "%YAML 1.1")
SIGNS = "?-:,[]{}#&*!|>'\"%@` a1~.\n\\"


def equal(a, b):
    if isinstance(b, np.generic):
        b = b.item()
    if isinstance(b, float) and isinstance(a, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return type(a) is type(b) and a == b


def structure(line):
    from rsbeams.rslattice.Element import Element
    return [(i.name, i.type, sorted(i.parameters.items(), key=str)) if isinstance(i, Element) else structure(i)
            for i in line.sequence]


def mstructure(line):
    return [(i.name, i.type, sorted(i.params.items(), key=str)) if isinstance(i, MElement) else mstructure(i)
            for i in line.items]


def identity(line):
    """The same element object at two places (within one line)."""
    flat = list(line.sequence)
    return [[flat.index(x) for x in flat]]


def conflict(line):
    """Two different elements of one name in one line (only possible through subline=True) share their definition."""
    seen = {}
    for i in line.items:
        if isinstance(i, MLine):
            if conflict(i):
                return True
        elif seen.setdefault(i.name, i) is not i:
            return True
    return False


def harnesses(tier):
    deep = tier == "thorough"

    def structures(ch):
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top, m = build(ch, 5 if deep else 4, edits=False, names=("q", "d"))
        if conflict(m):
            ch.nontrivial = False
            return
        if ch.flag("file exists"):
            with open("line.yml", "w") as f:
                f.write("- {name: old, type: drift, l: 1}\n" * 200)
        top.save_beamline("line.yml")
        require(structure(top) == mstructure(m), "saving changes the beamline")
        text = open("line.yml").read()
        new = StructuredBeamline("new")
        new.load_beamline("line.yml", "elegant")
        require(structure(new) == mstructure(m), "loaded structure", got=structure(new), want=mstructure(m))
        require(open("line.yml").read() == text, "loading changes the file")
        require(same(new.length, m.length()), "length", got=new.length, want=m.length())
        a, b = list(new.get_beamline_elements()), list(top.get_beamline_elements())
        for e in a:
            require(e.beamline is new, "element's beamline")
            # position of the first element that is this element
            s = sum((x.parameters.get("L", 0) for x in a[:[x is e for x in a].index(True)]), 0)
            require(same(e.edge, s), "edge of %s" % e.name, got=e.edge, want=s)
        # a repeated element of one line is one element again
        for line, ml in ((new, m),):
            els = [(r, x) for r, x in zip(line.sequence, ml.items) if isinstance(x, MElement)]
            for r, x in els:
                for r2, x2 in els:
                    require((r is r2) == (x is x2), "repeated element of one line", got=(r.name, r2.name))
        if els:
            els[0][0].parameters["L"] = 100.0
            n = sum(1 for e in a if e is els[0][0])
            require(n == sum(1 for e in ml.items if e is els[0][1]), "occurrences of the edited element", got=n)
            require(same(new.length, sum(e.parameters.get("L", 0) for e in a)) and new.length >= 99 * n - 5, "length after editing the loaded beamline", got=new.length)
        # not loaded over a beamline that is not empty
        if top.sequence:
            top.load_beamline("line.yml", "elegant")
            require(structure(top) == mstructure(m), "load_beamline into a beamline that is not empty changed it")
        other = StructuredBeamline("other")
        other.load_beamline("line.yml", "elegant")
        other.save_beamline("again.yml")
        require(open("again.yml").read() == text, "saving the loaded beamline gives another file")
        ch.observe(mstructure(m))

    def trees(ch):
        """Every shape of nested lines."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top, m, shape = grow(ch, ch.pick("tokens", (11, 6, 8) if deep else (9, 6, 8), dev=False), ch.pick("names", (None, ("a", "b")), dev=False))
        top.save_beamline("t.yml")
        new = StructuredBeamline("new")
        new.load_beamline("t.yml", "elegant")
        require(structure(new) == mstructure(m), "loaded structure", got=structure(new), want=mstructure(m))
        require(same(new.length, m.length()), "length", got=new.length, want=m.length())
        for e in new.get_beamline_elements():
            require(e.beamline is new, "element's beamline")
        ch.observe(shape)

    def texts(ch):
        """Every short text of characters that mean something in YAML as name, type, parameter and value."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        text = "".join(ch.pick("character %d" % i, SIGNS, dev=False) for i in range(ch.pick("length", (3, 1, 2), dev=False)))
        top = StructuredBeamline("top")
        top.add_element(text, "x" + text.strip() + "x", {"a": text, text + "k": 1.5, "k" + text: text * 2 + "a"})
        top.add_element("last", "drift", {"b": "a " + text, "c": text + " a"})
        top.save_beamline("t.yml")
        new = StructuredBeamline("new")
        new.load_beamline("t.yml", "elegant")
        require(structure(new) == structure(top), "loaded structure", got=structure(new), want=structure(top))
        ch.observe(text)

    def types(ch):
        """Elements of every type."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top = StructuredBeamline("top")
        typ = ch.pick("type", TYPES, dev=False)
        if ch.flag("nested", dev=False):
            top.add_beamline("s")
            top.add_element(typ or "x", typ, {"l": 1.25, "group": typ}, subline=True)
        else:
            top.add_element(typ or "x", typ, {"l": 1.25, "group": typ})
        top.add_element("last", "drift", {})
        top.save_beamline("t.yml")
        new = StructuredBeamline("new")
        new.load_beamline("t.yml", "elegant")
        require(structure(new) == structure(top), "loaded structure", got=structure(new), want=structure(top))
        ch.observe(structure(new))

    def many(ch):
        """Lines with many lines and elements."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top, m = StructuredBeamline("top"), MLine("top")
        for i in range(ch.pick("lines", (12, 3, 4, 5, 10, 30), dev=False)):
            top.add_beamline("s%d" % i)
            m.items.append(MLine("s%d" % i))
            for j in range(ch.pick("elements", (1, 2, 12), dev=False) if not i else 1 + i % 3):
                top.sequence[-1].add_element("e%d" % j, "drift", {"l": 1.0 + i + 100 * j})
                m.items[-1].items.append(MElement("e%d" % j, "drift", {"l": 1.0 + i + 100 * j}))
        top.save_beamline("m.yml")
        new = StructuredBeamline("new")
        new.load_beamline("m.yml", "elegant")
        require(structure(new) == mstructure(m), "loaded structure", got=structure(new), want=mstructure(m))
        ch.observe(mstructure(m))

    def values(ch):
        from rsbeams.rslattice.Beamline import StructuredBeamline
        value = ch.pick("value", VALUES, dev=False)
        other = ch.pick("second value", VALUES if deep else (1.0, "text"))
        key = ch.pick("key", ("k1", "Group", "n", "l", "y", "1", "line", "Sequence", "elements", "beamline", "edge", "names", "types"))
        depth = ch.pick("depth", (0, 1, 2), dev=not deep)
        name = ch.pick("name", ("q", "Q1", "1", "null", "a b", "é", "x:y", " lead", "trail ", "a #b", "#", "yes", "two\nlines", "- x", "!t",
                                "a: b", "[1]", "{", "0x10", "1e5", "~", "", "'", '"', "%", "type", "line", "Q", "q.1[2]", "x" * 300))
        typ = ch.pick("type", ("quadrupole", "no", "3", "quad two", "", "# t"))
        top = StructuredBeamline("top")
        line = top
        for d in range(depth):
            line.add_beamline("s%d" % d)
            line = line.sequence[-1]
        line.add_element(name, typ, {key: value, "second": other})
        line.add_element("last", "drift", {})
        top.save_beamline("v.yml")
        new = StructuredBeamline("new")
        new.load_beamline("v.yml", "elegant")
        els = list(new.get_beamline_elements())
        require([(e.name, e.type) for e in els] == [(name, typ), ("last", "drift")], "names and types",
                got=[(e.name, e.type) for e in els])
        got = dict(els[0].parameters)
        require(set(got) == {key.lower(), "second"}, "parameter names", got=got)
        require(equal(got[key.lower()], value) and equal(got["second"], other), "parameter values", got=got,
                want=(value, other))
        require(dict(els[1].parameters) == {}, "element without parameters", got=els[1].parameters)
        ch.observe(got)

    def imported(ch):
        """Beamlines from the importers, edited or not, saved and loaded again, twice."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        kind = ch.pick("from", ("elegant", "sirepo", "sirepo file", "tracewin", "trace3d"), dev=False)
        if kind == "elegant":
            from rsbeams.rslattice.lte_parser import BeamlineParser
            els = {"D": ("drif", ("L=0.5", 'L="1 2 /"', "L=1e-3, GROUP=G1")), "Q": ("quad", ("L=.25, K1=-1.5", 'K1="a 2 *", L=1', "L=1, K1=4pi")),
                   "W": ("watch", ('FILENAME="%s-%03ld.w1", MODE=coord', 'FILENAME="a b: c", INTERVAL=1', ""))}
            text = "% 3.25 sto a\n" + "".join("%s: %s%s\n" % (k, t, "".join(", " + p for p in [ch.pick("parameters of " + k, ps)] if p))
                                             for k, (t, ps) in els.items())
            text += "S1: LINE=(%s)\nS2: LINE=(%s)\nTOP: LINE=(%s)\n" % (
                ch.pick("S1", ("D,Q", "W", "2*D", "Q,2*(D,W)")), ch.pick("S2", ("S1,D", "D,S1", "2*S1", "S1,S1,W")),
                ch.pick("top", ("S1,S2,Q", "S2,S2", "D,2*(S1,D),3*Q", "W", "2*S2,S1")))
            with open("in", "w") as f:
                f.write(text)
            make = BeamlineParser("in", "TOP")
        elif kind.startswith("sirepo"):
            import json
            from rsbeams.rslattice.templates.lattice_importer import parse_json
            m = {"models": {"rpnCache": {"a": 2.5, "a 2 *": 5, "z": 0},
                 "elements": [{"_id": 1, "name": "Q", "type": "QUAD", "l": ch.pick("l", ("0.5", 2, "a", "a 2 *", "z")), "k1": ch.pick("k1", ("1e5", -3.25, "x y", "nan", "")),
                               "group": ch.pick("group", ("", "3", "a: b", None))}, {"_id": 2, "name": "D", "type": "DRIF", "l": "1"},
                              {"_id": 3, "name": "W", "type": "WATCH", "filename": "1", "sparse": True}],
                 "beamlines": [{"id": 11, "name": "S1", "items": ch.pick("S1", ([1, 2], [3], [2, 2, 1]))},
                               {"id": 12, "name": "S2", "items": ch.pick("S2", ([11, 2], [2, 11, 1], [11, -11]))},
                               {"id": 13, "name": "TOP", "items": ch.pick("top", ([11, 12, 1], [-12, 12], [12, 12, 3], [3, -11], [1, 2]))}]}}
            if "file" in kind:
                with open("in", "w") as f:
                    json.dump(m, f)
            make = lambda: parse_json("in" if "file" in kind else m, "TOP")
        elif kind == "tracewin":
            from rsbeams.rslattice.trace3d_parser import TraceWin
            cards = ("DRIFT 100.5 20", "QUAD 50 -12.5 20", "DTL_CEL 100 10 20 0 3 -1.5 1000 -30 10 0 0.1 0.8 -0.5 -0.2", "FREQ 352.21", "DRIFT .1 20 3")
            with open("in", "w") as f:
                f.write("\n".join(ch.pick("card %d" % i, cards[i:] + cards[:i]) for i in range(4)) + "\n")
            make = TraceWin("in", "top")
        else:
            from rsbeams.rslattice.trace3d_parser import Trace3d
            cells = ("nt(%d)=1, a(1,%d)= 250.5", "nt(%d)=3, a(1,%d)= -1.5, 100", "nt(%d)=8, a(1,%d)= 30, 1000, 0, 0", "nt(%d)=10, a(1,%d)= 0.25, -30, 0, 0, 1")
            with open("in", "w") as f:
                f.write("\n".join("cmt(%d)='' " % (i + 1) + ch.pick("cell %d" % i, cells[i:] + cells[:i]) % (i + 1, i + 1) for i in range(3)) + "\n")
            make = Trace3d("in", "top")
        top = make()
        els = list(top.get_beamline_elements())
        edit = ch.pick("edit", (None, "l", "NEW"))
        if edit:
            el = els[ch.pick("element", (0, -1), dev=False)]
            el.parameters[edit] = 7.25
        want, length = structure(top), top.length
        top.save_beamline("a.yml")
        require(structure(top) == want, "saving changes the beamline")
        new = StructuredBeamline("new")
        new.load_beamline("a.yml", "elegant")
        got = structure(new)
        require(shape_of(got) == shape_of(want), "loaded structure", got=got, want=want)
        for a, b in zip(new.get_beamline_elements(), els):
            require((a.name, a.type) == (b.name, b.type) and set(a.parameters) == set(b.parameters), "loaded element", got=dict(a.parameters), want=dict(b.parameters))
            for k, v in b.parameters.items():
                require(equal(a.parameters[k], v), "%s of %s" % (k, a.name), got=a.parameters[k], want=v)
        require(same(new.length, length), "length", got=new.length, want=length)
        require(all(e.beamline is new for e in new.get_beamline_elements()), "elements' beamline")
        new.save_beamline("b.yml")
        require(open("a.yml").read() == open("b.yml").read(), "saving the loaded beamline gives another file")
        ch.observe(kind, got)

    def shape_of(s):
        return [shape_of(i) if isinstance(i, list) else i[0] for i in s]

    return [Harness("imported", imported, bound=3 if deep else 2), Harness("structures", structures, bound=2 if deep else 1), Harness("values", values, bound=2),
            Harness("trees", trees), Harness("many", many), Harness("types", types), Harness("texts", texts)]
