"""C12: expansion of elegant beamline definitions (nesting, repetition, layout) against an independent expansion."""
import itertools

from checks.c11 import structure
from mc.core import Harness, require

# abstract syntax of one entry: ("e", name), ("n", count, name), ("g", count, [entries])
A, B, S, T = ("e", "a"), ("e", "b"), ("e", "s"), ("e", "t")
ENTRIES = (A, ("n", 2, "b"), S, ("n", 2, "s"), ("g", 2, [A, B]), B, ("n", 12, "a"), T, ("g", 1, [B]),
           ("g", 3, [("n", 2, "a"), S]), ("g", 2, [B, ("g", 2, [A, B])]), ("g", 2, [S, T]), ("n", 3, "t"),
           ("g", 2, [("g", 3, [A]), ("n", 2, "b")]), ("g", 1, [A, ("g", 1, [S]), B]))
SUB = {"s": ([A, B], [B], [("n", 2, "a"), B], [("g", 2, [B, A])], [A]),
       "t": ([S, A], [A, S, S], [("n", 2, "s")], [B, ("g", 2, [S])], [B])}
NAMES = ({"a": "a", "b": "b", "s": "s", "t": "t"}, {"a": "q1", "b": "q10", "s": "q", "t": "q100"},
         {"a": "b-1", "b": "x.y", "s": "_line", "t": "line_2"}, {"a": "D_1", "b": "d_11", "s": "Arc", "t": "ARC2"})


def text(entry, names, lay, rng):
    k = entry[0]
    if k == "e":
        return quote(names[entry[1]], lay)
    if k == "n":
        return "%d%s%s" % (entry[1], lay.get("times", "*"), quote(names[entry[2]], lay))
    return ("%d%s(%s)" % (entry[1], lay.get("times", "*"), "%s") if entry[1] != 1 or not lay.get("bare") else "(%s)") % (lay["comma"].join(text(e, names, lay, rng) for e in entry[2]))


def quote(name, lay):
    return {"plain": name, "double": '"%s"' % name, "single": "'%s'" % name}[lay["quotes"]]


def expand(entries, lines):
    """The structure of a line: elements and nested lists."""
    out = []
    for e in entries:
        if e[0] == "g":
            out += expand(e[2], lines) * e[1]
        else:
            name, n = (e[1], 1) if e[0] == "e" else (e[2], e[1])
            out += ([expand(lines[name], lines)] if name in lines else [name]) * n
    return out


def rename(st, names, types):
    return [rename(i, names, types) if isinstance(i, list) else (names[i].lower(), types[i], TYPES[types[i]]) for i in st]


TYPES = {"quad": [("k1", 1.5), ("l", 0.25)], "drif": [("l", 0.5)]}


def build_file(ch, top, sub, lay, names):
    """Text of a lattice file with line 'top'."""
    lw = lay["case"]
    out = []
    types = {"a": "quad", "b": "drif"}
    c = lay["comma"]
    qd = {"plain": "%s", "double": '"%s"', "single": "'%s'"}[lay["definition quotes"]]
    elements = ["%s: QUAD,L=0.25,K1=1.5" % (qd % names["a"]), "%s: drif,l=0.5" % (qd % names["b"]),
                "%s: MARK" % (qd % "other"), "%s: DRIF, L=99" % (qd % (names["a"] + "x")),
                "%s: DRIF, L=98" % (qd % ("x" + names["b"]))]
    lines = []
    for k in ("s", "t"):
        lines.append((names[k], sub[k]))
    lines.append(("Cell", top))
    lines.append(("other_line", [A, A, B]))
    ltext = []
    for n, entries in lines:
        body = c.join(text(e, names, lay, None) for e in entries)
        ltext.append("%s%s%s(%s)%s" % (lay["indent"], lay["line name"] % n, lay["equals"], body, lay["end"]))
    order = lay["order"]
    blocks = {"elements first": elements + ltext, "lines first": ltext[::-1] + elements,
              "mixed": [x for p in itertools.zip_longest(ltext, elements) for x in p if x]}[order]
    for b in blocks:
        out += [lay["between"]] if lay["between"] is not None else []
        out.append(b)
    s = "\n".join(out) + lay["eof"]
    if lw == "upper":
        s = s.upper()
    elif lw == "lower":
        s = s.lower()
    return s, types


LAYOUT = (("comma", (",", ", ", " , ", ",&\n", ", &\n  ", ",\t")), ("quotes", ("plain", "double", "single")),
          ("definition quotes", ("plain", "double")), ("case", ("as is", "upper", "lower")),
          ("line name", ("%s: ", '"%s": ', "%s:", "%s :")), ("equals", ("LINE=", "line=", "Line = ", "LINE =", "  LINE  =  ", "line\t= ")),
          ("times", ("*", " * ", " *", "* ", "\t*\t")), ("bare", (False, True)), ("indent", ("", "  ", "\t")),
          ("end", ("", " ", " ! comment (with, brackets)", "  !", "!(a,b)", "\n")), ("order", ("elements first", "lines first", "mixed")),
          ("between", (None, "", "! comment: LINE=(a,b)", "  ! %", "   ")), ("eof", ("\n", "", "\n\n", "\n! end", "\n  \n")))


def check_parse(ch, top, sub, names, lay, name="Cell"):
    from rsbeams.rslattice.lte_parser import BeamlineParser
    s, types = build_file(ch, top, sub, lay, names)
    with open("f.lte", "w") as f:
        f.write(s)
    parser = BeamlineParser("f.lte", name)
    line = parser()
    want = rename(expand(top, sub), names, types)
    got = structure(line)
    require(got == want, "structure of the line", got=got, want=want, file=s)
    require(parser.beamline is line, "the parser holds the line it returned")
    flat = list(line.get_beamline_elements())

    def leaves(st):
        for i in st:
            if isinstance(i, list):
                yield from leaves(i)
            else:
                yield i
    ref = list(leaves(want))
    require([e.name for e in flat] == [r[0] for r in ref], "elements in order")
    total = sum(dict(r[2])["l"] for r in ref)
    require(abs(line.length - total) < 1e-9, "length", got=line.length, want=total)
    first = {}
    for e in flat:
        require(first.setdefault(e.name, e) is e, "one element object per definition", name=e.name)
        require(e.beamline is line, "beamline of the element")
    require(open("f.lte").read() == s, "parsing changes the file")
    return parser, want


def harnesses(tier):
    deep = tier == "thorough"

    def plain():
        return {k: v[0] for k, v in LAYOUT}

    def expansion(ch):
        n = ch.pick("entries", (1, 2, 3), dev=False)
        top = [ch.pick("entry %d" % i, ENTRIES, dev=i >= (3 if deep else 2)) for i in range(n)]
        sub = {k: ch.pick("line " + k, SUB[k]) for k in ("s", "t")}
        lay = plain()
        lay["comma"] = ch.pick("comma", (",", ", ", " , "))
        lay["bare"] = ch.flag("single groups without a factor")
        _p, want = check_parse(ch, top, sub, ch.pick("names", NAMES), lay)
        ch.observe(want)

    def layout(ch):
        lay = {k: ch.pick(k, v) for k, v in LAYOUT}
        top = ch.pick("entries", ([A, ("n", 2, "b"), S, ("g", 2, [B, A])], [T, B], [("g", 2, [S, A])], [("n", 2, "t")],
                                 [("g", 1, [A, ("g", 1, [B, S])]), B], [("g", 2, [("g", 1, [("n", 3, "a"), B]), A])]))
        sub = {"s": [A, B], "t": [S, A]}
        _p, want = check_parse(ch, top, sub, ch.pick("names", NAMES), lay)
        ch.observe(want, sorted(lay.items(), key=str))

    def texts(ch):
        """All names of one and two signs, for an element and for a line, bare or quoted, with and without a factor."""
        quotes = ch.pick("quotes", ("double", "plain"), dev=False)
        signs = "".join(chr(i) for i in range(32, 127) if chr(i) not in "\"'!" and not chr(i).isupper())
        first = ch.pick("first", tuple(signs[1:] if quotes == "double" else "al_\\[@#$"), dev=False)
        what = ch.pick("name of", ("a", "s"), dev=False)
        factor = ch.pick("entry", ("once", "three times", "in a group"), dev=False)
        lay = plain()
        lay["quotes"] = lay["definition quotes"] = quotes
        lay["line name"] = {"double": '"%s": ', "plain": "%s: "}[quotes]
        one = A if what == "a" else S
        top = [B, {"once": one, "three times": ("n", 3, one[1]), "in a group": ("g", 2, [one, B])}[factor], one, B]
        total = 0
        for second in ("",) + tuple(signs if quotes == "double" else "ab1._-#$@/+[]"):
            name = first + second
            if name != name.strip():
                continue
            names = {"a": "e-1", "b": "e-2", "s": "s-1", "t": "t-1", what: name}
            check_parse(ch, top, {"s": [B, A], "t": [S]}, names, lay)
            total += 1
        ch.observe(quotes, first, what, factor, total)

    def choose(ch):
        """Selecting lines, one after the other, from one file."""
        from rsbeams.rslattice.lte_parser import BeamlineParser
        top = [A, ("n", 2, "s"), ("g", 2, [B, T])]
        sub = {"s": [A, B], "t": [S, ("n", 2, "b")]}
        names = ch.pick("names", NAMES)
        s, types = build_file(ch, top, sub, dict(plain(), order=ch.pick("order", ("elements first", "lines first"))), names)
        with open("f.lte", "w") as f:
            f.write(s)
        all_ = dict(sub, Cell=top, other_line=[A, A, B])
        p, earlier = None, []
        for i in range(3 if deep else 2):
            k = ch.pick("line %d" % i, ("Cell", "s", "t", "other_line", "again", "missing"), dev=False)
            if k == "again":
                if p is None:
                    continue
                k = last
            elif k == "missing":
                try:
                    q = BeamlineParser("f.lte", "nothing")
                    q()
                except AssertionError:
                    continue
                require(False, "a line that is not in the file is accepted")
            else:
                name = names.get(k, k)
                name = ch.pick("spelling %d" % i, (name, name.upper(), name.capitalize()))
                if p is None:
                    p = BeamlineParser("f.lte", name)
                else:
                    p.set_beamline(name)
            last = k
            line = p()
            want = rename(expand(all_[k], sub), names, types)
            require(structure(line) == want, "line %s" % k, got=structure(line), want=want)
            require(line.name == name, "name of the line", got=line.name, want=name)
            for old, n, st in earlier:
                require(old.name == n and structure(old) == st, "a line that was read before changed", got=old.name, want=n)
            edit = ch.pick("edit %d" % i, ("none", "length", "insert", "all"), dev=False)
            if edit in ("length", "all"):
                for e in line.get_beamline_elements():
                    e.parameters["L"] = 77.0
            if edit in ("insert", "all"):
                line.add_element("extra", "drift", {"l": 3.0})
                line.sequence.insert(0, line.sequence[-1])
            earlier.append((line, name, structure(line)))
        ch.observe(s)

    def depth(ch):
        """Chains of lines: several of them end at the same place of the text, at every depth."""
        from rsbeams.rslattice.lte_parser import BeamlineParser
        n = ch.pick("lines", (5, 6) if deep else (4, 5), dev=False)
        names = ["c%d" % i for i in range(n)]
        comma = ch.pick("comma", (",", " , "), dev=False) if deep else ","
        lines = {names[-1]: [B] if ch.flag("last line holds one", dev=False) else [A, B]}
        for i in range(n - 1):
            nxt = ("e", names[i + 1])
            lines[names[i]] = ch.pick("line %d" % i, ([A, nxt], [nxt], [nxt, B], [nxt, nxt], [A, ("n", 2, names[i + 1])],
                                                      [("g", 2, [A, nxt])]) + (([A, nxt, B],) if deep else ()), dev=False)
        lay = plain()
        lay["comma"] = comma
        ident = {x: x for x in list(names) + ["a", "b"]}
        s = "".join("%s: LINE=(%s)\n" % (k, comma.join(text(e, ident, lay, None) for e in v)) for k, v in lines.items())
        s += "a: QUAD,L=0.25,K1=1.5\nb: DRIF,L=0.5\n"
        with open("f.lte", "w") as f:
            f.write(s)
        line = BeamlineParser("f.lte", "c0")()
        want = rename(expand(lines["c0"], lines), {"a": "a", "b": "b"}, {"a": "quad", "b": "drif"})
        require(structure(line) == want, "structure of the line", got=structure(line), want=want, file=s)
        first = {}
        for e in line.get_beamline_elements():
            require(first.setdefault(e.name, e) is e, "one element object per definition", name=e.name)
            require(e.beamline is line, "beamline of the element")
        ch.observe(want)

    def groups(ch):
        """Groups within groups within groups: every shape of up to 11 (thorough: 13) tokens."""
        from rsbeams.rslattice.lte_parser import BeamlineParser
        size = ch.pick("tokens", (13, 8, 10) if deep else (11, 6, 8, 10), dev=False)
        stack, n = [[]], 0
        while n < size:
            left = size - n - (len(stack) - 1)         # every open group is closed at the end
            last = stack[-1]
            opts = ["e"] * (left > 0 and (not last or size - n > len(stack) - 1)) + ["("] * (left > 2) + [")"] * (len(stack) > 1 and bool(last))
            if not opts:
                ch.nontrivial = False
                return
            t = ch.pick("token %d" % n, opts, dev=False)
            if t == "e":
                last.append((A, B, S)[n % 3])
            elif t == "(":
                g = ("g", 1 + (n + 1) % 3 % 2 + (n == 1), [])
                last.append(g)
                stack.append(g[2])
            else:
                stack.pop()
            n += 1
        if len(stack) > 1:
            ch.nontrivial = False
            return
        lay = plain()
        ident = {x: x for x in "abs"}
        lines = {"s": [A, B]}
        s = "c: LINE=(%s)\ns: LINE=(a,b)\na: QUAD,L=0.25,K1=1.5\nb: DRIF,L=0.5\n" % ",".join(text(e, ident, lay, None) for e in stack[0])
        with open("f.lte", "w") as f:
            f.write(s)
        line = BeamlineParser("f.lte", "c")()
        want = rename(expand(stack[0], lines), {"a": "a", "b": "b"}, {"a": "quad", "b": "drif"})
        require(structure(line) == want, "structure of the line", got=structure(line), want=want, file=s)
        ch.observe(s)

    def counts(ch):
        """Repetition counts of any number of digits."""
        from rsbeams.rslattice.lte_parser import BeamlineParser
        n = ch.pick("count", tuple(range(1, 41)) + (99, 100, 101, 127, 128, 200, 255, 256, 257, 999, 1000, 1001, 1024, 4096) + ((9999, 10000, 10001) if deep else ()),
                    dev=False)
        what = ch.pick("what", (A, S, ("q", "a"), ("g", 1, [A, B]), ("g", 1, [S]), ("g", 1, [("g", 3, [B]), A])), dev=False)
        spaces = ch.pick("times", ("*", " * "), dev=False)
        before, after = ch.pick("around", (([], []), ([B], [A]), ([("n", 2, "b")], [("n", 3, "a")])), dev=False)
        lay = dict(plain(), times=spaces)
        if what[0] == "q":
            lay["quotes"] = "double"
            what = A
        entry = ("g", n, what[2]) if what[0] == "g" else ("n", n, what[1])
        top = before + [entry] + after
        if what[0] == "g" and n == 1:
            lay["bare"] = False
        lines = {"s": [A, B]}
        ident = {x: x for x in "abs"}
        s = "c: LINE=(%s)\ns: LINE=(a,b)\na: QUAD,L=0.25,K1=1.5\nb: DRIF,L=0.5\n" % ",".join(text(e, ident, lay, None) for e in top)
        with open("f.lte", "w") as f:
            f.write(s)
        line = BeamlineParser("f.lte", "c")()
        want = rename(expand(top, lines), {"a": "a", "b": "b"}, {"a": "quad", "b": "drif"})
        got = structure(line)
        require(len(got) == len(want), "number of elements of the line", got=len(got), want=len(want), file=s)
        require(got == want, "structure of the line", file=s)
        ch.observe(n, len(want))

    return [Harness("texts", texts, timeout=60), Harness("expansion", expansion, bound=2 if deep else 1), Harness("layout", layout, bound=4 if deep else 3),
            Harness("choose", choose, bound=3 if deep else 2), Harness("depth", depth), Harness("groups", groups),
            Harness("counts", counts)]
