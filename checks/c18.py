"""C18: TraceWin and Trace3D lattice files from an independent encoder."""
import itertools
import math
import re

from mc.core import Harness, require

CL = 299792458.0
NUMS = (("100", 100.0), ("-20", -20.0), ("1.5", 1.5), ("-0.25", -0.25), ("2e2", 200.0), ("1.5E-1", 0.15), ("+3", 3.0), (".5", 0.5),
        ("7.", 7.0), ("-1e+1", -10.0), ("0", 0.0))
FORTRAN = (("1.5d-3", 1.5e-3), ("-2D+1", -20.0), (".5d0", 0.5), ("3.d2", 300.0))


def num(ch, label, start=0, dev=True):
    return ch.pick(label, NUMS[start:] + NUMS[:start], dev)


def close(a, b):
    return a == b or abs(a - b) <= 1e-12 * abs(b)


def compare(line, want, text):
    els = list(line.get_beamline_elements())
    require([e.type for e in els] == [w[0] for w in want], "element types in order", got=[e.type for e in els],
            want=[w[0] for w in want], text=text)
    total = 0
    for i, (e, (t, p)) in enumerate(zip(els, want)):
        got = dict(e.parameters)
        require(set(got) == {k.lower() for k in p}, "parameters of element %d (%s)" % (i, t), got=got, want=p, text=text)
        for k, v in p.items():
            require(close(got[k.lower()], v), "%s of element %d (%s)" % (k, i, t), got=got[k.lower()], want=v, text=text)
        total += {k.lower(): v for k, v in p.items()}.get("l", 0)
    require(close(line.length, total), "length", got=line.length, want=total)


def tracewin_item(ch, i, kind, freq):
    """Text, expected elements, new frequency."""
    def n(label, start=0):
        return num(ch, "%s of %d" % (label, i), start)
    if kind == "DRIFT":
        v = [n("L"), n("R", 6)] + [n("Ry", 10)] * ch.flag("more of %d" % i)
        return "DRIFT", v, [("drift", dict(zip(("L", "R", "Ry"), [v[0][1] * 1e-3] + [x[1] for x in v[1:]])))], freq
    if kind == "QUAD":
        v = [n("L"), n("G", 3), n("R", 6)]
        return "QUAD", v, [("quadrupole", {"L": v[0][1] * 1e-3, "K1": v[1][1], "R": v[2][1]})], freq
    if kind == "FREQ":
        v = [ch.pick("frequency of %d" % i, (("352.21", 352.21), ("704", 704.0), ("1.0e2", 100.0)))]
        return "FREQ", v, [], v[0][1] * 1e6
    if kind == "SET_SYNC_PHASE":
        return kind, [], [("marker", {})], freq
    if kind == "DTL_CEL":
        size = ch.pick("cell %d" % i, (("600", "50.5", "75"), ("100", "0", "25.25"), ("80.5", "80.5", "0"), ("1.2e2", "30", "30.0")))
        v = [(s, float(s)) for s in size] + [("0", 0.0), n("B1", 1), n("B2", 2), n("E0TL", 4), n("phase", 1),
             ("10", 10.0), ("0", 0.0), ch.pick("design beta of %d" % i, ((".08", 0.08), ("0", 0.0))), ("0.8", .8), ("-0.3", -.3), ("0", 0.0)]
        x = [a[1] for a in v]
        return kind, v, [("quadrupole", {"k1": x[4], "l": x[1] * 1e-3}),
                         ("rfca", {"l": (x[0] - x[1] - x[2]) * 1e-3, "volt": x[6], "phase": x[7] + 90,
                                   "frequency": freq if freq is not None else 1.0}),
                         ("quadrupole", {"k1": x[5], "l": x[2] * 1e-3})], freq
    if kind == "NCELLS":
        v = [("0", 0.0), ch.pick("cells of %d" % i, (("5", 5.0), ("1", 1.0))), ch.pick("beta of %d" % i, (("0.5", .5), (".95", .95))),
             ch.pick("E0T of %d" % i, (("1.5e6", 1.5e6), ("250000", 250000.0))), n("phase", 1), ("20", 20.0), ("0", 0.0)]
        L = v[2][1] * CL / freq * v[1][1]
        return kind, v, [("rfca", {"l": L, "volt": v[3][1] * L, "phase": v[4][1] + 90, "frequency": freq})], freq


def harnesses(tier):
    deep = tier == "thorough"

    def tracewin(ch):
        from rsbeams.rslattice.trace3d_parser import TraceWin
        n = ch.pick("elements", (1, 2, 3), dev=False)
        freq, want, out = None, [], []
        sep = ch.pick("separator", (" ", "  ", "\t"))
        case = ch.pick("case", ("upper", "lower", "capital"))
        for i in range(n):
            kinds = ["DRIFT", "QUAD", "FREQ", "DTL_CEL", "SET_SYNC_PHASE"] + ["NCELLS"] * (freq is not None)
            kind = ch.pick("kind %d" % i, kinds, dev=i > 1)
            word, vals, exp, freq = tracewin_item(ch, i, kind, freq)
            want += exp
            word = {"upper": word, "lower": word.lower(), "capital": word.capitalize()}[case]
            s = sep.join([word] + [v[0] for v in vals])
            out += ch.pick("before %d" % i, ([], ["; comment 1 2 3"], [""], ["  ; QUAD 1 2 3", "   "]))
            out.append(ch.pick("indent %d" % i, ("", "  ", "\t")) + s + ch.pick("end %d" % i, ("", " ", " ; 4 5.5 -6", ";")))
        text = "\n".join(out) + ch.pick("eof", ("\n", "", "\n;end", "\n\n", "\n; QUAD 1 2 3\n"))
        with open("f.dat", "w") as f:
            f.write(text)
        line = TraceWin("f.dat", "line")()
        compare(line, want, text)
        require(line.name == "line", "name")
        require(len({id(e) for e in line.get_beamline_elements()}) == len(want), "elements are distinct")
        ch.observe(want)

    def no_frequency(ch):
        """Cells whose length depends on the frequency are refused when none is set."""
        from rsbeams.rslattice.trace3d_parser import TraceWin
        cards = [ch.pick("card %d" % i, ("DRIFT 10 20", "QUAD 1 -2 20", "NCELLS 0 5 0.5 1e6 -30 20 0", "FREQ 352.2",
                                        "NCELLS 0 1 .9 1e5 10 20 0"), dev=False) for i in range(3)]
        first = [c.split()[0] for c in cards]
        if "NCELLS" not in first or "FREQ" in first[:first.index("NCELLS")]:
            ch.nontrivial = False
            return
        with open("f.dat", "w") as f:
            f.write("\n".join(cards) + "\n")
        try:
            line = TraceWin("f.dat", "line")()
        except Exception:
            ch.observe(cards)
            return
        require(False, "cavity of unknown length", got=[(e.type, dict(e.parameters)) for e in line.sequence])

    def sections(ch):
        """Every sequence of cards up to a length: each cavity has the frequency that was set last before it."""
        from rsbeams.rslattice.trace3d_parser import TraceWin
        n = ch.pick("cards", tuple(range(1, 7 if deep else 6)), dev=False)
        freq, want, out = None, [], []
        for i in range(n):
            kind = ch.pick("card %d" % i, ["FREQ", "DTL_CEL", "DRIFT", "QUAD"] + ["NCELLS"] * (freq is not None), dev=False)
            if kind == "FREQ":
                freq = 1e6 * (100 + 50 * ((i * 3) % 5))
                out.append("FREQ %g" % (freq / 1e6))
            elif kind == "DTL_CEL":
                out.append("DTL_CEL %d 10 20 0 %d -1.5 %d -%d 10 0 0.1 0.8 -0.5 -0.2" % (100 + i, i + 1, 1000 + i, 30 + i))
                want += [("quadrupole", {"k1": i + 1., "l": 0.01}),
                         ("rfca", {"l": (70 + i) * 1e-3, "volt": 1000. + i, "phase": 60. - i,
                                   "frequency": 1.0 if freq is None else freq}),
                         ("quadrupole", {"k1": -1.5, "l": 0.02})]
            elif kind == "NCELLS":
                out.append("NCELLS 0 %d 0.5 1e6 -30 20 0" % (i + 1))
                L = 0.5 * CL / freq * (i + 1)
                want.append(("rfca", {"l": L, "volt": 1e6 * L, "phase": 60., "frequency": freq}))
            elif kind == "DRIFT":
                out.append("DRIFT %d 20" % (10 * i))
                want.append(("drift", {"L": 0.01 * i, "R": 20.}))
            else:
                out.append("QUAD %d %d 20" % (i + 1, -i))
                want.append(("quadrupole", {"L": 1e-3 * (i + 1), "K1": -float(i), "R": 20.}))
        text = "\n".join(out) + "\n"
        with open("f.dat", "w") as f:
            f.write(text)
        parser = TraceWin("f.dat", "line")
        first = parser()
        compare(first, want, text)
        second = parser()                       # called again: the same, and the first result stays as it was
        compare(second, want, text)
        compare(first, want, text)
        names = [[e.name for e in line.get_beamline_elements()] for line in (first, second)]
        require(names[0] == names[1], "names of the elements, called again", got=names[1], want=names[0])
        ch.observe(want)

    CODES = {"drift": (1, ("L",)), "quadrupole": (3, ("K1", "L", "DX", "DY", "OF")), "sbend": (8, ("ANGLE", "R", "INDEX", "VF")),
             "edge": (9, ("BETA", "R", "G", "K1", "K2")), "rfca": (10, ("VOLT", "PHASE", "EGF", "CHANGE_P0", "H"))}
    DEG = math.pi / 180
    FACTOR = {"L": 1e-3, "R": 1e-3, "G": 1e-3, "ANGLE": DEG, "BETA": DEG, "DX": 1e-3, "DY": 1e-3, "VOLT": 1e6}

    def repeated(ch, i, vals):
        """Fortran writes equal values that follow each other as 3*0.5."""
        if len(vals) < 2 or not ch.flag("equal values of %d" % i, dev=all(v != w for v, w in zip(vals, vals[1:]))):
            return vals
        k = ch.pick("first of them in %d" % i, range(len(vals) - 1), dev=False)
        n = 1
        while k + n < len(vals) and vals[k + n] == vals[k]:
            n += 1
        return vals[:k] + ["%d*%s" % (n, vals[k])] + vals[k + n:]

    def trace3d_file(ch, kinds, values):
        out = []
        head = ch.pick("head", (" &data\n er= 938.28, q= 1., w= 2.5,\n n1= 1, n2= 5,\n", "", "; title\n &data\n"))
        eq = ch.pick("equals", ("=", "= ", " = "))
        for i, (kind, vals) in enumerate(zip(kinds, values)):
            code, _names = CODES[kind]
            idx = ch.pick("index %d" % i, ("%03d", "%d", " %d", "%2d ")) % (i + 1)
            quote = ch.pick("quotes %d" % i, ("'", '"'))
            s = "cmt(%s)%s%s  nt(%s)%s%d,  a(1,%s)%s%s" % (
                idx, eq, quote + ch.pick("label %d" % i, ("", "q1", "dr 7", "b-3.5", "beta(x)", "a(1,1)=7, 3", "nt=5 front", "L = 2*3", "nt(2)=9, x= 1")) + quote, idx, eq, code, idx, eq,
                ch.pick("comma %d" % i, (", ", ",", " , ")).join(repeated(ch, i, [v[0] for v in vals])))
            out.append(" " + s + ch.pick("end %d" % i, ("", ",", " ; 1, 2, 3", ", ")))
            out += ch.pick("between %d" % i, ([], ["; cmt(9)= nt(9)=1, a(1,9)= 3"], [""]))
        text = head + "\n".join(out) + ch.pick("tail", ("\n &end\n", "\n", "", "\n; end"))
        if ch.flag("upper case"):
            text = text.upper()
        with open("f.t3d", "w") as f:
            f.write(text)
        return text

    def expected(kind, vals):
        p = {k: v[1] * FACTOR.get(k, 1) for k, v in zip(CODES[kind][1], vals)}
        if kind == "sbend":
            p["l"] = abs(p["R"] * p["ANGLE"])
        return kind, p

    def trace3d(ch):
        from rsbeams.rslattice.trace3d_parser import Trace3d
        n = ch.pick("elements", (1, 2, 3), dev=False)
        kinds = [ch.pick("kind %d" % i, tuple(CODES), dev=i > 1) for i in range(n)]
        values = [[ch.pick("%s of %d" % (nm, i), NUMS[at:] + NUMS[:at] + FORTRAN) for j, nm in enumerate(CODES[k][1])
                   for at in [(i * 3 + j * 2) % 10]] for i, k in enumerate(kinds)]
        if ch.flag("same values"):
            values = [[v[0]] * len(v) if i % 2 else [v[0]] + [v[-1]] * (len(v) - 1) for i, v in enumerate(values)]
        text = trace3d_file(ch, kinds, values)
        parser = Trace3d("f.t3d", "line")
        line = parser()
        compare(line, [expected(k, v) for k, v in zip(kinds, values)], text)
        require([int(e.name) for e in line.get_beamline_elements()] == list(range(1, n + 1))
                and not any(" " in e.name for e in line.get_beamline_elements()), "names", file=text)
        if ch.flag("called again"):
            compare(parser(), [expected(k, v) for k, v in zip(kinds, values)], text)
            compare(line, [expected(k, v) for k, v in zip(kinds, values)], text)
        ch.observe(kinds, values)

    def standardize(ch):
        """Pole faces merged into the bends, cavities given the length of the drifts next to them."""
        from rsbeams.rslattice.trace3d_parser import Trace3d
        n = ch.pick("cells", (1, 2, 3), dev=False)
        kinds = []
        for i in range(n):
            kinds += ch.pick("cell %d" % i, (("edge", "sbend", "edge"), ("drift", "rfca", "drift"), ("drift",), ("quadrupole",)),
                             dev=False)
        values = [[num(ch, "%s of %d" % (nm, i), (i * 3 + j * 2) % 10) for j, nm in enumerate(CODES[k][1])]
                  for i, k in enumerate(kinds)]
        want = [expected(k, v) for k, v in zip(kinds, values)]
        text = "\n".join("cmt(%d)='' nt(%d)=%d, a(1,%d)= %s" % (i, i, CODES[k][0], i, ", ".join(x[0] for x in v))
                         for i, (k, v) in enumerate(zip(kinds, values)))
        with open("f.t3d", "w") as f:
            f.write(text + "\n")
        parser = Trace3d("f.t3d", "line")
        line = parser()
        if ch.flag("called again", dev=False):
            line = parser()
        what = ch.pick("handle", ("bends", "cavities", "bends, cavities", "cavities, bends"), dev=False)
        for w in what.split(", "):
            if w == "bends":
                parser.handle_bends()
                out = []
                for i, (k, p) in enumerate(want):
                    if k == "sbend":
                        a, b = want[i - 1][1], want[i + 1][1]
                        p.update(E1=a["BETA"], E2=b["BETA"], HGAP=a["G"] / 2, FINT=a["K1"])
                want = [w_ for w_ in want if w_[0] != "edge"]
            else:
                parser.handle_cavities()
                for i, (k, p) in enumerate(want):
                    if k == "rfca":
                        p["PHASE"] = 90.0 - p["PHASE"]
                        p["L"] = want[i - 1][1]["L"] + want[i + 1][1]["L"]
                        want[i - 1][1]["L"] = want[i + 1][1]["L"] = 0.0
        compare(line, want, text)
        ch.observe(want)

    def numbers(ch):
        """Every spelling of a number of up to five (thorough: seven) signs, in every position of every element."""
        from rsbeams.rslattice.trace3d_parser import Trace3d, TraceWin
        code = ch.pick("format", ("TraceWin", "Trace3D"), dev=False)
        kinds = {"TraceWin": {"drift": ("L", "R"), "quadrupole": ("L", "K1", "R")}, "Trace3D": {k: v[1] for k, v in CODES.items()}}[code]
        kind = ch.pick("kind", tuple(kinds), dev=False)
        at = ch.pick("position", tuple(range(len(kinds[kind]))), dev=False)
        signs = "10.e+-" + "d" * (code == "Trace3D")
        head = "".join(ch.pick("sign %d" % i, tuple(signs.replace("e", "").replace("d", "")), dev=False) for i in range(1))
        valid = re.compile(r"[-+]?(\d+\.?\d*|\.\d+)([ed][-+]?\d+)?")
        texts = [t for n in range(5 if not deep else 7) for r in itertools.product(signs, repeat=n) for t in [head + "".join(r)] if valid.fullmatch(t)]
        texts = [t for t in texts if len(re.split("[ed]", t + "e")[1].strip("+-")) < 3]       # Fortran has exponents of three digits at most
        case = ch.pick("case", ("lower", "upper"), dev=False)
        want, out = [], []
        for i, t in enumerate(texts):
            vals = [("%d.5" % j, j + .5) for j in range(len(kinds[kind]))]
            vals[at] = (t.upper() if case == "upper" else t, float(t.replace("d", "e")))
            if code == "TraceWin":
                out.append({"drift": "DRIFT ", "quadrupole": "QUAD "}[kind] + " ".join(v[0] for v in vals))
                p = {k: v[1] for k, v in zip(kinds[kind], vals)}
                p["L"] *= 1e-3
                want.append((kind, p))
            else:
                out.append(" cmt(%d)='e' nt(%d)= %d, a(1,%d)= %s" % (i, i, CODES[kind][0], i, ", ".join(v[0] for v in vals)))
                want.append(expected(kind, vals))
        for start in range(0, len(texts), 400):
            with open("f.dat", "w") as f:
                f.write("\n".join(out[start:start + 400]) + "\n")
            compare((TraceWin if code == "TraceWin" else Trace3d)("f.dat", "line")(), want[start:start + 400], texts[start:start + 400])
        ch.observe(texts, kind, at, case)

    def long(ch):
        """Long files of both formats."""
        from rsbeams.rslattice.trace3d_parser import Trace3d, TraceWin
        n = ch.pick("elements", (9, 10, 11, 12, 99, 100, 101, 250) + ((1001,) if deep else ()), dev=False)
        code = ch.pick("format", ("TraceWin", "Trace3D %03d", "Trace3D %d"), dev=False)
        pattern = ch.pick("pattern", (("drift", "quadrupole"), ("quadrupole",), ("edge", "sbend", "edge", "drift"), ("drift", "rfca", "drift", "quadrupole")),
                          dev=False)
        want, out, freq = [], [], None
        for i in range(n):
            kind = pattern[i % len(pattern)]
            if code == "TraceWin":
                if kind == "edge" or i % 17 == 0:
                    freq = 1e6 * (100 + i)
                    out.append("FREQ %d" % (100 + i))
                elif kind == "drift":
                    out.append("DRIFT %d.5 20" % i)
                    want.append(("drift", {"L": (i + .5) * 1e-3, "R": 20.}))
                elif kind == "quadrupole":
                    out.append("QUAD %d -%d 20" % (i + 1, i))
                    want.append(("quadrupole", {"L": (i + 1) * 1e-3, "K1": -float(i), "R": 20.}))
                else:
                    L = 0.5 * CL / freq * (i + 1)
                    out.append("NCELLS 0 %d 0.5 1e6 -30 20 0" % (i + 1))
                    want.append(("rfca", {"l": L, "volt": 1e6 * L, "phase": 60., "frequency": freq}))
            else:
                names = CODES[kind][1]
                vals = [("%d.25" % (i + j), i + j + .25) for j in range(len(names))]
                idx = code.split()[1] % (i + 1)
                out.append(" cmt(%s)='e%d'  nt(%s)= %d,  a(1,%s)= %s" % (idx, i, idx, CODES[kind][0], idx, ", ".join(v[0] for v in vals)))
                want.append(expected(kind, vals))
        text = "\n".join(out) + "\n"
        with open("f.dat", "w") as f:
            f.write(text)
        compare((TraceWin if code == "TraceWin" else Trace3d)("f.dat", "line")(), want, text)
        ch.observe(n, code, pattern)

    return [Harness("long", long, timeout=60), Harness("numbers", numbers, timeout=120), Harness("tracewin", tracewin, bound=2 if deep else 1), Harness("sections", sections, bound=0), Harness("no_frequency", no_frequency),
            Harness("trace3d", trace3d, bound=2 if deep else 1),
            Harness("standardize", standardize, bound=1 if deep else 0)]
