"""C16: Warp export.  The written file is executed against a recording stand-in for warp; sirepo's importer and field map
(not installed here) are stand-ins, too."""
import ast
import keyword
import math
import sys
import types

from mc.core import Harness, require

C, E = 299792458.0, 1.602176634e-19
ME = 0.51099895e6   # eV, enough digits for the tolerance used
TOL = 1e-6


class PK(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def field_map(fm):
    res = PK()
    for sim in fm:
        res[sim] = PK(from_madx=PK(), to_madx=PK())
        for el in fm[sim]:
            res[sim]["from_madx"].setdefault(el[0], el[1])
            for fields in el[1:]:
                res[sim]["to_madx"][fields[0]] = [el[0]] + fields[1:]
    return res


class Part:
    def __init__(self, kind, kw):
        self.kind, self.kw = kind, kw

    def __add__(self, other):
        return Row([self]) + other


class Row:
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, other):
        return Row(self.parts + (other.parts if isinstance(other, Row) else [other]))


MODEL = [None]


def stand_ins(model):
    """modules sirepo and warp"""
    MODEL[0] = model
    if "sirepo" in sys.modules:
        return
    s, lib, tem, mad = (types.ModuleType(n) for n in ("sirepo", "sirepo.lib", "sirepo.template",
                                                     "sirepo.template.madx_converter"))

    class Importer:
        def __init__(self, kind):
            require(kind == "elegant", "importer for elegant", got=kind)

        def parse_file(self, path):
            require(path == "in.ele", "input file", got=path)
            return PK(MODEL[0], models=PK(MODEL[0]["models"]))
    lib.Importer = Importer
    mad._build_field_map = field_map
    s.lib, s.template, tem.madx_converter = lib, tem, mad
    wp = types.ModuleType("warp")
    for k in ("Drft", "Bend", "Quad", "Sext"):
        setattr(wp, k, lambda _k=k, **kw: Part(_k, kw))
    sys.modules.update({"sirepo": s, "sirepo.lib": lib, "sirepo.template": tem, "sirepo.template.madx_converter": mad,
                        "warp": wp})


KIND = {}
for _t in ("DRIF", "CSRDRIFT", "EDRIFT", "LSCDRIFT"):
    KIND[_t] = "Drft"
for _t in ("CSBEND", "SBEN", "CSRCSBEND", "KSBEND", "NIBEND", "RBEN", "TUBEND"):
    KIND[_t] = "Bend"
for _t in ("QUAD", "KQUAD"):
    KIND[_t] = "Quad"
for _t in ("SEXT", "KSEXT"):
    KIND[_t] = "Sext"


# names of the first and of the second element
NAMES = (("E1", "E2"), ("A_LONG_NAME_OF_1", "A_LONG_NAME_OF_2"), ("Q", "Q1"), ("Q-1", "Q.1"), ("1Q", "_1Q"), ("B:1", "B-1"), ("D 1", "D__1"),
         ("Q_", "Q-"), ("CELL", "CELL_"), ("WP", "NONE"), ("Q-1", "Q_1_"), ("É1", "E#1"))


def element(i, typ, num, names=None):
    d = {"_id": i, "name": names[i - 1] if names else "E%d" % i, "type": typ}
    k = KIND.get(typ)
    v = {"l": (-0.25 if k is None and i == 1 else 0.25) * i, "k1": (-1) ** i * 1.5, "k2": (-1) ** i * 20.0, "angle": (-1) ** i * 0.125}
    use = {"Drft": ("l",), "Bend": ("l", "angle"), "Quad": ("l", "k1"), "Sext": ("l", "k2")}.get(k, ("l",) if i % 2 else ())
    for u in use:
        d[u] = repr(v[u]) if num == "strings" else v[u]
    d["group"] = ""
    return d


def wanted(d, brho):
    k = KIND.get(d["type"], "Drft")
    w = {"l": float(d.get("l", 0.0))}
    if k == "Bend":
        w["rc"] = w["l"] / float(d["angle"])
    if k == "Quad":
        w["db"] = -float(d["k1"]) * brho
    if k == "Sext":
        w["db"] = -float(d["k2"]) * brho
    return k, w


def run(text, name):
    space = {}
    try:
        exec(compile(text, "out.py", "exec"), space)
    except SyntaxError as e:
        require(False, "the file is a Python file", raised=e, text=text)
    if not name.isidentifier():
        name = ast.parse(text).body[-1].targets[0].id
    require(name in space, "line defined in the file", got=[k for k in space if k[0] != "_"], text=text)
    v = space[name]
    return v.parts if isinstance(v, Row) else [v]


def compare(parts, ids, elements, brho, text):
    require(len(parts) == len(ids), "number of elements", got=len(parts), want=len(ids), text=text)
    by = {d["_id"]: d for d in elements}
    for p, i in zip(parts, ids):
        k, w = wanted(by[i], brho)
        require(p.kind == k, "type of element %d (%s)" % (i, by[i]["type"]), got=p.kind, want=k, text=text)
        require(set(p.kw) == set(w), "arguments of %s" % by[i]["type"], got=p.kw, want=w)
        for a, x in w.items():
            require(abs(float(p.kw[a]) - x) <= TOL * max(1e-3, abs(x)), "%s of %s" % (a, by[i]["type"]), got=p.kw[a], want=x)


TYPES = tuple(KIND) + ("MARK", "RFCA", "WATCH")


def harnesses(tier):
    deep = tier == "thorough"

    def export(ch):
        types_ = [ch.pick("type %d" % i, TYPES, dev=False) for i in range(2)]
        num = ch.pick("numbers", ("strings", "floats"), dev=True)
        names = ch.pick("names", NAMES)
        els = [element(i + 1, t, num, names) for i, t in enumerate(types_)]
        pattern = ch.pick("line", ([1, 2], [1, 2, 1], [2], [100, 1], [100, 100], [1, -100], [-101]), dev=deep is False)
        lines = {100: [1, 2], 101: [1, 100, 2]}
        p = ch.pick("momentum MeV", (50.0, 0.3, 1e4, 1.0, 5e-3))
        other = ch.pick("commands", ("run_setup", "others first", "missing"))
        cmds = [{"_type": "run_setup", "p_central_mev": ch.pick("momentum is", (repr(p), p))}]
        if other == "others first":
            cmds = [{"_type": "global_settings"}, {"_type": "run_control"}] + cmds + [{"_type": "track"}]
        elif other == "missing":
            cmds = [{"_type": "track"}]
        spell = ch.pick("beamline name", ("CELL", "cell", "Cell", "CELL-1", "2ND.CELL"))
        if spell.upper() in names:
            return
        model = PK(models=dict(
            beamlines=[{"id": 100, "name": "SUB", "items": lines[100]}, {"id": 101, "name": "NEST", "items": lines[101]},
                       {"id": 9, "name": spell.upper(), "items": pattern}, {"id": 8, "name": "CELL2", "items": [1]}],
            elements=els, rpnCache={}, commands=cmds))
        stand_ins(model)
        from rsbeams.pkcli import lattice
        if other == "missing":
            try:
                lattice.elegant_to_warp("in.ele", "out.py", spell)
            except ValueError:
                return
            require(False, "a file without run_setup is accepted")
        lattice.elegant_to_warp("in.ele", "out.py", spell)
        text = open("out.py").read()
        ids = []
        for i in pattern:
            ids += {100: [1, 2], -100: [2, 1], -101: [2, 2, 1, 1]}.get(i, [i])
        brho = p * 1e6 / C
        compare(run(text, spell.upper()), ids, els, brho, text)
        ch.observe(text)

    def writer(ch):
        """One writer, several files; elements added in between; a beamline built by hand."""
        stand_ins(PK(models={}))
        from rsbeams.rslattice.Beamline import StructuredBeamline
        from rsbeams.rslattice.formatted_writer import WarpWriter
        b = StructuredBeamline("Line")
        w = WarpWriter(b, "elegant")
        ids, els = [], []
        for step in range(4 if deep else 3):
            op = ch.pick("op%d" % step, ("add", "repeat", "write", "edit"), dev=False)
            if op == "add" or not ids:
                i = len(els) + 1
                t = ch.pick("type%d" % step, ("DRIF", "QUAD", "SBEN", "MARK", "KSEXT"))
                d = element(i, t, "floats")
                k, v = wanted(d, 1.0)
                b.add_element(d["name"], t.lower() if ch.flag("lower case%d" % step) else t,
                              v if t != "MARK" else {x: y for x, y in d.items() if x == "l"})
                els.append(d)
                ids.append(i)
            elif op == "repeat":
                i = ch.pick("which%d" % step, ids)
                b.add_element("E%d" % i, "x", {})
                ids.append(i)
            elif op == "edit":
                d = [d for d in els if d["_id"] == ids[-1]][0]
                if "l" in d and KIND.get(d["type"]) != "Bend":
                    d["l"] = 7.5
                    b.edit_element(d["name"], "l", 7.5, warnings=False)
            if ids:
                ret = w.write_file("w.py")
                text = open("w.py").read()
                require(ret == text, "write_file returns the contents")
                compare(run(text, "Line"), ids, els, 1.0, text)
        ch.observe(ids, [sorted(d.items(), key=str) for d in els])

    def namesakes(ch):
        """Different elements whose names are equal or nearly equal, in one line and in several lines."""
        stand_ins(PK(models={}))
        from rsbeams.rslattice.Beamline import StructuredBeamline
        from rsbeams.rslattice.formatted_writer import WarpWriter
        b = StructuredBeamline("Line")
        ids, els, by_object = [], [], {}
        more = ch.flag("more parameters")
        for i in range(1, 4):
            line, dev = b, i == 3 and not deep
            if ch.pick("line of %d" % i, ("top", "own"), dev=dev) == "own":
                b.add_beamline("s%d" % i)
                line = b.lines["s%d" % i]
            name = ch.pick("name %d" % i, ("q", "Q", "q.1", "q-1", "Q_1"), dev=dev)
            d = element(i, ch.pick("type %d" % i, ("DRIF", "QUAD", "MARK", "SBEN")[:3 if i > 1 else 4], dev=dev), "floats")
            like = ch.pick("parameters %d" % i, ("own", "of the one before", "last one differs", "one more"), dev=dev) if i > 1 else "own"
            if like != "own":
                d = dict(els[-1])
                p = [k for k in ("angle", "k1", "l") if k in d][:1]
                if like == "last one differs" and p:
                    d[p[0]] *= 1.0625
                elif like == "one more":
                    d["l"] = d.get("l", 0.0) + 1.0
            _k, v = wanted(d, 1.0)
            if more:
                v.update({"a%d" % j: j for j in range(12)})
            if name in line.elements:
                d = by_object[id(line.elements[name])]
                line.add_element(name, "x", {})
            else:
                line.add_element(name, d["type"], v)
                by_object[id(line.elements[name])] = d
            els.append(dict(d, _id=i))
            ids.append(i)
        text = WarpWriter(b, "elegant").write_file("w.py")
        compare(run(text, "Line"), ids, els, 1.0, text)
        ch.observe(text)

    def texts(ch):
        """Every name of one or two printable characters, next to the names it could be confused with; Python's own words."""
        stand_ins(PK(models={}))
        from rsbeams.rslattice.Beamline import StructuredBeamline
        from rsbeams.rslattice.formatted_writer import WarpWriter
        first = ch.pick("first", tuple(chr(i) for i in range(33, 127)) + ("\u00e9", "\u00df", "\u0416", "words"), dev=False)
        names = list(dict.fromkeys(keyword.kwlist + keyword.softkwlist + ["wp", "warp", "__name__", "_", "print"]))
        if first != "words":
            names = [first] + [first + chr(i) for i in range(33, 127)]
        role = ch.pick("name of", ("elements", "line"), dev=False)
        if role == "elements":
            b = StructuredBeamline("Line")
            els = []
            for i, n in enumerate(names):
                d = element(i + 1, ("QUAD", "DRIF", "SEXT")[i % 3], "floats")
                d["name"] = n
                b.add_element(n, d["type"], wanted(d, 1.0)[1])
                els.append(d)
            ids = [d["_id"] for d in els]
            for n in names[:3]:     # used again
                b.add_element(n, "x", {})
            ids += ids[:3]
            text = WarpWriter(b, "elegant").write_file("w.py")
            compare(run(text, "Line"), ids, els, 1.0, text)
            ch.observe(text)
            return
        for n in names:
            b = StructuredBeamline(n)
            els = [dict(element(1, "QUAD", "floats"), name=n), dict(element(2, "DRIF", "floats"), name="other")]
            for d in els:
                b.add_element(d["name"], d["type"], wanted(d, 1.0)[1])
            text = WarpWriter(b, "elegant").write_file("w.py")
            compare(run(text, n if not keyword.iskeyword(n) else "1"), [1, 2], els, 1.0, text)
        ch.observe(first)

    def long(ch):
        """Long beamlines: many elements, many occurrences, many lines."""
        n = ch.pick("elements", (7, 12, 40, 130) + ((600,) if deep else ()), dev=False)
        mix = ch.pick("types", (TYPES, ("QUAD", "DRIF"), ("DRIF",), ("MARK", "CSBEND", "KQUAD", "KSEXT", "LSCDRIFT")), dev=False)
        style = ch.pick("names", ("E%d", "%d", "Q-%d", "A_RATHER_LONG_NAME_OF_AN_ELEMENT_OF_THIS_BEAMLINE_%d"), dev=False)
        names = [style % i for i in range(1, n + 1)]
        els = [element(i, mix[i % len(mix)], "floats", names) for i in range(1, n + 1)]
        order = ch.pick("order", ("once", "twice", "backwards", "lines of five", "nested"), dev=False)
        ids = list(range(1, n + 1))
        beamlines = [{"id": 0, "name": "CELL", "items": ids}]
        if order == "twice":
            ids = beamlines[0]["items"] = ids * 2
        elif order == "backwards":
            ids = beamlines[0]["items"] = ids[::-1]
        elif order == "lines of five":
            parts = [ids[k:k + 5] for k in range(0, n, 5)]
            beamlines = [{"id": 1000 + k, "name": "S%d" % k, "items": p} for k, p in enumerate(parts)] + [
                {"id": 9000, "name": "CELL", "items": [(1000 + k) * (-1) ** k for k in range(len(parts))]}]
            ids = [i for k, p in enumerate(parts) for i in p[::(-1) ** k]]
        elif order == "nested":
            parts = [ids[k:k + 5] for k in range(0, n, 5)]
            beamlines = []
            for k, p in enumerate(parts[:12]):
                beamlines.append({"id": 1000 + k, "name": "S%d" % k, "items": p + [999 + k] * (k > 0)})
            beamlines.append({"id": 9000, "name": "CELL", "items": [999 + len(parts[:12])]})
            ids = [i for p in parts[:12][::-1] for i in p]
        model = PK(models=dict(beamlines=beamlines, elements=els, rpnCache={}, commands=[{"_type": "run_setup", "p_central_mev": 50.0}]))
        stand_ins(model)
        from rsbeams.pkcli import lattice
        lattice.elegant_to_warp("in.ele", "out.py", "CELL")
        text = open("out.py").read()
        compare(run(text, "CELL"), ids, els, 50e6 / C, text)
        ch.observe(text)

    def gradient(ch):
        stand_ins(PK(models={}))
        from rsbeams.pkcli import lattice
        _get_gradient = getattr(lattice, "_get_gradient", None)
        if _get_gradient is None:
            return          # an internal helper: the exports above decide its values for electrons
        k = ch.pick("k", (1.0, -2.5, 0.0, 30.0), dev=False)
        mass = ch.pick("mass", (ME, 938.27208816e6), dev=False)
        gamma = ch.pick("gamma", (1.0 + 1e-6, 1.5, 20.0, 1e5), dev=False)
        n = ch.pick("n", (None, 1, 2, 3), dev=False)
        got = _get_gradient(k, gamma * mass, mass, **({} if n is None else {"n": n}))
        want = k * math.sqrt(gamma ** 2 - 1) * mass / C
        require(abs(got - want) <= 1e-8 * max(1e-9, abs(want)), "gradient", got=got, want=want)
        ch.observe(got)

    return [Harness("texts", texts), Harness("long", long), Harness("export", export, bound=3 if deep else 1), Harness("writer", writer, bound=None if deep else 2),
            Harness("namesakes", namesakes, bound=None if deep else 2), Harness("gradient", gradient)]
