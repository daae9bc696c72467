"""C10: StructuredBeamline / Element under every short sequence of constructions and edits."""
from mc.core import Harness, require

PARAMS = ({"L": 0.5}, {}, {"l": 2, "K1": 1.5}, {"L": -0.75, "k1": -3.0, "FRINGE": "yes"})


TYPES = ("drift", "drif", "edrift", "csrdrift", "lscdrift", "quadrupole", "quad", "kquad", "sben", "sbend", "csbend", "csrcsbend", "rben", "rbend",
         "sext", "sextupole", "ksext", "octu", "sole", "solenoid", "mark", "marker", "watch", "moni", "monitor", "hmon", "hkick", "vkick", "kicker",
         "rfca", "rfcw", "rfdf", "twla", "edge", "ecol", "rcol", "scraper", "maxamp", "malign", "matr", "charge", "wake", "center", "pfilter",
         "dtl_cell", "field_map", "freq", "nllens", "multipole", "patch", "dipole", "bend", "line", "beamline", "", "0")


class MElement:
    def __init__(self, name, type_, params):
        self.name, self.type, self.params = name, type_.lower().strip(), {k.lower(): v for k, v in params.items()}


class MLine:
    def __init__(self, name):
        self.name, self.items, self.elements, self.lines = name, [], {}, {}

    def flat(self):
        for i in self.items:
            if isinstance(i, MLine):
                yield from i.flat()
            else:
                yield i

    def length(self):
        return sum(e.params.get("l", 0) for e in self.flat())

    def edge(self, element):
        s = 0
        for e in self.flat():
            if e is element:
                return s
            s += e.params.get("l", 0)


def same(a, b):
    return abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))


def check_line(real, model, top_real, top_model):
    """The whole observable state of one line."""
    flat, mflat = list(real.get_beamline_elements()), list(model.flat())
    require([(e.name, e.type) for e in flat] == [(e.name, e.type) for e in mflat], "elements in order",
            got=[(e.name, e.type) for e in flat], want=[(e.name, e.type) for e in mflat])
    require(real.name == model.name, "line name")
    require(same(real.length, model.length()), "length of %s" % real.name, got=real.length, want=model.length())
    require(same(real.length, model.length()), "length read again", got=real.length, want=model.length())
    for e, m in zip(flat, mflat):
        require(dict(e.parameters) == m.params, "parameters of %s" % e.name, got=dict(e.parameters), want=m.params)
        for k, v in m.params.items():
            require(e.parameters[k.upper()] == v and e.parameters[k] == v and e.parameters[k.capitalize()] == v
                    and k.upper() in e.parameters and e.parameters.get(k.upper()) == v, "parameter %s, any case" % k)
        require("nothing" not in e.parameters and e.parameters.get("nothing", 7) == 7, "absent parameter")
        require(e.beamline is top_real, "element's beamline is the top-level line", got=e.beamline)
        require(same(e.edge, top_model.edge(m)), "edge of %s" % e.name, got=e.edge, want=top_model.edge(m))
    # repeats are references to one element, different definitions are not
    for i in range(len(flat)):
        for j in range(i):
            require((flat[i] is flat[j]) == (mflat[i] is mflat[j]), "identity of elements %d and %d" % (i, j))
    require(len(real.sequence) == len(model.items), "entries of the line", got=len(real.sequence))
    for r, m in zip(real.sequence, model.items):
        if isinstance(m, MLine):
            check_line(r, m, top_real, top_model)
    for n in model.elements:
        require(n in real.elements, "element registry", got=sorted(real.elements), want=sorted(model.elements))


def pick_line(ch, label, real, model):
    """One of the lines of the tree."""
    out, seen = [], []

    def walk(r, m):
        if any(m is s for s in seen):
            return
        seen.append(m)
        out.append((r, m))
        for rr, mm in zip(r.sequence, m.items):
            if isinstance(mm, MLine):
                walk(rr, mm)
    walk(real, model)
    i = ch.pick(label, range(len(out)))
    return out[i]


def grow(ch, size, names=None):
    """Every tree of lines with 'size' tokens: e an element, ( a new line, ) back to the line around it."""
    from rsbeams.rslattice.Beamline import StructuredBeamline
    top, mtop = StructuredBeamline("top"), MLine("top")
    path, shape = [(top, mtop)], ""
    while len(shape) < size:
        left = size - len(shape)
        real, model = path[-1]
        opts = ["e"] * (left > len(path) - 1) + ["("] * (left > len(path)) + [")"] * (len(path) > 1)
        t = ch.pick("token %d" % len(shape), opts, dev=False)
        if t == "e":
            i = shape.count("e")
            name = "e%d" % i if names is None else names[i % len(names)]
            p = {"L": 0.5 + i, "N": i}
            real.add_element(name, "drift", dict(p))
            if name not in model.elements:
                model.elements[name] = MElement(name, "drift", p)
            model.items.append(model.elements[name])
        elif t == "(":
            name = "s%d" % shape.count("(")
            real.add_beamline(name)
            model.lines[name] = MLine(name)
            model.items.append(model.lines[name])
            path.append((real.sequence[-1], model.lines[name]))
        else:
            path.pop()
        shape += t
    return top, mtop, shape


def build(ch, steps, edits=True, names=("q", "d")):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    top, mtop = StructuredBeamline("top"), MLine("top")
    for step in range(steps):
        real, model = pick_line(ch, "line%d" % step, top, mtop)
        ops = ["add", "beamline"]
        if model.items and isinstance(model.items[-1], MLine):
            ops.append("add to subline")
        direct = [i for i, e in enumerate(model.items) if isinstance(e, MElement)]
        if edits:
            ops += ["edit by name"] * bool(direct or model.elements) + ["edit by index"] * bool(direct)
        op = ch.pick("op%d" % step, ops, dev=False)
        if op in ("add", "add to subline"):
            name = ch.pick("name%d" % step, names, dev=False)
            known = name in model.elements
            p = ch.pick("parameters%d" % step, PARAMS[:4 if not known else 2])
            typ = ch.pick("type%d" % step, ("quadrupole", " Drift"))
            given = dict(p)
            if op == "add":
                real.add_element(name, typ, given)
                where = model
            else:
                real.add_element(name, typ, given, subline=True)
                where = model.items[-1]
            if not known:
                model.elements[name] = MElement(name, typ, p)
            where.items.append(model.elements[name])
            require(given == p, "add_element leaves the caller's dictionary alone", got=given)
        elif op == "beamline":
            name = ch.pick("line name%d" % step, ("s", "t", "q"))
            real.add_beamline(name)
            model.lines.setdefault(name, MLine(name))
            model.items.append(model.lines[name])
            require(real.lines[name] is real.sequence[-1], "add_beamline registers the line")
        else:
            if op == "edit by name":
                # those inserted in a subline belong to the line as well
                name = ch.pick("edited%d" % step, sorted(set(model.items[i].name for i in direct) | set(model.elements)))
            else:
                i = ch.pick("index%d" % step, direct)
            par, val, want = ch.pick("edit%d" % step, (
                ("L", 3.25, {"l": 3.25}), ("l", 0, {"l": 0}), (["k1", "L"], [9.0, 0.125], {"k1": 9.0, "l": 0.125}),
                ("New", "text", {"new": "text"}), (["TILT"], [-1], {"tilt": -1}), ("L", -1.5, {"l": -1.5})))
            if op == "edit by name":
                real.edit_element(name, par, val)
                hit = [e for e in model.items + list(model.elements.values()) if isinstance(e, MElement) and e.name == name]
            else:
                neg = ch.flag("negative index%d" % step)
                real.edit_element(i - len(model.items) if neg else i, par, val, warnings=ch.flag("warnings%d" % step))
                hit = [model.items[i]]
            for e in hit:
                e.params.update(want)
        check_line(top, mtop, top, mtop)
    return top, mtop


def harnesses(tier):
    deep = tier == "thorough"

    def operations(ch):
        top, m = build(ch, 5 if deep else 4)
        ch.observe([(e.name, sorted(e.parameters.items()), e.edge) for e in top.get_beamline_elements()], top.length)

    def fixed(ch):
        """What must not be assigned raises and changes nothing."""
        top, m = build(ch, 3, edits=False)
        els = list(top.get_beamline_elements())
        before = (top.length, [(e.edge, dict(e.parameters)) for e in els])
        what = ch.pick("assign", ("length", "edge", "beamline", "edit type"), dev=False)
        try:
            if what == "length":
                top.length = 5.0
            elif what == "edit type":
                top.edit_element(1.5, "L", 2)
            elif not els:
                return
            elif what == "edge":
                els[-1].edge = 1.0
            else:
                els[-1].beamline = None
        except (AttributeError, AssertionError, TypeError):
            pass
        else:
            require(False, "%s can be assigned" % what)
        require((top.length, [(e.edge, dict(e.parameters)) for e in els]) == before, "failed assignment changed the line")
        ch.observe(what, before)

    OPS = ("set", "update with a dictionary", "update with keywords", "update with pairs", "update with |=", "setdefault", "pop", "pop default", "del", "copy", "edit")

    def parameters(ch):
        """The parameters of an element ignore case in every operation, and length and edges follow them."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top = StructuredBeamline("top")
        top.add_element("a", "drift", {"L": 1.5, "Angle": 0.25})
        top.add_element("b", "drift", {"l": 4.0})
        el, other = list(top.get_beamline_elements())
        p, model = el.parameters, {"l": 1.5, "angle": 0.25}
        for i in range(4 if deep else 3):
            op = ch.pick("op %d" % i, OPS, dev=False)
            key = ch.pick("key %d" % i, ("L", "l", "ANGLE", "new", "New"), dev=False)
            v, k = 0.125 * (i + 1), key.lower()
            if op == "set":
                p[key] = v
                model[k] = v
            elif op == "update with a dictionary":
                if i % 2:
                    p.update({key: v}, TILT=-v)
                else:
                    p.update({key: v, "TILT": -v})
                model.update({k: v, "tilt": -v})
            elif op == "update with keywords":
                p.update(**{key: v})
                model[k] = v
            elif op == "update with pairs":
                p.update([(key, v)])
                model[k] = v
            elif op == "update with |=":
                el.parameters |= {key: v, "TILT": -v} if i % 2 else [(key, v), ("TILT", -v)]
                model.update({k: v, "tilt": -v})
                require(el.parameters is p, "the parameters after |= are another object")
            elif op == "setdefault":
                require(p.setdefault(key, v) == model.setdefault(k, v), "setdefault(%s)" % key, want=model[k])
            elif op == "pop default":
                require(p.pop(key, -1) == model.pop(k, -1), "pop(%s, -1)" % key)
            elif op in ("pop", "del"):
                want = model.pop(k, None)
                try:
                    if op == "pop":
                        require(p.pop(key) == want, "pop(%s)" % key)
                    else:
                        del p[key]
                except KeyError:
                    require(want is None, "%s %s not found" % (op, key))
                else:
                    require(want is not None, "%s of absent %s" % (op, key))
            elif op == "copy":
                require(dict(p.copy()) == model, "copy of the parameters", got=p.copy())
                p.copy()["l"] = 99.0
            else:
                top.edit_element("a", key, v, warnings=False)
                model[k] = v
            require(dict(p) == model and len(p) == len(model), "parameters after %s %s" % (op, key), got=dict(p), want=model)
            for k in model:
                require(p[k.upper()] == model[k] == p.get(k.title()) and k.upper() in p, "parameter %s in any case" % k)
            require(dict(other.parameters) == {"l": 4.0}, "other element's parameters", got=dict(other.parameters))
            require(same(top.length, model.get("l", 0) + 4.0), "length", got=top.length, want=model.get("l", 0) + 4.0)
            require(same(other.edge, model.get("l", 0)), "edge of the next element", got=other.edge, want=model.get("l", 0))
        ch.observe(sorted(model.items()), top.length)

    def two(ch):
        """Two beamlines with elements of the same names do not influence each other."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        lines = [(StructuredBeamline("top"), MLine("top")), (StructuredBeamline("second"), MLine("second"))]
        for step in range(5 if deep else 4):
            i = ch.pick("which %d" % step, (0, 1), dev=False)
            op = ch.pick("op %d" % step, ("q", "d", "line", "edit"), dev=False)
            real, model = lines[i]
            els = [e for e in model.items if isinstance(e, MElement)]
            if op == "line":
                real.add_beamline("s")
                model.items.append(model.lines.setdefault("s", MLine("s")))
            elif op == "edit":
                if els:
                    real.edit_element(els[0].name, "L", 10.0 + step)
                    els[0].params["l"] = 10.0 + step
            else:
                known = op in model.elements
                p = {"L": 0.5 + step, "K1": i}
                real.add_element(op, "quadrupole", p)
                if not known:
                    model.elements[op] = MElement(op, "quadrupole", p)
                model.items.append(model.elements[op])
            for r, m in lines:
                check_line(r, m, r, m)
        ch.observe([r.length for r, m in lines])

    def repeats(ch):
        """Lines that are used again before and after they are filled, at every depth."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top, mtop = StructuredBeamline("top"), MLine("top")
        for step in range(6 if deep else 5):
            real, model = pick_line(ch, "line%d" % step, top, mtop)
            op = ch.pick("op%d" % step, ("s", "t", "element"), dev=False)
            if op == "element":
                real.add_element("q", "drift", {"L": 1.0 + step})
                if "q" not in model.elements:
                    model.elements["q"] = MElement("q", "drift", {"L": 1.0 + step})
                model.items.append(model.elements["q"])
            else:
                real.add_beamline(op)
                model.items.append(model.lines.setdefault(op, MLine(op)))
        check_line(top, mtop, top, mtop)
        ch.observe([(e.name, e.edge) for e in top.get_beamline_elements()])

    def types(ch):
        """Elements of every type count the same way."""
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top, m = StructuredBeamline("top"), MLine("top")
        typ = ch.pick("type", TYPES, dev=False)
        how = ch.pick("how", ("direct", "subline", "nested"), dev=False)
        value = ch.pick("length", (0.75, 2, -0.5, 0, None), dev=False)
        real, model = top, m
        if how != "direct":
            top.add_beamline("s")
            real, model = top.sequence[-1], MLine("s")
            m.lines["s"] = model
            m.items.append(model)
        for name, t, p in (("first", "drift", {"L": 1.5}), ("x", typ, {} if value is None else {"L": value}), ("last", "drift", {"l": 0.25})):
            if how == "subline":
                top.add_element(name, t, dict(p), subline=True)
            else:
                real.add_element(name, t, dict(p))
            owner = m if how == "subline" else model
            owner.elements[name] = MElement(name, t, p)
            model.items.append(owner.elements[name])
        check_line(top, m, top, m)
        ch.observe(typ, how, top.length)

    def trees(ch):
        """Every shape of nested lines."""
        top, m, shape = grow(ch, ch.pick("tokens", (12, 5, 8) if deep else (10, 5, 8), dev=False), ch.pick("names", (None, ("a", "b")), dev=False))
        check_line(top, m, top, m)
        ch.observe(shape)

    return [Harness("operations", operations, bound=3 if deep else 2), Harness("fixed", fixed, bound=2),
            Harness("parameters", parameters, bound=0), Harness("two", two, bound=0),
            Harness("trees", trees), Harness("repeats", repeats), Harness("types", types)]
