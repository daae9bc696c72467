"""C15: parse_json on every small Sirepo model: nesting, repetition, reversal, RPN cache, dict and file input."""
import copy
import itertools
import json
import re

from mc.core import Harness, require

ELEMENTS = [{"_id": 1, "name": "Q1", "type": "QUAD", "l": "0.5", "k1": "kq", "group": ""},
            {"_id": 12, "name": "D1", "type": "DRIF", "l": "2 1 +"}, {"_id": 5, "name": "D2", "type": "DRIF", "l": "L1", "filename": "l1.dat", "group": "l 1"},
            {"_id": 3, "name": "M", "type": "MARK", "a": ".25", "b": "+2E3", "c": "7.", "d": "1_2", "e": "nan", "f": "inf", "g": " 4 ", "h": "-Infinity",
             "i": "1.2.3", "j": "e5", "k": "-", "m": ".", "n": "1e+5", "o": "1.5E-3", "p": "-2e05", "q": "+.5e+00", "r": "1e400x", "s": "123456789012345678901234567890",
             "u": "1e", "v": "1e+", "w": "0x10", "x": "1,5", "y": "--1", "z": "1 2"},
            {"_id": 40, "name": "B", "type": "CSBEND", "l": 1, "angle": "pi 4 /", "E1": "-5.0e-01", "k1": 0, "k2": "none", "tilt": "off", "hgap": "kq kq -", "fint": "minus"}]
CACHE = {"kq": 1.75, "2 1 +": 3, "pi 4 /": 0.7853981633974483, "unused": -1, "L1": 0.625, "l1": 8.5, "KQ": 99, "none": 0, "off": 0.0, "kq kq -": -0.0, "minus": -2.5e-7}
NUMBERS = {"1e+5": 1e5, "1.5E-3": 1.5e-3, "-2e05": -2e5, "+.5e+00": 0.5, "123456789012345678901234567890": 123456789012345678901234567890.0, "0.5": 0.5, "-5.0e-01": -0.5, ".25": 0.25, "+2E3": 2000.0, "7.": 7.0, " 4 ": 4.0}
BY = {e["_id"]: e for e in ELEMENTS}


def flat(items, lines):
    for i in items:
        if abs(i) in lines:
            sub = lines[abs(i)]["items"]
            yield from flat([-j if abs(j) in lines else j for j in sub[::-1]] if i < 0 else sub, lines)
        else:
            yield i


def depth_structure(line):
    from rsbeams.rslattice.Element import Element
    return [i.name if isinstance(i, Element) else depth_structure(i) for i in line.sequence]


def model_structure(items, lines):
    out = []
    for i in items:
        if abs(i) in lines:
            sub = lines[abs(i)]["items"]
            out.append(model_structure([-j if abs(j) in lines else j for j in sub[::-1]] if i < 0 else sub, lines))
        else:
            out.append(BY[i]["name"])
    return out


def compare(line, name, lines, cache):
    root = [l for l in lines.values() if l["name"] == name][0]
    ids = list(flat(root["items"], lines))
    els = list(line.get_beamline_elements())
    require(line.name == name, "name of the line", got=line.name)
    require([e.name for e in els] == [BY[i]["name"] for i in ids], "elements in order", got=[e.name for e in els],
            want=[BY[i]["name"] for i in ids])
    require(depth_structure(line) == model_structure(root["items"], lines), "nesting of lines",
            got=depth_structure(line), want=model_structure(root["items"], lines))
    total = 0
    for e, i in zip(els, ids):
        d = BY[i]
        want = {k.lower(): NUMBERS.get(v, cache.get(v, v)) for k, v in d.items()
                if k not in ("name", "type", "_id")}
        got = {k: v for k, v in e.parameters.items() if k != "_id"}
        require(e.type == d["type"].lower(), "type of %s" % e.name, got=e.type)
        require(got == want, "parameters of %s" % e.name, got=got, want=want)
        require(e.beamline is line, "top-level line of %s" % e.name)
        total += 0 if isinstance(want.get("l"), str) else want.get("l", 0)
    if all(not isinstance(e.parameters.get("l", 0), str) for e in els):
        require(abs(line.length - total) < 1e-12, "length", got=line.length, want=total)
    return ids


def harnesses(tier):
    deep = tier == "thorough"

    def models(ch):
        from rsbeams.rslattice.templates.lattice_importer import parse_json
        # line 100 (A) may only contain elements, 200 (B) also A, 7 (C) also A and B; a negative number is reversed
        def items(label, pool, n):
            k = ch.pick("size of " + label, range(n, -1, -1), dev=False)
            return [ch.pick("%s[%d]" % (label, i), pool, dev=False) for i in range(k)]
        a = items("A", (1, 12, 40, 5), 2)
        b = [ch.pick("B[%d]" % i, (100, -100, 3), dev=False) for i in range(2)]
        c = [ch.pick("C[%d]" % i, (200, -200, 100, -100, 1), dev=False) for i in range(3 if deep else 2)]
        if ch.flag("element before"):
            c = [3] + c
        if ch.flag("element after"):
            c = c + [12]
        lines = [{"id": 100, "name": "A", "items": a}, {"id": 200, "name": "B", "items": b}, {"id": 7, "name": "C", "items": c}]
        d = {"models": {"beamlines": ch.pick("order of lines", (lines, lines[::-1])),
                        "elements": ch.pick("order of elements", (ELEMENTS, ELEMENTS[::-1])),
                        "rpnCache": ch.pick("cache", (CACHE, {}))}}
        d = copy.deepcopy(d)
        name = ch.pick("line", ("C", "B", "A"))
        before = copy.deepcopy(d)
        if ch.pick("input", ("dict", "file")) == "file":
            with open("m.json", "w") as f:
                json.dump(d, f)
            line = parse_json("m.json", name)
        else:
            line = parse_json(d, name)
            require(d == before, "parse_json changes its input")
            if ch.flag("parse twice"):
                line = parse_json(d, name)
        by_id = {l["id"]: l for l in lines}
        ids = compare(line, name, by_id, d["models"]["rpnCache"])
        ch.observe(name, ids, line.length if d["models"]["rpnCache"] else None)

    def long(ch):
        """Long lines, deep nesting, many lines."""
        from rsbeams.rslattice.templates.lattice_importer import parse_json
        n = ch.pick("size", (9, 12, 40, 70) + ((150,) if deep else ()), dev=False)
        shape = ch.pick("shape", ("one line", "many lines", "deep", "deep, reversed", "reversed twice", "same line", "pairs"), dev=False)
        ids, step = [1, 12, 5, 3, 40], ch.pick("step", (1, 2, 4), dev=False)
        el = lambda k: ids[k * step % 5]
        lines = [{"id": 100 + k, "name": "L%d" % k, "items": [el(k)]} for k in range(n)]
        if shape == "one line":
            lines = [{"id": 100, "name": "L0", "items": [el(k) for k in range(n)]}]
        elif shape == "many lines":
            lines.append({"id": 90, "name": "TOP", "items": [(100 + k) * (-1) ** k for k in range(n)]})
        elif shape in ("deep", "deep, reversed"):
            for k in range(1, n):
                lines[k]["items"] += [(99 + k) * (-1 if k % 3 and shape != "deep" else 1), el(k + 1)]
        elif shape == "reversed twice":
            lines = [{"id": 100, "name": "L0", "items": [el(k) for k in range(n)]}, {"id": 7, "name": "L", "items": [1, -100, 12]},
                     {"id": 8, "name": "M", "items": [-7, 3]}]
        elif shape == "same line":
            lines.append({"id": 90, "name": "TOP", "items": [100, -101] * n})
        else:                   # 2 ** k elements
            lines = lines[:min(n, 11)]
            for k in range(1, len(lines)):
                lines[k]["items"] = [99 + k, 3, -(99 + k)]
        name = lines[-1]["name"]
        d = {"models": {"beamlines": lines[::-1] if ch.flag("lines backwards", dev=False) else lines, "elements": ELEMENTS, "rpnCache": CACHE}}
        line = parse_json(copy.deepcopy(d), name)
        got = compare(line, name, {l["id"]: l for l in lines}, CACHE)
        ch.observe(n, shape, step, len(got))

    def texts(ch):
        """Every text of up to four (thorough: five) signs of numbers as a value; all names of one or two characters."""
        from rsbeams.rslattice.templates.lattice_importer import parse_json
        what = ch.pick("text of", ("value", "name"), dev=False)
        number = re.compile(r" *[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)? *", re.I)
        if what == "value":
            head = ch.pick("first", tuple("10.eE+-_ xnaif"), dev=False)
            rest = [head + "".join(r) for n in range(5 if deep else 4) for r in itertools.product("10.eE+-_ xnaif"[:8 if deep else 10], repeat=n)]
        else:
            head = ch.pick("first", tuple(chr(i) for i in range(33, 127)) + ("\u00e9",), dev=False)
            rest = [head] + [head + chr(i) for i in range(33, 127)]
        cache = ch.pick("cache", ({}, {"x1": 5.5, "1 1": 0, "e": 2.5, "-x": -1.0, "E1": 4}), dev=False)
        for start in range(0, len(rest), 200):
            part = rest[start:start + 200]
            if what == "value":
                els = [{"_id": 1, "name": "Q", "type": "QUAD", **{"p%dx" % i: t for i, t in enumerate(part)}}]
            else:
                els = [{"_id": i, "name": t, "type": "QUAD", "l": "0.%d" % i} for i, t in enumerate(part, 1)]
            lines = [{"id": 5000, "name": part[0], "items": [e["_id"] for e in els]}, {"id": 5001, "name": "other", "items": []}]
            line = parse_json(copy.deepcopy({"models": {"beamlines": lines, "elements": els, "rpnCache": cache}}), part[0])
            got = list(line.get_beamline_elements())
            require(line.name == part[0], "name of the line")
            require([e.name for e in got] == [e["name"] for e in els], "elements in order", got=[e.name for e in got])
            for e, d in zip(got, els):
                want = {k.lower(): v if not isinstance(v, str) else cache[v] if v in cache else float(v) if number.fullmatch(v) else v
                        for k, v in d.items() if k not in ("name", "type", "_id")}
                have = {k: v for k, v in e.parameters.items() if k != "_id"}
                require(set(have) == set(want), "parameters")
                for k, v in want.items():
                    require(type(have[k]) is str if isinstance(v, str) else not isinstance(have[k], str), "value of the text %r" % d.get(k, k), got=have[k], want=v)
                    require(have[k] == v, "value of the text %r" % d.get(k, k), got=have[k], want=v)
        ch.observe(what, head, len(rest), len(cache))

    def missing(ch):
        from rsbeams.rslattice.templates.lattice_importer import parse_json
        lines = [{"id": 100, "name": "A", "items": [1]}, {"id": 200, "name": "AB", "items": [12, 100]}]
        d = {"models": {"beamlines": lines, "elements": ELEMENTS, "rpnCache": CACHE}}
        name = ch.pick("line", ("A", "AB", "a", "B", "", "Q1", "A "), dev=False)
        try:
            line = parse_json(copy.deepcopy(d), name)
        except ValueError:
            require(name not in ("A", "AB"), "line that exists is not found")
            ch.observe(name, None)
            return
        require(name in ("A", "AB"), "line that does not exist is found")
        compare(line, name, {l["id"]: l for l in lines}, CACHE)
        ch.observe(name, line.length)

    return [Harness("texts", texts, timeout=60), Harness("models", models, bound=3 if deep else 2), Harness("missing", missing), Harness("long", long)]
