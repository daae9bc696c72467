"""C09: the Switchyard's species registry under every sequence of reads, writes and failures."""
import numpy as np
from mc import sddsref
from checks.c07 import COLS, elegant_rows
from checks.c08 import opal_file, opal_coords
from mc.beams import close, coords, decode_doubles
from mc.core import Harness, require


def make_inputs():
    for k in (1, 2):
        rows = elegant_rows(coords(2, k)).tolist()
        s = sddsref.Spec("binary", [dict(name="Charge", type="double")], [dict(name=c, type="double") for c in COLS],
                         [([k * 1e-9], rows)])
        with open("e%d.sdds" % k, "wb") as f:
            f.write(s.encode())
    opal_file("o.h5", (3,), 3, "CHARGE", lambda st: 5e-9)


def harnesses(tier):
    deep = tier == "thorough"
    depth = 4 if deep else 3
    NAMES = (None, "a", "species_0", "")

    def registry(ch):
        from rsbeams.rsdata.switchyard import Switchyard
        make_inputs()
        src = {"e1": coords(2, 1), "e2": coords(2, 2), "o": opal_coords(3, 3)}
        charge = {"e1": 1e-9, "e2": 2e-9, "o": 5e-9}
        yards = [Switchyard(), Switchyard()]
        models = [{}, {}]
        log = []
        for step in range(depth):
            op = ch.pick("op%d" % step, ("read e1", "read e2", "read o", "write elegant", "write opal", "read unknown format",
                                        "read missing file", "write unknown code", "write unknown species"))
            y = ch.pick("switchyard%d" % step, (0, 1))
            s, model = yards[y], models[y]
            name = ch.pick("name%d" % step, NAMES) if op.startswith("read") and not op.endswith("e") and "unk" not in op \
                else None
            kw = {} if name is None else {"species_name": name}
            kind, what = op.split(" ", 1)
            if op in ("read e1", "read e2", "read o"):
                s.read({"o": "o.h5"}.get(what, what + ".sdds"), "opal" if what == "o" else "elegant", **kw)
                model.setdefault(name or "species_0", what)       # a name that is taken keeps its species
            elif op in ("write elegant", "write opal"):
                target = ch.pick("target%d" % step, [None] + list(model)) if model else None
                if not model:
                    try:
                        s.write("w", what)
                    except Exception:
                        continue
                    require(False, "writing without any species is accepted")
                wkw = {} if target is None else {"species_name": target}
                require(s.write("w", what, **wkw) == "w", "write returns the file name")
                key = model[target if target is not None else next(iter(model))]
                if what == "elegant":
                    _h, q, rows = decode_doubles("w", 6, 1)
                    require(q[0] == charge[key], "charge of the written species", got=q, want=charge[key])
                    require(close(rows, elegant_rows(src[key])), "species written by %s" % (target,), got=rows)
                else:
                    rows = np.loadtxt("w", skiprows=1, ndmin=2)
                    require(close(rows, src[key]), "species written by %s" % (target,), got=rows, want=src[key])
            else:
                bad = {"read unknown format": lambda: s.read("e1.sdds", "astra"),
                       "read missing file": lambda: s.read("nothing.sdds", "elegant"),
                       "write unknown code": lambda: s.write("w2", "astra"),
                       "write unknown species": lambda: s.write("w2", "opal", "nobody")}[op]
                try:
                    bad()
                except Exception as e:
                    if op == "read unknown format":
                        require(isinstance(e, LookupError), "unknown format raises LookupError", got=e)
                else:
                    require(False, op + " is accepted")
            for yy, m in zip(yards, models):
                require(list(yy.species) == list(m), "registered names", got=list(yy.species), want=list(m))
                for n, k in m.items():
                    require(close(np.asarray(yy.species[n].coordinates), src[k]), "species %r" % n,
                            got=yy.species[n].coordinates, want=src[k])
                    require(float(np.asarray(yy.species[n].total_charge)) == charge[k], "charge of %r" % n)
            log.append(op)
        ch.observe(models, log)

    def first(ch):
        """The first registered species stays the default, whatever is read, written or refused in between."""
        from rsbeams.rsdata.switchyard import Switchyard
        make_inputs()
        src = {"e1": coords(2, 1), "e2": coords(2, 2), "o": opal_coords(3, 3)}
        s = Switchyard()
        names = ch.pick("names", (("b", "a", "c"), ("z", None, "a"), (None, "b", "a"), ("c", "b", "a"), ("b", "A", None, "a")))
        files = [("e1", "e2", "o")[(k + ch.pick("first file", (0, 1, 2)) if not k else k) % 3] for k in range(len(names))]
        for f, name in zip(files, names):
            s.read("o.h5" if f == "o" else f + ".sdds", "opal" if f == "o" else "elegant", **({"species_name": name} if name else {}))
        keys = [name or "species_0" for name in names]
        for step in range(4 if deep else 3):
            op = ch.pick("op%d" % step, ("write", "read", "write to a missing folder"))
            which = ch.pick("name%d" % step, keys)
            code = ch.pick("code%d" % step, ("opal", "elegant", "genesis"))
            if op == "write":
                s.write("w", code, which)
            elif op == "read":
                s.read("e1.sdds", "elegant", species_name=which)
            else:
                try:
                    s.write("missing/w", code, which)
                except Exception:
                    pass
            require(list(s.species) == keys, "registered names", got=list(s.species), want=keys)
        s.write("w", "opal")
        rows = np.loadtxt("w", skiprows=1, ndmin=2)
        require(close(rows, src[files[0]]), "species written by default", got=rows, want=src[files[0]])
        ch.observe(names, files)

    def many(ch):
        """Many species in one Switchyard, every one written afterwards."""
        from rsbeams.rsdata.switchyard import Switchyard
        make_inputs()
        src = {"e1": coords(2, 1), "e2": coords(2, 2), "o": opal_coords(3, 3)}
        charge = {"e1": 1e-9, "e2": 2e-9, "o": 5e-9}
        n = ch.pick("species", (5, 11, 12, 30) + ((101,) if deep else ()), dev=False)
        style = ch.pick("names", ("species_%d", "%d", "beam %d", "S%03d", "%d_species_0", "x" * 40 + "%d", None), dev=False)
        back = ch.flag("descending", dev=False)
        unnamed = ch.pick("unnamed", (None, 0, n // 2, n - 1), dev=False)
        s, model = Switchyard(), {}
        for k in range(n):
            what = ("e1", "e2", "o")[k * k % 3]
            name = None if style is None or k == unnamed else style % (n - k if back else k)
            s.read("o.h5" if what == "o" else what + ".sdds", "opal" if what == "o" else "elegant", **({} if name is None else {"species_name": name}))
            model.setdefault(name or "species_0", what)
            require(list(s.species) == list(model), "registered names", got=list(s.species), want=list(model))
        for name in [None] + list(model):
            key = model[next(iter(model)) if name is None else name]
            s.write("w", "opal", *([] if name is None else [name]))
            rows = np.loadtxt("w", skiprows=1, ndmin=2)
            require(close(rows, src[key]), "species written for %r" % (name,), got=rows, want=src[key])
            require(float(np.asarray(s.species[name or next(iter(model))].total_charge)) == charge[key], "charge of %r" % (name,))
        ch.observe(model)

    def supported(ch):
        from rsbeams.rsdata.switchyard import Switchyard
        code = ch.pick("code", ("elegant", "opal", "genesis", "astra", "", "Elegant", None))
        s = Switchyard()
        require(bool(s.is_supported(code)) == (code in ("elegant", "opal", "genesis")), "is_supported(%r)" % code)
        require(sorted(Switchyard.supported_codes()) == ["elegant", "genesis", "opal"], "supported_codes")
        ch.observe(code)

    return [Harness("registry", registry, bound=6 if deep else 4), Harness("first", first, bound=5 if deep else 3),
            Harness("many", many), Harness("supported", supported)]
