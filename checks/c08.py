"""C08: OPAL step selection and reading, OPAL and genesis text output, for any bunch and any set of steps."""
import itertools
import numpy as np
from checks.c07 import COLS, LAYOUTS, check_species, elegant_rows, species
from mc import sddsref
from mc.beams import C_LIGHT, close, coords, decode_doubles
from mc.core import Harness, require

ASSUMPTIONS = ["an OPAL file holds one total charge attribute per step", "genesis output is given a total charge"]


def opal_file(path, steps, n, attr, q, extra=()):
    import h5py
    with h5py.File(path, "w") as f:
        for e in extra:
            f.create_group(e)
        for k, st in enumerate(steps):
            g = f.create_group("Step#%d" % st)
            a = opal_coords(st, n)
            for i, c in enumerate(("x", "px", "y", "py", "z", "pz")):
                g[c] = a[:, i]
            if attr:
                g.attrs[attr] = q(st)


def opal_coords(step, n):
    return coords(n, step % 5) * (1 + 0.01 * step)


def harnesses(tier):
    deep = tier == "thorough"
    ALL = (0, 1, 2, 9, 10, 11, 100)

    def steps(ch):
        """Every set of up to three stored steps, every requested step, and the default (the last one)."""
        from rsbeams.rsdata.switchyard import Switchyard
        chosen = ch.pick("stored steps", [c for k in range(1, (5 if deep else 4)) for c in itertools.combinations(ALL, k)] +
                         [(999, 1000), (1999, 2000), (9, 12000), (2000, 12000), (99999, 100000, 1000000), (0, 2 ** 31)])
        order = ch.pick("creation order", ("ascending", "descending"))
        n = ch.pick("particles", (2, 1, 0, 300) if not deep else (2, 1, 3, 0, 300, 5000))
        attr = ch.pick("charge attribute", ("CHARGE", "TotalCharge"))
        zero = ch.flag("zero charge")
        q = lambda st: 0.0 if zero else 1e-9 * (st + 1)
        want = ch.pick("requested step", (None,) + chosen)
        extra = ch.pick("other groups", ((), ("OPAL_info", "Mesh#5x"), ("7777777777",), ("XStep#7777777777",),
                                          ("Step#7777777777_0", "Step#1e12", "Step#"), ("OPAL#9999999999", "12Step#")))
        opal_file("o.h5", chosen if order == "ascending" else chosen[::-1], n, attr, q, extra)
        s = Switchyard()
        kw = {} if want is None else {"step_number": want}
        s.read("o.h5", "opal", **kw)
        st = max(chosen) if want is None else want
        sp = s.species["species_0"]
        require(np.array_equal(np.asarray(sp.coordinates), opal_coords(st, n)), "particles of step %d" % st,
                got=sp.coordinates)
        check_species(sp, opal_coords(st, n), q(st))
        require(sp.charge == -1 and abs(sp.mass / 0.511e6 - 1) < 2e-4, "electron charge and mass")
        ch.observe(chosen, want, n, zero)

    def many(ch):
        """Files with many steps, stored in any order."""
        from rsbeams.rsdata.switchyard import Switchyard
        n = ch.pick("steps", (12, 3, 5, 25, 120) + ((1001,) if deep else ()), dev=False)
        first, by = ch.pick("numbers", ((0, 1), (1, 1), (7, 5), (95, 1), (0, 100)), dev=False)
        chosen = [first + by * k for k in range(n)]
        order = {"ascending": chosen, "descending": chosen[::-1], "mixed": chosen[n // 2:] + chosen[:n // 2]}[
            ch.pick("order", ("ascending", "descending", "mixed"), dev=False)]
        opal_file("o.h5", order, 2, "CHARGE", lambda st: 1e-9 * (st + 1))
        s = Switchyard()
        for want in [None] + chosen[:3] + chosen[-3:] + chosen[n // 2:n // 2 + 1]:
            st = chosen[-1] if want is None else want
            s.read("o.h5", "opal", species_name=str(want), **({} if want is None else {"step_number": want}))
            check_species(s.species[str(want)], opal_coords(st, 2), 1e-9 * (st + 1))
        ch.observe(n, first, by)

    def missing(ch):
        """A step that is not stored, or a step without any charge, is refused, not replaced by something else."""
        from rsbeams.rsdata.switchyard import Switchyard
        chosen = ch.pick("stored steps", ((0,), (1,), (2, 10), (0, 1, 2)))
        what = ch.pick("what", ("step", "charge"))
        s = Switchyard()
        if what == "step":
            opal_file("o.h5", chosen, 2, "CHARGE", lambda st: 1.0)
            kw = {"step_number": ch.pick("requested step", [k for k in (0, 1, 3, 11, 100, -1) if k not in chosen])}
        else:
            opal_file("o.h5", chosen, 2, None, None)
            kw = {"step_number": ch.pick("requested step", (None,) + chosen)}
        try:
            s.read("o.h5", "opal", **kw)
        except Exception:
            require(not s.species, "a failed read registered a species", got=list(s.species))
            ch.observe(chosen, what, kw)
            return
        require(False, "accepted", stored=chosen, **kw)

    def writers(ch):
        from rsbeams.rsdata.switchyard import Switchyard
        n = ch.pick("particles", (2, 1, 3, 5, 0, 17, 101, 513) + ((1000, 4097) if deep else ()))
        shift = ch.pick("values", range(5))
        layout = ch.pick("array layout", LAYOUTS)
        q = ch.pick("charge", (1.5e-9, 0.0, -1.0 / 3.0, None))
        a, sp = species(coords(n, shift), q, layout=layout)
        s = Switchyard()
        s.species["a"] = species(coords(1, 3), 7.0)[1]
        s.species["b"] = sp
        code = ch.pick("code", ("opal", "genesis") if n else ("opal",))
        if ch.flag("over an existing file"):
            with open("out.txt", "w") as f:
                f.write("old " * 500)
        version = ch.pick("version", (None, "0.1", "2.0", "abc")) if code == "genesis" else None
        require(s.write("out.txt", code, "b", **({} if version is None else {"version": version})) == "out.txt",
                "write returns the file name")
        require(np.array_equal(sp.coordinates, a), "write changed the species")
        check_text("out.txt", code, a, q, version, 1e-5 if layout == "float32" else 1e-12, layout != "float32")
        ch.observe(code, n, shift, q)

    def convert(ch):
        """What one reader delivers, any writer can write."""
        from rsbeams.rsdata.switchyard import Switchyard
        n = ch.pick("particles", (2, 1, 3, 0, 17, 513) + ((4097,) if deep else ()))
        shift = ch.pick("values", range(5))
        q = ch.pick("charge", (1.5e-9, 0.0, -1.0 / 3.0, 1e-9 / 7.0, 2.5e-30))
        a = coords(n, shift)
        source = ch.pick("from", ("opal", "elegant binary", "elegant ascii"))
        if source == "opal":
            as_ = ch.pick("charge stored as", ("array", "scalar", "float32 array"))
            q = float(np.float32(q)) if as_ == "float32 array" else q
            value = {"array": np.array([q]), "scalar": q, "float32 array": np.array([q], dtype=np.float32)}[as_]
            opal_file("in", (1, 3), n, ch.pick("charge attribute", ("CHARGE", "TotalCharge")),
                      lambda st: value * (1 if st == 3 else 5))
            a = opal_coords(3, n)
        else:
            fixed = ch.flag("charge in the header")
            par = [dict(name="Step", type="long"), dict(name="Charge", type="double", **({"fixed": repr(q)} if fixed else {}))]
            with open("in", "wb") as f:
                f.write(sddsref.Spec(source.split()[1], par, [dict(name=c, type="double") for c in COLS],
                                     [([1] if fixed else [1, q], elegant_rows(a).tolist())]).encode())
        s = Switchyard()
        s.read("in", source.split()[0], species_name=ch.pick("name", (None, "beam")))
        for i in range(2):
            code = ch.pick("code %d" % i, ("genesis", "opal", "elegant") if n else ("opal", "elegant"))
            s.write("out", code)
            if code != "elegant":
                check_text("out", code, a, q, None, 1e-12, exact=source == "opal")
                continue
            _h, params, rows = decode_doubles("out", 6, 1)
            require(params[0] == q, "Charge of the elegant file", got=params, want=q)
            require(close(rows, elegant_rows(a)), "columns of the elegant file", got=rows, want=elegant_rows(a))
            s.read("out", "elegant", species_name="again %d" % i)
            check_species(s.species["again %d" % i], a, q)
        ch.observe(source, n, shift, q)

    def check_text(path, code, a, q, version, rtol, exact=True):
        n = len(a)
        lines = open(path).read().split("\n")
        require(lines[-1] == "", "file ends with a newline")
        eq = np.array_equal if exact else lambda x, y: close(x, y, rtol)
        lines.pop()
        if code == "opal":
            require(int(lines[0]) == n, "first line is the number of particles", got=lines[0], want=n)
            rows = np.array([[float(t) for t in l.split()] for l in lines[1:]]).reshape(-1, 6)
            require(eq(rows, a), "OPAL rows", got=rows, want=a)
        else:
            head = {}
            while lines[0].startswith("?"):
                l = lines.pop(0)[1:]
                k, _, v = l.partition("=" if "=" in l else "COLUMNS")
                head[k.strip() or "COLUMNS"] = v.strip()
            require(head["VERSION"] == (version or "2.0"), "VERSION", got=head)
            try:
                charge = float(head["CHARGE"]) if "CHARGE" in head else None
            except ValueError:
                charge = "not a number"
            # a single precision number may be written with as many digits as it needs
            require(charge == q or q is not None and type(charge) is float and np.float32(charge) == q, "CHARGE", got=head, want=q)
            require(int(head["SIZE"]) == n, "SIZE", got=head, want=n)
            require(head["COLUMNS"].split() == ["X", "PX", "Y", "PY", "T", "P"], "COLUMNS", got=head)
            rows = np.array([[float(t) for t in l.split()] for l in lines]).reshape(-1, 6)
            t = a[:, 4] / C_LIGHT
            t = t - sum(t) / n
            want = np.stack([a[:, 0], a[:, 1], a[:, 2], a[:, 3], t, a[:, 5]], axis=1)
            require(eq(np.delete(rows, 4, 1), np.delete(want, 4, 1)), "genesis rows", got=rows, want=want)
            scale = float(np.max(np.abs(a[:, 4] / C_LIGHT))) if n else 0.0
            require(close(rows[:, 4], want[:, 4], rtol=rtol, atol=0.1 * rtol * scale), "genesis T", got=rows[:, 4],
                    want=want[:, 4])

    return [Harness("steps", steps, bound=None if deep else 3), Harness("missing", missing), Harness("many", many), Harness("writers", writers),
            Harness("convert", convert, bound=4 if deep else 3)]
