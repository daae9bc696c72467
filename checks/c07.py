"""C07: elegant phase space <-> Species: the documented conversions, in both directions, for any bunch."""
import re
import numpy as np
from mc import sddsref
from mc.beams import C_LIGHT, ROWS, close, coords, decode_doubles
from mc.core import Harness, require

ASSUMPTIONS = ["positive total momentum", "conversions to 1e-13 relative"]
CHARGES = (1.5e-9, -2e-10, 1.0 / 3.0, 0.0, 3, None)
COLS = ["x", "xp", "y", "yp", "t", "p"]
ORDERS = ([0, 1, 2, 3, 4, 5], [5, 4, 3, 2, 1, 0], [4, 5, 0, 1, 2, 3], [1, 0, 3, 2, 5, 4], [0, 2, 4, 1, 3, 5])


def elegant_rows(a):
    """Species coordinates -> elegant columns, by the documented definition."""
    out = np.array(a, dtype=float).reshape(-1, 6).copy()
    out[:, 1] = a[:, 1] / a[:, 5]
    out[:, 3] = a[:, 3] / a[:, 5]
    out[:, 4] = a[:, 4] / C_LIGHT
    return out


LAYOUTS = ("C", "F", "strided", "read-only", "big-endian", "float32", "ints", "long double")


def species(a, q, layout="C"):
    """The coordinates as the given array stores them, and a Species of that array."""
    from rsbeams.rsptcls.species import Species
    if layout == "ints":
        a = np.round(np.clip(a * 1000, -1e6, 1e6)).astype(np.int64)
        a[:, 5] = 1 + np.abs(a[:, 5])
    elif layout in ("float32", "big-endian", "long double"):
        a = a.astype({"float32": np.float32, "big-endian": ">f8", "long double": np.longdouble}[layout])
    plain = np.array(a, dtype=float)
    if layout == "read-only":
        a = a.copy()
        a.setflags(write=False)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided":
        b = np.zeros((len(a), 12))
        b[:, ::2] = a
        a = b[:, ::2]
    if isinstance(q, float) and layout == "F":
        q = np.float64(q)
    elif isinstance(q, float) and layout == "strided":
        q = np.array(q)
    return plain, Species(a, charge=-1, mass=0.511e6, total_charge=q)


def check_species(sp, a, q, rtol=1e-13):
    for i, n in enumerate(("x", "ux", "y", "uy", "ct", "pt")):
        require(close(getattr(sp, n), a[:, i], rtol), "Species.%s" % n, got=getattr(sp, n), want=a[:, i])
        require(close(np.asarray(sp.coordinates)[:, i], a[:, i], rtol), "Species.coordinates[:, %d]" % i)
    require(sp.macroparticle_count == len(a), "macroparticle_count", got=sp.macroparticle_count, want=len(a))
    if q is not None:
        require(float(np.asarray(sp.total_charge)) == float(q), "total_charge", got=sp.total_charge, want=q)


def harnesses(tier):
    deep = tier == "thorough"
    N = (2, 1, 3, 5, 0, 10, 64, 300) + ((256, 2570) if deep else ())

    def read(ch):
        from rsbeams.rsdata.switchyard import Switchyard
        mode = ch.pick("mode", ("binary", "ascii"))
        n = ch.pick("particles", N)
        shift = ch.pick("values", range(5))
        order = ch.pick("column order", ORDERS)
        extra = ch.pick("extra columns", ((), ("particleID",), ("dt", "particleID"), ("name",)))
        charge = ch.pick("charge", (2.5e-10, 0.0, None, -1e-9))
        fixed = charge is not None and ch.flag("charge in the header")
        bare = ch.flag("no other parameters")
        a = coords(n, shift)
        e = elegant_rows(a)
        params = [] if bare else [dict(name="Step", type="long"), dict(name="pCentral", type="double")]
        pv = [] if bare else [1, 97.0]
        if fixed:
            params.insert(ch.pick("charge parameter at", (2, 0, 1)), dict(name="Charge", type="double", fixed=charge))
        elif charge is not None:
            at = min(ch.pick("charge parameter at", (2, 0, 1)), len(pv))
            params.insert(at, dict(name="Charge", type="double"))
            pv.insert(at, charge)
        if not bare and ch.flag("string parameter"):
            params.append(dict(name="SVNVersion", type="string"))
            pv.append("unknown")
        # the columns may be of different types
        types = ch.pick("column types", ("dddddd", "ffffdd", "fddddd", "dddddf", "ffffff", "ddddfd", "dfdfdl", "hdddld", "lddddd", "dddddh"))
        for i, t in enumerate(types):
            if t == "f":
                e[:, i] = e[:, i].astype(np.float32)
            elif t in "hl":
                e[:, i] = 1 + np.arange(n) % 1000
        if types != "dddddd":
            a = e.copy()
            a[:, 1] = e[:, 1] * e[:, 5]
            a[:, 3] = e[:, 3] * e[:, 5]
            a[:, 4] = e[:, 4] * C_LIGHT
        name_of = {"d": "double", "f": "float", "h": "short", "l": "long"}
        cols = [dict(name=COLS[i], type=name_of[types[i]]) for i in order]
        rows = [[int(e[k, i]) if types[i] in "hl" else float(e[k, i]) for i in order] for k in range(n)]
        for x in extra:
            t = {"particleID": "long", "dt": "double", "name": "string"}[x]
            cols.insert(2, dict(name=x, type=t))
            for k in range(n):
                rows[k].insert(2, {"particleID": k + 1, "dt": 7.5, "name": "e%d" % k}[x])
        with open("in.sdds", "wb") as f:
            f.write(sddsref.Spec(mode, params, cols, [(pv, rows)],
                                 no_row_counts=mode == "ascii" and n > 0 and ch.flag("no row counts")).encode())
        s = Switchyard()
        name = ch.pick("species name", (None, "electrons"))
        s.read("in.sdds", "elegant", **({} if name is None else {"species_name": name}))
        require(list(s.species) == [name or "species_0"], "registered species", got=list(s.species))
        sp = s.species[name or "species_0"]
        check_species(sp, a, 0.0 if charge is None else charge)
        require(sp.charge == -1 and abs(sp.mass / 0.511e6 - 1) < 2e-4, "electron charge and mass")
        ch.observe(mode, n, shift, charge)

    def write(ch):
        from rsbeams.rsdata.switchyard import Switchyard
        n = ch.pick("particles", N)
        shift = ch.pick("values", range(5))
        q = ch.pick("charge", CHARGES)
        layout = ch.pick("array layout", LAYOUTS)
        a, sp = species(coords(n, shift), q, layout=layout)
        rtol = 1e-5 if layout == "float32" else 1e-13
        s = Switchyard()
        s.species["a"] = species(coords(1, 2), 1.0)[1]
        s.species["b"] = sp
        require(s.write("out.sdds", "elegant", "b") == "out.sdds", "write returns the file name")
        require(np.array_equal(sp.coordinates, a), "write changed the species")
        header, params, rows = decode_doubles("out.sdds", 6, 0 if q is None else 1)
        names = re.findall(r"&column name=(\w+)", header)
        require(sorted(names) == sorted(COLS), "columns of the elegant file", got=names)
        want = elegant_rows(a)
        for i, c in enumerate(COLS):
            require(close(rows[:, names.index(c)], want[:, i], rtol), "column %s of the elegant file" % c,
                    got=rows[:, names.index(c)], want=want[:, i])
        if q is not None:
            require(params[0] == float(q), "Charge", got=params, want=q)
            require("&parameter name=Charge, type=double" in header, "Charge parameter")
        # and back
        s.read("out.sdds", "elegant", species_name="c")
        check_species(s.species["c"], a, q, rtol)
        # second generation is stable
        s.write("out2.sdds", "elegant", species_name="c")
        s.read("out2.sdds", "elegant", species_name="d")
        check_species(s.species["d"], a, q, rtol)
        ch.observe(n, shift, q, layout)

    return [Harness("read", read, bound=4 if deep else 3), Harness("write", write)]
