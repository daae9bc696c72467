"""C28: a file that is missing, cut off, damaged or of another kind is an error that changes nothing."""
import copy
import json
import os

import numpy as np

from checks.c07 import COLS, elegant_rows
from checks.c08 import opal_coords, opal_file
from checks.c11 import structure
from checks.c27 import line
from mc import sddsref
from mc.beams import close, coords
from mc.core import Harness, require

ASSUMPTIONS = ["a YAML file that is cut at the end of an element is a shorter YAML file, and cannot be told from one"]
MODEL = {"models": {"rpnCache": {"a": 2.0}, "beamlines": [{"id": 7, "name": "TOP", "items": [1, 8, 2]}, {"id": 8, "name": "SUB", "items": [2, 2]}],
                    "elements": [{"_id": 1, "name": "Q1", "type": "QUAD", "l": "0.5", "k1": "a"}, {"_id": 2, "name": "D1", "type": "DRIF", "l": 1}]}}
LTE = "D: DRIF, L=1\nQ: QUAD, L=0.5, K1=2\nTOP: LINE=(D,Q,D)\n"
READERS = ("elegant", "opal", "array", "beamline", "sirepo", "lte", "sdds")


def make(kind, path, size=3, shift=0):
    """A complete file of that kind."""
    if kind in ("elegant", "sdds"):
        par, col = [dict(name="Charge", type="double")], [dict(name=c, type="double") for c in COLS]
        with open(path, "wb") as f:
            f.write(sddsref.Spec("binary", par, col, [([1e-9], elegant_rows(coords(size, shift)).tolist())]).encode())
    elif kind == "opal":
        opal_file(path, (1, 12)[:1 + shift], size, "CHARGE", lambda st: np.array([1e-9 * st]))
    elif kind == "array":
        np.savez(path + ".npz", a=coords(size, shift).T)
        os.rename(path + ".npz", path)
    elif kind == "beamline":
        line(size, shift).save_beamline(path)
    elif kind == "sirepo":
        with open(path, "w") as f:
            json.dump(MODEL, f, indent=shift or None)
    else:
        with open(path, "w") as f:
            f.write(LTE)


def reader(kind):
    """A function that reads a path, and one that gives everything it may change."""
    if kind in ("elegant", "opal"):
        from rsbeams.rsdata.switchyard import Switchyard
        from rsbeams.rsptcls.species import Species
        s = Switchyard()
        s.species["a"] = Species(coords(2, 4), charge=-1, mass=0.511e6, total_charge=0.5)

        def read(path, name="b"):
            s.read(path, kind, species_name=name)
            return np.array(s.species[name].coordinates).tolist(), float(np.asarray(s.species[name].total_charge))
        return read, lambda: [(k, np.array(v.coordinates).tolist(), float(v.total_charge), v.charge, v.mass) for k, v in s.species.items()]
    if kind == "array":
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        ps = RsPhaseSpace6D(2)
        ps.set_array_6d(np.arange(12.0).reshape(6, 2))

        def read(path):
            if os.path.exists(path):
                os.rename(path, "now.npz")
            ps.set_file_name("now" if os.path.exists("now.npz") else path)
            try:
                ps.read_array()
            finally:
                if os.path.exists("now.npz"):
                    os.rename("now.npz", path)
            return ps.get_array_6d().tolist()
        return read, lambda: (ps.get_num_ptcls(), ps.get_array_6d().tolist(), ps.get_array_x().tolist())
    if kind == "beamline":
        from rsbeams.rslattice.Beamline import StructuredBeamline
        top = StructuredBeamline("new")

        def read(path):
            top.load_beamline(path, "elegant")
            return structure(top)
        return read, lambda: (structure(top), list(top.elements), list(top.lines), top.length, list(top.get_beamline_elements()))
    if kind == "sirepo":
        from rsbeams.rslattice.templates.lattice_importer import parse_json
        return lambda path: structure(parse_json(path, "TOP")), lambda: None
    if kind == "lte":
        from rsbeams.rslattice.lte_parser import BeamlineParser
        return lambda path: structure(BeamlineParser(path, "top")()), lambda: None
    from rsbeams.rsdata.SDDS import readSDDS

    def read(path):
        r = readSDDS(path)
        r.read()
        return np.array(r.columns.tolist()).tolist(), np.array(r.parameters.tolist()).tolist()
    return read, lambda: None


def prefix(got, want):
    """Is the first tree the first part of the second one?"""
    if not got:
        return True
    if len(got) > len(want) or got[:-1] != want[:len(got) - 1]:
        return False
    a, b = got[-1], want[len(got) - 1]
    return a == b or isinstance(a, list) and isinstance(b, list) and prefix(a, b)


def harnesses(tier):
    deep = tier == "thorough"

    def cut(ch):
        kind = ch.pick("file", ("elegant", "opal", "array", "beamline", "sirepo"), dev=False)
        size = ch.pick("size", (3, 1, 12) if kind != "beamline" else (5, 1, 12), dev=False)
        shift = ch.pick("values", (0, 1), dev=False)
        make(kind, "whole", size, shift)
        with open("whole", "rb") as f:
            data = f.read()
        read, state = reader(kind)
        want = reader(kind)[0]("whole")
        before = state()
        n = len(data)
        points = list(range(n)) if n < 2000 or deep else sorted(set(list(range(0, n, n // 500)) + list(range(300)) + list(range(n - 300, n))))
        n = ch.pick("bytes kept", points, dev=False)
        with open("f", "wb") as f:
            f.write(data[:n])
        try:
            got = read("f")
        except Exception as e:
            require(state() == before, "the %s file that could not be read changed something" % kind, error=e, got=state(), want=before)
            got = read("whole")
            require(got == want, "the complete file after one that is cut", got=got, want=want)
            ch.observe(kind, size, shift, "refused", n)
            return
        if kind == "beamline":
            require(prefix(got, want), "what is loaded from the cut file is not in the complete one", got=got, want=want)
        else:
            # some files end with something that does not matter
            require(got == want, "%d of %d bytes of the %s file are read" % (n, len(data), kind), got=got, want=want)
            require(n > len(data) - 3, "%d of %d bytes of the %s file are enough" % (n, len(data), kind))
        ch.observe(kind, size, shift, "read", n)

    def damaged(ch):
        """One byte of an array file is different: an error, or the same numbers."""
        size = ch.pick("size", (3, 1, 12), dev=False)
        make("array", "whole", size, ch.pick("values", (0, 1), dev=False))
        with open("whole", "rb") as f:
            data = bytearray(f.read())
        read, state = reader("array")
        want = reader("array")[0]("whole")
        before = state()
        n = ch.pick("byte", range(len(data)), dev=False)
        data[n] ^= ch.pick("change", (255, 1, 128) if not deep else (255, 1, 2, 4, 8, 16, 32, 64, 128), dev=False)
        with open("f", "wb") as f:
            f.write(data)
        try:
            got = read("f")
        except Exception:
            require(state() == before, "the damaged file changed something", got=state(), want=before)
            ch.observe(size, n, "refused")
        else:
            require(got == want, "a damaged file is read", byte=n, got=got, want=want)
            ch.observe(size, n, "same")

    def foreign(ch):
        """Every reader with every kind of file that is not for it, twice, and then with the right one."""
        kind = ch.pick("reader", READERS, dev=False)
        other = ch.pick("file", ("missing", "folder", "empty", "text", "blank", "zeros") + READERS, dev=False)
        if other == kind or {other, kind} == {"elegant", "sdds"}:
            ch.nontrivial = False
            return
        if other == "folder":
            os.mkdir("f")
        elif other in ("empty", "text", "blank", "zeros"):
            with open("f", "wb") as f:
                f.write({"empty": b"", "text": b"nothing of this kind\nat all\n", "blank": b"\n\n", "zeros": bytes(64)}[other])
        elif other != "missing":
            make(other, "f", ch.pick("size", (3, 40), dev=False))
        make(kind, "whole")
        read, state = reader(kind)
        want = reader(kind)[0]("whole")
        before = state()
        for _ in range(2):
            try:
                got = read("f")
            except Exception as e:
                require(state() == before, "a %s file that could not be read as %s changed something" % (other, kind), error=repr(e)[:200],
                        got=str(state())[:300], want=before)
            else:
                # an empty YAML list is a beamline without elements
                require(False, "%s is read as %s" % (other, kind), got=got)
        require(not os.path.exists("f") or other != "missing", "reading made a file")
        require(read("whole") == want, "the right file after the wrong one")
        ch.observe(kind, other)

    def incomplete(ch):
        """Contents that are well-formed but incomplete."""
        kind = ch.pick("file", ("opal", "elegant", "array", "beamline", "sirepo", "sirepo dict"), dev=False)
        name = "b"
        make(kind.split()[0], "whole")
        read, state = reader(kind.split()[0])
        want = reader(kind.split()[0])[0]("whole")
        path = "f"
        if kind == "opal":
            import h5py
            opal_file("f", (1, 12), 3, "CHARGE", lambda st: 1e-9)
            what = ch.pick("what", ("x", "px", "y", "py", "z", "pz", "charge", "step", "short px", "short z"), dev=False)
            with h5py.File("f", "a") as f:
                if what == "charge":
                    del f["Step#12"].attrs["CHARGE"]
                elif what == "step":
                    for k in list(f):
                        f.move(k, "Other" + k)
                else:
                    d = what.split()[-1]
                    v = f["Step#12"][d][:-1]
                    del f["Step#12"][d]
                    if what != d:
                        f["Step#12"][d] = v
        elif kind == "elegant":
            drop = ch.pick("without", COLS, dev=False)
            rows = elegant_rows(coords(3))
            keep = [i for i, c in enumerate(COLS) if c != drop]
            with open("f", "wb") as f:
                f.write(sddsref.Spec(ch.pick("mode", ("binary", "ascii"), dev=False), [dict(name="Charge", type="double")],
                                     [dict(name=COLS[i], type="double") for i in keep], [([1e-9], rows[:, keep].tolist())]).encode())
        elif kind == "array":
            shape = ch.pick("shape", ((5, 3), (3, 6), (6, 0), (6,), (), (1, 6, 3), None), dev=False)
            np.savez("f.npz", **({"b": np.zeros((6, 2))} if shape is None else {"a": np.zeros(shape)}))
            os.rename("f.npz", "f")
        elif kind == "beamline":
            bad = ch.pick("entry", ("{type: drift, l: 1}", "{name: a, l: 1}", "abc", "3", "null", "- {name: a}", "- - [x]", "{}", "- null"), dev=False)
            with open("f", "w") as f:
                f.write("- {name: q, type: quad, l: 1}\n- - {name: d, type: drift, l: 2}\n" * ch.pick("before", (0, 1, 2), dev=False)
                        + "- %s\n" % bad + "- {name: z, type: drift, l: 3}\n" * ch.pick("after", (0, 1), dev=False))
        else:
            m = copy.deepcopy(MODEL)
            what = ch.pick("what", ("line", "element", "models", "beamlines", "elements", "name", "items", "type"), dev=False)
            if what == "line":
                m["models"]["beamlines"].pop(ch.pick("which", (0, 1), dev=False))
            elif what == "element":
                m["models"]["elements"].pop(ch.pick("which", (0, 1), dev=False))
            elif what == "models":
                m = {"model": m["models"]}
            elif what in ("beamlines", "elements"):
                m["models"].pop(what)
            elif what == "items":
                m["models"]["beamlines"][ch.pick("which", (0, 1), dev=False)].pop(what)
            else:
                m["models"]["elements"][ch.pick("which", (0, 1), dev=False)].pop(what)
            if kind == "sirepo":
                with open("f", "w") as f:
                    json.dump(m, f)
            else:
                path = m
        before = state()
        for _ in range(2):
            try:
                got = read(path)
            except Exception as e:
                require(state() == before, "the file that could not be read changed something", error=repr(e)[:200], got=str(state())[:300], want=before)
            else:
                require(False, "an incomplete %s file is read" % kind, got=got)
        require(read("whole") == want, "the complete file after the incomplete one")
        ch.observe(kind)

    return [Harness("cut", cut), Harness("damaged", damaged), Harness("foreign", foreign), Harness("incomplete", incomplete)]
