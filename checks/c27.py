"""C27: every file the library writes is complete, or the failure is reported and harms nothing else."""
import gc
import os

import numpy as np

from checks.c06 import OLD, DiskFull
from checks.c16 import stand_ins
from mc.beams import coords
from mc.core import Harness, require

ASSUMPTIONS = ["a full disk is modelled by a file size limit: the write that crosses it fails after a partial write",
               "an error of numpy.savez that is kept while another array is written to the same file is left out"]
KINDS = ("beamline", "warp", "elegant", "opal", "genesis", "array", "sdds ascii", "sdds binary")


def read(path):
    with open(path, "rb") as f:
        return f.read()


def line(n, shift=0):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    top = StructuredBeamline("top")
    for i in range(n):
        if i % 7 == 3:
            top.add_beamline("s%d" % i)
            top.sequence[-1].add_element("d%d" % i, "drift", {"l": 0.5 * i + shift})
        else:
            top.add_element("Q%d" % i, ("quad", "drift")[i % 2], {"l": 0.1 * i + shift, "db": i - 0.25, "rc": 1.0 / (1 + i)})
    return top


def maker(kind, size, shift=0):
    """An object, a function that writes it to a path, and a function that lists what the object holds."""
    if kind == "beamline":
        top = line(size, shift)
        return top, top.save_beamline, lambda: [(e.name, e.type, dict(e.parameters)) for e in top.get_beamline_elements()]
    if kind == "warp":
        stand_ins({"models": {}})
        from rsbeams.rslattice.formatted_writer import WarpWriter
        top = line(size, shift)
        w = WarpWriter(top, "elegant")
        return w, w.write_file, lambda: [(e.name, e.type, dict(e.parameters)) for e in top.get_beamline_elements()]
    if kind in ("elegant", "opal", "genesis"):
        from rsbeams.rsdata.switchyard import Switchyard
        from rsbeams.rsptcls.species import Species
        s = Switchyard()
        s.species["a"] = Species(coords(size, shift), charge=-1, mass=0.511e6, total_charge=1e-9)
        return s, lambda p: s.write(p, kind), lambda: (list(s.species), s.species["a"].coordinates.tolist(),
                                                       float(s.species["a"].total_charge))
    if kind == "array":
        from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
        ps = RsPhaseSpace6D(size)
        ps.set_array_6d(coords(size, shift).T.copy())

        def write(p):
            ps.set_file_name(p)
            ps.write_array()
            os.rename(p + ".npz", p)
        return ps, write, lambda: (ps.get_num_ptcls(), ps.get_array_6d().tolist())
    from rsbeams.rsdata.SDDS import writeSDDS
    w = writeSDDS()
    w.create_parameter("q", 0.25 + shift, "double")
    for i, c in enumerate(("x", "y")):
        w.create_column(c, coords(size, shift)[:, i].copy(), "double")
    return w, lambda p: w.save_sdds(p, dataMode=kind.split()[1]), lambda: None


def content(kind, path):
    """What a file says: archives hold the time of writing, so they are compared by what is in them."""
    if kind != "array":
        return read(path)
    with np.load(path) as f:
        return {k: f[k].tolist() for k in f.files}


def places(n, deep):
    """Every byte of small files; the first and last ones of others, and where buffered writes end."""
    if n < (2500 if deep else 700):
        return list(range(n))
    step = 512 if deep else max(4096, n // 40)
    return sorted(set(list(range(0, n, step)) + list(range(60)) + list(range(n - 60, n))
                      + [k + d for k in range(8192, n, max(8192, 8192 * (n // 8192 // 4))) for d in (-1, 0, 1) if k + d < n]))


def harnesses(tier):
    deep = tier == "thorough"
    target = {"array": "t.npz"}

    def diskfull(ch):
        kind = ch.pick("writer", KINDS, dev=False)
        size = ch.pick("size", (4, 1, 400) + ((3000,) if deep else ()), dev=False)
        obj, write, state = maker(kind, size)
        before = state()
        write("full")
        want, length = content(kind, "full"), os.path.getsize("full")
        n = ch.pick("disk full at byte", places(length, deep), dev=False)
        if ch.flag("over an existing file"):
            for f in ("t", "t.npz"):
                with open(f, "wb") as f:
                    f.write(OLD)
        again = ch.pick("then", ("again", "with another object", "full once more"))
        failed = False
        with DiskFull(n):
            for _ in range(2 if again == "full once more" else 1):
                failed = False
                try:
                    write("t")
                except OSError:
                    failed = True
        require(failed, "%s: %d bytes do not fit but writing returned normally" % (kind, length), limit=n)
        require(state() == before, "the failed write changed the object")
        if again == "with another object":
            obj, write, state = maker(kind, size, 1)
            write("full")
            want = content(kind, "full")
        write("t")
        require(content(kind, "t") == want, "the file written after a failure differs from one written without", kind=kind)
        ch.observe(kind, size, n, again)

    def kept(ch):
        """The error is kept (as an interactive session does) while something else is written to the same file."""
        # numpy's archive writer itself leaves a file open after an error
        kind = ch.pick("writer", [k for k in KINDS if k != "array"], dev=False)
        size = ch.pick("size", (40, 400), dev=False)
        obj, write, state = maker(kind, size)
        write("full")
        n = ch.pick("disk full at byte", (0, 1, 100, 4095, 4096, 8192, os.path.getsize("full") - 1), dev=False)
        error = None
        with DiskFull(n):
            try:
                write("t")
            except OSError as e:
                error = e
        if error is None:
            require(n >= os.path.getsize("full"), "%s: writing returned normally" % kind, limit=n)
            ch.nontrivial = False
            return
        obj2, write2, state2 = maker(kind, ch.pick("next size", (size, 1, 30), dev=False), 2)
        write2("full")
        want = content(kind, "full")
        write2("t")
        require(error is not None, "error")
        error = obj = write = state = None
        gc.collect()
        require(content(kind, "t") == want, "what was left over from a failed write came into the next file", kind=kind)
        ch.observe(kind, size, n)

    def refused(ch):
        """Something that cannot be written is refused and the existing file stays."""
        kind = ch.pick("what", ("beamline value", "unknown species", "no species", "no length", "missing folder"), dev=False)
        existing = ch.flag("over an existing file", dev=False)
        if existing:
            with open("t", "wb") as f:
                f.write(OLD)
        path = "t"
        if kind == "beamline value":
            top = line(ch.pick("elements before", (0, 1, 3, 60), dev=False))
            nested = ch.flag("in a line", dev=False)
            if nested:
                top.add_beamline("s")
            value = ch.pick("value", (1j, object(), np.arange(3), len, range(3), np.datetime64(0, "s")), dev=False)
            (top.sequence[-1] if nested else top).add_element("z", "drift", {"l": 1.0, "x": value})
            for _ in range(ch.pick("elements after", (0, 2), dev=False)):
                top.add_element("z2", "drift", {"l": 1.0})
            write = lambda: top.save_beamline(path)
            state = lambda: [(e.name, e.type, sorted(e.parameters)) for e in top.get_beamline_elements()]
        elif kind == "no length":
            code = None
            stand_ins({"models": {}})
            from rsbeams.rslattice.formatted_writer import WarpWriter
            top = line(ch.pick("elements before", (0, 1, 3), dev=False))
            top.add_element("z", "quad", {"db": 1.0} if ch.flag("length missing", dev=False) else {"l": 1.0})
            write = lambda: WarpWriter(top, "elegant").write_file(path)
            state = lambda: [(e.name, e.type, sorted(e.parameters)) for e in top.get_beamline_elements()]
        else:
            code = ch.pick("code", ("elegant", "opal", "genesis"), dev=False)
            s, _w, state = maker(code, 3)
            if kind == "unknown species":
                write = lambda: s.write(path, code, "nobody")
            elif kind == "no species":
                s.species.clear()
                state = lambda: list(s.species)
                write = lambda: s.write(path, code)
            else:
                path = os.path.join("missing", "t")
                write = lambda: s.write(path, code)
        before = state()
        try:
            write()
        except Exception as e:
            require(state() == before, "the refused write changed the object")
            require(not os.path.exists("missing"), "a folder was made")
            require(os.path.exists("t") == existing, "the refused write left a file behind", kind=kind)
            require(not existing or read("t") == OLD, "the refused write destroyed the existing file", kind=kind,
                    left=read("t")[:50] if existing else None)
            ch.observe(kind, existing, type(e).__name__)
            return
        require(kind == "beamline value", "accepted: %s" % kind)
        ch.observe(kind, existing, "written")

    return [Harness("diskfull", diskfull, bound=None if deep else 1), Harness("kept", kept), Harness("refused", refused)]
