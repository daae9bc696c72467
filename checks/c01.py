"""C01: what writeSDDS saves, readSDDS returns (both modes, both reading strategies, every type combination)."""
import re
import numpy as np
from mc.core import Harness, require
from mc.sddslib import VALUES, SPECIAL, check_tables, equal, load

ASSUMPTIONS = ["text-mode string data without whitespace, quotes or '!' in string data", "little-endian machine"]
TYPES = ("double", "long", "short", "string")
KINDS = ("native", "float64/int64", "list", "tuple", "big-endian", "column vector", "reversed view", "strided", "readonly", "Series", "exact")


def column_data(t, vals, kind):
    if t == "string":
        return list(vals) if kind == "list" else np.array(vals, dtype="U100")
    base = {"double": np.float64, "long": np.int32, "short": np.int16}[t]
    if kind == "list":
        return list(vals)
    if kind == "tuple":
        return tuple(vals)
    if kind == "big-endian":
        return np.array(vals, dtype=np.dtype(base).newbyteorder(">"))
    if kind == "column vector":
        return np.array(vals, dtype=base).reshape(-1, 1)
    if kind == "reversed view":
        return np.array(list(vals)[::-1], dtype=base)[::-1]
    if kind == "Series":
        import pandas
        return pandas.Series(np.array(vals, dtype=base), index=range(5, 5 + len(vals)))
    if kind == "exact":
        # the smallest type that holds all values
        for dt in (np.int8, np.int16, np.float32, np.int64):
            with np.errstate(all="ignore"):
                try:
                    a = np.array(vals, dtype=dt)
                except (OverflowError, ValueError):
                    continue
            if all(x == y for x, y in zip(a.tolist(), vals)):
                return a
    if kind == "float64/int64" and t != "double":
        return np.array(vals, dtype=np.int64)
    if kind == "strided":
        a = np.zeros((len(vals), 3), dtype=base)
        a[:, 1] = vals
        return a[:, 1]
    a = np.array(vals, dtype=base)
    if kind == "readonly":
        a.setflags(write=False)
    return a


def scalar(t, v, kind):
    if t == "string" or kind == "python":
        return v
    a = np.array(v, dtype={"double": np.float64, "long": np.int64, "short": np.int16}[t])
    return a if kind == "0-d array" else a[()]


def save_and_compare(ch, pt, ct, nr, mode, buffer, shift, pkind="python", ckind="native", fixed=None, values=None):
    from rsbeams.rsdata.SDDS import writeSDDS
    V = dict(VALUES, **(values or {}))
    w = writeSDDS()
    pv, params = [], []
    for i, t in enumerate(pt):
        v = V[t][(shift + i) % len(V[t])]
        if fixed == i:
            w.create_parameter("p%d" % i, None, t, parFixedVal=v)
            continue
        w.create_parameter("p%d" % i, scalar(t, v, pkind), t)
        params.append(("p%d" % i, t))
        pv.append(v)
    cols, orig = [], []
    for i, t in enumerate(ct):
        vals = [V[t][(shift + i + 2 * r + r // 7) % len(V[t])] for r in range(nr)]
        d = column_data(t, vals, ckind)
        w.create_column("c%d" % i, d, t)
        cols.append(vals)
        orig.append((d, list(vals)))
    w.save_sdds("out.sdds", dataMode=mode)
    check_mode("out.sdds", mode)
    for d, vals in orig:
        require(len(d) == len(vals) and all((a == b) or (a != a and b != b) for a, b in zip(d, vals)),
                "save_sdds changed the caller's data", data=d)
    if not params and not ct and mode == "ascii":
        return
    r = load("out.sdds", buffer)
    rows = [[c[k] for c in cols] for k in range(nr)]
    check_tables(r, params, [("c%d" % i, t) for i, t in enumerate(ct)], [(pv, rows)])
    ch.observe(mode, tuple(pt), tuple(ct), nr, shift, pv, rows[:3])


def check_mode(path, mode):
    with open(path, "rb") as f:
        found = re.search(rb"&data[^&]*mode\s*=\s*\"?(\w+)", f.read())
    require(found and found[1].decode() == mode, "the file is not in the requested mode", mode=mode, found=found and found[1])


def tuples(n):
    out = [()]
    for k in range(1, n + 1):
        prev = [()]
        for _ in range(k):
            prev = [p + (t,) for p in prev for t in TYPES]
        out += prev
    return out


def harnesses(tier):
    deep = tier == "thorough"

    def types(ch):
        """Every combination of parameter and column types."""
        mode = ch.pick("mode", ("ascii", "binary"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", tuples(2))
        ct = ch.pick("column types", tuples(3 if deep else 2))
        if not ct and not pt and mode == "ascii":
            return
        nr = ch.pick("rows", (2, 0, 1, 3)) if ct else 0
        shift = ch.pick("values", range(7 if deep else 2))
        save_and_compare(ch, pt, ct, nr, mode, buffer, shift)

    def sources(ch):
        """Every way the caller can hold the data; deviations from one mixed file, any three at a time."""
        mode = ch.pick("mode", ("ascii", "binary"), dev=False)
        buffer = ch.pick("buffer", (True, False), dev=False)
        pt = ch.pick("parameter types", (("double", "long"), ("short", "double", "long"), ("string", "short"), ()))
        ct = ch.pick("column types", (("double", "long"), ("short", "double", "string"), ("long",), ("double",),
                                      ("string", "string"), ("short", "short", "double", "long")))
        nr = ch.pick("rows", (2, 1, 3, 0, 7, 10, 50, 256))
        shift = ch.pick("values", range(7))
        pkind = ch.pick("parameter given as", ("python", "numpy scalar", "0-d array"))
        ckind = ch.pick("column given as", KINDS)
        fixed = ch.pick("fixed parameter", (None,) + tuple(range(len(pt))))
        save_and_compare(ch, pt, ct, nr, mode, buffer, shift, pkind, ckind, fixed)

    def special(ch):
        """Extreme doubles in every position."""
        mode = ch.pick("mode", ("ascii", "binary"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", (("double",), ("long", "double"), ()))
        ct = ch.pick("column types", (("double",), ("double", "double"), ("double", "long"), ("short", "double")))
        nr = ch.pick("rows", (1, 2, 7))
        shift = ch.pick("values", range(7))
        save_and_compare(ch, pt, ct, nr, mode, buffer, shift, values={"double": SPECIAL})

    def rowcounts(ch):
        """Row counts around every byte boundary of the binary row count that the format makes special."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt = ch.pick("parameter types", ((), ("double",), ("long",)))
        ct = ch.pick("column types", (("long",), ("double",), ("double", "short")))
        nr = ch.pick("rows", (9, 10, 11, 13, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 512, 513, 999, 1000, 1001, 1024, 1025, 2559,
                             2560, 2570, 2571, 2815, 2816, 3338, 4095, 4096, 4097, 8192, 8193) +
                     ((10000, 10001, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65546, 100001) if len(pt) + len(ct) == 1 else ())
                     if mode == "binary" else (9, 10, 11, 32, 64, 65, 100, 101, 128, 129, 257, 300, 1000, 1001) + ((1025, 4097) if not pt else ()))
        save_and_compare(ch, pt, ct, nr, mode, buffer, 0)

    def sequences(ch):
        """All operation sequences on one writer; every save must reflect exactly what was created so far."""
        from rsbeams.rsdata.SDDS import writeSDDS
        w = writeSDDS()
        params, pv, cols, data = [], [], [], []
        rows = ch.pick("rows", (2, 1))
        saved = 0
        for step in range(5 if deep else 4):
            op = ch.pick("op%d" % step, ("save ascii", "save binary", "double column", "long column", "short parameter",
                                        "double parameter", "string parameter"))
            n = len(params) + len(cols)
            if op.endswith("column"):
                t = op.split()[0]
                d = [VALUES[t][(n + k) % 7] for k in range(rows)]
                w.create_column("c%d" % n, np.array(d), t)
                cols.append(("c%d" % n, t))
                data.append(d)
            elif op.endswith("parameter"):
                t = op.split()[0]
                v = VALUES[t][n % 7]
                w.create_parameter("p%d" % n, v, t)
                params.append(("p%d" % n, t))
                pv.append(v)
            else:
                if not params and not cols:
                    continue
                name = ch.pick("file%d" % step, ("a.sdds", "b.sdds"))
                w.save_sdds(name, dataMode=op.split()[1])
                r = load(name, ch.pick("buffer%d" % step, (True, False)))
                check_tables(r, params, cols, [(pv, [[c[k] for c in data] for k in range(rows)])])
                saved += 1
        ch.nontrivial = saved > 0
        ch.observe(saved, params, cols)

    def objects(ch):
        """Two writers used in turn, and readers of their files that are created and read in any order."""
        from rsbeams.rsdata.SDDS import readSDDS, writeSDDS
        ws = [writeSDDS(), writeSDDS()]
        state = [([], [], [], []), ([], [], [], [])]
        files, readers = {}, []
        rows = (2, 3)
        for step in range(6 if deep else 5):
            k = ch.pick("object%d" % step, (0, 1))
            op = ch.pick("op%d" % step, ("column", "parameter", "save ascii", "save binary", "open", "read"))
            params, pv, cols, data = state[k]
            n = len(params) + len(cols)
            if op == "column":
                t = ("double", "long", "short", "string")[(n + k) % 4]
                d = [VALUES[t][(n + 3 * k + j) % 7] for j in range(rows[k])]
                ws[k].create_column("c%d" % n, np.array(d), t)
                cols.append(("c%d" % n, t))
                data.append(d)
            elif op == "parameter":
                t = ("long", "double", "string")[(n + k) % 3]
                v = VALUES[t][(n + k) % 7]
                ws[k].create_parameter("p%d" % n, v, t)
                params.append(("p%d" % n, t))
                pv.append(v)
            elif op.startswith("save"):
                if not params and not cols:
                    return
                ws[k].save_sdds("f%d.sdds" % step, dataMode=op.split()[1])
                files[k] = ("f%d.sdds" % step, list(params), list(cols), [(list(pv), [[c[i] for c in data] for i in range(rows[k] if cols else 0)])])
            elif k not in files:
                return
            elif op == "open":
                readers.append((readSDDS(files[k][0], buffer=ch.pick("buffer%d" % step, (True, False))), files[k][1:], []))
            else:
                todo = [r for r in readers if not r[2]]
                if len(todo) <= k:
                    return
                todo[k][0].read()
                todo[k][2].append(1)
        for r, _want, done in readers:
            if not done:
                r.read()
        for r, want, _done in readers:
            check_tables(r, *want)
        for k in files:
            ch.nontrivial = True
            for buffer in (True, False):
                check_tables(load(files[k][0], buffer), *files[k][1:])
        ch.observe(state, len(readers))

    def strings(ch):
        """Strings of any content (text mode: bare words) and length in every position."""
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        values = ["", "a", "two words", "x" * 100, 'a "quote", \'b\' !', "é" * 50, " blank ", "tab\t", "line\n", "\r\n", " ", "\\", "a\0b"]
        if mode == "ascii":
            values = ["a", "x" * 100, "é" * 50, "b,c", "1.5", "'", "#&end"]
        pt = ch.pick("parameter types", ((), ("string",), ("string", "string"), ("long", "string", "double"), ("string", "double", "string", "string")))
        ct = ch.pick("column types", (("string",), ("string", "string"), ("double", "string"), ("string", "short"), (),
                                      ("string", "string", "string", "string"), ("string", "double", "string", "long", "string", "string")))
        if mode == "ascii" and not pt and not ct:
            return
        nr = ch.pick("rows", (2, 1, 3, 9)) if ct else 0
        shift = ch.pick("values", range(len(values)))
        save_and_compare(ch, pt, ct, nr, mode, buffer, shift, values={"string": values})

    def bare(ch):
        """Every bare word of one and two (thorough: three) printable characters, as column and as parameter, in both modes."""
        from rsbeams.rsdata.SDDS import writeSDDS
        signs = [chr(i) for i in range(33, 127) if chr(i) not in "\"'!"] + ["\u00e9", "\u0416"]
        first = ch.pick("first", signs, dev=False) + (ch.pick("second", signs, dev=False) if deep else "")
        mode, buffer = ch.pick("mode", ("ascii", "binary"), dev=False), ch.pick("buffer", (True, False), dev=False)
        words = list(dict.fromkeys([first[:1], first] + [first + c for c in signs]))
        w = writeSDDS()
        for i, s in enumerate(words):
            w.create_parameter("p%d" % i, s, "string")
        w.create_column("n", np.arange(len(words)), "long")
        w.create_column("s", words, "string")
        w.create_column("t", np.array(words[::-1]), "string")
        w.save_sdds("f.sdds", dataMode=mode)
        check_tables(load("f.sdds", buffer), [("p%d" % i, "string") for i in range(len(words))], [("n", "long"), ("s", "string"), ("t", "string")],
                     [(words, [[i, words[i], words[-1 - i]] for i in range(len(words))])])
        ch.observe(first, mode)

    def words(ch):
        """Known findings: strings that are not bare words in text mode."""
        where, buffer = ch.pick("where", ("column", "parameter")), ch.pick("buffer", (True, False))
        from rsbeams.rsdata.SDDS import writeSDDS
        s = ch.pick("string", ("two words",) if where == "column" else ("left!right", ""))
        w = writeSDDS()
        if where == "parameter":
            w.create_parameter("p", s, "string")
            w.create_parameter("q", "next", "string")
        w.create_column("x", [1.0, 2.0], "double")
        if where == "column":
            w.create_column("t", [s, "b"], "string")
        w.save_sdds("f.sdds")
        try:
            r = load("f.sdds", buffer)
        except ValueError as e:
            require(False, "text %s with a string that is not a bare word" % where, written=s, raised=e)
        got = np.ravel(r.parameters["p"] if where == "parameter" else r.columns["t"])[0]
        require(equal("string", got, s), "text %s with a string that is not a bare word" % where, written=s, read=got)

    return [Harness("types", types), Harness("sources", sources, bound=4 if deep else 3), Harness("special", special),
            Harness("rowcounts", rowcounts), Harness("sequences", sequences, bound=None if deep else 5), Harness("objects", objects), Harness("strings", strings), Harness("bare", bare, timeout=60),
            Harness("words", words)]
