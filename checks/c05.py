"""C05: a file cut off at any byte is never returned as if it were complete, and never hangs the reader."""
from checks.c03 import build
from mc.core import Harness, require
from mc.sddslib import equal, load
import numpy as np

SHAPES = ((("long", "double"), ("double", "long")), ((), ("double",)), (("string",), ("string", "long")), (("short", "float"), ()),
          (("long",), ("string",)), (("long", "double", "string", "short", "string"), ("short",)))
ASSUMPTIONS = ["in ASCII the last token before the cut may itself be shortened unnoticeably; nothing else may"]


def harnesses(tier):
    deep = tier == "thorough"

    def cut(ch):
        mode = ch.pick("mode", ("binary", "ascii"))
        buffer = ch.pick("buffer", (True, False))
        pt, ct = ch.pick("shape", SHAPES)
        npages = ch.pick("pages", (2, 1, 3) if deep else (2,))
        nrows = ch.pick("rows", (2, 1, 3, 5, 9) if deep else (2, 1, 4, 7)) if ct else 0
        style = ch.pick("style", ("plain", "multiline", "tight") if deep else ("plain", "multiline"))
        s = build(pt, ct, npages, nrows, 1, mode, style=style, preamble="!# little-endian\n", description=True)
        head = len(s.header())
        ends = [head]
        for p in s.pages:
            ends.append(ends[-1] + len(s.page(*p)))
        data = s.encode()
        n = ch.pick("bytes kept", range(len(data)))
        with open("f.sdds", "wb") as f:
            f.write(data[:n])
        try:
            r = load("f.sdds", buffer)
        except Exception as e:
            complete = max(k for k, e_ in enumerate(ends) if e_ <= n) if n >= head else -1
            require(n not in ends, "a file that ends after page %d is refused" % complete, error=e)
            ch.observe(mode, pt, ct, "refused", n)
            return
        whole = sum(1 for e in ends[1:] if e <= n)
        params, columns = [("p%d" % i, t) for i, t in enumerate(pt)], [("c%d" % i, t) for i, t in enumerate(ct)]
        for kind, names in (("parameters", params), ("columns", columns)):
            for i, (name, t) in enumerate(names):
                table = getattr(r, kind)
                if table is None or table.dtype.names is None:
                    k = 0
                else:
                    k = len(table[name])
                limit = whole
                if mode == "ascii" and whole < npages:
                    limit += 1     # the cut may have hit the white space or the very last token of the page
                require(k <= limit, "%s of %d pages returned, only %d pages are complete" % (kind, k, whole), kept=n)
                require(k >= whole, "%d complete pages in the file but %d pages of %s returned" % (whole, k, kind))
                for p in range(k):
                    got = np.ravel(table[name][p])
                    want = [s.pages[p][0][i]] if kind == "parameters" else [row[i] for row in s.pages[p][1]]
                    require(got.size == len(want), "page %d of %r has %d entries, not %d" % (p, name, got.size, len(want)),
                            kept=n)
                    for j in range(len(want)):
                        last = p == whole and i == len(names) - 1 and j == len(want) - 1
                        require(last or equal(t, got[j], want[j]), "page %d of %r, entry %d" % (p, name, j), got=got[j],
                                written=want[j], kept=n)
        ch.observe(mode, pt, ct, "read", whole)

    return [Harness("cut", cut, timeout=5)]
