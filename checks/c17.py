"""C17: NonlinearInsert.  Oracle: the beta function of a field-free drift whose phase advance is the given one."""
import math
import re

import numpy as np

from mc.core import Harness, require


def beta_at(s, L, mu):
    waist = L / (2 * abs(math.tan(math.pi * mu)))
    return waist + (s - L / 2) ** 2 / waist


def check(ins, m):
    L, mu, t, c, n = m["length"], m["phase"], m["t"], m["c"], m["num_slices"]
    ds = L / n
    s = [(i + 0.5) * ds for i in range(n)]
    b = [beta_at(x, L, mu) for x in s]
    kn = [t * ds * c ** 2 / x for x in b]
    cn = [c * math.sqrt(x) for x in b]

    def cmp(name, got, want):
        g = np.asarray(got, dtype=float)
        require(g.shape == (len(want),), "number of " + name, got=g.shape, want=len(want))
        require(all(abs(x - y) <= 1e-9 * max(abs(y), 1e-300) + 1e-15 * (name == "s_vals") for x, y in zip(g, want)), name,
                got=g, want=want, parameters=m)
    cmp("s_vals", ins.s_vals, s)
    cmp("betas", ins.betas, b)
    cmp("knll", ins.knll, kn)
    cmp("cnll", ins.cnll, cn)
    cmp("beta0", [ins.beta0], [beta_at(0.0, L, mu)])
    out = ins.create_madx()
    require(len(out) == n, "one MAD-X element per slice", got=len(out), want=n)
    for i, line in enumerate(out):
        r = re.fullmatch(r"\s*nllens\s*,\s*knll\s*=\s*(\S+)\s*,\s*cnll\s*=\s*(\S+?)\s*;\s*", line)
        require(r, "MAD-X element", got=line)
        require(float(r.group(1)) == float(ins.knll[i]) and float(r.group(2)) == float(ins.cnll[i]),
                "MAD-X element %d has the values of slice %d" % (i, i), got=line)
    for name, v in m.items():
        require(getattr(ins, name) == v, "attribute " + name, got=getattr(ins, name), want=v)


VALUES = {"length": (1.8, 0.5, 10, 0.7), "phase": (0.3, 0.1, 0.45, 0.7, 0.999), "t": (0.1, 0.45, 0, -0.2), "c": (0.01, 0.009, 1.0, 4),
          "num_slices": (20, 1, 2, 3, 7, 49, 100, 1000)}


def harnesses(tier):
    deep = tier == "thorough"

    def histories(ch):
        from rsbeams.rslattice.nonlinear import NonlinearInsert
        m = {k: ch.pick(k, v) for k, v in VALUES.items()}
        if ch.flag("defaults"):
            ins = NonlinearInsert(m["length"], m["phase"])
            m.update(t=0.1, c=0.01, num_slices=20)
        else:
            ins = NonlinearInsert(m["length"], m["phase"], m["t"], m["c"], m["num_slices"])
        second = NonlinearInsert(2.5, 0.2, c=0.5)
        second.generate_sequence()
        kept = [second.knll.copy(), second.cnll.copy()]
        ins.generate_sequence()
        check(ins, m)
        for step in range(3 if deep else 2):
            what = ch.pick("change %d" % step, ("nothing",) + tuple(VALUES) + ("negative c",), dev=False)
            if what == "negative c":
                try:
                    ins.c = -0.5
                except ValueError:
                    pass
                else:
                    require(False, "a negative aperture is accepted")
                try:
                    NonlinearInsert(m["length"], m["phase"], c=-0.5)
                except ValueError:
                    pass
                else:
                    require(False, "a negative aperture is accepted from the start")
            elif what != "nothing":
                m[what] = ch.pick("to %d" % step, VALUES[what][::-1], dev=False)
                setattr(ins, what, m[what])
            # until it is generated again, the list is the one of the generated values
            out = ins.create_madx()
            require(len(out) == len(ins.knll) and all(float(x) == float(k) for x, k in zip(
                [re.search(r"knll\s*=\s*([^\s,]+)", o).group(1) for o in out], ins.knll)), "MAD-X list before it is generated again",
                got=out, want=ins.knll)
            for _ in range(1 + ch.flag("generate twice %d" % step)):
                ins.generate_sequence()
            check(ins, m)
        require(np.array_equal(kept[0], second.knll) and np.array_equal(kept[1], second.cnll),
                "another insert was changed")
        ch.observe(m, ins.knll.tolist())

    def grid(ch):
        from rsbeams.rslattice.nonlinear import NonlinearInsert
        m = {k: ch.pick(k, v, dev=False) for k, v in VALUES.items()}
        ins = NonlinearInsert(m["length"], m["phase"], t=m["t"], c=m["c"], num_slices=m["num_slices"])
        ins.generate_sequence()
        check(ins, m)
        ch.observe(m, ins.knll.tolist())

    return [Harness("histories", histories, bound=2 if deep else 1), Harness("grid", grid)]
