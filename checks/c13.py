"""C13: element definitions of elegant lattice files: names, types, parameters, RPN variables, comments, continuation."""
import itertools
import math
import re

from mc.core import Harness, require

PI = math.pi
# text of a value -> expected value
NUM = (("0.5", 0.5), ("2", 2.0), ("-1.25", -1.25), ("1e-3", 1e-3), ("-2.5E+02", -250.0), (".5", 0.5), ("0", 0.0), ("+3", 3.0),
       ("1.", 1.0), ("-1.2345678901234567e-05", -1.2345678901234567e-05), ("0.0000000000000000000000000000125", 1.25e-29),
       ("123456789012345678901234", 123456789012345678901234.0))
RPN = (('"1 2 +"', 3.0), ('"10 4 -"', 6.0), ('"3 4 *"', 12.0), ('"1 8 /"', 0.125), ('"3 4 mult"', 12.0), ('"2 sqrt"', math.sqrt(2)),
       ('"pi"', PI), ('"pi 2 /"', PI / 2), ('"pi 180 / 45 *"', PI / 4), ('"1 2 + 3 4 + *"', 21.0), ('"8 2 3 * -"', 2.0),
       ('"100 4 / 5 /"', 5.0), ('" 1  2 + "', 3.0), ('"-1 -2 -"', 1.0), ('"1e-3 2 *"', 2e-3), ('"2 16 sqrt * sqrt"', math.sqrt(8)))
STR = (('"%s.w1"', "%s.w1"), ("file.txt", "file.txt"), ('"coord"', "coord"), ("exact", "exact"), ('"pipe.w2"', "pipe.w2"),
       ("parameters", "parameters"), ('"a b"', "a b"), ("l1", "l1"), ("1file", "1file"), ('"a,b"', "a,b"), ('"x:y"', "x:y"),
       ('"k=1,l=2"', "k=1,l=2"), ('""', ""), ('"-"', "-"), ("pipe", "pipe"), ("4pi", "4pi"), ('"pi1"', "pi1"), ("1_2", "1_2"), ('"nan"', "nan"), ("inf", "inf"), ('"-Infinity"', "-Infinity"), ('"q1: drif, l=3"', "q1: drif, l=3"))
# definitions of variables: lines, then (use, value)
VARS = (("% 0.5 sto ld", (("ld", 0.5), ('"ld"', 0.5), ('"ld 2 *"', 1.0), ('"2 ld * ld +"', 1.5))),
        ("% 1.5 sto k1\n% k1 2 / sto k2\n% k1 k2 + sto k12", (("k1", 1.5), ("k2", 0.75), ("k12", 2.25), ('"k12 k1 -"', 0.75),
                                                            ('"k1 sqrt"', math.sqrt(1.5)), ('"k2 k12 *"', 1.6875))),
        ("% pi 4 / sto ang", (("ang", PI / 4), ('"ang -1 *"', -PI / 4), ('"ang pi +"', 1.25 * PI))),
        ("%  2   3  +  sto  five", (("five", 5.0), ('"five 1 -"', 4.0))),
        ("% 0.75 sto lpipe\n% 2 sto pi2\n% lpipe pi2 * sto pipe", (("lpipe", 0.75), ("pi2", 2.0), ('"pipe"', 1.5),
                                                                   ('"pi pi2 * pipe +"', 2 * PI + 1.5))),
        ("% 3 sto sqrt2\n% 5 sto multi", (("sqrt2", 3.0), ('"multi sqrt2 mult"', 15.0), ('"sqrt2 sqrt"', math.sqrt(3)))),
        ("%1 sto x 2 sto y", (("x", 1.0), ("y", 2.0), ('"y x -"', 1.0))),
        ("% 2 sto a a * sto b   b 1 + sto  c", (("a", 2.0), ("b", 4.0), ('"c b *"', 20.0))),
        ("% 3 sto t\n%t t * sto u\n% 0.5 sto t", (("t", 0.5), ("u", 9.0), ('"t u *"', 4.5))),
        ("% 1 3 / -1e-5 * sto third\n% 1.2345678901234567e-10 sto small_number_with_a_long_name\n% third third * sto q",
         (("third", 1 / 3 * -1e-5), ('"third small_number_with_a_long_name /"', 1 / 3 * -1e-5 / 1.2345678901234567e-10), ("q", (1 / 3 * -1e-5) ** 2))),
        ("% -0.25 sto x1\n% 4 sto x", (("x1", -0.25), ("x", 4.0), ('"x x1 *"', -1.0), ('"x1 x /"', -0.0625))))
TYPES = ("QUAD", "drif", "CsBend", "MARK", "RFCA")
NAMES = ("q1", "Q1", '"q-1"', "Q.A_1", '"Q10"', '"q:1"')
KEYS = ("L", "k1", "N_KICKS", "FILENAME", "E1")


def close(got, want):
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    return not isinstance(got, str) and (float(got) == want or abs(float(got) - want) <= 1e-12 * abs(want))


def fold(ch, s, label):
    """Continue a definition on the next line."""
    how = ch.pick(label, ("one line", "& after comma", "&, indented", "& and blanks", "& after =", "every comma", "& inside RPN"))
    if how == "one line" or "," not in s:
        return s
    if how == "& inside RPN":
        # behind a blank inside of a quoted text (the blanks at the start of the next line do not count)
        return re.sub('"[^"]*[^" ] [^"]*"', lambda m: re.sub(r"(?<=[^ ]) (?=[^ ])", " &\n", m[0], count=1), s)
    if how == "& after =" and "=" in s:
        i = s.index("=") + 1
        return s[:i] + "&\n" + s[i:]
    i = s.index(",") + 1
    if how == "every comma":
        return "".join(x if x[0] == '"' else x.replace(",", ",&\n") for x in re.findall('"[^"]*"|[^"]+', s))
    return s[:i] + {"& after comma": "&\n", "&, indented": " &\n    ", "& and blanks": "&  \n"}.get(how, "&\n") + s[i:]


def define(name, typ, params, sep, eq, colon=": "):
    return name + colon + typ + "".join(sep + k + eq + v for k, v in params)


def parse(ch, text, line="Cell"):
    from rsbeams.rslattice.lte_parser import BeamlineParser
    with open("f.lte", "w") as f:
        f.write(text)
    return BeamlineParser("f.lte", line)()


def compare(line, want, text):
    got = list(line.get_beamline_elements())
    require([e.name for e in got] == [w[0] for w in want], "names", got=[e.name for e in got], file=text)
    for e, (n, t, p) in zip(got, want):
        require(e.type == t.lower(), "type of %s" % n, got=e.type, want=t, file=text)
        require(set(e.parameters) == {k.lower() for k in p}, "parameters of %s" % n, got=dict(e.parameters), want=p,
                file=text)
        for k, v in p.items():
            require(close(e.parameters[k], v), "parameter %s of %s" % (k, n), got=e.parameters[k], want=v, file=text)


def bare(name):
    return name.strip('"').lower()


def expected_string(v):
    return v.lower() if isinstance(v, str) else v      # the parser reads everything in lower case


def harnesses(tier):
    deep = tier == "thorough"

    def values(ch):
        n = ch.pick("parameters", (1, 2, 3) if deep else (1, 2), dev=False)
        pool = NUM + RPN + STR
        params = []
        for i in range(n):
            params.append((KEYS[i], ch.pick("value %d" % i, pool if i < 1 and n < 3 or deep and n == 2 else pool[::4 if n > 2 else 3],
                                           dev=False)))
        sep = ch.pick("separator", (",", ", ", " , ", "\t,\t"))
        eq = ch.pick("equals", ("=", " = ", "= ", "\t=\t"))
        name, typ = ch.pick("name", NAMES), ch.pick("type", TYPES)
        end = ch.pick("end", ("\n", " \n", " ! comment, L=3\n", "!x\n", "\n! l=7\n", " ! a ! b\n", "!!\n", "  !! L=4 ! &\n"))
        d = fold(ch, define(name, typ, [(k, v[0]) for k, v in params], sep, eq, ch.pick("colon", (": ", ":", " : "))), "fold")
        text = "before: MARK\n" + d + end + "after: DRIF, L=1\nCell: LINE=(%s,after)\n" % name
        compare(parse(ch, text), [(bare(name), typ, {k: expected_string(v[1]) for k, v in params}),
                                  ("after", "drif", {"l": 1.0})], text)
        ch.observe(text)

    def layout(ch):
        """Several elements, comments and blank lines anywhere, variables before or after."""
        defs = []
        want = []
        for i in range(3):
            k = ch.pick("parameters %d" % i, (2, 0, 1, 3))
            ps = [(KEYS[j], (NUM + STR[:1])[(i * 3 + j * 2) % 10]) for j in range(k)]
            nm = ("q1", "q10", "q")[i]
            if ch.flag("quoted %d" % i):
                nm = '"%s"' % nm
            d = define(nm, TYPES[i], [(a, v[0]) for a, v in ps], ch.pick("separator %d" % i, (",", ", ")), "=")
            defs.append(fold(ch, d, "fold %d" % i) + ch.pick("end %d" % i, ("", " ", "!", " ! x: y=1, z=2 &", "\n\n", " ! x ! y: l=2")))
            want.append((bare(nm), TYPES[i], {a: expected_string(v[1]) for a, v in ps}))
        between = ch.pick("between", (None, "", "!", "! q1: DRIF, L=77", "   ! L=1 &", "  \t "))
        order = ch.pick("order", ((0, 1, 2), (2, 1, 0), (1, 0, 2)))
        line = ch.pick("line", ("Cell: LINE=(q1,q10,q)", '"CELL": LINE=("q1",q10,"q")', "cell: line=(q1,&\nq10,&\nq)"))
        parts = [defs[i] for i in order]
        parts.insert(ch.pick("position of the line", (3, 0, 1)), line)
        out = []
        for p in parts:
            out += [between] if between is not None else []
            out.append(p)
        text = ch.pick("start", ("", "\n", "! title\n", "% 1 sto unused\n")) + "\n".join(out) + \
            ch.pick("eof", ("\n", "", "\n!", "\n! end\n", "\n\n"))
        if ch.flag("upper case"):
            text = text.upper()
        compare(parse(ch, text), want, text)
        ch.observe(text)

    def variables(ch):
        block, uses = ch.pick("definitions", VARS, dev=False)
        n = ch.pick("parameters", (1, 2), dev=False)
        params = [(KEYS[i], ch.pick("value %d" % i, uses + ((("3", 3.0), ('"1 2 *"', 2.0)) if i else ()), dev=False))
                  for i in range(n)]
        other = ch.pick("more definitions", (None,) + tuple(b for b, _u in VARS if b != block))
        where = ch.pick("definitions are", ("first", "after a comment", "with comments", "indented", "after the elements", "with tabs"))
        b = block
        if where == "with comments":
            b = b.replace("\n", " ! c\n") + " ! % 9 sto x"
        elif where == "indented":
            b = "  " + b.replace("\n", "\n  ")
        elif where == "after a comment":
            b = "! % 5 sto nothing\n\n" + b
        if where == "with tabs":
            b = b.replace(" ", "\t")
            params = [(k, (v[0].replace(" ", "\t"), v[1])) for k, v in params]
        if other:
            b = other + "\n" + b        # the later definition of a name counts
        d = define(ch.pick("name", ("q1", "x1", '"k2"', "L")), "quad", [(k, v[0]) for k, v in params],
                   ch.pick("separator", (",", ", ")), "=")
        name = bare(d.split(":")[0])
        el = fold(ch, d, "fold") + "\nCell: LINE=(%s)" % d.split(":")[0]
        text = (el + "\n" + b if where == "after the elements" else b + "\n" + el) + "\n"
        want = [(name, "quad", {k: v[1] for k, v in params})]
        if ch.flag("stored again"):
            # the values after the element count for later elements only
            stored = sorted(set(re.findall(r"sto\s+(\S+)", b)))
            known = {u: v for u, v in uses if u in stored}
            again = ch.pick("stored values", ("other", "opposite", "close", "zero"))
            values = {v: 70.5 + i if again == "other" or v not in known else
                      {"opposite": -known[v], "close": known[v] * (1 + 1e-6), "zero": 0.0}[again] for i, v in enumerate(stored)}
            text = (b + "\n" if where == "after the elements" else "") + text + \
                "".join("%% %r sto %s\n" % (values[v], v) for v in stored)
            text += "later: DRIF" + "".join(", p%d=%s" % (i, v) for i, v in enumerate(stored)) + "\n"
            text = text.replace("Cell: LINE=(", "Cell: LINE=(later,")
            want.insert(0, ("later", "drif", {"p%d" % i: values[v] for i, v in enumerate(stored)}))
        if ch.flag("upper case"):
            text = text.upper()
        compare(parse(ch, text), want, text)
        ch.observe(text)

    def texts(ch):
        """Every text of up to three (numbers: four, thorough: six) of the signs with a meaning in lattice files."""
        what = ch.pick("text of", ("value", "quoted value", "name", "key"), dev=False)
        signs = {"value": "1.e+-_ax", "quoted value": "a1,=:&%()*.e-_+ ", "name": "a1=:&%(,)*.e-_+b/[@#$;<?\\^{|~l", "key": "a1._l-"}[what]
        top = {"value": 6 if deep else 4, "quoted value": 4 if deep else 3, "name": 3 if deep else 2, "key": 4 if deep else 3}[what]
        n = ch.pick("signs", tuple(range(1, top + 1)), dev=False)
        head = ch.pick("first", tuple(signs), dev=False) + (ch.pick("second", tuple(signs), dev=False) if n > 1 else "")
        colon = ch.pick("colon", (": ", " : ", ":"), dev=False) if what == "name" else ": "
        total = 0
        number = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?")
        for rest in itertools.product(signs, repeat=max(n - 2, 0)):
            t = head + "".join(rest)
            if t != t.strip() or all(number.fullmatch(x) for x in t.split()) and " " in t:
                continue        # several numbers without an operator have no meaning
            total += 1
            name, key, value, given = "q", "f", "2", "2"
            if what == "name":
                name = t
            elif what == "key":
                if t in ("l", "k"):
                    continue
                key = t
            else:
                value = t
                given = '"%s"' % t if what == "quoted value" else t
            text = '%s%sQUAD, L=2, %s=%s, K=3\nd: DRIF\nCell: LINE=(d,%s,d)\n' % (
                ('"%s"' % name if what == "name" else name), colon, key, given, '"%s"' % name if what == "name" else name)
            v = float(value) if number.fullmatch(value) else value
            if name == "d":
                continue
            compare(parse(ch, text), [("d", "drif", {}), (name, "quad", {"l": 2.0, key: v, "k": 3.0}), ("d", "drif", {})], text)
        ch.observe((what, n, head, total))

    def rpn(ch):
        """Every RPN expression of up to five (thorough: seven) tokens that is well formed."""
        from rsbeams.rslattice.lte_parser import parse_rpn
        variables = {"a": 2.0, "ab": -0.5, "l1": 8.0}
        stack, toks = [], []
        for i in range(7 if deep else 5):
            opts = ["3", "-1.5", "a", "ab", "l1", "pi"]
            if stack and stack[-1] >= 0:
                opts.append("sqrt")
            if len(stack) > 1:
                opts += ["+", "-", "*", "mult"] + (["/"] if stack[-1] else [])
            if len(stack) == 1 and i:
                opts.append("end")
            t = ch.pick("token %d" % i, opts, dev=i > 4)
            if t == "end":
                break
            toks.append(t)
            if t == "sqrt":
                stack.append(math.sqrt(stack.pop()))
            elif t in "+-*/" or t == "mult":
                y, x = stack.pop(), stack.pop()
                stack.append({"+": x + y, "-": x - y, "*": x * y, "mult": x * y, "/": x / y if y else 0}[t])
            else:
                stack.append({"pi": PI, **variables}.get(t) if t in ("pi", "a", "ab", "l1") else float(t))
        if len(stack) != 1:
            ch.nontrivial = False
            return
        v = dict(variables)
        got = parse_rpn(" ".join(toks), v)
        require(abs(got - stack[0]) <= 1e-12 * max(1, abs(stack[0])), "value of %s" % " ".join(toks), got=got, want=stack[0])
        require(v == variables, "the variables are not changed")
        ch.observe(toks)

    return [Harness("values", values, bound=2 if deep else 1), Harness("layout", layout, bound=3 if deep else 2),
            Harness("variables", variables, bound=4 if deep else 2), Harness("rpn", rpn, bound=1),
            Harness("texts", texts, bound=1)]
