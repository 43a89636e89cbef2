"""Generates operations (inputs only) for the real code; the specification judges what comes back."""
import itertools
import random
import re

NAMES = ["a", "b", "c", "a_", "ab", "abc", "x_y", "_", "__", "k", "d", "save_roll", "burning_arch_damage", "z"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
LOGIC = ["AND", "OR"]
ARITH = ["+", "-", "*", "//"]
MM = ["MIN", "MAX"]
ALL_BIN = ARITH + CMP + LOGIC + MM


def prec(op):
    if op in ("+", "-"):
        return 1
    if op in ("*", "//"):
        return 2
    return 3


class E:
    """an expression with a conservative range and number of outcomes"""

    __slots__ = ("kind", "text", "lo", "hi", "n", "p", "reads", "zero", "cons")

    def __init__(self, text, lo, hi, n, p=9, reads=frozenset(), zero=False, cons=False):
        self.text, self.lo, self.hi, self.n, self.p = text, lo, hi, n, p
        self.reads, self.zero, self.cons = reads, zero, cons


class Gen:
    def __init__(self, seed, tier="quick"):
        self.r = random.Random(seed)
        self.tier = tier

    # ------------------------------------------------------------ dice
    def entry(self, small=True):
        r = self.r
        lim = 6 if small else 40
        a = r.randint(-lim, lim)
        t = str(a)
        if r.random() < 0.4:
            b = a + r.randint(-4, 4)
            t += "-" + str(b)
        else:
            b = a
        m = 1
        if r.random() < 0.35:
            m = r.choice([0, 1, 2, 3, 3, 5, 10, 12])
            t += "*" + str(m)
        return t, (range(min(a, b), max(a, b) + 1) if m else ())

    def sides(self, small=True):
        """(text after the d, set of sides)"""
        r = self.r
        k = r.random()
        if k < 0.45:
            n = r.choice([1, 2, 3, 4, 5, 6, 6, 8] if small else [1, 2, 3, 4, 6, 8, 10, 12, 20])
            return str(n), set(range(1, n + 1))
        if k < 0.55:
            return "F", {-1, 0, 1}
        if k < 0.58 and not small:
            return "%", set(range(1, 101))
        while True:
            ents = [self.entry(small) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
            s = set()
            for _, e in ents:
                s |= set(e)
            if s and len(s) <= (9 if small else 30):
                break
        sep = r.choice([",", ",", ", ", " ,", " , "])
        text = "[" + r.choice(["", "", " "]) + sep.join(t for t, _ in ents) + r.choice(["", "", "", ",", " ", ", "]) + "]"
        return text, s

    def die(self, small=True, maxn=3, keep=None):
        r = self.r
        t, s = self.sides(small)
        n = r.choice([None, 0, 1, 1, 2, 2, 3][: 5 if maxn < 3 else 7])
        if maxn > 3:
            n = r.choice([None, 0] + list(range(1, maxn + 1)))
        cnt = 1 if n is None else n
        text = ("" if n is None else str(n)) + "d" + t
        summed = cnt
        if keep is None:
            keep = r.random() < 0.25
        if keep:
            m = r.randint(0, cnt + 1)
            if r.random() < 0.5:
                text += "k" + str(m)
                summed = min(m, cnt)
            else:
                text += "d" + str(m)
                summed = max(0, cnt - m)
        lo, hi = min(s) * summed, max(s) * summed
        return E(text, lo, hi, min(hi - lo + 1, max(1, len(s)) ** max(summed, 1)))

    def const(self, lim=12):
        r = self.r
        if r.random() < 0.08:
            b = r.random() < 0.5
            return E("True" if b else "False", int(b), int(b), 1, cons=True)
        v = r.randint(-lim, lim) if r.random() < 0.9 else r.choice([0, 0, 1, 100, 255, -100])
        return E(str(v), v, v, 1, cons=True)

    # ------------------------------------------------------------ expressions
    def wrap(self, e, need):
        if e.p < need or (e.p == 9 and self.r.random() < 0.06):
            return "(" + self.r.choice(["", "", " "]) + e.text + self.r.choice(["", "", " "]) + ")"
        return e.text

    def binary(self, op, x, y):
        sp = lambda: self.r.choice([" ", " ", " ", "  "])  # noqa: E731
        reads = x.reads | y.reads
        zero = x.zero or y.zero
        cs = x.cons and y.cons
        if op in MM:
            f = max if op == "MAX" else min
            lo, hi = f(x.lo, y.lo), f(x.hi, y.hi)
            c = self.r.choice([", ", ",", " , "])
            return E(op + self.r.choice(["(", "(", " ("]) + x.text + c + y.text + ")", lo, hi,
                     min(hi - lo + 1, x.n + y.n), 9, reads, zero, cs)
        p = prec(op)
        text = self.wrap(x, p) + sp() + op + sp() + self.wrap(y, p + 1)
        if op == "+":
            lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == "-":
            lo, hi = x.lo - y.hi, x.hi - y.lo
        elif op == "*":
            c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            lo, hi = min(c), max(c)
        elif op == "//":
            m = max(abs(x.lo), abs(x.hi))
            lo, hi = -m - 1, m
            zero = zero or (y.lo <= 0 <= y.hi)
        else:
            lo, hi = 0, 1
        return E(text, lo, hi, min(hi - lo + 1, x.n * y.n), p, reads, zero, cs)

    def unary(self, op, x):
        if op == "!":
            return E("!" + self.r.choice(["", "", " "]) + x.text, 0, 1, min(2, x.n), 0, x.reads, x.zero, x.cons)
        if op == "ABS":
            hi = max(abs(x.lo), abs(x.hi))
            return E("ABS" + self.r.choice(["(", "(", " (", "( "]) + x.text + ")", 0, hi, x.n, 9, x.reads, x.zero, x.cons)
        return E("(" + x.text + ")", x.lo, x.hi, x.n, 9, x.reads, x.zero, x.cons)

    def expr(self, depth, env=None, ops=None, maxn=40, names_p=0.5, div=True, dice=True, lim=12):
        """env: name -> E of its value"""
        r = self.r
        for _ in range(60):
            e = self._expr(depth, env or {}, ops or ALL_BIN, names_p, dice, lim)
            if e.n <= maxn and abs(e.lo) < 200000 and abs(e.hi) < 200000 and (div or not e.zero):
                return e
        return self.const(lim)

    def _expr(self, depth, env, ops, names_p, dice, lim):
        r = self.r
        if depth == 0 or r.random() < 0.15:
            if env and r.random() < names_p:
                n = r.choice(sorted(env))
                e = env[n]
                return E(n, e.lo, e.hi, e.n, 9, frozenset([n]))
            if dice and r.random() < 0.75:
                return self.die()
            return self.const(lim)
        k = r.random()
        if k < 0.1:
            return self.unary("!", self._expr(depth - 1, env, ops, names_p, dice, lim))
        if k < 0.2:
            return self.unary("ABS", self._expr(depth - 1, env, ops, names_p, dice, lim))
        if k < 0.26:
            return self.unary("(", self._expr(depth - 1, env, ops, names_p, dice, lim))
        op = r.choice(ops)
        return self.binary(op, self._expr(depth - 1, env, ops, names_p, dice, lim),
                           self._expr(depth - 1, env, ops, names_p, dice, lim))

    def assign(self, name, e):
        return "VAR " + name + self.r.choice([" = ", " = ", "=", "  =  "]) + e.text

    def program(self, nvars, depth=1, reuse=True, names=None, div=False, maxn=9, fdepth=2, ops=None, maxlines=None,
                dice=True, budget=400):
        """a list of lines assigning before reading; (lines, env)"""
        r = self.r
        names = names or r.sample(NAMES, min(len(NAMES), max(1, nvars)))
        env = {}
        lines = []
        size = 1
        for k in range(nvars):
            n = names[k % len(names)] if r.random() < 0.75 or not env else r.choice(sorted(env))
            for _ in range(20):
                e = self.expr(r.randint(0, depth), env if reuse else {}, maxn=maxn, div=div, ops=ops, dice=dice)
                if size * (e.n if not e.reads else max(1, e.n // 2)) <= budget:
                    break
            else:
                e = self.const()
            size *= e.n if not e.reads else 1
            lines.append(self.assign(n, e))
            env[n] = E(n, e.lo, e.hi, e.n, 9, frozenset([n]))
            if r.random() < 0.1:
                lines.append(self.expr(1, env, maxn=30, div=div, ops=ops, dice=dice).text)
        lines.append(self.expr(fdepth, env, maxn=60, names_p=0.8, div=div, ops=ops, dice=dice).text)
        return lines, env


CLOSE_NAMES = ["a", "a_", "_a", "a__", "__a", "aa", "ab", "ba", "_", "__", "___", "or", "and", "not", "or_x", "and_b", "var", "max", "min",
               "abs", "true", "false", "f", "d", "k", "dk", "stdout", "std_out", "result", "value", "self",
               "the_strength_of_the_first_one", "the_strength_of_the_first_two", "the_strength_of_the_second_one", "first_strength", "second_strength",
               "x" * 40, "x" * 41, "y" + "x" * 40]


def big_const(g):
    r = g.r
    k = r.random()
    if k < 0.2:
        v = r.choice([2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 64, 10 ** 16 + 1, 10 ** 20]) + r.randint(-2, 2)
    elif k < 0.6:
        v = r.randint(10 ** (r.randint(8, 32) - 1), 10 ** 33)
    else:
        v = r.randint(1, 10 ** r.randint(1, 18))
    return str(-v if r.random() < 0.4 else v)


def big_ops(g, n, qs):
    """expressions over numbers of any size"""
    r = g.r
    groups = []

    def atom():
        k = r.random()
        if k < 0.55:
            return big_const(g), 1
        if k < 0.8:
            return r.choice([("d3", 3), ("dF", 3), ("d[-2,5]", 2), ("2d2", 3), ("d2", 2)])
        return str(r.randint(-9, 9)), 1

    def expr(depth):
        if depth == 0:
            return atom()
        k = r.random()
        x, nx = expr(depth - 1)
        if k < 0.08:
            return "ABS(%s)" % x, nx
        if k < 0.12:
            return "!(%s)" % x, nx
        y, ny = expr(depth - 1 if r.random() < 0.5 else 0)
        op = r.choice(ARITH + ["//", "//"] + CMP + ["OR"] + MM)
        if op == "//" and r.random() < 0.6:
            y, ny = r.choice([big_const(g), str(r.choice([-7, -3, -1, 2, 3, 10]))]), 1
        t = "%s(%s, %s)" % (op, x, y) if op in MM else "(%s) %s (%s)" % (x, op, y)
        return t, nx * ny

    fixed = ["9007199254740993 // 1", "-9007199254740993 // 2", "10000000000000001 // 3", "-10000000000000001 // 3",
             "9223372036854775808 * -1", "ABS(-18446744073709551617)", "9007199254740993 == 9007199254740992",
             "9007199254740993 > 9007199254740992", "MAX(9007199254740993, 9007199254740992)",
             "MIN(-9007199254740993, -9007199254740992)", "!-99999999999999999999", "99999999999999999999 OR 0",
             "(d2 * 10000000000) * (d2 * 10000000000)", "(10000000000000000000000 + d2) // d[3,7]",
             "123456789123456789123456789 - 123456789123456789123456788", "2147483648 - 1", "-2147483649 + d2",
             "4294967296 // 65536", "99999999999999999999 // -7", "1 // 99999999999999999999", "-1 // 99999999999999999999",
             "9007199254740993 != 9007199254740992", "9007199254740992 >= 9007199254740993", "5 // (4294967296 - 4294967296)"]
    for t in fixed:
        for q in qs:
            groups.append([{"ev": "big", "q": q, "lines": [t], "rseed": r.randint(0, 10 ** 6)}])
    for _ in range(n):
        t, m = expr(r.choice([1, 2, 2, 3]))
        if m > 60:
            continue
        lines = [t]
        if r.random() < 0.3:
            lines = ["VAR a = " + t, r.choice(["a", "a + 1", "(a) // 3", "ABS(a)", "MAX(a, 5)", "a * 12345678901"])]
        groups.append([{"ev": "big", "q": r.choice(qs), "lines": lines, "rseed": r.randint(0, 10 ** 6)}])
    return groups


def pad(g, text):
    """the same text with zeros before some numbers"""
    return re.sub(r"(?<![0-9])[0-9]+", lambda m: g.r.choice(["", "", "0", "0", "00", "0" * 5]) + m.group(), text)


def padded(g, groups, n):
    """some of the groups again, their numbers written with zeros before them"""
    again = [x for x in groups if all("lines" in op for op in x)]
    return [[dict(op, lines=[pad(g, t) for t in op["lines"]]) for op in x] for x in g.r.sample(again, min(n, len(again)))]


ALIKE = [["d[1,12]", "d[11,2]", "d[112]", "d[1-12]", "d[1*12]", "d[-1,12]", "d[1,-12]", "d[1--12]", "d[1, 12]", "d[12,1]", "d[12-1]", "d[-12-1]", "d[-1--12]"],
         ["d[1,1,2]", "d[1,2,1]", "d[2,1,1]", "d[1*2,1]", "d[1,2*1]", "d[1,2]", "d[2,1]", "d[1*2,2]", "d[1,2*2]", "d[1-2]", "d[1-2*2]", "d[1,1*2]", "d2", "1d2", "2d1", "12d1"],
         ["2d6", "2d06", "02d6", "d26", "d6", "2d6k1", "2d6d1", "2d6k2", "2d6d0", "2d61", "2d[6]", "2d[1-6]", "2d[6]k1", "6d2", "6d2k1", "2d6k0", "2d6d2"],
         ["3d2k1", "3d2d1", "3d21", "3d2k11", "d2", "3d2", "3d2k0", "3d2d0", "3d[2]k1", "d[2]", "3d[2,1]k1", "3d[1,2]k1", "3d[1,2]d1", "3d[2,1]d1", "3d2k2", "3d2d2"],
         ["dF", "3dF", "3d3", "d%", "d100", "d[1-100]", "d[-1-1]", "d[-1,0,1]", "d[-1,1]", "d[0,1]", "d[1,0,-1]", "d[-1*2,0,1]", "3dFk1", "3dFd1", "3d3k1"]]


def alike(g, text):
    """texts with nearly the characters of this one"""
    r = g.r
    out = ["".join(text.split()), text.lower(), text.replace("(", "").replace(")", ""), " ".join(text), text.replace(" ", "  "), text.replace("//", "/ /"),
           "(" + text + ")", text.replace("-", "- "), text.replace(" ", "", 1), text + " ", text.replace("=", " ="), "".join(sorted(text)), text[::-1]]
    k = r.randrange(len(text))
    return r.sample(out, 4) + [text[:k] + " " + text[k:], text[:k] + text[k + 1:]]


def call(q, lines, i=1, fresh=True, **kw):
    d = {"ev": "call", "q": q, "lines": lines, "i": i}
    if fresh:
        d["fresh"] = 1
    d.update(kw)
    return d


# ================================================================ C01
def literal_ops(lit, q="dist"):
    return [call(q, [lit])]


def gen_c01(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    lits = []
    ns = ["", "0", "1", "2", "3", "4", "5", "7", "10"]
    for n in ns:
        for s in ["1", "2", "3", "4", "6", "8", "10", "12", "20", "F"]:
            lits.append(n + "d" + s)
    lits += ["d%", "1d%", "2d%", "0d%", "3d%", "20d6", "15dF", "30dF", "40d2", "12d12", "d100", "2d100", "d1000",
             "01d06", "002d3", "d007", "100d1", "25d[-1,1]", "9d[0]", "6d[5*3]", "d[1-100]"]
    # the documented examples and the corners of the side list
    lits += ["2d[1,1,2,3,5,8]", "d[1,2,3,4,5]", "d[1-5]", "d[-5,-4,-3,-2]", "d[-5--2]", "d[-2--5]",
             "d[1,1,1,1,1,1,1,8]", "d[1*7, 8]", "d[1,1,1,2,2,3,3,4]", "d[1-3*2,1,4]", "d[1,2,]", "d[ 1 , 2 , ]",
             "d[5-1]", "d[3--2]", "d[-3-2]", "d[2--2*3]", "d[-2-2*3,0*4]", "d[0]", "d[-7]", "d[-7*2]", "d[10--10]",
             "d[0-0]", "d[-0]", "d[-0-3]", "d[1*0,2]", "d[1-3*0,2-4]", "d[1*1]", "d[007,08-010*02]", "d[1*10]",
             "d[11-13*11]", "d[100,-100]", "d[1-1]", "d[-1--1]", "3d[1-2,2-3]", "2d[-3--1*2,4,4*3]",
             "d[\t1,\t2]", "d[1,2 ,3]", "d[99-101]", "d[1,1*2,1-1*3]", "d[2*2,3*3,2*2]"]
    # many dice, many sides, long lists, every blank character, long numbers
    for n in list(range(6, 22)) + [24, 31, 32, 33, 48, 63, 64, 65, 100]:
        lits.append("%dd%s" % (n, r.choice(["2", "F", "[-1,1*2]", "[0,1]"])))
        if n <= 21:
            lits.append("%dd%s" % (n, r.choice(["3", "4", "[-2,0,5]", "[1-3*2,7]"])))
    lits += ["d%d" % k for k in (7, 9, 11, 13, 16, 24, 30, 50, 64, 99, 101, 127, 128, 144, 200, 255, 256, 300, 500)]
    # no number of dice or sides is special
    for n in range(22, 41):
        lits.append("%dd%s" % (n, r.choice(["2", "F", "[0,3]", "[-1*2,1]"])))
    for n in (50, 80, 127, 128, 129, 150, 200, 255, 256, 257):
        lits.append("%dd2" % n)
    lits += ["d%d" % k for k in range(14, 131)]
    lits += ["2d%d" % k for k in (7, 9, 11, 13, 14, 15, 16, 17, 18, 19, 21, 31, 32, 33)]
    lits += ["d[%s]" % ",".join(str(r.randint(-9, 99)) for _ in range(k)) for k in range(10, 41, 3)]
    for _ in range(60 if tier == "quick" else 600):      # long lists in any order
        ents = [g.entry(small=False) for _ in range(r.randint(4, 9))]
        if any(e for _, e in ents):
            lits.append("%sd[%s]" % (r.choice(["", "", "1", "2"]), r.choice([",", ", "]).join(t for t, _ in ents)))
    lits += ["2d50", "3d20", "3d30", "2d64", "4d12", "6d10", "10d8", "13d6", "2d[1-50]", "2d[-25-24]", "d[1-200*3]", "d[300-1]", "d[-100--1*12]"]
    for b in ["\t", "\n", "\r\n", "  ", "\f", " \t "]:
        lits += ["d[%s1,2,3]" % b, "d[1,%s2,3]" % b, "d[1%s,2,3]" % b, "d[1,2,3%s]" % b, "d[1,2,3,%s]" % b, "2d[-3--1*2%s,%s4%s,%s]" % (b, b, b, b)]
    lits += ["d[1000,2000]", "d[-1000--998]", "d[123456,-123456]", "d[10000*100,1]", "d[1*99,2*101]", "d[1*123,2*321,3*1000]", "d[5*100000,6]",
             "d[0001-0003*0002]", "d[-007,007]", "d[20,10,30,10,20]", "d[9,8,7,6,5,4,3,2,1,0,-1,-2]", "d[3,1,2,3,1,3]", "d[1-5,3-7,2--2]",
             "d[5-5*5]", "d[-1-1,-1-1,1--1]", "d[100-104*10,102*5]", "d[10-12,1-2]", "d[-10--12*3,-11]", "2d[100,1]", "3d[10,-10*2]",
             "4d[-1,-1,-1]", "5d[2,4,6,8,10]", "2d[1,2,3,4,5,6,7,8,9,10,11,12,13]", "3d[1*2,2*3,3*4,4*5]", "d[1,2,3,]", "2d[ 1-2 , ]"]
    # rejected: no sides, or not a dice literal
    rejected = ["d0", "1d0", "3d0", "0d0", "d[1*0]", "d[1-3*0]", "d[1*0,2*0,]", "d00", "d[]", "d[,]", "d[1,,2]",
                "d[,1]", "d[1 2]", "d[1--]", "d[1*]", "d[*2]", "d[1*-2]", "d[1-2-3]", "d[a]", "d[1.5]", "d[1,2", "d",
                "d-3", "dd6", "d6d", "1 d6", "d 6", "dG", "d[1*2*3]", "d[- 1]", "d[1 -2]", "3d", "d[1;2]", "D6"]
    reps = 1
    extra = 260 if tier == "quick" else 2500
    for _ in range(extra):
        t, s = g.sides(small=r.random() < 0.6)
        n = r.choice(["", "0", "1", "1", "2", "3", "4", "5"])
        if len(s) > 12 and n in ("4", "5"):
            n = "2"
        lits.append(n + "d" + t)
    if tier != "quick":
        for n in range(0, 13):
            for s in list(range(1, 13)) + [20, 30]:
                if n * s <= 150:
                    lits.append("%dd%d" % (n, s))
        for a in range(-3, 4):
            for b in range(-3, 4):
                for m in ("", "*0", "*1", "*2"):
                    lits.append("d[%d-%d%s]" % (a, b, m))
                    lits.append("2d[%d-%d%s,%d]" % (a, b, m, b))
    for lit in lits + rejected:
        for _ in range(reps):
            groups.append([call("dist", [lit])])
    for lit in ["d010", "d0100", "d[010]", "d[010-020]", "d[-010-010*010]", "010d2", "d[1*010,2]", "d000020", "0d010"] + [pad(g, x) for x in r.sample(lits, 60)]:
        groups.append([call("dist", [lit])])
    for lit in r.sample(lits, 30):
        groups.append([call("dist", ["VAR a = " + lit, "a"])])
        groups.append([call("dict", ["(" + lit + ")"])])
    for family in ALIKE:       # one after the other, on one parser and on one interpreter
        for q in ["dist"]:
            for fresh in (True, False):
                order = r.sample(family, len(family))
                groups.append([call(q, [x], fresh=fresh or k == 0) for k, x in enumerate(order + order[:4])])
    return groups


# ================================================================ C02
def gen_c02(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    lits = []
    kinds = ["1", "2", "3", "4", "6", "F", "[-1,1]", "[1,1,2]", "[-3--1*2,0,5]", "[9,10,11]", "[-10,-9,2]", "[0]", "[100,20,3*2]"]
    top = 4 if tier == "quick" else 6
    for s in kinds:
        for n in range(0, top + 1):
            for m in range(0, n + 2):
                for kd in "kd":
                    lits.append("%dd%s%s%d" % (n, s, kd, m))
        lits.append("d%sk1" % s)
        lits.append("d%sd1" % s)
        lits.append("d%sd0" % s)
    big = ["2d20k1", "2d20d1", "4d6k3", "4d6d1", "5d10k2", "5d10d3", "10d6k3", "10d6d7", "8d4k8", "8d4k7", "8d4d1",
           "12d2k11", "12d2d11", "3d%k1", "2d%k1", "2d%d1", "10d[-1,1]d5", "2dFd1", "12dFk10", "11dFk10", "6d8k2",
           "6d12d4", "7d[9,10,11,100]k3", "7d[9,10,11,100]d3", "9d[-20--18,5]k4", "10d2k10", "10d2d10", "10d2k12",
           "15d2k3", "15d2d12", "20d2k2", "20d[0,1*3]d18", "03d06k02", "30d2k1", "30d2d29", "25d2k24", "25d2d1", "16dFk1", "16dFd15",
           "13d3k2", "13d3d11", "9d4k3", "9d4d6", "8d6k2", "8d6d6", "7d8k1", "7d8d6", "6d10k1", "5d20k1", "5d20d4", "4d20k2", "3d20k2", "3d20d1",
           "4d%k1", "3d%d2", "d%k1", "d%d1", "2d%k2", "2d%d2", "6d[3,1,2]k2", "6d[3,1,2]d4", "5d[7,-7,0*3]k2", "5d[7,-7,0*3]d3",
           "4d[10-1]k2", "4d[-1--4*2]d2", "3d[1000,-1000,5]k2", "3d[1000,-1000,5]d1", "4d[2,10,1]k1", "4d[2,10,1]d3", "4d[-2,-10,-1]k1",
           "4d[-2,-10,-1]d3", "12d[1,2*5]k5", "12d[1*5,2]d5", "4d[1,1,1]k2", "4d[0*3]d2", "11d2k10", "11d2d10", "10d3k9", "10d3d1", "100d2k100",
           "100d1k99", "50d1d49", "20d1k3", "2d[1-30]k1", "2d[1-30]d1", "3d[-5-5]k1", "3d[-5-5]d2", "10d6k12", "10d6d12", "4d6k03", "4d6d03"]
    lits += big
    for n in range(5, 9):        # every M for a few kinds of dice
        for s in r.sample(["2", "3", "F", "[-1,1*2]", "[0,5]", "[4,-4,0*2]"], 2 if tier == "quick" else 4):
            for m in range(0, n + 2):
                lits.append("%dd%sk%d" % (n, s, m))
                lits.append("%dd%sd%d" % (n, s, m))
    for _ in range(40 if tier == "quick" else 300):
        t, ss = g.sides(small=False)
        n = r.choice([2, 3, 4])
        if len(ss) ** n < 3000:
            lits.append("%dd%s%s%d" % (n, t, r.choice("kd"), r.randint(1, n - 1)))
    for _ in range(150 if tier == "quick" else 1500):
        e = g.die(small=True, maxn=6, keep=True)
        lits.append(e.text)
    if tier != "quick":
        for n in range(5, 11):
            for m in range(0, n + 2):
                for kd in "kd":
                    for s in ("2", "3", "4", "[-2,0*2,7]"):
                        if (3 if s == "2" else len(s) + 2) ** min(m if kd == "k" else n - m, n) < 4000:
                            lits.append("%dd%s%s%d" % (n, s, kd, m))
    for lit in lits + ["010d2k01", "010d2d010", "010d2k010", "3d010k2", "3d010d01"] + [pad(g, x) for x in r.sample(lits, 40)]:
        groups.append([call("dist", [lit])])
    for family in ALIKE:       # one after the other, on one parser and on one interpreter
        for q in ["dist"]:
            for fresh in (True, False):
                order = r.sample(family, len(family))
                groups.append([call(q, [x], fresh=fresh or k == 0) for k, x in enumerate(order + order[:4])])
    return groups


# ================================================================ C03
def gen_c03(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    pool = ["d3", "d6", "2d3", "dF", "2dF", "d[-4,2,7*2]", "d[0,1]", "d[-2--1,3*2]", "d[0]", "d[5*2]", "-3", "0", "4",
            "1", "d[-6-6]", "3d[0,1*2]", "d[-12,-5,-1]", "d[1,10,100]", "3d4k2", "3d4d1", "True", "False"]
    per = 14 if tier == "quick" else 120
    for op in ALL_BIN:
        pairs = [(x, y) for x in pool for y in pool]
        r.shuffle(pairs)
        for x, y in pairs[:per]:
            t = "%s(%s, %s)" % (op, x, y) if op in MM else "(%s) %s (%s)" % (x, op, y)
            groups.append([call("dist", [t])])
    for x in pool:
        groups.append([call("dist", ["!" + x])])
        groups.append([call("dist", ["!(%s - 2)" % x])])
        groups.append([call("dist", ["ABS(%s)" % x])])
        groups.append([call("dist", ["ABS((%s) * -2)" % x])])
    for _ in range(150 if tier == "quick" else 2500):
        e = g.expr(r.choice([2, 2, 3, 3, 4]), maxn=120, div=r.random() < 0.5)
        groups.append([call(r.choice(["dist", "dist", "dist", "dict"]), [e.text])])
    for x in ["d6", "2d3", "dF", "d[-4,2,7*2]", "3d4k2"]:      # the same text twice is two rolls
        for op in ALL_BIN:
            groups.append([call("dist", ["%s(%s, %s)" % (op, x, x) if op in MM else "%s %s %s" % (x, op, x)])])
    wide = ["d100", "d[-50-50]", "10d6", "d[1000,2000,-3000]", "d20 * 5", "d[1*1000,2]", "4dF", "d12 - 20", "d[0*9,1]", "1000", "-999"]
    for op in ALL_BIN:
        for _ in range(4 if tier == "quick" else 40):
            x, y = r.choice(wide), r.choice(wide + pool)
            if r.random() < 0.5:
                x, y = y, x
            groups.append([call("dist", ["%s(%s, %s)" % (op, x, y) if op in MM else "(%s) %s (%s)" % (x, op, y)])])
    # equal values beyond the small ones, neighbours of zero
    far = ["d[300,400]", "d[150,200] * 2", "d[-300,-400,257]", "d[256,257]", "d[-6,-5]", "300", "257", "-257", "d[100000,99999]", "d[-2,-1]", "d[0,-1]", "d400", "d[1000000,-1000000]"]
    for op in CMP + ["-", "AND", "OR", "MIN", "MAX"]:
        for x in far:
            for y in [x] + r.sample(far, 1 if tier == "quick" else 6):
                if not (x == y == "d400"):
                    groups.append([call("dist", ["%s(%s, %s)" % (op, x, y) if op in MM else "(%s) %s (%s)" % (x, op, y)])])
    groups += big_ops(g, 150 if tier == "quick" else 3000, ["dist"])
    # operands held in variables, each used once
    for _ in range(60 if tier == "quick" else 800):
        names = r.sample(NAMES, 3)
        es = [g.expr(1, maxn=8, div=False) for _ in names]
        lines = [g.assign(n, e) for n, e in zip(names, es)]
        x, y, z = [E(n, e.lo, e.hi, e.n, 9, frozenset([n])) for n, e in zip(names, es)]
        f = g.binary(r.choice(ALL_BIN), g.binary(r.choice(ALL_BIN), x, y), z)
        if f.n < 150:
            groups.append([call("dist", lines + [f.text])])
    # the equally named variables of two interpreters
    for w in [o for o in ALL_BIN if o != "//"]:
        for _ in range(3 if tier == "quick" else 20):
            x, y = r.choice(["d4", "2d3", "dF", "d[0,1*2]", "d3 + 1", "2"]), r.choice(["d4", "d6", "2d2", "d[0,1]", "d[10,11]", "2"])
            groups.append([{"ev": "cross", "n": "a", "x": "VAR a = " + x, "y": "VAR a = " + y, "w": w}])
    # distribution objects
    for _ in range(40 if tier == "quick" else 500):
        groups.append(obj_session(g))
    groups += padded(g, groups, 40 if tier == "quick" else 400)
    return groups


def rand_map(g, big=False):
    r = g.r
    n = r.choice([1, 2, 2, 3, 4])
    keys = r.sample(range(-6, 10), n)
    if r.random() < 0.2:
        keys[0] = r.choice([50, -40, 101])
    return [[k, r.choice([1, 1, 2, 3, 5, 7, 10 ** 9 + 7, 2 ** 70 + 1]) if big else r.choice([1, 1, 2, 3, 5])]
            for k in dict.fromkeys(keys)]


TAKE = ["VAR s = d4", "VAR s = 2d3", "VAR q = d[0,1]", "VAR q = dF", "2d6", "dF", "d[0,1]", "3d4k2", "d6 - 3", "7", "!dF", "d3 * d3", "MAX(d4, 2)"]
TAKE_VAR = [["VAR %s = d6", "%s + 1"], ["VAR %s = 2d3", "%s"], ["VAR %s = dF", "VAR %s = %s * 2", "!%s"], ["VAR %s = d2", "VAR %s = d3", "%s - d2"]]


def obj_session(g, length=9):
    r = g.r
    ops = []
    sizes = {}
    tags = {}
    nid = 1
    spare = ["t", "u", "v", "w"]
    for _ in range(2):
        d = rand_map(g, r.random() < 0.2)
        ops.append({"ev": "obj", "op": "new", "o": nid, "d": d})
        sizes[nid] = (len(d), max(abs(k) for k, _ in d))
        nid += 1
    for _ in range(length):
        k = r.random()
        ids = sorted(sizes)
        a, b = r.choice(ids), r.choice(ids)
        if k > 0.93:      # what an interpreter reports, used as an operand
            if spare and r.random() < 0.6:
                name = spare.pop()
                lines = [x.replace("%s", name) for x in r.choice(TAKE_VAR)]
                tags[nid] = {name}
            else:
                lines = [r.choice(TAKE)]
            ops.append({"ev": "obj", "op": "take", "o": nid, "lines": lines})
            sizes[nid] = (12, 14)
        elif k < 0.12:
            d = rand_map(g)
            ops.append({"ev": "obj", "op": "new", "o": nid, "d": d})
            sizes[nid] = (len(d), max(abs(x) for x, _ in d))
        elif k < 0.2:
            ops.append({"ev": "obj", "op": "not", "o": nid, "a": a})
            sizes[nid] = (2, 1)
            tags[nid] = tags.get(a, set())
        elif k < 0.3:
            ops.append({"ev": "obj", "op": "abs", "o": nid, "a": a})
            sizes[nid] = sizes[a]
            tags[nid] = tags.get(a, set())
        elif k < 0.4:
            ops.append({"ev": "obj", "op": "look", "a": a})
            continue
        else:
            w = r.choice(ALL_BIN)
            (na, ma), (nb, mb) = sizes[a], sizes[b]
            if na * nb > 200 or ma * mb > 100000 or tags.get(a, set()) & tags.get(b, set()):
                continue
            tags[nid] = tags.get(a, set()) | tags.get(b, set())
            if w == "//":
                # the divisor may contain 0: then no object is made and the id stays free
                ops.append({"ev": "obj", "op": "bin", "w": w, "o": nid, "a": a, "b": b})
                nid += 1
                continue
            ops.append({"ev": "obj", "op": "bin", "w": w, "o": nid, "a": a, "b": b})
            sizes[nid] = (2, 1) if w in CMP + LOGIC else (na * nb, ma * mb + ma + mb)
        nid += 1
    return ops


# ================================================================ C04
C04_FIXED = [
    ["VAR a = d6", "a + a"], ["VAR a = d6", "a - a"], ["VAR a = d6", "a == a"], ["VAR a = d6", "VAR b = 7 - a", "a + b"],
    ["VAR a = d6", "VAR a = d6", "a + a"], ["VAR a = d6", "VAR b = a", "VAR a = d6", "a - b"],
    ["VAR a = d4", "VAR b = a + 1", "VAR c = a + b", "c - b - a"], ["VAR a = d4", "VAR a = a + 1", "VAR a = a + a", "a"],
    ["VAR a = 2d3", "a + a"], ["VAR a = 2d2", "VAR b = a * 2", "a + b"],
    ["VAR a = d3", "VAR b = d3", "MAX(a, b) - MIN(a, b) == ABS(a - b)"],
    ["VAR a = d3", "VAR b = a", "VAR a = b", "VAR b = a", "a == b"],
    ["VAR save_roll = d20", "VAR burning_arch_damage = 3d6 + 10", "VAR pass_save = ( save_roll >= 10 ) ",
     "VAR damage_half_on_save = burning_arch_damage // (pass_save + 1)", "damage_half_on_save"],
    ["VAR a = d2"] * 11 + ["VAR b = a", "VAR a = d2", "a == b"],
    ["VAR a = d2"] + ["VAR a = a + d2"] * 3 + ["a"],
    ["VAR a = d2", "VAR a_ = d2", "VAR a__ = d2", "VAR ab = d2", "a + a_ * 10 + a__ * 100 + ab * 1000"],
    ["VAR a = d3", "VAR b = a > 1", "VAR c = a > 2", "b + c * 10"],
    ["VAR a = d3", "!(a == 2) + a"], ["VAR a = dF", "ABS(a) * a"], ["VAR a = d3", "(a == 1) OR (a == 2)"],
    ["VAR a = d4", "(a > 1) AND (a < 4)"], ["VAR a = d4", "MAX(a, 5 - a)"], ["VAR a = d4", "a // a"],
    ["VAR a = d[0,1]", "VAR b = !a", "a + b"], ["VAR x = 3", "x * x"], ["VAR x = d[5*3]", "x - x"],
]


README = ["VAR save_roll = d20", "VAR burning_arch_damage = 10d6 + 10", "VAR pass_save = ( save_roll >= 10 ) ",
          "VAR damage_half_on_save = burning_arch_damage // (pass_save + 1)", "damage_half_on_save"]


def gen_c04(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = [[call("dist", p)] for p in C04_FIXED + [README]]
    # many reassignments: version 10 and beyond next to version 1
    for n in range(1, 20) if tier == "quick" else range(1, 41):
        lines = ["VAR a = d2", "VAR b = a"] + ["VAR a = d2"] * n + ["VAR c = a", "VAR a = d2", "a + b * 10 + c * 100"]
        groups.append([call("dist", lines)])
    for _ in range(330 if tier == "quick" else 5000):
        nv = r.choice([1, 2, 2, 3, 3, 4])
        names = r.sample(NAMES, max(1, nv - r.choice([0, 0, 1])))
        lines, _ = g.program(nv, depth=r.choice([0, 1, 1, 2]), names=names, div=False, maxn=r.choice([4, 6]),
                             fdepth=r.choice([1, 2, 2, 3]), budget=160)
        groups.append([call("dist", lines)])
    # two values of one name, n assignments apart, met in one expression; other names assigned in between
    for n in range(1, 18) if tier == "quick" else range(1, 70):
        mid = ["VAR %s = d2" % r.choice(["a", "c"]) for _ in range(n)]
        groups.append([call("dist", ["VAR a = d2", "VAR b = a * 3", "VAR c = 0"] + mid + ["VAR a = d3", "a + b * 10"])])
        groups.append([call("dist", ["VAR a = d2"] * n + ["VAR b = a", "VAR a = d2", "VAR c = a", "VAR a = d2", "a + b * 10 + c * 100"])])
    # variables with many values, long programs, deep lines
    for n in (30, 65, 101, 129, 201, 257, 300) if tier == "quick" else (30, 50, 65, 101, 129, 201, 257, 300, 513):
        groups.append([call("dist", ["VAR a = d%d" % n, "VAR b = a == %d" % r.randint(1, n), "a - a + b * 2"])])
        groups.append([call("dist", ["VAR a = d%d" % n, "a - a"])])
    for n in (20, 40, 80):
        groups.append([call("dist", ["VAR a = d2"] + ["VAR %s = %s + 1" % (r.choice("bc"), r.choice("a")) for _ in range(n)] + ["VAR b = a", "VAR c = a", "a * 100 + b * 10 + c"])])
        groups.append([call("dist", ["VAR a = d2", "VAR b = d3", "VAR c = " + " + ".join(r.choice(["a", "b", "1"]) for _ in range(n)), "c - a"])])
    # names that look alike
    for _ in range(80 if tier == "quick" else 1000):
        ns = r.sample(CLOSE_NAMES, r.choice([2, 3, 4]))
        lines, _ = g.program(r.choice([3, 4]), depth=1, names=ns, div=False, maxn=3, fdepth=2, budget=100)
        groups.append([call("dist", lines)])
        if len(ns) > 1:
            lines = ["VAR %s = d2" % x for x in ns] + [" + ".join("%s * %d" % (x, 10 ** k) for k, x in enumerate(ns))]
            groups.append([call("dist", lines)])
    for _ in range(60 if tier == "quick" else 600):
        x = "".join(r.choice("abcdefgh_xyz") for _ in range(r.choice([2, 3, 5, 9, 17, 33, 65, 129])))
        k = r.randrange(len(x))
        y = r.choice([x[:k] + r.choice("abm_z") + x[k + 1:], x[:k] + x[k + 1:], x[:k] + "_" + x[k:], x + x[-1], x[::-1], x[k:] + x[:k], x[:-1] + "q", "q" + x[1:]])
        if x != y and y:
            groups.append([call("dist", ["VAR %s = d2" % x, "VAR %s = d2" % y, "%s - %s" % (x, y)])])
    # many variables read by one line
    for n in (6, 10, 13, 17, 24, 33, 50) if tier == "quick" else (6, 8, 10, 12, 13, 15, 17, 20, 24, 33, 40, 50, 65, 80):
        ns = ["v" + chr(97 + k % 26) + "_" * (k // 26) for k in range(n)]
        r.shuffle(ns)
        die = set(r.sample(ns, 3))
        lines = ["VAR %s = %s" % (x, "d2" if x in die else r.choice(["1", "0", "7"])) for x in ns]
        for read in (ns, ns[::-1]):
            tail = sorted(die)
            groups.append([call("dist", lines + [" + ".join(list(read)) + " - " + " - ".join(tail[:2])])])
        groups.append([call("dist", lines + ["VAR total = " + " + ".join(ns), "total - " + " - ".join(tail)])])
    # many variables alive at once
    for n in (8, 11, 12, 15):
        ns = r.sample(CLOSE_NAMES, n)
        lines = ["VAR %s = %s" % (x, "d2" if k % 5 == 0 else str(k)) for k, x in enumerate(ns)]
        lines += ["VAR %s = %s + %s" % (ns[0], ns[0], ns[5]), "%s - %s + %s" % (ns[0], ns[5], ns[1])]
        groups.append([call("dist", lines)])
    groups += nest_ops(g, 60 if tier == "quick" else 1200, ["dist"])
    # the same history asked in several calls on one interpreter
    for _ in range(40 if tier == "quick" else 600):
        lines, _ = g.program(r.choice([2, 3]), depth=1, div=False, maxn=4, fdepth=2, budget=100)
        ops = []
        k = 0
        while k < len(lines):
            step = r.randint(1, 2)
            ops.append(call(r.choice(["dist", "dist", "dict", "max", "min"]), lines[k:k + step], fresh=not ops))
            k += step
        groups.append(ops)
    groups += padded(g, groups, 20 if tier == "quick" else 200)
    return groups


def nest_lines(g, reads, once=False):
    """lines with assignments inside, their names not read in the same line; reads: the names assigned before; once: no name assigned twice"""
    r = g.r
    used = set()
    room = [x for x in ["a", "b", "c", "ab", "x_"] + (["y" + k for k in "abcdefghijkl"] if once else []) if not once or x not in reads]

    def free():
        n = r.choice([x for x in room if x not in used])
        used.add(n)
        return n

    def part(depth):
        k = r.random()
        if k < 0.35 and len(used) < 3:
            return "(VAR %s = %s)" % (free(), part(depth - 1) if depth else g.r.choice(["d2", "d3", "dF", "2", "d[0,1*2]", "2d2"]))
        if depth == 0 or k < 0.55:
            return r.choice(["d2", "d3", "dF", "1", "-2"])
        x, y = part(depth - 1), part(depth - 1)
        return r.choice(["%s + %s", "%s - %s", "MAX(%s, %s)", "(%s == %s)", "(%s * %s)", "MIN(%s, %s)"]) % (x, y)

    text = r.choice(["%s", "VAR %%s = %s", "VAR %%s = VAR %%s = %s", "ABS(%s)", "!%s", "MAX(VAR %%s = %s, 1)", "VAR %%s = MIN(2, VAR %%s = %s)"]) % part(r.choice([1, 2]))
    while "%s" in text:
        text = text.replace("%s", free(), 1)
    old = sorted(reads - used)
    if old and r.random() < 0.7:
        text += " + " + r.choice(old)
    reads |= used
    return text


def nest_ops(g, n, qs):
    groups = []
    fixed = [["VAR a = VAR b = d6", "a - b"], ["1 + (VAR a = d3)", "a"], ["MAX(VAR a = d3, 2) * (VAR b = d2)", "a + b"], ["VAR a = (VAR b = d3) + (VAR c = d2)", "a - b - c"],
             ["VAR a = d3", "(VAR b = a + 1) - a", "b - a"], ["VAR a = VAR b = VAR c = d2", "a + b * 10 + c * 100"], ["VAR a = 1", "VAR b = VAR a = d2", "a - b"], ["VAR a = VAR b = 3", "a * b"]]
    for k in range(n):
        if k < len(fixed):
            lines = fixed[k]
        else:
            reads = set()
            lines = [nest_lines(g, reads, "max" in qs or "cost" in qs) for _ in range(g.r.choice([1, 1, 2]))]
            ns = sorted(reads)
            if ns:
                lines.append(" + ".join("%s * %d" % (x, 10 ** i) for i, x in enumerate(g.r.sample(ns, min(3, len(ns))))))
                if "max" in qs and g.r.random() < 0.4:
                    lines[-1] = g.r.choice(ns)
        for q in qs:
            groups.append([{"ev": "nest", "q": q, "lines": lines, "rseed": g.r.randint(0, 10 ** 6)}] * (1 if q != "roll" else 4))
    return groups


# ================================================================ C05
def gen_c05(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    progs = list(C04_FIXED)
    progs += [[x] for x in ["d6", "0d6", "3d6", "3dF", "4d[-3,2]", "4d6k3", "4d6d3", "4dFk2", "4dFd2", "3d[-5--2]k1",
                            "5d[-1,7]d2", "3d6k0", "3d6d0", "3d6k5", "3d6d5", "0d6k1", "0dFd1", "-d6", "5", "-5", "True",
                            "False", "(d6)", "((2d4))", "!d6", "!dF", "!0", "ABS(dF)", "ABS(d[-5-3])", "MAX(d4, 2d6)",
                            "MIN(d4, 2d6)", "MAX(-3, dF)", "MIN(dF, dF)", "MAX(MIN(d4, 3), 2)", "d6 - d4", "d6 * dF",
                            "d[-7,5] // d[2,-3]", "d6 == 7", "d6 < 7", "d6 >= 1", "dF AND d2", "dF OR d2", "d[-7] // 2"]]
    progs += [["VAR a = d6", "a"], ["VAR a = d6 - 10", "VAR b = a * a", "b"], ["VAR a = dF", "VAR b = a * a", "b"],
              ["VAR a = d6", "(a)"], ["VAR a = d6", "MAX(a, 3)"], ["VAR a = d6", "MIN((a), 3)"],
              ["VAR a = d6", "VAR b = (a)", "MAX(b, d4)"], ["VAR a = d6", "VAR b = 7 - a", "MIN(a, b)"],
              ["VAR a = d6", "VAR b = 7 - a", "MAX(a, b)"], ["VAR a = d4", "VAR a = a - 2", "VAR a = a * a", "a"],
              ["VAR a = d6", "VAR b = a", "VAR a = 2d6", "a - b"], ["VAR a = d4", "3 - a"], ["VAR a = d4 - 5", "!a"],
              ["VAR a = d4 - 5", "ABS(a)"], ["VAR a = d4 - 5", "VAR b = ABS(a) - a", "b"]]
    for _ in range(170 if tier == "quick" else 3000):
        e = g.expr(r.choice([1, 2, 2, 3]), maxn=60, div=r.random() < 0.3)
        progs.append([e.text])
    for _ in range(170 if tier == "quick" else 3000):
        lines, _ = g.program(r.choice([1, 2, 3]), depth=r.choice([0, 1, 2]), div=False, maxn=6, fdepth=r.choice([0, 1, 2, 2]),
                             budget=120)
        progs.append(lines)
    progs += [[x] for x in ["d[5,1,3]", "3d[5,-1,3]", "4d[9,2,-7]k2", "4d[9,2,-7]d2", "2d[3,1]d1", "d[10-1]", "2d[-1--9*2]", "d%", "3d%k2", "100d6",
                            "50d20k25", "20d20d7", "10d[-3,4]d3", "10d[-3,4]k3", "d[1*0,5,2]", "d20 - d20", "-3 * d6", "dF * dF", "d[-3,2] * d[-5,4]",
                            "d[-9,9] // d[-4,-2,2]", "!(dF)", "!(d4 - 4)", "ABS(d[-9,4])", "ABS(2dF)", "MAX(MAX(dF, -3), MIN(d4, 2))",
                            "MIN(ABS(dF), !d2)", "MAX((d4 - d6), dF)", "MIN(d4 * -1, d6 - 3)", "d4 > 4", "d4 >= 5", "d4 <= 0", "d4 != 9",
                            "(d4 > 2) AND (d4 > 4)", "(d4 > 4) OR (d4 < 1)", "True - dF", "MAX(True, False)", "d6 * d6 - d6", "0 * d6", "d6 - 0d6"]]
    progs += [[x] for x in ["ABS(d[-3,5])", "ABS(d[-5,3])", "ABS(d[-5,-3])", "ABS(d[-4,4])", "ABS(d[-7,2,9])", "ABS(d6 * 2 - 7)", "ABS(d[-1,1])",
                            "!(d[-1,1])", "!(d[0,5])", "d[-2,3] * d[-4,5]", "d[-2,-1] * d[-4,-3]", "d[-7,-2] // d[2,3]", "d[7,9] // d[-2,-3]", "d[-7,9] // d[-2,3]",
                            "d[-1,1] AND d[-1,1]", "d[0,1] OR d[0,1]", "d[2,4] == d[1,3]", "d[2,4] != d[1,3]", "d[1,5] < d[5,6]", "d[1,5] <= d[6,7]", "d[5,9] == 7"]]
    progs += [["VAR a = dF", "a * a"], ["VAR a = d[-3,5]", "a * a"], ["VAR a = d[-3,5]", "a * a - a"], ["VAR a = d[-3,5]", "ABS(a) + a"], ["VAR a = d[-3,5]", "a // a"],
              ["VAR a = d4", "a == a"], ["VAR a = d4", "a < a"], ["VAR a = d4", "a != a"], ["VAR a = d4", "VAR b = a", "a - b"], ["VAR a = d4", "a AND a"],
              ["VAR a = d[-1,1]", "a OR a"], ["VAR a = d4", "VAR b = a * 2", "b // a"], ["VAR a = d[-2,2]", "!(a + 2) * a"], ["VAR a = d4", "(a > 2) * a"],
              ["VAR a = d4", "(a > 2) AND (a < 2)"], ["VAR a = d4", "(a > 2) OR (a <= 2)"], ["VAR a = d300", "a - a"], ["VAR a = d200", "a == 150"]]
    for n in list(range(5, 35)) + [48, 63, 64, 65, 90, 127, 128, 129, 150]:      # no number of dice is special
        s = r.choice(["2", "F", "[-1,3]", "[5,2]", "4"] if n <= 34 else ["2", "F"])
        progs += [["%dd%s" % (n, s)], ["%dd%s - %d" % (n, s, r.randint(0, 2 * n))], ["VAR a = %dd%s" % (n, s), "3 - a"]]
        if n <= 34:
            progs += [["%dd%s%s%d" % (n, s if s != "4" else "3", r.choice("kd"), r.randint(1, n - 1))]]
    for n in range(7, 60, 3):
        progs += [["d%d" % n], ["d%d - d%d" % (n, n + 2)], ["d[-%d-%d]" % (n, n + 1)], ["ABS(d[-%d-%d])" % (n + 1, n)], ["VAR a = d%d" % n, "VAR b = a * a - %d * a" % n, "b"]]
    for n in (7, 8, 10, 11, 16):
        progs.append(["VAR a = d2"] * n + ["VAR b = a"] + ["VAR a = d2 + 5"] * n + ["a * 10 - b"])
    for _ in range(40 if tier == "quick" else 600):
        ns = r.sample(CLOSE_NAMES, 4)
        lines, _ = g.program(4, depth=1, names=ns, div=False, maxn=4, fdepth=2, budget=100)
        progs.append(lines)
    groups += big_ops(g, 60 if tier == "quick" else 1500, ["min", "max"])
    groups += nest_ops(g, 40 if tier == "quick" else 800, ["max", "min"])
    for p in progs:
        groups.append([{"ev": "tight", "q": "max", "lines": p}, {"ev": "tight", "q": "min", "lines": p}])
    groups += padded(g, groups, 40 if tier == "quick" else 400)
    for family in ALIKE:       # one after the other, on one parser and on one interpreter
        for q in ["max", "min"]:
            for fresh in (True, False):
                order = r.sample(family, len(family))
                groups.append([call(q, [x], fresh=fresh or k == 0) for k, x in enumerate(order + order[:4])])
    return groups


# ================================================================ C06
def gen_c06(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    reps = 6 if tier == "quick" else 20
    fixed = [["d6"], ["3dF"], ["0d6"], ["4d6k3"], ["4d6d3"], ["3d[-5--2,7]k1"], ["3d[-5--2,7]d1"], ["3d6k0"], ["3d6d0"],
             ["3d6k9"], ["3d6d9"], ["!dF"], ["!d[-3,0,2]"], ["dF OR dF"], ["d[-2,-1] OR d[0,-3]"], ["d[0,1] AND d[0,1]"],
             ["dF AND dF"], ["d[-2,2] == 2"], ["d4 != 2"], ["ABS(d[-5--1])"], ["MIN(dF, -1)"], ["MAX(dF, d[-2,3])"],
             ["d[-7,7] // d[2,-2]"], ["-7 // 2"], ["7 // -2"], ["d6 // d[0,1]"], ["True AND False"], ["True OR d[-1]"],
             ["VAR a = d6", "a"], ["VAR a = d6", "VAR b = a", "VAR a = d6", "b"], ["VAR a = d6", "VAR a = a + d6", "a"],
             ["VAR a = d6", "VAR b = a * 2", "VAR c = a + b", "c"], ["VAR a = 2d6", "a == a"], ["VAR a = d6", "a - a"],
             ["VAR a = dF", "VAR b = !a", "VAR c = a OR b", "c"], ["VAR a = 5", "VAR b = -a", "b"], ["2d6 - 1", "d4"],
             ["1 AND 2"], ["d4 AND 2"], ["d[-1,0] AND d[-1,1]"]]
    for p in fixed:
        groups.append([call("roll", p, rseed=r.randint(0, 10 ** 6), fresh=(k == 0)) for k in range(reps)])
    for _ in range(160 if tier == "quick" else 2500):
        e = g.expr(r.choice([1, 2, 3]), maxn=200, div=r.random() < 0.4)
        groups.append([call("roll", [e.text], fresh=(k == 0), rseed=r.randint(0, 10 ** 6)) for k in range(reps)])
    for _ in range(160 if tier == "quick" else 2500):
        lines, _ = g.program(r.choice([1, 2, 3, 4]), depth=r.choice([0, 1, 2]), div=r.random() < 0.3, maxn=40,
                             fdepth=r.choice([1, 2, 3]), budget=100000)
        groups.append([call("roll", lines, fresh=(k == 0), rseed=r.randint(0, 10 ** 6)) for k in range(reps)])
    for p in [["100d6"], ["20d20k10"], ["20d20d10"], ["50d[-3,7]"], ["10d%k1"], ["30dFd5"], ["d1000"], ["d[5-1]"], ["3d[9,-2,4]k2"],
              ["3d[9,-2,4]d2"], ["d[1*0,4]"], ["12d1"], ["1000 // d7"], ["-1000 // d7"], ["d100 // 7 * 7"]]:
        groups.append([call("roll", p, rseed=r.randint(0, 10 ** 6), fresh=(k == 0)) for k in range(reps)])
    groups += big_ops(g, 60 if tier == "quick" else 1500, ["roll"])
    for _ in range(30 if tier == "quick" else 400):      # names that look alike, and many of them
        ns = r.sample(CLOSE_NAMES, r.choice([4, 8, 14]))
        ops = [call("roll", ["VAR %s = %s" % (x, r.choice(["d100", "3d6", "d[-50-50]", str(k)])) for k, x in enumerate(ns)], rseed=r.randint(0, 10 ** 6))]
        for x in r.sample(ns, 4):
            ops.append(call("roll", [r.choice(["%s", "%s + 0", "VAR %s = %s + 1".replace("VAR %s", "VAR " + r.choice(ns)), "(%s)", "MAX(%s, %s)"]).replace("%s", x)], fresh=False))
        ops.append(call("roll", ["0"], fresh=False))
        groups.append(ops)
    groups += nest_ops(g, 40 if tier == "quick" else 800, ["roll"])
    # rolls spread over several calls: a variable keeps its value until it is assigned again
    for _ in range(60 if tier == "quick" else 800):
        lines, env = g.program(r.choice([2, 3, 4]), depth=1, div=False, maxn=20, fdepth=1, budget=100000)
        ops = []
        for ln in lines:
            ops.append(call("roll", [ln], fresh=not ops, rseed=r.randint(0, 10 ** 6)))
            if r.random() < 0.5:
                ops.append(call("roll", [r.choice(["d2", "0", "3d6 + 1"])], fresh=False))
        for n in sorted(env):
            ops.append(call("roll", [n], fresh=False))
        groups.append(ops)
    groups += padded(g, groups, 30 if tier == "quick" else 300)
    return groups


# ================================================================ C07
def gen_c07(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    n = 12000 if tier == "quick" else 60000
    fixed = [["d2"], ["d6"], ["d20"], ["2d6"], ["3d4"], ["dF"], ["4dF"], ["0d6"], ["d[1*3,2]"], ["d[1*7, 8]"],
             ["d[1-3*2,1,4]"], ["2d[1*3,5]"], ["d[-2,0*5,9]"], ["d[1,2,1]"], ["d[5*4]"], ["d%"], ["2d20k1"], ["2d20d1"],
             ["4d6k3"], ["4d6d3"], ["4d6d1"], ["3d[0*3,1]k1"], ["3d[0*3,1]d1"], ["3d4k2"], ["3d4d2"], ["3dFk2"],
             ["5d2k4"], ["5d2d4"], ["3d6k5"], ["3d6d0"], ["4d3k0"], ["4d3d4"], ["6d[-1,1*2]k3"], ["6d[-1,1*2]d2"],
             ["d4 + d4"], ["d4 - d4"], ["d4 * d4"], ["d6 // d3"], ["d4 == d4"], ["d4 < d4"], ["MAX(d6, d6)"],
             ["MIN(d6, 2d3)"], ["!(d4 > 3)"], ["ABS(d4 - d4)"], ["(d4 > 2) AND (d4 > 3)"], ["(d4 > 2) OR (d4 > 3)"],
             ["dF OR dF"], ["!dF"], ["VAR a = d4", "a"], ["VAR a = d3", "VAR b = d3", "a + b"],
             ["VAR a = d3", "VAR b = a + d2", "a - b"], ["VAR a = d3", "VAR b = a", "VAR a = d3", "a == b"],
             ["VAR a = d[0,1*2]", "VAR b = d[0,1*2]", "VAR c = d[0,1*2]", "a + b + c"], ["VAR a = 2d3", "a * a"],
             ["VAR a = 3d4k2", "VAR b = 3d4d1", "a > b"], ["d10", "d4"], ["VAR a = d2", "VAR a = a + d2", "a"]]
    for p in fixed:
        groups.append([{"ev": "freq", "lines": p, "n": n, "rseed": r.randint(0, 10 ** 6)}])
    for p in [["d2"], ["d6"], ["2d3"], ["d[1*3,2]"], ["3d3k1"], ["3d3d1"], ["dF + dF"], ["VAR a = d4", "a"], ["2dFk1"]]:
        groups.append([{"ev": "freq", "lines": p, "n": n, "pair": 1, "rseed": r.randint(0, 10 ** 6)}])
    for p, lag in [(["d4"], 2), (["2d3"], 3), (["d[1*3,2]"], 5), (["3d3k1"], 2), (["d6"], 7), (["d3"], 4)]:
        groups.append([{"ev": "freq", "lines": p, "n": n // 3, "pair": lag, "rseed": r.randint(0, 10 ** 6)}])
    for p in [["d6"], ["2d4"], ["4d6k3"], ["VAR a = d4", "VAR b = d4", "a - b"], ["d[1*5,2]"]]:
        groups.append([{"ev": "freq", "lines": p, "n": n // 2, "each": 1, "rseed": r.randint(0, 10 ** 6)}])
    for p in [["6 // (d4 - 1)"], ["d6 // dF"], ["dF // dF"], ["1 // (d3 // d6)"], ["!(4 // (d2 - 1))"], ["d4 + 6 // dF"],
              ["MAX(d6, 3 // (d2 - 1))"], ["ABS(d4 // 2dF)"], ["d4 // (d6 > 2)"], ["(d2 // (d2 - 1)) * (d2 // (d3 - 1))"]]:
        groups.append([{"ev": "freq", "lines": p, "n": n, "err": 1, "rseed": r.randint(0, 10 ** 6)}])
    for p in [["d6"], ["2d4"], ["4d3k2"], ["4d3d2"], ["d[1*5,2]"], ["VAR a = d4", "a"], ["VAR a = d4", "VAR b = a + d4", "b"], ["d4 - d4"], ["!(d6 - 3)"]]:
        groups.append([{"ev": "freq", "lines": p, "n": n, "mix": r.sample(["dist", "min", "max", "avg", "cost", "dict"], 3), "rseed": r.randint(0, 10 ** 6)}])
    for p in [["d%"], ["d50"], ["d[1-60]"], ["d[-30-30]"], ["d64"], ["d[100-1]"], ["d99 - 50"], ["d[1-20,5-9*3]"], ["d20 + d20"], ["d30k1"], ["2d12k1"], ["2d12d1"]]:
        groups.append([{"ev": "freq", "lines": p, "n": 2 * n, "rseed": r.randint(0, 10 ** 6)}])
    for p in [["d[3,1,2*4]"], ["3d[9,-2,4]k2"], ["3d[9,-2,4]d2"], ["2d[10,2,1]k1"], ["2d[10,2,1]d1"], ["3d[-1,-10,-2*2]k1"], ["d[5*0,1,2]"], ["d[1*10,2*11,3*9]"],
              ["d[2-1*3,4]"], ["MAX(d4, d4) - MIN(d4, d4)"], ["ABS(dF) + ABS(dF)"], ["d3 * d3 - d3"], ["(d2 == 1) + (d2 == 1) + (d2 == 1)"], ["2d2 == 2d2"],
              ["VAR a = d2", "VAR a = d2", "VAR b = a", "VAR a = d3", "a * 10 + b"], ["VAR a = d3", "VAR b = a", "VAR c = b", "a + b + c"],
              ["VAR a = d2", "VAR b = d2", "VAR c = d2", "VAR a = a + b", "a - c"], ["VAR a = 2d2k1", "VAR b = 2d2d1", "a - b"]]:
        groups.append([{"ev": "freq", "lines": p, "n": n, "rseed": r.randint(0, 10 ** 6)}])
    # one parsed line rolled very often: thin cells of wide dice
    m = 1000000 if tier == "quick" else 6000000
    for t in ["2d101d1", "2d120k1", "3d150k1", "2d[1-130]d1", "d1000", "d[1*999,2]", "8d20k1"] if tier == "quick" else \
            ["2d101d1", "2d120k1", "3d150k1", "3d150d2", "2d200k1", "2d[1-130]d1", "2d[1-300]k1", "d1000", "2d257k1", "d[1*9999,2]", "8d20k1", "5d12d4", "12d6k2", "2d300"]:
        groups.append([{"ev": "freq", "lines": [t], "n": m // (3 if t in ("8d20k1", "12d6k2", "d1000") else 1), "once": 1, "rseed": r.randint(0, 10 ** 6)}])
    # many lopsided dice: nothing like a normal curve
    for t in ["100d[0*99,1]", "70d[0*30,1]", "66d[-1,1*9]", "33d[0*40,5]", "20d[0*9,1]k3", "20d[0,1*9]d3", "65d2"]:
        k = int(t.split("d")[0])
        groups.append([{"ev": "freq", "lines": [t], "n": (900000 if tier == "quick" else 6000000) // k, "once": 1, "rseed": r.randint(0, 10 ** 6)}])
    for k in [5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 20, 21, 25, 32, 50]:
        t = r.choice(["d2", "d2", "dF", "d[0,1*2]", "d[-1,1]"])
        groups.append([{"ev": "freq", "lines": ["%d%s" % (k, t)], "n": n // 2, "rseed": r.randint(0, 10 ** 6)}])
        m = r.randint(1, k - 1)
        t = r.choice(["d2", "dF", "d[0,1*2]", "d[-1*2,1]"])
        groups.append([{"ev": "freq", "lines": ["%d%s%s%d" % (k, t, r.choice("kd"), m)], "n": n // 2,
                        "rseed": r.randint(0, 10 ** 6)}])
    for _ in range(30 if tier == "quick" else 300):
        while True:
            e = g.die(small=True, maxn=4)
            if e.n <= 24:
                break
        groups.append([{"ev": "freq", "lines": [e.text], "n": n, "rseed": r.randint(0, 10 ** 6)}])
    ops = [o for o in ALL_BIN if o != "AND"]
    for _ in range(20 if tier == "quick" else 200):
        lines, _ = g.program(r.choice([1, 2]), depth=1, div=False, maxn=6, fdepth=1, budget=60, ops=ops)
        groups.append([{"ev": "freq", "lines": lines, "n": n, "rseed": r.randint(0, 10 ** 6)}])
    return groups


# ================================================================ C08
def gen_c08(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    fixed = [["d6"], ["0d6"], ["2d6"], ["dF"], ["3dF"], ["d[1,100]"], ["d[-10,10]"], ["d[-5--3,7*2]"], ["5"], ["-5"],
             ["0"], ["d[0*9,1]"], ["d6 * 10"], ["(d6 - 4) * 7"], ["d%"], ["10d6"], ["20d6"], ["4d6k3"], ["d6 > 3"],
             ["d6 > 9"], ["MAX(d6, d[50])"], ["VAR a = d6", "VAR b = a - 7", "a * b"], ["VAR a = 2d3", "a + a"],
             ["VAR a = d6", "VAR b = d6", "VAR c = a == b", "c"], ["d6 * d6 * d6"], ["d[1*1000000,2]"],
             ["d[-1*1000000,2]"], ["12d[-1,1*3]"], ["d[7]"], ["d[-7]"], ["3d[-2,5*2]d1"], ["2d[-9,9]"], ["d[0,3]"]]
    fixed += [["d[1,50]"], ["d[-200,200]"], ["d[1,2,300]"], ["d[-300--299,1]"], ["d[1*99,100]"], ["d% - 50"], ["3d20 - 30"], ["50d6"], ["100d2"],
              ["30d6k2"] if tier != "quick" else ["9d6k2"], ["20d[-1,1]"], ["d20 * d20"], ["d[1000000,1000003]"], ["d[-1000000,-999990]"],
              ["d[0*999999,1]"], ["VAR a = d[5,-5]", "VAR b = a * 7", "VAR c = b - a", "VAR stdin = c * c", "stdin"], ["d6 // 7"], ["dF * 0"],
              ["VAR a = d6", "VAR a = a * 10", "VAR b = a + 1", "a"], ["VAR _ = 1", "VAR __ = 2", "d6"], ["!d6"], ["d4 * 25"], ["12d8"], ["15dF * 3"],
              ["VAR aa = d100", "VAR ab = 3", "VAR ac = -3", "aa - 50"], ["d[7*123456789]"], ["d[1*123456789,2*987654321]"], ["40d[1,2*3]"]]
    for p in fixed:
        groups.append([{"ev": "figs", "lines": p}])
    HUGE = [10 ** 320, 3 ** 700, 2 ** 1100, 10 ** 308, 10 ** 309 + 7, 1, 5, 10 ** 17 + 1, 2 ** 1023, 2 ** 1024]
    for m in [[[1, 10 ** 320]], [[1, 10 ** 320], [2, 3 * 10 ** 320], [3, 1]], [[-4, 2 ** 1024], [5, 2 ** 1024]], [[0, 10 ** 400], [2, 1]], [[7, 10 ** 308], [8, 10 ** 308]]]:
        groups.append([{"ev": "figs", "map": m}])
    for _ in range(25 if tier == "quick" else 400):
        groups.append([{"ev": "figs", "map": [[k, r.choice(HUGE)] for k in r.sample(range(-6, 12), r.choice([1, 2, 3, 4]))]}])
    for p in [["40d[1*999999999,2*999999999]"], ["36d[0*999999999,1]"], ["VAR a = 35d[0*999999999,1*7]", "a * 2"]]:
        groups.append([{"ev": "figs", "lines": p}])
    for _ in range(150 if tier == "quick" else 2500):      # distribution objects made by hand
        n = r.choice([1, 2, 3, 5, 9])
        base = r.choice([0, 0, 0, -5, 40, -60, 1000000])
        keys = sorted(r.sample(range(-12, 60), n), key=lambda _: r.random())
        groups.append([{"ev": "figs", "map": [[base + k, r.choice([1, 1, 2, 3, 7, 100, 10 ** 6, 10 ** 12 + 1, 2 ** 60 + 1, 3 ** 50])] for k in keys]}])
    for _ in range(200 if tier == "quick" else 3000):
        e = g.expr(r.choice([0, 1, 2, 3]), maxn=70, div=False)
        if e.hi - e.lo < 150:
            groups.append([{"ev": "figs", "lines": [e.text]}])
    for _ in range(90 if tier == "quick" else 1500):
        while True:
            lines, env = g.program(r.choice([1, 2, 3]), depth=1, div=False, maxn=6, fdepth=1, budget=200)
            if all(v.hi - v.lo < 150 for v in env.values()):
                break
        groups.append([{"ev": "figs", "lines": lines}])
    return groups


# ================================================================ C09
def gen_c09(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    QS = ["min", "max", "dist", "dict", "avg", "hist"]
    tops = ["6", "d6", "0", "d[-7,7]", "d[0]", "-1"]
    bots = ["0", "1", "-1", "2", "d2", "d[0,1]", "d[0]", "dF", "2dF", "d[-1,1]", "d4 - 1", "d4 - 5", "3d6k0", "2d6d2", "0d6",
            "1 - 1", "d6 == 7", "d6 == 1", "d6 > 0", "!d6", "!0", "(d2 - 2)", "ABS(dF)", "MIN(dF, 1)", "MAX(d2, 0)",
            "MAX(0, 0)", "d2 - d2", "False", "True", "d2 * 0", "d3 // 2", "d2 // 2", "d[2,3] // 2", "3d4 - 2"]
    for t in tops[: 3 if tier == "quick" else None]:
        for b in bots:
            line = "%s // (%s)" % (t, b)
            for q in (r.sample(QS, 3) if tier == "quick" else QS):
                groups.append([call(q, [line], lv="err")])
    forms = ["1 + 6 // (%s)", "MAX(6 // (%s), 2)", "MIN(3, 6 // (%s))", "!(6 // (%s))", "ABS(6 // (%s))", "(6 // (%s))",
             "6 // (%s) == 2", "VAR q = 6 // (%s)", "6 // (%s) // 2", "6 // 2 // (%s)", "0 * (6 // (%s))", "12 // (6 // (%s))",
             "MAX(1, (MIN(2, 6 // (%s))))", "1 AND 6 // (%s)", "(6 // (%s)) OR 1", "0 AND (6 // (%s))", "1 OR (6 // (%s))", "6 // (%s) * 0",
             "VAR q = MAX(6 // (%s), 1)", "VAR q = (6 // (%s))", "VAR q = !(6 // (%s))", "ABS(ABS(6 // (%s)))", "!(!(6 // (%s)))",
             "3 - 6 // (%s) - 1", "MIN(6 // (%s), 6 // (%s))", "(6 // (%s)) // (%s)", "d0k1 + 6 // (%s)", "d6 // ((%s) * 1)", "1 // ABS(%s)",
             "1 // MAX(%s, -1)", "1 // MIN(1, %s)", "1 // ((%s) + 1)", "1 // !(%s)", "(0 // (%s)) // (0 // (%s))"]
    for f in forms:
        for b in r.sample(bots, 8 if tier == "quick" else len(bots)):
            for q in r.sample(QS, 3):
                groups.append([call(q, [f.replace("%s", b)], lv="err")])
    # wide divisors, with and without a zero somewhere inside
    wide = ["d[-50-50]", "d[-50--1,1-50]", "2d20 - 21", "d20 - 7", "d100 - 100", "d100 - 101", "d100 - 1", "d100", "3d6 - 2", "3d6 - 18", "3d6 - 19", "d[5-90,0]", "d[0,5-90]",
            "d12 - d12", "d12 - d12 * 2", "d[13-24] - d12", "d[-300,300]", "2d[-300,300]", "3d[-300,300]", "d[1-9] * d[-4,0,4]", "d[100,200] // 101", "d[-100,200] // 101", "d[-102,202] // 101",
            "20d2 - 19", "20d2 - 20", "20d2 - 41", "10d2k3 - 3", "10d2k3 - 2", "10d2d9 - 1", "d30 > 0", "d30 > 1", "d30 == 31", "(d30 > 0) * d4", "1000 - d%", "100 - d%", "99 - 2d%",
            "d[7,14,21] - 13", "d[7,14,21] - 14", "MIN(d40, d50) - 40", "MIN(d40, d50) - 41", "MAX(d40, d50) - 41", "ABS(d[-30--10,10-30]) - 9"]
    for b in wide:
        for q in (r.sample(QS, 3) if tier == "quick" else QS):
            groups.append([call(q, [r.choice(["100 // (%s)", "VAR q = d2 // (%s)", "MAX(7 // (%s), 3)", "1 + (5 // (%s))"]).replace("%s", b)], lv="err")])
        groups.append([call(r.choice(QS), ["VAR a = " + b, r.choice(["9 // a", "a // a", "VAR b = 9 // a"])], lv="err")])
    vp = [["VAR a = d3 - 1", "6 // a"], ["VAR a = d3", "6 // a"], ["VAR a = dF", "VAR b = a * a", "6 // b"],
          ["VAR a = d3", "6 // (a - a)"], ["VAR a = d3", "6 // (a - a + 1)"], ["VAR a = dF", "6 // (a * a + 1)"],
          ["VAR a = d3", "VAR b = 4 - a", "6 // (a - b)"], ["VAR a = d3", "VAR b = a", "VAR a = d3", "6 // (a - b)"],
          ["VAR a = dF", "a // a"], ["VAR a = d2", "a // a"], ["VAR a = d2", "6 // (a == a)"], ["VAR a = d2", "6 // (a != a)"],
          ["VAR a = 6 // dF", "1"], ["VAR a = d6", "VAR a = 6 // (a - 3)", "a"], ["6 // 0", "1"], ["1", "6 // 0"],
          ["VAR a = 0", "VAR b = 6 // a", "b"], ["VAR a = d[-1,1]", "6 // a"], ["VAR a = d[-1,1]", "VAR b = a + a", "6 // b"],
          ["VAR a = d[-1,1]", "VAR b = d[-1,1]", "6 // (a + b)"], ["VAR a = d[-3,5]", "VAR b = a * a - 9", "6 // b"], ["VAR a = dF", "6 // (a OR 1)"],
          ["VAR a = dF", "6 // ABS(a)"], ["VAR a = dF", "6 // MAX(a, 1)"], ["VAR a = dF", "6 // MIN(a, -1)"], ["VAR a = dF", "MAX(6 // a, a)"],
          ["VAR a = d3", "VAR a = a - 2", "VAR a = a * a", "VAR a = 1 // a", "a"], ["VAR a = d3", "VAR b = a", "VAR a = d3", "VAR c = b - a", "1 // c"],
          ["VAR a = d3", "VAR b = a - a", "VAR c = 1 // (b + 1)", "c // b"], ["VAR a = d2", "6 // (a > 0)"], ["VAR a = d2", "6 // (a > 1)"],
          ["VAR a = d[2,4]", "6 // (a - 3)"], ["VAR a = d[2,4]", "6 // (a // 2 - 1)"], ["VAR a = 2d2", "6 // (a - 5)"], ["VAR a = 2d[-5,5]", "6 // a"],
          ["VAR a = 3d[-5,5]", "6 // a"], ["VAR a = 3d2k2", "6 // (a - 3)"], ["VAR a = 3d2d2", "6 // (a - 3)"]]
    for p in vp:
        for q in QS:
            groups.append([call(q, p, lv="err"), call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)])
    for _ in range(120 if tier == "quick" else 2500):
        if r.random() < 0.5:
            lines, _ = g.program(r.choice([1, 2]), depth=1, div=True, maxn=6, fdepth=2, budget=100,
                                 ops=["//", "//", "-", "+", "*", "==", "MIN"])
        else:
            lines = [g.expr(r.choice([2, 3]), maxn=60, ops=["//", "//", "-", "+", "*", "<", "MAX"]).text]
        groups.append([call(r.choice(QS), lines, lv="err")])
    # rolls: the divisor is known from the call before
    for k in range(12 if tier == "quick" else 80):
        for d in ["d2 - 1", "dF", "d[0,0,1]", "2d2 - 3"]:
            ops = [call("roll", ["VAR a = " + d], rseed=r.randint(0, 10 ** 6))]
            for e in ["6 // a", "a // a", "VAR b = 6 // (a - 1)", "6 // !a", "MAX(6 // a, 1)", "0 * (1 // a)", "a"]:
                ops.append(call("roll", [e], fresh=False))
            groups.append(ops)
    for b in bots:
        groups.append([call("roll", ["6 // (%s)" % b], fresh=(k == 0), rseed=r.randint(0, 10 ** 6)) for k in range(6)])
    groups += padded(g, groups, 20 if tier == "quick" else 200)
    return groups


# ================================================================ C10
def token_soup(g, depth):
    """a well-formed line of constants and known names, no redundant brackets needed: grouping matters"""
    r = g.r

    def atom(d):
        k = r.random()
        if d > 0 and k < 0.12:
            return "(" + seq(d - 1) + ")"
        if d > 0 and k < 0.2:
            return "ABS(" + seq(d - 1) + ")"
        if d > 0 and k < 0.3:
            return r.choice(MM) + "(" + seq(d - 1) + "," + " " * r.randint(0, 1) + seq(d - 1) + ")"
        if k < 0.36:
            return r.choice(["True", "False"])
        if k < 0.6:
            return r.choice(["a", "b", "c", "ab", "d", "k"])
        return str(r.choice([0, 1, 1, 2, 2, 3, 5, 7, 11, -1, -2, -3] if r.random() < 0.95 else [100, 255, 1000, -1234, 99]))

    def seq(d):
        n = r.choice([1, 2, 2, 3, 3, 4])
        out = [atom(d)]
        for _ in range(n - 1):
            op = r.choice(ARITH + ARITH + CMP + LOGIC)
            out.append(op)
            if r.random() < 0.08:
                out.append("!")
            out.append(atom(d))
        if r.random() < 0.1:
            out.insert(0, "!")
        return " ".join(out)

    return seq(depth)


def respace(g, text):
    """insert blanks around tokens whose neighbours are blanks, brackets or commas already"""
    r = g.r
    out = []
    for ch in text:
        if ch == " ":
            out.append(r.choice([" ", "  ", "\t", " \n ", "   ", "\r\n", "\f", "\n\n", "\t\t", "\v", "\r", "\u00a0"]))
        elif ch in "(),":
            out.append(r.choice(["", " ", "  "]) + ch + r.choice(["", " ", "\t"]))
        else:
            out.append(ch)
    return r.choice(["", " ", "\t"]) + "".join(out) + r.choice(["", " ", "\n"])


SETUP = ["VAR a = 3", "VAR b = 4", "VAR c = -5", "VAR ab = 6", "VAR d = 2", "VAR k = 1"]


def gen_c10(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    lines = ["1 + 2 * 3", "2 * 3 + 1", "8 - 3 - 2", "8 // 3 // 2", "8 - 3 + 2", "8 * 3 // 5", "8 // 3 * 5", "1 + 2 == 3",
             "3 == 1 + 2", "2 * 3 == 6", "1 < 2 < 3", "3 > 2 > 1", "1 + 1 AND 0", "2 AND 1 + 1", "1 OR 0 * 5",
             "!0 + 1", "1 + !0 + 1", "!1 == 0", "! 0 AND 0", "(!0) AND 0", "!(0 AND 0)", "- 1", "5 - -3", "5 -3",
             "5-3", "5 - 3", "1+2", "1+ 2", "1*2", "4//2", "1==1", "1 ==1", "1<=2", "1< =2", "!1", "! 1", "!!1", "!!!0",
             "MAX(1,2)", "MAX (1 , 2)", "MIN(1+1, 2*0)", "ABS(-3)", "ABS( -3 ) * 2", "MAX(1, 2) * 3 + 1",
             "2 * MAX(1, 2)", "((((1))))", "( 1 + 2 ) * 3", "3 * ( 1 + 2 )", "True", "False + 1", "True AND True",
             "Truex", "aTrue", "MAXa(1,2)", "a b", "ab", "a_b", "a AND b", "aANDb", "VAR x = 1", "VAR  x=1+1", "VARx=1",
             "VAR x == 1", "VAR x = = 1", "VAR x = 1 == 1", "1 + VAR x = 2", "(VAR x = 2) + 1", "VAR x = VAR y = 3",
             "d6", "1d6", "a d6", "ad6", "d d6", "d", "k", "dk", "d6k", "2d6k1 + 1", "2d6d1 + 1", "2d6 k1", "2d6k 1",
             "1 + d1", "1 +d1", "1d1", "d1 d1", "d1d1", "d1d1d1", "1d1k1k1", "2d1d1 * 3", "d[1] + 1", "d[ 1, 1 ]*3",
             "dF * 0", "d% // 200", "1,2", "()", "(", ")", "MAX(1)", "MAX(1,2,3)", "ABS(1,2)", "ABS 1", "MAX 1, 2",
             "1 + + 2", "1 + * 2", "* 2", "2 *", "!", "= 1", "VAR", "VAR 1 = 2", "VAR a", "VAR a =", "a = 1", "1 1",
             "1 = 1", "1 ! = 2", "1 != 2", "1 !=2", "1!=2", "!=2", "1 => 2", "1 =< 2", "1 & 2", "1 and 2", "1 or 2", "0 OR 0",
             "_ + 1", "A", "aB", "a1", "1a", "10 // 3 - 2 * 2 == 4", "10 - 2 - 3 * 2 // 4", "7 == 7 == 1", "2 < 3 AND 3 < 2",
             "1 - 2 * 3 - 4", "2 + 3 * 4 == 12 + 1", "MIN(3, 4) == 3 AND 1", "-1 // 2", "-(1)", "5 * -1", "5 *-1", "5//-2"]
    for t in lines:
        groups.append([{"ev": "parse", "t": t, "lv": "err"}])
        if "VAR" not in t:
            groups.append([call("roll", SETUP), call("roll", [t], fresh=False)])
            groups.append([call("dist", SETUP), call("dist", [t], fresh=False)])
    lines = ["1000 + 234", "12345 - 345", "1000000 // 7", "-1000 * -1000", "99999 == 99999", "1000-1", "10 -1000", "1_000", "_ - 1000",
             "0001 + 010", "00", "-0", "- 0", "--1", "5 - - 3", "5 --3", "5---3", "1 + -1", "1 +-1", "1 * -1", "-1-1", "-1 -1", "-1 - 1",
             "a-1", "a -1", "a - 1", "a- 1", "(a)-1", "(a)-(1)", "(1)(2)", "a(1)", "1(a)", "MAX(1,2)-1", "MAX(1,2) - 1", "ABS(-1)-1", "ABS(-1)+1",
             "MAX(MAX(1,2),MAX(3,4))", "MIN(ABS(-1),!0)", "MIN(!0, 5)", "MAX(!1 + 5, 2)", "ABS(!1)", "(!1) + 5", "!(1) + 5", "!1 + 5", "5 + !1 * 3",
             "2 * !0 == 1", "!a == 3", "!(a == 3)", "a == !0", "1 == 1 == 1 == 1", "3 > 2 == 1", "1 AND 1 OR 0", "0 OR 1 AND 0", "1 OR 0 AND 0",
             "1 < 2 AND 3 < 4", "1 + 1 == 2 * 1", "6 // 2 == 3", "6 // (2 == 3) + 1", "2 * 3 == 3 * 2", "10 - 1 > 5", "10 - (1 > 5)",
             "MAX(1 == 1, 2 * 3 + 1)", "((1 + 2) * (3 + 4)) // (5 - 3)", "( ( 1 ) )", "(1", "or_x", "or", "and", "not", "max", "abs(1)", "var",
             "OR_x", "ORx", "xOR", "1 ORx", "1 OR1", "1OR 1", "1 OR 1", "aOR b", "a OR_b", "a ORb", "ANDa", "a AND_ b", "VAR_x", "VARa = 1", "VAR_ = 1",
             "VAR _= 1", "VAR a= 1", "VAR a =1", "VAR a=1", "VAR\ta\t=\t1", "VAR\na\n=\n1", "VAR  a  =  ( 1 )", "MAX_(1,2)", "MAXIMUM(1,2)", "MAX\t(1,2)",
             "MAX\n(\n1\n,\n2\n)", "ABS\n(1)", "True_", "_True", "TrueFalse", "True False", "True1", "1True", "TRUE", "False==0", "d6d6", "d6 d6",
             "d6k1d1", "d6_", "d6a", "d6F", "dF1", "dFk1", "dFd1", "dFF", "d%%", "d%1", "d%k1", "1dFk1", "d[1]k1", "d[1]d1", "d[1]2", "d[1]a", "d[1](1)",
             "a_ + _a", "a1b", "1d1a", "d1k1a", "d1k1_", "d1d1d", "dd1", "d d1", "kd1", "k d1", "1\n+\n1", "1\r\n+ 1", "1\f+ 1",
             "<", "1 < 2", "1<2", "1 <2", "1< 2", "1 <= 2", "1 <=2", "1 >= 1", "1>=1", "1 = = 1", "1 === 1", "1 !== 1", "1 <> 2", "1 =! 2", "! = 1", "1 != !0",
             "1 == -1", "1 ==-1", "1==-1", "1 <-1", "1 >-1", "2 //-1", "2// -1", "2 / / 1", "2 * * 3", "2 ** 3", "2 + + 3", "2 - - 3", "2 ++ 3",
             "(" * 40 + "7" + ")" * 40, "(" * 40 + "7" + ")" * 39, "!" * 31 + "0", " + ".join(["1"] * 60), " - ".join(["9"] * 60), " // ".join(["5"] + ["1"] * 40),
             "MAX(" * 12 + "1" + ", 2)" * 12, "ABS(" * 20 + "-3" + ")" * 20, " AND ".join(["1"] * 30), " == ".join(["1"] * 25),
             " * ".join(["1 + 2"] * 20), " + ".join(["1"] * 150), " - ".join(["1"] * 200), "8 - " * 130 + "1 == 3", "(" * 130 + "1" + ")" * 130 + " + 4", "a" * 80, "VAR " + "ab_" * 20 + " = 1"]
    for t in lines:
        groups.append([{"ev": "parse", "t": t, "lv": "err"}])
        if "VAR" not in t:
            groups.append([call("roll", SETUP), call("roll", [t], fresh=False)])
            groups.append([call("dist", SETUP), call("dist", [t], fresh=False)])
    n = 420 if tier == "quick" else 6000
    batch = []
    for _ in range(n):
        t = token_soup(g, r.choice([0, 1, 1, 2]))
        batch.append(t)
        if r.random() < 0.35:
            batch.append(respace(g, t))
    for k in range(0, len(batch), 10):
        groups.append([call("roll", SETUP)] + [call("roll", [t], fresh=False) for t in batch[k:k + 10]])
        if k % 20 == 0:
            groups.append([call("dist", SETUP)] + [call("dist", [t], fresh=False) for t in batch[k:k + 10]])
    # every short token string
    toks = ["1", "2", "a", "d1", "2d1k1", "+", "-", "*", "//", "==", "AND", "!", "(", ")", ",", "MAX", "ABS", "VAR", "=", "True"]
    top = 3 if tier == "quick" else 4
    for ln in range(1, top + 1):
        combos = list(itertools.product(toks, repeat=ln))
        if ln == 3 and tier == "quick":
            combos = r.sample(combos, 1500)
        if ln == 4:
            combos = r.sample(combos, 30000)
        for c in combos:
            sep = r.choice([" ", " ", ""])
            groups.append([{"ev": "parse", "t": sep.join(c), "lv": "err"}])
    groups += padded(g, groups, 30 if tier == "quick" else 300)
    for _ in range(40 if tier == "quick" else 500):      # texts alike, one after the other
        t = token_soup(g, r.choice([0, 1]))
        ts = alike(g, t)
        ts.insert(r.randrange(3), t)
        groups.append([call("roll", SETUP)] + [call("roll", [x], fresh=False) for x in ts + [t]])
        groups.append([call("dist", SETUP)] + [call("dist", [x], fresh=False) for x in ts + [t]])
    return groups


# ================================================================ C11
def gen_c11(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    for _ in range(130 if tier == "quick" else 2500):
        groups.append(random_session(g, r.randint(5, 12)))
    for _ in range(40 if tier == "quick" else 800):
        groups.append(random_session(g, r.randint(5, 12), names=tuple(r.sample(CLOSE_NAMES, 4))))
    for _ in range(70 if tier == "quick" else 1500):
        groups.append(state_session(g, r.randint(6, 12)))
    for k in range(40 if tier == "quick" else 800):      # larger numbers, up to many names
        groups.append(random_session(g, r.randint(6, 14), names=tuple("v" + n for n in "abcdefghijkl"[:[3, 3, 6, 12][k % 4]]), line=large_line))
    for n in (9, 10, 11, 16, 17, 33):      # many variables, each kept to itself
        ns = [x + y for x in "vwx" for y in "abcdefghijklmn"][:n]
        q = r.choice(["roll", "dist", "max", "min"])
        ops = [call(q, ["VAR %s = %d" % (x, (k * 7) % 50) for k, x in enumerate(ns)])]
        for _ in range(4):
            ops.append(call(r.choice(["roll", "dist", "max", "min", "avg"]), ["VAR %s = %s" % (r.choice(ns), r.choice(["d2", "0", "99"])), r.choice(ns)], fresh=False, lv="err"))
        groups.append(ops + [call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)])
    for _ in range(3 if tier == "quick" else 40):
        groups.append(random_session(g, 60, names=("a", "b")))
    # every query kind fails in the middle: what came before stays, what failed does not
    QS = ["roll", "max", "min", "dist", "dict", "avg", "hist"]
    for k in range(3):       # every chart query once for sure
        for e in ["a", "VAR b = a + 1"]:
            groups.append([dict(call("hist", ["VAR a = d3", e]), meth=METH[k]), call("dist", ["a"], fresh=False), call("roll", ["0"], fresh=False),
                           dict(call("hist", ["VAR a = 5", "VAR c = d2", "nope"], fresh=False, lv="err"), meth=METH[k]), call("dist", ["a + c"], fresh=False),
                           dict(call("hist", ["c - a"], fresh=False), meth=METH[k]), call("dict", ["MAX(a, c)"], fresh=False)])
    fails = ["nope", "VAR b = nope", "VAR b = MAX(nope, 1)", "VAR a = a + nope", "1 // 0", "VAR b = 1 // 0", "VAR b = MAX(1, 2 // 0)", "VAR a = a // 0",
             "VAR b = (nope)", "VAR b = !nope", "VAR b = ABS(1 // 0)", "1 +", "VAR b = 1 +", "VAR b = d0", "VAR b = MIN(1, (nope))", "MAX(1, nope)"]
    def meth(q):
        return {"meth": r.choice(METH)} if q == "hist" else {}

    for q in QS + ["hist", "hist"]:
        for bad in fails:
            pre = r.choice(["VAR a = d3", "VAR a = 2", "VAR b = d2"])
            first = r.choice(["roll", "dist", "max", "min", "avg"])
            groups.append([call(first, ["VAR a = d2", "VAR b = 4"], rseed=r.randint(0, 10 ** 6)),
                           call(q, [pre, "VAR c = 7", bad, "VAR a = 9", "VAR z = 1"], fresh=False, lv="err", rseed=r.randint(0, 10 ** 6), **meth(q)),
                           call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False),
                           call(r.choice(QS), ["c"], fresh=False, lv="err"), call(r.choice(QS), ["z"], fresh=False, lv="err"),
                           call(r.choice(["max", "min"]), ["MAX(a, b) + 0"], fresh=False)])
    # a line fails after an assignment inside it
    for q in ["roll", "dist"]:
        for line in ["MAX(VAR a = 5, 1 // 0)", "(VAR a = 5) + nope", "nope + (VAR a = 5)", "VAR b = (VAR a = 5) // 0", "MIN(1 // 0, VAR a = 5)", "VAR b = MAX(VAR a = 5, nope)"]:
            groups.append([{"ev": "nestfail", "q": q, "names": ["a"], "was": [1], "to": [5], "line": line}])
    # which store each kind of query writes and reads
    for q in QS + ["cost", "hist", "hist"]:
        for q2 in QS + ["hist", "hist"]:
            e = r.choice(["a", "a + 0", "(a)", "MAX(a, 1)", "VAR b = a", "VAR b = a + 1", "VAR a = a", "((a))", "MIN((a), a * 2)"])
            groups.append([call(q, ["VAR a = %s" % r.choice(["d2", "d[5,9]", "3"])], rseed=r.randint(0, 10 ** 6), rid=1 if q not in ("hist", "cost") else 0, **meth(q)),
                           call(q2, [e], fresh=False, lv="full", rseed=r.randint(0, 10 ** 6), rid=2 if q2 != "hist" else 0, **meth(q2)),
                           call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)]
                          + ([{"ev": "same", "rid": 1}] if q not in ("hist", "cost") else []) + ([{"ev": "same", "rid": 2}] if q2 != "hist" else []))
    return groups


MALFORMED = ["1 +", "VAR a =", "VAR b = 1 $", "d0", "(1", "VAR a = d0", "€", "VAR = 3", "a b", "VAR a = 5 5"]


def state_session(g, length):
    """one store behind several interpreters, and lines parsed early and used late"""
    r = g.r
    names = ("a", "b", "c")
    hold = {}
    for k in range(r.choice([1, 2, 3, 4])):
        line = session_line(g, names)
        if line not in MALFORMED:
            hold["h%d" % k] = line
    ops = [{"ev": "begin", "i": 1, "hold": hold}]
    rid = 0
    for k in range(length):
        q = r.choice(["roll", "roll", "max", "min", "dist", "dist", "dict", "avg", "cost"])
        rid += 1
        kw = {"rid": rid if q != "cost" else 0, "rseed": r.randint(0, 10 ** 6), "fresh": k == 0}
        if hold and k and r.random() < 0.45:
            h = r.choice(sorted(hold))
            if q == "cost":
                q = "roll"
            ops.append(call(q, [hold[h]], hold=h, **kw))
        else:
            lines = [session_line(g, names, q == "cost") for _ in range(r.choice([1, 1, 2]))]
            ops.append(call(q, lines, **({"via": 1} if r.random() < 0.4 and k else {}), **kw))
        if r.random() < 0.4:
            ops.append(call(r.choice(["roll", "dist"]), ["0"], fresh=False, **({"via": 1} if r.random() < 0.5 else {})))
        if q != "cost" and r.random() < 0.4:
            ops.append({"ev": "same", "rid": r.randint(1, rid)})
    ops += [call("roll", ["0"], fresh=False, via=1), call("dist", ["0"], fresh=False)]
    return ops


def session_line(g, names, cost_only=False):
    r = g.r
    k = r.random()
    if cost_only:
        return r.choice(["VAR %s = %s" % (r.choice(names), r.choice(["d4", "2d2", "3", "d2 + 1"])), "d6", "7", "2d3 * 2"])
    if k < 0.34:
        return "VAR %s = %s" % (r.choice(names), r.choice(["d2", "d3", "5", "-1", "2d2", "d[0,3]", "0"]))
    if k < 0.5:
        return "VAR %s = %s" % (r.choice(names), r.choice(["%s + 1", "%s", "(%s)", "MAX(%s, 2)", "2 - %s", "6 // %s", "%s + d2"]) % r.choice(names))
    if k < 0.74:
        return r.choice(["%s", "(%s)", "%s + 0", "MIN(%s, 3)", "!%s", "%s * 2", "ABS(%s)", "4 // %s", "%s == %s".replace("%s", "%%s", 0)])\
            .replace("%s", r.choice(names))
    if k < 0.82:
        return r.choice(["nope", "nope + 1", "MAX(nope, 1)", "VAR q = nope", "VAR a = nope + a", "VAR b = MAX(1, nope)"])
    if k < 0.9:
        return r.choice(MALFORMED)
    if k < 0.95:
        return r.choice(["1 // 0", "VAR a = 1 // 0", "VAR b = 2 // d[0,1]", "MAX(1, 3 // 0)", "VAR c = MIN(d2, 4 // dF)"])
    return r.choice(["d2", "3", "0", "2d2"])


METH = ["get_histogram", "get_at_least_histogram", "get_at_most_histogram"]


def large_line(g, names, cost_only=False):
    """as session_line, with larger numbers; only rolls of equal chances, read together freely"""
    r = g.r
    k = r.random()
    x, y, z = r.choice(names), r.choice(names), r.choice(names)
    if cost_only or k < 0.45:
        few = ["d[-5,1000]", "d[3,33,333]", "d[7,7000]"] + (["d20", "5 - d7", "d9 * 100", "!d3"] if len(names) < 4 else [])
        sure = ["100", "-250", "0", "65536", "4d6k0", "0d9", "3d6d3", "12 * 12", "99999 - 1"]
        return "VAR %s = %s" % (x, r.choice(few if r.random() < (0.5 if len(names) < 4 else 0.2) else sure))
    if k < 0.65:
        return "VAR %s = %s" % (x, r.choice(["%s", "(%s)", "MAX(%s, 50)", "MIN((%s), 7)", "%s > 9", "%s - 1000", "ABS(%s)", "!%s"]) % y)
    if k < 0.9:
        return r.choice(["%s", "(%s)", "%s * 3", "MAX(%s, 200)", "MIN(%s, -3)", "%s == 100", "%s // 7", "1000 // %s", "ABS(%s)", "!%s"]) % y
    if k < 0.95:
        return r.choice(["nope", "VAR %s = nope" % x, "VAR %s = %s // 0" % (x, y), "1 $ 2", "VAR %s = d0" % x])
    return "%s - %s" % (y, z) if r.random() < 0.5 else "VAR %s = MAX(%s, %s)" % (x, y, y)


def random_session(g, length, ids=(1,), names=("a", "b", "c"), line=None):
    r = g.r
    session_line = line or globals()["session_line"]
    ops = []
    rid = 0
    live = []
    started = set()
    for _ in range(length):
        i = r.choice(ids)
        q = r.choice(["roll", "roll", "max", "min", "dist", "dist", "dict", "avg", "hist" if r.random() < 0.1 else "dist", "cost"])
        n = r.choice([1, 1, 2, 2, 3])
        lines = [session_line(g, names, q == "cost") for _ in range(n)]
        if q == "hist" and line is large_line:      # a chart of thousands of bars takes minutes
            lines.append("d4")
        rid += 1
        ops.append(call(q, lines, i=i, fresh=i not in started, rid=rid if q != "hist" and q != "cost" else 0,
                        rseed=r.randint(0, 10 ** 6), **({"meth": r.choice(METH)} if q == "hist" else {})))
        started.add(i)
        if q not in ("hist", "cost"):
            live.append(rid)
        # look at both stores
        if r.random() < 0.6:
            ops.append(call("roll", ["0"], i=i, fresh=False))
        if r.random() < 0.4:
            ops.append(call("dist", ["0"], i=i, fresh=False))
        if live and r.random() < 0.5:
            ops.append({"ev": "same", "rid": r.choice(live)})
        if live and r.random() < 0.25:
            x = r.choice(live)
            live.remove(x)
            ops.append({"ev": "spoil", "rid": x})
    for i in sorted(started):
        ops.append(call("roll", ["0"], i=i, fresh=False))
        ops.append(call("dist", ["0"], i=i, fresh=False))
    for x in live:
        ops.append({"ev": "same", "rid": x})
    return ops


# ================================================================ C12
def isolated(ops, i):
    """the calls of interpreter i alone"""
    out = []
    for o in ops:
        if o["ev"] == "call" and o["i"] == i:
            out.append(dict(o, i=1))
    return out


def det(ops):
    return [dict(o, lv="det") if o["ev"] == "call" else o for o in ops]


def gen_c12(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    QS = ["dist", "dist", "dict", "avg", "min", "max", "cost"]
    big = tier != "quick"
    # the same program again and again, on the same and on new interpreters, own and shared parsers
    for _ in range(120 if not big else 1500):
        lines, _ = g.program(r.choice([1, 2, 3]), depth=1, div=r.random() < 0.2, maxn=12, fdepth=2, budget=2000)
        q, q2 = r.choice(QS), r.choice(QS)
        rs = r.randint(0, 10 ** 6)
        ops = [call(q, lines, i=1, own=r.random() < 0.3), call(q, lines, i=1, fresh=False), call(q, lines, i=2),
               call(q2, lines, i=2, fresh=False), call(q, lines, i=1, fresh=False),
               call("roll", lines, i=2, fresh=False, rseed=rs), call(q, lines, i=2, fresh=False),
               call(q2, lines, i=3), call(q, lines, i=3, fresh=False), call(q, lines, i=4)]
        groups.append(ops)
        for i in (2, 3):
            groups.append(isolated(ops, i))
    # asked again and again on one interpreter: a self-contained program gives the same each time
    for _ in range(60 if not big else 600):
        lines, _ = g.program(r.choice([1, 2]), depth=1, div=False, maxn=6, fdepth=2, budget=200)
        q = r.choice(QS)
        groups.append([{"ev": "again", "q": q, "lines": lines, "times": 4, "mix": r.choice(QS + ["roll"])}])
    # interpreters that use the same names and the same text for different things, interleaved
    for _ in range(120 if not big else 1500):
        ids = (1, 2, 3)[: r.choice([2, 2, 3])]
        ops = random_session(g, r.randint(6, 10), ids=ids)
        groups.append(ops)
        for i in ids:
            groups.append(isolated(ops, i))
    for _ in range(80 if not big else 800):
        n = r.choice(["a", "b"])
        d1, d2, d3 = r.sample(["d2", "d3", "2d2", "5", "dF", "d[0,7]", "d3 + 1"], 3)
        e = r.choice(["%s + 1", "%s * %s", "MAX(%s, 2)", "%s", "!%s", "%s - d2", "%s - %s", "%s == %s"]).replace("%s", n)
        q = r.choice(["dist", "max", "min", "avg"])
        ops = [call(q, ["VAR %s = %s" % (n, d1)], i=1), call(q, ["VAR %s = %s" % (n, d2)], i=2),
               call(q, [e], i=1, fresh=False), call(q, [e], i=2, fresh=False), call(q, [e], i=1, fresh=False),
               call(q, ["VAR %s = %s" % (n, d3)], i=1, fresh=False), call(q, [e], i=2, fresh=False),
               call(q, [e], i=1, fresh=False), call(q, ["VAR %s = %s" % (n, d2)], i=3), call(q, [e], i=3, fresh=False)]
        groups.append(ops)
        for i in (1, 2, 3):
            groups.append(isolated(ops, i))
    # more than a handful of distinct lines, then the first ones again
    lits = ["%dd%d" % (n, s) for n in range(1, 5) for s in range(1, 7)] + ["2d[1,2*%d]" % k for k in range(1, 20)] + \
        ["3d4k%d" % k for k in range(5)] + ["3d4d%d" % k for k in range(5)]
    # hundreds of different lines on one interpreter and on many, then the first ones again
    many = ["%d + %d * d%d" % (k % 7, k % 11, k % 5 + 1) for k in range(140 if not big else 1500)] + ["VAR a = %d - d3" % k for k in range(60)]
    for q in ("dist", "max") if not big else QS:
        groups.append([call(q, [x], i=1, fresh=(k == 0)) for k, x in enumerate(many + many[:20])])
        groups.append([call(q, [x], i=k) for k, x in enumerate(many[-60:] + many[:100])])
    # an interpreter whose calls fail in between must not disturb the other
    for _ in range(40 if not big else 500):
        n = r.choice(["a", "b"])
        bad = [r.choice(["nope", "1 // 0", "1 +", "VAR a = 1 // 0", "VAR a = nope + 1", "d0", "VAR a = MAX(1, 2 // dF)"]) for _ in range(3)]
        q = r.choice(["dist", "max", "min", "avg", "roll"])
        q2 = r.choice(["dist", "max", "min", "avg"])
        ops = [call(q2, ["VAR %s = d3" % n], i=1), call(q, ["VAR %s = d2" % n, bad[0]], i=2), call(q2, [n + " + 1"], i=1, fresh=False),
               call(q, [bad[1]], i=2, fresh=False), call(q2, ["VAR %s = %s * 2" % (n, n), n], i=1, fresh=False), call(q, [bad[2]], i=2, fresh=False),
               call(q2, [n + " - " + n], i=1, fresh=False), call(q2, [n], i=2, fresh=False), call("dist", ["0"], i=2, fresh=False)]
        groups += [ops, isolated(ops, 1), isolated(ops, 2)]
    for _ in range(2):
        r.shuffle(lits)
        groups.append([call("dist", [x], i=k) for k, x in enumerate(lits + lits)])
        groups.append([call("dist", [x]) for x in lits])
    groups = [det(x) for x in groups if x]
    # interpreters at work at the same time
    for _ in range(25 if not big else 300):
        plan = []
        for _ in range(r.choice([2, 3, 4])):
            mine = []
            for _ in range(r.choice([6, 10])):
                lines, _ = g.program(r.choice([1, 2]), depth=1, div=r.random() < 0.2, maxn=8, fdepth=1, budget=300)
                mine.append([r.choice(QS + ["dist", "roll"]), lines])
                name = re.match(r"VAR\s+([a-z_]+)", lines[0]).group(1)
                mine.append([r.choice(["dist", "max", "avg"]), ["%s + %s" % (name, name)]])
            plan.append(mine)
        groups.append([{"ev": "threads", "plan": plan, "own": r.random() < 0.3, "lv": "det"}])
        groups += [[call(q, lines, fresh=(k == 0), lv="det") for k, (q, lines) in enumerate(mine)] for mine in plan]
    for x in groups:       # some interpreters are made together, before any of them is used
        ids = sorted({o["i"] for o in x if o["ev"] == "call"})
        if 1 < len(ids) <= 8 and r.random() < 0.6:
            x.insert(0, {"ev": "make", "ids": r.sample(ids, len(ids)), "own": r.random() < 0.5})
    for _ in range(60 if not big else 600):
        groups.append(obj_session(g, 12))
    return groups


# ================================================================ C13
CN = ["x", "y"]
CV = [0, 1, 2]


def rand_con(g, names=tuple(CN + ["z"]), vals=tuple(CV + [10]), rare=0.18):
    r = g.r
    k = r.random()
    if k < rare * 2 / 3:
        return ["null"]
    if k < rare:
        return ["imp"]
    return ["var", r.choice(names), sorted(r.sample(vals, min(len(vals), r.choice([0, 1, 1, 2, 2, 3, 4] if rare > 0.1 else [1, 2, 3, 4, 4, 5, 8, 12, len(vals) - 2] if len(vals) > 12 else [1, 2, 3, 4, 4, 5]))))]


def gen_c13(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    base = {"names": CN + ["z"], "vals": CV + [10]}
    for _ in range(220 if tier == "quick" else 4000):
        ops = []
        ids = []
        for step in range(r.randint(3, 8)):
            k = r.random()
            if len(ids) < 2 or k < 0.25:
                n = r.choice([1, 1, 2, 3])
                ids.append(len(ids) + 1)
                ops.append(dict(base, ev="cset", op="new", o=ids[-1], cs=[rand_con(g) for _ in range(n)]))
            elif k < 0.6:
                ops.append(dict(base, ev="cset", op="add", o=r.choice(ids), cs=[rand_con(g)]))
            else:
                a, b = r.choice(ids), r.choice(ids)
                ids.append(len(ids) + 1)
                ops.append(dict(base, ev="cset", op="comb", o=ids[-1], a=a, b=b))
        groups.append(ops)
    # more names and values, longer histories, names and values that look alike
    spaces = [(["x", "y", "z", "w"], [-1, 0, 1]), (["a", "a_", "aa"], [0, 1, 10, 11]), (["x"], list(range(-3, 14))), (["x", "y"], [-2, -1, 1, 2, 12, 21]),
              (["a", "b", "c", "d", "e"], [0, 1]), (["x"], [-300, -5, 0, 1, 256, 257, 1000, 1001]), (["x", "y"], [1, 2, 3, 5, 8, 300]), (["x"], list(range(1, 41))), (["x"], list(range(-40, 60, 4))),
              (["x", "xx"], list(range(13)))]
    for _ in range(120 if tier == "quick" else 2500):
        names, vals = r.choice(spaces)
        base2 = {"names": names, "vals": vals}
        ops, ids = [], []
        for _ in range(r.randint(4, 14)):
            k = r.random()
            con = lambda: rand_con(g, names, vals, 0.06)  # noqa: E731
            if len(ids) < 2 or k < 0.2:
                ids.append(len(ids) + 1)
                ops.append(dict(base2, ev="cset", op="new", o=ids[-1], via=r.choice(["", "merge"]), cs=[con() for _ in range(r.choice([1, 1, 2, 3, 5]))]))
            elif k < 0.65:
                ops.append(dict(base2, ev="cset", op="add", o=r.choice(ids), via=r.choice(["", "", "merge"]), cs=[con() for _ in range(r.choice([1, 1, 2]))]))
            else:
                a, b = r.choice(ids), r.choice(ids)
                ids.append(len(ids) + 1)
                ops.append(dict(base2, ev="cset", op="comb", o=ids[-1], a=a, b=b))
        groups.append(ops)
    # many names at once: some of the assignments, close to the admitted ones
    for _ in range(40 if tier == "quick" else 800):
        names = ["v" + chr(97 + k) for k in range(r.choice([6, 9, 12, 14, 18, 26]))]
        vals = list(range(r.choice([2, 3, 5])))
        keep = {n: r.choice(vals) for n in names}     # every constraint but a few admits this
        ops, ids = [], []

        def con():
            n = r.choice(names)
            vs = set(r.sample(vals, r.randint(1, len(vals))))
            return ["var", n, sorted(vs | {keep[n]} if r.random() < 0.97 else vs)]

        for _ in range(r.randint(4, 9)):
            k = r.random()
            if len(ids) < 2 or k < 0.3:
                ids.append(len(ids) + 1)
                ops.append(dict(ev="cset", op="new", o=ids[-1], cs=[con() for _ in range(r.choice([3, 6, 12, 20]))]))
            elif k < 0.5:
                ops.append(dict(ev="cset", op="add", o=r.choice(ids), cs=[con() for _ in range(r.choice([1, 4]))]))
            else:
                a, b = r.choice(ids), r.choice(ids)
                ids.append(len(ids) + 1)
                ops.append(dict(ev="cset", op="comb", o=ids[-1], a=a, b=b))
        space = [[keep[n] for n in names]]
        for k in range(len(names)):
            for v in vals:
                if v != space[0][k]:
                    space.append(space[0][:k] + [v] + space[0][k + 1:])
        groups.append([dict(o, names=names, vals=vals, space=space) for o in ops])
    return groups


# ================================================================ C14
def gen_c14(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    lits = ["d6", "0d6", "3d6", "2dF", "d%", "2d%", "d[1,1,2]", "3d[1*5,2]", "d[1*0,2]", "4d6k3", "4d6d3", "4d6d1", "4d6k0",
            "4d6k4", "4d6k9", "4d6d0", "4d6d4", "4d6d9", "0d6k0", "0d6d0", "0d6k2", "d6k1", "d6d1", "3d[1,1,2]k2", "3d[1,1,2]d1",
            "5", "-5", "0", "True", "False", "100d20", "20d20k10", "1000d6", "12d%k5", "1000000", "50d[1-9*3]d49"]
    for x in lits:
        groups.append([call("cost", [x])])
        groups.append([call("cost", ["!" + x]), call("cost", ["!!" + x], fresh=False), call("cost", ["!(!(!%s))" % x], fresh=False)])
        groups.append([call("cost", ["ABS(%s)" % x]), call("cost", ["(%s)" % x], fresh=False)])
        groups.append([call("cost", ["VAR a = " + x, "a", "a + a"]), call("cost", ["VAR a = " + x, "VAR b = a", "!b"], fresh=False)])
    groups += nest_ops(g, 40 if tier == "quick" else 800, ["cost"])
    for k in range(1, 45):
        groups.append([call("cost", ["!%dd%d" % (k, r.randint(1, 30))])])
        groups.append([call("cost", ["!" + " + ".join(["1"] * k)])])
    for op in ALL_BIN:
        for _ in range(4 if tier == "quick" else 40):
            x, y = r.choice(lits), r.choice(lits)
            groups.append([call("cost", ["%s(%s, %s)" % (op, x, y) if op in MM else "%s %s %s" % (x, op, y)])])
    for _ in range(220 if tier == "quick" else 4000):
        lines, _ = g.program(r.choice([0, 1, 2, 3, 4]), depth=r.choice([0, 1, 2]), div=True, maxn=10 ** 6, fdepth=r.choice([1, 2, 3]),
                             budget=10 ** 9)
        again = call("cost", lines, fresh=False)
        other = call(r.choice(["roll", "max", "dist"]), ["VAR %s = 1" % r.choice(NAMES)], fresh=False)
        groups.append([call("cost", lines), again] + ([other, again] if r.random() < 0.3 else []))
    for n in (33, 65, 100, 129, 257, 300, 1025):     # keep and drop of many
        for k in sorted(r.sample(range(1, n), 3)) + [n // 2, n - 1]:
            groups.append([call("cost", ["%dd%s%s%d" % (n, r.choice(["6", "100", "F", "%", "[1,1,2]"]), r.choice("kd"), k)])])
    for k in (9, 10, 11, 19, 20, 99, 100, 101, 110, 999, 1000, 1001, 9990, 12345, 99999, 1000000, 1234567):      # rounding of the ten percent
        groups.append([call("cost", ["!%dd1" % k]), call("cost", ["!!%dd1" % k], fresh=False), call("cost", ["!!!!%dd1" % k], fresh=False),
                       call("cost", ["VAR a = !%dd1" % k, "!a", "!a + a"], fresh=False)])
    for x in ["d[5,1,3]", "4d[1,1,1,2]", "4d[1*0,2,3]", "4d[1-3*5]k2", "4d[3-1]d1", "2d[1,2,]", "0d[1,2]", "3d1", "3d1k2", "3d1d1", "d[-0,0]", "7d%d2", "7dFk6"]:
        groups.append([call("cost", [x]), call("cost", ["-1 * " + x], fresh=False), call("cost", ["VAR a = (%s)" % x, "VAR b = MAX(a, a)", "ABS(b) == a"], fresh=False)])
    for n in (3, 9, 12):       # many assignments, many names
        ns = r.sample(CLOSE_NAMES, n)
        lines = ["VAR %s = %dd%d" % (x, k + 1, k + 2) for k, x in enumerate(ns)] + ["VAR %s = %s + %s" % (ns[0], ns[0], ns[1]), " + ".join(ns), "!" + ns[0]]
        groups.append([call("cost", lines), call("cost", lines[:-1], fresh=False), call("cost", lines, fresh=False)])
    for k in (5, 12, 20):
        groups.append([call("cost", ["VAR a = d6"] + ["VAR a = a + a"] * k + ["a"]), call("cost", ["VAR a = d6"] + ["VAR a = !a"] * k + ["a"], fresh=False)])
    for a in ["roll", "max", "min", "dist", "avg"]:      # cost after the variables got values, and values after a cost
        groups.append([call(a, ["VAR a = d6", "VAR b = a + 1"], rseed=5), call("cost", ["VAR a = 2d4", "VAR b = a", "b + a"], fresh=False),
                       call(a, ["VAR a = 3", "VAR b = 100"], fresh=False), call("cost", ["VAR a = 2d4", "VAR b = a", "b + a"], fresh=False)])
    # costs of any size
    for k in (3, 10, 20, 25, 30, 40, 50, 60, 80, 120, 300, 1100):
        start = "%dd%s%s" % (r.randint(1, 10 ** 6), r.choice(["6", "%", "F", "[1,1,2]", "1000"]), r.choice(["", "k%d" % r.randint(1, 100), "d%d" % r.randint(1, 100)]))
        grow = ["VAR a = a + a", "VAR a = MAX(a, a) - a", "VAR a = (a * a) == 1", "VAR a = !a + a"]
        lines = ["VAR a = " + start] + [r.choice(grow) if k < 1000 else "VAR a = a + a" for _ in range(k)]
        for last in ["a", "!a", "!!!a", "!(a + 7)", "ABS(!a) - !a", "VAR b = !a"]:
            groups.append([{"ev": "bigcost", "lines": lines + [last]}])
    for _ in range(40 if tier == "quick" else 600):
        lines = ["VAR a = !%dd%d" % (r.randint(1, 10 ** 9), r.randint(1, 1000)), "VAR b = %dd%dk%d" % (r.randint(10 ** 5, 10 ** 9), r.randint(1, 500), r.randint(1, 10 ** 5)),
                 "VAR a = a * b", "VAR a = !a", r.choice(["!(a + b)", "!a == !b", "!!(a - b) * b", "MIN(!(a), b)"])]
        groups.append([{"ev": "bigcost", "lines": lines}])
    # only the cost is asked: it must not need the distribution (these would take forever)
    groups.append([call("cost", ["VAR a = 2000d1000", "a * a * a", "100d100k50"])])
    groups.append([call("cost", ["1 // 0", "VAR a = 6 // dF", "a // 0"])])
    groups += padded(g, groups, 30 if tier == "quick" else 300)
    for family in ALIKE:       # one after the other, on one parser and on one interpreter
        for q in ["cost"]:
            for fresh in (True, False):
                order = r.sample(family, len(family))
                groups.append([call(q, [x], fresh=fresh or k == 0) for k, x in enumerate(order + order[:4])])
    return groups


# ================================================================ C15
def gen_c15(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    lines = ["1", "-1", "True", "False", "d6", "2d6", "0d6", "d%", "dF", "2d[1, 2 ,3*2]", "d[1-3*2,]", "4d6k3", "4d6d3", "4d6d0",
             "4d6k9", "4d6d9", "!1", "! d6", "!!d6", "!(d6 == 1)", "!d6 == 1", "(1)", "( 1 )", "((d6))", "ABS(d6)", "ABS ( d6 - 3 )",
             "MAX(1,2)", "MIN( d6 , 2d4 )", "1 + 2", "1+ 2", "5 - 3", "5 - -3", "5 - (3 - 2)", "(5 - 3) - 2", "5 - 3 - 2",
             "2 * (3 + 4)", "2 * 3 + 4", "7 // 2 * 2", "7 // (2 * 2)", "1 == 1", "1 != 2", "1 < 2", "1 <= 2", "1 > 2", "1 >= 2",
             "1 AND 0", "1 OR 0", "1 == 1 AND 2 == 2", "a", "a + b", "(a + b) * c", "MAX(a, MIN(b, c))", "!a", "ABS(a - b)",
             "a == a", "VAR x = 1", "VAR x = a + b", "VAR a = a + 1", "VAR x = (a)", "VAR x=!a", "_ + a_", "a // 1 - b", "007", "-007",
             "d007", "a AND b OR c", "(a AND b) OR c", "a AND (b OR c)", "(VAR x = 1) + a", "MAX((a), ((b)))", "!(a) + !(b)"]
    pre = ["VAR a = d3", "VAR b = d2 + 1", "VAR c = 2", "VAR a_ = 1", "VAR _ = d2", "VAR ab = 3", "VAR abc = d2", "VAR x_y = 4",
           "VAR __ = 1", "VAR k = 5", "VAR d = 2", "VAR save_roll = d2", "VAR burning_arch_damage = 2d2", "VAR z = 1"]
    lines += ["1000", "-1000", "12345 + 1", "1000000", "999", "100d1", "d1000", "d[1000,-1000]", "2d[1000-1002*100]", "1000d1k2", "1000d1d998", "12d[-10,10]k11",
              "0d6k1", "0d6d1", "d6k0", "d6d0", "d6k1", "d6d1", "01d06", "4d06k02", "True + False", "!True", "!!False", "-0", "d[-0]", "d[5-1]", "d[1-1]",
              "d[ 1 ,\t2 ]", "d[1,\n2]", "d[1,2,]k1", "3d[1,2 , ]d1", "3dFk1", "3d%k2", "3d%d2", "dFd1", "d%", "1d%", "0d%", "2d[1*0,3]",
              "( ( a ) )", "((a) + (b)) * ((c))", "!(!a)", "! ! a", "!(a) == b", "!a AND b", "(!a) AND b", "!(a AND b) OR c", "ABS(ABS(a))", "ABS(!a)",
              "MAX(!a, !b)", "MAX(a == b, b == c)", "MIN(MAX(a, b), ABS(c))", "MAX(a + b * c, (a + b) * c)", "a - b - c", "a - (b - c)", "a // 1 // 1",
              "a // (1 // 1)", "a * b // 1", "a * (b // 1)", "a == b == c", "a == (b == c)", "a + b == c", "(a + b) == c", "a AND b AND c", "a < b > c",
              "a OR (b AND c)", "(a OR b) AND c", "VAR x = !a + b", "VAR x = (a) == b", "VAR or_x = 1", "or_x", "and_y + not", "VAR __ = __ + 1", "stdout",
              "VAR stdout = 1", "a_ - _a", "VAR a = 1000 * 1000", "a + 1000 - -1000", "a - 1 + -1", "1 + 2 + 3 + 4 + 5 + 6 + 7 + 8 + 9 + 10",
              "((((((((a))))))))", "!!!!!!a", "MAX(1, MAX(2, MAX(3, MAX(4, MAX(5, a)))))", " + ".join(["a"] * 12), "a\n+\nb", "\ta", "a\r\n", "VAR\nx\n=\na"]
    pre += ["VAR or_x = 2", "VAR and_y = 1", "VAR not = 0", "VAR stdout = 3", "VAR _a = 2"]
    for t in lines:
        groups.append([{"ev": "print", "t": t, "pre": pre, "run": "(VAR" not in t}])
    env = {n: E(n, 0, 6, 3, 9, frozenset([n])) for n in NAMES}
    for _ in range(260 if tier == "quick" else 4000):
        e = g.expr(r.choice([1, 2, 2, 3]), env, maxn=40, names_p=0.4, div=False)
        t = e.text if r.random() < 0.8 else g.assign(r.choice(NAMES), e)
        if r.random() < 0.3:
            t = respace(g, t)
        groups.append([{"ev": "print", "t": t, "pre": [p for p in pre if p.split()[1] in e.reads]}])
    for _ in range(60 if tier == "quick" else 800):      # longer numbers, wider dice
        t = g.die(small=False, maxn=3).text if r.random() < 0.5 else "%d %s %d" % (r.randint(-10 ** 6, 10 ** 6), r.choice(ARITH + CMP), r.randint(1, 10 ** 3))
        groups.append([{"ev": "print", "t": t}])
    for _ in range(200 if tier == "quick" else 3000):
        t = token_soup(g, r.choice([1, 2]))
        groups.append([{"ev": "print", "t": t, "pre": ["VAR a = 3", "VAR b = 4", "VAR c = -5", "VAR ab = 6", "VAR d = 2", "VAR k = 1"]}])
    for x in r.sample(groups, 40 if tier == "quick" else 400):
        groups.append([dict(op, t=pad(g, op["t"])) for op in x])
    for family in ALIKE:
        order = r.sample(family, len(family))
        groups.append([{"ev": "print", "t": x} for x in order + order[:4]])
    for _ in range(30 if tier == "quick" else 400):
        t = token_soup(g, 1)
        groups.append([{"ev": "print", "t": x, "pre": ["VAR a = 3", "VAR b = 4", "VAR c = -5", "VAR ab = 6", "VAR d = 2", "VAR k = 1"]} for x in [t] + alike(g, t)])
    return groups


# ================================================================ C16
def gen_c16(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    progs = [["d6"], ["2d6"], ["d[1,5]"], ["d[-3,2*2,4]"], ["7"], ["-2"], ["d[0]"], ["3dF"], ["d[-9--5]"], ["d4 > 2"], ["d20"],
             ["VAR a = d4", "a + a"], ["d6", "d4"], ["VAR a = 2d3", "a"], ["4d6k3"], ["d[10,12,20]"], ["d4 * 3"], ["0d6"],
             ["d[1*9,2]"], ["VAR a = d4", "VAR b = a * 2"], ["d[100,103]"], ["-1 * 2d4"]]
    kinds1 = ["hist", "atl", "atm"]
    kinds2 = ["diff", "cmp", "cmpatl", "cmpatm"]
    groups += [[{"ev": "chart", "kind": k, "p1": README, "via": "interp"}] for k in kinds1]
    for p in progs:
        for k in (kinds1 if tier != "quick" else r.sample(kinds1, 2)):
            groups.append([{"ev": "chart", "kind": k, "p1": p, "via": r.choice(["interp", "interp", "obj"])}])
    labels = ["one", "two", "This distribution", "My sword", "b", "1", "50%", "Gr\u00f6\u00dfe", "a two handed sword of the third kind", "x_y", "A", "a"]
    n2 = 9 if tier == "quick" else 60
    for k in kinds2:
        for _ in range(n2):
            p, q = r.choice(progs), r.choice(progs)
            l1, l2 = r.sample(labels, 2)
            groups.append([{"ev": "chart", "kind": k, "p1": p, "p2": q, "l1": l1, "l2": l2}])
    groups.append([{"ev": "chart", "kind": "cmp", "p1": ["d4"], "p2": ["d[5-8]"], "l1": "x", "l2": "y"}])
    groups.append([{"ev": "chart", "kind": "diff", "p1": ["d4"], "p2": ["d[5-8]"]}])
    groups.append([{"ev": "chart", "kind": "diff", "p1": ["2d4"], "p2": ["d[5-8]"]}])
    more = [["d[1,50]"], ["d[-40,-1]"], ["d[-30,30]"], ["d%"], ["3d20"], ["d[7*5,9]"], ["d[3,1,2*2]"], ["10d6"], ["d[0*999,1]"], ["d[1000,1010]"], ["d[-1010,-1000]"],
            ["VAR a = d4", "VAR b = a - 9", "d6", "b"], ["d100 > 50"], ["d6 * 10"], ["d[0,20*3]"], ["30dF"], ["0"], ["d[-1*3,1]"], ["40d2"]]
    for p in more:
        groups.append([{"ev": "chart", "kind": r.choice(kinds1), "p1": p, "via": r.choice(["interp", "obj"])}])
        q = r.choice(more + progs)
        groups.append([{"ev": "chart", "kind": r.choice(kinds2[1:]), "p1": p, "p2": q, "l1": "first", "l2": "second"}])
    for p in [["d[1,300]"], ["d[-120,121]"], ["d250"], ["60d6"], ["d400 - 200"], ["d[1,600]"]]:      # wide
        groups.append([{"ev": "chart", "kind": k, "p1": p, "via": r.choice(["interp", "obj"])} for k in kinds1])
        k = r.choice(kinds2[1:])
        groups.append([{"ev": "chart", "kind": k, "p1": p, "p2": r.choice([["d200"], ["d[1,300]"], ["d6"]]), "l1": "u", "l2": "v"}])
    for p in r.sample(progs + more, 8):       # while the user has a figure of his own open
        groups.append([{"ev": "chart", "kind": r.choice(kinds1), "p1": p, "via": r.choice(["interp", "obj"]), "busy": 1}])
    for k in kinds2:
        groups.append([{"ev": "chart", "kind": k, "p1": ["2d4"], "p2": ["d6"], "busy": 1}])
    # many charts one after the other, each only its own
    groups.append([{"ev": "chart", "kind": k, "p1": p, "p2": ["d4"] if k in kinds2 else None, "via": "obj"}
                   for k, p in zip(kinds1 + kinds2[1:] + kinds1 + kinds2[1:], r.sample(progs, 12))])
    # without names, and with names that are alike
    for k in kinds2[1:]:
        groups.append([{"ev": "chart", "kind": k, "p1": ["d4"], "p2": ["2d3"], "default": 1, "l1": "This distribution", "l2": "other distribution"}])
        groups.append([{"ev": "chart", "kind": k, "p1": ["2d3"], "p2": ["2d3"], "l1": "b", "l2": "a"}])
        groups.append([{"ev": "chart", "kind": k, "p1": ["d6"], "p2": ["d6 + 1"], "l1": "z", "l2": "a"}])
        groups.append([{"ev": "chart", "kind": k, "p1": ["d6"], "p2": ["d6"], "same": 1, "l1": "x", "l2": "y"}])
    for _ in range(24 if tier == "quick" else 300):
        e = g.expr(r.choice([0, 1, 2]), maxn=40, div=False)
        if e.hi - e.lo < 60:
            groups.append([{"ev": "chart", "kind": r.choice(kinds1), "p1": [e.text], "via": r.choice(["interp", "obj"])}])
    return groups


# ================================================================ C17
def gen_c17(seed, tier):
    g = Gen(seed, tier)
    r = g.r
    groups = []
    texts = ["", " ", "\n", "$", "1 $", "$ 1", "1 + $", "a.b", "1\n$", "1 +\n $ 2", "d6 +\n\n  2 ? 3\n4", "\n$", "\n\n\n$\n", "1\n2\n$",
             "A", "aB + 1", "1 + Var", "var x = 1", "VAR X = 1", "Max(1, 2)", "true", "1.5", "1 / 2", "1 /", "[1]", "d[", "d[]", "d[1", "]",
             "{1}", "1 & 2", "a1", "1a", "#", "\"a\"", "1;", "1:2", "d6%", "%", "1 @ 2", "~1", "^", "\\", "d6 | d4", "€ + 1", "1 + €", "§§",
             "1 +", "+ 1", "1 1", "(", ")", "()", "(1", "1)", "((1)", "(1))", "1 + + 2", "1 + * 2", "MAX(1)", "MAX(1, 2", "MAX 1", "MAX",
             "MAX(, 1)", "ABS", "ABS()", "ABS(1", "ABS 1)", "VAR", "VAR a", "VAR a 1", "VAR a =", "VAR = 1", "VAR 1 = 2", "VAR a = = 1",
             "a = 1", "= 1", "1 = 2", "==", "1 == == 2", "!", "! !", "1 !", "1 ! 2", "1 ,", ", 1", "1, 2", "d6 d6", "a b", "1 a", "a 1",
             "d6 2", "True False", "1 AND", "AND 1", "1 AND AND 2", "OR", "5-3", "2 -1", "a -1", "d6-1", "VAR VAR a = 1", "VAR a = VAR",
             "1 + VAR", "1 + VAR a", "(VAR a = 1", "MAX(VAR a = 1, 2", "d0", "1 + d0", "VAR a = d0", "d[1*0]", "d0 +", "d0 )", "1 ) d0",
             "3d0k1", "MAX(d0, 1)", "1 + 2 3 + 4", "(1 + 2) (3)", "1 // // 2", "1 < > 2", "1 <= = 2", "x" * 60 + "$", "1 + " * 30 + "$",
             "1 + " * 30 + "? " + "+ 1" * 30, "a" * 49 + "$" + "b" * 49, "a" * 50 + "$" + "b" * 50, "a" * 51 + "$" + "b" * 51,
             "1 +\n" + "1 + " * 20 + "$" + " + 1" * 20 + "\n + 2", "1\n" * 5 + "$$", "a" * 120 + " + $ + " + "b" * 120]
    texts += ["1\r\n$", "1 +\f2 $", "1\v$", "1 +\v\v2 $", "1\x1c$", "1\u00a0+ $", "1 +\u20032", "\u00a01", "1\u00a02", "d[1,\u00a02]", "VAR\x0ba\x1f=\x1e1 $", "1\x1d+ 2 $", "1 +\r2 $", "1 +\r\r\n2 $", "\f\n$", "\n\f$", "1 +\f2 )", "1 +\n\f2 )", "1\f)", "1 +\r2 )",
              "1 +\r\n  2 $ 3\r\n4", "\r$", "a\r$", "\t$", "1\t$\t2", "1 +\t\t$", "\f$", "d[1,\n2] + $", "d[1,\n 2] +\n $ 2", "(\n1\n+\n$", "1 $\n2 $",
              "$\n1", "1\n\n$\n\n1", "1 $ $ $", "a" * 30 + "\n" + "b" * 60 + "$" + "c" * 60 + "\n" + "d" * 30, "1 +\n" * 12 + "$", "\n" * 30 + "$", " " * 70 + "$",
              "$" + " " * 70, "1" * 8 + " + " + "a " * 40 + "$", "x" * 50 + "$", "x" * 49 + "$", "$" + "x" * 49, "$" + "x" * 50, "$" + "x" * 51, "x" * 50 + "\n" + "y" * 50 + "$",
              "a + b\n1 1", "1\n1", "1 +\n+ 2", "(1\n\n2)", "MAX(1,\n2\n", "1\n)", "VAR a\n1", "d6\nd6", "a\tb", "1 +\r\n)", "  1   2", "\n\n1 2", "1 2\n\n",
              "VAR VAR = 1", "VAR True = 1", "VAR d6 = 1", "VAR MAX = 1", "VAR ( = 1", "VAR a == 1", "VAR a = )", "VAR a = (", "VAR a = 1 VAR b = 2", "VAR a = 1, 2",
              "MAX(1 2)", "MAX(1,,2)", "MAX(1,2,)", "MAX()", "MAX(1,2) 3", "MIN(1, 2))", "MIN 1", "MIN)", "MIN,", "ABS(1, 2)", "ABS)", "ABS+", "ABS(ABS(1)", "ABS -1",
              "!)", "!+", "! ,", "!AND", "1 AND OR 2", "AND", "1 < < 2", "1 == != 2", "< 1", "1 >", "True True", "True 1", "d6 (1)", "(1) d6", "(1) a", "a (1)", "3d6k1 2",
              "3d6k1 3d6", "d[1,2] d[1,2]", "1 -1", "a -1", ") -1", "(1 -1)", "2 - 1 -1", "d6 -1", "= =", "1 + =", "(=)", "a = b = c", "1 // 0 )", "1 // 0 $", "nope )", "nope $",
              "1 + 2 * (3 - 4", "((((((1)))))", "1 + (2 * (3 - 4)) )", "é", "1 + ß", "日本", "a + ☃", "“1”", "1 – 2", "½", "d6 + ¤"]
    for t in texts:
        groups.append([{"ev": "parse", "t": t}])
    toks = ["1", "-2", "a", "d6", "3d6k1", "+", "-", "*", "//", "==", "<", "AND", "OR", "!", "(", ")", ",", "MAX", "MIN", "ABS", "VAR",
            "=", "True", "$", "A", "d[1,2]"]
    n = 2200 if tier == "quick" else 30000
    for _ in range(n):
        k = r.choice([1, 2, 3, 3, 4, 5, 6, 8])
        ts = [r.choice(toks) for _ in range(k)]
        sep = r.choice([" ", " ", " ", "", "\n", "  "])
        if r.random() < 0.25:
            t = "".join(x + r.choice([" ", "\n", "\r\n", "\t", "  ", "\f"]) for x in ts)
        else:
            t = sep.join(ts)
        groups.append([{"ev": "parse", "t": t}])
    # a well-formed line with one character changed, dropped, doubled or put in
    alphabet = "0123456789dkFVARMXINBSOTruefals()+-*/=<>!,[]%_ \n$?.#:"
    for _ in range(n):
        t = token_soup(g, r.choice([0, 1, 2])) if r.random() < 0.6 else g.expr(2, {"a": E("a", 1, 2, 2)}, maxn=10 ** 9).text
        if r.random() < 0.3:
            t = "VAR " + r.choice(NAMES) + " = " + t
        t = list(t)
        for _ in range(r.choice([1, 1, 1, 2])):
            p = r.randrange(len(t) + 1)
            k = r.random()
            if k < 0.3 and p < len(t):
                t[p] = r.choice(alphabet)
            elif k < 0.6 and p < len(t):
                del t[p]
            elif k < 0.8:
                t.insert(p, r.choice(alphabet))
            elif p < len(t):
                t.insert(p, t[p])
            if not t:
                t = ["1"]
        text = "".join(t)
        if r.random() < 0.08:
            text = r.choice(["1 + 1\n", "a\n", "\n", "1 +\r\n", "\t", "d[1,\n2] +\n", "1 + 2 * 3 - 4 +\n" * 4]) + text
        if r.random() < 0.05:
            text = " + ".join(["d6"] * r.randint(8, 20)) + " + " + text + " + 1" * r.randint(0, 30)
        if not __import__("re").search(r"\d{7,}", text) and not __import__("re").search(r"\*\d{4,}|d\d{5,}|\d{4,}d", text):
            groups.append([{"ev": "parse", "t": text}])
    # nothing is evaluated or assigned by a call whose line is malformed
    for bad in ["1 +", "VAR a = 5 $", "VAR a = 5 5", "d0", "VAR a = d0", "(VAR a = 5", "MAX(VAR a = 5, 2"]:
        for q in ["roll", "max", "min", "dist", "dict", "avg", "cost", "hist"]:
            groups.append([call("max", ["VAR a = d2", "VAR b = 3"]), call(q, ["VAR b = 4", bad, "VAR b = 9"], fresh=False, lv="err"),
                           call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)] if q != "cost" else
                          [call("max", ["VAR a = d2", "VAR b = 3"]), call(q, [bad], fresh=False, lv="err"),
                           call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)])
    for _ in range(120 if tier == "quick" else 1500):      # texts alike, one after the other
        t = token_soup(g, r.choice([0, 1]))
        if r.random() < 0.3:
            t = "VAR " + r.choice(NAMES) + " = " + t
        ts = alike(g, t)
        ts.insert(r.randrange(3), t)
        groups.append([{"ev": "parse", "t": x} for x in ts + ts[:3]])
    return groups


GENERATORS = {k[4:].upper(): v for k, v in list(globals().items()) if k.startswith("gen_c")}
