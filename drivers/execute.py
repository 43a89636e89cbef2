"""Runs operations against the real python_dice in /repo and records what it did.

usage: /opt/venv/bin/python execute.py OPS.json TRACE.ndjson

OPS.json is a list of groups, each a list of operations (one session).  Every
operation becomes at most one event of the trace, which TLC then checks against
the specification (spec/TraceDice.tla).  Only the public API is used: the
interpreter, the parser, distribution objects and constraint objects.
"""
import io
import json
import os
import random
import re
import signal
import sys
import warnings
from fractions import Fraction

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
REPO = os.environ.get("PD_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from python_dice import PythonDiceInterpreter  # noqa: E402
from python_dice.src.probability_distribution.probability_distribution_factory import (  # noqa: E402
    ProbabilityDistributionFactory,
)
from python_dice.src.probability_distribution.probability_distribution_state_factory import (  # noqa: E402
    ProbabilityDistributionStateFactory,
)
from python_dice.src.python_dice_parser import PythonDiceParser  # noqa: E402

ALIEN = 2147480000
CALL_LIMIT_S = 60


HANGS = [0]


class Hang(BaseException):
    pass


def _alarm(_sig, _frm):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


# ---------------------------------------------------------------- encoding
# blanks TLA+ strings cannot write
CHARS = {"\x0b": "VT", "\x1c": "FS", "\x1d": "GS", "\x1e": "RS", "\x1f": "US", "\u00a0": "NBSP", "\u2003": "EMSP"}


def chars(text):
    return [CHARS.get(c, c) for c in text]


def enc_int(value):
    if isinstance(value, int) and -2000000000 < value < 2000000000:
        return int(value)
    if isinstance(value, float) and value == int(value) and abs(value) < 2000000000:
        return int(value)
    return ALIEN


def limbs(n):
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def enc_count(c):
    if isinstance(c, bool) or not isinstance(c, int) or c < 0:
        if isinstance(c, float) and c == c and abs(c) != float("inf") and c >= 0 and c == int(c):
            return limbs(int(c))
        return [9999, 0]  # not a natural number: fails BIsNat and every comparison
    return limbs(c)


def enc_any(v):
    """<<sign, magnitude>> of a whole number of any size"""
    if isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v):
        v = int(v)
    if not isinstance(v, int):
        return [1, [9999, 0]]
    return [-1 if v < 0 else 1, limbs(abs(int(v)))]


def enc_real(x):
    """<<sign, round(|x| * 10^12)>>"""
    if isinstance(x, (int, float)) and x == x and abs(x) != float("inf"):
        f = Fraction(x)
        return [1 if f >= 0 else -1, limbs(int(round(abs(f) * 10**12)))]
    return [1, limbs(10**40)]


def enc_digits(x):
    """<<sign, magnitude, s>>: 17 digits, in units of 10^(-4 s)"""
    if not isinstance(x, (int, float)) or x != x or abs(x) == float("inf"):
        return [-1, limbs(10**40), 0]
    f = abs(Fraction(x))
    s = 0
    while s < 80 and f * 10 ** (4 * s) < 10**16:
        s += 1
    return [-1 if x < 0 else 1, limbs(int(round(f * 10 ** (4 * s)))), s]


def enc_dict(d):
    return [[enc_int(v), enc_digits(d[v])] for v in sorted(d)]


def enc_pairs(dist):
    m = dist.get_result_map()
    return [[enc_int(v), enc_count(m[v])] for v in sorted(m)]


def enc_table(d):
    return [[enc_int(v), enc_real(d[v])] for v in sorted(d)]


def status(exc):
    for cls in (KeyError, ZeroDivisionError, ValueError):
        if isinstance(exc, cls):
            return cls.__name__
    return "other:" + type(exc).__name__


def guarded(fn, limit=CALL_LIMIT_S):
    """(status, result, exception)"""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        res = fn()
        return "ok", res, None
    except Hang:
        HANGS[0] += 1
        return "other:Hang", None, None
    except Exception as exc:  # pylint: disable=broad-except
        return status(exc), None, exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


QUERY = {
    "roll": "roll",
    "min": "min",
    "max": "max",
    "dist": "get_probability_distributions",
    "dict": "get_probability_distributions_dict",
    "avg": "get_average",
    "hist": "get_histogram",
    "cost": "get_estimated_cost",
}


def enc_result(q, res):
    if q in ("roll", "min", "max"):
        return [[chars(k), enc_int(res[k])] for k in sorted(res)]
    if q == "dist":
        return [[chars(k), enc_pairs(res[k])] for k in sorted(res)]
    if q == "dict":
        return [[chars(k), enc_table(res[k])] for k in sorted(res)]
    if q == "avg":
        return [[chars(k), enc_real(res[k])] for k in sorted(res)]
    if q == "cost":
        return enc_int(res)
    return []


# ---------------------------------------------------------------- charts
CHARTS = {}


def install_chart_hook():
    if CHARTS:
        return
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib.figure import Figure

    CHARTS["drawn"] = []
    original = Figure.draw

    def draw(self, renderer, *a, **k):
        out = original(self, renderer, *a, **k)
        pixels = None
        try:
            import numpy

            pixels = numpy.array(renderer.buffer_rgba())
        except Exception:  # pylint: disable=broad-except
            pass
        CHARTS["drawn"].append((self, pixels))
        return out

    Figure.draw = draw


def bars_of(axis, lo, hi):
    """height drawn at each integer of lo..hi"""
    import math

    height = {}
    for patch in axis.patches:
        if hasattr(patch, "get_width") and hasattr(patch, "get_height"):
            x, w, h = patch.get_x(), patch.get_width(), patch.get_height()
            if w < 0:
                x, w = x + w, -w
            rects = [(x, x + w, h)]
        else:  # a stepped polygon: not expected
            rects = []
        for a, b, h in rects:
            if h == 0 or b - a < 1e-9:
                continue
            for v in range(int(math.ceil(a + 1e-6)), int(math.floor(b - 1e-6)) + 1):
                height[v] = height.get(v, 0) + h
    keys = [k for k in height]
    lo, hi = min([lo] + keys) - 2, max([hi] + keys) + 2
    return [[v, enc_real(float(height.get(v, 0)))] for v in range(lo, hi + 1)]


def same_image(image, pixels):
    import numpy

    if pixels is None:
        return 1
    try:
        shown = numpy.asarray(image.convert("RGB"))
        drawn = numpy.asarray(pixels)[..., :3].astype(int)
        alpha = numpy.asarray(pixels)[..., 3:].astype(int)
        drawn = (drawn * alpha + 255 * (255 - alpha)) // 255
        if shown.shape != drawn.shape:
            return 0
        return 1 if abs(shown.astype(int) - drawn).max() <= 3 else 0
    except Exception:  # pylint: disable=broad-except
        return 0


# ---------------------------------------------------------------- schedules
class Paced(list):
    """the lines of a call, handed out one at a time when the schedule says so"""

    def __init__(self, lines, gate):
        super().__init__(lines)
        self.gate = gate

    def __iter__(self):
        for line in list.__iter__(self):
            self.gate.wait()
            yield line


class Gate:
    """one call under way: told to go on, it works until it asks for the next line or ends"""

    def __init__(self):
        import threading

        self.go = threading.Semaphore(0)
        self.paused = threading.Semaphore(0)
        self.open = False
        self.ended = False

    def wait(self):
        if not self.open:
            self.paused.release()
            self.go.acquire()

    def end(self):
        self.ended = True
        self.paused.release()

    def step(self):
        if not self.ended:
            self.go.release()
            return self.paused.acquire(timeout=CALL_LIMIT_S)
        return True


# ---------------------------------------------------------------- the machine
class Machine:
    def __init__(self):
        self.parser = PythonDiceParser()
        self.shared = False
        self.reset()

    def reset(self):
        self.interps = {}
        self.ready = {}
        self.states = {}
        self.held = {}
        self.results = {}
        self.objects = {}
        self.sets = {}
        self.cons = []

    def fresh(self, own_parser=False):
        return PythonDiceInterpreter() if own_parser else PythonDiceInterpreter(parser=self.parser)

    # each op method returns an event or None
    def call(self, op):
        if op.get("fresh"):
            self.interps[op["i"]] = self.ready.pop(op["i"], None) or self.fresh(op.get("own", False))
        it = self.interps[op["i"]]
        q = op["q"]
        if op.get("via"):  # another interpreter started from this one's state
            it = PythonDiceInterpreter(parser=self.parser, starting_state=self.states[op["i"]])
        if "rseed" in op:
            random.seed(op["rseed"])
        ev = {"ev": "call", "i": op["i"], "fresh": 1 if op.get("fresh") else 0, "q": q,
              "lines": [chars(x) for x in op["lines"]], "lv": op.get("lv", "full"), "rid": op.get("rid", 0)}

        def run():
            if "hold" in op:
                res = self.evaluate(q, self.held[op["hold"]], self.states[op["i"]])
            else:
                res = getattr(it, op.get("meth") or QUERY[q])(list(op["lines"]))
            return res, enc_result(q, res)

        st, res, _ = guarded(run)
        ev["st"] = st
        ev["res"] = res[1] if st == "ok" else []
        if st == "ok" and op.get("rid"):
            self.results[op["rid"]] = (q, res[0])
        return ev

    def begin(self, op):
        """an interpreter on a state of our own, and lines parsed against it for later use"""
        self.states[op["i"]] = ProbabilityDistributionStateFactory().create_new_empty_set()
        self.ready[op["i"]] = PythonDiceInterpreter(parser=self.parser, starting_state=self.states[op["i"]])
        for name, line in op.get("hold", {}).items():
            st, parsed, _ = guarded(lambda: self.parser.parse(line, state=self.states[op["i"]])[0])  # noqa: B023
            self.held[name] = parsed if st == "ok" else None
        return None

    @staticmethod
    def evaluate(q, expression, state):
        """what the interpreter does with a line, on a line parsed earlier"""
        if q == "cost":
            return expression.estimated_cost()
        if q in ("roll", "min", "max"):
            value = getattr(expression, q)()
            res = dict(state.get_constant_dict())
        else:
            value = expression.get_probability_distribution()
            res = dict(state.get_var_dict())
        res["stdout"] = value
        if q == "dict":
            return {k: v.get_dict_form() for k, v in res.items()}
        if q == "avg":
            return {k: v.average() for k, v in res.items()}
        return res

    def sched(self, op):
        """calls of several interpreters, advanced line by line in the order given"""
        import threading

        interps, gates, evs, crew = {}, {}, {}, []

        def work(i, q, lines, gate, ev):
            try:
                ev["res"], ev["st"] = enc_result(q, getattr(interps[i], QUERY[q])(Paced(lines, gate))), "ok"
            except Exception as exc:  # pylint: disable=broad-except
                ev["res"], ev["st"] = [], status(exc)
            gate.end()

        order = []
        for step in op["steps"]:
            i = step[0]
            if len(step) == 3:
                interps.setdefault(i, self.fresh(op.get("own", False)))
                gates[i] = Gate()
                ev = {"ev": "call", "i": i, "fresh": 0 if i in evs else 1, "q": step[1], "lines": [chars(x) for x in step[2]],
                      "lv": op.get("lv", "full"), "rid": 0, "st": "other:Hang", "res": []}
                evs[i] = ev
                order.append(ev)
                t = threading.Thread(target=work, args=(i, step[1], step[2], gates[i], ev), daemon=True)
                crew.append(t)
                t.start()
                gates[i].paused.acquire(timeout=CALL_LIMIT_S)
            else:
                gates[i].step()
        for gate in gates.values():
            gate.open = True
            gate.go.release()
        for t in crew:
            t.join(CALL_LIMIT_S)
        return order

    def threads(self, op):
        """independent interpreters at work at the same time: one list of calls each"""
        import threading

        plan = op["plan"]
        interps = [self.fresh(op.get("own", False)) for _ in plan]
        out = [[] for _ in plan]
        start = threading.Barrier(len(plan))

        def work(k):
            start.wait()
            for n, (q, lines) in enumerate(plan[k]):
                try:
                    res, st = enc_result(q, getattr(interps[k], QUERY[q])(list(lines))), "ok"
                except Exception as exc:  # pylint: disable=broad-except
                    res, st = [], status(exc)
                out[k].append({"ev": "call", "i": k + 1, "fresh": 1 if n == 0 else 0, "q": q, "lines": [chars(x) for x in lines],
                               "lv": op.get("lv", "full"), "rid": 0, "st": st, "res": res})

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            crew = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(plan))]
            for t in crew:
                t.start()
            for t in crew:
                t.join(CALL_LIMIT_S)
        finally:
            sys.setswitchinterval(old)
        evs = []
        for k, calls in enumerate(out):
            evs += calls
            if len(calls) < len(plan[k]):
                q, lines = plan[k][len(calls)]
                evs.append({"ev": "call", "i": k + 1, "fresh": 0 if calls else 1, "q": q, "lines": [chars(x) for x in lines],
                            "lv": op.get("lv", "full"), "rid": 0, "st": "other:Hang", "res": []})
        return evs

    def make(self, op):
        """interpreters made now and used later: nothing to observe yet"""
        for i in op["ids"]:
            self.ready[i] = self.fresh(op.get("own", False))
        return None

    def same(self, op):
        if op["rid"] not in self.results:
            return None
        q, res = self.results[op["rid"]]
        st, enc, _ = guarded(lambda: enc_result(q, res))
        return {"ev": "same", "rid": op["rid"], "res": enc if st == "ok" else []}

    def spoil(self, op):
        """change a returned result: must not reach the interpreter"""
        if op["rid"] not in self.results:
            return None
        _, res = self.results.pop(op["rid"])
        if isinstance(res, dict):
            for k in list(res):
                if isinstance(res[k], int):
                    res[k] = 77777
                elif isinstance(res[k], dict):
                    res[k].clear()
                elif k != "stdout":
                    del res[k]
            res["zz_intruder"] = 5
        return None

    def again(self, op):
        """a program that assigns what it reads, asked several times of one interpreter"""
        it = self.fresh()
        ev = {"ev": "again", "q": op["q"], "lines": [chars(x) for x in op["lines"]], "runs": []}
        for _ in range(op["times"]):
            st, res, _ = guarded(lambda: enc_result(op["q"], getattr(it, QUERY[op["q"]])(list(op["lines"]))))
            ev["runs"].append([st, res if st == "ok" else []])
            guarded(lambda: getattr(it, QUERY[op["mix"]])(list(op["lines"])))
        return ev

    def tight(self, op):
        it = self.fresh()
        st, res, _ = guarded(lambda: enc_result(op["q"], getattr(it, QUERY[op["q"]])(list(op["lines"]))))
        return {"ev": "tight", "q": op["q"], "lines": [chars(x) for x in op["lines"]], "st": st,
                "res": res if st == "ok" else []}

    def big(self, op):
        """one call on a fresh interpreter, numbers of any size"""
        it = self.fresh()
        q = op["q"]
        if "rseed" in op:
            random.seed(op["rseed"])

        def run():
            out = getattr(it, QUERY[q])(list(op["lines"]))["stdout"]
            if q == "dist":
                m = out.get_result_map()
                return [[enc_any(v), enc_count(m[v])] for v in sorted(m)]
            return [[enc_any(out), [1]]]

        st, res, _ = guarded(run)
        return {"ev": "big", "q": q, "lines": [chars(x) for x in op["lines"]], "st": st, "res": res if st == "ok" else []}

    def nest(self, op):
        """lines with assignments inside expressions, on a fresh interpreter"""
        it = self.fresh()
        if "rseed" in op:
            random.seed(op["rseed"])
        st, res, _ = guarded(lambda: enc_result(op["q"], getattr(it, QUERY[op["q"]])(list(op["lines"]))))
        return {"ev": "nest", "q": op["q"], "lines": [chars(x) for x in op["lines"]], "st": st, "res": res if st == "ok" else []}

    def nestfail(self, op):
        """a line that fails after assigning inside: what do its names hold before and after?"""
        it = self.fresh()
        q = op["q"]

        def held():
            res = getattr(it, QUERY[q])(["0"])
            return [res[n] if q == "roll" else sorted(res[n].get_result_map())[0] for n in op["names"]]

        getattr(it, QUERY[q])(["VAR %s = %d" % (n, v) for n, v in zip(op["names"], op["was"])])
        st, _, _ = guarded(lambda: getattr(it, QUERY[q])([op["line"]]))
        _, now, _ = guarded(held)
        return {"ev": "nestfail", "q": q, "line": chars(op["line"]), "was": op["was"], "to": op["to"], "st": st, "now": now or []}

    def bigcost(self, op):
        it = self.fresh()
        st, res, _ = guarded(lambda: limbs(it.get_estimated_cost(list(op["lines"]))))
        return {"ev": "bigcost", "lines": [chars(x) for x in op["lines"]], "st": st, "res": res if st == "ok" else []}

    def parse(self, op):
        text = op["t"]
        st, _, exc = guarded(lambda: self.parser.parse(text))
        msg = str(exc) if exc is not None else ""
        return {"ev": "parse", "t": chars(text), "st": st, "msg": chars(msg), "lv": op.get("lv", "full"),
                "words": re.findall(r"[A-Za-z_$]+", msg),
                "nums": [n for n in (int(x) for x in re.findall(r"\d{1,9}", msg))]}

    def _behaviour(self, lines, text):
        """bounds, distribution and cost of a line after some assignments"""
        out = []
        for q in ("min", "max", "dist", "cost"):
            it = self.fresh()
            st, res, _ = guarded(lambda: enc_result(q, getattr(it, QUERY[q])(list(lines) + [text])))  # noqa: B023
            out.append([st, res if st == "ok" else []])
        return out

    def print(self, op):
        text = op["t"]
        st, parsed, _ = guarded(lambda: self.parser.parse(text)[0])
        ev = {"ev": "print", "t": chars(text), "st": st, "s": [], "st2": "", "s2": [], "vars": [], "a": [], "b": []}
        if st != "ok":
            return ev
        st1, shown, _ = guarded(lambda: str(parsed))
        if st1 != "ok":
            ev["st"] = st1
            return ev
        ev["s"] = chars(shown)
        stv, names, _ = guarded(lambda: [chars(n) for n in sorted(parsed.get_contained_variables())])
        ev["vars"] = names if stv == "ok" else [["?"]]
        ev["st2"], again, _ = guarded(lambda: str(self.parser.parse(shown)[0]))
        if ev["st2"] == "ok":
            ev["s2"] = chars(again)
            if op.get("run", True):
                pre = op.get("pre", [])
                ev["a"] = self._behaviour(pre, text)
                ev["b"] = self._behaviour(pre, shown)
        return ev

    def figs(self, op):
        lines = op.get("lines")
        ev = {"ev": "figs", "items": []}

        def run():
            items = []
            if lines is None:
                d = ProbabilityDistributionFactory().create({int(k): v for k, v in op["map"]})
                return [{"n": [], "d": enc_pairs(d), "min": enc_int(d.min()), "max": enc_int(d.max()), "src": "object",
                         "atl": enc_table(d.at_least()), "atm": enc_table(d.at_most()), "dict": enc_dict(d.get_dict_form()),
                         "avg": enc_real(d.average())}]
            objs = self.fresh().get_probability_distributions(list(lines))
            dicts = self.fresh().get_probability_distributions_dict(list(lines))
            avgs = self.fresh().get_average(list(lines))
            for name in sorted(set(objs) | set(dicts) | set(avgs)):
                d = objs[name]
                base = {"n": chars(name), "d": enc_pairs(d), "min": enc_int(d.min()), "max": enc_int(d.max()),
                        "atl": enc_table(d.at_least()), "atm": enc_table(d.at_most())}
                a = dict(base, src="object", dict=enc_dict(d.get_dict_form()), avg=enc_real(d.average()))
                b = dict(base, src="interpreter", dict=enc_dict(dicts[name]), avg=enc_real(avgs[name]))
                items += [a, b]
            return items

        st, items, _ = guarded(run)
        if st == "ok":
            ev["items"] = items
        else:
            ev["items"] = [{"src": st, "d": []}]
        return ev

    def chart(self, op):
        install_chart_hook()
        from matplotlib import pyplot

        kind = op["kind"]
        l1, l2 = op.get("l1", "one"), op.get("l2", "two")
        ev = {"ev": "chart", "kind": kind, "l1": chars(l1), "l2": chars(l2), "bars": [], "curves": [], "avg": [],
              "d1": [], "d2": [], "d1b": [], "d2b": [], "left": 0, "img": 1, "win": [], "lin": 1}

        def run():
            d1 = self.fresh().get_probability_distributions(list(op["p1"]))["stdout"]
            d2 = self.fresh().get_probability_distributions(list(op["p2"]))["stdout"] if op.get("p2") else None
            if op.get("same"):
                d2 = d1
            ev["d1"] = enc_pairs(d1)
            ev["d2"] = enc_pairs(d2) if d2 is not None else []
            if op.get("busy"):  # the user is drawing something as well
                mine = pyplot.figure()
                mine.gca().bar([1, 2, 3], [0.4, 0.3, 0.2])
                mine.gca().plot([2.2, 2.2], [0, 1])
            before = len(pyplot.get_fignums())
            CHARTS["drawn"].clear()
            if op.get("via") == "interp":
                it = self.fresh()
                image = {"hist": it.get_histogram, "atl": it.get_at_least_histogram,
                         "atm": it.get_at_most_histogram}[kind](list(op["p1"]))
            elif kind == "hist":
                image = d1.get_histogram()
            elif kind == "atl":
                image = d1.get_at_least_histogram()
            elif kind == "atm":
                image = d1.get_at_most_histogram()
            elif kind == "diff":
                image = d1.get_compare_histogram(d2)
            else:
                names = () if op.get("default") else (l1, l2)
                image = {"cmp": d1.get_compare, "cmpatl": d1.get_compare_at_least, "cmpatm": d1.get_compare_at_most}[kind](d2, *names)
            ev["left"] = max(0, len(pyplot.get_fignums()) - before)
            pyplot.close("all")
            figure, pixels = CHARTS["drawn"][-1]
            axis = figure.axes[0]
            ev["d1b"] = enc_pairs(d1)
            ev["d2b"] = enc_pairs(d2) if d2 is not None else []
            ev["win"] = [enc_real(float(x)) for x in sorted(axis.get_xlim()) + sorted(axis.get_ylim())]
            ev["lin"] = 1 if axis.get_xscale() == axis.get_yscale() == "linear" else 0
            vs = [p[0] for p in ev["d1"] + ev["d2"]]
            if kind in ("hist", "atl", "atm", "diff"):
                ev["bars"] = bars_of(axis, min(vs), max(vs))
                marks = []
                for line in axis.lines:
                    xs = [float(x) for x in line.get_xdata()]
                    if len(xs) >= 2 and max(xs) - min(xs) < 1e-12:
                        marks.append(enc_real(xs[0]))
                ev["avg"] = marks
            else:
                # one curve per legend entry, in the order of the two distributions' names
                curves = []
                for line in axis.lines:
                    pts = list(zip([float(x) for x in line.get_xdata()], [float(y) for y in line.get_ydata()]))
                    if pts and pts[0][0] > pts[-1][0]:  # drawn from right to left: the same picture
                        pts.reverse()
                    curves.append({"label": chars(str(line.get_label())),
                                   "pts": [[enc_int(x), enc_real(y)] for x, y in pts]})
                want = [chars(l1), chars(l2)]
                if len(curves) == 2 and curves[0]["label"] != want[0] and curves[1]["label"] == want[0]:
                    curves.reverse()
                legend = axis.get_legend()
                texts = [chars(t.get_text()) for t in legend.get_texts()] if legend is not None else []
                if sorted(texts) != sorted(want):
                    curves = []
                ev["curves"] = curves
            ev["img"] = same_image(image, pixels)

        st, _, _ = guarded(run)
        ev["st"] = st
        return ev

    def freq(self, op):
        lines, n, lag = op["lines"], op["n"], op.get("pair", 0)
        ev = {"ev": "freq", "lines": [chars(x) for x in lines], "n": n, "pair": lag, "cells": [],
              "err": 1 if op.get("err") else 0, "errs": 0}

        def run():
            random.seed(op["rseed"])
            it = self.fresh()
            tally = {}
            if op.get("once"):  # one parsed line rolled again and again
                roll = self.parser.parse(lines[0])[0].roll
                for _ in range(n):
                    v = roll()
                    tally[v] = tally.get(v, 0) + 1
                return [[[[chars("stdout"), enc_int(v)]], c] for v, c in sorted(tally.items())]
            for turn in range(n):
                if op.get("each"):
                    it = self.fresh()
                if op.get("mix") and turn % 40 == 0:
                    for q in op["mix"]:
                        getattr(it, QUERY[q])(list(lines))
                try:
                    res = it.roll(list(lines))
                    if lag:
                        for _ in range(lag):
                            again = it.roll(list(lines))
                        key = (("stdout", res["stdout"]), ("stdout2", again["stdout"]))
                    else:
                        key = tuple(sorted(res.items()))
                except ZeroDivisionError:
                    ev["errs"] += 1
                    continue
                tally[key] = tally.get(key, 0) + 1
            return [[[[chars(k), enc_int(v)] for k, v in key], c] for key, c in sorted(tally.items())]

        st, cells, _ = guarded(run, 500)
        ev["st"] = st
        if st == "ok":
            ev["cells"] = cells
        return ev

    BIN = {
        "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b,
        "==": lambda a, b: a.__equal__(b), "!=": lambda a, b: a.__not_equal__(b),
        "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
        "AND": lambda a, b: a & b, "OR": lambda a, b: a | b,
        "MAX": lambda a, b: a.max_operator(b), "MIN": lambda a, b: a.min_operator(b),
    }

    def obj(self, op):
        kind = op["op"]
        ev = {"ev": "obj", "op": kind, "o": op.get("o", 0), "a": op.get("a", 0), "b": op.get("b", 0),
              "w": chars(op.get("w", "")), "d": [], "lines": [chars(x) for x in op.get("lines", [])]}
        objs = self.objects

        def run():
            if kind == "new":
                m = {int(k): v for k, v in op["d"]}
                ev["d"] = [[k, limbs(m[k])] for k in sorted(m)]
                objs[op["o"]] = ProbabilityDistributionFactory().create(m)
            elif kind == "take":
                objs[op["o"]] = self.fresh().get_probability_distributions(list(op["lines"]))["stdout"]
            elif kind == "bin":
                objs[op["o"]] = self.BIN[op["w"]](objs[op["a"]], objs[op["b"]])
            elif kind == "not":
                objs[op["o"]] = objs[op["a"]].not_operator()
            elif kind == "abs":
                objs[op["o"]] = abs(objs[op["a"]])
            else:  # look at an object in every way
                d = objs[op["a"]]
                d.get_dict_form(), d.average(), d.min(), d.max(), d.contains_zero()
                d.at_least().clear(), d.at_most().clear(), str(d), repr(d)
                got = d.get_result_map()
                got.clear()
                d.get_dict_form().clear()

        st, _, _ = guarded(run)
        ev["st"] = st
        st2, allv, _ = guarded(lambda: [[i, enc_pairs(objs[i])] for i in sorted(objs)])
        ev["all"] = allv if st2 == "ok" else []
        if st2 != "ok":
            ev["st"] = st2
        return ev

    def cross(self, op):
        """a variable of one interpreter combined with the equally named one of another"""
        ev = {"ev": "cross", "lines": [chars(op["x"])], "lines2": [chars(op["y"])], "w": chars(op["w"]), "d": []}

        def run():
            a = self.fresh().get_probability_distributions([op["x"]])[op["n"]]
            b = self.fresh().get_probability_distributions([op["y"]])[op["n"]]
            return enc_pairs(self.BIN[op["w"]](a, b))

        st, d, _ = guarded(run)
        ev["st"] = st
        ev["d"] = d if st == "ok" else []
        return ev

    def cset(self, op):
        from python_dice.src.constraint.constraint_factory import ConstraintFactory
        from python_dice.src.constraint.constraint_merger import ConstraintMerger
        from python_dice.src.constraint.constraint_set import ConstraintSet

        factory = ConstraintFactory()
        names, vals = op["names"], op["vals"]
        space = [[]]
        for _ in names:
            space = [s + [v] for s in space for v in vals] if "space" not in op else op["space"]
        ev = {"ev": "cset", "op": op["op"], "o": op["o"], "a": op.get("a", 0), "b": op.get("b", 0),
              "cs": [[c[0]] if c[0] != "var" else ["var", c[1], sorted(c[2])] for c in op.get("cs", [])],
              "names": names, "space": space}

        def make(c):
            if c[0] == "null":
                return factory.null_constraint
            if c[0] == "imp":
                return factory.impossible_constraint
            con = factory.var_value_constraint(name=c[1], values=set(c[2]))
            self.cons.append((con, c[1], sorted(c[2])))
            return con

        def run():
            made = [make(c) for c in op.get("cs", [])]
            if op["op"] == "new":
                given = set(made)
                size = len(given)
                use = ConstraintMerger().merge_constraints(given) if op.get("via") == "merge" else given
                self.sets[op["o"]] = ConstraintSet(use, ConstraintMerger())
                assert len(given) == size, "argument changed"
            elif op["op"] == "add":
                for c in made:
                    if op.get("via") == "merge":      # the merger asked directly
                        given = self.sets[op["o"]].constraints
                        before = sorted(map(id, given))
                        self.sets[op["o"]] = ConstraintSet(ConstraintMerger().merge_new_constraints(given, c), ConstraintMerger())
                        assert sorted(map(id, given)) == before, "argument changed"
                    else:
                        self.sets[op["o"]].add_constraint(c)
            else:
                self.sets[op["o"]] = self.sets[op["a"]].combine_sets(self.sets[op["b"]])

        st, _, _ = guarded(run)
        ev["st"] = st

        def look():
            out = []
            for i in sorted(self.sets):
                s = self.sets[i]
                out.append({"id": i, "poss": 1 if s.is_possible() else 0,
                            "ok": [1 if s.complies(dict(zip(names, a))) else 0 for a in space]})
            return out

        st2, ev["all"], _ = guarded(look)
        if st2 != "ok":
            ev["st"], ev["all"] = st2, []
        ev["before"] = [[n, v] for _, n, v in self.cons]
        ev["after"] = [[c.name, sorted(c.values)] for c, _, _ in self.cons]
        return ev


def probe_leak():
    """does a cost query give variables values?  (known finding K4)"""
    it = PythonDiceInterpreter()
    it.get_estimated_cost(["VAR a = 3d6"])
    return 1 if "a" in it.roll(["0"]) else 0


def main():
    with open(sys.argv[1]) as f:
        groups = json.load(f)
    machine = Machine()
    st, leak, _ = guarded(probe_leak)
    cut = False
    with open(sys.argv[2], "w") as out:
        out.write(json.dumps({"ev": "head", "leak": leak if st == "ok" else 0}) + "\n")
        index = []
        n = 1
        for g, group in enumerate(groups):
            machine.reset()
            for k, op in enumerate(group):
                evs = getattr(machine, op["ev"])(op)
                for ev in evs if isinstance(evs, list) else [evs] if evs is not None else []:
                    out.write(json.dumps(ev) + "\n")
                    n += 1
                    index.append([n, g, k])
            if HANGS[0] >= 2:  # the recorded events show it: enough
                cut = g + 1 < len(groups)
                break
    with open(sys.argv[2] + ".index", "w") as out:
        json.dump({"index": index, "cut": cut}, out)


if __name__ == "__main__":
    main()
