"""Design-level TLC runs: which module decides what for which property, and what becomes of the
behaviours TLC prints (they are run on the real code)."""
import json
import random
import re

import check

# property -> [(module, cfg, tiers of the module for a quick run, ... for a thorough run)]
PLAN = {
    "C01": [("MC_Dice", "MC_Dice")],
    "C02": [("MC_Dice", "MC_Dice")],
    "C03": [("MC_Laws", "MC_Laws_Ops")],
    "C04": [("MC_World", "MC_World_Law"), ("MC_Nest", "MC_Nest")],
    "C05": [("MC_World", "MC_World_Bounds"), ("MC_Nest", "MC_Nest")],
    "C06": [("MC_World", "MC_World_Rolls"), ("MC_Nest", "MC_Nest")],
    "C07": [("MC_Freq", "MC_Freq")],
    "C08": [("MC_Laws", "MC_Laws_Figures")],
    "C09": [("MC_World", "MC_World_Rolls")],
    "C10": [("MC_Text", "MC_Text_Group")],
    "C11": [("MC_Session", "MC_Session")],
    "C12": [("MC_Session", "MC_Session"), ("MC_Many", "MC_Many")],
    "C13": [("MC_Merge", "MC_Merge")],
    "C14": [("MC_Cost", "MC_Cost"), ("MC_Nest", "MC_Nest")],
    "C15": [("MC_Text", "MC_Text_Show")],
    "C16": [("MC_Laws", "MC_Laws_Charts")],
    "C17": [("MC_Text", "MC_Text_Report")],
}
TIERS = {"MC_World": {"quick": ["quick"], "thorough": ["wide", "deep"]}}


def text(cs):
    return "".join(cs)


def run(prop, m, tier, seed, scratch):
    module, cfg = m
    out = {"states": 0, "transitions": 0, "note": [], "groups": []}
    for t in TIERS.get(module, {}).get(tier, [tier]):
        code, log = check.tlc(module, cfg + ".cfg", scratch, env={"TIER": t, "PRINT": "1"}, workers=check.CORES, heap="6g",
                              timeout=800 if tier == "quick" else 7200)
        if code != 0 or "No error has been found" not in log:
            raise check.Broken("the specification does not satisfy its own properties (%s, %s):\n%s" % (module, t, log[-3000:]))
        mm = re.search(r"(\d+) states generated, (\d+) distinct states found", log)
        out["transitions"] += int(mm.group(1))
        out["states"] += int(mm.group(2))
        with open(check.os.path.join(check.SPEC, cfg + ".cfg")) as f:
            inv = " ".join(" ".join(x.split()[1:]) for x in f if x.split() and x.split()[0] in ("INVARIANTS", "PROPERTIES"))
        out["note"].append("%s (%s): %s states, %s transitions, checked %s" % (cfg, t, mm.group(2), mm.group(1), inv))
        items, finals = [], []
        for line in log.splitlines():
            if "@@" not in line:
                continue
            s = check.tla_unquote(line)
            if s.startswith("@@OPS "):
                items.append(json.loads(s[6:]))
            elif s.startswith("@@FINALS "):
                finals = sorted(text(x) for x in json.loads(s[9:]))
        if items:
            seen = {}
            for x in items:
                seen.setdefault(json.dumps(x, sort_keys=True), x)
            items = [seen[k] for k in sorted(seen)]
            random.Random("%s/%s/%d" % (prop, t, seed)).shuffle(items)
            out["groups"] += TO_OPS.get((prop, module), TO_OPS.get(prop))(items, finals, tier, random.Random(seed))
    out["note"] = "; ".join(out["note"])
    return out


def cap(items, tier, quick, thorough):
    return items[: quick if tier == "quick" else thorough]


def call(q, lines, fresh=True, i=1, **kw):
    d = {"ev": "call", "q": q, "lines": lines, "i": i}
    if fresh:
        d["fresh"] = 1
    d.update(kw)
    return d


def literals(items, _finals, tier, _r):
    """every literal of the model, several to an interpreter"""
    lines = [text(x[0]["lines"][0]) for x in items]
    return [[call("dist", [t], fresh=(k == 0)) for k, t in enumerate(lines[n:n + 5])] for n in range(0, len(lines), 5)]


def keep_literals(items, finals, tier, r):
    return literals([x for x in items if text(x[0]["lines"][0])[-2] in "kd"], finals, tier, r)


def programs(make, quick, thorough, per):
    def f(items, finals, tier, r):
        groups = []
        for x in cap(items, tier, quick, thorough):
            lines = [text(y) for y in x["hist"]]
            names = {y.split()[1] for y in lines}
            can = [e for e in finals if all(w in names for w in re.findall(r"\b[ab]\b", e))]
            groups += make(lines, r.sample(can, min(len(can), per)), r)
        return groups

    return f


def world_law(lines, es, r):
    return [[call("dist", lines)] + [call("dist", [e], fresh=False, lv="noerr") for e in es]]


def world_bounds(lines, es, r):
    out = []
    for e in es[:6]:
        out.append([{"ev": "tight", "q": q, "lines": lines + [e]} for q in ("min", "max")])
    return out


def world_rolls(lines, es, r):
    ops = []
    for e in es:
        ops.append(call("roll", lines + [e], fresh=not ops, rseed=r.randint(0, 10 ** 6)))
        ops.append(call("roll", [e], fresh=False, rseed=r.randint(0, 10 ** 6)))
    return [ops]


def world_zero(lines, es, r):
    out = []
    for e in es:
        q = r.choice(["min", "max", "dist", "dict", "avg"])
        out.append([call(q, lines + [e], lv="err"), call("roll", lines + [e], rseed=r.randint(0, 10 ** 6))])
    return out


def zero_programs(items, finals, tier, r):
    return programs(world_zero, 60, 600, 8)(items, [e for e in finals if "//" in e], tier, r)


def costs(items, _finals, tier, r):
    out = []
    for x in cap(items, tier, 150, 4000):
        lines = [text(y) for y in x["hist"]]
        out.append([call("cost", lines), call("cost", lines, fresh=False)])
    return out


def pairs(items, _finals, tier, r):
    ops2 = ["+", "-", "*", "//", "==", "!=", "<", "<=", ">", ">=", "AND", "OR", "MAX", "MIN"]
    groups = []
    for x in cap(items, tier, 60, 1500):
        ops = [{"ev": "obj", "op": "new", "o": 1, "d": x["d"]}, {"ev": "obj", "op": "new", "o": 2, "d": x["e"]}]
        for k, w in enumerate(ops2):
            ops.append({"ev": "obj", "op": "bin", "w": w, "o": 3 + k, "a": 1, "b": 2})
        ops += [{"ev": "obj", "op": "not", "o": 30, "a": 1}, {"ev": "obj", "op": "abs", "o": 31, "a": 1},
                {"ev": "obj", "op": "look", "a": 1}]
        groups.append(ops)
    return groups


def lines_parse(items, _finals, tier, r):
    return [[{"ev": "parse", "t": text(x["text"]), "lv": "err"}] for x in cap(items, tier, 1200, 60000)]


def lines_report(items, _finals, tier, r):
    return [[{"ev": "parse", "t": text(x["text"])}] for x in cap(items, tier, 1500, 60000)]


def lines_print(items, _finals, tier, r):
    return [[{"ev": "print", "t": text(x["text"]), "pre": ["VAR a = d3"]}] for x in cap(items, tier, 3000, 60000)]


def sessions(items, _finals, tier, r):
    groups = []
    for x in cap(items, tier, 700, 12000):
        ops = []
        for n, (q, p) in enumerate(x["calls"]):
            ops.append(call(q, [text(t) for t in p], fresh=not ops, rid=n + 1 if q != "cost" else 0, rseed=r.randint(0, 10 ** 6)))
        ops += [call("roll", ["0"], fresh=False), call("dist", ["0"], fresh=False)]
        ops += [{"ev": "same", "rid": n + 1} for n, c in enumerate(x["calls"]) if c[0] != "cost"]
        groups.append(ops)
    return groups


def schedules(items, tier, r):
    """overlapping calls of the model, line by line, and each call alone"""
    groups = []
    for x in cap(items, tier, 300, 12000):
        steps = [[s[0]] if len(s) == 1 else [s[0], s[1], [text(t) for t in s[2]]] for s in x["sched"]]
        groups.append([{"ev": "sched", "steps": steps, "lv": "det", "own": r.random() < 0.2}])
        groups += [[call(s[1], s[2], lv="det")] for s in steps if len(s) == 3]
    return groups


def interleaved(items, _finals, tier, r):
    """two histories of the model, interleaved on two interpreters, and each alone"""
    if "sched" in items[0]:
        return schedules(items, tier, r)
    groups = []
    items = cap(items, tier, 160, 4000)
    for x, y in zip(items[::2], items[1::2]):
        alone = []
        for i, h in ((1, x), (2, y)):
            alone.append([call(q, [text(t) for t in p], fresh=(n == 0), i=i, lv="det", rseed=r.randint(0, 10 ** 6))
                          for n, (q, p) in enumerate(h["calls"])])
        mixed, left = [], [list(a) for a in alone]
        while any(left):
            k = r.choice([k for k in (0, 1) if left[k]])
            mixed.append(left[k].pop(0))
        groups += [mixed, alone[0], [dict(o, i=1) for o in alone[1]]]
    return groups


def merges(items, _finals, tier, r):
    base = {"names": ["x", "y"], "vals": [0, 1, 2]}

    def con(c):
        return c if c[0] != "var" else ["var", c[1], sorted(c[2])]

    groups = []
    items = sorted(items, key=lambda x: -len(x["ops"]))
    n = len(items)
    keep = items if tier != "quick" else r.sample(items, min(n, 700))
    for x in keep[:20000]:
        ops = []
        for o in x["ops"]:
            if o[0] == "comb":
                ops.append(dict(base, ev="cset", op="comb", o=o[1], a=o[2], b=o[3]))
            else:
                ops.append(dict(base, ev="cset", op=o[0], o=o[1], cs=[con(o[2])]))
        groups.append(ops)
    return groups


def figures(items, _finals, tier, r):
    return [[{"ev": "figs", "map": x["d"]}] for x in cap(items, tier, 200, 2000)]


def nested(*qs):
    """programs with assignments inside expressions, then all their names together"""
    def f(items, _finals, tier, r):
        groups = []
        for x in cap([x for x in items if x["calm"] or qs[0] in ("dist", "roll")], tier, 60, 1500):
            lines = [text(y) for y in x["prog"]] + [" + ".join("%s * %d" % (text(n), 10 ** k) for k, n in enumerate(sorted(x["names"])))]
            groups.append([{"ev": "nest", "q": q, "lines": lines, "rseed": r.randint(0, 10 ** 6)} for q in qs])
        return groups

    return f


TO_OPS = {
    ("C04", "MC_Nest"): nested("dist"), ("C05", "MC_Nest"): nested("max", "min"), ("C06", "MC_Nest"): nested("roll", "roll"), ("C14", "MC_Nest"): nested("cost"),
    "C01": literals, "C02": keep_literals, "C03": pairs, "C04": programs(world_law, 61, 3000, 12),
    "C05": programs(world_bounds, 61, 2000, 6), "C06": programs(world_rolls, 61, 2000, 10), "C09": zero_programs,
    "C10": lines_parse, "C11": sessions, "C12": interleaved, "C13": merges, "C14": costs, "C15": lines_print,
    "C17": lines_report, "C08": figures, "C16": lambda *a: [],
}
