#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py C04

1. design: TLC checks the specification itself (spec/MC_*.tla), where the property has such a module
2. generation: operations for the real code, from the specification (behaviours TLC prints) and from drivers/gen.py
3. execution: drivers/execute.py runs them on /repo's working tree and records a trace
4. validation: TLC checks every recorded event against spec/TraceDice.tla

exit 0: held; 1: VIOLATION line printed; 2: the machinery failed
"""
import concurrent.futures
import importlib.util
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "drivers"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYPY = "/opt/venv/bin/python"
CORES = max(1, min(8, os.cpu_count() or 8))


class Broken(Exception):
    """the machinery failed: no answer"""


def classpath():
    text = ""
    exe = shutil.which("tlc")
    if exe:
        with open(exe) as f:
            text = f.read()
    m = re.search(r"-cp\s+\"?([^\s\"]+)", text)
    return m.group(1) if m else CP


def tlc(module, cfg, scratch, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """runs TLC on spec/<module>.tla; returns its output"""
    meta = tempfile.mkdtemp(prefix="meta_", dir=scratch)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta,
           "-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as exc:
        raise Broken("TLC took more than %d s on %s" % (timeout, module)) from exc
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tla_unquote(line):
    """the string TLC printed with PrintT"""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        return json.loads(line) if "\\" in line else line[1:-1]
    return line


def execute(groups, scratch, tag, hashseed="0"):
    """runs operation groups on the real code; returns the paths of trace and index"""
    ops = os.path.join(scratch, "ops_%s.json" % tag)
    trace = os.path.join(scratch, "trace_%s.ndjson" % tag)
    with open(ops, "w") as f:
        json.dump(groups, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), MPLBACKEND="Agg", PYTHONHASHSEED=str(hashseed),
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), PD_REPO=os.environ.get("PD_REPO", "/repo"))
    p = subprocess.run([PYPY, os.path.join(VERIF, "drivers", "execute.py"), ops, trace], env=env, cwd=scratch,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise Broken("executing the operations failed:\n" + p.stdout.decode("utf-8", "replace")[-3000:])
    return trace


def validate(trace, scratch):
    """TLC's verdict on a trace: list of {n, bad, known}"""
    code, out = tlc("TraceDice", "TraceDice.cfg", scratch, env={"TRACE": trace})
    verdicts, done = [], None
    for line in out.splitlines():
        s = tla_unquote(line)
        if s.startswith("@@DONE"):
            done = [int(x) for x in s.split()[1:]]
        elif s.startswith("@@{"):
            verdicts.append(json.loads(s[2:]))
    if code != 0 or done is None or done[0] != done[1]:
        keep = os.path.join(tempfile.gettempdir(), "pd_failed_trace.ndjson")
        if os.environ.get("PD_KEEP"):
            shutil.copy(trace, keep)
        raise Broken("TLC did not get through the trace:\n" + out[-3500:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return verdicts, done[1], (int(m.group(2)), int(m.group(1))) if m else (0, 0)


def shards(groups, n):
    out = [[] for _ in range(n)]
    for k, g in enumerate(groups):
        out[k % n].append((k, g))
    return [s for s in out if s]


def run_shard(part, scratch, tag, hashseeds=("0",)):
    """executes the groups, once per process (each with its own hash seed and order of groups), as one trace"""
    trace = os.path.join(scratch, "all_%s.ndjson" % tag)
    index, kinds, base, cut = {}, {}, 0, False
    with open(trace, "w") as out:
        for h, hashseed in enumerate(hashseeds):
            mine = list(part)
            if h:
                random.Random(h).shuffle(mine)
            t = execute([g for _, g in mine], scratch, "%s_%d" % (tag, h), hashseed)
            with open(t) as f:
                count = 0
                for line in f:
                    out.write(line)
                    count += 1
                    e = json.loads(line)
                    key = e["ev"] + (":" + e["q"] if "q" in e else "")
                    kinds[key] = kinds.get(key, 0) + 1
            with open(t + ".index") as f:
                got = json.load(f)
            cut = cut or got["cut"]
            for n, g, k in got["index"]:
                index[base + n] = (mine[g][0], k, mine[g][1], hashseed)
            base += count
            os.remove(t)
    verdicts, events, counts = validate(trace, scratch)
    found = []
    for v in verdicts:
        g, k, ops, hs = index.get(v["n"], (-1, -1, [], "0"))
        found.append({"group": g, "op": k, "bad": sorted(v["bad"]), "known": sorted(v["known"]), "ops": ops, "hashseed": hs})
    os.remove(trace)
    return found, events - len(hashseeds), kinds, cut, counts


def known_ids(prop):
    """finding id -> text, for the findings listed for this property"""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (K\d+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def describe(op):
    return json.dumps({k: v for k, v in op.items() if k not in ("names", "vals")}, ensure_ascii=False)[:400]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="pd_check_")
    os.makedirs(os.path.join(scratch, "mpl"))
    try:
        code = decide(prop, tier, seed, start, scratch)
    except Broken as exc:
        print("BROKEN property=%s %s" % (prop, exc))
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, start, scratch):
    import gen
    import design

    notes = []
    states = transitions = 0
    samples = []
    # 1. the specification itself, and behaviours it generates
    plan = design.PLAN.get(prop, [])
    spec_groups = []
    pool = concurrent.futures.ThreadPoolExecutor(CORES)
    futures = [(m, pool.submit(design.run, prop, m, tier, seed, scratch)) for m in plan]
    for m, f in futures:
        r = f.result()
        states += r["states"]
        transitions += r["transitions"]
        notes.append(r["note"])
        spec_groups += r["groups"]
    # 2. operations
    groups = spec_groups + gen.GENERATORS[prop](seed * 1000 + int(prop[1:]), tier)
    hashseeds = ["0"] if prop != "C12" else (["0", "1", "4242"] if tier == "quick" else ["0", "1", "2", "3", "77", "4242"])
    n = CORES if tier == "quick" else 4 * CORES
    jobs = [pool.submit(run_shard, part, scratch, str(k), hashseeds)
            for k, part in enumerate(shards(groups, min(n, max(1, len(groups)))))]
    found, events, kinds = [], 0, {}
    short = False
    tstates = ttrans = 0
    for j in jobs:
        f, n, kd, cut, counts = j.result()
        tstates += counts[0]
        ttrans += counts[1]
        found += f
        events += n
        short = short or cut
        for key, c in kd.items():
            kinds[key] = kinds.get(key, 0) + c
    listed = known_ids(prop)
    met = {}
    bad = []
    for f in found:
        for k in f["known"]:
            if k in listed:
                met.setdefault(k, f)
        if f["bad"]:  # a finding known for another property is no violation of this one
            f["clauses"] = f["bad"]
            bad.append(f)
    for k in sorted(met):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, listed[k]))
    bad.sort(key=lambda f: (len(f["ops"]), f["group"], f["op"]))
    for g in groups[:: max(1, len(groups) // 6)][:6]:
        samples.append(" ; ".join(describe(o) for o in g[:3]))
    replay = None
    if bad:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(VERIF, "evidence", "replay", prop + ".json")
        b = bad[0]
        with open(replay, "w") as f:
            json.dump({"property": prop, "clauses": b["clauses"], "failing_operation": b["op"], "operations": b["ops"],
                       "hashseed": b["hashseed"], "how": "python3 tools/replay.py " + replay}, f, indent=1)
        for b in bad[:5]:
            print("  failed: %s at %s" % ("; ".join(b["clauses"]), describe(b["ops"][b["op"]])))
        if len(bad) > 5:
            print("  and %d more failing operations" % (len(bad) - 5))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states + tstates, "transitions": transitions + ttrans,
            "traces_validated_against_impl": len(groups) * len(hashseeds),
            "design_states": states, "design_transitions": transitions, "event_kinds": kinds,
            "spec_generated_histories": len(spec_groups), "hash_seeds": hashseeds, "design_checks": notes,
            "known_findings_met": sorted(met), "violations": len(bad), "samples": samples,
            "bounds": "design checks: bounds in the listed cfg; conformance: the listed events",
        },
        "wall_s": round(time.time() - start, 1),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d groups, %d events validated, %d specification states, %.0f s" %
          (prop, tier, len(groups), events, states, time.time() - start))
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if short:
        raise Broken("operations are missing from the trace")
    return 0


if __name__ == "__main__":
    main()
