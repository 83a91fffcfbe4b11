"""Model-based checking of one property: TLC explores the specification and
prints operation histories, a driver runs them against the code built from
/repo's working tree, and TLC validates the recorded executions against the
specification."""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar"
DEBUG = bool(os.environ.get("VERIF_DEBUG"))
PYVENV = "/opt/vp/venv/bin/python"


class MachineryError(Exception):
    pass


class Component:
    """One specification module bound to one driver.  A property may have
    several components."""

    def __init__(self, name, spec, driver, mc=None, sim=None, consts=None,
                 tier_mc=None, histories=None, maxlen=99, num_sim=(0, 0),
                 sim_len=(0, 0), per_history_timeout=20, known=None, fold=None,
                 max_edges=None, expand=None, workers=8, trace_chunk=60000,
                 pack=1, jobs=None):
        self.name = name
        self.spec = spec
        self.driver = driver          # file in drivers/
        self.mc = mc                  # {const: tla-expr} quick exhaustive scope
        self.tier_mc = tier_mc        # same for thorough (default: mc)
        self.sim = sim                # {const: expr} for random walks
        self.consts = consts or {}    # constants for the trace module
        self.histories = histories    # f(rng, tier) -> list of op lists
        self.maxlen = maxlen if isinstance(maxlen, tuple) else (maxlen, maxlen)
        self.num_sim = num_sim
        self.sim_len = sim_len
        self.known = known            # f(history, op, expected, observed) -> id
        self.max_edges = max_edges if isinstance(max_edges, tuple) \
            else max_edges and (max_edges, None)
        self.expand = expand          # f(history) -> history given to driver
        self.workers = workers
        self.trace_chunk = trace_chunk
        self.jobs = jobs or (8 if driver.endswith(".py") else 1)
        self.pack = pack              # independent one-op histories per line


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def build(mode):
    r = sh(["bash", VERIF + "/lib/build.sh", mode], timeout=880)
    if r.returncode:
        sys.stdout.write(r.stdout[-4000:])
        raise MachineryError("the tree does not build")


def compile_driver(src, work):
    exe = os.path.join(work, os.path.splitext(src)[0])
    if os.path.exists(exe):
        return exe
    tests = REPO + "/RedshiftLibrary/tests/src"
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-I", REPO + "/RedshiftLibrary",
           "-I", VERIF + "/drivers", "-isystem", "/usr/include/eigen3",
           VERIF + "/drivers/" + src, "-o", exe,
           "-L", REPO + "/_build", "-lcpf-redshift",
           "-Wl,-rpath," + REPO + "/_build", "-lpthread"]
    r = sh(cmd)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        raise MachineryError("driver %s does not compile" % src)
    return exe


STAT = re.compile(r"^(\d+) states generated, (\d+) distinct states found")
EDGE = re.compile(r'^<<"EDGE", (".*")>>$')
BAD = re.compile(r'^<<"BAD", (\d+), (".*")>>$')
DONE = re.compile(r'^<<"DONE", (\d+)>>$')


def tla_string(s):
    # a TLA+ string as TLC prints it: only \" and \\ are escaped
    return re.sub(r'\\(["\\])', r"\1", s[1:-1])


def run_tlc(work, module, text, cfg, workers=8, timeout=800, heap="6g",
            on_line=None, tag="", at_line=None):
    d = tempfile.mkdtemp(dir=work)
    with open(os.path.join(d, module + ".tla"), "w") as f:
        f.write(text)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC",
           "-Dtlc2.tool.impl.Tool.cdot=true",
           "-DTLA-Library=" + VERIF + "/spec",
           "-cp", CP + ":" + os.path.dirname(CP) + "/CommunityModules-deps.jar"
           + ":" + os.path.dirname(CP) + "/CommunityModules.jar",
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-deadlock",
           "-config", module + ".cfg", module + ".tla"]
    p = subprocess.Popen(cmd, cwd=d, text=True, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT)
    t0 = time.time()
    tail, stats = [], (0, 0)
    for line in p.stdout:
        line = line.rstrip("\n")
        if on_line and on_line(line):
            continue
        m = STAT.match(line)
        if m:
            stats = (int(m.group(1)), int(m.group(2)))
        tail.append(line)
        if len(tail) > 400:
            del tail[200:201]
        if time.time() - t0 > timeout:
            p.kill()
            raise MachineryError("TLC timeout on " + module)
    p.wait()
    shutil.rmtree(d, ignore_errors=True)
    if at_line is not None and p.returncode:
        ls = [int(m.group(1)) for m in
              (re.match(r"^/\\ l = (\d+)$", x) for x in tail) if m]
        if ls and any("Error: " in x for x in tail):
            at_line.append((max(ls), [tail[k][:600] for k in range(len(tail)) if any("Error: " in y for y in tail[max(0, k - 8):k + 1])][:24]))
            return stats
    ok = any("Model checking completed. No error" in x for x in tail)
    if p.returncode or not ok:
        sys.stdout.write("\n".join(x[:600] for x in tail[-60:]) + "\n")
        raise MachineryError("TLC failed on %s (%s)" % (module, tag))
    return stats


def cfg_consts(d):
    return "".join("CONSTANT %s = %s\n" % kv for kv in d.items()
                   if not str(kv[1]).startswith("<-"))


def module_text(name, spec, consts, variables, inst, extra=""):
    # constants are given as definitions in the module, so that any TLA+
    # expression may be used
    defs = "".join("c_%s == %s\n" % kv for kv in consts.items())
    # (included as text rather than by INSTANCE: TLC evaluates constant
    # definitions of an instantiated module again and again)
    body = open("%s/spec/%s.tla" % (VERIF, inst)).read()
    body = body.split("\\* BEGIN\n", 1)[1].split("\\* END\n", 1)[0]
    return ("---- MODULE %s ----\nEXTENDS %s, Json\nVARIABLES %s\n%s%s\n"
            "%s====\n" % (name, spec, variables, defs, extra, body))


def cfg_text(consts, rest):
    return "".join("CONSTANT %s <- c_%s\n" % (k, k) for k in consts) + rest


def explore(work, comp, tier):
    mc = comp.mc if tier == "quick" or comp.tier_mc is None else comp.tier_mc
    consts = dict(comp.consts)
    consts.update(mc)
    edges = []

    def on_line(line):
        m = EDGE.match(line)
        if m:
            edges.append(tla_string(m.group(1)))
            return True
        return False
    name = comp.spec + "_MC"
    extra = "MaxLen == %d\nEmit == TRUE\n" % (
        comp.maxlen[0] if tier == "quick" else comp.maxlen[1])
    text = module_text(name, comp.spec, consts, "st, hist", "Explore", extra)
    cfg = cfg_text(consts, "INIT Init\nNEXT Next\nINVARIANT StateInv\n"
                   "VIEW ExploreView\nACTION_CONSTRAINT EmitEdge\n")
    gen, distinct = run_tlc(work, name, text, cfg, workers=1, on_line=on_line,
                            tag=comp.name)
    return gen, distinct, edges


def simulate(work, comp, tier, seed):
    i = 0 if tier == "quick" else 1
    num, length = comp.num_sim[i], comp.sim_len[i]
    if not num:
        return 0, 0, []
    consts = dict(comp.consts)
    consts.update(comp.sim if comp.sim is not None else comp.mc)
    out = []

    def on_line(line):
        m = EDGE.match(line)
        if m:
            out.append(tla_string(m.group(1)))
            return True
        return False
    name = comp.spec + "_Sim"
    extra = "NumSim == %d\nSimLen == %d\nSeed == %d\n" % (
        num, length, seed % 10000)
    text = module_text(name, comp.spec, consts, "st, hist, w, r1, r2", "Simul",
                       extra)
    cfg = cfg_text(consts, "INIT Init\nNEXT Next\nINVARIANT StateInv\n")
    gen, distinct = run_tlc(work, name, text, cfg, workers=comp.workers,
                            on_line=on_line, tag=comp.name + " sim")
    if len(out) < num * 0.5:
        raise MachineryError("simulation of %s printed %d of %d walks"
                             % (comp.name, len(out), num))
    out.sort()
    return gen, distinct, out


def run_driver(work, comp, lines, tag="", timeout=700):
    """Execute the histories; returns the trace file."""
    out = os.path.join(work, comp.name + tag + ".ndjson")
    jobs = max(1, min(comp.jobs, len(lines) // 4))
    if not comp.driver.endswith(".py"):
        compile_driver(comp.driver, work)
    size = (len(lines) + jobs - 1) // jobs
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    if len(parts) == 1:
        run_driver_part(work, comp, lines, out, tag, timeout)
        return out
    with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
        names = ["%s.%d" % (out, i) for i in range(len(parts))]
        fs = [ex.submit(run_driver_part, work, comp, p, n, "%s_%d" % (tag, i),
                        timeout)
              for i, (p, n) in enumerate(zip(parts, names))]
        for f in fs:
            f.result()
    with open(out, "w") as f:
        for n in names:
            f.write(open(n).read())
            os.remove(n)
    return out


def run_driver_part(work, comp, lines, out, tag, timeout):
    h = os.path.join(work, comp.name + tag + ".hist")
    status = os.path.join(work, comp.name + tag + ".status")
    if os.path.exists(out):
        os.remove(out)
    with open(h, "w") as f:
        f.write("".join(x + "\n" for x in lines))
    scratch = tempfile.mkdtemp(prefix="scratch", dir=work)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               VERIF_SCRATCH=scratch, TMPDIR=scratch)
    if comp.driver.endswith(".py"):
        env["PYTHONPATH"] = (REPO + "/pylibamazed/python:" + VERIF + "/drivers")
        env["LD_LIBRARY_PATH"] = REPO + "/_build"
        cmd = [PYVENV, VERIF + "/drivers/" + comp.driver]
    else:
        cmd = [compile_driver(comp.driver, work)]
    start, restarts, hangs = 0, 0, 0
    t0 = time.time()
    while start < len(lines):
        with open(os.path.join(work, "driver.log" + tag), "w+") as log:
            r = subprocess.run(cmd + [h, out, status, str(start)], env=env,
                               cwd=scratch, text=True, stdout=log,
                               stderr=subprocess.STDOUT,
                               timeout=max(1, timeout - (time.time() - t0)))
            log.seek(max(0, log.tell() - 4000))
            tail = log.read()
        st = open(status).read().split() if os.path.exists(status) else []
        if len(st) == 2 and st[1] == "done":
            break
        if len(st) != 2 or st[1] not in ("crash", "hang") or r.returncode == 1:
            sys.stdout.write(tail)
            raise MachineryError("driver %s failed (rc %d)"
                                 % (comp.driver, r.returncode))
        restarts += 1
        start = int(st[0]) + 1
        # (enough has been seen; hangs take time)
        hangs += st[1] == "hang" or r.returncode == -14
        if restarts > 30 or hangs > 3:
            break
    shutil.rmtree(scratch, ignore_errors=True)


def validate(work, comp, tracefile, tag=""):
    """TLC on the recorded executions; returns [(line, expected)]."""
    lines = open(tracefile).read().splitlines()
    bad = []
    gen = 0
    # cut into chunks at reset lines, so that a chunk stays small
    cuts = [0]
    for i, x in enumerate(lines):
        if x.startswith('{"obs":{},"op":{"a":"reset"}') \
                and i - cuts[-1] >= comp.trace_chunk:
            cuts.append(i)
    cuts.append(len(lines))
    todo = [(cuts[c], cuts[c + 1]) for c in range(len(cuts) - 1)]
    stuck = 0
    while todo:
        lo, hi = todo.pop(0)
        part = lines[lo:hi]
        if not part:
            continue
        f = os.path.join(work, "%s%s_%d.trace.ndjson" % (comp.name, tag, lo))
        with open(f, "w") as fh:
            fh.write("\n".join(part) + "\n")
        done, at_line = [], []

        def on_line(line):
            m = BAD.match(line)
            if m:
                bad.append((lo + int(m.group(1)) - 1,
                            tla_string(m.group(2))))
                return True
            m = DONE.match(line)
            if m:
                done.append(int(m.group(1)))
                return True
            return False
        name = comp.spec + "_Trace"
        consts = dict(comp.consts)
        consts.update(comp.sim if comp.sim is not None else (comp.mc or {}))
        text = module_text(name, comp.spec, consts, "st, l, skip",
                           "TraceCheck", 'TraceFile == "%s"\n' % f)
        cfg = cfg_text(consts, "INIT Init\nNEXT Next\n")
        g, _ = run_tlc(work, name, text, cfg, workers=1, on_line=on_line,
                       tag=comp.name + " trace", at_line=at_line)
        gen += g
        if at_line and stuck < 20:
            # an observation the specification cannot even be compared with
            # (a value of another kind): it departs from the specification
            stuck += 1
            i = lo + at_line[0][0] - 1
            if DEBUG:
                print("TLC stopped at", lines[i], at_line)
            bad.append((i, json.dumps("not comparable: %s" % at_line[0][1])))
            todo.insert(0, (history_at(lines, i)[1], hi))
            os.remove(f)
            continue
        if done != [len(part)]:
            raise MachineryError("trace of %s not consumed: %r of %d"
                                 % (comp.name, done, len(part)))
        os.remove(f)
    return lines, bad, gen


def is_reset(line):
    return line.startswith('{"obs":{},"op":{"a":"reset"}')


def corrupt(obj, rng):
    """Change one leaf of an observation."""
    if isinstance(obj, dict):
        keys = [k for k in sorted(obj) if k != "crash"
                and not (isinstance(obj[k], (list, dict)) and not obj[k])]
        if not keys:
            return None
        for k in rng.sample(keys, len(keys)):
            c = corrupt(obj[k], rng)
            if c is not None:
                return dict(obj, **{k: c})
        return None
    if isinstance(obj, list):
        if not obj:
            return None
        i = rng.randrange(len(obj))
        c = corrupt(obj[i], rng)
        if c is None:
            return None
        return obj[:i] + [c] + obj[i + 1:]
    if isinstance(obj, bool):
        return not obj
    if isinstance(obj, int):
        return obj + 1
    if isinstance(obj, str):
        return obj + "?"
    return None


def history_at(lines, i):
    """(index of the reset line, index of the next one) around line i."""
    a = i
    while a >= 0 and not is_reset(lines[a]):
        a -= 1
    b = i + 1
    while b < len(lines) and not is_reset(lines[b]):
        b += 1
    return a, b


def load_known(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            if line.strip():
                e = json.loads(line)
                if e["property"] == prop and e.get("status") == "known":
                    out.append(e)
    return out


def check_component(prop, comp, tier, seed, work, cov, report):
    rng = random.Random("%s/%s/%d" % (prop, comp.name, seed))
    t0 = time.time()
    hists, seen = [], set()
    c = {"component": comp.name, "specification": "spec/%s.tla" % comp.spec,
         "driver": "drivers/" + comp.driver}
    if comp.mc is not None:
        gen, distinct, edges = explore(work, comp, tier)
        c["model_states"], c["model_transitions"] = distinct, gen
        cov["states"] += distinct
        cov["transitions"] += gen
        c["model_edges"] = len(edges)
        cap = comp.max_edges[0 if tier == "quick" else 1] if comp.max_edges \
            else None
        if cap and len(edges) > cap:
            edges = rng.sample(edges, cap)
        c["edge_histories"] = len(edges)
        hists += edges
    c["t_explore"] = round(time.time() - t0, 1)
    t0 = time.time()
    gen, distinct, sims = simulate(work, comp, tier, seed)
    if sims:
        c["walk_states"], c["walks"] = distinct, len(sims)
        cov["transitions"] += gen
        hists += sims
    c["t_walks"] = round(time.time() - t0, 1)
    t0 = time.time()
    if comp.histories:
        extra = [json.dumps(h) for h in comp.histories(rng, tier)]
        c["generated_histories"] = len(extra)
        hists += extra
    uniq = []
    for h in hists:
        if h not in seen:
            seen.add(h)
            uniq.append(h)
    if comp.expand:
        uniq = [json.dumps(comp.expand(json.loads(h))) for h in uniq]
    if comp.pack > 1:
        # a history whose operations do not depend on each other
        one = [h for h in uniq if len(json.loads(h)) == 1]
        many = [h for h in uniq if len(json.loads(h)) != 1]
        packed = []
        for i in range(0, len(one), comp.pack):
            packed.append("[" + ",".join(x.strip()[1:-1]
                                         for x in one[i:i + comp.pack]) + "]")
        c["packed_single_operations"] = len(one)
        uniq = many + packed
    if not uniq:
        raise MachineryError("no history for " + comp.name)
    out = run_driver(work, comp, uniq)
    c["t_driver"] = round(time.time() - t0, 1)
    t0 = time.time()
    # a recorded history with one field changed must be rejected
    lines = open(out).read().splitlines()
    n_real = len(lines)
    canaries = []
    starts = [i for i, x in enumerate(lines) if is_reset(x)]
    if len(starts) != len(uniq) and not any('"crash"' in x for x in lines):
        raise MachineryError("%s recorded %d of %d histories"
                             % (comp.name, len(starts), len(uniq)))
    for s in rng.sample(starts, min(8, len(starts))):
        a, b = history_at(lines, s)
        last = min(b, a + 1 + (1 if comp.pack > 1 else 10 ** 9)) - 1
        if last <= a:
            continue
        e = json.loads(lines[last])
        o = corrupt(e["obs"], rng)
        if o is None:
            continue
        new = lines[a:last] + [json.dumps({"obs": o, "op": e["op"]},
                                          sort_keys=True,
                                          separators=(",", ":"))]
        canaries.append((a, last, len(lines) + len(new) - 1))
        lines += new
    with open(out, "w") as f:
        f.write("\n".join(lines) + "\n")
    lines, bad, gen = validate(work, comp, out)
    badset = {i for i, _ in bad}
    badset_hist = {history_at(lines, i)[0] for i in badset}
    caught, missed = 0, []
    for a, last, i in canaries:
        if i in badset:
            caught += 1
        elif a not in badset_hist:
            missed.append(i)
    # (a field the specification leaves open may be changed without effect)
    if len(missed) > caught:
        raise MachineryError("%s: corrupted records were accepted: %s"
                             % (comp.name, lines[missed[0]][:2000]))
    c["t_validate"] = round(time.time() - t0, 1)
    c["corrupted_records_rejected"] = caught
    c["histories"] = len(starts)
    c["operations_validated"] = n_real - len(starts)
    cov["traces_validated_against_impl"] += len(starts)
    cov["operations_validated"] += n_real - len(starts)
    acts = {}
    for x in lines[:n_real]:
        if not is_reset(x):
            e = json.loads(x)
            k = e["op"]["a"] + "/" + str(e["obs"].get("ret", "-"))[:40]
            acts[k] = acts.get(k, 0) + 1
    c["operations_by_action_and_result"] = acts
    if starts:
        a, b = history_at(lines, starts[len(starts) // 2])
        cov["samples"].append({"component": comp.name, "history":
                               [json.loads(x) for x in lines[a + 1:b][:4]]})
    fails = []
    for i, expected in bad:
        if i >= n_real:
            continue
        a, b = history_at(lines, i)
        ops = [json.loads(x) for x in lines[a + 1:i + 1]]
        fails.append((ops, expected, ops[-1]["obs"]))
    c["rejected_histories"] = len(fails)
    report["components"].append(c)
    return fails


def confirm(comp, work, ops, expected):
    """Run the rejected history again on its own."""
    line = json.dumps([o["op"] for o in ops])
    out = run_driver(work, comp, [line], tag="_confirm")
    lines, bad, _ = validate(work, comp, out, tag="_confirm")
    return [(json.loads(x)) for x in lines if not is_reset(x)], bad


def main(prop, comps, tier, build_mode, assumptions=()):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not os.path.isdir(VERIF + "/evidence"):
        os.makedirs(VERIF + "/evidence")
    report = {"components": []}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "operations_validated": 0, "samples": []}
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    violations, known_hits = [], {}
    rc = 0
    try:
        build(build_mode)
        t_build = time.time() - t0
        known = load_known(prop)
        for comp in comps:
            fails = check_component(prop, comp, tier, seed, work, cov, report)
            confirmed = 0
            for ops, expected, observed in fails:
                kid = None
                if comp.known:
                    kid = comp.known([o["op"] for o in ops], expected, observed)
                entry = next((k for k in known if k["id"] == kid), None)
                if entry:
                    known_hits.setdefault(kid, entry)
                    continue
                if confirmed < 5:
                    lines, bad = confirm(comp, work, ops, expected)
                    if not bad:
                        # depends on what ran before it in the same process
                        note = "only in sequence"
                    else:
                        note = "reproduced alone"
                    confirmed += 1
                else:
                    note = ""
                violations.append({"property": prop, "component": comp.name,
                                   "confirmation": note,
                                   "history": [o["op"] for o in ops],
                                   "executed": ops[-5:],
                                   "specification_expects": expected,
                                   "implementation_did": observed})
        cov["build_s"] = round(t_build, 1)
    except MachineryError as e:
        print("ERROR: %s" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout %s" % (e,))
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov["components"] = report["components"]
    cov["exhaustive"] = False
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for kid, e in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if rc:
        return rc
    if violations:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s.json" % (prop, tier))
        with open(path, "w") as f:
            json.dump(violations[:50], f, indent=1)
        v = min(violations, key=lambda v: len(v["history"]))
        print("%d histories departed from the specification; shortest:" %
              len(violations))
        print("  history:  " + json.dumps(v["history"])[:1500])
        print("  expected: " + v["specification_expects"][:1500])
        print("  observed: " + json.dumps(v["implementation_did"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK %s: %d model states, %d transitions, %d histories (%d operations)"
          " validated, %.1fs" % (prop, cov["states"], cov["transitions"],
                                 cov["traces_validated_against_impl"],
                                 cov["operations_validated"],
                                 time.time() - t0))
    return 0
