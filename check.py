#!/usr/bin/env python3
"""Decide one property of /repo from its source.

    check.py ID          exit 0 held, 1 violated, 2 the analysis is broken

Nothing of the analysed package is imported or executed: its modules are
parsed, and interpreted over abstract values (absint/) from the entry contexts
in drivers/, or walked by the structural rules in rules/.
"""
import ast
import glob
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from absint.harness import Engine, Stop, load, scenarios   # noqa: E402
import rules   # noqa: E402

REPO = os.environ.get("CURVEPY_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
DEADLINE = 780


def properties_of(fn):
    """the property a scenario is named after, and those its text names"""
    ps = [fn.name[:3].upper()]
    doc = ast.get_docstring(fn) or ""
    for w in doc.replace(":", " ").replace(",", " ").split():
        if len(w) == 3 and w[0] == "C" and w[1:].isdigit():
            ps.append(w)
    return ps


def run_one(job):
    program, mod, fn, limit = job
    e = Engine(program)
    t = time.time()
    stop = None
    ends = -1
    try:
        ends = e.run(mod, fn, limit)
    except Stop as x:
        stop = str(x)
    except RecursionError:
        stop = "recursion"
    except Exception as x:
        # the analysis, not the analysed code, failed: nothing is concluded
        stop = "internal: %s: %s" % (type(x).__name__, x)
        if os.environ.get("ABSINT_DEBUG"):
            raise
    rows = [(k[1], v, e.undecided_why.get(k)) for k, v in e.obligations.items()]
    found = []
    for k, r in e.found.items():
        found.append({"scenario": r.scenario, "message": r.msg, "obligation_at": "%s:%d" % (os.path.basename(r.where[0]), r.where[1]),
                      "values": getattr(r, "vals", []), "facts": r.facts, "path": r.path})
    return {"scenario": fn.name, "driver": os.path.basename(mod.path), "ends": ends, "stop": stop, "rows": rows, "found": found,
            "steps": e.steps, "splits": e.n_splits, "loops": e.n_loops, "dropped": e.dropped,
            "functions": sorted({(os.path.relpath(p, REPO), q) for p, q, _ in e.analysed if p.startswith(REPO + "/")}),
            "sites": sorted({(os.path.relpath(p, REPO), l) for p, l in e.sites if p.startswith(REPO + "/")}),
            "wall": time.time() - t}


def _worker(job, conn):
    def body():
        conn.send(run_one(job))
    threading.stack_size(500 * 1024 * 1024)
    sys.setrecursionlimit(60000)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    conn.close()


def run_all(jobs):
    """every entry context in a process of its own, so that no result depends
    on what was analysed before it"""
    ctx = multiprocessing.get_context("fork")
    n = min(int(os.environ.get("ABSINT_JOBS", "8")), len(jobs)) or 1
    res = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))
    end = time.time() + DEADLINE
    while (todo or running) and time.time() < end:
        while todo and len(running) < n:
            i = todo.pop(0)
            mine, theirs = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(jobs[i], theirs), daemon=True)
            p.start()
            theirs.close()
            running[mine] = (i, p)
        for c in multiprocessing.connection.wait(list(running), timeout=1):
            i, p = running.pop(c)
            try:
                res[i] = c.recv()
            except EOFError:
                pass
            c.close()
            p.join()
    for i, p in running.values():
        p.terminate()
    return res


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                out.append(line[7:])
    return out


def main(pid, only=None):
    t0 = time.time()
    drivers = sorted(glob.glob(os.path.join(HERE, "drivers", "*.py")))
    try:
        program, mods = load(REPO, drivers)
    except (SyntaxError, OSError) as e:
        print("analysis broken: %s" % e)
        return 2
    jobs = []
    for m in mods:
        for fn in scenarios(m):
            if pid in properties_of(fn) and (only is None or only in fn.name):
                jobs.append((program, m, fn, 2500000 if TIER == "quick" else 8000000))
    res = run_all(jobs)
    structural = rules.run(pid, program)
    if not jobs and structural is None:
        print("analysis broken: no rule decides %s" % pid)
        return 2

    broken = []
    undecided = []
    findings = []
    ob = done = und = 0
    functions, sites = set(), set()
    for j, r in zip(jobs, res):
        if r is None:
            undecided.append({"scenario": j[2].name, "why": "no result within the time allowed"})
            continue
        functions |= set(map(tuple, r["functions"]))
        sites |= set(map(tuple, r["sites"]))
        if r["stop"]:
            undecided.append({"scenario": r["scenario"], "why": r["stop"]})
        for msg, (ok, un, bad), why in r["rows"]:
            ob += ok + un + bad
            done += ok
            und += un
            if un:
                undecided.append({"scenario": r["scenario"], "obligation": msg, "why": why})
        if not r["stop"] and r["ends"] == 0 and not r["rows"]:
            undecided.append({"scenario": r["scenario"], "why": "no path of the entry context completes"})
        for f in r["found"]:
            if "ImportError" in f["message"] and not f["path"]:
                broken.append(f["message"])
            else:
                f["rule"] = "abstract interpretation of %s" % r["driver"]
                findings.append(f)
    rule_rows = []
    if structural is not None:
        for row in structural["rules"]:
            rule_rows.append({k: v for k, v in row.items() if k != "findings"})
            ob += row["instances"]
            done += row["instances"] - len(row["findings"])
            if row["instances"] < row.get("floor", 0):
                broken.append("rule %s matched %d instances, expected at least %d" % (row["rule"], row["instances"], row["floor"]))
            for f in row["findings"]:
                findings.append({"scenario": row["rule"], "message": f["message"], "obligation_at": f["at"], "values": [], "facts": f.get("facts", []),
                                 "path": f.get("path", []), "rule": row["rule"]})
        functions |= set(map(tuple, structural.get("functions", [])))

    listed = known()
    news = []
    for f in findings:
        key = "property=%s %s: %s" % (pid, f["scenario"], f["message"])
        if key in listed:
            print("KNOWN-FINDING: " + key)
        else:
            news.append(f)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    for f in news[:12]:
        body = ["property %s" % pid, "rule      %s" % f["rule"], "entry     %s" % f["scenario"], "violated  %s" % f["message"], "at        %s" % f["obligation_at"]]
        if f["values"]:
            body += ["found     %s" % f["values"][0], "expected  %s" % (f["values"][1] if len(f["values"]) > 1 else "")]
        body += ["under"] + ["  " + x for x in f["facts"]] + ["path"] + ["  " + x for x in f["path"]]
        body += ["", "decided from the source of %s; rerun: python3 %s %s" % (REPO, os.path.join(HERE, "check.py"), pid)]
        h = hashlib.sha1(("%s %s" % (f["scenario"], f["message"])).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "evidence", "replay", "%s-%s.txt" % (pid, h))
        with open(path, "w", encoding="utf-8") as o:
            o.write("\n".join(body) + "\n")
        print("%s: %s (%s) at %s" % (f["scenario"], f["message"], " vs ".join(v[:160] for v in f["values"]), f["obligation_at"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    samples = []
    for r in res:
        if r is not None and r["rows"]:
            samples.append({"entry": r["scenario"], "obligations": [{"obligation": m, "paths_discharged": c[0]} for m, c, _ in r["rows"][:4]]})
    ev = {
        "property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the package source: %d entry contexts interpreted abstractly (value numbers, nullness and linear facts; "
                           "states split on undecided branches, %d splits), and %d structural rules. An obligation is one assertion on one abstract "
                           "path, or one instance of a rule; it is discharged when the abstract state implies it." % (
                               len(jobs), sum(r["splits"] for r in res if r), len(rule_rows)),
            "entry_contexts": len(jobs),
            "abstract_paths": sum(r["ends"] for r in res if r and r["ends"] > 0),
            "obligations": ob, "discharged": done, "undecided_obligations": und,
            "undecided": undecided[:60],
            "summarised_loops": sum(r["loops"] for r in res if r),
            "paths_set_aside_as_contradictory": sum(r["dropped"] for r in res if r),
            "functions_analysed": len(functions),
            "functions": ["%s %s" % f for f in sorted(functions)],
            "branch_points": len(sites),
            "structural_rules": rule_rows,
            "samples": samples[:6],
        },
        "assumptions": ["numbers behave as reals: rounding is not modelled", "intervalpy, math and bisect behave as their models in absint/models.py say"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(news),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as o:
        json.dump(ev, o, indent=1)
    if news:
        return 1
    if broken:
        for b in broken:
            print("analysis broken: " + b)
        return 2
    if ob and not done:
        print("analysis broken: nothing could be decided")
        return 2
    print("%s held: %d of %d obligations discharged over %d entry contexts and %d rules, %d functions (%.1f s)" % (
        pid, done, ob, len(jobs), len(rule_rows), len(functions), time.time() - t0))
    if undecided:
        print("  undecided: %d (see evidence/%s.json)" % (len(undecided), pid))
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
