#!/usr/bin/env python3
"""Decide one property of /repo: check.py <property> <quick|thorough>

Builds the harness crate twice from /repo's working tree (once on lifted numbers for symbolic
execution, once natively), explores every harness of the property, replays what the solver found
natively, and writes evidence/<property>.json.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: no answer.
"""
import json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
REPLAY_SECS = 40
REPLAY_MEM = 8 << 30
SYM_MEM = 24 << 30

sys.path.insert(0, HERE)
from registry import PROPERTIES, TARGETS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "SYM_LOG", "SYM_SOLVER", "VM_PANICS"):
        e.pop(k, None)
    return e


def fail(msg):
    print("NO-ANSWER: " + msg)
    sys.exit(2)


def build(target, flavour):
    crate = os.path.join(HERE, "engine", "%s-%s" % (target, flavour))
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "%s-%s" % (target, flavour))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=crate, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        tail = "\n".join(l for l in r.stdout.splitlines() if "warning" not in l)[-6000:]
        print(tail)
        fail("the %s build of harness crate %s does not compile" % (flavour, target))
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "%s-%s" % (target, flavour))


def limit_sym():
    resource.setrlimit(resource.RLIMIT_AS, (SYM_MEM, SYM_MEM))


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (REPLAY_MEM, REPLAY_MEM))


def native(exe, harness, lines, secs, e):
    """outcome of the harness on each input line: text, or HANG / DEAD for the first that never answers"""
    out = []
    while len(out) < len(lines):
        todo = lines[len(out):]
        p = subprocess.Popen([exe, harness], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, preexec_fn=limit, env=e)
        try:
            got, _ = p.communicate("\n".join(todo) + "\n", timeout=secs)
            how = "DEAD|exit %s" % p.returncode
        except subprocess.TimeoutExpired as t:
            p.kill()
            got, _ = p.communicate()
            how = "HANG|no answer within %d s" % secs
        got = got.splitlines()[:len(todo)]
        out += got
        if len(got) < len(todo):
            out.append(how)
    return out


def native_all(exe, harness, lines, secs, e, workers=8):
    """native(), spread over several processes"""
    parts = [lines[i::workers] for i in range(workers)]
    with ThreadPoolExecutor(workers) as pool:
        got = list(pool.map(lambda part: native(exe, harness, part, secs, e), parts))
    return [got[i % workers][i // workers] for i in range(len(lines))]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = PROPERTIES[pid]
    target = prop["target"]
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == pid and k["status"] == "known":
                    known.append(k)
    sym, real = build(target, "sym"), build(target, "real")
    built = time.time() - t0
    e = env()
    e["VM_THOROUGH"] = "1" if tier == "thorough" else "0"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(BUILD, "out-" + pid)
    os.makedirs(tmp, exist_ok=True)
    # whatever the code under test writes stays in here
    scratch = os.path.join(tmp, "scratch")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    e["TMPDIR"] = scratch
    os.chdir(scratch)

    tot = {k: 0 for k in ("paths", "ok", "infeasible", "no_model", "decisions", "checks", "queries", "sat",
                          "unsat", "unknown", "solver_errors")}
    solver_s = 0.0
    reports, samples, violations, seen_known, trouble = [], [], [], [], []
    validated = 0
    reached = {}
    todo = [(name, thorough_s if tier == "thorough" else quick_s, 0) for name, quick_s, thorough_s in prop["harnesses"]]
    while todo:
        name, secs, assignments = todo.pop(0)
        out = os.path.join(tmp, "%s%s.json" % (name, "-chars" if assignments else ""))
        if os.path.exists(out):
            os.unlink(out)
        try:
            r = subprocess.run([sym, name, "--budget", str(secs), "--threads", "8", "--out", out,
                                "--chars", str(assignments), *([] if known or tier == "thorough" else ["--fails", "24"])], env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 150, preexec_fn=limit_sym)
            died = "" if os.path.exists(out) else "exit %d: %s" % (r.returncode, r.stderr[-300:])
        except subprocess.TimeoutExpired:
            died = "it does not stop after its budget of %d s" % secs
        if died:
            trouble.append("harness %s: the exploration ended without a report (%s)" % (name, died))
            continue
        d = json.load(open(out))
        # symbolic characters and digits are no ordinary ones to the standard library's own text functions: where
        # the code under test uses those, the run proves nothing, and the one with plain inputs decides
        apart = []
        if d["characters"] and not assignments:
            most, work = (256, 400000) if tier == "thorough" else (48, 30000)
            todo.insert(0, (name, secs, max(1, min(most, work // max(d["paths"], 1)))))
        for k in tot:
            tot[k] += d[k]
        solver_s += d["solver_s"]
        if d["solver_errors"]:
            trouble.append("harness %s: the solver reported %d errors" % (name, d["solver_errors"]))
        # the paths that passed, against the native build
        traces = d["traces"]
        agree = 0
        res = native_all(real, name, [t["inputs"] for t in traces], 120, e)
        for i, (t, got) in enumerate(zip(traces, res)):
            if got == "OK|" + t["obs"]:
                agree += 1
            elif got.startswith("FAIL|"):
                before = [u["inputs"] for u in traces[i % 8:i:8]]
                d["findings"].append({"kind": "fail", "label": got[5:], "inputs": t["inputs"], "after": before})
            elif got.startswith("HANG") or got.startswith("DEAD"):
                trouble.append("harness %s: native replay of %s: %s" % (name, t["inputs"], got))
            else:
                (apart if d["characters"] and not assignments else trouble).append("harness %s: model and code differ on %s: model OK|%s, code %s"
                               % (name, t["inputs"], t["obs"][:300], got[:300]))
        validated += agree
        # the paths that failed
        confirmed, unresolved = [], dict(d["undecided"])
        slow = 0
        for f in d["findings"]:
            if f["kind"] in ("fuel", "hang"):
                # a budget of the model ran out: a violation only if the code itself does not come back
                slow += 1
                if slow > 3:
                    continue
            got = native(real, name, [f["inputs"]], REPLAY_SECS, e)[0]
            if not got.startswith(("FAIL|", "HANG|", "DEAD|")) and not confirmed and f.get("after"):
                # it may take what the calls before it have left behind
                history = native(real, name, f["after"] + [f["inputs"]], REPLAY_SECS, e)
                at = next((i for i, g in enumerate(history) if g.startswith("FAIL|")), None)
                if at is not None:
                    got = history[at] + " [in one process after %d other inputs]" % at
                    f["inputs"] = (f["after"] + [f["inputs"]])[at]
                    f["history"] = f["after"][:at]
            if got.startswith("FAIL|") or got.startswith("HANG|") or got.startswith("DEAD|"):
                what = got[5:] if got.startswith("FAIL|") else "the call never returns (%s)" % got[5:]
                confirmed.append((f["inputs"], what, f.get("history", [])))
            elif f["kind"] in ("fuel", "hang"):
                k = "model budget: " + f["label"]
                unresolved[k] = unresolved.get(k, 0) + 1
            else:
                (apart if d["characters"] and not assignments else trouble).append("harness %s: the counterexample %s (%s) does not reproduce: %s"
                               % (name, f["inputs"], f["label"], got[:300]))
        for inputs, what, history in confirmed:
            hit = next((k for k in known if k["harness"] == name and re.fullmatch(k["inputs"], inputs)
                        and k["label"] == re.sub(r" at /\S+", "", what)), None)
            if hit:
                if hit not in seen_known:
                    seen_known.append(hit)
            else:
                violations.append({"harness": name, "inputs": inputs, "what": what, "history": history})
        # vacuity: what the run with symbolic characters has reached, the one with plain ones need not reach again
        lacking = [l for l in d["missing"] if l not in reached.get(name, [])]
        reached.setdefault(name, []).extend(l for l in d["labels"] if l not in d["missing"])
        if lacking and not confirmed and not apart and d["complete"] and not unresolved:
            trouble.append("harness %s: no path reaches %s" % (name, ", ".join(lacking)))
        for t in traces[:3]:
            samples.append({"harness": name, "inputs": t["inputs"], "observed": t["obs"][:200]})
        reports.append({
            "harness": name, "bound": d["bound"] + (", characters from %d fixed assignments" % assignments if assignments else ""), "explored_completely": d["complete"] and not unresolved and not d["no_model"] and not apart,
            "paths": d["paths"], "passed": d["ok"], "left_out_by_bound": d["cuts"], "undecided": unresolved, "labels_not_reached": lacking,
            "paths_without_model": d["no_model"], "queries": d["queries"], "unknown": d["unknown"],
            "replayed_natively": agree, "model_and_code_differ": apart[:5], "wall_s": round(d["wall_s"], 2)})
        if violations and tier == "quick":
            break  # one counterexample that the code itself confirms settles the question
        for t in apart[:2]:
            print("NOTE: " + t[:400])
        if not d["complete"] or unresolved:
            print("INCOMPLETE harness=%s complete=%s undecided=%s" % (name, d["complete"], json.dumps(unresolved)[:300]))

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"], "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "states: symbolic paths explored, each standing for every input that takes it; "
                           "transitions: branch decisions the solver took part in or forked on",
            "functions_encoded": prop["functions"], "assertions_checked": tot["checks"],
            "paths_passed": tot["ok"], "paths_infeasible": tot["infeasible"],
            "solver_queries": {k: tot[k] for k in ("queries", "sat", "unsat", "unknown", "solver_errors")},
            "solver_s": round(solver_s, 2), "build_s": round(built, 1), "harnesses": reports,
            "known_findings": [k["id"] for k in seen_known],
            "troubles": trouble,
        },
        "assumptions": TARGETS[target]["assumptions"] + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)

    os.chdir(HERE)
    shutil.rmtree(scratch, ignore_errors=True)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for t in trouble[:20]:
        print("TROUBLE: " + t[:700])
    if violations:
        rep = os.path.join(BUILD, "replay-%s.txt" % pid)
        with open(rep, "w") as f:
            for v in violations:
                f.write("%s\t%s\t%s\n" % (v["harness"], v["inputs"], v["what"]))
                f.write("# printf '%%s\\n' %s | %s %s\n" % (" ".join("'%s'" % i for i in v["history"] + [v["inputs"]]), real, v["harness"]))
        for v in violations[:5]:
            print("  %s: %s  [%s]" % (v["harness"], v["what"], v["inputs"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    if trouble:
        fail("%d problems, see above" % len(trouble))
    print("OK property=%s tier=%s paths=%d queries=%d replayed=%d wall=%.1fs"
          % (pid, tier, tot["paths"], tot["queries"], validated, time.time() - t0))


main()
