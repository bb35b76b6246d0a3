#!/usr/bin/env python3
"""Decide one property: prove its obligations on /repo's current source, then run the
bounded check of what the proof leaves outside, and report.

usage: check.py PROPERTY        (VERIF_TIER=quick|thorough, VERIF_SEED=n)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOENV = {
    "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "GOSUMDB": "off",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
}


def env():
    e = dict(os.environ)
    e.update(GOENV)
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, timeout, cwd, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -1, out, True


def build_govc():
    exe = os.path.join(VERIF, "bin", "govc")
    if not os.path.exists(exe):
        rc, out, _ = run(["go", "build", "-o", exe, "."], 600, os.path.join(VERIF, "govc"))
        if rc != 0:
            sys.stderr.write(out)
            sys.exit(3)
    return exe


def prove(prop, tier, tmp):
    exe = build_govc()
    rep = os.path.join(tmp, "govc.json")
    cmd = [exe, "-prop", prop, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-out", rep]
    if tier == "thorough":
        cmd += ["-quick", "6000", "-hard", "40000", "-recheck"]
    rc, out, late = run(cmd, 560 if tier == "quick" else 6000, VERIF)
    if late or not os.path.exists(rep):
        return None, out, " ".join(cmd)
    return json.load(open(rep)), out, " ".join(cmd)


def bounded(prop, spec, tier, seed, tmp, hints):
    """Run the in-package harness of this property on the real code."""
    pkg = spec.get("pkg", ".")
    out = os.path.join(tmp, "harness.json")
    ov = {}
    for f in spec["files"]:
        base = os.path.basename(f)
        ov[os.path.normpath(os.path.join(REPO, pkg, "zz_verif_" + base))] = os.path.join(VERIF, "harness", f)
    ovf = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    limit = spec.get("timeout", 240 if tier == "quick" else 1800)
    cmd = ["go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "%ds" % limit, "-run", "^" + spec["run"] + "$"]
    if spec.get("race"):
        cmd.append("-race")
    cmd.append("./" + pkg if not pkg.startswith(".") else pkg)
    scratch = os.path.join(tmp, "scratch")
    os.mkdir(scratch)
    rc, text, late = run(cmd, limit + 200, REPO, {
        "VERIF_OUT": out, "VERIF_TIER": tier, "VERIF_SEED": str(seed), "VERIF_SCRATCH": scratch,
        "TMPDIR": scratch, "VERIF_HINTS": json.dumps(hints), "GOFLAGS": "-mod=readonly",
    })
    res = {"rc": rc, "timeout": late, "log": text[-6000:], "cmd": " ".join(cmd), "evaluations": 0, "distinct": 0, "samples": [], "failures": []}
    if os.path.exists(out):
        res.update({k: v for k, v in json.load(open(out)).items() if v is not None})
    if rc == 0:
        res["status"] = "ok"
    elif re.search(r"\[build failed\]|\[setup failed\]|build constraints exclude|no required module", text) or ("FAIL" in text and "[build" in text):
        res["status"] = "not built"
    elif res["failures"]:
        res["status"] = "failed"
    elif "panic:" in text or "fatal error:" in text or "DATA RACE" in text:
        cur = os.path.join(scratch, "current-case")
        case = open(cur).read() if os.path.exists(cur) else ""
        first = re.search(r"(panic:|fatal error:|WARNING: DATA RACE).*", text)
        if "test timed out" in text:
            res["status"] = "timeout"
        else:
            res["status"] = "failed"
            res["failures"] = [{"what": "the process crashed: " + (first.group(0) if first else ""), "input": case, "class": "crash"}]
    else:
        res["status"] = "timeout" if late else "error"
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    spec = json.load(open(os.path.join(VERIF, "harness", "harness.json"))).get(prop)
    known = json.load(open(os.path.join(VERIF, "known-findings.json")))
    known = [k for k in known if k["property"] == prop and k["status"] == "known"]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, t0, evdir, spec, known, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, t0, evdir, spec, known, tmp):
    rep, log, cmd = prove(prop, tier, tmp)
    obl, done, failed, undecided, deps = 0, 0, [], [], []
    backs, solver_ms, trusted, notes, assumed, inlined, invs, queries = {}, 0, set(), set(), set(), set(), 0, 0
    fns, skipped = [], 0
    if rep is None:
        undecided.append("the verifier gave no report: " + log[-500:])
        rep = {"functions": []}
    for f in rep["functions"] or []:
        if f["status"] == "missing":
            undecided.append("no function " + f["key"] + " in the source")
            continue
        if f["status"] != "ok":
            undecided.append("outside the verifier's reach: %s: %s" % (f["key"], f.get("error", "")[:600]))
            continue
        fns.append(f["key"])
        for b, n in f["by_backend"].items():
            backs[b] = backs.get(b, 0) + n
        solver_ms += f["solver_ms"]
        queries += f["queries"]
        invs += f["loop_invariants"]
        skipped += f.get("other_properties_obligations", 0)
        trusted.update(f.get("trusted") or [])
        inlined.update(f.get("inlined") or [])
        notes.update("%s: %s" % (f["key"], n) for n in f.get("notes") or [])
        if not f.get("modular"):
            assumed.update("precondition of entry point %s, assumed of its callers: %s" % (f["key"], r) for r in f.get("requires") or [])
        for v in f.get("vacuous") or []:
            undecided.append("proved of no execution: %s: %s" % (f["key"], v))
        for o in f["obligations"] or []:
            obl += 1
            if o["status"] == "proved":
                done += 1
                continue
            if prop in (o.get("props") or []):
                failed.append(o)
            else:
                deps.append(o)
    for d in deps:
        undecided.append("rests on an obligation of %s that is not discharged: %s: %s at %s" % (",".join(d.get("props") or []), d["function"], d["name"], d.get("pos", "")))

    res = None
    if spec:
        hints = [{"function": f["function"], "obligation": f["name"], "model": f.get("model", "")} for f in failed]
        res = bounded(prop, spec, tier, seed, tmp, hints)

    # known findings
    new, shown = [], []
    for f in failed:
        k = next((k for k in known if k.get("obligation") == f["function"] + ": " + f["name"]), None)
        (shown if k else new).append(k or f)
    hnew = []
    for h in (res or {}).get("failures", []):
        k = next((k for k in known if k.get("class") and k["class"] == h.get("class")), None)
        (shown if k else hnew).append(k or h)
    for what in sorted(set(k["what"] for k in shown)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    viol = 0
    line = None
    if hnew or new:
        viol = len(hnew) + len(new)
        path = os.path.join(evdir, prop + ".replay.json")
        json.dump({
            "property": prop,
            "failing_inputs": hnew,
            "replay_cmd": (res or {}).get("cmd"),
            "failed_obligations": [{k: f.get(k) for k in ("function", "name", "kind", "in", "pos", "status", "solver", "imprecise", "model")} for f in new],
            "verifier_cmd": cmd,
            "verifier_output": log[-8000:],
            "harness_output": (res or {}).get("log"),
        }, open(path, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        if not hnew:
            line += " no-failing-input-found"
    for u in undecided:
        print("UNDECIDED: property=%s %s" % (prop, u.split("\n")[0]))
    if res and res["status"] not in ("ok", "failed"):
        print("UNDECIDED: property=%s bounded check gave no answer (%s)" % (prop, res["status"]))
        tail = [l for l in res["log"].splitlines() if l.strip()][-6:]
        print("  " + "\n  ".join(tail))

    cov = {
        "obligations": obl, "discharged": done,
        "checker_cmd": cmd.replace(tmp, "$TMP"),
        "trusted_base": sorted(trusted) + ["govc (VC generator over go/ssa, /verif/govc)", "golang.org/x/tools/go/ssa", "z3, cvc5"],
        "functions_under_contract": fns, "functions_inlined_into_them": sorted(inlined),
        "loop_invariants_proved": invs, "solver_queries": queries, "solver_seconds": round(solver_ms / 1000.0, 3),
        "discharged_by": backs, "obligations_left_to_other_checks": skipped,
        "undischarged": ["%s: %s at %s (%s)" % (f["function"], f["name"], f.get("pos", ""), f["status"]) for f in failed],
        "undecided": undecided,
    }
    if res:
        cov["bounded"] = {
            "label": "bounded, not counted as proved", "scope": spec["scope"], "bound": spec["bound"],
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "samples": res["samples"][:5],
            "status": res["status"], "cmd": res["cmd"].replace(tmp, "$TMP"),
        }
    level = (spec or {}).get("level", "proof")
    if level == "exploration" and res:
        cov.update({"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "samples": res["samples"][:5],
                    "rule": spec["bound"] + "; cases are counted as distinct by their full description"})
        for k in ("evaluations", "distinct_nontrivial", "samples"):
            cov["bounded"].pop(k)
    json.dump({
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": sorted(assumed) + [
            "int and int64 arithmetic in the bodies is treated as mathematical except where a width is narrower than 64 bits (those wrap)",
            "sequentially consistent memory; fields guarded by a declared lock are havocked at each acquisition",
            "strings are opaque values; functions of the standard library named in the contract files are uninterpreted pure functions",
        ] + sorted(notes),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d functions%s, %.1f s" % (
        prop, done, obl, len(fns), "" if not res else "; bounded check %s, %d cases" % (res["status"], res["evaluations"]), time.time() - t0))
    for f in new[:20]:
        print("  not discharged: %s: %s at %s (%s)" % (f["function"], f["name"], f.get("pos", ""), f["status"]))
    for h in hnew[:5]:
        print("  failing input: %s: %s" % (h.get("what"), str(h.get("input"))[:600]))
    if line:
        print(line)
        return 1
    return 0


main()
