#!/usr/bin/env python3
"""Work with planted bugs (development aid, used by no check).

seed.py validate ID...   confirm in a scratch copy that the bug builds, passes the stable
                         tests and is shown by its demo
seed.py try ID...        run the check of its property against a scratch copy with the bug
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", PATH="/usr/local/go/bin:" + os.environ["PATH"])


def sh(cmd, cwd, timeout=1500, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d, d + "/repo"


def validate(i):
    base = os.path.join(VERIF, "seeded", i)
    d, r = copy()
    try:
        rc, out = sh("bash %s/demo.sh" % base, r)
        if rc != 0:
            return "demo fails on the unchanged tree:\n" + out[-1500:]
        rc, out = sh("git apply %s/patch.diff" % base, r)
        if rc != 0:
            return "patch does not apply: " + out
        rc, out = sh("go build ./...", r)
        if rc != 0:
            return "does not build: " + out
        rc, out = sh("bash %s/demo.sh" % base, r)
        if rc == 0:
            return "demo passes with the bug"
        demo = [l for l in out.splitlines() if "demo" in l or "panic" in l or "FAIL" in l][:2]
        rc, out = sh("go test -json -vet=off -count=1 -timeout 10m ./...", r)
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        res = {}
        for l in out.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Test") and e["Action"] in ("pass", "fail", "skip"):
                res[(e["Package"], e["Test"])] = e["Action"]
        failed = ["%s %s" % k for k, v in res.items() if v == "fail" and k[1] != "TestDoTListenerPadding"]
        bad = [f for f in failed if "/".join(f.split()) in stable]
        if bad:
            return "breaks stable tests: " + ", ".join(bad[:6])
        return "ok (%d tests passed) %s" % (sum(1 for v in res.values() if v == "pass"), demo)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(i):
    base = os.path.join(VERIF, "seeded", i)
    prop = json.load(open(base + "/meta.json"))["property"]
    d, r = copy()
    try:
        rc, out = sh("git apply %s/patch.diff" % base, r)
        if rc != 0:
            return "patch does not apply: " + out
        rc, out = sh("python3 %s/tools/check.py %s" % (VERIF, prop), VERIF, env={"VERIF_REPO": r, "VERIF_SEED": "1"})
        lines = [l for l in out.splitlines() if l.strip()]
        return "exit %d\n   " % rc + "\n   ".join(l[:300] for l in lines[-7:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


for i in sys.argv[2:]:
    print("%s: %s" % (i, {"validate": validate, "try": attempt}[sys.argv[1]](i)), flush=True)
