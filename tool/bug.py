#!/usr/bin/env python3
"""Development aid: confirm a planted change and see which checks report it.

    bug.py ID [--nochecks] [--checks C03,C04]
Works in a scratch copy; /repo is not touched.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/bugbox"


def sh(cmd, cwd=None, env=None, quiet=True, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def build(d):
    rc, o = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DENABLE_EXAMPLES=ON && ninja -C _build dbus-asio tests/all dbus-test", d, {"CC": "gcc", "CXX": "g++"})
    if rc:
        print(o[-1500:])
    return rc == 0


def tests(d):
    r = d + "/_build/vp-reports"
    shutil.rmtree(r, ignore_errors=True)
    os.makedirs(r)
    sh("python3 /opt/vp/run_catch.py %s/_build %s; python3 /opt/vp/results.py %s/out.json junit:%s/*.xml lines:%s/lines.txt" % (d, r, r, r, r), d)
    got = json.load(open(r + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return sorted(set(base) - set(got["passed"]))


def fresh():
    if not os.path.exists(S + "/src"):
        os.makedirs(S, exist_ok=True)
    sh("rsync -a --delete --exclude _build /repo/ %s/ || (rm -rf %s/src && cp -a /repo/. %s/)" % (S, S, S))
    sh("git -C %s checkout -- . " % S)


def demo(bid, d):
    t = "/tmp/bugdemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "seeded", bid), t, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        rc, o = sh("bash %s/demo.sh" % t, d, timeout=300)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return rc, o


def main():
    bid = sys.argv[1]
    checks = None
    if "--checks" in sys.argv:
        checks = sys.argv[sys.argv.index("--checks") + 1].split(",")
    b = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(b + "/meta.json"))
    fresh()
    ok = True
    if "--onlychecks" not in sys.argv:
        if not build(S):
            return 1
        rc, o = demo(bid, S)
        print("demo unchanged:", rc, o[-300:] if rc else "")
        ok &= rc == 0
    rc, o = sh("git apply %s/patch.diff" % b, S)
    if rc:
        print("patch does not apply", o)
        return 1
    if "--onlychecks" not in sys.argv:
        if not build(S):
            return 1
        miss = tests(S)
        print("tests failing:", miss)
        ok &= not miss
        rc, o = demo(bid, S)
        print("demo patched:", rc, "|", o[-300:])
        ok &= rc not in (0,)
        print("BUG", bid, "COUNTS" if ok else "DOES NOT COUNT")
    if "--nochecks" not in sys.argv:
        for c in checks or [meta["property"]]:
            rc, o = sh("python3 check.py %s --tier quick" % c, HERE, {"VP_REPO": S}, timeout=1000)
            lines = [x for x in o.splitlines() if x.strip()]
            print(bid, c, "CAUGHT" if rc == 1 else "missed rc=%d" % rc, "|", " || ".join(x[:260] for x in lines[1:3] if rc == 1) if rc == 1 else (lines[0][:200] if rc == 0 else o[-600:]))
    sh("git checkout -- .", S)
    return 0


sys.exit(main())
