"""Maintenance tool for planted bugs (no check uses it).
seed.py new <id> <property> <file> : reads JSON {"edits":[[file,old,new],...],"needs":..,"what":..,"demo":"c++ source"} from a file and creates /verif/seeded/<id>
seed.py verify <id>                : patch applies, builds, keeps the stable tests passing, demo passes without and fails with it
seed.py check <id> [PROP]          : runs the quick check of its property against it (applied in /repo, undone afterwards)"""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C /repo checkout -- .")


def new(sid, prop, f):
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(V, sid)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for file, old, new in ns["edits"]:
            p = os.path.join(R, file)
            s = open(p).read()
            assert s.count(old) >= 1, "not found: " + old
            assert s.count(old) == 1, "ambiguous (%d): %s" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        clean()
    for x in ns.get("extra", []):      # stand-in headers the demonstration needs beside it
        shutil.copytree(os.path.join(os.path.dirname(V), "harness", x), os.path.join(d, x), dirs_exist_ok=True)
    open(d + "/demo.cpp", "w").write(ns["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nset -u\nD=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\n'
                                    'g++ -std=c++14 %s -w -I"$PWD/src" -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" || exit 2\ntimeout 120 "$T/demo"\n' % ns.get("flags", "-O1"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["what"]}, open(d + "/meta.json", "w"), indent=1)
    return verify(sid)


def verify(sid):
    d = os.path.join(V, sid)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    a = sh("bash %s/demo.sh" % d, cwd=R)
    if a.returncode != 0:
        print(sid, "FAIL: demo on clean tree:", a.returncode, a.stdout[-800:])
        return False
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(sid, "FAIL: does not apply", r.stdout)
            return False
        b = sh("bash /opt/vp/build.sh")
        if b.returncode:
            print(sid, "FAIL: build", b.stdout[-1500:])
            return False
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        out = json.load(open("/tmp/seed-out.json"))
        miss = sorted(base - set(out["passed"]))
        if miss:
            print(sid, "FAIL: tests", miss)
            return False
        c = sh("bash %s/demo.sh" % d, cwd=R)
        if c.returncode == 0:
            print(sid, "FAIL: demo passes with the patch", c.stdout[-500:])
            return False
        print(sid, "ok: demo exit", c.returncode, c.stdout.strip()[-200:])
        return True
    finally:
        clean()
        sh("bash /opt/vp/build.sh")


def check(sid, prop=None):
    d = os.path.join(V, sid)
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    try:
        sh("git -C /repo apply %s/patch.diff" % d)
        r = sh("python3 /verif/tools/check.py %s quick" % prop, cwd="/verif", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if "violation:" in l]
        print(sid, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED", (v[0][:160] if v else r.stdout[-300:]))
    finally:
        clean()


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "new":
        sys.exit(0 if new(a[2], a[3], a[4]) else 1)
    elif a[1] == "verify":
        for s in a[2:] or sorted(os.listdir(V)):
            verify(s)
    else:
        if len(a) > 3:
            check(a[2], a[3])
        else:
            for s in ([a[2]] if len(a) > 2 else sorted(os.listdir(V))):
                check(s)
