#!/usr/bin/env python3
"""Plants bugs described in a file of bug dicts, confirms them in private copies of /repo
and writes seeded/<id>/.   usage: plant.py FILE [id...]
FILE is python: BUGS = [dict(id, prop, edits=[(file, old, new)], demo=C text or demo_sh, incs=[dirs],
srcs=[repo files], needs, breaks, flags="", ldflags="", checks=[ids])]
PLANT_J: how many at a time.  PLANT_RECHECK: only apply the kept patch and run the checks."""
import sys, os, subprocess, json, shutil, runpy, re, glob
from concurrent.futures import ThreadPoolExecutor
R = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
T = "/tmp/plant.%d" % os.getpid()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def demo(d, r):
    try:
        return sh("unshare -n sh -c 'ip link set lo up; exec bash %s/demo.sh'" % d, cwd=r, timeout=300)
    except subprocess.TimeoutExpired:
        class X: returncode, stdout = 124, b"timeout"
        return X


def copy(name):
    t = os.path.join(T, name)
    r = t + "/repo"
    os.makedirs(t)
    sh("cp -a %s %s; rm -rf %s/_build" % (R, r, r))
    os.makedirs(t + "/vp")
    for f in glob.glob("/opt/vp/*"):
        s = open(f, errors="replace").read() if os.path.isfile(f) else None
        if s is not None:
            open(t + "/vp/" + os.path.basename(f), "w").write(s.replace("/opt/vp", t + "/vp").replace("/repo", r))
    return t, r


def plant(b):
    msg, checks = "", ""
    t, r = copy(b["id"])
    d = t + "/seed"
    os.makedirs(d)
    try:
        if b.get("demo_sh"):
            open(d + "/demo.sh", "w").write(b["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as documented, otherwise not
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
gcc -w -g -D_GNU_SOURCE %s %s "$here/demo.c" %s -o "$tmp/demo" -lpthread -lm %s || exit 3
cd "$tmp" && timeout 120 ./demo
''' % (b.get("flags", ""), " ".join('-I"$PWD/%s"' % i for i in b["incs"]), " ".join('"$PWD/%s"' % s for s in b.get("srcs", [])), b.get("ldflags", "")))
        if b.get("demo"):
            open(d + "/demo.c", "w").write(b["demo"])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = demo(d, r)
        if r0.returncode:
            msg += " demo fails on clean: %d %s" % (r0.returncode, r0.stdout.decode(errors="replace")[-600:])
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "REJECTED no unique match (%d) in %s: %r" % (s.count(old), f, old), ""
            a = s[:s.index(old)].count("\n") + 1
            n = old.rstrip("\n").count("\n")
            bl = sh("git -C %s blame -s -L %d,%d HEAD -- %s" % (R, a, a + n, f)).stdout.decode().splitlines()
            if all(not x.startswith("^") for x in bl):
                msg += " only touches lines of later commits"
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C %s diff" % r).stdout)
        for _ in range(3):
            rt = sh("unshare -n sh -c 'ip link set lo up; exec bash %s/vp/test.sh %s/out.json'" % (t, t))
            if b"Text file busy" not in rt.stdout:
                break
        o = json.load(open(t + "/out.json"))
        miss = BASE - set(o["passed"])
        if miss:
            msg += " build or tests fail: %s %s" % (sorted(miss)[:4], rt.stdout.decode(errors="replace")[-300:] if len(miss) > 100 else "")
        r1 = demo(d, r)
        if r1.returncode == 0:
            msg += " demo passes with the bug"
        if not msg:
            shutil.rmtree(os.path.join(V, "seeded", b["id"]), ignore_errors=True)
            shutil.copytree(d, os.path.join(V, "seeded", b["id"]))
        checks = run_checks(r, b.get("checks", [b["prop"]])) if not msg or os.environ.get("PLANT_V") else ""
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return b["id"], "CONFIRMED" if not msg else "REJECTED " + msg, checks


def run_checks(r, cs):
    out = ""
    for c in cs:
        rc = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick %s/bin/check %s" % (r, V, c))
        out += " %s=%d" % (c, rc.returncode)
        if os.environ.get("PLANT_V") or rc.returncode not in (0, 1):
            out += rc.stdout.decode(errors="replace")[-1500:]
    return out


def recheck(i):
    t, r = copy(i)
    try:
        a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (r, V, i))
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        return i, "applies" if a.returncode == 0 else "DOES NOT APPLY", run_checks(r, [p])
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    if os.environ.get("PLANT_RECHECK"):
        ids, f = sys.argv[1:] or sorted(os.listdir(V + "/seeded")), recheck
    else:
        ids, f = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if len(sys.argv) <= 2 or b["id"] in sys.argv[2:]], plant
    with ThreadPoolExecutor(int(os.environ.get("PLANT_J", "3"))) as ex:
        for x in ex.map(f, ids):
            print(*x, flush=True)
    shutil.rmtree(T, ignore_errors=True)


main()
