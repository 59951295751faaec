#!/usr/bin/env python3
"""Make / confirm / run planted bugs (seeded/<id>/).

  seed.py make DEFS.py [ID...]   create seeded/<id> from a definitions file
  seed.py run [ID...] [--tier T] [--check C,..]   apply each patch, build, tests, demo, check; undo

Works on /repo itself (applies and always undoes the change); not used by any check.
"""
import json, os, subprocess, sys, tempfile, shutil, time, runpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEED = os.path.join(VERIF, "seeded")
HEAD = """#!/bin/bash
# run with cwd = the repository, after the build; exit 0: behaves, 1: broken
G=$PWD/_build/src/gendlopen
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
fail() { echo "BROKEN: $*"; exit 1; }
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def revert():
    sh(["git", "-C", REPO, "checkout", "-q", "--", "."])


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-2000:]


def tests():
    f = tempfile.mktemp(suffix=".json")
    sh(["bash", "/opt/vp/test.sh", f])
    try:
        d = json.load(open(f))
    finally:
        if os.path.exists(f):
            os.unlink(f)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = d.get("passed", d)
    if isinstance(passed, dict):
        passed = [k for k, v in passed.items() if v in (True, "pass", "passed", "PASS")]
    return [t for t in stable if t not in passed]


def demo(sid):
    d = tempfile.mkdtemp()
    try:
        for n in os.listdir(f"{SEED}/{sid}"):
            if not n.endswith((".diff", ".patch")) and n != "meta.json":
                shutil.copy(f"{SEED}/{sid}/{n}", d)
        r = sh(["bash", d + "/demo.sh"], cwd=REPO, timeout=300)
        return r.returncode, r.stdout[-600:]
    finally:
        shutil.rmtree(d)


def make(defs, ids):
    for b in runpy.run_path(defs)["BUGS"]:
        sid = b["id"]
        if ids and sid not in ids:
            continue
        revert()
        ok = True
        for f, old, new in b["edits"]:
            p = f"{REPO}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, "EDIT: text occurs", s.count(old), "times in", f, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            revert()
            continue
        d = f"{SEED}/{sid}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        revert()
        open(d + "/demo.sh", "w").write(HEAD + b["demo"].lstrip("\n"))
        os.chmod(d + "/demo.sh", 0o755)
        for n, t in b.get("files", {}).items():
            open(f"{d}/{n}", "w").write(t)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", sid)


def run(ids, tier, checks):
    res = {}
    for sid in ids or sorted(os.listdir(SEED)):
        prop = json.load(open(f"{SEED}/{sid}/meta.json"))["property"]
        out = []
        try:
            r = sh(["git", "-C", REPO, "apply", f"{SEED}/{sid}/patch.diff"])
            if r.returncode:
                print(sid, "DOES NOT APPLY", r.stdout)
                continue
            ok, log = build()
            if not ok:
                print(sid, "BUILD FAILS", log)
                continue
            failed = tests()
            out.append("tests ok" if not failed else f"TESTS FAIL {failed}")
            rc, dtext = demo(sid)
            out.append(f"demo rc={rc}" + (" (NOT BROKEN)" if rc == 0 else ""))
            for c in checks or [prop]:
                if not os.path.exists(f"{VERIF}/checks/{c}.py"):
                    out.append(c + ": no check")
                    continue
                t = time.time()
                r = sh(["python3", f"{VERIF}/run_check.py", c], cwd=VERIF,
                       env=dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier or "quick"))
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
                out.append(f"{c}: rc={r.returncode} viol={len(hit)} {time.time()-t:.0f}s"
                           + ("" if r.returncode == 1 and hit else "  *** MISSED ***"))
        finally:
            revert()
        res[sid] = out
        print(sid, prop, "|", " | ".join(out), flush=True)
        if "NOT BROKEN" in out[1]:
            print(dtext)
    ok, log = build()
    for sid in res:
        rc, text = demo(sid)
        if rc:
            print(sid, "DEMO FAILS ON CLEAN TREE", rc, text)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1], a[2:])
    else:
        tier, checks, ids = None, None, []
        i = 1
        while i < len(a):
            if a[i] == "--tier":
                tier = a[i + 1]; i += 1
            elif a[i] == "--check":
                checks = a[i + 1].split(","); i += 1
            else:
                ids.append(a[i])
            i += 1
        run(ids, tier, checks)
