#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/bugs*.py, keeping only what is confirmed.

usage: plant.py make [ID...]    apply in a scratch copy, run the tests and the demonstration both ways
       plant.py catch [ID...]   apply each kept bug to /repo, run its property's check, undo
Never used by any registered check.
"""
import importlib.util, time, json, os, shutil, subprocess, sys, tempfile, glob

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = """#!/bin/bash
# Exit 0 when the library in the current directory behaves; nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -r "$work"' EXIT
rustc --edition 2021 --cap-lints allow -C debug-assertions=on -C opt-level=1 --crate-type rlib --crate-name il2_iltags \\
    -o "$work/libil2_iltags.rlib" src/lib.rs || exit 3
rustc --edition 2021 --cap-lints allow -C debug-assertions=on --extern il2_iltags="$work/libil2_iltags.rlib" \\
    -o "$work/demo" "$here/demo.rs" || exit 4
ulimit -v 4000000
timeout 120 "$work/demo"
"""

def bugs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

UNSTABLE = {"io::std_io::tests::test_readreader_read_all"}  # not in /opt/vp/BASELINE.json

def tests_ok(copy):
    r = sh(["cargo", "test", "--lib", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], copy)
    failed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
    if "test result:" not in r.stdout:
        return False, "\n".join(l for l in r.stdout.splitlines() if l.startswith("error"))[:600]
    failed = [f for f in failed if f not in UNSTABLE]
    return not failed, " ".join(failed)[:600]

def make(ids):
    all_ = bugs()
    ids = ids or [i for i in all_ if not os.path.exists(os.path.join(SEEDED, i, "patch.diff"))]
    copy = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    shutil.rmtree(copy)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for i in ids:
            b = all_[i]
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    bad = "edit of %s matches %d times: %r" % (f, n, old[:80])
                    break
                open(p, "w").write(s.replace(old, new))
            d = tempfile.mkdtemp(dir="/tmp")
            if not bad:
                open(d + "/demo.rs", "w").write(b["demo"])
                open(d + "/demo.sh", "w").write(DEMO_SH)
                os.chmod(d + "/demo.sh", 0o755)
                diff = sh(["git", "diff"], copy).stdout
                ok, why = tests_ok(copy)
                if not ok:
                    bad = "tests: " + why
            if not bad:
                r = sh(["bash", d + "/demo.sh"], copy)
                if r.returncode in (0, 2, 3, 4):
                    bad = "demo with patch: rc %d\n%s" % (r.returncode, r.stdout[-1500:])
                else:
                    print("   demo says: " + " | ".join([l for l in r.stdout.splitlines() if "panicked" in l or "left" in l or "right" in l][:3])[:200])
            sh(["git", "checkout", "--", "."], copy)
            if not bad:
                r = sh(["bash", d + "/demo.sh"], copy)
                if r.returncode != 0:
                    bad = "demo without patch: rc %d\n%s" % (r.returncode, r.stdout[-1500:])
            if bad:
                print("REJECT %s: %s" % (i, bad))
            else:
                t = os.path.join(SEEDED, i)
                os.makedirs(t, exist_ok=True)
                open(t + "/patch.diff", "w").write(diff)
                shutil.copy(d + "/demo.rs", t)
                shutil.copy(d + "/demo.sh", t)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(t + "/meta.json", "w"), indent=1)
                print("KEEP   " + i)
            shutil.rmtree(d)
            sys.stdout.flush()
    finally:
        shutil.rmtree(copy)

def catch(ids):
    ids = ids or sorted(os.listdir(SEEDED))
    for i in ids:
        t = os.path.join(SEEDED, i)
        prop = json.load(open(t + "/meta.json"))["property"]
        r = sh(["git", "apply", t + "/patch.diff"], "/repo")
        assert r.returncode == 0, r.stdout
        try:
            r = sh(["./check.sh", prop, os.environ.get("PLANT_TIER", "quick")], "/verif")
        finally:
            sh(["git", "checkout", "--", "."], "/repo")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop + " ")]
        print("%-8s rc=%d %-40s %s" % ("CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, i, prop), time.strftime("%H:%M:%S"))
        for l in r.stdout.splitlines():
            if ": suite " in l:
                print("   " + l[:160])
        if not v:
            print("   " + r.stdout[-400:].replace("\n", "\n   "))
        sys.stdout.flush()

if __name__ == "__main__":
    {"make": make, "catch": catch}[sys.argv[1]](sys.argv[2:])
