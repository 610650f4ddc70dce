"""Makes and verifies planted bugs (never used by the checks).

seed(id, prop, [(file, old, new)...], needs, breaks, demo=<C++ text> | sh=<shell text>, extra={name: text})
verifies in a scratch copy that the patch builds, keeps the tests passing, and
that the demonstration passes on the clean tree and fails on the patched one,
then runs the property's check against the patched copy."""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLEAN, SW = "/tmp/seed_clean", "/tmp/seed_patched"
MK = "make -f Makefile -f /opt/vp/compat.mk CXX=/usr/bin/clang++ CC=/usr/bin/clang"
SKIP = "--exclude=.git --exclude=_build"

DEMO_SH = """#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
clang++ -std=c++0x -O1 -w -DSEARCH_MC_CLOSEDSZ=1024 -include cstdint -include algorithm -I "$PWD" -I "$here" -o "$out/demo" "$here/demo.cc" \\
	%s -lrt -lpthread || exit 2
cd "$out" && exec timeout 120 ./demo
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def tests(tree):
    """The names of the tests that pass, as /opt/vp/runtests.py runs them."""
    rc, suites = sh(MK + " -s suites", tree)
    res = set()
    for s in suites.split():
        rc, out = sh("timeout 60 ./%s/test '.*test'" % s, tree, 100)
        res |= {s + "::" + n for n in re.findall(r"^Running (.*?)\s*\tok$", out, re.M)}
    return res


def prepare():
    """Fresh scratch copies of /repo, built."""
    for t in (CLEAN, SW):
        subprocess.run(["rsync", "-a", "--delete", "/repo/", t + "/"], check=True) if shutil.which("rsync") else \
            (shutil.rmtree(t, ignore_errors=True), subprocess.run(["cp", "-a", "/repo", t], check=True))
        rc, out = sh(MK + " -j8 everything testbins", t)
        assert rc == 0, out[-3000:]


def seed(sid, prop, edits, needs, breaks, demo=None, script=None, extra=None, libs="search/search.a rdb/rdb.a utils/utils.a",
         check=True, tier="quick"):
    sdir = os.path.join(VERIF, "seeded", sid)
    if not os.path.isdir(SW) or not os.path.isdir(CLEAN):
        prepare()
    sh("git checkout -q -- . && git clean -fdqx -e '*.a' -e '*.o' -e '*.d' . ", SW) if False else sh("git checkout -q -- .", SW)
    head = sh("git -C /repo rev-parse HEAD")[1]
    if sh("git rev-parse HEAD", SW)[1] != head:
        prepare()
    for f, old, new in edits:
        p = os.path.join(SW, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("SEED %s: text occurs %d times in %s" % (sid, s.count(old), f))
            return False
        open(p, "w").write(s.replace(old, new))
    os.makedirs(sdir, exist_ok=True)
    rc, diff = sh("git diff", SW)
    open(sdir + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(sdir + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(sdir + "/demo.cc", "w").write(demo)
        open(sdir + "/demo.sh", "w").write(DEMO_SH % " ".join('"$PWD/%s"' % l for l in libs.split()))
        if '"gdom.hpp"' in demo:
            shutil.copy(VERIF + "/tools/gdom.hpp", sdir)
    else:
        open(sdir + "/demo.sh", "w").write(script)
    for n, t in (extra or {}).items():
        open(os.path.join(sdir, n), "w").write(t)
    os.chmod(sdir + "/demo.sh", 0o755)
    base = sh("git rev-list --max-parents=0 HEAD", SW)[1].strip()
    mine = 0
    for f in {e[0] for e in edits}:
        for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + f, SW)[1], re.M):
            n = int(h[1] or 1)
            if n:
                b = sh("git blame -s -l HEAD -L %s,+%d -- %s" % (h[0], n, f), SW)[1]
                mine += sum(1 for l in b.splitlines() if base[:38] not in l)
    if mine:
        print("SEED %s: %d of the changed lines are not the original's" % (sid, mine))
    # rebuild everything that may depend on the edited files
    sh("find . -name '*.o' -newer Makefile -delete -o -name '*.a' -delete", SW)
    sh("for f in $(find . -type f -perm -u+x -not -path './.git/*'); do head -c4 $f | grep -q ELF && rm -f $f; done", SW)
    rc, out = sh(MK + " -j8 everything testbins", SW)
    if rc != 0:
        print("SEED %s: does not build\n%s" % (sid, out[-2500:]))
        return False
    ok = True
    bt = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    at = tests(SW)
    if not bt <= at:
        print("SEED %s: tests fail: %s" % (sid, sorted(bt - at)))
        ok = False
    rc0, out0 = sh(sdir + "/demo.sh", CLEAN)
    rc1, out1 = sh(sdir + "/demo.sh", SW)
    if rc0 != 0 or rc1 == 0:
        print("SEED %s: demo clean %d patched %d\n%s\n--\n%s" % (sid, rc0, rc1, out0[-1500:], out1[-1500:]))
        ok = False
    caught = None
    if check:
        p = subprocess.run([sys.executable, VERIF + "/check.py", prop, tier], env=dict(os.environ, MC_REPO=SW, MC_NOEVIDENCE="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode(errors="replace")
        caught = p.returncode == 1 and "VIOLATION property=" + prop in o
        print("SEED %s: %s demo(%d,%d: %s) check rc=%d %s" % (sid, "ok" if ok else "BAD", rc0, rc1,
              out1.strip().splitlines()[-1][:100] if out1.strip() else "", p.returncode,
              "CAUGHT" if caught else "MISSED\n" + o[-800:]))
        if caught:
            print("   ", "\n    ".join(o.splitlines()[1:4])[:700])
    else:
        print("SEED %s: %s demo(%d,%d)" % (sid, "ok" if ok else "BAD", rc0, rc1))
    sys.stdout.flush()
    return ok
