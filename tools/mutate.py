"""Measures the checks: makes small changes to the code a property is anchored in, one at a time, in a scratch copy,
runs the property's check against each and lists the changes that it does not notice.

usage: mutate.py ID [N [SEED]] [--files=f,g] [--lines=a-b] [--checks=ID,ID] [--tag=T]
With --checks, those checks are run one after another until one notices the change.    (never used by the checks)"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = dict(a[2:].split("=", 1) for a in sys.argv[1:] if a.startswith("--"))
pid = args[0]
n = int(args[1]) if len(args) > 1 else 20
seed = int(args[2]) if len(args) > 2 else 1
tree = "/tmp/mut-" + pid + opts.get("tag", "")
shutil.rmtree(tree, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)

prop = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
prop = [p for p in prop if p["id"] == pid][0]
files = opts["files"].split(",") if "files" in opts else prop["anchors"]["files"]

RULES = [
    (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ 1\b", [""]), (r" - 1\b", [""]), (r"\+1\b", [""]), (r"-1\]", ["]"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
    (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\bif \((.*)\)( \{)?$", [r"if (!(\1))\2"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"\+\+(?=[;)])", ["--"]), (r"%", ["/"]), (r"!(?=[a-z])", [""]),
]


def mutants():
    out = []
    for f in files:
        p = os.path.join(tree, f)
        if not os.path.isfile(p):
            continue
        src = open(p).read().split("\n")
        incomment = False
        for i, l in enumerate(src):
            s = l.strip()
            if incomment:
                incomment = "*/" not in s
                continue
            if s.startswith("/*"):
                incomment = "*/" not in s
                continue
            if not s or s.startswith(("//", "#", "assert", "enum", "static_assert", "typedef", "template", "friend", "dfpair", "fprintf", "puts", "fatal", "warn")) or "fatal" in s:
                continue
            if "lines" in opts:
                a, b = map(int, opts["lines"].split("-"))
                if not a <= i + 1 <= b:
                    continue
            code = l.split("//")[0]
            for r, subs in RULES:
                for m in re.finditer(r, code):
                    if code.count('"', 0, m.start()) % 2:
                        continue
                    for sub in subs:
                        out.append((f, i, code[:m.start()] + m.expand(sub) + code[m.end():]))
            if re.match(r"^[\w\->\[\].()]+(\([^;]*\)| [-+*|&]?= [^;]*|\+\+|--);$", s) and not s.startswith(("return", "delete", "else")):
                out.append((f, i, re.match(r"\s*", l).group() + ";"))
    return [m for m in out]


ms = mutants()
random.Random(seed).shuffle(ms)
print("%s: %d of %d changes" % (pid, min(n, len(ms)), len(ms)), flush=True)
stat = {}
for f, i, new in ms[:n]:
    p = os.path.join(tree, f)
    orig = open(p).read()
    src = orig.split("\n")
    old = src[i]
    src[i] = new
    open(p, "w").write("\n".join(src))
    t = time.time()
    what = "SURVIVED"
    for c in opts.get("checks", pid).split(","):
        try:
            r = subprocess.run([sys.executable, VERIF + "/check.py", c, "quick"], env=dict(os.environ, MC_REPO=tree, MC_NOEVIDENCE="1"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            o = r.stdout.decode(errors="replace")
            what = "killed" if r.returncode == 1 and "VIOLATION property=" in o else "SURVIVED" if r.returncode == 0 else "build" if re.search(r"error:|does not build|cannot build|compile", o) else "rc%d" % r.returncode
        except subprocess.TimeoutExpired:
            what = "timeout"
        if what != "SURVIVED":
            break
    stat[what] = stat.get(what, 0) + 1
    if what not in ("killed", "build"):
        print("%s %s:%d (%.0fs)\n  - %s\n  + %s" % (what, f, i + 1, time.time() - t, old.strip(), new.strip()), flush=True)
        if what.startswith("rc"):
            print(o[-600:])
    open(p, "w").write(orig)
print(pid, stat, flush=True)
shutil.rmtree(tree, ignore_errors=True)
