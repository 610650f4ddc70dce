#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property.

Builds the harnesses of the property from /repo's working tree, runs their
exhaustive explorations, writes evidence/ID.json, and exits 0 (held on
everything explored) or 1 (with VIOLATION lines).  Exit 2 is an error of the
check itself.

check.py --replay FILE re-runs the exact case a VIOLATION line points to.
"""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
BASE = ["-std=gnu++14", "-O1", "-g0", "-w", "-include", "cstdint", "-include", "algorithm",
        "-D_GLIBCXX_ASSERTIONS", "-I", REPO, "-I", os.path.join(VERIF, "lib")]
EXCLUDE = {"utils": ("bench_ops.cc",)}
NJOBS = os.cpu_count() or 8


def libsources(spec):
    """A source specification is a file of /repo or the name of a directory
    (every non-test, non-main source of it)."""
    if spec == "utils":
        out = [f for f in sorted(glob.glob(REPO + "/utils/*.cc"))
               if not os.path.basename(f).startswith("test_")
               and os.path.basename(f) not in ("test.cc", "bench_ops.cc")]
        return out + sorted(glob.glob(REPO + "/utils/*.c"))
    if spec.startswith("/"):
        return [spec]
    return [os.path.join(REPO, spec)]


def mainname(prog):
    return os.path.splitext(prog)[0].replace("/", "_").replace("-", "_") + "_main"


def rename_main(obj, name):
    """Makes a program's object file one that can be linked into a harness: main
    is renamed, and its other functions and variables are no longer global."""
    syms = subprocess.run(["nm", obj], stdout=subprocess.PIPE).stdout.decode().splitlines()
    args = []
    for s in syms:
        f = s.split()
        if f[-1] == "main" and f[-2] == "T":
            args += ["--redefine-sym", "main=" + name]
        elif f[-2] in "TDBR" and len(f) == 3:
            args += ["--localize-symbol", f[-1]]
    subprocess.run(["objcopy"] + args + [obj], check=True)


def compile_one(job):
    src, obj, flags, main = job
    cmd = [CXX] + flags + ["-c", "-o", obj, src]
    if src.endswith(".c"):
        cmd = ["clang", "-O1", "-w", "-std=gnu99", "-I", REPO] + \
            [f for f in flags if f.startswith("-fsanitize")] + ["-c", "-o", obj, src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if main and p.returncode == 0:
        rename_main(obj, main)
    return src, p.returncode, p.stdout.decode(errors="replace"), " ".join(cmd)


def build(pid, cfg, bdir):
    """Compile every binary of the check; returns {name: path}."""
    jobs, links = {}, []
    for b in cfg["bins"]:
        flags = BASE + b.get("flags", [])
        objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in b["src"]]
        for s in b.get("repo", []):
            srcs += libsources(s)
        progs = {os.path.join(REPO, s): s for s in b.get("progs", [])}
        for s in srcs + sorted(progs):
            own = s.startswith(VERIF)
            fl = flags if own or b.get("flagall", True) else BASE
            main = None
            if s in progs:
                fl = fl + ["-include", "limits"]
                main = mainname(progs[s])
            tag = str(abs(hash((s, tuple(fl), main))) % 10**12)
            obj = os.path.join(bdir, os.path.basename(s).replace(".", "_") + "_" + tag + ".o")
            jobs[obj] = (s, obj, fl, main)
            objs.append(obj)
        exe = os.path.join(bdir, b["name"])
        links.append((b, exe, objs))
    order = sorted(jobs.values(), key=lambda j: 0 if j[0].startswith(VERIF) else 1)
    with concurrent.futures.ThreadPoolExecutor(NJOBS) as ex:
        for src, rc, out, cmd in ex.map(compile_one, order):
            if rc != 0:
                print("BUILD ERROR: %s\n%s\n%s" % (src, cmd, out[-6000:]))
                sys.exit(2)

    def link(l):
        b, exe, objs = l
        cmd = [CXX] + [f for f in b.get("flags", []) if f.startswith("-f")] + objs + \
            ["-o", exe, "-lrt"] + b.get("libs", [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return exe, p.returncode, p.stdout.decode(errors="replace")
    with concurrent.futures.ThreadPoolExecutor(NJOBS) as ex:
        for exe, rc, out in ex.map(link, links):
            if rc != 0:
                print("LINK ERROR: %s\n%s" % (exe, out[-6000:]))
                sys.exit(2)
    # programs of the repository that the harness drives end to end
    return {b["name"]: exe for b, exe, _ in links}


def known(pid):
    """The listed findings of the property, as the harness keys them."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if not line.startswith("known: property=%s " % pid):
                continue
            out.append(line.split(" ", 2)[2])
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        return runcheck(r["property"], r["tier"], r)
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        ok = all(shutil.which(t) for t in (CXX, "clang", "ar"))
        print("compilers found" if ok else "no clang")
        return 0 if ok else 1
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py ID [quick|thorough]")
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return runcheck(sys.argv[1], tier, None)


def runcheck(pid, tier, replay):
    t0 = time.time()
    cfg = CHECKS[pid]
    bdir = os.path.join(VERIF, "build", pid + "-" + str(os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        return runcheck2(pid, tier, replay, cfg, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def runcheck2(pid, tier, replay, cfg, bdir, t0):
    bins = build(pid, cfg, bdir)
    tbuild = time.time() - t0
    total = dict(cases=0, states=0, transitions=0, nontrivial=0, validated=0)
    counters, suites, samples, viols, knownhits = {}, [], [], [], []
    complete = True
    budget = 560 if tier == "quick" else 800
    listed = known(pid)
    knownfile = os.path.join(bdir, "known.txt")
    for b in cfg["bins"]:
        name = b["name"]
        if tier == "quick" and b.get("thorough_only"):
            continue
        if replay and replay["binary"] != name:
            continue
        with open(knownfile, "w") as f:
            for k in listed:
                n, rest = k.split("\t", 1)
                if n == name:
                    f.write(rest + "\n")
        outf = os.path.join(bdir, name + ".json")
        left = budget - (time.time() - t0)
        cmd = [bins[name], "--out", outf, "--jobs", str(NJOBS), "--budget", "%.0f" % max(left, 5),
               "--known", knownfile, "--maxviol", "3"]
        if tier == "thorough":
            cmd.append("--thorough")
        if replay:
            cmd += ["--suite", replay["suite"], "--chunk", str(replay["chunk"]),
                    "--ordinal", str(replay["ordinal"]), "--maxviol", "1", "--jobs", "1"]
        env = dict(os.environ, MC_REPO_DIR=REPO, MC_BUILD_DIR=bdir, MC_VERIF_DIR=VERIF,
                   LC_ALL="C", TZ="UTC", HOME="/root", USER="root")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        try:
            r = json.load(open(outf))
        except (OSError, ValueError) as e:
            print("HARNESS ERROR: %s exited %d: %s\n%s" %
                  (name, p.returncode, e, p.stdout.decode(errors="replace")[-3000:]))
            return 2
        for k in total:
            total[k] += r[k]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in r["suites"]:
            s["binary"] = name
            suites.append(s)
        samples += r["samples"]
        knownhits += [name + "\t" + k for k in r["known"]]
        for v in r["violations"]:
            v["binary"] = name
            viols.append(v)
        complete = complete and r["complete"]
    if replay:
        for v in viols:
            print("reproduced: %s/%s: %s\n  case: %s\n  %s" %
                  (v["binary"], v["suite"], v["kind"], v["desc"], v["text"]))
        if not viols:
            print("not reproduced")
        return 1 if viols else 0

    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k.replace("\t", " | ")))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, v in enumerate(viols):
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, i))
        v2 = dict(v, property=pid, tier=tier,
                  how="python3 /verif/check.py --replay " + path)
        json.dump(v2, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s/%s kind=%s\n  case: %s\n  %s" %
              (v["binary"], v["suite"], v["kind"], v["desc"][:1500], v["text"][:1500]))
    cov = {
        "evaluations": total["cases"],
        "distinct_nontrivial": total["nontrivial"],
        "rule": cfg.get("rule", "every case of every suite's bounded space is run once, in order"),
        "states": total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["validated"],
        "samples": samples,
        "exhaustive": complete and not viols,
        "counters": counters,
        "suites": suites,
        "build_seconds": round(tbuild, 1),
        "known_findings_reproduced": len(knownhits),
        "bounds": cfg.get("bounds", ""),
    }
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if os.environ.get("MC_NOEVIDENCE"):
        return 1 if viols else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %s, build %.1fs, total %.1fs" %
          (pid, tier, total["cases"], total["states"], total["transitions"],
           "complete" if complete else "NOT complete", tbuild, time.time() - t0))
    return 1 if viols else 0


if __name__ == "__main__":
    sys.exit(main())
