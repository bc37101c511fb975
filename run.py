#!/usr/bin/env python3
"""Build one property's harness against /repo's current tree, explore it, write the evidence file.

usage: run.py <property> [--tier quick|thorough] [--keep]
exit 0: held on everything explored; 1: VIOLATION; 3: internal error
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++"
COMMON = ["-std=c++14", "-O1", "-fno-pie", "-w", "-D_GLIBCXX_ASSERTIONS"]
INSTR = [
    "-fsanitize=thread,return", "-fsanitize-trap=return", "-femulated-tls", "-mllvm", "-tsan-instrument-func-entry-exit=0",
    "-include", os.path.join(VERIF, "nmc/prelude.h"),
]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(prop, bdir):
    inc = os.path.join(bdir, "include")
    os.makedirs(inc)
    with open(os.path.join(REPO, "src/nuclear.in")) as f:
        text = f.read().replace("${nuclear_include_base_directory}", "")
    with open(os.path.join(inc, "nuclear"), "w") as f:
        f.write(text)
    sources = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for name in files:
            if name.endswith(".cpp") or name.endswith(".c"):
                sources.append(os.path.join(root, name))
    sources.sort()
    includes = ["-I", inc, "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "nmc"),
                "-I", os.path.join(VERIF, "harness")]
    jobs = []
    objs = []
    hdir = os.path.join(VERIF, "harness")
    for src in [os.path.join(hdir, n) for n in sorted(os.listdir(hdir))
                if n.endswith(".cpp") and (n == "main.cpp" or n[:-4] == prop or n.startswith(prop + "_"))]:
        obj = os.path.join(bdir, os.path.basename(src) + ".o")
        objs.append(obj)
        jobs.append([CXX] + COMMON + INSTR + includes + ["-c", src, "-o", obj])
    jobs.append(["g++", "-std=c++17", "-O2", "-g", "-w", "-fPIC", "-shared", os.path.join(VERIF, "nmc/engine.cpp"),
                 os.path.join(VERIF, "nmc/io.cpp"), "-ldl", "-o", os.path.join(bdir, "libnmc.so")])
    for i, src in enumerate(sources):
        obj = os.path.join(bdir, "src%d.o" % i)
        objs.append(obj)
        jobs.append([CXX] + COMMON + INSTR + includes + ["-c", src, "-o", obj])
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for cmd, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode != 0:
                print("build failed: " + " ".join(cmd))
                print(r.stdout[-4000:])
                sys.exit(3)
    exe = os.path.join(bdir, "check")
    r = run([CXX, "-no-pie"] + objs + ["-L", bdir, "-lnmc", "-Wl,-rpath," + bdir, "-Wl,-z,now", "-rdynamic", "-lpthread", "-o", exe])
    if r.returncode != 0:
        print("link failed\n" + r.stdout[-4000:])
        sys.exit(3)
    return exe


def compact(sample):
    """the choices of one complete execution which differ from the default: position:choice/alternatives"""
    parts = sample.split()
    dev = ["%d:%s" % (i, c) for i, c in enumerate(parts) if not c.startswith("0/")]
    return "choice points %d, non-default choices: %s" % (len(parts), " ".join(dev) or "none")


def known_findings(prop):
    """known-findings.txt: lines 'KNOWN property=<id> scenario=<name> match=<substring of the message> :: description'"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("KNOWN property=" + prop + " "):
                continue
            head, _, desc = line.partition(" :: ")
            scen = head.split(" scenario=", 1)[1].split(" match=", 1)[0]
            match = head.split(" match=", 1)[1]
            out.append((scen, match, desc))
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    passthrough = []
    keep = False
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
        elif a == "--keep":
            keep = True
        elif a.startswith("--"):
            passthrough.append(a)
    t0 = time.time()
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        rc = check(prop, tier, bdir, rdir, passthrough, t0)
    finally:
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
        else:
            print("kept " + bdir)
    sys.exit(rc)


def check(prop, tier, bdir, rdir, passthrough, t0):
    exe = build(prop, bdir)
    t_build = time.time() - t0
    known = known_findings(prop)
    kfile = os.path.join(bdir, "known.txt")
    with open(kfile, "w") as f:
        for scen, match, _ in known:
            f.write("%s|%s\n" % ("" if scen == "*" else scen, match))
    jfile = os.path.join(bdir, "out.json")
    budget = 300 if tier == "quick" else 5400
    cmd = [exe, "--tier=" + tier, "--property=" + prop, "--replay-dir=" + rdir, "--json=" + jfile, "--known=" + kfile,
           "--total=%d" % budget] + passthrough
    p = subprocess.run(cmd)
    scen = []
    if os.path.exists(jfile):
        for line in open(jfile):
            try:
                scen.append(json.loads(line))
            except ValueError:
                print("unreadable result line: " + line)
                return 3
    violations = []
    unconfirmed = []
    for s in scen:
        if s["violation"] is None:
            continue
        # replay before report: the recorded schedule must fail again, alone, in a fresh process
        ok = False
        for _ in range(2):
            r = run([exe, "--tier=" + tier, "--replay=" + s["replay"], "--quiet", "--hang=60"])
            if r.returncode == 1 or r.returncode == 77 or r.returncode < 0:
                ok = True
                break
        (violations if ok else unconfirmed).append(s)
    hits = {}
    for s in scen:
        for k in s["known"]:
            hits[k["match"]] = hits.get(k["match"], 0) + k["hits"]
    for sc, match, desc in known:
        if hits.get(match, 0) > 0:
            print("KNOWN-FINDING: property=%s %s" % (prop, desc))
        else:
            print("note: listed finding did not occur in this run: " + desc)
    level = "model_checking"
    samples = []
    for s in scen:
        samples.append({"scenario": s["scenario"], "what": s["what"], "bound": s["bound"], "executions": s["executions"],
                        "schedule": compact(s.pop("sample", ""))})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": level,
        "coverage": {
            "states": sum(s["states"] for s in scen),
            "transitions": sum(s["transitions"] for s in scen),
            "traces_validated_against_impl": sum(s["complete"] for s in scen),
            "executions": sum(s["executions"] for s in scen),
            "explanation": "Stateless model checking of the real code: states are distinct happens-before histories (per "
            "thread hashes, deduplicated in the visited table), transitions are scheduling points executed, and every one "
            "of the traces is an execution of the implementation itself (complete executions counted; the remaining "
            "executions were cut off on reaching a visited state).",
            "exhaustive": all(s["exhausted"] for s in scen) if scen else False,
            "scenarios": scen,
            "samples": samples,
            "unconfirmed": [s["violation"] for s in unconfirmed],
        },
        "assumptions": [
            "bounded: each scenario fixes threads, operations and the deviation bound given with it",
            "sequentially consistent interleavings of atomics plus happens-before race detection, unless a scenario says "
            "weak_memory",
            "time, polling and network are the model's (virtual) ones",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d scenarios, %d states, %d executions, build %.1fs, total %.1fs" % (
        prop, tier, len(scen), ev["coverage"]["states"], ev["coverage"]["executions"], t_build, time.time() - t0))
    for s in unconfirmed:
        print("note: unconfirmed report (did not replay) in %s: %s" % (s["scenario"], s["violation"]))
    if violations:
        for s in violations:
            print("%s: %s" % (s["scenario"], s["violation"]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(s["replay"], VERIF)))
        return 1
    if p.returncode not in (0, 1) or not scen:
        print("internal error: explorer exit %d" % p.returncode)
        return 3
    return 0


if __name__ == "__main__":
    main()
