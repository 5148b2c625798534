#!/usr/bin/env python3
"""Tries the checks on many small mechanical edits of the repository.

usage: sweep.py refactor|mutate [-j N] [-n COUNT] [-s SEED] [-t] [substring of kind:file:line:function ...]

"refactor" applies edits that do not change behaviour, one per run, and lists
those on which some check reports a violation. "mutate" applies edits that do
and lists those no check reports; with -t the repository's tests are run on
these first and the ones the tests notice left out. Copies live in a temporary
directory.
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off")
args = sys.argv[1:]
what = args.pop(0)
jobs, count, seed, tests, pats = 6, 0, 1, False, []
while args:
    a = args.pop(0)
    if a == "-j":
        jobs = int(args.pop(0))
    elif a == "-n":
        count = int(args.pop(0))
    elif a == "-s":
        seed = int(args.pop(0))
    elif a == "-t":
        tests = True
    else:
        pats.append(a)

work = tempfile.mkdtemp(prefix="capverif-sweep-")


def label(c):
    return "%s:%s:%d:%s" % (c["Kind"], c["File"], c["Line"], c["Func"])


def run(i, c):
    d = os.path.join(work, "c%d" % i)
    try:
        repo = os.path.join(d, "repo")
        os.makedirs(repo)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {repo}", shell=True, check=True)
        p = os.path.join(repo, c["File"])
        b = open(p, "rb").read()
        before = b
        for e in sorted(c["Edits"], key=lambda e: (-e["Start"], -e["End"])):
            b = b[:e["Start"]] + e["Text"].encode() + b[e["End"]:]
        open(p, "wb").write(b)
        if subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True).returncode:
            return c, "build", "", ""
        v = os.path.join(d, "v")
        os.makedirs(os.path.join(v, "evidence"))
        shutil.copy(os.path.join(verif, "known-findings.txt"), v)
        r = subprocess.run([tool, "all"], env=dict(env, CAPSLOCK_REPO=repo, VERIF_DIR=v), capture_output=True, text=True)
        hits = sorted(set(re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)))
        bad = [l[:300] for l in r.stdout.split("\n") if re.search(r"\[[a-zA-Z0-9 (),/\"'-]+\] ", l) and not l.startswith("VIOL")]
        open(p + ".old", "wb").write(before)
        diff = subprocess.run(["diff", p + ".old", p], capture_output=True, text=True).stdout
        os.remove(p + ".old")
        if not hits and r.returncode:
            hits = ["crash"]
            bad = r.stderr.split("\n")[:4]
        if what == "mutate" and not hits and tests:
            t = subprocess.run(["go", "test", "./..."], cwd=repo, env=env, capture_output=True, text=True)
            if t.returncode:
                return c, "tests", "", ""
        return c, "run", hits, "\n".join(bad[:5]) + "\n" + diff
    finally:
        shutil.rmtree(d, ignore_errors=True)


try:
    tool = os.path.join(work, "capverif")
    subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(verif, "checker"), env=env, check=True)
    lister = os.path.join(work, "edits")
    subprocess.run(["go", "build", "-o", lister, "./edits"], cwd=os.path.join(verif, "checker"), env=env, check=True)
    cands = json.loads(subprocess.run([lister, what], env=env, capture_output=True, check=True).stdout)
    if pats:
        cands = [c for c in cands if any(p in label(c) for p in pats)]
    random.Random(seed).shuffle(cands)
    if count:
        cands = cands[:count]
    n = {"build": 0, "run": 0, "tests": 0}
    shown, by = 0, {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(run, i, c) for i, c in enumerate(cands)]):
            c, state, hits, text = f.result()
            n[state] += 1
            for h in hits:
                by[h] = by.get(h, 0) + 1
            if state == "run" and bool(hits) == (what == "refactor"):
                shown += 1
                print("==", label(c), " ".join(hits))
                print("   " + text.replace("\n", "\n   "), flush=True)
    print("%d edits: %d did not build, %d noticed by tests, %d %s" % (
        len(cands), n["build"], n["tests"], shown, "raised an alarm" if what == "refactor" else "were not reported"))
    print("reported by:", " ".join("%s:%d" % x for x in sorted(by.items())))
finally:
    shutil.rmtree(work, ignore_errors=True)
