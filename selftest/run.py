#!/usr/bin/env python3
"""Tries the checks on edited copies of the repository.

cases*.py in this directory define lists of cases with keep(name, edits...) and
brk(name, properties, edits...); an edit is (file, old text, new text). A keep
case changes the code without changing what it does and no check may report
anything; a brk case breaks the properties listed and their checks must report
it. Copies live in a temporary directory.

usage: run.py [-j N] [name substrings...]
"""
import concurrent.futures, glob, os, re, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off")
cases = []


def keep(name, *edits):
    cases.append((name, [], edits))


def brk(name, props, *edits):
    cases.append((name, props.split(), edits))


for f in sorted(glob.glob(os.path.join(here, "cases*.py"))):
    exec(compile(open(f).read(), f, "exec"))


def run(case):
    name, props, edits = case
    work = tempfile.mkdtemp(prefix="capverif-selftest-")
    try:
        repo = os.path.join(work, "repo")
        os.mkdir(repo)
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {repo}", shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return name, "ERROR", f"{f}: text occurs {n} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        r = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode:
            return name, "ERROR", r.stderr[-600:]
        v = os.path.join(work, "v")
        os.makedirs(os.path.join(v, "evidence"))
        shutil.copy(os.path.join(verif, "known-findings.txt"), v)
        r = subprocess.run([tool, "all"], env=dict(env, CAPSLOCK_REPO=repo, VERIF_DIR=v), capture_output=True, text=True)
        hits = sorted(set(re.findall(r"^VIOLATION property=(\S+)", r.stdout, re.M)))
        if not props:
            bad = [l[:400] for l in r.stdout.split("\n") if re.search(r"\[[a-zA-Z0-9 (),/\"'-]+\] ", l) and not l.startswith("VIOL")]
            if hits or r.returncode:
                return name, "FALSE ALARM", " ".join(hits) + "\n    " + "\n    ".join(bad[:6]) + r.stderr[-300:]
            return name, "ok", ""
        missed = [p for p in props if p not in hits]
        if missed:
            return name, "MISSED", " ".join(missed) + " (reported: " + " ".join(hits) + ")"
        return name, "ok", " ".join(hits)
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = 6
    if args[:1] == ["-j"]:
        jobs = int(args[1])
        args = args[2:]
    verbose = "-v" in args
    args = [a for a in args if a != "-v"]
    tool = os.path.join(tempfile.mkdtemp(prefix="capverif-tool-"), "capverif")
    try:
        subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(verif, "checker"), env=env, check=True)
        todo = [c for c in cases if not args or any(a in c[0] for a in args)]
        bad = 0
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for name, what, more in ex.map(run, todo):
                if what != "ok" or verbose:
                    print(f"{what}: {name}: {more}", flush=True)
                bad += what != "ok"
        print(f"{len(todo)} cases, {bad} not as expected")
        sys.exit(bad > 0)
    finally:
        shutil.rmtree(os.path.dirname(tool))
