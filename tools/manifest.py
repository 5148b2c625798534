#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules and the table below."""
import json, os, re, subprocess

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
rules = {}
for f in sorted(os.listdir(os.path.join(root, "checker"))):
    if f.endswith(".go"):
        src = open(os.path.join(root, "checker", f)).read()
        for m in re.finditer(r'register\("(C\d\d)"', src):
            rules[m.group(1)] = f

na = {
    "C29": "Soundness of the call graph is a property of golang.org/x/tools' VTA and CHA builders, which are dependencies and not "
           "part of this repository; what the repository itself contributes (which graph is asked for, over which functions, and "
           "the rewrites before it) is decided under C01, C02, C08 and C09.",
}
technique = {
    "C01": "dataflow over gated SSA; worklist searches recognised, their conditions compared with reachability as boolean functions",
    "C02": "dataflow over gated SSA; forward and backward worklist searches and output callbacks compared with reachability",
    "C03": "decision table of the category lookup from guarded returns, compared with the documented precedence",
    "C04": "guard dataflow: conditions of seeds, outputs and stops compared as boolean functions",
    "C05": "dataflow over gated SSA of the syntax visitor; exhaustive case analysis on node kinds and type classes",
    "C06": "guard dataflow over the instruction scan; exhaustive case analysis on stores, induction over type classes",
    "C07": "guard dataflow: exact condition of insertions",
    "C08": "guard dataflow over syntax rewriting; provenance of the trees built; case table over all expression kinds",
    "C09": "traversal analysis of the package walks; order and provenance of the graph construction; constant evaluation",
    "C10": "provenance analysis of path elements along recorded search edges",
    "C11": "guard dataflow: one step of the label walk and the counters compared as boolean functions",
    "C12": "guard dataflow through filters and de-duplication to the returned lists",
    "C13": "guard dataflow: printed lines and result expanded to set differences",
    "C14": "provenance of reports through commands and directories; guard dataflow to the exit status",
    "C15": "error flow analysis from every fallible call to the exit status",
    "C16": "guard dataflow: condition of the analysis call against all load failures",
    "C17": "symbolic value of the load configuration per combination of options",
    "C18": "effect and ownership analysis of the classifier maps; no write to shared memory",
    "C19": "decision table of the reading loop over classes of lines; error flow",
    "C20": "order-taint analysis of unordered loops; decomposition of sort comparisons",
    "C21": "extraction of the parsing loop as a finite automaton, compared state by state",
    "C22": "typestate of temporary directories and the working directory along every exit",
    "C23": "dispatch evaluated per output name; analysis of parsed templates; error flow",
    "C24": "table comparison of the embedded capability map with an independent list under the precedence in the code",
    "C25": "output grammar of the writes, compared with the DOT grammar; escaping by provenance",
    "C26": "provenance and guards of inventory entries; traversal and sort analysis",
    "C27": "cross-check of declarations, generated code, schema and documentation",
    "C28": "effect analysis of the derived classifier's maps for one arbitrary entry",
    "C30": "termination analysis: every loop and recursion classified by what bounds it",
    "C32": "provenance of printed lists and paths; guard dataflow of headings against list contents",
    "C31": "nullness, assertion and index analysis over guard dataflow",
}
checks, nas = [], []
for p in props:
    i = p["id"]
    if i in rules:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": technique.get(i, "guard dataflow over gated SSA of the current source; conditions compared as BDDs"),
            "level": "other",
            "level_note": "Static analysis of the type-checked source: all paths of the functions analysed, under the modelling "
                          "assumptions listed in DESIGN.md; nothing is executed.",
        })
    else:
        nas.append({"property": i, "reason": na.get(i, "No static rule decides this property yet.")})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "8083bc4..HEAD"], capture_output=True, text=True).stdout
m = {
    "version": 1,
    "setup_cmd": "cd checker && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off go build -o ../.bin/capverif .",
    "checks": checks,
    "not_applicable": nas,
    "hooks": {"guard": "verif", "enable": "no hooks were needed: the checks read the source as it is", "source_commits": []},
    "notes": "Every check builds the analyser in checker/ and type-checks /repo's working tree on each run. known-findings.txt "
             "lists the defects found; the repaired ones are the fix: commits in /repo.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
