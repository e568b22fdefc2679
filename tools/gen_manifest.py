#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props=[json.loads(l) for l in open("properties.jsonl")]
hook=subprocess.run(["git","-C","/repo","log","--format=%H","--grep","^verif hook"],capture_output=True,text=True).stdout.split()
T={
 "V":"explicit-state: exhaustive enumeration of bounded version texts / pairs / triples on the real code against a reference model",
 "O":"explicit-state: exhaustive enumeration of operators and lookup texts against the operator table",
 "S":"explicit-state: exhaustive enumeration of (spec, version) pairs on the real code against a reference model",
 "C":"explicit-state: exhaustive enumeration of values built by the real code, each compared with its clones through every public answer",
 "S06":"explicit-state: exhaustive enumeration of V and sets of versions on the real code; laws between the answers of 20 specs and the real order",
 "T":"explicit-state: exhaustive enumeration of token strings and tree shapes with every truth assignment against a reference parser",
 "D":"explicit-state: exhaustive enumeration of documents and serialisations loaded by the real code, against an abstract document",
 "P":"explicit-state: exhaustive enumeration of version pairs and texts through the registered Python class against the reference model",
 "H":"stateless model checking: every call history and thread assignment up to a depth, and every interleaving inside two overlapping calls up to a preemption bound under a controlled scheduler, on the real code, against the answers of lone processes",
}
N={
 "V":"Every case of the finite spaces listed in the evidence is executed on the real code and compared with the model; nothing is sampled. Trusts the reference model (harness/src/model.rs); says nothing about texts outside the spaces.",
 "O":"The operator algebra is checked completely (10 operators); lookups over all enumerated texts. Trusts the operator table in the harness.",
 "S":"Every enumerated spec is matched against every enumerated version by the real code and by the model. Trusts the model; says nothing about specs outside the spaces.",
 "C":"Every value of the finite spaces is built and cloned by the real code; no model is involved. Says nothing about values outside the spaces.",
 "S06":"Every V of the spaces against every version of its set; only answers of the real code are compared with each other, so no model is trusted. Says nothing about versions outside the spaces.",
 "T":"Every token string / tree shape up to the bound, all truth assignments. Trusts the recursive-descent reference parser; larger expressions only in the listed wide and deep families.",
 "D":"Every enumerated document and serialisation is loaded by the real code and compared field by field. Trusts the harness's own JSON reader and writer.",
 "D04":"Events are injected at every byte of five documents (and every pair of bytes of a small one) by the explorer's own read and open64; trusts the harness's JSON reader for what a shortened document says. A loader that maps the file or reads by other system calls would meet no injected event; pipes, places and sources would still apply.",
 "P":"The class methods of the Python member run unchanged through a stand-in for the cpython crate, as the real extension module does not load in the installed interpreter.",
 "H":"Every history up to the depth and every assignment to threads, each history in its own process; inside calls, every sequentially consistent interleaving of two threads with at most 2 (thorough 3) preemptions, reduced by independence. Weak memory and more than two overlapping threads are not explored.",
}
NA={
 "R01":"The resolver is commented out of the crate (mod resolve is not compiled) and unfinished: there is no executable behaviour to explore or to bind a model to.",
 "R02":"The graph module is commented out of the crate and its edge resolution is an empty loop: there is no executable behaviour to explore or to bind a model to.",
}
m=dict(version=1,setup_cmd="./setup.sh",
 hooks=dict(guard="cfg(ronda_verif)",enable="RUSTFLAGS=--cfg ronda_verif (set by build.sh)",source_commits=hook),
 checks=[],not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="Explorers: harness/ (mc, mcpy). One case alone: ./replay.sh ID TIER SPACE INDEX. Known findings: known_findings.jsonl.")
for p in props:
    i=p["id"]
    if i in NA: continue
    t=T.get(i,T[i[0]]); lv="model_checking"
    if i=="D02":
        t="fault enumeration: every truncation, byte damage, token damage and field fault of bounded documents, loaded by the real code against an independent JSON reader with a schema"; lv="fault_enumeration"
    if i=="D04":
        t="fault enumeration: every division of a file into reads, every place of an interruption, read error, open error or early end, injected between the standard library and the system while the real code loads; all other JSON sources on whole and damaged documents"; lv="fault_enumeration"
    m["checks"].append(dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=t,level=lv,level_note=N.get(i,N[i[0]])))
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
print(len(m["checks"]))
