import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEF="stateless model checking: exhaustive bounded enumeration of driver choices on the real code against an executable reference model"
BFS="explicit-state model checking: every operation sequence to a depth executed on the real code in step with a reference model, distinct states counted"
TECH={
"C07":"fault-injecting model checking: all answer scripts of the OS randomness interface up to a deviation bound, real code executed under each",
"C15":BFS,
"C20":"explicit-state model checking of secret lifetimes: all operation histories to a depth, the owned memory inspected at the moment it is released",
"C22":"stateless model checking: exhaustive bounded enumeration of hostile inputs on the real code; panic, abort and hang monitors",
"C23":"explicit-state model checking of call histories: all pairs and bounded-depth histories of operations, each in a fresh process, against each operation's result alone",
"C24":"stateless model checking of the compiled code under a controlled scheduler: all schedules up to a preemption bound, with deadlock, livelock and happens-before race monitors",
}
NOTE="Every execution inside the bounds listed in evidence (per section) is run on the real code, in a debug-assertion and a release build; nothing is sampled. Trusts the reference model (written from the standards, self-tested against published vectors on each run); values outside the enumerated sets are not covered."
NOTES={
"C07":"Every script of OS-source answers (full, short, EINTR, error, constant device) within the deviation bound is played to the real code; the generated phrase must be exactly the bytes the source delivered. Trusts the interposed C-library calls to be the only randomness entry points.",
"C20":"Every history to the bound is run under an allocator that inspects each watched block (phrase, entropy, seed, key bytes, key text) when it is released: every byte must be zero. Intermediate copies on the stack or in other buffers are not covered.",
"C22":"All enumerated hostile inputs return normally; panics, aborts, signals and executions over 90 s are violations. Inputs outside the enumerated shapes are not covered.",
"C24":"Every interleaving (sequentially consistent, at conflicting instrumented accesses) up to the preemption bound gives the results each call gives alone; unsynchronised conflicting accesses are reported by a vector-clock race monitor. Weak-memory-only outcomes of correctly annotated atomics are not explored.",
}
NA=[]
ps=[json.loads(l) for l in open(V+"/properties.jsonl")]
na={n["property"] for n in NA}
m={"version":1,"setup_cmd":"python3 run.py build","checks":[],"not_applicable":NA,
"notes":"Checks build kms from /repo's working tree into /verif/target and run the explorers in harness/ and sched/; `python3 run.py replay FILE` re-executes a recorded violation. No hooks are needed in /repo."}
for p in ps:
    i=p["id"]
    if i in na: continue
    m["checks"].append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,"technique":TECH.get(i,DEF),"level":"model_checking","level_note":NOTES.get(i,NOTE)})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
