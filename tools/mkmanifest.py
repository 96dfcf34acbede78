#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from this table.
import json
T={
'C01':("seeded read-delivery, size-lie and read-error faults on an in-memory OS","Every run compares the loaded value with the one denoted by the complete bytes (known by construction or from an independent model of the language), or demands an error where a read failed or the bytes are not UTF-8."),
'C02':("seeded write faults and process kills on an in-memory OS","After every save the bytes on the simulated disk are compared with the object's text; failed and killed saves must leave the old content or a prefix, and a repeat without faults must succeed."),
'C03':("seeded save/crash/restart/reload histories on an in-memory OS","Reloads, in the same process and after kill and restart, are compared field by field with the model of the object saved and byte by byte with its text."),
'C04':("seeded corruption, I/O faults and file-system mutations under a step bound","Every load runs in a forked process on a thread with a default-size stack; a panic, abort, stack overflow, runaway allocation or exceeded step bound is a violation."),
'C05':("seeded include graphs and directory layouts on an in-memory OS with benign delivery faults","Loads are compared with an independent evaluator of include resolution, kinds and scopes."),
'C06':("seeded cyclic and acyclic include graphs on an in-memory OS","Reachability of an include of a file being loaded is computed on the generated graph, and the load must agree."),
'C07':("seeded concurrent editor interleaved with a load at system calls","Version tags in every file version identify which version each include saw; sharing is checked through ids and pointer equality."),
'C08':("seeded long load/save/edit histories with I/O faults in one process","Each operation's outcome is compared with a fresh evaluation of what is on the simulated disk at that time."),
'C09':("seeded preemptive thread schedules at memory-access granularity","Each operation's result is compared with the result alone and with the model; deadlock and hang are detected by the scheduler."),
'C10':("seeded preemptive thread schedules at memory-access granularity","All ids of all instances of a process are collected; uniqueness, start at 0 and creation order are checked."),
'C11':("seeded handle histories on threads with preemptive schedules","Counts and identities at quiescent moments are compared with an exact model of who holds what; freed memory is poisoned."),
'C12':("seeded I/O faults at every call of a load, then recovery","A load under faults must give an error or the exact value; after the faults stop it must give the exact value."),
'C13':("seeded faults at every call, with descriptor, directory-tree and heap accounting","Open descriptors, the tree and live library allocations are compared before and after each operation on an in-memory OS."),
'C14':("seeded corruption of one file of an include graph on an in-memory OS","The error of every load reaching the broken file is compared with the error of loading it alone."),
'C20':("seeded process environments (hash seeds, addresses, clock, environment, delivery, history, threads) around one list of operations","The same operations on the same simulated disk are run by 2-3 simulated processes; values, errors, texts and written bytes must agree."),
}
COMMON=" Sampled by seed, not exhaustive; assumes sequentially consistent memory between scheduling points and POSIX semantics of the simulated system calls; the library, its dependencies and std above the C library are real code."
NA={
'C15':"A pure function of its operands: no schedule, clock, I/O, fault or history can influence it, so simulation adds nothing over an input generator.",
'C16':"A pure function of a value tree: no schedule, clock, I/O, fault or history can influence it.",
'C17':"A pure function of immutable objects: no schedule, clock, I/O, fault or history can influence it (that concurrent readers agree is C09).",
'C18':"A pure function of the text: no schedule, clock, I/O, fault or history can influence it (delivery of the text is C01, location of errors across files C14).",
'C19':"A pure function of its arguments: no schedule, clock, I/O, fault or history can influence it.",
}
m=dict(version=1,setup_cmd="bin/build",checks=[],not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="No hooks in /repo: the seams are the C library boundary and compiler instrumentation of the crate, both applied by /verif's build.")
for k,(t,n) in T.items():
    m['checks'].append(dict(property=k,quick_cmd=f"bin/check {k}",thorough_cmd=f"VERIF_TIER=thorough bin/check {k}",
      evidence_file=f"evidence/{k}.json",technique="deterministic simulation with fault injection: "+t,level="exploration",level_note=n+COMMON))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m['checks']))
