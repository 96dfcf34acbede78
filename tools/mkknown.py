#!/usr/bin/env python3
"""Writes known/*.json: the scenarios of defects found earlier, run at every check."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known")
os.makedirs(D, exist_ok=True)

def raw(s): return {"body": {"Raw": s}, "edits": []}
def rep(a, b, n, c): return {"body": {"Repeat": [a, b, n, c]}, "edits": []}
def f(path, spec): return {"path": path, "node": {"File": spec}}
def op(o, faults=()): return {"op": o, "faults": list(faults), "del": {"chunks": [], "eintr": 0}}
def load(p, d): return {"Load": {"path": p, "dst": d}}
def text(s, d): return {"LoadStr": {"text": s, "dst": d}}
def fault(call, nth, count, act, path=None): return {"call": call, "nth": nth, "count": count, "act": act, "path": path}
def plan(name, prop, fs, ops, dump=True, stack=8192, kind="known"):
    j = {"prop": prop, "kind": kind, "seed": 0, "hash_seed": 1, "stack_kb": stack, "max_fds": 64, "cwd": "/w",
         "dump": dump, "fs": fs, "epochs": [{"threads": [ops], "sched": []}]}
    with open(os.path.join(D, name + ".json"), "w") as o:
        json.dump(j, o, indent=None, separators=(",", ":"), ensure_ascii=True)
        o.write("\n")

# F1: the including file disappears between being read and its include being resolved.
plan("F1", "C04", [f("/w/f0", raw('a: <"f1">')), f("/w/f1", raw("b: 1"))],
     [op(load("f0", 0), [fault("Stat", 0, 1, {"Mut": {"Remove": "/w/f0"}}, "f1")])], dump=False, stack=2048)
# F2: the file system reports an absurd size.
plan("F2", "C04", [f("/w/f0", raw("a: 1"))], [op(load("f0", 0), [fault("FStat", 0, 9, {"Size": "Max"})])], dump=False, stack=2048)
# F3: a long chain of includes.
n = 400
plan("F3", "C04", [f("/w/f%d" % i, raw('a: <"f%d">' % (i + 1) if i + 1 < n else "a: 1")) for i in range(n)],
     [op(load("f0", 0))], dump=False, stack=2048)
# F4: long runs of prefix operators, and of dots in a variable.
plan("F4", "C04", [], [op(text(rep("a: ", "-", 4000, "1"), 0)), op(text(rep("a: [0] b: a", ".-", 4000, "0"), 1))], dump=False, stack=2048)
# F5: one file included as several kinds.
doc = lambda *fs: {"body": {"Doc": {"doc": {"Obj": [[{"Name": n}, e] for n, e in fs]}, "fmt": 0}}, "edits": []}
inc = lambda k, p: {"Inc": [k, {"Str": p}]}
plan("F5", "C05", [f("/w/f1", {"body": {"Doc": {"doc": {"Tup": [{"Int": "1"}]}, "fmt": 0}}, "edits": []}),
                   f("/w/f0", doc(("a", inc("Tup", "f1")), ("b", inc("Str", "f1")), ("c", inc("Tup", "f1"))))],
     [op(load("f0", 0))])
# F6: a value nested very deep, built level by level through variables.
s = ["@a0: {}"]
for i in range(1, 500):
    s.append("@a%d: %s@a%d%s" % (i, "{x:" * 50, i - 1, "}" * 50))
s.append("v: @a%d" % (len(s) - 1))
plan("F6", "C04", [], [op(text(raw("\n".join(s)), 0)), op({"Drop": {"src": 0}})], dump=False, stack=2048)
# K2: a value nested deeper than the nesting limit, built through variables.
s = "@a: %s1%s\nb: %s@a%s" % ("{x:" * 40, "}" * 40, "{x:" * 40, "}" * 40)
plan("K2", "C03", [f("/w/f0", raw(s))],
     [op(load("f0", 0)), op({"Save": {"src": 0, "path": "o"}}), op(load("o", 1))])
# F7: an include keyword used as a value gave every text the same, permanently held instance.
plan("F7", "C11", [], [op(text(raw("a: Obj"), 0)), op("Audit")])
