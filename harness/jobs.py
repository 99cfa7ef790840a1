"""Which scenarios and which clauses of the specification decide which property."""
import json
import os
import zlib

import engine
import gen
import graph
import tlc
from check import Result
import scen
import util


def describe(t):
    """One trace in a few words (evidence samples)."""
    nodes = ["%s:%s%s%s" % (n["name"], n["d"]["k"], n["pl"], "<-" + ",".join(t["nodes"][p - 1]["name"] for p in n["par"])
             if n["par"] else "") for n in t["nodes"] if n["cls"] != "const"]
    return dict(id=t["id"], model=nodes, calls=["%s(%s)" % (s["op"]["k"], s["op"]["name"]) for s in t["steps"]][:20])


def vmp(families, masked=None, clauses=None, seedmix=True):
    """Validate traces of the families.

    families: {name: (quick, thorough)} or (name, kw) keys; masked: None both,
    or True/False; clauses: names of the clauses that belong to the property
    (prefix match), None for all."""
    def job(ctx):
        tasks = []
        sd = ctx.seed * 131 + (zlib.crc32(ctx.prop.encode()) % 1000 if seedmix else 0)
        for f, n in families.items():
            name, kw = f if isinstance(f, tuple) else (f, None)
            kw = dict(kw) if kw else None
            q, t = n if isinstance(n, tuple) else (n, None)
            for i in range(ctx.n(q, t)):
                mk = (i % 3 == 2) if masked is None else masked
                tasks.append((name, i, sd, mk) + ((kw,) if kw else ()))
        return run_tasks(ctx, tasks, clauses)
    return job


BATCH = 700          # traces given to one TLC run


def util_job(quick, thorough):
    """Recorded calls of the array utilities against module Util."""
    def job(ctx):
        sd = ctx.seed * 131 + 7
        return run_tasks(ctx, [("util", i, sd, False) for i in range(ctx.n(quick, thorough))], module="UtilTrace")
    return job


def run_tasks(ctx, tasks, clauses=None, module="VMPTrace"):
    res = Result()
    fam = {}
    for k in range(0, len(tasks), BATCH):
        part = tasks[k:k + BATCH]
        outs = gen.run_many(part, f=util.run_one if module == "UtilTrace" else gen.run_one)
        traces, by = [], {}
        for t, o in zip(part, outs):
            fam[t[0]] = fam.get(t[0], 0) + 1
            if o[0] == "ok":
                o[1]["id"] += "#%d" % len(by)
                traces.append(o[1])
                by[o[1]["id"]] = (t, o[1])
            elif o[0] == "skip":
                continue
            elif clauses is None or any("raised".startswith(c) or c.startswith("raised") for c in clauses):
                res.bad.append(dict(id=o[1], sig="%s construct: %s" % (t[0], o[2]),
                                    text="%s: the library refused a well-formed model or query: %s" % (o[1], o[2]),
                                    task=list(t)))
        if not traces:
            continue
        bad, (st, ds) = tlc.check_traces(module, traces, workers=8)
        res.states += ds
        res.transitions += max(0, st - len(traces))
        res.traces += len(traces)
        for b in bad:
            id, step, op, clause, node = (list(b) + [""] * 5)[:5]
            if clauses is not None and not any(clause.startswith(c) for c in clauses):
                continue
            task, tr = by[id]
            res.bad.append(dict(id=id, sig="%s %s %s %s" % (task[0], op, clause, node),
                                text="%s step %s %s(%s): %s" % (id, step, op, node, clause),
                                task=list(task), module=module, step=int(step), clause=clause, node=node, trace=tr))
        if module == "UtilTrace":
            calls = res.extra.setdefault("calls", {})
            for t in traces:
                for s in t["steps"]:
                    calls[s["f"]] = calls.get(s["f"], 0) + 1
            res.samples = res.samples or [dict(id=t["id"], calls=["%s%s%s" % (s["f"], [a["sh"] for a in s["a"]], s["p"])
                                               for s in t["steps"]]) for t in traces[:2]]
        elif len(res.samples) < 3:
            res.samples += [describe(t) for t in traces[::max(1, len(traces) // 3)]][:3]
    res.extra["families"] = fam
    return res


def replay(ctx, path):
    """Run the recorded scenario again on the current tree."""
    r = json.load(open(path))
    if "behaviour" in r:
        o = (graph if r.get("module") == "graph" else engine)._safe(r["behaviour"])
        print("behaviour call %d %s: %s" % o if o else "not reproduced")
        return 1 if o else 0
    if "task" not in r:
        print("this replay file has no scenario; see its text")
        print(r["text"])
        return 1
    t = tuple(r["task"])
    res = run_tasks(ctx, [t], None, r.get("module", "VMPTrace"))
    for b in res.bad:
        print(b["text"])
    print("reproduced" if res.bad else "not reproduced")
    return 1 if res.bad else 0


ALL = ["normal", "ard", "wishart", "convert", "gammas", "counts", "latent_counts", "gaussgamma", "mixture", "mixture_cp",
       "mixture_latent", "mixture2", "pca", "summul", "add", "concatg", "gate", "choose", "slice", "take",
       "concat", "cmc", "gmc", "varying", "switching", "ggauss", "mixcounts", "multimix", "gnd"]

VALUE = ["moments", "parameters", "deterministic", "state unreadable", "raised", "accepted", "observed"]
NUM = ["real numbers are IEEE doubles, compared with relative tolerance 1e-6 (1e-5 for Gaussian chains)",
       "TLC, the Java evaluation of module F64, NumPy linear algebra used by the recorder only to copy arrays"]


def fam(names, q, t=None):
    return {n: (q, t) for n in names}


LIB = ["moments", "parameters", "deterministic", "state unreadable", "raised", "accepted", "observed", "bound",
       "total bound", "log density", "natural gradient", "get_moments"]          # everything
PLATED = ["normal", "ard", "wishart", "convert", "gammas", "counts", "gaussgamma", "mixture", "pca", "summul", "add", "concatg",
          "gate", "choose", "slice", "gnd"]

PROPS = {
    "P01": [vmp(fam(ALL, 45, 300), clauses=VALUE), vmp(fam(["bias"], 150, 1500), clauses=VALUE)],
    "P02": [vmp(fam(ALL, 24, 200), clauses=["bound", "total bound", "raised"]),
            vmp(fam(["life"], 40, 600), clauses=["bound", "total bound", "raised"])],
    "P03": [vmp(fam(ALL, 24, 200), clauses=["bound decreased", "bound unreadable", "raised"])],
    "P04": [vmp(fam(PLATED, 40, 300))],
    "P05": [vmp(fam(ALL, 36, 240), masked=True)],
    "P06": [vmp(fam(["life"], 400, 3000))],
    "P07": [vmp(fam(["pca", "summul", "add", "concatg"], 180, 1200))],

    "P08": [vmp(fam(["ggauss"], 250, 2500)), vmp(fam(["gaussgamma"], 80, 600)),
            vmp({("life", (("base", "ggauss"),)): (60, 800)})],
    "P09": [vmp(fam(["slice", "take", "concat"], 180, 1800))],
    "P10": [vmp(fam(["mixture", "mixture_cp", "mixture_latent", "mixture2", "gate", "choose", "mixcounts", "multimix"], 130, 900))],
    "P11": [vmp(fam(["cmc"], 350, 3000))],
    "P12": [vmp(fam(["gmc", "varying", "switching"], 120, 800))],
    "P13": [engine.job(),
            vmp(fam(["normal", "pca", "mixture", "gmc"], 25, 300),
                clauses=["bound recorded", "total bound recorded", "history", "raised"])],
    "P14": [vmp(fam(["persist"], 300, 4000)),
            engine.job(kinds=["save", "load", "autosave", "file", "fresh", "userdata", "update"], exhaustive=False)],
    "P15": [vmp(fam(["grad", "svi"], 220, 2000)), vmp(fam(["bias"], 60, 600))],
    "P16": [vmp(fam(["turn"], 120, 1500)), vmp(fam(["rotopt"], 110, 1200), masked=False)],
    "P18": [vmp(fam(["query"], 800, 8000))],
    "P19": [graph.job(only=["accepted", "refused", "has changed"])],
    "P23": [graph.job(never=["accepted", "has changed"])],
    "P20": [util_job(5000, 40000)],
    "P21": [vmp(fam(["point"], 1200, 10000))],
    "P17": [vmp(fam(["optim"], 400, 5000))],
}


def selftest():
    """TLC works, and its Java evaluation of reals and arrays agrees with the
    definitions (spec/SelfTest.tla)."""
    rc, out = tlc.run("SelfTest")
    if rc or out.count(', TRUE>>') != 5 or "FALSE" in out:
        print(out)
        return 2
    print("self test passed")
    return 0
