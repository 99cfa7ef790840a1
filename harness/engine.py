"""Plays behaviours generated by TLC from spec/Engine.tla on the real engine."""
import contextlib
import io
import json
import math
import os
import re
import shutil
import sys
import tempfile
import warnings

import numpy as np

import gen
import tlc
from check import Result

FREE, NAN, NINF = 1000002, 1000001, -1000001


def val(x):
    return math.nan if x == NAN else (-math.inf if x == NINF else float(x))


def same(x, got):
    """a specified number and an observed one"""
    if x == FREE:
        return True
    v = val(x)
    got = float(got)
    return (math.isnan(v) and math.isnan(got)) or v == got


class Player:
    def __init__(self, tol, dir):
        self.dir = dir
        self.tol = tol
        self.times = {}
        self.ticks, self.plots = 0, []
        self.fresh()

    def fresh(self, op=None):
        op = op or {}
        from bayespy.nodes import GaussianARD
        from bayespy.inference import VB
        P = self

        class Scripted(GaussianARD):
            def update(self, *args, **kw):
                P.tick += 1
                P.order.append(self.name)
                if P.script is not None:
                    k = (P.tick - P.start - 1) // P.width
                    P.pair = P.script[min(k, len(P.script) - 1)]
                self.initialize_from_value(float(P.tick))

            def lower_bound_contribution(self, *args, **kw):
                return np.float64(val(P.pair[0 if self.name == "a" else 1]))

        self.tick, self.order, self.script, self.pair, self.cb = 0, [], None, (0, 0), 0
        self.a = Scripted(0, 1, name="a",
                          plotter=lambda X, fig=None: P.plots.append(float(np.ravel(X.get_moments()[0])[0])))
        self.b = Scripted(0, 1, name="b")
        self.a.initialize_from_value(0.0)
        self.b.initialize_from_value(0.0)
        self.foreign = GaussianARD(0, 1, name="foreign")
        self.Q = VB(self.a, self.b, self.a, tol=self.tol / 1000,
                    **({} if not op.get("cb") else dict(callback=self.callback(op["cb"]))),
                    **({} if not op.get("f") else dict(autosave_filename=self.path(op["f"]))),
                    **({} if not op.get("every") else dict(autosave_iterations=op["every"])),
                    **({} if not op.get("ud") else dict(user_data=dict(x=op["ud"], y=[1.5, 2.5]))))
        self.nodes = {"a": self.a, "b": self.b}

    def node(self, w):
        return w[1:] if w[0] == "#" else self.nodes[w]

    def callback(self, v):
        return {0: None, 1: lambda: 10000 + self.tick, 2: lambda: None,
                3: lambda: np.array([30000 + self.tick, -1.0])}[v]

    def path(self, f):
        return os.path.join(self.dir, "file%d.hdf5" % f)

    def bar(self, *args, **kw):
        """stands for a progress bar"""
        P = self

        class Bar:
            def update(self, n=1):
                P.ticks += n

            def close(self):
                pass
        return Bar()

    def curves(self, diff):
        """the curves drawn for the history: node -> values"""
        from matplotlib.figure import Figure
        ax = Figure().add_subplot()
        self.Q.plot_iteration_by_nodes(axes=ax, diff=diff)
        names = [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []
        lines = [(np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True))) for l in ax.get_lines()]
        if len(names) != len(lines):
            return "%d names for %d curves" % (len(names), len(lines))
        return dict(zip(names, lines))

    def wrong_curves(self, res, exp, diff):
        if not isinstance(res, dict) or sorted(res) != ["a", "b"]:
            return "curves %s" % (res,)
        for w, l in (("a", exp["la"]), ("b", exp["lb"])):
            if FREE in l:
                continue
            x, y = res[w]
            l = np.array([val(z) for z in l], dtype=float)
            with np.errstate(all="ignore"):
                want = np.diff(l) if diff else l
            n = len(want)
            if len(y) < n or not np.all((y[:n] == want) | (np.isnan(y[:n]) & np.isnan(want))) \
                    or not np.all(np.isnan(y[n:])):
                return "curve of %s %s, not %s" % (w, y, want)
            if list(x[:n]) != [i + (2 if diff else 1) for i in range(n)]:
                return "curve of %s over %s" % (w, x[:n])

    def call(self, op):
        """Returns (printed iteration numbers, decrease warnings, result, error)"""
        k, Q = op["k"], self.Q
        self.ticks, self.plots = 0, []
        out = io.StringIO()
        res, err = None, ""
        with warnings.catch_warnings(record=True) as wl, contextlib.redirect_stdout(out), np.errstate(all="ignore"):
            warnings.simplefilter("always")
            try:
                if k == "update":
                    ns = [self.node(w) for w in op["ns"]]
                    self.script, self.start, self.width = op["script"] or None, self.tick, max(1, len(ns)) if ns else 2
                    kw = {}
                    w = op.get("w", 0)
                    if w == 1:
                        kw["tqdm"] = self.bar
                    elif w:
                        kw["plot"] = {2: True, 3: [self.b, "a"], 4: ["b"]}[w]
                    if op["tol"] != FREE:
                        kw["tol"] = op["tol"] / 1000
                    Q.update(*ns, repeat=None if op["rep"] == FREE else op["rep"], **kw)
                    self.script = None
                elif k == "annealing":
                    Q.set_annealing(op["v"] / 1000)
                elif k == "ignore":
                    Q.ignore_bound_checks = op["v"]
                elif k == "callback":
                    Q.set_callback(self.callback(op["v"]))
                elif k == "autosave":
                    Q.set_autosave(self.path(op["f"]), nodes=[self.node(w) for w in op["ns"]] or None,
                                   **({} if op["every"] == FREE else dict(iterations=op["every"])))
                elif k == "save":
                    Q.save(*[self.node(w) for w in op["ns"]], **(dict(filename=self.path(op["f"])) if op["f"] else {}))
                elif k == "load":
                    Q.load(*[self.node(w) for w in op["ns"]], filename=self.path(op["f"]), nodes_only=op["only"])
                elif k == "fresh":
                    self.fresh(op)
                elif k == "userdata":
                    from bayespy.inference import VB
                    d = VB.load_user_data(self.path(op["f"]))
                    res = "user data %s" % d
                    if sorted(d) == ["x", "y"] and list(d["y"]) == [1.5, 2.5]:
                        res = float(d["x"])
                elif k == "bound":
                    self.pair = op["p"]
                    res = Q.compute_lowerbound()
                    t = Q.compute_lowerbound_terms()
                    if not (same(op["p"][0], t[self.a]) and same(op["p"][1], t[self.b])):
                        res = "terms %s" % t
                elif k == "history":
                    res = self.curves(op["diff"])
                elif k == "plot":
                    Q.plot(*[self.node(w) for w in op["ns"]])
                elif k == "reject":
                    Q.update("zzz" if op["w"] == "name" else self.foreign)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:100])
        pr = [int(x) for x in re.findall(r"Iteration (\d+)", out.getvalue())]
        w = sum(1 for x in wl if issubclass(x.category, UserWarning))
        return pr, w, res, err

    def diff(self, exp, ignore_order=False):
        """First observation that differs from the expected ones"""
        Q, n = self.Q, exp["it"]
        if int(Q.iter) != n:
            return "iteration count %s, not %d" % (Q.iter, n)
        for what, want, got in (("bound", exp["L"], Q.L), ("bound of a", exp["la"], Q.l[self.a]),
                                ("bound of b", exp["lb"], Q.l[self.b])):
            got = np.asarray(got)
            if len(got) < n or not all(same(x, y) for x, y in zip(want, got[:n])):
                return "%s history %s, not %s" % (what, got[:n], want)
            if FREE not in want and not np.all(np.isnan(got[n:])):
                return "%s history goes on after the last iteration: %s" % (what, got[:n + 3])
        c = np.asarray(Q.cputime)
        if len(c) < n or not np.all(c[:n] >= 0) or not np.all(np.isnan(c[n:])):
            return "times %s" % c[:n + 1]
        for i, t in enumerate(exp["times"]):
            if self.times.setdefault(t, c[i]) != c[i]:
                return "time of iteration %d is %s, not %s" % (i + 1, c[i], self.times[t])
        if bool(Q.converged) != exp["conv"] or bool(Q.has_converged()) != exp["conv"]:
            return "converged %s, not %s" % (Q.converged, exp["conv"])
        o = Q.callback_output
        if not exp["out"]:
            if o is not None:
                return "callback output %s, not empty" % o
        else:
            o = np.asarray(o)
            first = o[0] if exp["out"][0] >= 30000 else o
            if list(np.atleast_1d(first)) != exp["out"] or (exp["out"][0] >= 30000 and o.shape != (2, len(exp["out"]))):
                return "callback output %s, not %s" % (o, exp["out"])
        for w, x in (("a", exp["a"]), ("b", exp["b"])):
            if float(np.ravel(self.nodes[w].get_moments()[0])[0]) != x:
                return "state of node %s is %s, not %s" % (w, self.nodes[w].get_moments()[0], x)
            if "temp" in exp and float(self.nodes[w].annealing) != exp["temp"] / 1000:
                return "temperature of node %s is %s, not %s" % (w, self.nodes[w].annealing, exp["temp"] / 1000)
        if not ignore_order and self.order != exp["order"]:
            return "updates %s, not %s" % (self.order, exp["order"])
        return None


def play(b):
    """Play one behaviour; returns None or (step, call, what)."""
    dir = tempfile.mkdtemp(prefix="eng_")
    try:
        p = Player(b["tol"], dir)
        for i, s in enumerate(b["log"]):
            op, exp, x = s["op"], s["exp"], s["x"]
            pr, w, res, err = p.call(op)
            if bool(err) != x["err"]:
                return (i + 1, op, err or "was not refused")
            d = p.diff(exp)
            if d:
                return (i + 1, op, d)
            if pr != x["printed"]:
                return (i + 1, op, "reported iterations %s, not %s" % (pr, x["printed"]))
            if w != x["warned"]:
                return (i + 1, op, "%d warnings of a decreasing bound, not %d" % (w, x["warned"]))
            if p.ticks != x["ticks"] or p.plots != x["plots"]:
                return (i + 1, op, "%d ticks and plots %s, not %d and %s" % (p.ticks, p.plots, x["ticks"], x["plots"]))
            if op["k"] == "history":
                d = p.wrong_curves(res, exp, op["diff"])
                if d:
                    return (i + 1, op, d)
            if op["k"] in ("bound", "userdata") and not err and not (isinstance(res, float) and same(x["res"], res)):
                return (i + 1, op, "result %s, not %s" % (res, x["res"]))
        # the files
        for f, z in enumerate(b["files"]):
            if z:
                p.fresh()
                p.call(dict(k="load", f=f + 1, ns=z["ns"], only=False))
                exp = dict(z, order=[], a=z["a"] if "a" in z["ns"] else 0, b=z["b"] if "b" in z["ns"] else 0)
                if "a" not in z["ns"]:
                    exp["la"] = [FREE] * z["it"]
                if "b" not in z["ns"]:
                    exp["lb"] = [FREE] * z["it"]
                d = p.diff(exp)
                if d:
                    return (len(b["log"]) + 1, dict(k="file", f=f + 1), d)
            elif os.path.exists(p.path(f + 1)):
                return (len(b["log"]) + 1, dict(k="file", f=f + 1), "file was written")
        return None
    finally:
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
        shutil.rmtree(dir, ignore_errors=True)


def _safe(b):
    try:
        with gen.deadline(30):
            return play(b)
    except gen.Skip:
        return None
    except gen.Hang:
        return (0, dict(k="update"), "does not come to an end")


def behaviours(cfg, args=(), workers=8):
    rc, out = tlc.run("Engine", cfg=cfg, workers=workers, args=args)
    if "Error" in out or (rc != 0):
        raise tlc.Machinery("Engine.tla: exit %d\n%s" % (rc, out[-3000:]))
    bs, seen = [], set()
    for line in out.splitlines():
        if line.startswith('<<"BEHAVIOUR", '):
            if line in seen:
                continue
            seen.add(line)
            bs.append(json.loads(json.loads(line[len('<<"BEHAVIOUR", '):-2])))
    m = re.search(r"(\d+) states checked|number of states generated: (\d+)", out)
    st = tlc.stats(out)
    n = max(st[1], max([int(x) for x in re.findall(r"(\d+) states checked", out)] or [0]))
    return bs, n


def job(kinds=None, sims=(400, 6000), exhaustive=True):
    """kinds: only failures at calls of these kinds belong to the property"""
    def run(ctx):
        res = Result()
        allb = []
        if exhaustive:
            bs, n = behaviours("Engine")
            allb += bs
            res.states += n
            res.extra["exhaustive_behaviours"] = len(bs)
        bs, n = behaviours("EngineSim", args=["-simulate", "num=%d" % ctx.n(*sims), "-depth", "80",
                                              "-seed", str(ctx.seed), "-aril", "0"])
        res.states += n
        allb += bs
        res.extra["simulated_behaviours"] = len(bs)
        outs = gen.run_many(allb, f=_safe)
        res.traces += len(allb)
        res.transitions += sum(len(b["log"]) for b in allb)
        for i, (b, o) in enumerate(zip(allb, outs)):
            if o is not None:
                k = o[1]["k"]
                if kinds is not None and k not in kinds:
                    continue
                res.bad.append(dict(id="engine.%d" % i, sig="engine %s: %s" % (k, o[2]),
                                    text="behaviour %d call %d %s: %s" % (i, o[0], json.dumps(o[1]), o[2]),
                                    behaviour=b))
        for b in allb[-2:]:
            res.samples.append(dict(calls=[s["op"] for s in b["log"]]))
        return res
    return run
