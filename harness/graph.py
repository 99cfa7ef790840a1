"""Plays behaviours generated by TLC from spec/Graph.tla on the real node classes."""
import contextlib
import io
import json
import re
import warnings
import zlib

import numpy as np

import gen
import tlc
from check import Result


def arr(sh, f=lambda k: 0.3 + 0.37 * ((7 * k) % 5)):
    sh = tuple(sh)
    n = int(np.prod(sh, dtype=int))
    return np.array([f(k) for k in range(n)], dtype=float).reshape(sh)


def spoiled(good, bad, plates):
    """good everywhere but in the last element, which is bad"""
    y = np.array(good, dtype=np.result_type(good, bad))
    last = (-1,) * len(plates)
    y[last] = np.asarray(bad)[last]
    return y


def const(a):
    """the array of a constant argument"""
    if a["bad"] and a["k"] != "trials":
        return spoiled(_const(dict(a, bad=False)), _const(a), a["pl"])
    return _const(a)


def _const(a):
    k, s, pl, bad = a["k"], tuple(a["s"]), tuple(a["pl"]), a["bad"]
    if k == "gauss":
        return arr(pl + s)
    if k in ("gamma", "ga"):
        x = arr(pl)
        return x - 1.9 if bad else x
    if k == "wn":
        return 3.5 + arr(pl)
    if k == "wish":
        x = np.ones(pl)[..., None, None] * (np.identity(s[0]) + 0.3)
        return -x if bad else x
    if k == "conc":
        x = arr(pl + s)
        return x - 1.9 if bad else x
    if k == "dir":
        x = arr(pl + s)
        x = x / x.sum(axis=-1, keepdims=True)
        return x * 1.4 if bad else x
    if k == "beta":
        x = 0.1 + 0.4 * arr(pl)
        return x + 1 if bad else x
    if k == "trials":
        return 2.5 if bad and s[0] == 2 else a["q"]
    if k == "cat":
        x = arr(pl, lambda k: (k * k + 1) % s[0]).astype(int)
        return x + s[0] if bad else x
    raise ValueError(k)


def data(n, sh, bad):
    """observations of a node (in the specification's words); bad: 1-3 out of the support"""
    if bad:
        return spoiled(_data(n, sh, 0), _data(n, sh, bad), n["pl"])
    return _data(n, sh, 0)


def _data(n, sh, bad):
    k, s, q, sh = n["k"], n["s"], n["q"], tuple(sh)
    if k == "gauss":
        return arr(sh) - 0.8
    if k in ("gamma",):
        x = arr(sh)
        if bad:
            x[(-1,) * x.ndim] = (-0.5, -1e-3, -7.0)[bad - 1]
        return x
    if k == "wish":
        D = s[0]
        x = np.ones(sh[:-2])[..., None, None] * (np.identity(D) * 1.4 - 0.2) if sh[-2:] == (D, D) else np.ones(sh)
        if bad:
            x[..., 0, 0] = (-1.0, -2.0, -0.1)[bad - 1]
        return x
    if k == "dir":
        x = arr(sh)
        x = x / x.sum(axis=-1, keepdims=True)
        if bad:
            x = (x * 0.9, x + np.array([0.4] + (sh[-1] - 2) * [0] + [-0.4]) * 3, x + 0.02)[bad - 1]
        return x
    if k == "beta":
        x = 0.1 + 0.4 * arr(sh)
        if bad:
            x[(-1,) * x.ndim] = (-0.1, 1.1, 2.0)[bad - 1]
        return x
    if k in ("cat", "binom", "pois"):
        K = {"cat": s[0] - 1 if s else 0, "binom": q, "pois": 5}[k]
        x = arr(sh, lambda j: (j * j + j + 1) % (K + 1))
        x = x if bad == 3 else x.astype(int)
        if bad:
            x[(-1,) * x.ndim] = (-1, {"cat": K + 1, "binom": K + 1, "pois": -2}[k], 0.5)[bad - 1]
        return x
    if k == "multi":
        x = np.zeros(sh)
        x[..., -1] = q - 1
        x[..., 0] += 1
        x = x if bad == 3 else x.astype(int)
        if bad:
            x[..., 0] += (-2, 1, 0.5)[bad - 1]
            if bad != 2:
                x[..., -1] += (2, 0, -0.5)[bad - 1]
        return x
    raise ValueError(k)


def pattern(ms, pat):
    ms = tuple(ms)
    m = np.zeros(ms, dtype=bool)
    for ix in np.ndindex(*ms):
        m[ix] = (True, False, sum(ix) % 2 == 0, sum(ix) % 3 != 0)[pat]
    return m


def build(x, nodes):
    """the constructor call of a specification's node (or make operation)"""
    from bayespy import nodes as B
    t, o = x["t"], x["o"]
    a = [nodes[y["n"] - 1] if y["n"] else const(y) for y in x["a"]]
    kw = {}
    if x["given"] != [-1]:
        kw["plates"] = tuple(x["given"])
    if x["name"]:
        kw["name"] = x["name"]
    if t == "gamma":
        return B.Gamma(*a, **kw)
    if t == "ard":
        if o["shape"] != "no":
            kw["shape"] = tuple(o["sh"])
        if o["ndim"] != "no":
            kw["ndim"] = o["nd"]
        return B.GaussianARD(*a, **kw)
    if t == "gaussian":
        return B.Gaussian(*a, **kw)
    if t == "wishart":
        return B.Wishart(*a, **kw)
    if t == "dirichlet":
        return B.Dirichlet(*a, **kw)
    if t == "beta":
        return B.Beta(*a, **kw)
    if t == "cat":
        return B.Categorical(*a, **kw)
    if t == "bern":
        return B.Bernoulli(*a, **kw)
    if t == "binom":
        return B.Binomial(*a, **kw)
    if t == "multi":
        return B.Multinomial(*a, **kw)
    if t == "pois":
        return B.Poisson(*a, **kw)
    if t == "mix":
        cls = {"ard": B.GaussianARD, "gaussian": B.Gaussian, "gamma": B.Gamma, "pois": B.Poisson, "cat": B.Categorical}[o["of"]]
        return B.Mixture(a[0], cls, *a[1:], **kw)
    if t == "cmc":
        return B.CategoricalMarkovChain(*a, **({"states": o["len"]} if o["len"] else {}), **kw)
    if t == "gmc":
        return B.GaussianMarkovChain(*a, **({"n": o["len"]} if o["len"] else {}), **kw)
    if t == "gg":
        return B.GaussianGamma(*a, **kw)
    if t == "add":
        return B.Add(*a, **kw)
    if t == "dot":
        return B.SumMultiply(",".join("i" * len(a)), *a, **kw)
    if t == "gate":
        return B.Gate(*a, **kw)
    if t == "concat":
        return B.Concatenate(*a, axis=o["axis"], **kw)
    if t == "cgauss":
        return B.ConcatGaussian(*a, **kw)
    if t == "take":
        return B.Take(a[0], o["ind"], plate_axis=o["axis"], **kw)
    if t == "slice":
        ix = {"new": None, "int": o["i"], "range": slice(o["i"], None, o["step"])}[o["ix"]]
        return a[0][(Ellipsis, ix) if o["end"] else ix]
    raise ValueError(t)


def dims(n):
    k, s, q = n["k"], tuple(n["s"]), n["q"]
    return {"gauss": (s, s + s), "gamma": ((), ()), "wish": (s + s, ()), "dir": (s,), "beta": ((2,),), "cat": (s,),
            "binom": ((),), "multi": (s,), "pois": ((),), "gg": (s, s + s, (), ()),
            "gchain": ((q,) + s, (q,) + s + s, (q - 1,) + s + s), "cchain": (s, (q - 1,) + s + s)}[k]


class Player:
    def __init__(self):
        self.nodes = []     # real nodes (None: deleted)
        self.desc = []      # as the specification describes them

    def call(self, op):
        k = op["k"]
        if k == "make":
            n = build(op, self.nodes)
            self.nodes.append(n)
        elif k == "observe":
            x = self.nodes[op["i"] - 1]
            x.observe(data(self.desc[op["i"] - 1], op["sh"], op["bad"]), mask=pattern(op["ms"], op["pat"]))
        elif k == "unobserve":
            self.nodes[op["i"] - 1].unobserve()
        elif k == "delete":
            self.nodes[op["i"] - 1].delete()
        elif k == "update":
            self.nodes[op["i"] - 1].update()
        elif k == "init":
            d = self.desc[op["i"] - 1]
            self.nodes[op["i"] - 1].initialize_from_value(data(d, op["sh"], 0))
        elif k == "engine":
            from bayespy.inference import VB
            ns = [self.nodes[i - 1] for i in op["ns"]]
            Q = VB(*(ns + ns[::-1]))
            if len(Q.model) != len(ns) or any(x is not y for x, y in zip(Q.model, ns)):
                raise AssertionError("engine: model %s instead of %s" % (Q.model, ns))
            for n, name in zip(ns, op["names"]):
                if Q[n] is not n or (name and Q[name] is not n):
                    raise AssertionError("engine: node not found by name %r" % name)
            for w in ("no such name", self.nodes):
                try:
                    Q[w]
                except Exception:
                    pass
                else:
                    raise AssertionError("engine: found a node that is not there")
            try:
                VB(ns[0], 3.0)
            except Exception:
                pass
            else:
                raise AssertionError("engine: accepts numbers as nodes")
        else:
            raise ValueError(k)

    def state(self):
        """copies of everything numerical"""
        out = []
        for n, d in zip(self.nodes, self.desc):
            if d["alive"]:
                u = [np.array(x, dtype=float) for x in n.get_moments()]
                if d["st"]:
                    u += [np.array(x, dtype=float) for x in n.phi] + [np.array(n.observed), np.array(n.g), np.array(n.f)]
                out.append(u)
        return out

    def check(self):
        for i, (n, d) in enumerate(zip(self.nodes, self.desc)):
            if not d["alive"]:
                continue
            w = "node %d (%s): " % (i + 1, d["k"])
            pl = tuple(d["pl"])
            if tuple(n.plates) != pl:
                return w + "plates %s, not %s" % (n.plates, pl)
            if tuple(map(tuple, n.dims)) != dims(d):
                return w + "dims %s, not %s" % (n.dims, dims(d))
            for j, dj in enumerate(dims(d)):
                if tuple(n.get_shape(j)) != pl + dj:
                    return w + "shape %s of moment %d" % (n.get_shape(j), j)
            for what, got, want in ([("elements that take part", n.get_mask(), d["mask"])] +
                                    ([("observed elements", n.observed, d["obs"])] if d["st"] else [])):
                m = np.zeros(pl, dtype=bool)
                for ix in want:
                    m[tuple(ix)] = True
                try:
                    got = np.broadcast_to(got, pl)
                except ValueError:
                    return w + "%s have shape %s, plates %s" % (what, np.shape(got), pl)
                if np.any(got != m):
                    return w + "%s: %s, not %s" % (what, got.astype(int).tolist(), m.astype(int).tolist())
            got = {id(x) for x in n.get_pdf_nodes()}
            if got != {id(self.nodes[j - 1]) for j in d["pdf"]}:
                return w + "nearest stochastic nodes are not %s" % d["pdf"]
        return None

    def settle(self):
        for n, d in zip(self.nodes, self.desc):
            if d["alive"] and d["st"]:
                n.initialize_from_prior()
        for _ in range(2):
            for n, d in zip(self.nodes, self.desc):
                if d["alive"] and d["st"]:
                    n.update()

    def outcome(self):
        out = []
        for n, d in zip(self.nodes, self.desc):
            if d["alive"]:
                out.append([np.array(x, dtype=float) for x in n.get_moments()] +
                           ([np.array(n.lower_bound_contribution())] if d["st"] else []))
        return out


def same(x, y, tol):
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        try:
            if len(a) != len(b) or not all(np.allclose(*np.broadcast_arrays(p, q), rtol=tol, atol=tol, equal_nan=True) for p, q in zip(a, b)):
                return False
        except ValueError:
            return False
    return True


def play(b):
    """Play one behaviour; returns None or (step, call, what)."""
    p = Player()
    for i, s in enumerate(b["log"]):
        op = s["op"]
        before = p.state() if not s["ok"] or op["k"] in ("make", "engine") else None
        err = None
        try:
            p.call(op)
        except gen.Hang:
            raise
        except AssertionError as e:
            return (i + 1, op, str(e))
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, str(e)[:200])
        if s["ok"] and err:
            return (i + 1, op, "refused: " + err)
        if not s["ok"] and not err:
            return (i + 1, op, "accepted")
        if before is not None:
            if not same(before, p.state(), 0):
                return (i + 1, op, "has changed other nodes")
        p.desc = s["obs"]
        d = p.check()
        if d:
            return (i + 1, op, d)
    # the same state, reached directly
    n = len(b["log"])
    try:
        p.settle()
        x = p.outcome()
    except gen.Hang:
        raise
    except Exception as e:
        return (n, dict(k="settle"), "%s: %s" % (type(e).__name__, str(e)[:200]))
    t = Player()
    t.desc = p.desc
    for d in b["final"]:
        t.nodes.append(build(d, t.nodes) if d["alive"] else None)
    for d, real in zip(b["final"], t.nodes):
        if d["alive"] and "ms" in d["how"]:
            sh = d["pl"] + (d["s"] + d["s"] if d["k"] == "wish" else [] if d["k"] == "cat" else d["s"])
            real.observe(data(d, sh, 0), mask=pattern(d["how"]["ms"], d["how"]["pat"]))
    t.settle()
    y = t.outcome()
    if not same(x, y, 1e-6):
        return (n, dict(k="settle"), "differs from the same graph built directly: %s" % [
            i + 1 for i, (a, c) in enumerate(zip(x, y)) if not same([a], [c], 1e-6)])
    return None


def _safe(b):
    try:
        with gen.deadline(60), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return play(b)
    except gen.Skip:
        return None
    except gen.Hang:
        return (0, dict(k="?"), "does not come to an end")


def signature(o):
    """what failed, without numbers"""
    op = o[1]
    return "graph %s %s: %s" % (op["k"], op.get("t", ""), o[2])


def behaviours(num, seed):
    """num behaviours generated by TLC (in several runs, so that they depend on the seed only)"""
    from multiprocessing.pool import ThreadPool
    k = 8

    def one(j):
        rc, out = tlc.run("Graph", workers=1, heap="2g",
                          args=["-simulate", "num=%d" % -(-num // k), "-depth", "80", "-seed", str(seed * 1000 + j), "-aril", "0"])
        if "Error" in out or rc != 0:
            raise tlc.Machinery("Graph.tla: exit %d\n%s" % (rc, out[-3000:]))
        return out
    with ThreadPool(k) as p:
        outs = p.map(one, range(k))
    bs, n = [], 0
    for out in outs:
        bs += [json.loads(json.loads(l[len('<<"BEHAVIOUR", '):-2])) for l in out.splitlines() if l.startswith('<<"BEHAVIOUR", ')]
        n += max([int(x) for x in re.findall(r"(\d+) states checked", out)] or [0])
    return bs, n


def job(num=(2400, 24000), only=None, never=()):
    """only: beginnings of the discrepancies that belong to the property (None: all); never: of those that do not"""
    def run(ctx):
        res = Result()
        bs, n = behaviours(ctx.n(*num), ctx.seed * 13 + zlib.crc32(ctx.prop.encode()) % 1000)
        res.states += n
        outs = gen.run_many(bs, f=_safe)
        res.traces += len(bs)
        res.transitions += sum(len(b["log"]) for b in bs)
        calls = res.extra.setdefault("calls", {})
        for b in bs:
            for s in b["log"]:
                k = "%s %s %s" % (s["op"]["k"], s["op"].get("t", ""), "done" if s["ok"] else "refused")
                calls[k] = calls.get(k, 0) + 1
        for i, (b, o) in enumerate(zip(bs, outs)):
            if o is None or (only and not any(o[2].startswith(w) for w in only)) or any(o[2].startswith(w) for w in never):
                continue
            res.bad.append(dict(id="graph.%d" % i, sig=signature(o), module="graph",
                                text="behaviour %d call %d %s: %s" % (i, o[0], json.dumps(o[1]), o[2]), behaviour=b))
        for b in bs[:2]:
            res.samples.append(dict(calls=[dict(s["op"], ok=s["ok"]) for s in b["log"]]))
        return res
    return run
