"""Builds a BayesPy model and, next to it, its description for the
specification; runs public calls on it and records what the library did.

The description (nodes with plates, shapes, parents) is written from the call
the user makes, never read back from the library objects, so that plates,
shapes and conversions the library infers are checked as well."""
import contextlib
import copy
import io
import os
import shutil
import tempfile
import time
import zlib

import numpy as np
import bayespy.nodes as bn
from bayespy.inference import VB


def num(x):
    x = float(x)
    if np.isnan(x):
        return "nan"
    if np.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def nums(a):
    return " ".join(num(x) for x in np.asarray(a, dtype=float).ravel())


def params(h):
    """natural parameters; point estimates have none"""
    return [np.zeros(d) for d in h.dims] if h.j["d"]["k"] in POINT else h.node.phi


POINT = ("GammaShape", "Concentration")


class H:
    """Handle of a node: the library object and its description."""
    view = False

    def __init__(self, model, i, node, j):
        self.m, self.i, self.node, self.j = model, i, node, j

    pl = property(lambda s: tuple(s.j["pl"]))
    S = property(lambda s: tuple(s.j["S"]))
    dims = property(lambda s: [tuple(x) for x in s.j["dims"]])
    name = property(lambda s: s.j["name"])


def bshape(*shapes):
    return tuple(np.broadcast_shapes(*shapes))


class Model:
    BIAS = None          # gives the phi_bias of a new node

    def __init__(self, id, rtol=1e-6, atol=1e-8):
        self.id, self.rtol, self.atol = id, rtol, atol
        self.hs = []
        self.steps = []
        self.init = None
        self.Q = None
        self.fatal = None
        self._last = None
        self._dir = None
        self.rebuild = None

    # ------------------------------------------------------------ description
    def _add(self, node, cls, d, par, pl, S, dims, name="", init=True, w=1.0, **kw):
        i = len(self.hs) + 1
        j = dict(name=name or "n%d" % i, d=d, par=[p.i for p in par], pl=list(pl), S=list(S),
                 dims=[list(x) for x in dims], cls=cls, w=num(w), init=bool(init), val="", vlen=1, bias=[])
        j.update(kw)
        h = H(self, i, node, j)
        self.hs.append(h)
        return h

    def const(self, k, x, nd=0, **d):
        """Constant x with nd variable axes, in the role k."""
        x = np.asarray(x, dtype=float)
        sh = x.shape
        pl, S = (sh[:len(sh) - nd], sh[len(sh) - nd:])
        dims = const_dims(k, S, d)
        return self._add(None, "const", dict(k=k, **d), [], pl, S, dims,
                         val=nums(x), vlen=int(np.prod(S, dtype=int)))

    def _par(self, p, k, nd=0, **d):
        """A parent given by the user: a handle, or a value."""
        if isinstance(p, H):
            return p, p.node
        h = self.const(k, p, nd, **d)
        return h, p

    def stoch(self, cls, d, par, pl, S, dims, args, kw, name=None, **extra):
        name = name or "n%d" % (len(self.hs) + 1)
        kw = dict(kw)
        if not extra.get("init", True):
            kw["initialize"] = False
        w = 1.0
        pm = extra.pop("mult", None)
        if pm is not None:
            kw["plates_multiplier"] = tuple(pm)
            w = float(np.prod(pm))
        w = extra.pop("w", w)          # inherited from the parents
        if Model.BIAS is not None:
            pb = Model.BIAS(d, len(self.hs), tuple(pl), tuple(S), [tuple(x) for x in dims])
            if pb is not None:
                kw["phi_bias"] = pb
                extra["bias"] = [nums(np.broadcast_to(b, tuple(pl) + tuple(x))) for b, x in zip(pb, dims)]
        node = cls(*args, name=name, **kw)
        return self._add(node, "stoch", d, par, pl, S, dims, name=name, w=w, **extra)

    # ------------------------------------------------------------ stochastic
    def GaussianARD(self, mu, alpha, shape=(), plates=(), name=None, give=True, **x):
        """give: pass plates and shape explicitly (else the library infers)"""
        shape, plates = tuple(shape), tuple(plates)
        hm, m = self._par(mu, "Gaussian")
        ha, a = self._par(alpha, "Gamma")
        kw = {}
        if give:
            kw = dict(shape=shape, plates=plates)
        return self.stoch(bn.GaussianARD, dict(k="GaussianARD"), [hm, ha], plates, shape,
                          [shape, shape + shape], [m, a], kw, name, **x)

    def Gaussian(self, mu, Lam, plates=(), name=None, give=True, ndim=1, **x):
        hl, L = self._par(Lam, "Wishart", 2 * ndim)
        S = hl.dims[0][:ndim]
        hm, m = self._par(mu, "Gaussian", ndim)
        kw = dict(plates=tuple(plates)) if give else {}
        if ndim != 1:
            kw["ndim"] = ndim
        return self.stoch(bn.Gaussian, dict(k="Gaussian", **mean_kind(hm, ndim)), [hm, hl], plates, S, [S, S + S],
                          [m, L], kw, name, **x)

    def Gamma(self, a, b, plates=(), name=None, give=True, **x):
        ha, av = self._par(a, "cGammaPrior")
        hb, bv = self._par(b, "Gamma")
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Gamma, dict(k="Gamma"), [ha, hb], plates, (), [(), ()], [av, bv], kw, name, **x)

    def Wishart(self, n, V, plates=(), name=None, give=True, **x):
        hv, v = self._par(V, "Wishart", 2)
        D = hv.dims[0][0]
        hn, nn = self._par(n, "cWishartPrior", D=D)
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Wishart, dict(k="Wishart"), [hn, hv], plates, (D, D), [(D, D), ()],
                          [nn, v], kw, name, **x)

    def Dirichlet(self, alpha, plates=(), name=None, give=True, **x):
        ha, a = self._par(alpha, "cDirichletPrior", 1)
        K = ha.dims[0][0]
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Dirichlet, dict(k="Dirichlet"), [ha], plates, (K,), [(K,)], [a], kw, name, **x)

    def Beta(self, alpha, plates=(), name=None, give=True, **x):
        ha, a = self._par(alpha, "cDirichletPrior", 1)
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Beta, dict(k="Beta"), [ha], plates, (), [(2,)], [a], kw, name, **x)

    def Categorical(self, p, plates=(), name=None, give=True, **x):
        hp, pv = self._par(p, "Dirichlet", 1)
        K = hp.dims[0][0]
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Categorical, dict(k="Categorical", K=K), [hp], plates, (), [(K,)], [pv], kw, name, **x)

    def Multinomial(self, n, p, plates=(), name=None, give=True, **x):
        """n: a number (same for all plates)"""
        hp, pv = self._par(p, "Dirichlet", 1)
        K = hp.dims[0][0]
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Multinomial, dict(k="Multinomial", **trials(n)), [hp], plates, (K,), [(K,)],
                          [n, pv], kw, name, **x)

    def Bernoulli(self, p, plates=(), name=None, give=True, **x):
        hp, pv = self._par(p, "Beta")
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Bernoulli, dict(k="Bernoulli"), [hp], plates, (), [()], [pv], kw, name, **x)

    def Binomial(self, n, p, plates=(), name=None, give=True, **x):
        hp, pv = self._par(p, "Beta")
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Binomial, dict(k="Binomial", **trials(n)), [hp], plates, (), [()],
                          [n, pv], kw, name, **x)

    def Poisson(self, r, plates=(), name=None, give=True, **x):
        hr, rv = self._par(r, "Gamma")
        kw = dict(plates=tuple(plates)) if give else {}
        return self.stoch(bn.Poisson, dict(k="Poisson"), [hr], plates, (), [()], [rv], kw, name, **x)

    def GaussianGamma(self, mu, Lam, a, b, plates=(), name=None, give=True, ndim=1, **x):
        hl, L = self._par(Lam, "Wishart", 2 * ndim)
        S = hl.dims[0][:ndim]
        hm, m = self._par(mu, "Gaussian", ndim)
        ha, av = self._par(a, "cGammaPrior")
        hb, bv = self._par(b, "Gamma")
        kw = dict(plates=tuple(plates)) if give else {}
        if ndim != 1:
            kw["ndim"] = ndim
        return self.stoch(bn.GaussianGamma, dict(k="GaussianGamma", **mean_kind(hm, ndim)), [hm, hl, ha, hb], plates, S,
                          [S, S + S, (), ()], [m, L, av, bv], kw, name, **x)

    def CategoricalMarkovChain(self, p0, P, N, plates=(), name=None, give=True, **x):
        """P has plates (..., N-1 or 1, K)"""
        h0, v0 = self._par(p0, "Dirichlet", 1)
        hP, vP = self._par(P, "Dirichlet", 1)
        K = h0.dims[0][0]
        kw = dict(states=N)
        if give:
            kw["plates"] = tuple(plates)
        return self.stoch(bn.CategoricalMarkovChain, dict(k="CMC", N=N, K=K), [h0, hP], plates, (N,),
                          [(K,), (N - 1, K, K)], [v0, vP], kw, name, **x)

    def _gmc_common(self, mu, Lam):
        hl, L = self._par(Lam, "Wishart", 2)
        D = hl.dims[0][0]
        hm, m = self._par(mu, "Gaussian", 1)
        return hl, L, D, hm, m, mean_kind(hm, 1)

    def GaussianMarkovChain(self, mu, Lam, A, nu, N, inputs=None, plates=(), name=None, give=True, **x):
        hl, L, D, hm, m, gg = self._gmc_common(mu, Lam)
        hA, Av = self._par(A, "Gaussian", 1)
        hn, nv = self._par(nu, "Gamma")
        par, kw, Din = [hm, hl, hA, hn], dict(n=N), 0
        if inputs is not None:
            hz, zv = self._par(inputs, "Gaussian", 1)
            par.append(hz)
            kw["inputs"] = zv
            Din = hz.dims[0][-1]
        if give:
            kw["plates"] = tuple(plates)
        d = dict(k="GMC", N=N, D=D, Din=Din, Kmix=0, dyn="plain", **gg, gg2=len(hA.dims) == 4)
        return self.stoch(bn.GaussianMarkovChain, d, par, plates, (N, D),
                          [(N, D), (N, D, D), (N - 1, D, D)], [m, L, Av, nv], kw, name, **x)

    def VaryingGMC(self, mu, Lam, B, S, nu, N, plates=(), name=None, give=True, **x):
        hl, L, D, hm, m, gg = self._gmc_common(mu, Lam)
        hB, Bv = self._par(B, "Gaussian", 2)
        hS, Sv = self._par(S, "Gaussian", 1)
        hn, nv = self._par(nu, "Gamma")
        K = hB.dims[0][-1]
        kw = dict(n=N)
        if give:
            kw["plates"] = tuple(plates)
        d = dict(k="GMC", N=N, D=D, Din=0, Kmix=K, dyn="varying", **gg, gg2=False)
        return self.stoch(bn.VaryingGaussianMarkovChain, d, [hm, hl, hB, hn, hS], plates, (N, D),
                          [(N, D), (N, D, D), (N - 1, D, D)], [m, L, Bv, Sv, nv], kw, name, **x)

    def SwitchingGMC(self, mu, Lam, B, Z, nu, N, plates=(), name=None, give=True, znode=None, **x):
        """Z: handle seen as categorical with plates (..., N-1); znode: what the
        user passes (a chain, when Z is its conversion)"""
        hl, L, D, hm, m, gg = self._gmc_common(mu, Lam)
        hB, Bv = self._par(B, "Gaussian", 1)
        hn, nv = self._par(nu, "Gamma")
        K = Z.dims[0][0]
        kw = dict(n=N)
        if give:
            kw["plates"] = tuple(plates)
        d = dict(k="GMC", N=N, D=D, Din=0, Kmix=K, dyn="switching", **gg, gg2=False)
        return self.stoch(bn.SwitchingGaussianMarkovChain, d, [hm, hl, hB, hn, Z], plates, (N, D),
                          [(N, D), (N, D, D), (N - 1, D, D)],
                          [m, L, Bv, znode.node if znode else Z.node, nv], kw, name, **x)

    def Mixture(self, Z, inner, *params, cp=-1, plates=(), name=None, give=True, n=None, znode=None, **x):
        """inner: name of the mixed class; params: its parents (with a cluster
        axis at plate position cp)"""
        cls, di, roles, S, dims = inner_class(inner, params, n)
        hs, vs = [], []
        for p, (k, nd, dd) in zip(params, roles):
            h, v = self._par(p, k, nd, **dd)
            hs.append(h)
            vs.append(v)
        hz = Z if isinstance(Z, H) else self.const("Categorical", Z, 0, K=x.pop("K"))
        zv = (znode.node if znode else Z.node) if isinstance(Z, H) else Z
        kw = {}
        if cp != -1:
            kw["cluster_plate"] = cp
        if give:
            kw["plates"] = tuple(plates)
        args = [zv, cls] + ([n] if n is not None and inner in ("Binomial", "Multinomial") else []) + vs
        if inner == "GaussianARD" and S:
            args += [len(S)]         # ndim
        return self.stoch(bn.Mixture, dict(k="Mixture", inner=di, cp=cp), [hz] + hs, plates, S, dims,
                          args, kw, name, **x)

    def Mixture2(self, Z1, Z2, inner, *params, cp1=-1, cp2=-1, plates=(), name=None, give=True, **x):
        """mixture of mixtures: MultiMixture or nested Mixture"""
        cls, di, roles, S, dims = inner_class(inner, params, None)
        hs, vs = [], []
        for p, (k, nd, dd) in zip(params, roles):
            h, v = self._par(p, k, nd, **dd)
            hs.append(h)
            vs.append(v)
        kw = dict(plates=tuple(plates)) if give else {}
        di2 = dict(k="Mixture", inner=di, cp=cp2)
        # nested call: Mixture(Z1, Mixture, Z2, cls, *params); Z2 is shifted by
        # the cluster axis of Z1, so the user gives it a unit axis there
        return self.stoch(bn.Mixture, dict(k="Mixture", inner=di2, cp=cp1), [Z1, Z2] + hs, plates, S, dims,
                          [Z1.node, bn.Mixture, Z2.node, cls] + vs, kw, name, **x)

    def MultiMixture(self, Zs, inner, *params, plates=(), name=None, give=True, **x):
        """mixture over several axes; the library adds the trailing axes of the assignments"""
        cls, di, roles, S, dims = inner_class(inner, params, None)
        hs, vs, zs, views = [], [], [], []
        for p, (k, nd, dd) in zip(params, roles):
            h, v = self._par(p, k, nd, **dd)
            hs.append(h)
            vs.append(v)
        for i, Z in enumerate(Zs):
            if isinstance(Z, H):
                items, pl = basic_index(Z.pl, (Ellipsis,) + i * (None,))
                v = self.det(None, "getitem", [Z], pl, Z.dims, None, items=items)
                v.j["view"] = True
                views.append((i, v))
                zs.append(v)
            else:
                K = int(Z[1])
                zs.append(self.const("Categorical", np.asarray(Z[0])[(Ellipsis,) + i * (None,)], 0, K=K))
        kw = dict(plates=tuple(plates)) if give else {}
        d = di
        for _ in Zs:
            d = dict(k="Mixture", inner=d, cp=-1)
        Y = self.stoch(bn.MultiMixture, d, zs + hs, plates, S, dims,
                       [[Z.node if isinstance(Z, H) else Z[0] for Z in Zs], cls] + vs, kw, name, **x)
        for i, v in views:
            v.node = Y.node.parents[i]
        return Y

    # ------------------------------------------------------- point estimates
    def GammaShape(self, m0=0, m1=0, plates=(), name=None):
        """maximises the bound with m0 x + m1 log Gamma(x) added"""
        c = np.stack(np.broadcast_arrays(m0, m1), axis=-1)
        hc = self.const("cPoint", c, 1)
        kw = {}
        if np.any(c != 0):
            kw = dict(m0=m0, m1=m1)
        return self.stoch(bn.GammaShape, dict(k="GammaShape"), [hc], plates, (), [(), ()], [], dict(plates=tuple(plates), **kw),
                          name)

    def Concentration(self, D, reg=None, plates=(), name=None, beta=False):
        """reg: None, True, or (log probabilities, number of samples)"""
        v = (0, 0) if reg is None else (np.log(1 / D), 1) if reg is True else reg
        lp = np.asarray(v[0], dtype=float) * np.ones(D)
        n = np.asarray(v[1], dtype=float)
        c = np.concatenate([np.broadcast_to(lp, np.broadcast_shapes(lp.shape[:-1], n.shape) + (D,)),
                            np.broadcast_to(n[..., None], np.broadcast_shapes(lp.shape[:-1], n.shape) + (1,))], axis=-1)
        hc = self.const("cPoint", c, 1)
        kw = dict(plates=tuple(plates), regularization=reg)
        return self.stoch(bn.BetaConcentration if beta else bn.Concentration, dict(k="Concentration"), [hc], plates, (D,),
                          [(D,), ()], [] if beta else [D], kw, name)

    # ------------------------------------------------------------ deterministic
    def det(self, node, k, par, pl, dims, name=None, **d):
        return self._add(node, "det", dict(k=k, **d), par, pl, dims[0], dims, name=name or "")

    def Add(self, *xs, name=None):
        hs, vs = zip(*[self._par(p, "Gaussian", len(xs[0].dims[0])) for p in xs])
        pl = bshape(*[h.pl for h in hs])
        return self.det(bn.Add(*vs), "add", hs, pl, hs[0].dims[:2], name)

    def SumMultiply(self, spec, *xs, name=None, **kw):
        """spec as for einsum"""
        ins, out = (spec.split("->") + [""])[:2]
        ins = ins.split(",")
        hs, vs = zip(*[self._par(p, "Gaussian", len(k)) for p, k in zip(xs, ins)])
        keys = [[ord(c) for c in k] for k in ins]
        sizes = {}
        for k, h in zip(ins, hs):
            for c, n in zip(k, h.dims[0]):
                sizes[c] = max(n, sizes.get(c, 1))
        allk = sorted(sizes)
        pl = bshape(*[h.pl for h in hs])
        o = tuple(sizes[c] for c in out)
        gg = any(len(h.dims) == 4 for h in hs)
        dims = [o, o + o] + ([(), ()] if gg else [])
        return self.det(bn.SumMultiply(spec, *vs, **kw), "summul", hs, pl, dims, name,
                        keys=keys, out=[ord(c) for c in out], allkeys=[ord(c) for c in allk],
                        ksizes=[sizes[c] for c in allk])

    def Dot(self, *xs, name=None):
        hs, vs = zip(*[self._par(p, "Gaussian", 1) for p in xs])
        pl = bshape(*[h.pl for h in hs])
        n = max(h.dims[0][0] for h in hs)
        gg = any(len(h.dims) == 4 for h in hs)
        return self.det(bn.Dot(*vs), "summul", hs, pl, [(), ()] + ([(), ()] if gg else []), name,
                        keys=[[105]] * len(hs), out=[], allkeys=[105], ksizes=[n])

    def ConcatGaussian(self, *xs, name=None):
        hs, vs = zip(*[self._par(p, "Gaussian", 1) for p in xs])
        pl = bshape(*[h.pl for h in hs])
        n = sum(h.dims[0][0] for h in hs)
        return self.det(bn.ConcatGaussian(*vs), "concatgaussian", hs, pl, [(n,), (n, n)], name)

    def Gate(self, Z, X, gp=-1, name=None, znode=None):
        xpl = list(X.pl)
        del xpl[gp]
        pl = bshape(Z.pl, tuple(xpl))
        kw = {} if gp == -1 else dict(gated_plate=gp)
        return self.det(bn.Gate((znode or Z).node, X.node, **kw), "gate", [Z, X], pl, X.dims, name, gp=gp)

    def Choose(self, Z, *xs, name=None):
        pl = bshape(Z.pl, *[x.pl for x in xs])
        return self.det(bn.Choose(Z.node, *[x.node for x in xs]), "choose", [Z] + list(xs), pl, xs[0].dims, name)

    def getitem(self, X, index, name=None):
        """NumPy basic indexing of the plates"""
        idx = index if isinstance(index, tuple) else (index,)
        items, pl = basic_index(X.pl, idx)
        return self.det(X.node[index], "getitem", [X], pl, X.dims, name, items=items)

    def Take(self, X, ind, axis=-1, name=None):
        ind = np.asarray(ind)
        ax = -axis - 1                # plates right of the taken axis
        p = X.pl
        n = p[len(p) - 1 - ax]
        pl = p[:len(p) - 1 - ax] + ind.shape + p[len(p) - ax:]
        return self.det(bn.Take(X.node, ind if ind.ndim else int(ind), plate_axis=axis), "take", [X], pl, X.dims, name, axis=ax,
                        ish=list(ind.shape), ind=[int(i) % n for i in ind.ravel()])

    def Concatenate(self, *xs, axis=-1, name=None):
        L = len(xs[0].pl)
        others = [list(x.pl) for x in xs]
        n = sum(x.pl[axis] for x in xs)
        for o in others:
            o[axis] = 1
        pl = list(bshape(*map(tuple, others)))
        pl[axis] = n
        return self.det(bn.Concatenate(*[x.node for x in xs], axis=axis), "concat", xs, pl, xs[0].dims,
                        name, axis=-axis)

    # views the library inserts by itself
    def chain_states(self, X):
        """A Markov chain seen as an array with a time plate."""
        d = X.j["d"]
        if d["k"] == "Mixture":
            d = d["inner"]
        if d["k"] == "CMC":
            return self.det(None, "cmc2cat", [X], X.pl + (d["N"],), [(d["K"],)], K=d["K"])
        D = d["D"]
        return self.det(None, "gmc2g", [X], X.pl + (d["N"],), [(D,), (D, D)], D=D)

    def complement(self, P, name=None):
        return self.det(bn.Complement(P.node), "complement", [P], P.pl, P.dims, name)

    def diag(self, A, how="diag", name=None):
        """gamma variables along the last plate axis as a diagonal matrix"""
        from bayespy.inference.vmp.nodes.gamma import diagonal
        D = A.pl[-1]
        node = dict(diag=A.node.diag, as_diagonal_wishart=A.node.as_diagonal_wishart,
                    diagonal=lambda: diagonal(A.node))[how]() if A.node is not None and hasattr(A.node, "diag") else diagonal(A.node)
        return self.det(node, "gamma2wishart", [A], A.pl[:-1], [(D, D), ()], name)

    def as_wishart(self, A, name=None):
        """gamma variables as precisions of scalar Gaussian nodes"""
        return self.det(A.node.as_wishart(), "tile", [A], A.pl, [(), ()], name)

    def scale(self, L, a, name=None):
        """a Wishart matrix times a gamma scalar"""
        ha, av = self._par(a, "Gamma")
        return self.det(L.node.scale(av), "scalewishart", [L, ha], bshape(L.pl, ha.pl), L.dims, name)

    def tile(self, X, tiles, name=None):
        from bayespy.inference.vmp.nodes.deterministic import tile
        t = tuple(np.ravel(tiles))
        n = max(len(t), len(X.pl))
        pl = tuple(int(a * b) for a, b in zip((1,) * (n - len(X.pl)) + tuple(X.pl), (1,) * (n - len(t)) + t))
        return self.det(tile(X.node, tiles), "tile", [X], pl, X.dims, name)

    # ------------------------------------------------------------ recording
    def nodes_json(self):
        return [h.j for h in self.hs]

    def stochs(self):
        return [h for h in self.hs if h.j["cls"] == "stoch"]

    def _arrays(self, want_det=True):
        """Raw state arrays (references are copied)."""
        st = {}
        for h in self.stochs():
            st[h.i] = ([np.array(x) for x in h.node.u], [np.array(x) for x in params(h)], np.array(h.node.observed))
        return st

    def snapshot(self, full=True):
        u, phi, ob, det, L, bad = [], [], [], [], [], []
        with np.errstate(all="ignore"):
            for h in self.hs:
                us, ps, o, de, lb, b = [], [], [], [], "-", ""
                c = h.j["cls"]
                try:
                    if c == "stoch":
                        if full:
                            us = [nums(bto(x, h.pl + d)) for x, d in zip(h.node.u, h.dims)]
                            ps = [nums(bto(x, h.pl + d)) for x, d in zip(params(h), h.dims)]
                            if len(us) != len(h.dims) or len(ps) != len(h.dims):
                                raise ValueError("number of moments")
                        o = [bool(x) for x in np.broadcast_to(h.node.observed, h.pl).ravel()]
                    elif c == "det" and h.node is not None and full and not h.view:
                        de = [nums(bto(x, h.pl + d)) for x, d in zip(h.node.get_moments(), h.dims)]
                except Exception as e:
                    b = "state unreadable: %s" % type(e).__name__
                if c == "stoch":
                    try:
                        lb = num(h.node.lower_bound_contribution())
                    except Exception as e:
                        lb = "nan"
                        b = b or "bound unreadable: %s" % type(e).__name__
                u.append(us); phi.append(ps); ob.append(o); det.append(de); L.append(lb); bad.append(b)
            try:
                tot = num(self.vb().compute_lowerbound())
            except Exception:
                tot = "nan"
        return dict(u=u, phi=phi, ob=ob, det=det, L=L, Ltot=tot, bad=bad)

    def vb(self):
        if self.Q is None:
            self.Q = VB(*[h.node for h in self.stochs()])
        return self.Q

    def start(self):
        self.init = self.snapshot()
        self._last = self._raw()
        return self

    def _raw(self):
        try:
            return self._arrays()
        except Exception:
            return None

    def _same(self, a, b):
        if a is None or b is None:
            return False
        for i in a:
            for x, y in zip(a[i][:2], b[i][:2]):
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if p.shape != q.shape or not np.array_equal(p, q, equal_nan=True):
                        return False
        return True

    def do(self, k, name, f, reject=False, **op):
        """Run f, record the call."""
        err = ""
        given = arguments(f)
        before = [np.copy(a) for a in given]
        with np.errstate(all="ignore"):
            try:
                r = f()
                if r is not None:
                    op.update(r)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:80])
        if not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(given, before)):
            err, reject = "the call changed its arguments", False
        self._rec(dict(k=k, name=name, err=err, reject=reject, **op))
        return err == ""

    def _rec(self, op):
        raw = self._raw()
        same = self._same(self._last, raw)
        self._last = raw
        self.steps.append(dict(op=op, same=same, post=self.snapshot(full=not same)))

    # ------------------------------------------------------------ public calls
    def update(self, h, via="node"):
        if via == "node":
            self.do("update", h.name, lambda: h.node.update() and None, n=h.i)
        else:
            Q = self.vb()
            def f():
                Q.ignore_bound_checks = True
                Q.update(h.node if via == "vb" else h.name, verbose=False, tol=-1)
            self.do("update", h.name, f, n=h.i)

    def sweep(self, hs, repeat=1, names=False):
        """One call of VB.update: every iteration is a step (recorded in the
        engine's callback), with the engine's own record of its bound."""
        Q = self.vb()
        Q.ignore_bound_checks = True
        ns = hs or self.stochs()
        todo = []
        def cb():
            op = dict(k="sweep", name=ns[0].name, err="", reject=False, ns=[h.i for h in ns], n=ns[0].i, hist=[], histtot="-")
            self._rec(op)
            todo.append((op, int(Q.iter)))
        Q.set_callback(cb)
        err = ""
        with np.errstate(all="ignore"):
            try:
                Q.update(*[h.name if names else h.node for h in hs], repeat=repeat, verbose=False)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:80])
        Q.set_callback(None)
        for op, it in todo:
            try:
                op["hist"] = ["-" if h.j["cls"] != "stoch" else num(Q.l[h.node][it]) for h in self.hs]
                op["histtot"] = num(Q.L[it])
            except Exception as e:
                op["err"] = "history: %s" % type(e).__name__
        if err or len(todo) != repeat:
            self._rec(dict(k="sweep", name=ns[0].name, err=err or "%d iterations instead of %d" % (len(todo), repeat),
                           reject=False, ns=[h.i for h in ns], n=ns[0].i, hist=[], histtot="-"))
            return False
        return True

    def _steps(self, first, mk, f, repeat=None):
        """Run f; every iteration of the engine (its callback) is a step."""
        Q = self.vb()
        n = [0]
        def cb():
            self._rec(mk(n[0]))
            n[0] += 1
        Q.set_callback(cb)
        err = ""
        it, t = int(Q.iter), time.time()
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            try:
                f(Q)
            except Exception as e:
                err = "%s: %s" % (type(e).__name__, str(e)[:80])
        Q.set_callback(None)
        t, used = time.time() - t, Q.cputime[it:int(Q.iter)]
        if not err and not (np.all(used >= 0) and np.sum(used) <= t + 1e-3 and len(used) == n[0]):
            err = "history of times"
        if err or (repeat is not None and n[0] > repeat):
            op = mk(n[0])
            op["err"] = err or "%d iterations instead of %d" % (n[0], repeat)
            self._rec(op)
        return err == ""

    def optimize(self, hs, cs=(), maxiter=3, method="fletcher-reeves", riem=True, names=False):
        def mk(t):
            return dict(k="optstep", name=hs[0].name, err="", reject=False, n=hs[0].i, ns=[h.i for h in hs],
                        cs=[h.i for h in cs], method="gradient" if method.lower() == "gradient" else "fr",
                        riem=bool(riem), t=t)
        a = [h.name if names else h.node for h in hs]
        c = [h.name if names else h.node for h in cs]
        return self._steps(None, mk, lambda Q: Q.optimize(*a, maxiter=maxiter, method=method, riemannian=riem,
                                                          collapsed=c or None, verbose=False, tol=-1), maxiter)

    def pattern(self, hs, cs=(), maxiter=3):
        def mk(t):
            return dict(k="pattern", name=hs[0].name, err="", reject=False, n=hs[0].i, ns=[h.i for h in hs],
                        cs=[h.i for h in cs])
        return self._steps(None, mk, lambda Q: Q.pattern_search(*[h.node for h in hs], maxiter=maxiter,
                                                                collapsed=[h.node for h in cs] or None), 1)

    def eucgrad(self, h):
        def f():
            rg, g = self.vb().get_gradients(h.node, euclidian=True)
            return dict(res=[nums(bto(x, h.pl + d)) for x, d in zip(g[0], h.dims)])
        self.do("eucgrad", h.name, f, n=h.i, res=[])

    # persistence; files live in a scratch directory of the trace
    def _file(self, f):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="vmp_")
        return os.path.join(self._dir, "f%d.hdf5" % f)

    def save(self, f, hs=(), via="vb"):
        ns = list(hs) or self.stochs()
        def g():
            if via == "vb":
                self.vb().save(*[h.node for h in hs], filename=self._file(f))
            else:
                ns[0].node.save(self._file(f))
        if via != "vb":
            ns = ns[:1]
        self.do("save", ns[0].name, g, n=ns[0].i, ns=[h.i for h in ns], file=f)

    def load(self, f, hs=(), via="vb", only=True):
        ns = list(hs) or self.stochs()
        if via != "vb":
            ns = ns[:1]
        def g():
            if via == "vb":
                self.vb().load(*[h.node for h in hs], filename=self._file(f), nodes_only=only)
            else:
                ns[0].node.load(self._file(f))
        self.do("load", ns[0].name, g, n=ns[0].i, ns=[h.i for h in ns], file=f)

    def fresh(self):
        """The same program run again in a new process: new nodes, new engine."""
        m2 = self.rebuild()
        def g():
            for h, h2 in zip(self.hs, m2.hs):
                h.node = h2.node
            self.Q = None
        self.do("fresh", "-", g, n=1, ns=[h.i for h in self.stochs()])

    def _chance(self, p):
        """How a call is written is chosen by the place in the history only"""
        return np.random.RandomState(zlib.crc32(("%s %d %s" % (self.id, len(self.steps), p)).encode())).rand() < p

    def observe(self, h, x, mask=True):
        x = np.asarray(x, dtype=float)
        vs = value_shape(h)
        m = np.broadcast_to(mask, h.pl)
        rng = np.random.RandomState(zlib.crc32(("%s %d" % (self.id, len(self.steps))).encode()))
        given = x
        if not np.all(m) and rng.rand() < .5 and inner_kind(h) in ("GaussianARD", "Gaussian", "Gamma", "GMC"):
            # whatever is given for the missing elements
            given = np.where(m[(Ellipsis,) + (None,) * len(vs)], x, rng.choice([np.nan, np.nan, np.inf, 1e300]))
        v = value_args(h, given)
        self.do("observe", h.name, lambda: h.node.observe(*v, mask=mask) and None, n=h.i,
                x=nums(np.broadcast_to(x, h.pl + vs)), vlen=int(np.prod(vs, dtype=int)),
                mask=[bool(v) for v in m.ravel()])

    def unobserve(self, h):
        self.do("unobserve", h.name, lambda: h.node.unobserve() and None, n=h.i)

    def initprior(self, h):
        self.do("initprior", h.name, lambda: h.node.initialize_from_prior() and None, n=h.i)

    def initvalue(self, h, x):
        x = np.asarray(x, dtype=float)
        vs = value_shape(h)
        v = value_args(h, x)
        self.do("initvalue", h.name, lambda: h.node.initialize_from_value(*v) and None, n=h.i,
                x=nums(np.broadcast_to(x, h.pl + vs)), vlen=int(np.prod(vs, dtype=int)))

    def initparams(self, h, *vals):
        """vals: (role, nd, value[, dd]) per parent"""
        consts = []
        for v in vals:
            role, nd, x = v[:3]
            dd = v[3] if len(v) > 3 else {}
            x = np.asarray(x, dtype=float)
            sh = x.shape
            pl, S = sh[:len(sh) - nd], sh[len(sh) - nd:]
            consts.append(dict(name="c", d=dict(k=role, **dd), par=[], pl=list(pl), S=list(S),
                               dims=[list(q) for q in const_dims(role, S, dd)], cls="const", w="1.0",
                               val=nums(x), vlen=int(np.prod(S, dtype=int))))
        self.do("initparams", h.name, lambda: h.node.initialize_from_parameters(*[v[2] for v in vals]) and None,
                n=h.i, consts=consts)

    def initmom(self, h, mu, cov):
        """initialize_from_mean_and_covariance (Gaussian arrays)"""
        self.do("initmom", h.name, lambda: h.node.initialize_from_mean_and_covariance(mu, cov) and None, n=h.i,
                x=nums(bto(mu, h.pl + h.S)), cov=nums(bto(cov, h.pl + h.S + h.S)), vlen=int(np.prod(h.S, dtype=int)))

    def setparams(self, h, phi):
        self.do("setparams", h.name, lambda: h.node.set_parameters(phi) and None, n=h.i,
                phi=[nums(bto(p, h.pl + d)) for p, d in zip(phi, h.dims)])

    def initrandom(self, h, seed=0):
        """Point mass at a draw; the drawn value is read from the moments."""
        box = {}
        def f():
            np.random.seed(seed)
            orig = h.node.initialize_from_value
            h.node.initialize_from_random()
            x = value_from_moments(h, [bto(v, h.pl + d) for v, d in zip(h.node.u, h.dims)])
            return dict(x=nums(x))
        vs = value_shape(h)
        self.do("initvalue", h.name, f, n=h.i, x="", vlen=int(np.prod(vs, dtype=int))) \
            if False else self._do_random(h, f, vs)

    def _do_random(self, h, f, vs):
        op = dict(n=h.i, vlen=int(np.prod(vs, dtype=int)))
        self.do("initvalue", h.name, f, **op)

    def random(self, h, seed=0):
        def f():
            np.random.seed(seed)
            h.node.random()
        self.do("nop", h.name, f, what="random")

    def query(self, h, what, f):
        self.do("nop", h.name, lambda: f() and None, what=what)

    def reject(self, h, what, f):
        self.do("nop", h.name if h else "-", lambda: f() and None, what=what, reject=True)

    def logpdf(self, h, x):
        x = np.asarray(x, dtype=float)
        vs = value_shape(h)
        v = value_args(h, x)
        def f():
            r = h.node.logpdf(*v)
            return dict(res=nums(np.broadcast_to(r, h.pl)))
        self.do("logpdf", h.name, f, n=h.i, x=nums(np.broadcast_to(x, h.pl + vs)),
                vlen=int(np.prod(vs, dtype=int)))

    def natgrad(self, h):
        self.do("natgrad", h.name, lambda: dict(res=[nums(bto(g, h.pl + d)) for g, d in
                zip(h.node.get_riemannian_gradient(), h.dims)]), n=h.i)

    def moments(self, h):
        self.do("moments", h.name, lambda: dict(res=[nums(bto(g, h.pl + d)) for g, d in
                zip(h.node.get_moments(), h.dims)]), n=h.i)

    def gradstep(self, scale, *hs):
        self.do("gradstep", hs[0].name,
                lambda: self.vb().gradient_step(*[h.node for h in hs], scale=scale) and None,
                ns=[h.i for h in hs], scale=num(scale), n=hs[0].i)

    # transformations of Gaussian variables
    def rotate(self, h, R, axis=None, pre=False):
        """pre: pass the inverse and the log determinant, as the optimizer does"""
        kw = dict(inv=np.linalg.inv(R), logdet=np.linalg.slogdet(R)[1]) if pre else {}
        ax = 1
        if axis is not None:
            kw["axis"] = axis
        if h.j["d"]["k"] == "GaussianARD":
            a = -1 if axis is None else axis
            ax = (a % len(h.S)) + 1
        self.do("rotate", h.name, lambda: h.node.rotate(R, **kw) and None, n=h.i, R=nums(R), ax=ax)

    def rotate_matrix(self, h, R1, R2, pre=False):
        kw = dict(inv1=np.linalg.inv(R1), logdet1=np.linalg.slogdet(R1)[1],
                  inv2=np.linalg.inv(R2), logdet2=np.linalg.slogdet(R2)[1]) if pre else {}
        self.do("rotmatrix", h.name, lambda: h.node.rotate_matrix(R1, R2, **kw) and None, n=h.i,
                R=nums(R1), R2=nums(R2), D1=len(R1), D2=len(R2))

    def rotate_plates(self, h, Q, axis=-1):
        self.do("rotplates", h.name, lambda: h.node.rotate_plates(Q, plate_axis=axis) and None, n=h.i, R=nums(Q),
                ax=(axis % len(h.pl)) + 1)

    def rotate_both(self, h, R, Q):
        """Gaussian with one plate axis: plates and vectors"""
        self.do("rotboth", h.name, lambda: h.node.rotate(R, Q=Q) and None, n=h.i, R=nums(R), R2=nums(Q), ax=1, ax2=1)

    def translate(self, h, b):
        self.do("translate", h.name, lambda: h.node.translate(b) and None, n=h.i,
                x=nums(np.broadcast_to(b, h.pl + h.S)))

    def rotbound(self, blk, R, terms=True):
        """What a rotator says about the bound."""
        rot, b, hs = blk
        K = len(R)
        def f():
            rot.setup()
            ld, inv = np.linalg.slogdet(R)[1], np.linalg.inv(R)
            v, g = rot.bound(R, logdet=ld, inv=inv)
            I = np.identity(K)
            v0, _ = rot.bound(I, logdet=0, inv=I)
            r = dict(res=nums([np.sum(v), np.sum(v0)]), grad=nums(np.broadcast_to(g, (K, K))))
            if terms:
                t1, t0 = rot.get_bound_terms(R, logdet=ld, inv=inv), rot.get_bound_terms(I, logdet=0, inv=I)
                r["terms"] = [dict(n=h.i, v=nums([np.sum(t1[h.node]), np.sum(t0[h.node])])) for h in hs if h.node in t1]
                if len(t1) != len(set(h.i for h in hs)):
                    raise ValueError("terms for %d nodes" % len(t1))
            return r
        self.do("rotbound", hs[0].name, f, n=hs[0].i, R=nums(R), K=K, b1=b, terms=[], grad="", res="")

    def rotblocks(self, b1, b2, K, maxiter=5, check=False):
        """RotationOptimizer.rotate; the matrix it chose is the one the first
        rotator is asked to apply"""
        from bayespy.inference.vmp.transformations import RotationOptimizer
        box = {}

        class Tap:
            def __getattr__(self, a):
                return getattr(b1[0], a)

            def rotate(self, R, **kw):
                box["R"] = np.array(R)
                return b1[0].rotate(R, **kw)

        def f():
            RotationOptimizer(Tap(), b2[0], K).rotate(maxiter=maxiter, check_bound=check)
            return dict(R=nums(box["R"]))
        hs = b1[2] + b2[2]
        self.do("rotblocks", hs[0].name, f, n=hs[0].i, K=K, b1=b1[1], b2=b2[1], R="", full=maxiter > 100)

    def anneal(self, beta):
        self.do("anneal", "-", lambda: self.vb().set_annealing(beta) and None, beta=num(beta), n=1)

    def json(self):
        if self.init is None:
            self.start()
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
        return dict(id=self.id, rtol=num(self.rtol), atol=num(self.atol), nodes=self.nodes_json(),
                    init=self.init, steps=self.steps)


# ---------------------------------------------------------------- rotators
# (library object, block of the specification, handles of its nodes)
def ard_rotator(h, alpha=None, axis=None, pax=0, **kw):
    from bayespy.inference.vmp.transformations import RotateGaussianARD
    a = -1 if axis is None else axis
    if axis is not None:
        kw["axis"] = axis
    r = RotateGaussianARD(h.node, *([alpha.node] if alpha is not None else []), **kw)
    return (r, dict(t="ard", n=h.i, ax=(a % len(h.S)) + 1, alpha=alpha.i if alpha is not None else 0, pax=pax),
            [h] + ([alpha] if alpha is not None else []))


def chain_rotator(X, rows, Din=0, kind="plain", B=None, S=None):
    """rows: rotator of the node with the dynamics; its plate axis of the rows"""
    from bayespy.inference.vmp import transformations as tf
    if kind == "plain":
        r = tf.RotateGaussianMarkovChain(X.node, rows[0])
    elif kind == "varying":
        r = tf.RotateVaryingMarkovChain(X.node, B.node, S.node, rows[0])
    else:
        r = tf.RotateSwitchingMarkovChain(X.node, B.node, S.node, rows[0])
    return (r, dict(t="chain", n=X.i, Din=Din, rows=rows[1]), [X] + rows[2])


def multi_rotator(*bs):
    from bayespy.inference.vmp.transformations import RotateMultiple
    return (RotateMultiple(*[b[0] for b in bs]), dict(t="multi", bs=[b[1] for b in bs]), sum([b[2] for b in bs], []))


# ---------------------------------------------------------------- helpers
def mean_kind(h, ndim):
    """gg: the mean has a precision of its own; whole: one element of it is
    the mean array (else its plates are used as variable axes)"""
    if not isinstance(h, H):
        return dict(gg=False, whole=True)
    gg = len(h.dims) == 4
    return dict(gg=gg, whole=gg or len(h.dims[0]) == ndim)


def bto(x, shape):
    return np.broadcast_to(np.asarray(x), shape)


def const_dims(k, S, d):
    S = tuple(S)
    return {"Gaussian": [S, S + S], "Gamma": [(), ()], "Wishart": [S, ()], "Dirichlet": [S],
            "Beta": [(2,)], "Categorical": [(d.get("K", 0),)],
            "cGammaPrior": [(), ()], "cWishartPrior": [(), ()],
            "cDirichletPrior": [S, ()], "cPoint": [S]}[k]


def arguments(f):
    """The arrays that a recorded call is given."""
    out = []
    for c in f.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        for a in v if isinstance(v, (list, tuple)) else [v]:
            out += [b for b in (a if isinstance(a, tuple) else [a])
                    if isinstance(b, np.ndarray) and b.dtype.kind in "fib"]
    return out


def value_shape(h):
    """Shape of one element's value as the specification takes it."""
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    if d["k"] == "GaussianGamma":
        return (int(np.prod(h.S, dtype=int)) + 1,)
    return h.S


def inner_kind(h):
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    return d["k"]


def value_args(h, x):
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    if d["k"] in ("Categorical", "Bernoulli", "Binomial", "Multinomial", "Poisson", "CMC"):
        return [x.astype(int)] if not h.m._chance(.2) else [x.astype(int).tolist()]
    if d["k"] == "GaussianGamma":
        return [(x[..., :-1].reshape(x.shape[:-1] + tuple(h.S)), x[..., -1])]
    return [x] if not h.m._chance(.2) else [x.tolist()]


def value_from_moments(h, u):
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    k = d["k"]
    if k in ("Gaussian", "GaussianARD", "Gamma", "Wishart", "GMC", "Poisson", "Bernoulli", "Binomial", "Multinomial"):
        return u[0]
    if k == "Dirichlet":
        return np.exp(u[0])
    if k == "Beta":
        return np.exp(u[0][..., 0])
    if k == "Categorical":
        return np.argmax(u[0], axis=-1)
    if k == "CMC":
        z = [np.argmax(u[0], axis=-1)]
        for n in range(u[1].shape[-3]):
            z.append(np.argmax(np.sum(u[1][..., n, :, :], axis=-2), axis=-1))
        return np.stack(z, axis=-1)
    if k == "GaussianGamma":
        t = u[2][..., None]
        return np.concatenate([np.reshape(u[0], np.shape(u[2]) + (-1,)) / t, t], axis=-1)
    raise NotImplementedError(k)


def basic_index(pl, idx):
    n = sum(1 for i in idx if i is not None and i is not Ellipsis)
    full = []
    seen = False
    for i in idx:
        if i is Ellipsis:
            full += [slice(None)] * (len(pl) - n)
            seen = True
        else:
            full.append(i)
    if not seen:
        full += [slice(None)] * (len(pl) - n)
    items, out, ax = [], [], 0
    for i in full:
        if i is None:
            items.append(dict(t="new", i=0, step=1))
            out.append(1)
        elif isinstance(i, slice):
            a, b, c = i.indices(pl[ax])
            items.append(dict(t="slice", i=a, step=c))
            out.append(len(range(a, b, c)))
            ax += 1
        else:
            items.append(dict(t="int", i=int(i) % pl[ax], step=1))
            ax += 1
    return items, out


def trials(n):
    """numbers of trials: one, or an array that follows the plates"""
    a = np.asarray(n)
    return dict(n=0, ns=[int(x) for x in a.ravel()], nsh=list(a.shape))


def trials_of(d, pl):
    """numbers of trials of the elements of a node with distribution d"""
    axes = []
    while d["k"] == "Mixture":
        axes, d = axes + [d["cp"]], d["inner"]
    a = np.array(d["ns"]).reshape(d["nsh"])
    for c in axes[::-1]:
        if a.ndim >= -c:
            a = np.squeeze(a, c)
    return np.broadcast_to(a, pl)


def inner_class(name, params, n):
    """class, descriptor, roles of the parameters, S, dims"""
    def dim(p, nd):
        return p.dims[0] if isinstance(p, H) else np.shape(p)[len(np.shape(p)) - nd:]
    if name == "GaussianARD":
        S = tuple(n or ())           # shape of one variable
        return bn.GaussianARD, dict(k="GaussianARD"), [("Gaussian", 0, {}), ("Gamma", 0, {})], S, [S, S + S]
    if name == "Gaussian":
        D = dim(params[1], 2)[0]
        return (bn.Gaussian, dict(k="Gaussian", **mean_kind(params[0], 1)), [("Gaussian", 1, {}), ("Wishart", 2, {})], (D,),
                [(D,), (D, D)])
    if name == "Gamma":
        return bn.Gamma, dict(k="Gamma"), [("cGammaPrior", 0, {}), ("Gamma", 0, {})], (), [(), ()]
    if name == "Wishart":
        D = dim(params[1], 2)[0]
        return (bn.Wishart, dict(k="Wishart"), [("cWishartPrior", 0, dict(D=D)), ("Wishart", 2, {})], (D, D),
                [(D, D), ()])
    if name == "GaussianGamma":
        D = dim(params[1], 2)[0]
        return (bn.GaussianGamma, dict(k="GaussianGamma", **mean_kind(params[0], 1)),
                [("Gaussian", 1, {}), ("Wishart", 2, {}), ("cGammaPrior", 0, {}), ("Gamma", 0, {})],
                (D,), [(D,), (D, D), (), ()])
    if name == "Categorical":
        K = dim(params[0], 1)[0]
        return bn.Categorical, dict(k="Categorical", K=K), [("Dirichlet", 1, {})], (), [(K,)]
    if name == "Multinomial":
        K = dim(params[0], 1)[0]
        return bn.Multinomial, dict(k="Multinomial", **trials(n)), [("Dirichlet", 1, {})], (K,), [(K,)]
    if name == "Bernoulli":
        return bn.Bernoulli, dict(k="Bernoulli"), [("Beta", 0, {})], (), [()]
    if name == "Binomial":
        return bn.Binomial, dict(k="Binomial", **trials(n)), [("Beta", 0, {})], (), [()]
    if name == "Poisson":
        return bn.Poisson, dict(k="Poisson"), [("Gamma", 0, {})], (), [()]
    if name == "Dirichlet":
        K = dim(params[0], 1)[0]
        return bn.Dirichlet, dict(k="Dirichlet"), [("cDirichletPrior", 1, {})], (K,), [(K,)]
    if name == "Beta":
        return bn.Beta, dict(k="Beta"), [("cDirichletPrior", 1, {})], (), [(2,)]
    raise NotImplementedError(name)
