"""Questions a user asks of a model: random draws, printed parameters, densities,
marginals and predictions.  The answers are recorded (draws as sample means of
the statistics, the text as the numbers printed in it) and compared with the
distributions of the specification (Query.tla)."""
import re

import numpy as np

from model import nums, num, bto, value_args, value_shape

DRAW = ("Gaussian", "GaussianARD", "Gamma", "Dirichlet", "Beta", "Categorical", "Bernoulli", "Binomial", "Multinomial",
        "Poisson", "CMC", "GaussianGamma")
TEXT = ("Gaussian", "GaussianARD", "Gamma", "Wishart", "Dirichlet", "Beta", "Categorical", "Bernoulli", "Binomial",
        "Multinomial", "Poisson")


def inner(h):
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    return d


def latent(h):
    return h.j["cls"] == "stoch" and not np.any(h.node.observed)


def drawable(h):
    """latent nodes whose sampler is implemented and whose statistics have
    moderate tails (means of draws say something)"""
    if h.j["cls"] == "det":
        return (h.node is not None and h.j["d"]["k"] == "summul" and len(h.dims) == 2 and
                all(p.j["cls"] == "const" or (p.j["cls"] == "stoch" and len(p.dims) == 2 and drawable(p))
                    for p in (h.m.hs[i - 1] for i in h.j["par"])))
    if not latent(h):
        return False
    d = inner(h)
    k, phi = d["k"], h.node.phi
    if k not in DRAW or (k == "Gaussian" and len(h.S) != 1):
        return False
    if not all(np.all(np.isfinite(p)) for p in phi):
        return False
    if k == "Gamma":
        return np.min(phi[1]) > .4
    if k == "GaussianGamma":
        return np.min(phi[3]) > .7 and len(h.S) == 1
    if k in ("Dirichlet", "Beta"):
        return np.min(phi[0]) > .3
    if k == "Poisson":
        return np.max(phi[0]) < 12
    return True


def outer(x, nd):
    """x (n, ..., S) with nd variable axes, flattened -> outer products"""
    f = x.reshape(x.shape[:x.ndim - nd] + (-1,)) if nd else x[..., None]
    return f, f[..., :, None] * f[..., None, :]


def stats(k, d, S, x, pl):
    """sufficient statistics (and extra ones) of draws: lists of (n,) + pl + (len,)"""
    n = len(x[0]) if isinstance(x, tuple) else len(x)
    flat = lambda a: a.reshape((n,) + pl + (-1,))
    with np.errstate(all="ignore"):
        if k in ("Gaussian", "GaussianARD", "summul"):
            f, o = outer(x, len(S))
            return [flat(f), flat(o)], None
        if k == "Gamma":
            return [flat(x), flat(np.log(x))], None
        if k == "Dirichlet":
            return [flat(np.log(x))], flat(x)
        if k == "Beta":
            return [flat(np.stack([np.log(x), np.log1p(-x)], -1))], flat(x)
        if k == "Categorical":
            return [flat((x[..., None] == np.arange(d["K"])) * 1.)], None
        if k == "Bernoulli":
            return [flat(x * 1.)], None
        if k in ("Binomial", "Poisson"):
            return [flat(x * 1.)], flat(x * 1. * x)
        if k == "Multinomial":
            f, o = outer(x * 1., 1)
            return [flat(f)], flat(o)
        if k == "CMC":
            z = (x[..., None] == np.arange(d["K"])) * 1.
            return [flat(z[..., 0, :]), flat(z[..., :-1, :, None] * z[..., 1:, None, :])], None
        if k == "GaussianGamma":
            mu, a = x
            f, o = outer(mu, 1)
            return [flat(a[..., None] * f), flat(a[..., None, None] * o), flat(a), flat(np.log(a))], None
    raise NotImplementedError(k)


def draws(m, h, seed, n=1500):
    det = h.j["cls"] == "det"
    d = h.j["d"] if det else inner(h)
    k = d["k"]
    S = tuple(h.dims[0]) if det else tuple(h.S)

    if k == "CMC":
        n *= 4

    def f():
        np.random.seed(seed)
        xs = [h.node.random() for _ in range(n)]
        if k == "GaussianGamma":
            shape = list(np.shape(xs[0][0]))
            if any(np.shape(x[1]) != h.pl for x in xs[:3]):
                raise ValueError("shape of the precision")
            x = (np.stack([v[0] for v in xs]), np.stack([v[1] for v in xs]))
        else:
            shape = list(np.shape(xs[0]))
            if det:
                xs = [bto(v, h.pl + S) for v in xs]
                shape = list(h.pl + S)
            x = np.stack([np.asarray(v) for v in xs])
        if (x[0] if isinstance(x, tuple) else x).shape != (n,) + h.pl + S:
            return dict(shape=shape)          # the specification says it is wrong
        us, extra = stats(k, d, S, x, h.pl)
        cross = []
        P = int(np.prod(h.pl, dtype=int))
        if not det and P > 1:
            a = us[0].reshape((n, P, -1))
            r = np.random.RandomState(seed)
            for _ in range(3):
                e1, e2 = r.choice(P, 2, replace=False)
                c = r.randint(a.shape[-1])
                p = a[:, e1, c] * a[:, e2, c]
                cross.append(dict(e=[int(e1) + 1, int(e2) + 1], c=int(c) + 1, v=nums([p.mean(), p.std()])))
        mean = [nums(u.mean(0)) for u in us]
        sd = [nums(u.std(0)) for u in us]
        return dict(shape=shape, mean=mean, sd=sd, cross=cross,
                    xmean=nums(extra.mean(0)) if extra is not None else "", xsd=nums(extra.std(0)) if extra is not None else "")
    m.do("draws", h.name, f, n=h.i, N=n, shape=[], mean=[], sd=[], cross=[], xmean="", xsd="",
         count=bool(k in ("Categorical", "Bernoulli", "Binomial", "Multinomial", "Poisson", "CMC")))


def parse(text):
    """"X ~ Family(a, b)" and the arrays printed under "a =" """
    head, _, rest = text.partition("\n")
    fam = re.match(r"^(.*?) ~ (\w+)\(", head)
    out = []
    parts = re.split(r"^\s*(\w+)\s*=\s*$", rest, flags=re.M)
    for label, body in zip(parts[1::2], parts[2::2]):
        tok = re.findall(r"\[|\]|[^\s\[\]]+", body)
        def build(i):
            if tok[i] != "[":
                return float(tok[i]), i + 1
            r, i = [], i + 1
            while tok[i] != "]":
                v, i = build(i)
                r.append(v)
            return r, i + 1
        v = np.array(build(0)[0], dtype=float)
        out.append(dict(label=label, sh=list(v.shape), v=nums(v)))
    return fam.group(1), fam.group(2), out


def text(m, h, show=False):
    def f():
        with np.printoptions(threshold=10 ** 7, precision=17, linewidth=10 ** 6, floatmode="unique"):
            if show:
                import io
                import contextlib
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    h.node.show()
                t = b.getvalue()
            else:
                t = str(h.node)
        name, fam, secs = parse(t)
        return dict(title=name, family=fam, secs=secs)
    m.do("text", h.name, f, n=h.i, title="", family="", secs=[])


def pdf(m, h, x):
    x = np.asarray(x, dtype=float)
    vs = value_shape(h)
    m.do("pdf", h.name, lambda: dict(res=nums(np.broadcast_to(h.node.pdf(*value_args(h, x)), h.pl))), n=h.i,
         x=nums(np.broadcast_to(x, h.pl + vs)), vlen=int(np.prod(vs, dtype=int)), res="")


def location(m, h):
    """Gaussian-gamma: location; mean and variance of the vector"""
    m.do("location", h.name, lambda: dict(res=[nums(bto(h.node.get_gaussian_location(), h.pl + h.S))]), n=h.i, res=[])


def meanvar(m, h):
    def f():
        mu, v = h.node.get_gaussian_mean_and_variance()
        return dict(res=[nums(bto(mu, h.pl + h.S)), nums(bto(v, h.pl + h.S))])
    m.do("meanvar", h.name, f, n=h.i, res=[])


def marginal(m, h, inds, gamma, x):
    """density of some entries of the vector and/or the precision"""
    m.do("marginal", h.name,
         lambda: dict(res=num(h.node.get_marginal_logpdf(gaussian=list(inds) or None, gamma=gamma or None)(x))),
         n=h.i, inds=[int(i) + 1 for i in inds], gamma=bool(gamma), x=nums(x), res="nan")


def predict(m, h, xs):
    """Mixture: log predictive density with the assignments integrated out;
    xs has one more leading axis"""
    vs = value_shape(h)
    m.do("predict", h.name,
         lambda: dict(res=[nums(r) for r in bto(h.node.integrated_logpdf_from_parents(*value_args(h, xs), 0),
                                                (len(xs),) + h.pl)]),
         n=h.i, xs=[nums(x) for x in xs], vlen=int(np.prod(vs, dtype=int)), res=[])
