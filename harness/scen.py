"""Scenario families: models and call sequences run on the library.

Every family is a function (rng, id) -> Model; it builds a random small model
of its kind, runs a random sequence of public calls and returns the recorded
trace.  The specification judges the trace; nothing here knows what the right
answer is."""
import numpy as np
import query
from model import trials_of, POINT, Model, H, value_shape, ard_rotator, chain_rotator, multi_rotator


# ------------------------------------------------------------------ randomness
def plates(rng, maxn=8, maxd=2):
    while True:
        p = tuple(int(rng.randint(1, 4)) for _ in range(rng.randint(0, maxd + 1)))
        if np.prod(p, dtype=int) <= maxn:
            return p


def sub(rng, pl):
    """A shape that broadcasts to pl."""
    p = [1 if rng.rand() < 0.35 else n for n in pl]
    k = rng.randint(0, len(p) + 1) if rng.rand() < 0.5 else 0
    return tuple(p[k:])


def bcast(*shapes):
    return tuple(np.broadcast_shapes(*shapes))


def spd(rng, pl, D, scale=1.0):
    A = rng.randn(*(tuple(pl) + (D, D)))
    return scale * (np.einsum("...ij,...kj->...ik", A, A) + 0.5 * np.identity(D))


def simplex(rng, pl, K):
    x = rng.gamma(1.5, size=tuple(pl) + (K,)) + 0.05
    return x / x.sum(-1, keepdims=True)


ZEROS = True


def simplex0(rng, pl, K):
    """probabilities of which some may be zero (impossible categories)"""
    x = simplex(rng, pl, K)
    if K < 2 or not ZEROS or rng.rand() < .6:
        return x
    x = x * (rng.rand(*x.shape) < .6)
    i = rng.randint(K, size=x.shape[:-1])
    x += (np.arange(K) == i[..., None]) * .3
    return x / x.sum(-1, keepdims=True)


def pos(rng, pl=()):
    return rng.gamma(2.0, size=tuple(pl)) + 0.3


def numbers(rng, pl, cp=None):
    """numbers of trials for plates pl: one, or an array (cp: a mixture with this cluster axis)"""
    if rng.rand() < .5:
        return int(rng.randint(1, 6))
    sh = sub(rng, pl)
    if cp is not None and len(sh) >= -cp - 1:
        k = len(sh) + cp + 1
        sh = sh[:k] + (1,) + sh[k:]
    return rng.randint(1, 6, size=sh)


def sample(rng, h, K=None):
    """A value in the support of node h (all elements)."""
    d = h.j["d"]
    while d["k"] == "Mixture":
        d = d["inner"]
    k, pl = d["k"], h.pl
    if k in ("Gaussian", "GaussianARD"):
        return rng.randn(*(pl + h.S)) * 1.5
    if k == "GMC":
        return rng.randn(*(pl + h.S))
    if k == "Gamma":
        return pos(rng, pl)
    if k == "Wishart":
        return spd_nd(rng, pl, h.S[:len(h.S) // 2])
    if k == "Dirichlet":
        return simplex(rng, pl, h.S[0])
    if k == "Beta":
        return rng.uniform(0.1, 0.9, size=pl)
    if k == "Categorical":
        return rng.randint(0, d["K"], size=pl)
    if k == "Bernoulli":
        return rng.randint(0, 2, size=pl)
    if k == "Binomial":
        n = trials_of(h.j["d"], pl)
        return np.minimum(rng.randint(0, n.max() + 1, size=pl), n)
    if k == "Multinomial":
        x = np.array([rng.multinomial(n, np.ones(h.S[0]) / h.S[0]) for n in trials_of(h.j["d"], pl).ravel()])
        return x.reshape(pl + h.S)
    if k == "Poisson":
        return rng.poisson(3.0, size=pl)
    if k == "CMC":
        return rng.randint(0, d["K"], size=pl + (d["N"],))
    if k == "GaussianGamma":
        return np.concatenate([rng.randn(*(pl + (int(np.prod(h.S, dtype=int)),))), pos(rng, pl + (1,))], axis=-1)
    raise NotImplementedError(k)


def rmask(rng, pl, p=0.7):
    r = rng.rand()
    if r < 0.2:
        return bool(rng.rand() < 0.8)
    sh = pl if r < 0.8 else sub(rng, pl)
    return rng.rand(*sh) < p


def mask_for(rng, h, p=0.7):
    m = np.asarray(rng.rand(*h.pl) < p)
    return m if m.shape else bool(m)


# ------------------------------------------------------------------ driving
def sweep(rng, m, hs, n=2, masks=0.0, via=True):
    hs = list(hs)
    if hs and via and rng.rand() < .35:
        # one call of VB.update for several nodes and iterations
        o = [hs[i] for i in rng.randint(len(hs), size=rng.randint(1, len(hs) + 2))]
        for h in hs:
            if h not in o:
                o.append(h)
        # (a point estimate is taken as recorded: one value per iteration)
        o = [h for i, h in enumerate(o) if h.j["d"]["k"] not in POINT or h not in o[:i]]
        m.sweep(o if rng.rand() < .7 else [], n, names=bool(rng.rand() < .4))
        return
    for _ in range(n):
        o = list(hs)
        rng.shuffle(o)
        for h in o:
            m.update(h, rng.choice(["node", "vb", "name"]) if via else "node")


def latents(m):
    return [h for h in m.stochs() if not np.all(h.node.observed)]


def spread(rng, m, hs):
    """Break symmetries: random initial parameters for some nodes."""
    for h in hs:
        try:
            m.initvalue(h, sample(rng, h))
        except NotImplementedError:
            pass


WAKE = ("GaussianARD", "Gaussian", "Gamma", "Dirichlet", "Beta")


def wake(rng, m, obs, p=.6):
    """Parameters start at different values: clusters, states and factors
    that all start alike stay alike."""
    if rng.rand() < p:
        q = rng.choice([.4, 1.])
        spread(rng, m, [h for h in m.stochs() if h not in obs and h.j["d"]["k"] in WAKE and rng.rand() < q])


DRIVER = []           # other ways to exercise the models of the families


def with_driver(driver, f, rng, id, masked, **kw):
    state = rng.get_state()

    def rebuild():
        r = np.random.RandomState()
        r.set_state(state)
        DRIVER.append(lambda rng, m, obs, masked: m)
        try:
            return f(r, id, masked=masked, **kw)
        finally:
            DRIVER.pop()

    def drv(rng, m, obs, masked):
        m.rebuild = rebuild
        return driver(rng, m, obs, masked)
    DRIVER.append(drv)
    try:
        return f(rng, id, masked=masked, **kw)
    finally:
        DRIVER.pop()


def drive(rng, m, obs, init=(), sweeps=2, masked=False, extra=True):
    """Observe, initialise, update in random order, query."""
    if DRIVER:
        m._obs = list(obs)
        return DRIVER[-1](rng, m, list(obs), masked)
    m.start()
    for h in init:
        m.initvalue(h, sample(rng, h))
    wake(rng, m, list(obs) + list(init))
    for h in obs:
        mk = mask_for(rng, h) if masked else True
        m.observe(h, sample(rng, h), mask=mk)
    sweep(rng, m, [h for h in m.stochs() if h not in obs or masked], sweeps)
    if extra:
        h = m.stochs()[rng.randint(len(m.stochs()))]
        m.moments(h)
    return m


# ------------------------------------------------------------------ families
def f_normal(rng, id, masked=False):
    """scalar GaussianARD with unknown mean and precision, random plates"""
    m = Model(id)
    pl = plates(rng)
    pm, pt = sub(rng, pl), sub(rng, pl)
    a0 = pos(rng, sub(rng, pt)) if rng.rand() < .5 else 1e-1
    tau = m.Gamma(a0, pos(rng, sub(rng, pt)), plates=pt, name="tau")
    mu = m.GaussianARD(rng.randn(*sub(rng, pm)), pos(rng, sub(rng, pm)), plates=pm, name="mu")
    give = bool(rng.rand() < .7) or bcast(pm, pt) != pl
    Y = m.GaussianARD(mu, tau, plates=pl, name="Y", give=give)
    return drive(rng, m, [Y], masked=masked)


def f_ard(rng, id, masked=False):
    """GaussianARD arrays: variable axes of parents and children differ"""
    m = Model(id)
    D = int(rng.randint(1, 4))
    pl = plates(rng, 4, 1)
    full = pl + (D,)
    pa = sub(rng, full)
    al = m.Gamma(pos(rng), pos(rng, sub(rng, pa)), plates=pa, name="alpha")
    r = rng.rand()
    X = m.GaussianARD(rng.randn(*sub(rng, full)), al, shape=(D,), plates=pl, name="X")
    tau = m.Gamma(pos(rng), pos(rng), plates=sub(rng, full), name="tau")
    if r < .5:
        Y = m.GaussianARD(X, tau, shape=(D,), plates=pl, name="Y")
    elif r < .75:
        Y = m.GaussianARD(X, tau, shape=(D,), plates=(2,) + pl, name="Y")
    else:
        # a plate of the parent becomes a variable axis of the child
        n = pl[0] if pl else int(rng.randint(2, 4))
        Y = m.GaussianARD(X, tau, shape=(n, D), plates=(), name="Y")
    return drive(rng, m, [Y], masked=masked)


def gvec(rng, m, pl, D, name, scale=1.):
    """A latent Gaussian vector with plates, or an array of which some axes serve
    as the plates of its reader."""
    r = rng.rand()
    if r < .4:
        return m.Gaussian(scale * rng.randn(*(sub(rng, pl) + (D,))), spd(rng, sub(rng, pl), D), plates=pl, name=name)
    k = 0 if r < .6 else int(rng.randint(0, len(pl) + 1))
    al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl + (D,)), name=name + "_a") if rng.rand() < .4 else \
        pos(rng, sub(rng, pl + (D,)))
    return m.GaussianARD(scale * rng.randn(*sub(rng, pl + (D,))), al, shape=pl[len(pl) - k:] + (D,), plates=pl[:len(pl) - k],
                         name=name)


def f_wishart(rng, id, masked=False):
    m = Model(id)
    D = int(rng.randint(1, 4))
    pl = plates(rng, 6)
    if D == 3:
        pl = plates(rng, 3, 1)
    pm, pL = sub(rng, pl), sub(rng, pl) if rng.rand() < .5 else pl
    mu = gvec(rng, m, pm, D, "mu")
    V = spd(rng, sub(rng, pL), D)
    if rng.rand() < .6 and D < 3:
        V = m.Wishart(D + 1.5, spd(rng, (), D), plates=sub(rng, pL), name="V")
    L = m.Wishart(D + pos(rng, sub(rng, pL) if rng.rand() < .5 else pL), V, plates=pL, name="Lambda")
    Y = m.Gaussian(mu, L, plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_convert(rng, id, masked=False):
    """diagonal and scaled Wishart matrices, tiled plates"""
    m = Model(id)
    D = int(rng.randint(1, 4))
    pl = plates(rng, 6)
    if D == 3:
        pl = plates(rng, 3, 1)
    pL = sub(rng, pl)
    r = rng.rand()
    if r < .35:
        A = m.Gamma(pos(rng, sub(rng, pL + (D,))), pos(rng, sub(rng, pL + (D,))), plates=pL + (D,), name="A")
        if rng.rand() < .2:
            A = m.getitem(A, tuple([slice(None)] * len(pL) + [slice(None, None, -1)])) if rng.rand() < .5 else A
        L = m.diag(A, rng.choice(["diag", "as_diagonal_wishart", "diagonal"]))
    elif r < .7:
        L = m.Wishart(D + 1.5, spd(rng, (), D), plates=sub(rng, pL), name="W")
        L = m.scale(L, m.Gamma(pos(rng), pos(rng), plates=pL, name="a") if rng.rand() < .7 else pos(rng, pL))
    else:
        t = [int(rng.randint(1, 4)) for _ in range(rng.randint(1, 3))]
        pp = plates(rng, 4, 2)
        kind = rng.randint(4)
        X = [lambda: m.GaussianARD(rng.randn(), pos(rng), plates=pp, shape=(), name="X"),
             lambda: m.Gaussian(rng.randn(D), spd(rng, (), D), plates=pp, name="X"),
             lambda: m.Gamma(pos(rng), pos(rng), plates=pp, name="X"),
             lambda: m.Dirichlet(pos(rng, (2,)), plates=pp, name="X")][kind]()
        T = m.tile(X, t[0] if len(t) == 1 and rng.rand() < .5 else tuple(t), name="T")
        if rng.rand() < .3:
            T = m.tile(T, 2, name="TT")
        pl = T.pl
        Y = [lambda: m.GaussianARD(T, m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl), name="tau"), plates=pl, name="Y"),
             lambda: m.Gaussian(T, spd(rng, (), D), plates=pl, name="Y"),
             lambda: m.GaussianARD(rng.randn(*sub(rng, pl)), T, plates=pl, name="Y"),
             lambda: m.Categorical(T, plates=pl, name="Y")][kind]()
        return drive(rng, m, [Y], masked=masked)
    if rng.rand() < .2 and r < .35:
        L = m.scale(L, m.Gamma(pos(rng), pos(rng), plates=sub(rng, pL), name="a")) if hasattr(L.node, "scale") else L
    k = rng.rand()
    if k < .3 and D < 3:
        V = m.Wishart(D + 1.5, L, plates=sub(rng, pl) if not L.pl else bcast(L.pl, sub(rng, pl)), name="V")
        L = V
    mu = gvec(rng, m, sub(rng, pl), D, "mu")
    pl = bcast(pl, L.pl)
    Y = m.Gaussian(mu, L, plates=pl, name="Y")
    hs = [Y]
    if rng.rand() < .3:
        hs.append(m.Gaussian(rng.randn(D), L, plates=bcast(sub(rng, pl), L.pl), name="Y2"))
    return drive(rng, m, hs, masked=masked)


def f_gammas(rng, id, masked=False):
    """Gamma hierarchies and Poisson leaves"""
    m = Model(id)
    pl = plates(rng)
    b = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl), name="b")
    if rng.rand() < .5:
        b = m.Gamma(pos(rng, sub(rng, b.pl)), b, plates=b.pl, name="bb") if rng.rand() < .5 else b
    r = rng.rand()
    if r < .35:
        Y = m.Gamma(pos(rng, sub(rng, pl)), b, plates=pl, name="Y")
    elif r < .6:
        Y = m.Gamma(1.0, b, plates=pl, name="Y")
    else:
        Y = m.Poisson(b, plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_counts(rng, id, masked=False):
    """Dirichlet/Beta with discrete leaves"""
    m = Model(id)
    pl = plates(rng)
    pp = sub(rng, pl)
    r = rng.randint(4)
    K = int(rng.randint(2, 5))
    if r < 2:
        p = m.Dirichlet(pos(rng, sub(rng, pp) + (K,)), plates=pp, name="p")
        if r == 0:
            Y = m.Categorical(p, plates=pl, name="Y")
        else:
            Y = m.Multinomial(numbers(rng, pl), p, plates=pl, name="Y")
    else:
        p = m.Beta(pos(rng, sub(rng, pp) + (2,)), plates=pp, name="p")
        if r == 2:
            q = m.complement(p, name="q") if rng.rand() < .3 else p
            Y = m.Bernoulli(q, plates=pl, name="Y")
        else:
            Y = m.Binomial(numbers(rng, pl), p, plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_latent_counts(rng, id, masked=False):
    """discrete nodes left latent (marginal predictive)"""
    m = Model(id)
    pl = plates(rng)
    K = int(rng.randint(2, 5))
    k = rng.randint(5)
    if k == 0:
        Y = m.Categorical(simplex0(rng, sub(rng, pl), K), plates=pl, name="Y")
    elif k == 1:
        Y = m.Multinomial(numbers(rng, pl), simplex0(rng, sub(rng, pl), K), plates=pl, name="Y")
    elif k == 2:
        Y = m.Bernoulli(rng.uniform(.1, .9, size=sub(rng, pl)), plates=pl, name="Y")
    elif k == 3:
        Y = m.Binomial(numbers(rng, pl), rng.uniform(.1, .9, size=sub(rng, pl)), plates=pl, name="Y")
    else:
        Y = m.Poisson(pos(rng, sub(rng, pl)), plates=pl, name="Y")
    m.start()
    m.update(Y)
    m.observe(Y, sample(rng, Y), mask=mask_for(rng, Y, .5))
    m.update(Y, "vb")
    m.logpdf(Y, sample(rng, Y))
    return m


def f_gnd(rng, id, masked=False):
    """Gaussian nodes whose variables are scalars or matrices"""
    m = Model(id)
    S = [(), (), (2, 2), (1, 2), (2, 1)][rng.randint(5)]
    nd = len(S)
    pl = plates(rng, 6 if nd == 0 else 3, 2 if nd == 0 else 1)

    def prec(pp, name):
        if nd == 0 and rng.rand() < .5:
            A = m.Gamma(pos(rng, sub(rng, pp)), pos(rng), plates=pp, name=name)
            return m.as_wishart(A, name + "w")
        return spd_nd(rng, pp, S)

    def mean(pp, name):
        r = rng.randint(5)
        if r == 0:
            return rng.randn(*(pp + S))
        X = m.GaussianARD(rng.randn(*(sub(rng, pp) + S)), pos(rng, S), shape=S, plates=pp, name=name) if r < 3 else \
            m.Gaussian(rng.randn(*(sub(rng, pp) + S)), prec(sub(rng, pp), name + "L"), plates=pp, ndim=nd, name=name)
        if r == 2:
            return m.Add(X, rng.randn(*(sub(rng, pp) + S)), name=name + "a")
        if r == 4 and pp:
            return m.getitem(X, tuple(slice(None, None, -1) for _ in pp), name=name + "r")
        return X
    mu = mean(sub(rng, pl), "mu")
    L = prec(sub(rng, pl), "L")
    full = bcast(getattr(mu, "pl", ()) if hasattr(mu, "pl") else (), L.pl if hasattr(L, "pl") else (), pl)
    Y = m.Gaussian(mu, L, plates=full, ndim=nd, name="Y")
    obs = [Y]
    r = rng.rand()
    if r < .3:
        Z = m.GaussianARD(Y, pos(rng, S), shape=S, plates=full, name="Z")
        obs = [Z, Y] if masked else [Z]
    elif r < .5:
        Z = m.Gaussian(Y, prec((), "L3"), plates=full, ndim=nd, name="Z")
        obs = [Z]
    return drive(rng, m, obs, masked=masked)


def f_gaussgamma(rng, id, masked=False):
    """GaussianGamma as parent of Gaussian, or latent"""
    m = Model(id)
    D = int(rng.randint(1, 3))
    pl = plates(rng, 5)
    pp = sub(rng, pl)
    b = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pp), name="b") if rng.rand() < .4 else pos(rng, sub(rng, pp))
    mu = m.Gaussian(rng.randn(D), spd(rng, (), D), plates=sub(rng, pp), name="m0") if rng.rand() < .4 else \
        rng.randn(*(sub(rng, pp) + (D,)))
    La = m.Wishart(D + 2.0, spd(rng, (), D), plates=sub(rng, pp), name="L0") if rng.rand() < .3 else \
        spd(rng, sub(rng, pp), D)
    X = m.GaussianGamma(mu, La, pos(rng, sub(rng, pp)) + 1, b, plates=pp, name="X")
    L2 = m.Wishart(D + 2.0, spd(rng, (), D), plates=sub(rng, pl), name="L2") if rng.rand() < .5 else spd(rng, sub(rng, pl), D)
    Y = m.Gaussian(X, L2, plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def spd_nd(rng, pl, S):
    """positive definite arrays with axes S + S"""
    n = int(np.prod(S, dtype=int))
    return spd(rng, pl, n).reshape(tuple(pl) + tuple(S) + tuple(S))


def _gg(rng, m, pp, S=(2,), name="X", deep=True):
    """A Gaussian-gamma node with random constant or latent parents"""
    nd, D = len(S), int(np.prod(S, dtype=int))
    b = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pp), name=name + "b") if deep and rng.rand() < .4 else pos(rng, sub(rng, pp))
    r = rng.rand()
    if deep and r < .25:
        mu = m.GaussianARD(rng.randn(*S), pos(rng, S), shape=S, plates=sub(rng, pp), name=name + "m")
    elif deep and r < .4:
        mu = _gg(rng, m, sub(rng, pp), S, name + "g", deep=False)
    else:
        mu = rng.randn(*(sub(rng, pp) + S))
    if nd == 1 and deep and rng.rand() < .3:
        La = m.Wishart(D + 2.0, spd(rng, (), D), plates=sub(rng, pp), name=name + "L")
    else:
        La = spd_nd(rng, sub(rng, pp), S)
    return m.GaussianGamma(mu, La, pos(rng, sub(rng, pp)) + 1, b, plates=pp, name=name, ndim=nd)


def f_ggauss(rng, id, masked=False):
    """Gaussian-gamma variables in every place that accepts them"""
    m = Model(id)
    pl = plates(rng, 4)
    k = rng.randint(9)
    obs = []
    if k == 0:
        # mean and precision of a scalar Gaussian
        X = _gg(rng, m, sub(rng, pl), ())
        al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl), name="al") if rng.rand() < .5 else pos(rng, sub(rng, pl))
        Y = m.GaussianARD(X, al, plates=pl, name="Y")
    elif k == 1:
        # of a Gaussian array
        S = [(2,), (1, 2), (2, 2), ()][rng.randint(4)]
        X = _gg(rng, m, sub(rng, pl), S)
        Y = m.Gaussian(X, spd_nd(rng, sub(rng, pl), S), plates=pl, name="Y", ndim=len(S))
    elif k <= 3:
        # linear regression with unknown noise
        X = _gg(rng, m, sub(rng, pl), (2,))
        W = m.GaussianARD(rng.randn(2), 1., shape=(2,), plates=sub(rng, pl), name="W") if rng.rand() < .5 else \
            rng.randn(*(sub(rng, pl) + (2,)))
        ps = [W, X] if rng.rand() < .5 else [X, W]
        if rng.rand() < .2:
            ps.append(_gg(rng, m, sub(rng, pl), (2,), "X2", deep=False))
        F = m.Dot(*ps, name="F") if rng.rand() < .4 else m.SumMultiply(",".join("i" * len(ps)), *ps, name="F")
        al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl), name="al") if rng.rand() < .5 else pos(rng, sub(rng, pl))
        Y = m.GaussianARD(F, al, plates=bcast(F.pl, pl), name="Y")
    elif k == 4:
        # a matrix of them applied to a vector
        X = _gg(rng, m, sub(rng, pl), (2, 2), deep=False)
        F = m.SumMultiply("ij,j->i" if rng.rand() < .5 else "ij,i->j", X, rng.randn(2), name="F")
        Y = m.Gaussian(F, spd(rng, (), 2), plates=bcast(F.pl, pl), name="Y")
    elif k == 5:
        K = 2
        X = _gg(rng, m, (sub(rng, pl) if rng.rand() < .4 else ()) + (K,), (2,))
        Z = m.Categorical(simplex(rng, (), K), plates=sub(rng, pl), name="Z")
        r = rng.rand()
        if r < .5:
            G = m.Gate(Z, X, name="G")
            Y = m.Gaussian(G, spd(rng, (), 2), plates=bcast(G.pl, pl), name="Y")
        else:
            Y = m.Mixture(Z, "Gaussian", X, spd(rng, (), 2), plates=bcast(Z.pl, X.pl[:-1], pl), name="Y")
    elif k == 6:
        n = int(rng.randint(1, 4))
        X = _gg(rng, m, (n,), (2,))
        r = rng.randint(3)
        if r == 0:
            V = m.getitem(X, rindex(rng, (n,)), name="V")
        elif r == 1:
            V = m.Take(X, rng.randint(n, size=3), name="V")
        else:
            V = m.Concatenate(X, _gg(rng, m, (2,), (2,), "X2", deep=False), name="V")
        Y = m.Gaussian(V, spd(rng, (), 2), plates=V.pl, name="Y")
    elif k == 7:
        # rows of the dynamics of a chain
        D, N = 2, int(rng.randint(2, 4))
        A = _gg(rng, m, (D,), (D,), deep=bool(rng.rand() < .3))
        X = m.GaussianMarkovChain(rng.randn(D), spd(rng, (), D), A, np.ones(D), N, plates=(), name="X1")
        V = m.chain_states(X)
        Y = m.Gaussian(_view(V, X), spd(rng, (), D), plates=(N,), name="Y")
    else:
        # a mixture of them
        K = 2
        Z = m.Categorical(simplex(rng, (), K), plates=sub(rng, pl), name="Z")
        Y = m.Mixture(Z, "GaussianGamma", rng.randn(K, 2), m.Wishart(3., spd(rng, (), 2), plates=(K,), name="L"),
                      2. + rng.rand(), m.Gamma(pos(rng), pos(rng), plates=(K,), name="b"), plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def _mix(rng, m, inner, K, pl, cp=-1, Zp=None, latent_params=True):
    """Mixture with clusters at plate axis cp of the parameters"""
    pz = sub(rng, pl) if Zp is None else Zp
    a = m.Dirichlet(pos(rng, (K,)), plates=sub(rng, pz), name="alpha") if rng.rand() < .7 else simplex0(rng, (), K)
    Z = m.Categorical(a, plates=pz, name="Z")
    # plates of the parameters: cluster axis inserted at cp
    def pp(full_ok=True):
        q = list(sub(rng, pl)) if rng.rand() < .5 else [1] * (-cp - 1)
        n = -cp - 1
        q = [1] * max(0, n - len(q)) + q
        q = q[:len(q) - n] + [K] + q[len(q) - n:]
        if rng.rand() < .3:
            q = q[len(q) - n - 1:]
        return tuple(q)
    n = None
    L = latent_params
    if inner == "GaussianARD":
        par = [m.GaussianARD(rng.randn(), pos(rng), plates=pp(), name="mu") if L else rng.randn(*pp()),
               m.Gamma(pos(rng), pos(rng), plates=pp(), name="tau") if rng.rand() < .7 else pos(rng, pp())]
    elif inner == "GaussianARD1":
        inner, n = "GaussianARD", ((2,), (2,), (1,), (2, 2))[rng.randint(4)]
        q = pp()
        par = [m.GaussianARD(rng.randn(*n), pos(rng), shape=n, plates=q, name="mu") if rng.rand() < .5 else
               m.GaussianARD(rng.randn(), pos(rng), plates=q + n, name="mu") if rng.rand() < .6 else rng.randn(*(q + n)),
               m.Gamma(pos(rng), pos(rng), plates=pp() + tuple(1 if rng.rand() < .3 else k for k in n), name="tau") if rng.rand() < .7 else
               pos(rng, pp() + n)]
    elif inner == "Gaussian":
        D = 2
        par = [gvec(rng, m, pp(), D, "mu"),
               m.Wishart(D + 1., spd(rng, (), D), plates=pp(), name="Lambda")]
    elif inner == "Gamma":
        par = [pos(rng, pp()), m.Gamma(pos(rng), pos(rng), plates=pp(), name="b")]
    elif inner == "Wishart":
        par = [3.0 + pos(rng), m.Wishart(3., spd(rng, (), 2), plates=pp(), name="V")]
    elif inner in ("Categorical", "Multinomial"):
        n = numbers(rng, pl, cp)
        par = [m.Dirichlet(pos(rng, (3,)), plates=pp(), name="P")]
    elif inner in ("Bernoulli", "Binomial"):
        n = numbers(rng, pl, cp)
        par = [m.Beta(pos(rng, (2,)), plates=pp(), name="P")]
    elif inner == "Poisson":
        par = [m.Gamma(pos(rng), pos(rng), plates=pp(), name="r")]
    elif inner == "Dirichlet":
        par = [pos(rng, pp() + (3,))]
    elif inner == "Beta":
        par = [pos(rng, pp() + (2,))]
    Y = m.Mixture(Z, inner, *par, cp=cp, plates=pl, name="Y", n=n)
    return Z, Y


INNERS = ["GaussianARD", "GaussianARD1", "Gaussian", "Gamma", "Categorical", "Multinomial", "Bernoulli", "Binomial",
          "Poisson", "Wishart", "Dirichlet", "Beta"]


def f_mixture(rng, id, masked=False, inner=None, cp=-1):
    m = Model(id)
    inner = inner or INNERS[rng.randint(len(INNERS))]
    pl = plates(rng, 4)
    while len(pl) < -cp - 1:
        pl = plates(rng, 6)
    K = int(rng.randint(2, 4))
    Z, Y = _mix(rng, m, inner, K, pl, cp)
    return drive(rng, m, [Y], init=[Z] if rng.rand() < .6 else [], masked=masked)


def f_mixture_cp(rng, id, masked=False):
    return f_mixture(rng, id, masked, cp=-2)


def f_mixcounts(rng, id, masked=False):
    """mixtures of counts whose numbers of trials differ"""
    return f_mixture(rng, id, masked, inner=("Binomial", "Multinomial")[rng.randint(2)], cp=-int(rng.randint(1, 4)))


def f_mixture_latent(rng, id, masked=False):
    """mixture left latent with a child (Mixture as a parent)"""
    m = Model(id)
    pl = plates(rng, 4, 1)
    K = 2
    Z, X = _mix(rng, m, "GaussianARD", K, pl)
    X.j["name"] = X.name
    Y = m.GaussianARD(X, m.Gamma(pos(rng), pos(rng), name="tau2"), plates=pl, name="YY")
    return drive(rng, m, [Y], masked=masked)


def f_mixture2(rng, id, masked=False):
    """mixture of mixtures"""
    m = Model(id)
    K1, K2 = 2, int(rng.randint(2, 4))
    N = int(rng.randint(1, 4))
    Z1 = m.Categorical(simplex(rng, (), K1), plates=(N,), name="Z1")
    # Z2 is a parent of the mixed distribution: cluster axis of Z1 at -1
    Z2 = m.Categorical(simplex(rng, (), K2), plates=(N, 1) if rng.rand() < .5 else (N, K1), name="Z2")
    mu = m.GaussianARD(0., .3, plates=(K1, K2) if rng.rand() < .7 else (K2,), name="mu")
    tau = m.Gamma(pos(rng), pos(rng), plates=(K1, K2) if rng.rand() < .5 else (K1, 1), name="tau")
    Y = m.Mixture2(Z1, Z2, "GaussianARD", mu, tau, plates=(N,), name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_multimix(rng, id, masked=False):
    """mixtures over several axes with separate assignments"""
    m = Model(id)
    n = int(rng.choice([1, 2, 2, 3]))
    Ks = [int(rng.randint(2, 4)) if n < 3 else 2 for _ in range(n)]
    pl = plates(rng, 2, 3) if n < 3 else plates(rng, 1, 2)
    Zs = []
    for i, K in enumerate(Ks):
        if i and rng.rand() < .2:
            Zs.append((rng.randint(K, size=pl), K))
        else:
            p = m.Dirichlet(pos(rng, (K,)), name="p%d" % i) if rng.rand() < .4 else simplex0(rng, (), K)
            Zs.append(m.Categorical(p, plates=pl, name="Z%d" % i))

    def pp():
        """plates of a parameter: all cluster axes, some shared"""
        q = tuple(1 if rng.rand() < .25 else K for K in Ks[:-1]) + (Ks[-1],)
        return (sub(rng, pl) if rng.rand() < .3 else ()) , q

    def join(a):
        b, q = a
        return tuple(b) + q
    inner = ["GaussianARD", "GaussianARD", "Poisson", "Categorical", "Gaussian", "Bernoulli", "Gamma"][rng.randint(7)]
    if inner == "GaussianARD":
        ps = [m.GaussianARD(0., .3, plates=join(pp()), name="mu"), m.Gamma(pos(rng), pos(rng), plates=join(pp()), name="tau")]
    elif inner == "Poisson":
        ps = [m.Gamma(pos(rng), pos(rng), plates=join(pp()), name="r")]
    elif inner == "Categorical":
        ps = [m.Dirichlet(pos(rng, (2,)), plates=join(pp()), name="q")]
    elif inner == "Gaussian":
        ps = [m.Gaussian(rng.randn(2), spd(rng, (), 2), plates=join(pp()), name="mu"),
              m.Wishart(3., spd(rng, (), 2), plates=join(pp()), name="L")]
    elif inner == "Bernoulli":
        ps = [m.Beta(pos(rng, (2,)), plates=join(pp()), name="q")]
    else:
        ps = [pos(rng, join(pp())), m.Gamma(pos(rng), pos(rng), plates=join(pp()), name="b")]
    # at least one parameter has every cluster axis
    sh = [tuple(p.pl) if hasattr(p, "pl") else np.shape(p) for p in ps]
    if bcast(*sh, tuple(Ks))[-n:] != bcast(*sh)[-n:]:
        ps[-1] = {"Gaussian": lambda: m.Wishart(3., spd(rng, (), 2), plates=tuple(Ks), name="L2"),
                  "Poisson": lambda: m.Gamma(pos(rng), pos(rng), plates=tuple(Ks), name="r2"),
                  "Categorical": lambda: m.Dirichlet(pos(rng, (2,)), plates=tuple(Ks), name="q2"),
                  "Bernoulli": lambda: m.Beta(pos(rng, (2,)), plates=tuple(Ks), name="q2")}.get(
                      inner, lambda: m.Gamma(pos(rng), pos(rng), plates=tuple(Ks), name="b2"))()
    Y = m.MultiMixture(Zs, inner, *ps, plates=pl, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_pca(rng, id, masked=False):
    """Dot of two Gaussian arrays over plates"""
    m = Model(id)
    D = int(rng.randint(1, 3))
    M, N = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    al = m.Gamma(pos(rng), pos(rng), plates=(D,), name="alpha")
    W = m.GaussianARD(0., al, shape=(D,), plates=(M, 1), name="W")
    X = m.GaussianARD(0., 1., shape=(D,), plates=(1, N) if rng.rand() < .5 else (N,), name="X")
    F = m.Dot(W, X, name="F") if rng.rand() < .5 else m.SumMultiply("d,d->" if rng.rand() < .5 else "d,d", W, X, name="F")
    tau = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (M, N)), name="tau")
    Y = m.GaussianARD(F, tau, plates=(M, N), name="Y")
    return drive(rng, m, [Y], init=[X] if rng.rand() < .5 else [], masked=masked)


SM = [("i,i", ((2,), (2,))), ("i,j->ij", ((2,), (2,))), ("ij,j->i", ((2, 2), (2,))), ("i->i", ((2,),)),
      ("i,i->i", ((2,), (2,))), ("i->", ((3,),)), ("ij->ji", ((2, 2),)), ("i,i,i", ((2,), (2,), (2,))),
      (",i->i", ((), (2,))), ("ij,i,j->", ((2, 2), (2,), (2,))), ("ij->j", ((2, 2),)),
      ("ij,ij->", ((2, 2), (2, 2))), ("i,j->j", ((2,), (2,))), (",->", ((), ())), ("i,ij->j", ((2,), (2, 2)))]


def f_summul(rng, id, masked=False):
    m = Model(id)
    spec, shapes = SM[rng.randint(len(SM))]
    pl = plates(rng, 3, 2)
    xs = []
    for k, sh in enumerate(shapes):
        if k > 0 and rng.rand() < .2:
            xs.append(rng.randn(*(sub(rng, pl) + sh)))
        else:
            full = sub(rng, pl)
            xs.append(m.GaussianARD(rng.randn(*sh), pos(rng, sh), shape=sh, plates=full, name="X%d" % k))
    F = m.SumMultiply(spec, *xs, name="F")
    out = F.dims[0]
    P = bcast(F.pl, pl)
    if rng.rand() < .5:
        Y = m.GaussianARD(F, m.Gamma(1., 1., plates=sub(rng, P), name="tau") if rng.rand() < .5 else pos(rng, sub(rng, P)),
                          shape=(), plates=P + out, name="Y") if not out else \
            m.GaussianARD(F, m.Gamma(1., 1., plates=sub(rng, P + out), name="tau"), shape=out, plates=P, name="Y")
    else:
        Y = m.GaussianARD(F, pos(rng, sub(rng, P + out)), shape=out, plates=P, name="Y")
    return drive(rng, m, [Y], masked=masked, sweeps=1 if len(shapes) > 2 or len(out) > 1 else 2)


def f_add(rng, id, masked=False):
    m = Model(id)
    pl = plates(rng, 4, 2)
    sh = [(), (2,), (2,), (1, 2)][rng.randint(4)]
    n = int(rng.randint(2, 4))
    xs = [m.GaussianARD(rng.randn(*sh), pos(rng, sh), shape=sh, plates=sub(rng, pl), name="X%d" % i) for i in range(n)]
    if rng.rand() < .3:
        xs.append(rng.randn(*(sub(rng, pl) + sh)))
    F = m.Add(*xs, name="F")
    P = bcast(F.pl, pl)
    Y = m.GaussianARD(F, m.Gamma(1., 1., plates=sub(rng, P + sh), name="tau"), shape=sh, plates=P, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_concatg(rng, id, masked=False):
    m = Model(id)
    pl = plates(rng, 3, 2)
    n = int(rng.randint(1, 4))
    xs = [m.GaussianARD(rng.randn(d), pos(rng, (d,)), shape=(d,), plates=sub(rng, pl), name="X%d" % i)
          for i, d in enumerate(rng.randint(1, 3, size=n))]
    F = m.ConcatGaussian(*xs, name="F")
    D = F.dims[0][0]
    P = bcast(F.pl, pl)
    if rng.rand() < .5:
        Y = m.Gaussian(F, spd(rng, sub(rng, P), D), plates=P, name="Y")
    else:
        Y = m.GaussianARD(F, m.Gamma(1., 1., plates=sub(rng, P + (D,)), name="tau"), shape=(D,), plates=P, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_gate(rng, id, masked=False):
    m = Model(id)
    pl = plates(rng, 4, 2)
    K = int(rng.randint(2, 4))
    gp = -1 if rng.rand() < .6 or len(pl) == 0 else -2
    Z = m.Categorical(simplex(rng, (), K), plates=sub(rng, pl), name="Z")
    def gpl():
        q = list(sub(rng, pl))
        n = -gp - 1
        q = [1] * max(0, n - len(q)) + q
        return tuple(q[:len(q) - n] + [K] + q[len(q) - n:])
    k = rng.randint(3)
    if k == 0:
        X = m.GaussianARD(rng.randn(2), pos(rng), shape=(2,), plates=gpl(), name="X")
        G = m.Gate(Z, X, gp, name="G")
        P = bcast(G.pl, pl)
        Y = m.GaussianARD(G, pos(rng, sub(rng, P + (2,))), shape=(2,), plates=P, name="Y")
    elif k == 1:
        X = m.Gamma(pos(rng), pos(rng), plates=gpl(), name="X")
        G = m.Gate(Z, X, gp, name="G")
        P = bcast(G.pl, pl)
        Y = m.Poisson(G, plates=P, name="Y")
    else:
        X = m.Dirichlet(pos(rng, (3,)), plates=gpl(), name="X")
        G = m.Gate(Z, X, gp, name="G")
        P = bcast(G.pl, pl)
        Y = m.Categorical(G, plates=P, name="Y")
    return drive(rng, m, [Y], masked=masked)


def f_choose(rng, id, masked=False):
    m = Model(id)
    pl = plates(rng, 4, 2)
    K = int(rng.randint(2, 4))
    Z = m.Categorical(simplex(rng, (), K), plates=sub(rng, pl), name="Z")
    if rng.rand() < .5:
        xs = [m.GaussianARD(rng.randn(), pos(rng), plates=sub(rng, pl), name="X%d" % k) for k in range(K)]
        G = m.Choose(Z, *xs, name="G")
        P = bcast(G.pl, pl)
        Y = m.GaussianARD(G, m.Gamma(1., 1., plates=sub(rng, P), name="tau"), plates=P, name="Y")
    else:
        xs = [m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl), name="X%d" % k) for k in range(K)]
        G = m.Choose(Z, *xs, name="G")
        P = bcast(G.pl, pl)
        Y = m.GaussianARD(0.3, G, plates=P, name="Y")
    return drive(rng, m, [Y], masked=masked)


def _leaf(rng, m, X, name, plates=None):
    """An observable child of X with X's plates (or the given ones)."""
    P = tuple(plates if plates is not None else X.pl)
    k = len(X.dims)
    if X.kind == "g":
        sh = X.dims[0]
        return m.GaussianARD(X, pos(rng, sub(rng, P + sh)), shape=sh, plates=P, name=name)
    if X.kind == "gamma":
        return m.Poisson(X, plates=P, name=name)
    if X.kind == "dir":
        return m.Categorical(X, plates=P, name=name)
    if X.kind == "beta":
        return m.Bernoulli(X, plates=P, name=name)


def _source(rng, m, pl, name):
    k = ["g", "g2", "gamma", "dir", "beta"][rng.randint(5)]
    if k == "g":
        X = m.GaussianARD(rng.randn(), pos(rng), plates=pl, name=name)
    elif k == "g2":
        X = m.GaussianARD(rng.randn(2), pos(rng), shape=(2,), plates=pl, name=name)
    elif k == "gamma":
        X = m.Gamma(pos(rng), pos(rng), plates=pl, name=name)
    elif k == "dir":
        X = m.Dirichlet(pos(rng, (3,)), plates=pl, name=name)
    else:
        X = m.Beta(pos(rng, (2,)), plates=pl, name=name)
    X.kind = "g" if k in ("g", "g2") else k
    return X


def rindex(rng, pl):
    """random basic index for plates pl (nonempty result)"""
    idx = []
    for n in pl:
        r = rng.rand()
        if r < .25:
            idx.append(int(rng.randint(-n, n)))
        elif r < .5:
            idx.append(slice(None))
        else:
            while True:
                a = [None, int(rng.randint(-n, n))][rng.randint(2)]
                b = [None, int(rng.randint(-n, n + 1))][rng.randint(2)]
                c = [None, 1, 2, -1, -2][rng.randint(5)]
                if len(range(*slice(a, b, c).indices(n))) > 0:
                    break
            idx.append(slice(a, b, c))
        if rng.rand() < .15:
            idx.append(None)
    if rng.rand() < .25 and len(pl) > 0:
        k = rng.randint(0, len(idx) + 1)
        idx.insert(k, Ellipsis)
        # an ellipsis may stand for full slices next to it
        while rng.rand() < .5 and k + 1 < len(idx) and isinstance(idx[k + 1], slice) and idx[k + 1] == slice(None):
            del idx[k + 1]
    elif rng.rand() < .3:
        while idx and isinstance(idx[-1], slice) and idx[-1] == slice(None):
            idx.pop()
    if not idx:
        idx = [slice(None)] if pl else [None]
    return tuple(idx) if len(idx) > 1 or rng.rand() < .5 else idx[0]


def f_slice(rng, id, masked=False):
    m = Model(id)
    while True:
        pl = tuple(int(x) for x in rng.randint(1, 5, size=rng.randint(1, 4)))
        if np.prod(pl) <= 12:
            break
    X = _source(rng, m, pl, "X")
    ys = []
    for k in range(rng.randint(1, 3)):
        S = m.getitem(X, rindex(rng, pl), name="S%d" % k)
        S.kind = X.kind
        if rng.rand() < .25 and len(S.pl) > 0:
            S = m.getitem(S, rindex(rng, S.pl), name="SS%d" % k)
            S.kind = X.kind
        P = S.pl
        if rng.rand() < .3:
            P = (2,) + P
        ys.append(_leaf(rng, m, S, "Y%d" % k, P))
    if rng.rand() < .4:
        ys.append(_leaf(rng, m, X, "Yx"))
    return drive(rng, m, ys, masked=masked or rng.rand() < .5)


def f_take(rng, id, masked=False):
    m = Model(id)
    while True:
        pl = tuple(int(x) for x in rng.randint(1, 5, size=rng.randint(1, 4)))
        if np.prod(pl) <= 12:
            break
    X = _source(rng, m, pl, "X")
    ax = -int(rng.randint(1, len(pl) + 1))
    n = pl[ax]
    ish = [(int(rng.randint(1, 4)),), (2, 2), (1, 2)][rng.randint(3)]
    if rng.rand() < .15:
        ish = ()
    ind = rng.randint(-n if rng.rand() < .3 else 0, n, size=ish)
    S = m.Take(X, ind, axis=ax, name="S")
    S.kind = X.kind
    ys = [_leaf(rng, m, S, "Y")]
    if rng.rand() < .4:
        ys.append(_leaf(rng, m, X, "Yx"))
    return drive(rng, m, ys, masked=masked or rng.rand() < .5)


def f_concat(rng, id, masked=False):
    m = Model(id)
    base = plates(rng, 4, 2)
    if len(base) == 0:
        base = (2,)
    ax = -int(rng.randint(1, len(base) + 1))
    n = int(rng.randint(1, 4))
    st = rng.get_state()
    xs = []
    kind = rng.randint(10 ** 6)
    for i in range(n):
        p = list(base)
        p[ax] = int(rng.randint(1, 3))
        r2 = np.random.RandomState(kind)
        xs.append(_source(r2, m, tuple(p), "X%d" % i))
    C = m.Concatenate(*xs, axis=ax, name="C")
    C.kind = xs[0].kind
    ys = [_leaf(rng, m, C, "Y")]
    if rng.rand() < .3:
        ys.append(_leaf(rng, m, xs[0], "Yx"))
    return drive(rng, m, ys, masked=masked or rng.rand() < .5)


def f_cmc(rng, id, masked=False):
    """Markov chain with mixture emissions or no emissions"""
    m = Model(id)
    K = int(rng.randint(2, 4))
    N = int(rng.randint(2, 5)) if K == 2 else int(rng.randint(2, 4))
    pl = [(), (), (2,)][rng.randint(3)]
    a0 = m.Dirichlet(pos(rng, (K,)), plates=sub(rng, pl), name="a0") if rng.rand() < .7 else simplex0(rng, (), K)
    r = rng.rand()
    if r < .4:
        A = m.Dirichlet(pos(rng, (K,)), plates=(K,), name="A")
    elif r < .7:
        A = m.Dirichlet(pos(rng, (K,)), plates=(N - 1, K), name="A")
    elif r < .85:
        A = m.Dirichlet(pos(rng, (K,)), plates=sub(rng, pl) + (1, K), name="A")
    else:
        A = simplex0(rng, (K,), K)
    Z = m.CategoricalMarkovChain(a0, A, N, plates=pl, name="Z")
    obs = []
    if rng.rand() < .85:
        C = m.chain_states(Z)
        k = rng.randint(3)
        if k == 0:
            mu = m.GaussianARD(0., .2, plates=(K,), name="mu")
            tau = m.Gamma(1., 1., plates=(K,), name="tau")
            Y = m.Mixture(C, "GaussianARD", mu, tau, plates=pl + (N,), name="Y", znode=Z)
        elif k == 1:
            P = m.Dirichlet(pos(rng, (3,)), plates=(K,), name="P")
            Y = m.Mixture(C, "Categorical", P, plates=pl + (N,), name="Y", znode=Z)
        else:
            X = m.Gamma(pos(rng), pos(rng), plates=(K,), name="X")
            G = m.Gate(C, X, name="G", znode=Z)
            Y = m.Poisson(G, plates=pl + (N,), name="Y")
        obs = [Y]
    return drive(rng, m, obs, masked=masked)


def f_gmc(rng, id, masked=False, kind=None):
    """linear state-space models"""
    m = Model(id, rtol=1e-5)
    D = int(rng.randint(1, 3))
    N = int(rng.randint(2, 5))
    pl = [(), (), (2,)][rng.randint(3)]
    if kind is None:
        kind = ["plain", "plain", "inputs"][rng.randint(3)]
    full = kind in ("plain", "inputs")      # the other chains support constants only
    mu = m.Gaussian(np.zeros(D), np.identity(D) * .5, plates=sub(rng, pl), name="mu0") if full and rng.rand() < .3 else \
        rng.randn(*(sub(rng, pl) + (D,)))
    La = m.Wishart(D + 1., spd(rng, (), D), plates=sub(rng, pl), name="La0") if full and rng.rand() < .3 else \
        spd(rng, sub(rng, pl), D)
    tp = (N - 1,) if rng.rand() < .3 else ((1,) if rng.rand() < .3 else ())
    np_ = pl + (tp or (1,)) if pl and rng.rand() < .3 else tp       # the noise may differ between chains
    nu = m.Gamma(pos(rng) + 1, pos(rng), plates=np_ + (D,), name="nu") \
        if full and rng.rand() < .5 else pos(rng, (D,))
    if kind in ("plain", "inputs"):
        Din = 0
        inp = None
        if kind == "inputs":
            Din = int(rng.randint(1, 3))
            inp = m.GaussianARD(rng.randn(), 1., shape=(Din,), plates=(N - 1,), name="U") if rng.rand() < .5 \
                else rng.randn(N - 1, Din)
        ap = (N - 1, D) if rng.rand() < .2 else (D,)
        if rng.rand() < .15 and pl:
            ap = pl + (1, D)
        # the rows of the dynamics may be independent or one array
        k = int(rng.randint(0, len(ap) + 1)) if rng.rand() < .25 else 0
        A = m.GaussianARD(.3, 2., shape=ap[len(ap) - k:] + (D + Din,), plates=ap[:len(ap) - k], name="A") \
            if rng.rand() < .8 else \
            rng.randn(*(ap + (D + Din,)))
        X = m.GaussianMarkovChain(mu, La, A, nu, N, inputs=inp, plates=pl, name="X")
    elif kind == "varying":
        K = int(rng.randint(1, 3))
        B = m.GaussianARD(.3, 2., shape=(D, K), plates=(D,), name="B")
        S = m.GaussianARD(.5, 2., shape=(K,), plates=(N - 1,), name="S")
        X = m.VaryingGMC(mu, La, B, S, nu, N, plates=pl, name="X")
    else:
        K = 2
        B = m.GaussianARD(.3, 2., shape=(D,), plates=(K, D), name="B")
        if rng.rand() < .5 and N > 2:
            Zc = m.CategoricalMarkovChain(m.Dirichlet(pos(rng, (K,)), name="z0"), simplex(rng, (K,), K), N - 1, name="Zc")
            Z = m.chain_states(Zc)
            X = m.SwitchingGMC(mu, La, B, Z, nu, N, plates=pl, name="X", znode=Zc)
        else:
            Z = m.Categorical(simplex(rng, (), K), plates=(N - 1,), name="Z")
            X = m.SwitchingGMC(mu, La, B, Z, nu, N, plates=pl, name="X")
    V = m.chain_states(X)
    obs = []
    r = rng.rand()
    if r < .45:
        Mo = int(rng.randint(1, 3))
        C = m.GaussianARD(0., 1., shape=(D,), plates=(Mo,) + (1,) * (len(pl) + 1), name="C")
        # user: Dot(C, X)
        F = m.Dot(C, _view(V, X), name="F")
        Y = m.GaussianARD(F, m.Gamma(2., 1., name="tau"), plates=(Mo,) + pl + (N,), name="Y")
    elif r < .75:
        Y = m.Gaussian(_view(V, X), m.Wishart(D + 1., spd(rng, (), D), name="R") if rng.rand() < .5 else spd(rng, (), D),
                       plates=pl + (N,), name="Y")
    else:
        Y = m.GaussianARD(_view(V, X), m.Gamma(2., 1., plates=(D,), name="tau"), shape=(D,), plates=pl + (N,), name="Y")
    return drive(rng, m, [Y], masked=masked, sweeps=1 if D * N > 4 else 2)


def _view(V, X):
    """handle of the view V; the user passes the chain itself"""
    V.node = X.node
    V.view = True
    return V


def f_varying(rng, id, masked=False):
    return f_gmc(rng, id, masked, kind="varying")


def f_switching(rng, id, masked=False):
    return f_gmc(rng, id, masked, kind="switching")


# ------------------------------------------------------------------ life cycle
def inner_of(h):
    d = h.j["d"]
    return d["inner"] if d["k"] == "Mixture" else d


def param_values(rng, m, h):
    """Arguments for initialize_from_parameters: (role, nd, value[, extra])"""
    d, pl, S = h.j["d"], h.pl, h.S
    k = d["k"]
    if k == "GaussianARD":
        return [("Gaussian", 0, rng.randn(*(sub(rng, pl + S) if not S else sub(rng, pl) + S))),
                ("Gamma", 0, pos(rng, sub(rng, pl + S) if not S else sub(rng, pl) + S))]
    if k == "Gaussian" and not d["gg"]:
        return [("Gaussian", len(S), rng.randn(*(sub(rng, pl) + S))), ("Wishart", 2 * len(S), spd_nd(rng, sub(rng, pl), S))]
    if k == "GaussianGamma" and not d["gg"]:
        return [("Gaussian", len(S), rng.randn(*(sub(rng, pl) + S))), ("Wishart", 2 * len(S), spd_nd(rng, sub(rng, pl), S)),
                ("cGammaPrior", 0, pos(rng, sub(rng, pl))), ("Gamma", 0, pos(rng, sub(rng, pl)))]
    if k == "Gamma":
        return [("cGammaPrior", 0, pos(rng, sub(rng, pl))), ("Gamma", 0, pos(rng, sub(rng, pl)))]
    if k == "Wishart":
        return [("cWishartPrior", 0, S[0] + pos(rng, sub(rng, pl)), dict(D=S[0])),
                ("Wishart", 2, spd(rng, sub(rng, pl), S[0]))]
    if k in ("Dirichlet", "Beta"):
        return [("cDirichletPrior", 1, pos(rng, sub(rng, pl) + (S if k == "Dirichlet" else (2,))))]
    if k == "Categorical":
        return [("Dirichlet", 1, simplex(rng, sub(rng, pl), d["K"]))]
    if k == "Multinomial":
        return [("Dirichlet", 1, simplex(rng, sub(rng, pl), S[0]))]
    if k in ("Bernoulli", "Binomial"):
        return [("Beta", 0, rng.uniform(.1, .9, size=sub(rng, pl)))]
    if k == "Poisson":
        return [("Gamma", 0, pos(rng, sub(rng, pl)))]
    if k == "CMC":
        return [("Dirichlet", 1, simplex(rng, sub(rng, pl), d["K"])),
                ("Dirichlet", 1, simplex(rng, (d["N"] - 1 if rng.rand() < .5 else 1, d["K"]), d["K"]))]
    return None


def can_draw(h):
    """(the library says that draws of Gaussian matrices are not implemented)"""
    k = h.j["d"]["k"]
    return k in RANDOM_OK and not (k == "Gaussian" and len(h.S) != 1)


def life_step(rng, m, kinds=None):
    """One random public call on a random node."""
    st = m.stochs()
    h = st[rng.randint(len(st))]
    k = h.j["d"]["k"]
    op = rng.choice(kinds or LIFE)
    if op == "update":
        m.update(h, rng.choice(["node", "vb", "name"]))
    elif op == "observe":
        if k in ("CMC",):
            return
        m.observe(h, sample(rng, h), mask=rmask(rng, h.pl))
    elif op == "unobserve":
        m.unobserve(h)
    elif op == "initprior":
        m.initprior(h)
    elif op == "initvalue":
        m.initvalue(h, sample(rng, h))
    elif op == "initparams":
        v = param_values(rng, m, h)
        if v is not None:
            m.initparams(h, *v)
    elif op == "initmom":
        if k == "GaussianARD":
            m.initmom(h, rng.randn(*(sub(rng, h.pl) + h.S)), spd_nd(rng, sub(rng, h.pl), h.S))
    elif op == "setparams":
        # parameters the node has had: those of another legal distribution
        v = param_values(rng, m, h)
        if v is not None and not np.any(h.node.observed):
            m.initparams(h, *v)
            q = h.node.get_parameters()
            m.initprior(h)
            m.setparams(h, q)
    elif op == "initrandom":
        if can_draw(h):
            m.initrandom(h, int(rng.randint(10 ** 6)))
    elif op == "random":
        if can_draw(h):
            m.random(h, int(rng.randint(10 ** 6)))
    elif op == "logpdf":
        if inner_of(h)["k"] not in ("GMC", "CMC") and k != "Mixture":
            m.logpdf(h, sample(rng, h))
    elif op == "natgrad":
        m.natgrad(h)
    elif op == "moments":
        hs = [x for x in m.hs if x.node is not None and not x.view]
        m.moments(hs[rng.randint(len(hs))])
    elif op == "gradstep":
        n = rng.randint(1, len(st) + 1)
        hs = [st[i] for i in rng.permutation(len(st))[:n]]
        m.gradstep(float(rng.choice([.3, .7, 1.0])), *[x for x in hs])
    elif op == "anneal":
        # annealed Wishart factors may have too few degrees of freedom to exist
        if not any(x.j["d"]["k"] == "Wishart" or inner_of(x)["k"] == "Wishart" for x in st):
            m.anneal(float(rng.choice([.25, .5, 1.0])))


LIFE = ["update"] * 6 + ["observe"] * 3 + ["unobserve", "initprior", "initvalue", "initparams", "initmom", "setparams",
                                            "initrandom", "random", "logpdf", "moments"]
RANDOM_OK = ("GaussianARD", "Gaussian", "Gamma", "Dirichlet", "Beta", "Categorical", "Bernoulli",
             "Binomial", "Multinomial", "Poisson")


def life_driver(kinds, n):
    def f(rng, m, obs, masked):
        m.start()
        for h in obs:
            if rng.rand() < .6:
                m.observe(h, sample(rng, h), mask=mask_for(rng, h) if masked else True)
        wake(rng, m, obs, .4)
        for _ in range(n):
            life_step(rng, m, kinds)
        return m
    return f


SMALL = ["normal", "ard", "wishart", "gammas", "counts", "latent_counts", "gaussgamma", "mixture", "mixture_latent",
         "pca", "add", "concatg", "gate", "choose", "slice", "take", "concat", "cmc", "gmc", "gnd", "convert"]


def f_life(rng, id, masked=False, base=None, kinds=None, n=12):
    """random histories of public calls on a model of any family"""
    base = base or SMALL[rng.randint(len(SMALL))]
    return with_driver(life_driver(kinds, n), globals()["f_" + base], rng, id, masked)


def bias_of(seed):
    """random biases of the natural parameters which keep the distributions proper"""
    def f(d, i, pl, S, dims):
        rng = np.random.RandomState((seed + 7919 * i) % 2**32)
        if rng.rand() < .4:
            return None
        while d["k"] == "Mixture":
            d = d["inner"]
        k = d["k"]
        n = int(np.prod(S, dtype=int))

        def neg(sh):
            c = spd(rng, sh, n)
            return -c.reshape(sh + tuple(S) + tuple(S))
        p = [sub(rng, pl) for _ in dims]
        if k in ("Gaussian", "GaussianARD"):
            b = [rng.randn(*(p[0] + dims[0])), neg(p[1])]
        elif k == "Gamma":
            b = [-pos(rng, p[0]), pos(rng, p[1])]
        elif k == "Wishart":
            D = S[0]
            b = [-spd(rng, p[0], D).reshape(p[0] + dims[0]), pos(rng, p[1])]
        elif k in ("Dirichlet", "Beta"):
            b = [pos(rng, p[0] + dims[0])]
        elif k in ("Categorical", "Multinomial", "Bernoulli", "Binomial", "Poisson"):
            b = [rng.randn(*(p[0] + dims[0]))]
        elif k == "CMC":
            b = [rng.randn(*(q + x)) for q, x in zip(p, dims)]
        elif k == "GaussianGamma":
            b = [0., 0., -pos(rng, p[2]), pos(rng, p[3])]
        elif k == "GMC":
            b = [rng.randn(*(p[0] + dims[0])), -spd(rng, p[1] + dims[1][:1], dims[1][-1]), 0.]
        else:
            return None
        return [b[c] if rng.rand() < .7 else 0. for c in range(len(b))]
    return f


BIASED = ["update"] * 5 + ["observe"] * 2 + ["unobserve", "initprior", "initvalue", "initparams", "setparams", "gradstep",
                                              "natgrad", "anneal", "random", "logpdf"]


def f_bias(rng, id, masked=False, base=None, n=10):
    """biases of natural parameters on a model of any family"""
    base = base or SMALL[rng.randint(len(SMALL))]
    Model.BIAS = bias_of(int(rng.randint(2**31 - 1)))
    try:
        return with_driver(life_driver(BIASED, n), globals()["f_" + base], rng, id, masked)
    finally:
        Model.BIAS = None


STOCHASTIC = ["update"] * 4 + ["gradstep"] * 4 + ["anneal"] * 3 + ["natgrad"] * 3 + ["moments", "observe", "initprior"]


def f_grad(rng, id, masked=False, base=None, n=10):
    """annealing and natural gradient steps on a model of any family"""
    base = base or SMALL[rng.randint(len(SMALL))]
    return with_driver(life_driver(STOCHASTIC, n), globals()["f_" + base], rng, id, masked)


def f_svi(rng, id, masked=False):
    """minibatches: plates multipliers, gradient steps, annealing"""
    m = Model(id)
    N = int(rng.randint(1, 4))
    w = float(rng.choice([1.5, 2.0, 10.0]))
    k = rng.randint(6)
    g = dict(mult=(w,))
    if k == 0:
        mu = m.GaussianARD(rng.randn(), pos(rng), name="mu")
        tau = m.Gamma(pos(rng), pos(rng), name="tau")
        Y = m.GaussianARD(mu, tau, plates=(N,), name="Y", **g)
    elif k == 1:
        K = 2
        a = m.Dirichlet(pos(rng, (K,)), name="alpha")
        Z = m.Categorical(a, plates=(N,), name="Z", **g)
        mu = m.GaussianARD(rng.randn(K), .3, plates=(K,), name="mu")
        tau = m.Gamma(pos(rng), pos(rng), plates=(K,), name="tau")
        Y = m.Mixture(Z, "GaussianARD", mu, tau, plates=(N,), name="Y", w=w)
    elif k == 2:
        D = 2
        M = int(rng.randint(1, 3))
        W = m.GaussianARD(0., 1., shape=(D,), plates=(M, 1), name="W")
        X = m.GaussianARD(0., 1., shape=(D,), plates=(N,), name="X", **g)
        F = m.Dot(W, X, name="F")
        tau = m.Gamma(pos(rng), pos(rng), name="tau")
        Y = m.GaussianARD(F, tau, plates=(M, N), name="Y", w=w)
    elif k == 3:
        p = m.Dirichlet(pos(rng, (3,)), name="p")
        Y = m.Categorical(p, plates=(N,), name="Y", **g)
    elif k == 4:
        # two axes, of which one is subsampled
        r = m.Gamma(pos(rng), pos(rng), plates=(N,), name="r", **g)
        s = m.Gamma(pos(rng), pos(rng), plates=(2, 1), name="s")
        Y = m.GaussianARD(0.3, r, plates=(2, N), name="Y", mult=(1, w))
        Y2 = m.GaussianARD(-0.3, s, plates=(2, N), name="Y2", mult=(1, w))
        m._second = Y2
    else:
        L = m.Wishart(3., spd(rng, (), 2), name="Lambda")
        mu = m.Gaussian(rng.randn(2), spd(rng, (), 2), name="mu")
        X = m.Gaussian(mu, L, plates=(N,), name="X", **g)
        A = m.Add(X, m.GaussianARD(0., 1., shape=(2,), name="c"), name="A") if rng.rand() < .5 else X
        Y = m.Gaussian(A, spd(rng, (), 2), plates=(N,), name="Y", w=w)
    m.start()
    ys = [Y] + ([m._second] if k == 4 else [])
    for y in ys:
        m.observe(y, sample(rng, y), mask=mask_for(rng, y) if masked else True)
    wake(rng, m, ys, .4)
    for _ in range(10):
        life_step(rng, m, SVI)
    return m


SVI = ["update"] * 5 + ["gradstep"] * 4 + ["anneal"] + ["natgrad"] * 2 + ["moments"]


PERSIST = ["update"] * 4 + ["observe"] * 2 + ["unobserve", "initvalue", "initparams", "initprior", "moments"]


def persist_driver(rng, m, obs, masked):
    """Histories with saving, loading and starting again."""
    m.start()
    files, plain = {}, {}
    wake(rng, m, obs, .4)
    for h in obs:
        if rng.rand() < .7:
            m.observe(h, sample(rng, h), mask=mask_for(rng, h) if masked else True)
    for _ in range(14):
        r = rng.rand()
        st = m.stochs()
        if r < .22 or (r < .5 and not files):
            f = int(rng.randint(1, 3))
            via = "node" if rng.rand() < .25 else "vb"
            hs = [] if rng.rand() < .6 and via == "vb" else [st[i] for i in rng.permutation(len(st))[:rng.randint(1, len(st) + 1)]]
            if via == "node":
                hs = hs[:1]
            m.save(f, hs, via)
            files[f] = [h.i for h in (hs or st)]
            plain[f] = via == "vb"
        elif r < .42:
            f = int(rng.choice(list(files)))
            hs = [h for h in st if h.i in files[f] and rng.rand() < .7]
            if not hs or (len(files[f]) == len(st) and rng.rand() < .5):
                hs = [] if len(files[f]) == len(st) else [m.hs[files[f][0] - 1]]
            via = "node" if hs and rng.rand() < .25 else "vb"
            # (a file written by a node does not contain the engine's own record)
            m.load(f, hs[:1] if via == "node" else hs, via, only=not plain[f] or bool(rng.rand() < .5))
        elif r < .52:
            m.fresh()
        elif r < .6 and len(st) > 0:
            m.sweep([h for h in st if rng.rand() < .6], int(rng.randint(1, 3)), names=bool(rng.rand() < .5))
        else:
            life_step(rng, m, PERSIST)
    return m


def f_persist(rng, id, masked=False, base=None):
    """random histories with files"""
    base = base or PERSISTABLE[rng.randint(len(PERSISTABLE))]
    return with_driver(persist_driver, globals()["f_" + base], rng, id, masked)


PERSISTABLE = SMALL + ["gate", "summul", "varying", "switching"]


# ------------------------------------------------------------------ rotations
def rmat(rng, D):
    """an invertible matrix, away from singular ones"""
    while True:
        R = np.identity(D) + rng.randn(D, D) * .5
        if rng.rand() < .2:
            R[0] *= -1
        if abs(np.linalg.det(R)) > .15 and np.all(np.abs(R.sum(axis=0)) > .2):
            return R


def f_turn(rng, id, masked=False):
    """single transformations of single nodes, between updates"""
    m = Model(id)
    pl = plates(rng, 4, 2)
    k = rng.randint(5)
    D = int(rng.randint(1, 4))
    if k <= 1:
        S = [(D,), (2, D), (D, 1, 2), (2, 2)][rng.randint(4)]
        if np.prod(S) > 6:
            S = (D,)
        al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, pl + S), name="alpha")
        X = m.GaussianARD(rng.randn(*sub(rng, pl + S)), al, shape=S, plates=pl, name="X")
        Y = m.GaussianARD(X, pos(rng), shape=S, plates=(pl if rng.rand() < .5 else (2,) + pl), name="Y")
    elif k == 2:
        q = [(1, 2), (2, 2), (2, 1), (3, 1)][rng.randint(4)]
        D = q[0] * q[1]
        pl = () if rng.rand() < .3 else (int(rng.randint(1, 4)),)
        X = m.Gaussian(rng.randn(D), spd(rng, sub(rng, pl), D), plates=pl, name="X")
        Y = m.Gaussian(X, spd(rng, (), D), plates=pl, name="Y")
    elif k == 3:
        X = _gg(rng, m, pl, (D,))
        Y = m.Gaussian(X, spd(rng, (), D), plates=pl, name="Y")
    else:
        D, N = int(rng.randint(1, 3)), int(rng.randint(2, 4))
        pl = [(), (2,)][rng.randint(2)]
        A = m.GaussianARD(.3, 2., shape=(D,), plates=(D,), name="A")
        X = m.GaussianMarkovChain(rng.randn(D), spd(rng, (), D), A, np.ones(D), N, plates=pl, name="X1")
        V = m.chain_states(X)
        Y = m.Gaussian(_view(V, X), spd(rng, (), D), plates=pl + (N,), name="Y")
    m.start()
    m.observe(Y, sample(rng, Y), mask=mask_for(rng, Y) if masked else True)
    for _ in range(5):
        r = rng.rand()
        if r < .3:
            h = m.stochs()[rng.randint(len(m.stochs()))]
            if h is not Y:
                m.update(h)
        elif r < .65:
            pre = bool(rng.rand() < .5)
            if k <= 1:
                ax = int(rng.randint(-len(X.S), len(X.S)))
                if rng.rand() < .3:
                    m.rotate(X, rmat(rng, X.S[-1]), None, pre)
                else:
                    m.rotate(X, rmat(rng, X.S[ax]), ax, pre)
            elif k == 2 and rng.rand() < .6:
                m.rotate_matrix(X, rmat(rng, q[0]), rmat(rng, q[1]), pre)
            elif k == 2 and len(pl) == 1 and pl == X.pl and rng.rand() < .5:
                m.rotate_both(X, rmat(rng, D), rmat(rng, pl[0]))
            else:
                m.rotate(X, rmat(rng, D), None, pre)
        elif r < .8 and k != 4:
            m.translate(X, rng.randn(*((X.pl if rng.rand() < .5 else ()) + X.S)))
        elif k <= 1 and X.pl:
            ax = int(rng.randint(-len(X.pl), len(X.pl)))
            m.rotate_plates(X, rmat(rng, X.pl[ax]), ax)
    return m


def f_rotopt(rng, id, masked=False, kind=None):
    """models with a rotation optimizer: factor analysis and state spaces"""
    m = Model(id, rtol=1e-5)
    D = int(rng.randint(1, 3)) if rng.rand() < .8 else 3
    k = kind or ["fa", "fa", "fa3", "lssm", "lssm", "varying", "switching", "multi"][rng.randint(8)]
    Mo, N = int(rng.randint(2, 4)), int(rng.randint(2, 4))
    if k == "fa":
        al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (Mo, 1, D)), name="alpha")
        mu = rng.randn(*sub(rng, (Mo, 1, D))) if rng.rand() < .4 else 0
        W = m.GaussianARD(mu, al, shape=(D,), plates=(Mo, 1), name="W")
        if rng.rand() < .5:
            X = m.GaussianARD(0, 1., shape=(D,), plates=(N,), name="X")
            bX = lambda: ard_rotator(X)
        else:
            ax_ = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (N, D)), name="ax")
            X = m.GaussianARD(rng.randn(*sub(rng, (N, D))), ax_, shape=(D,), plates=(N,), name="X")
            wa = rng.rand() < .6
            bX = lambda: ard_rotator(X, ax_ if wa else None)
        ps = [W, X] if rng.rand() < .5 else [X, W]
        F = m.Dot(*ps, name="F")
        Y = m.GaussianARD(F, pos(rng), plates=(Mo, N), name="Y")
        wb = rng.rand() < .7
        bW = lambda: ard_rotator(W, al if wb else None)
        b1, b2 = (bX, bW) if rng.rand() < .5 else (bW, bX)
    elif k == "fa3":
        # arrays: rotate one axis of several
        al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (2, D, 2)), name="alpha")
        W = m.GaussianARD(rng.randn(), al, shape=(D, 2), plates=(2,), name="W")
        X = m.GaussianARD(0.3, 1., shape=(D,), plates=(1,), name="X")
        F = m.SumMultiply("ij,i->j", W, X, name="F")
        Y = m.GaussianARD(F, pos(rng), shape=(2,), plates=(2,), name="Y")
        axis = [-2, 0][rng.randint(2)]
        b1, b2 = (lambda: ard_rotator(X)), (lambda: ard_rotator(W, al, axis=axis))
    elif k in ("lssm", "varying", "switching"):
        D = min(D, 2)
        N = 3
        pre = bool(rng.rand() < .5)
        Din = 0
        pl = ()
        if k == "lssm":
            inp = None
            if rng.rand() < .3:
                Din = int(rng.randint(1, 3))
                inp = rng.randn(N - 1, Din) if rng.rand() < .5 else \
                    m.GaussianARD(rng.randn(), 1., shape=(Din,), plates=(N - 1,), name="U")
            if rng.rand() < .25 and not Din:
                pl = (2,)
            al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (D, D + Din)), name="alpha")
            A = m.GaussianARD(rng.randn(*sub(rng, (D, D + Din))), al, shape=(D + Din,), plates=(D,), name="A")
            X = m.GaussianMarkovChain(rng.randn(D), spd(rng, (), D), A, np.ones(D), N, inputs=inp, plates=pl, name="X")
            bx = lambda: chain_rotator(X, ard_rotator(A, al, pax=1, precompute=pre), Din)
        elif k == "varying":
            K = int(rng.randint(1, 3))
            al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (D, K)), name="alpha")
            B = m.GaussianARD(rng.randn(), al, shape=(D, K), plates=(1, D), name="B")
            S = m.GaussianARD(.5, 2., shape=(K,), plates=(N - 1, 1), name="S")
            X = m.GaussianMarkovChain(rng.randn(D), spd(rng, (), D), m.SumMultiply("dk,k->d", B, S, name="BS"), np.ones(D), N,
                                      plates=(), name="X")
            bx = lambda: chain_rotator(X, ard_rotator(B, al, axis=0, pax=2, precompute=pre), 0, "varying", B, S)
        else:
            K = 2
            al = m.Gamma(pos(rng), pos(rng), plates=sub(rng, (K, D, D)), name="alpha")
            B = m.GaussianARD(.3 * rng.randn(), al, shape=(D,), plates=(K, D), name="B")
            Z = m.Categorical(simplex(rng, (), K), plates=(N - 1,), name="Z")
            Zt = m.getitem(Z, (slice(None), None), name="Zt")
            X = m.GaussianMarkovChain(rng.randn(D), spd(rng, (), D), m.Gate(Zt, B, gp=-2, name="BZ"), np.ones(D), N,
                                      plates=(), name="X")
            bx = lambda: chain_rotator(X, ard_rotator(B, al, pax=2, precompute=pre), 0, "switching", B, Z)
        V = m.chain_states(X)
        ga = m.Gamma(pos(rng), pos(rng), plates=(D,), name="gamma")
        C = m.GaussianARD(0., ga, shape=(D,), plates=(Mo,) + (1,) * (len(pl) + 1), name="C")
        F = m.Dot(C, _view(V, X), name="F")
        Y = m.GaussianARD(F, pos(rng), plates=(Mo,) + pl + (N,), name="Y")
        bc = lambda: ard_rotator(C, ga)
        b1, b2 = (bx, bc) if rng.rand() < .5 else (bc, bx)
    else:
        X = m.GaussianARD(0, 1., shape=(D,), plates=(N,), name="X")
        ys, ws = [], []
        for i in range(2):
            al = m.Gamma(pos(rng), pos(rng), plates=(D,), name="alpha%d" % i)
            W = m.GaussianARD(0., al, shape=(D,), plates=(Mo, 1), name="W%d" % i)
            ys.append(m.GaussianARD(m.Dot(W, X, name="F%d" % i), pos(rng), plates=(Mo, N), name="Y%d" % i))
            ws.append((W, al))
        Y = ys[0]
        m._more = ys[1:]
        b1, b2 = (lambda: ard_rotator(X)), (lambda: multi_rotator(*[ard_rotator(W, a) for W, a in ws]))
    m.start()
    for y in [Y] + getattr(m, "_more", []):
        m.observe(y, sample(rng, y))
    lat = [h for h in m.stochs() if h.name[0] != "Y"]
    for h in lat[::-1]:
        if h.j["d"]["k"] != "Gamma":
            m.initvalue(h, sample(rng, h) * .5) if h.j["d"]["k"] == "GaussianARD" else None
    sweep(rng, m, lat, 1, via=False)
    for h in lat:                      # precisions are at their optimum: the cost assumes it
        m.update(h)
    x1, x2 = b1(), b2()
    for b in ([x1] if rng.rand() < .5 else [x2]):
        m.rotbound(b, rmat(rng, D), terms=True)
    m.rotblocks(x1, x2, D, maxiter=300 if rng.rand() < .5 else int(rng.randint(1, 8)), check=bool(rng.rand() < .3))
    if rng.rand() < .5:
        m.update(lat[rng.randint(len(lat))])
    return m


# ------------------------------------------------------------ point estimates
def f_point(rng, id, masked=False):
    """shapes and concentrations estimated by maximising the bound"""
    m = Model(id, rtol=1e-5)
    n = int(rng.randint(3, 6))                  # number of samples per estimate
    base = [(), (), (2,), (2,)][rng.randint(4)]
    k = rng.randint(len(base) + 1)
    pl = base[:k] + (n,) + base[k:]
    top = base[:k] + (1,) + base[k:]
    while top[:1] == (1,) and rng.rand() < .7:
        top = top[1:]
    own = masked or rng.rand() < .5             # a penalty of its own
    r = rng.randint(8)
    if r < 4:
        mix = r == 2
        tp = (2,) if mix else top
        a = m.GammaShape(*([rng.randn(*sub(rng, tp)), -pos(rng, sub(rng, tp))] if own else []), plates=tp, name="a")
        if r == 3:
            D = int(rng.randint(1, 3))
            b = m.Gamma(pos(rng), pos(rng), plates=sub(rng, top), name="b")
            X = m.GaussianGamma(rng.randn(D), spd(rng, (), D), a, b, plates=pl, name="X")
        elif mix:
            pl = (n,)
            Z = m.Categorical(simplex(rng, (), 2), plates=pl, name="Z")
            X = m.Mixture(Z, "Gamma", a, pos(rng, (2,)) if rng.rand() < .5 else m.Gamma(2., 1., plates=(2,), name="b"),
                          plates=pl, name="X")
        else:
            b = m.Gamma(pos(rng), pos(rng), plates=sub(rng, top), name="b")
            X = m.Gamma(a, b, plates=pl, name="X")
        ys = [X]
        if r == 1:
            ys = [m.Poisson(X, plates=pl, name="Y") if rng.rand() < .5 else
                  m.GaussianARD(rng.randn(), X, plates=pl, name="Y")]
    else:
        beta = r > 5
        K = 2 if beta else int(rng.randint(2, 4))
        reg = None
        if own:
            N = pos(rng, sub(rng, top))
            reg = (N[..., None] * (np.log(simplex(rng, sub(rng, top), K)) - .4), N)
            if not masked and rng.rand() < .3:
                reg = True
        a = m.Concentration(K, reg, plates=top, name="a", beta=beta and bool(rng.rand() < .5))
        X = (m.Beta if beta else m.Dirichlet)(a, plates=pl, name="X")
        ys = [X]
        if r % 2:
            ys = [m.Binomial(numbers(rng, pl), X, plates=pl, name="Y") if beta else
                  m.Categorical(X, plates=pl, name="Y") if rng.rand() < .5 else
                  m.Multinomial(numbers(rng, pl), X, plates=pl, name="Y")]
    m.start()
    for y in ys:
        m.observe(y, sample(rng, y), mask=mask_for(rng, y) if masked else True)
    lat = [h for h in m.stochs() if h not in ys]
    points = [h for h in lat if h.j["d"]["k"] in POINT]
    for _ in range(rng.randint(1, 3)):
        if rng.rand() < .3:
            for h in points:
                m.initvalue(h, pos(rng, h.pl + h.S))
        sweep(rng, m, lat, int(rng.randint(1, 3)))
    if rng.rand() < .3:
        m.save(0)
        sweep(rng, m, lat, 1)
        m.load(0)
        sweep(rng, m, lat, 1)
    return m


# ------------------------------------------------------------------ gradients
EUC = ("GaussianARD", "Gaussian", "Gamma", "Dirichlet", "Beta", "Categorical", "Multinomial")


def free(m):
    """latent nodes without observed elements"""
    return [h for h in m.stochs() if not np.any(h.node.observed)]


def optim_driver(rng, m, obs, masked):
    """Histories of gradient based optimisation, interleaved with updates."""
    m.start()
    for h in obs:
        m.observe(h, sample(rng, h), mask=mask_for(rng, h) if masked else True)
    lat = free(m)
    if not lat:
        return m
    # (products of arrays of matrices are not implemented in the library)
    euc = [h for h in lat if inner_of(h)["k"] in EUC and not (inner_of(h)["k"] == "GaussianARD" and len(h.j["S"]) > 1)]
    wake(rng, m, obs, .5)
    # every node has a distribution, the engine an iteration to compare with
    m.sweep(lat[::-1] if rng.rand() < .5 else lat, 1)
    for _ in range(4):
        r = rng.rand()
        if r < .3 and euc:
            m.eucgrad(euc[rng.randint(len(euc))])
        elif r < .75:
            riem = bool(rng.rand() < .7)
            method = ["gradient", "fletcher-reeves", "Fletcher-Reeves"][rng.randint(3)]
            pool = lat if riem and method == "gradient" else euc
            if pool:
                o = rng.permutation(len(pool))[:rng.randint(1, min(3, len(pool)) + 1)]
                hs = [pool[i] for i in o]
                rest = [h for h in lat if h not in hs]
                cs = [h for h in rest if rng.rand() < .4]
                m.optimize(hs, cs, int(rng.randint(1, 4)), method, riem, names=bool(rng.rand() < .3))
        elif r < .85:
            # through the engine: the optimiser compares with its last iteration
            m.sweep([lat[rng.randint(len(lat))]], 1)
        else:
            hs = [h for h in lat if inner_of(h)["k"] in ("GaussianARD", "Gaussian", "Categorical")]
            if hs:
                hs = [hs[i] for i in rng.permutation(len(hs))[:2]]
                rest = [h for h in lat if h not in hs]
                # (several collapsed nodes would depend on how often they were visited)
                cs = rest and rng.rand() < .7 and [rest[rng.randint(len(rest))]] or []
                if cs or len(hs) > 1:
                    m.pattern(hs, cs)
    return m


# ------------------------------------------------------------------ queries
QUERY = ["normal", "ard", "wishart", "convert", "gammas", "counts", "counts", "latent_counts", "latent_counts", "gaussgamma",
         "gaussgamma", "mixture", "mixture_cp", "mixture_latent", "mixture2", "pca", "summul", "add", "concatg", "gate", "choose",
         "slice", "take", "concat", "cmc", "cmc", "cmc", "ggauss", "ggauss", "gnd"]
PREDICT = ["Gaussian", "GaussianARD", "Gamma", "Poisson", "Bernoulli", "Binomial", "Categorical", "Beta", "Dirichlet",
           "Multinomial"]


def any_kind(rng, c):
    """one of the nodes, all kinds alike"""
    ks = sorted({h.j["d"]["k"] for h in c})
    k = ks[rng.randint(len(ks))]
    c = [h for h in c if h.j["d"]["k"] == k]
    return c[rng.randint(len(c))]


def ask(rng, m, n):
    """n questions about random nodes"""
    for _ in range(n):
        lat = [h for h in m.stochs() if query.latent(h)]
        r = rng.rand()
        if r < .35:
            c = [h for h in m.hs if query.drawable(h)]
            if c:
                query.draws(m, any_kind(rng, c), int(rng.randint(2 ** 30)))
        elif r < .6:
            c = [h for h in lat if h.j["d"]["k"] in query.TEXT]
            if c:
                query.text(m, any_kind(rng, c), show=bool(rng.rand() < .3))
        elif r < .75:
            c = [h for h in lat if h.j["d"]["k"] not in ("GMC", "CMC", "Mixture", "GaussianGamma")]
            if c:
                h = any_kind(rng, c)
                (query.pdf if rng.rand() < .5 else Model.logpdf)(*((m, h) + (sample(rng, h),)))
        else:
            c = [h for h in lat if inner_of(h)["k"] == "GaussianGamma" and h.j["d"]["k"] != "Mixture" and len(h.S) == 1]
            p = [h for h in m.stochs() if h.j["d"]["k"] == "Mixture" and h.j["d"]["inner"]["k"] in PREDICT]
            if c:
                h = c[rng.randint(len(c))]
                q = rng.rand()
                if h.pl == () and q < .7:
                    D = h.S[0]
                    k = rng.randint(0, D + 1)
                    inds = [int(i) for i in rng.permutation(D)[:k]]
                    g = bool(not inds or rng.rand() < .5)
                    query.marginal(m, h, inds, g, np.concatenate([rng.randn(k), pos(rng, (1,))[:int(g)]])
                                   if inds else pos(rng))
                elif q < .8 or np.min(h.node.phi[3]) < 1.05:
                    query.location(m, h)
                else:
                    query.meanvar(m, h)
            elif p:
                h = p[rng.randint(len(p))]
                query.predict(m, h, np.stack([np.broadcast_to(sample(rng, h), h.pl + value_shape(h))
                                              for _ in range(rng.randint(1, 4))]))


def ask_driver(rng, m, obs, masked):
    m.start()
    for h in obs:
        if rng.rand() < .8:
            m.observe(h, sample(rng, h), mask=mask_for(rng, h) if masked else True)
    wake(rng, m, obs)
    lat = free(m)
    ask(rng, m, 2)
    for _ in range(2):
        for i in rng.permutation(len(lat))[:3]:
            m.update(lat[i])
        ask(rng, m, 4)
    return m


def f_query(rng, id, masked=False, base=None):
    base = base or QUERY[rng.randint(len(QUERY))]
    return with_driver(ask_driver, globals()["f_" + base], rng, id, masked)


def f_optim(rng, id, masked=False, base=None):
    base = base or OPTIM[rng.randint(len(OPTIM))]
    # the Euclidean gradient at the edge of the simplex is unbounded
    global ZEROS
    ZEROS = False
    try:
        return with_driver(optim_driver, globals()["f_" + base], rng, id, masked)
    finally:
        ZEROS = True


OPTIM = ["normal", "ard", "gammas", "counts", "wishart", "mixture", "pca", "pca", "add", "concatg", "gate", "slice", "summul",
         "ggauss", "gaussgamma", "gmc", "cmc", "varying", "mixture2", "mixture_latent", "latent_counts", "choose", "take",
         "convert"]
