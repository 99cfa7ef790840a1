"""Recorded calls of the array utilities (spec/UtilTrace.tla)."""
import os

import numpy as np
from scipy import special

from bayespy.utils import linalg, misc, random as brandom
from gen import crc, Hang, Skip, deadline


def arr(x):
    x = np.asarray(x)
    return dict(sh=list(x.shape), v=" ".join(repr(float(v)) for v in x.ravel()))


class Calls:
    def __init__(self, rng):
        self.rng = rng

    # ------------------------------------------------------------ pieces
    def int(self, a, b):
        return int(self.rng.randint(a, b + 1))

    def pick(self, *xs):
        return xs[self.rng.randint(len(xs))]

    def shape(self, n=None, lo=1, hi=3):
        n = self.int(0, 3) if n is None else n
        return tuple(self.int(lo, hi) for _ in range(n))

    def sub(self, sh):
        """A shape which broadcasts to sh."""
        sh = tuple(1 if self.rng.rand() < .3 else s for s in sh)
        return sh[self.int(0, len(sh)):] if self.rng.rand() < .4 else sh

    def a(self, sh):
        x = self.rng.randn(*sh)
        if self.rng.rand() < .15:
            x = np.round(x)
        return np.asarray(x)

    def plates(self, k, most=2):
        """k shapes which broadcast together."""
        full = self.shape(self.int(0, most))
        return [self.sub(full) for _ in range(k)]

    def spd(self, pl, n):
        x = self.rng.randn(*(tuple(pl) + (n, n + 2)))
        return np.einsum("...ik,...jk->...ij", x, x) + .3 * np.identity(n)

    def spdn(self, pl, sh):
        n = int(np.prod(sh, dtype=int))
        return np.reshape(self.spd(pl, n), tuple(pl) + tuple(sh) + tuple(sh))

    def maybe_view(self, x):
        """The same array stored differently."""
        r = self.rng.rand()
        if r < .2 and x.ndim:
            return np.asfortranarray(x)
        if r < .3 and x.ndim:
            return np.repeat(x, 2, axis=-1)[..., ::2]
        return x

    # ---------------------------------------------------------- functions
    # each returns (f, arrays, parameters, thunk[, rejected])
    def inner(self):
        nd = self.pick(0, 1, 1, 2, 3)
        k = self.shape(nd)
        xs = [self.a(p + (self.sub(k) if self.rng.rand() < .2 and not p else k)) for p in self.plates(self.pick(1, 2, 2, 3))]
        # an inner axis that all the arrays lack is no inner axis
        if all(x.ndim < nd for x in xs):
            return self.inner()
        if np.broadcast_shapes(*[x.shape for x in xs])[-nd:] != k and nd:
            return self.inner()
        return "inner", xs, [nd], lambda xs: linalg.inner(*xs, ndim=nd)

    def outer(self):
        nd = self.pick(0, 1, 1, 2)
        p, q = self.plates(2)
        xs = [self.a(p + self.shape(nd)), self.a(q + self.shape(nd))]
        return "outer", xs, [nd], lambda xs: linalg.outer(xs[0], xs[1], ndim=nd)

    def dot(self):
        n = self.int(1, 4)
        d = self.shape(n + 1)
        xs = [self.a(p + (d[i], d[i + 1])) for i, p in enumerate(self.plates(n))]
        if self.rng.rand() < .1 and n > 1:
            xs[1] = self.a(xs[1].shape[:-2] + (d[1] + 1, d[2]))
            return "dot", xs, [], lambda xs: linalg.dot(*xs), True
        return "dot", xs, [], lambda xs: linalg.dot(*xs)

    def mmdot(self):
        nd = self.pick(0, 1, 1)
        p, q = self.plates(2)
        d = self.shape(3)
        xs = [self.a(p + ((d[0], d[1]) if nd else ())), self.a(q + ((d[1], d[2]) if nd else ()))]
        return "mmdot", xs, [nd], lambda xs: linalg.mmdot(xs[0], xs[1], ndim=nd)

    def mvdot(self):
        nd = self.pick(0, 1, 1, 2)
        p, q = self.plates(2)
        k = self.shape(nd)
        xs = [self.a(p + self.shape(nd) + k), self.a(q + k)]
        return "mvdot", xs, [nd], lambda xs: linalg.mvdot(xs[0], xs[1], ndim=nd)

    def tracedot(self):
        p, q = self.plates(2)
        m, n = self.shape(2)
        xs = [self.a(p + (m, n)), self.a(q + (n, m))]
        return "tracedot", xs, [], lambda xs: linalg.tracedot(*xs)

    def transpose(self):
        nd = self.int(0, 2)
        x = self.a(self.shape(self.int(0, 1)) + self.shape(2 * nd))
        return "transpose", [x], [nd], lambda xs: linalg.transpose(xs[0], ndim=nd)

    def inv(self):
        nd = self.pick(0, 1, 1)
        p, = self.plates(1)
        n = self.int(1, 3)
        s = self.a(p + (n, n))
        x = self.spd(p, n) + s - np.swapaxes(s, -1, -2) if nd else np.exp(self.a(p))
        return "inv", [x], [nd], lambda xs: linalg.inv(xs[0], ndim=nd)

    def cov(self, lo=0):
        nd = self.pick(*([0] if lo == 0 else []), 1, 1, 2)
        p, = self.plates(1)
        k = self.shape(nd, hi=3 if nd < 2 else 2)
        return nd, p, k, self.spdn(p, k)

    def chol(self):
        nd, p, k, C = self.cov()
        if nd and self.rng.rand() < .1:
            C = C - 1e3 * np.eye(int(np.prod(k))).reshape(k + k)
            return "chol", [C], [nd], lambda xs: linalg.chol(xs[0], ndim=nd), True
        return "chol", [C], [nd], lambda xs: linalg.chol(xs[0], ndim=nd)

    def chol_inv(self):
        nd, p, k, C = self.cov()
        return "chol_inv", [C], [nd], lambda xs: linalg.chol_inv(linalg.chol(xs[0], ndim=nd), ndim=nd)

    def chol_logdet(self):
        nd, p, k, C = self.cov()
        if nd == 1 and self.rng.rand() < .3:
            return "chol_logdet", [C], [nd], lambda xs: linalg.logdet_chol(linalg.chol(xs[0]))
        if self.rng.rand() < .4:
            return "logdet_cov", [C], [nd], lambda xs: linalg.logdet_cov(xs[0], ndim=nd)
        return "chol_logdet", [C], [nd], lambda xs: linalg.chol_logdet(linalg.chol(xs[0], ndim=nd), ndim=nd)

    def logdet_tri(self):
        n = self.int(1, 4)
        x = self.pick(np.triu, np.tril)(self.a((n, n)) + np.diag(self.pick(-1, 1) * np.ones(n) * 2))
        return "logdet_tri", [x], [], lambda xs: linalg.logdet_tri(xs[0])

    def chol_solve(self):
        nd = self.pick(0, 1, 1, 1, 2)
        matrix = nd > 0 and self.rng.rand() < .4
        p, q = self.plates(2, most=3)
        k = self.shape(nd, hi=3 if nd < 2 else 2)
        xs = [self.spdn(p, k), self.a(q + k + (self.shape(nd) if matrix else ()))]
        return ("chol_solve", xs, [nd, int(matrix)],
                lambda xs: linalg.chol_solve(linalg.chol(xs[0], ndim=nd), xs[1], ndim=nd, matrix=matrix))

    def solve_triangular(self):
        p, q = self.plates(2)
        n = self.int(1, 3)
        tr = self.int(0, 1)
        xs = [np.triu(self.a(p + (n, n)), 1) + self.pick(1, -2, .7) * np.identity(n), self.a(q + (n,))]
        return "solve_triangular", xs, [tr], lambda xs: linalg.solve_triangular(xs[0], xs[1], trans=tr)

    def block_banded_solve(self):
        p, q = self.plates(2)
        r, = self.plates(1, 1)
        full = np.broadcast_shapes(p, q)
        try:
            np.broadcast_shapes(full, r)
        except ValueError:
            r = self.sub(full)
        N, D = self.pick(2, 2, 3, 4), self.int(1, 2)
        A = self.spd(p + (N,), D) + 3 * np.identity(D)
        B = .5 * np.clip(self.a(q + (N - 1, D, D)), -1.5, 1.5)
        return "block_banded_solve", [A, B, self.a(r + (N, D))], [], lambda xs: linalg.block_banded_solve(*xs)

    def block_banded(self):
        N = self.int(1, 4)
        d = [self.int(1, 3) for _ in range(N)]
        D = [self.spd((), n) for n in d]
        B = [self.a((d[i], d[i + 1])) for i in range(N - 1)]
        return "block_banded", D + B, [N], lambda xs: misc.block_banded(xs[:N], xs[N:])

    def block_diag(self):
        n = self.int(1, 3)
        xs = [self.a(p + self.shape(2)) for p in self.plates(n)]
        return "block_diag", xs, [], lambda xs: misc.block_diag(*xs)

    def concatenate(self):
        n = self.int(1, 3)
        d = self.int(1, 3)
        k = self.int(1, d)
        full = self.shape(d)
        xs = []
        for _ in range(n):
            s = [1 if self.rng.rand() < .25 else x for x in full]
            s[-k] = self.int(1, 3)
            xs.append(self.a(tuple(s)))
        return "concatenate", xs, [-k], lambda xs: misc.concatenate(*xs, axis=-k)

    def broadcast(self):
        xs = [self.a(p) for p in self.plates(self.int(1, 3), 3)]
        return "broadcast", xs, [], lambda xs: misc.broadcast(*xs)

    # axes
    def flatten_axes(self):
        p = [self.int(0, 2) for _ in range(self.int(0, 3))]
        x = self.a(self.shape(self.int(0, 2)) + self.shape(sum(p), hi=2))
        return "flatten_axes", [x], p, lambda xs: misc.flatten_axes(xs[0], *p)

    def reshape_axes(self):
        shs = [self.shape(self.int(0, 2)) for _ in range(self.int(1, 2))]
        x = self.a(self.shape(self.int(0, 2)) + tuple(int(np.prod(s)) for s in shs))
        if self.rng.rand() < .1:
            x = self.a(x.shape[:-1] + (x.shape[-1] + 1,))
            return "reshape_axes", [x], [0], lambda xs: misc.reshape_axes(xs[0], *shs), True
        return "reshape_axes", [x], [len(shs)] + [i for s in shs for i in s], lambda xs: misc.reshape_axes(xs[0], *shs)

    def t(self):
        x = self.a(self.shape(self.int(2, 4)))
        return "T", [x], [], lambda xs: misc.T(xs[0])

    def symm(self):
        n = self.int(1, 3)
        return "symm", [self.a(self.shape(self.int(0, 2)) + (n, n))], [], lambda xs: misc.symm(xs[0])

    def diagonal(self):
        n = self.int(1, 3)
        return "diagonal", [self.a(self.shape(self.int(0, 2)) + (n, n))], [], lambda xs: misc.diagonal(xs[0])

    def moveaxis(self):
        x = self.a(self.shape(self.int(1, 4)))
        i, j = self.int(-x.ndim, x.ndim - 1), self.int(-x.ndim, x.ndim - 1)
        if self.rng.rand() < .1:
            i = self.pick(x.ndim, -x.ndim - 1)
            return "moveaxis", [x], [i, j], lambda xs: misc.moveaxis(xs[0], i, j), True
        return "moveaxis", [x], [i, j], lambda xs: misc.moveaxis(xs[0], i, j)

    def add_axes(self):
        x = self.a(self.shape())
        n = self.int(0, 2)
        ax = self.int(-x.ndim - 1, x.ndim)
        r = self.rng.rand()
        if r < .2:
            return "add_axes", [x], [n, 0], lambda xs: misc.add_leading_axes(xs[0], n)
        if r < .4:
            return "add_axes", [x], [n, -1], lambda xs: misc.add_trailing_axes(xs[0], n)
        return "add_axes", [x], [n, ax], lambda xs: misc.add_axes(xs[0], num=n, axis=ax)

    def squeeze(self):
        x = self.a((1,) * self.int(0, 2) + self.shape())
        if self.rng.rand() < .5:
            d = self.int(0, x.ndim)
            y = self.a((1,) * (x.ndim - d) + x.shape[x.ndim - d:])
            return "squeeze_to_dim", [y], [d], lambda xs: misc.squeeze_to_dim(xs[0], d)
        return "squeeze", [x], [], lambda xs: misc.squeeze(xs[0])

    def atleast_nd(self):
        x = self.a(self.shape())
        d = self.int(0, 4)
        return "atleast_nd", [x], [d], lambda xs: misc.atleast_nd(xs[0], d)

    def make_equal_ndim(self):
        xs = [self.a(p) for p in self.plates(self.int(1, 3), 3)]
        return "make_equal_ndim", xs, [], lambda xs: misc.make_equal_ndim(*xs)

    # sums
    def sum_to_dim(self):
        x = self.a(self.shape())
        d = self.int(0, 3)
        return "sum_to_dim", [x], [d], lambda xs: misc.sum_to_dim(xs[0], d)

    def sum_to_shape(self):
        x = self.a(self.shape())
        s = list(self.sub(x.shape))
        if self.rng.rand() < .1 and s:
            s[-1] = 7
            return "sum_to_shape", [x], s, lambda xs: misc.sum_to_shape(xs[0], tuple(s)), True
        return "sum_to_shape", [x], s, lambda xs: misc.sum_to_shape(xs[0], tuple(s))

    def repeat_to_shape(self):
        s = self.shape()
        return "repeat_to_shape", [self.a(self.sub(s))], list(s), lambda xs: misc.repeat_to_shape(xs[0], s)

    def sum_multiply_to_plates(self):
        nd = self.pick(0, 0, 1, 2)
        full = self.shape()
        inn = self.shape(nd)
        k = self.int(1, 4)
        xs = [self.a(self.sub(full) + inn) for _ in range(k)]
        to = self.sub(full)
        pl = np.broadcast_shapes(*[x.shape[:x.ndim - nd] for x in xs])
        if self.rng.rand() < .4:
            # the result has the target plates when they are in the product
            to = self.sub(pl)
            return ("sum_multiply_to_plates", xs, [nd, len(to)] + list(to) + [-1],
                    lambda xs: misc.sum_multiply_to_plates(*xs, to_plates=to, ndim=nd), "to", to, nd)
        return ("sum_multiply_to_plates", xs, [nd, len(to)] + list(to) + list(full),
                lambda xs: misc.sum_multiply_to_plates(*xs, to_plates=to, from_plates=full, ndim=nd), "to", to, nd)

    def sum_multiply(self):
        xs = [self.a(p) for p in self.plates(self.int(1, 4), 3)]
        d = max(x.ndim for x in xs)
        kd = bool(self.int(0, 1))
        r = self.rng.rand()
        sm = r < .6
        if self.rng.rand() < .2:
            ax = None
        else:
            ax = [i - (d if self.rng.rand() < .5 else 0) for i in range(d) if self.rng.rand() < .5]
            self.rng.shuffle(ax)
            ax = tuple(ax)
        p = [int(sm), int(kd)] + ([99] if ax is None else list(ax))
        if r < .3 or ax is None:
            return "sum_multiply", xs, p, lambda xs: misc.sum_multiply(*xs, axis=ax, sumaxis=sm, keepdims=kd)
        if sm:
            return "sum_multiply", xs, p, lambda xs: misc.sum_product(*xs, axes_to_sum=ax, keepdims=kd)
        return "sum_multiply", xs, p, lambda xs: misc.sum_product(*xs, axes_to_keep=ax, keepdims=kd)

    def logsumexp(self):
        x = 10 ** self.int(-1, 3) * self.a(self.shape(self.int(1, 3)))
        if self.rng.rand() < .3:
            x[self.rng.rand(*x.shape) < .3] = -np.inf
        ax = self.pick(None, self.int(-x.ndim, x.ndim - 1))
        kd = bool(self.int(0, 1))
        return ("logsumexp", [x], [99 if ax is None else ax, int(kd)],
                lambda xs: misc.logsumexp(xs[0], axis=ax, keepdims=kd))

    def mean(self):
        x = self.a(self.shape(self.int(1, 3)))
        ax = self.pick(None, self.int(-x.ndim, x.ndim - 1))
        kd = bool(self.int(0, 1))
        y = x.copy()
        y[self.rng.rand(*x.shape) < .3] = np.nan
        if not np.any(np.all(np.isnan(y), axis=ax)):
            x = y
        return "mean", [x], [99 if ax is None else ax, int(kd)], lambda xs: misc.mean(xs[0], axis=ax, keepdims=kd)

    def normalized_exp(self):
        x = 10 ** self.int(-1, 3) * self.a(self.shape(self.int(1, 3))) + self.pick(0, 0, 1e3, -1e3)
        if self.rng.rand() < .3:
            x[..., 1:][self.rng.rand(*x[..., 1:].shape) < .3] = -np.inf
        return "normalized_exp", [x], [], lambda xs: misc.normalized_exp(xs[0])

    def multidigamma(self):
        d = self.int(1, 4)
        x = np.exp(self.a(self.shape())) + d / 2
        return "multidigamma", [x], [d], lambda xs: misc.multidigamma(xs[0], d)

    def invpsi(self):
        x = self.a(self.shape()) * self.pick(.1, 1, 3, 10)
        return "invpsi", [np.minimum(x, 12.)], [], lambda xs: misc.invpsi(xs[0])

    # diagonals
    def make_diag(self):
        n = self.int(0, 3)
        m = self.int(0, min(n, 1))
        j = self.shape(m, hi=2)
        x = self.a(self.shape(self.int(0, 1)) + self.shape(n - m, hi=2) + j + j)
        return "make_diag", [x], [n, m], lambda xs: misc.make_diag(xs[0], ndim=n, ndim_from=m)

    def get_diag(self):
        n = self.int(0, 2)
        m = self.int(0, n)
        k = self.shape(n)
        x = self.a(self.shape(self.int(0, 1)) + k + k)
        return "get_diag", [x], [n, m], lambda xs: misc.get_diag(xs[0], ndim=n, ndim_to=m)

    def diag(self):
        n = self.int(0, 2)
        x = self.a(self.shape(self.int(0, 1)) + self.shape(n))
        return "diag", [x], [n], lambda xs: misc.diag(xs[0], ndim=n)

    def identity(self):
        s = self.shape(self.int(1, 2))
        return "identity", [], list(s), lambda xs: misc.identity(*s)

    # picking
    def put_simple(self):
        ish = self.shape(self.int(0, 2), hi=4)
        before = self.shape(self.int(0, 1))
        after = self.shape(self.int(0, 2))
        L = self.int(1, 4)
        ind = self.rng.randint(-L, L, size=ish)
        y = self.a(before + tuple(ish) + after)
        ax = -1 - len(after)
        return ("put_simple", [y], [ax, L, len(ish)] + list(ish) + [int(i) for i in np.ravel(ind)],
                lambda xs: misc.put_simple(xs[0], ind, axis=ax, length=L))

    def find_set_index(self):
        n = [self.int(1, 4) for _ in range(self.int(1, 4))]
        i = self.int(-sum(n), sum(n) - 1)
        if self.rng.rand() < .2:
            i = self.pick(sum(n), -sum(n) - 1)
            return "find_set_index", [], [i] + n, lambda xs: misc.find_set_index(i, n), True
        return "find_set_index", [], [i] + n, lambda xs: misc.find_set_index(i, n)

    def grid(self):
        xs = [self.a((self.int(1, 4),)), self.a((self.int(1, 4),))]
        return "grid", xs, [], lambda xs: misc.grid(*xs)

    def ceildiv(self):
        a, b = self.int(-20, 40), self.int(1, 9)
        return "ceildiv", [], [a, b], lambda xs: misc.ceildiv(a, b)

    # shapes
    def _shapes(self, f, shs, fn, reject=False):
        p = [len(shs)] + [len(s) for s in shs] + [int(x) for s in shs for x in s]
        return (f, [], p, fn) + ((True,) if reject else ())

    def broadcasted_shape(self):
        shs = self.plates(self.int(1, 4), 3)
        if self.rng.rand() < .2:
            shs = [(2, 3), (3, 1, 3), (4,)]
            return self._shapes("broadcasted_shape", shs, lambda xs: misc.broadcasted_shape(*shs), True)
        if self.rng.rand() < .3:
            return self._shapes("broadcasted_shape", shs,
                                lambda xs: misc.broadcasted_shape_from_arrays(*[np.zeros(s) for s in shs]))
        return self._shapes("broadcasted_shape", shs, lambda xs: misc.broadcasted_shape(*shs))

    def multiply_shapes(self):
        shs = [self.shape() for _ in range(self.int(1, 3))]
        return self._shapes("multiply_shapes", shs, lambda xs: misc.multiply_shapes(*shs))

    def is_shape_subset(self):
        full = self.shape()
        s = self.pick(self.sub(full), self.shape())
        return self._shapes("is_shape_subset", [s, full], lambda xs: float(misc.is_shape_subset(s, full)))

    def axes_to_collapse(self):
        full = self.shape()
        to = self.sub(full)
        return self._shapes("axes_to_collapse", [full, to], lambda xs: misc.axes_to_collapse(full, to))

    def safe_indices(self):
        full = self.shape()
        s = self.sub(full)
        i = tuple(self.int(0, n - 1) for n in full)
        return self._shapes("safe_indices", [i, s], lambda xs: misc.safe_indices(i, s))

    def broadcasting_multiplier(self):
        full = self.shape()
        shs = [full] + [self.sub(full) for _ in range(self.int(0, 3))]
        return self._shapes("broadcasting_multiplier", shs, lambda xs: misc.broadcasting_multiplier(*shs))

    # densities
    def alpha_beta_recursion(self):
        p, q = self.plates(2)
        K, N = self.int(1, 3), self.int(1, 3)
        xs = [self.a(p + (K,)) * self.pick(1, 5), self.a(q + (N, K, K)) * self.pick(1, 5)]
        return "alpha_beta_recursion", xs, [], lambda xs: brandom.alpha_beta_recursion(*xs)

    def gaussian_logpdf(self):
        n = self.int(1, 3)
        V = self.spd((), n)
        y, m = self.a((n,)), self.a((n,))

        def f(xs):
            y, m, V = xs
            return brandom.gaussian_logpdf(y @ V @ y, y @ V @ m, m @ V @ m, np.linalg.slogdet(V)[1], n)

        def g(xs):
            y, m, V = xs
            return misc.gaussian_logpdf(y @ V @ y, y @ V @ m, m @ V @ m, -np.linalg.slogdet(V)[1], n)
        return "gaussian_logpdf", [y, m, V], [], self.pick(f, g)

    def gaussian_entropy(self):
        n = self.int(1, 3)
        return ("gaussian_entropy", [self.spd((), n)], [],
                lambda xs: brandom.gaussian_entropy(np.linalg.slogdet(xs[0])[1], n))

    def gamma_logpdf(self):
        x, a, b = np.exp(self.a((3,)))
        return ("gamma_logpdf", [np.array([x]), np.array([a]), np.array([b])], [],
                lambda xs: brandom.gamma_logpdf(b * x, np.log(x), a * np.log(x), a * np.log(b), special.gammaln(a)))

    def gamma_entropy(self):
        a, b = np.exp(self.a((2,)))
        return ("gamma_entropy", [np.array([a]), np.array([b])], [],
                lambda xs: brandom.gamma_entropy(a, np.log(b), special.gammaln(a), special.psi(a), a * special.psi(a)))

    def t_logpdf(self):
        n = self.int(1, 3)
        S = self.spd((), n)
        x, m = self.a((n,)), self.a((n,))
        nu = np.exp(self.a((1,)))
        return ("t_logpdf", [x, m, S, nu], [],
                lambda xs: brandom.t_logpdf((x - m) @ np.linalg.solve(S, x - m), np.linalg.slogdet(S)[1], nu[0], n))

    def gaussian_gamma_to_t(self):
        p = self.shape(self.int(0, 2))
        n = self.int(1, 3)
        xs = [self.a(p + (n,)), self.spd(p, n), np.exp(self.a(p)), np.exp(self.a(p))]
        return "gaussian_gamma_to_t", xs, [], lambda xs: brandom.gaussian_gamma_to_t(*xs)

    def logodds_to_probability(self):
        return ("logodds_to_probability", [self.a(self.shape()) * 3], [],
                lambda xs: brandom.logodds_to_probability(xs[0]))

    def rmse(self):
        s = self.shape(self.int(1, 3))
        return "rmse", [self.a(s), self.a(s)], [], lambda xs: misc.rmse(*xs)

    def zipper_merge(self):
        n, k = self.int(1, 4), self.int(1, 3)
        return ("zipper_merge", [self.a((n,)) for _ in range(k)], [],
                lambda xs: misc.zipper_merge(*[list(x) for x in xs]))

    # draws
    def probs(self, sh):
        x = np.exp(self.a(sh))
        x[..., 1:][self.rng.rand(*x[..., 1:].shape) < .2] = 0
        return x / np.sum(x, axis=-1, keepdims=True)

    def draw_categorical(self):
        size = self.shape()
        x = self.probs(self.sub(size) + (self.int(1, 4),))
        if x.shape[:-1] == size and self.rng.rand() < .5:
            return "draw_categorical", [x], list(size), lambda xs: brandom.categorical(xs[0])
        return "draw_categorical", [x], list(size), lambda xs: brandom.categorical(xs[0], size=size)

    def draw_bernoulli(self):
        size = self.shape()
        x = np.asarray(self.rng.rand(*self.sub(size)))
        x = np.where(self.rng.rand(*x.shape) < .3, np.round(x), x)
        if x.shape == size and self.rng.rand() < .5:
            return "draw_bernoulli", [x], list(size), lambda xs: brandom.bernoulli(xs[0])
        return "draw_bernoulli", [x], list(size), lambda xs: brandom.bernoulli(xs[0], size=size)

    def draw_multinomial(self):
        size = self.shape(self.int(0, 2))
        n = np.asarray(self.rng.randint(0, 7, size=self.sub(size)))
        x = self.probs(self.sub(size) + (self.int(1, 4),))
        if np.broadcast_shapes(n.shape, x.shape[:-1]) == size and self.rng.rand() < .5:
            return "draw_multinomial", [n, x], list(size), lambda xs: brandom.multinomial(n, xs[1])
        return "draw_multinomial", [n, x], list(size), lambda xs: brandom.multinomial(n, xs[1], size=size)

    def draw_dirichlet(self):
        pl = self.shape(self.int(0, 2))
        x = np.exp(self.a(pl + (self.int(1, 4),)))
        if self.rng.rand() < .5:
            return "draw_dirichlet", [x], list(pl), lambda xs: brandom.dirichlet(xs[0])
        size = self.shape(self.int(0, 1)) + pl
        return "draw_dirichlet", [x], list(size), lambda xs: brandom.dirichlet(xs[0], size=size)

    def draw_gamma(self):
        size = self.shape()
        xs = [np.exp(self.a(self.sub(size))) + .5, np.exp(self.a(self.sub(size)))]
        return "draw_gamma", xs, list(size), lambda xs: brandom.gamma(xs[0], xs[1], size=size)

    def draw_pd(self):
        D = self.int(1, 3)
        nu = self.int(D, D + 3)
        r = self.rng.rand()
        if r < .35:
            V = self.spd((), D)
            return "draw_pd", [], [D], lambda xs: brandom.wishart(nu, V)
        if r < .6:
            V = self.spd((), D)
            return "draw_pd", [], [D], lambda xs: brandom.invwishart_rand(nu + 1, V)
        if r < .7:
            return "draw_pd", [], [D], lambda xs: brandom.covariance(D, nu=D - 1), True
        size = self.shape(self.int(0, 2))
        return "draw_pd", [], [D] + list(size), lambda xs: brandom.covariance(D, size=size, nu=nu + 1)

    def draw_correlation(self):
        D = self.int(1, 4)
        return "draw_correlation", [], [D], lambda xs: brandom.correlation(D)

    def draw_orth(self):
        D = self.int(1, 4)
        return "draw_orth", [], [D], lambda xs: brandom.orth(D)

    def draw_svd(self):
        D = self.int(1, 4)
        s = np.exp(self.a((D,)))
        return "draw_svd", [s], [D], lambda xs: brandom.svd(xs[0])

    def intervals(self):
        length, amount, gap = self.int(1, 3), self.int(1, 4), self.int(0, 2)
        need = length * amount + gap * (amount - 1)
        N = need + self.int(-1, 6)
        return ("intervals", [], [N, length, amount, gap],
                lambda xs: brandom.intervals(N, length, amount=amount, gap=gap)) + ((True,) if N < need else ())


TUPLES = {"block_banded_solve", "broadcast", "normalized_exp", "alpha_beta_recursion", "gaussian_gamma_to_t",
          "make_equal_ndim"}
NAMES = [n for n in vars(Calls) if n[0] != "_" and n not in ("int", "pick", "shape", "sub", "a", "plates", "spd", "spdn",
                                                            "maybe_view", "cov", "probs")]
CALLS = 20


def record(rng, call):
    f, xs, p, fn = call[:4]
    reject = len(call) > 4 and call[4] is True
    xs = [np.asarray(x, dtype=float) for x in xs]
    keep = [x.copy() for x in xs]
    step = dict(f=f, p=[int(i) for i in p], a=[arr(x) for x in xs], r=[], err="", reject=reject)
    try:
        r = fn(xs)
        r = list(r) if f in TUPLES else [r]
        r = [np.asarray(x, dtype=float) for x in r]
        if any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, xs)):
            step["err"] = "changed its arguments"
        step["r"] = [arr(x) for x in r]
        if len(call) > 4 and call[4] == "to":
            # axes of the product are left for broadcasting to fill
            to, nd = call[5:7]
            x = r[0]
            x = np.broadcast_to(x, tuple(to) + x.shape[x.ndim - nd:])
            step["r"] = [arr(x)]
    except Hang:
        raise
    except Exception as e:
        step["err"] = type(e).__name__
    return step


def run_one(task):
    fam, i, seed, masked = task[:4]
    id = "util.%d" % i
    rng = np.random.RandomState((crc("util") + 7919 * i + 104729 * seed) % (2 ** 31))
    np.random.seed((seed * 1009 + i) % (2 ** 31))
    c = Calls(rng)
    steps = []
    try:
        with deadline(), np.errstate(all="ignore"):
            for k in range(CALLS):
                name = NAMES[(i * CALLS + k) % len(NAMES)]
                for _ in range(20):
                    call = getattr(c, name)()
                    if sum(np.size(x) for x in call[1]) <= 400:
                        break
                steps.append(record(rng, call))
        return ("ok", dict(id=id, rtol="1e-7", atol="1e-8", steps=steps))
    except Skip:
        return ("skip",)
    except Hang:
        return ("raised", id, "does not come to an end")
