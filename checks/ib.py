"""Shared pieces of the immersed-boundary checks."""
from .common import Case, cells  # noqa: F401


def communicator(env, dim, dx, shift, n, ncomp=1, kernel="cosine", width=2):
    if dim == 2:
        from sopht.numeric.immersed_boundary_ops import EulerianLagrangianGridCommunicator2D as C
    else:
        from sopht.numeric.immersed_boundary_ops import EulerianLagrangianGridCommunicator3D as C
    return C(dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n, interp_kernel_width=width, real_t=env.real_t,
             n_components=ncomp, interp_kernel_type=kernel)


def gen(dim, what):
    import importlib

    m = importlib.import_module("sopht.numeric.immersed_boundary_ops.EulerianLagrangianGridCommunicator%dD" % dim)
    return getattr(m, "generate_%s_kernel_%dd" % (what, dim))


def phi(env, kernel, r):
    """one-dimensional regularised delta function (support |r| <= 2)"""
    if kernel == "cosine":
        return env.frac(1, 4) * (1 + env.cos(env.frac(1, 2) * env.pi * r))
    a = env.abs(r)
    inner = env.frac(1, 8) * (3 - 2 * a + env.sqrt(1 + 4 * a - 4 * a * a))
    outer = env.frac(1, 8) * (5 - 2 * a - env.sqrt(-7 + 12 * a - 4 * a * a))
    return env.ite(env.lt(a, env.frac(1)), inner, env.ite(env.lt(a, env.frac(2)), outer, env.frac(0)))


def coords(env, dim, n, cells_of, dx, shift, tag="th"):
    """positions shift + (k + theta) dx, theta in [0,1); k given per node and axis (x first)"""
    th = [[env.scalar("%s[%d,%d]" % (tag, a, i), 0, 1) for i in range(n)] for a in range(dim)]
    for row in th:
        for t in row:
            env.assume(env.lt(t, env.frac(1)))
    pos = env.array([[shift + (cells_of[i][a] + th[a][i]) * dx for i in range(n)] for a in range(dim)])
    return pos, th


class Ref:
    """Reference Eulerian-Lagrangian transfer: nearest index and weights come from a communicator of
    its own (its own kernels are decided in C17, C18 and C19), sums are written out here."""

    def __init__(self, env, dim, dx, shift, n):
        self.env, self.dim, self.dx, self.n = env, dim, dx, n
        self.com = communicator(env, dim, dx, shift, n, dim)
        self.vol = dx ** dim if env.concrete else power(dx, dim)

    def locate(self, pos):
        env, dim, n = self.env, self.dim, self.n
        near = env.zeros((dim, n), dtype=int)
        loc = env.zeros((dim,) + (4,) * dim + (n,))
        w = env.zeros((4,) * dim + (n,))
        self.com.local_eulerian_grid_support_of_lagrangian_grid_kernel(
            local_eul_grid_support_of_lag_grid=loc, nearest_eul_grid_index_to_lag_grid=near, lag_positions=pos)
        self.com.interpolation_weights_kernel(interp_weights=w, local_eul_grid_support_of_lag_grid=loc)
        self.set(env.snap(near), env.snap(w))

    def set(self, near, w):
        self.w = w
        self.sup = []
        for i in range(self.n):
            k = [int(near[a, i]) for a in range(self.dim)]
            self.sup.append([(tuple(k[self.dim - 1 - ax] - 1 + m[ax] for ax in range(self.dim)), m + (i,))
                             for m in cells((4,) * self.dim)])

    def cut(self):
        return [] if self.env.concrete else [t for t in self.w.flat if hasattr(t, "op")]

    def interp(self, field):
        """field: Snap (dim, grid) -> dict (c, i)"""
        out = {}
        for i in range(self.n):
            for c in range(self.dim):
                tot = 0
                for cell, m in self.sup[i]:
                    tot = tot + field[(c,) + cell] * self.w[m]
                out[c, i] = tot * self.vol
        return out

    def spread(self, base, lag, factor=1):
        """base: Snap or None; lag: dict (c, i); returns dict of touched entries"""
        out = {}
        for i in range(self.n):
            for c in range(self.dim):
                for cell, m in self.sup[i]:
                    k = (c,) + cell
                    out[k] = out.get(k, 0) + lag[c, i] * self.w[m] * factor
        return out


def power(dx, dim):
    v = dx
    for _ in range(dim - 1):
        v = v * dx
    return v
