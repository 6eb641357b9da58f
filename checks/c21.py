"""C21 Brinkmann boundary forcing."""
from .common import Case, cells
from .ib import Ref
from .c20 import GRID, cells_of, hist

FUNCTIONS = ["BrinkmannBoundaryForcing.__init__", "compute_interaction_forcing (with and without reset)", "brinkmann_penalise_lag_grid_velocity_field",
             "compute_lag_grid_penalisation_flux", "compute_lag_grid_penalisation_forcing", "the communicator kernels and the fixed-value kernels they call"]
BOUNDS = ("histories of at most 3 calls, 6 with the nodes on grid points (5 in the thorough tier) on one or two objects; every flow, body velocity, coefficient >= 0, dt > 0, dx > 0; nodes anywhere "
          "inside given cells (theta in [0,1) symbolic) or exactly on grid points, 1..3 nodes (17 and 8, thorough 33 and 18, on grid points) on grids 6x7, 5x6x5; callers passing new arrays or the same arrays with new contents; reset on and off; both declared precisions")
OUTSIDE = "longer histories; floating-point rounding; numba compilation (not installed, the decorated source is executed); larger grids"
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source",
               "weights and nearest indices of the reference come from a communicator of its own, decided in C17 and C19"]


class Body:
    def __init__(self, env, tag, dim, n, dx, reset, shift, on_grid, inplace):
        from sopht.numeric.immersed_boundary_ops import BrinkmannBoundaryForcing

        self.env, self.tag, self.dim, self.n, self.dx, self.on_grid, self.shift = env, tag, dim, n, dx, on_grid, shift
        self.c = env.scalar("coeff" + tag, 0, 50, free="hi")
        kw = {} if reset is None else dict(enable_eul_grid_flux_reset=reset)
        self.reset = reset is None or reset
        self.obj = BrinkmannBoundaryForcing(brinkmann_coeff=self.c, grid_dim=dim, dx=dx, eul_grid_coord_shift=shift, num_lag_nodes=n,
                                            interp_kernel_width=2, real_t=env.real_t, **kw)
        self.ref = Ref(env, dim, dx, shift, n)
        self.last = None
        self.inplace, self.arr = inplace, {}

    def put(self, name, a):
        """a caller either passes new arrays on every call or keeps its arrays and changes their contents"""
        if not self.inplace:
            return a
        if name in self.arr:
            self.arr[name][...] = a
        else:
            self.arr[name] = a
        return self.arr[name]

    def call(self, flux, j, rest=False):
        env, dim, n = self.env, self.dim, self.n
        flow = self.put("u", env.field("u%s%d" % (self.tag, j), (dim,) + GRID[dim]))
        dt = env.scalar("dt%s%d" % (self.tag, j), 0, 1, strict=True, free="hi")
        if env.concrete:
            env.assume(dt > 1e-3)
        k = cells_of(dim, j, n)
        th = [[0 if self.on_grid else env.scalar("th%s%d[%d,%d]" % (self.tag, j, a, i), 0, 1) for i in range(n)] for a in range(dim)]
        if not self.on_grid:
            for row in th:
                for t in row:
                    env.assume(env.lt(t, env.frac(1)))
                    if env.concrete:
                        env.assume(1e-3 < t < 1 - 1e-3)
        pos = self.put("x", env.array([[self.shift + (k[i][a] + th[a][i]) * self.dx for i in range(n)] for a in range(dim)]))
        cuts = []
        if self.on_grid:
            w1 = [env.frac(1, 4), env.frac(1, 2), env.frac(1, 4), env.frac(0)]
            flat = []
            for m in cells((4,) * dim):
                v = w1[m[0]]
                for a in m[1:]:
                    v = v * w1[a]
                flat += [v / self.ref.vol] * n
            from lib.harness import Snap
            self.ref.set({(a, i): k[i][a] for a in range(dim) for i in range(n)}, Snap((4,) * dim + (n,), flat))
        else:
            self.ref.locate(pos)
            cuts = self.ref.cut()
        u0 = env.snap(flow)
        uf = self.ref.interp(u0)
        if rest:
            vel = self.put("b", env.array([[uf[c, i] for i in range(n)] for c in range(dim)]))
        else:
            vel = self.put("b", env.field("b%s%d" % (self.tag, j), (dim, n)))
        b0, p0, f0 = env.snap(vel), env.snap(pos), env.snap(flux)
        self.obj.compute_interaction_forcing(eul_grid_penalisation_flux=flux, eul_grid_velocity_field=flow, lag_grid_position_field=pos,
                                             lag_grid_velocity_field=vel, dt=dt)
        env.unchanged("flow velocity unchanged", flow, u0)
        env.unchanged("body velocity unchanged", vel, b0)
        env.unchanged("body positions unchanged", pos, p0)
        pen, fl, fo = {}, {}, {}
        for key in uf:
            pen[key] = (uf[key] + self.c * dt * b0[key]) / (1 + self.c * dt)
            fl[key] = pen[key] - uf[key]
            fo[key] = fl[key] * self.ref.vol / dt
        gp, gf, go = env.snap(self.obj.lag_grid_penalised_velocity_field), env.snap(self.obj.lag_grid_penalisation_flux), env.snap(self.obj.lag_grid_penalisation_forcing)
        for key in uf:
            env.eq("penalised velocity", gp[key], pen[key], cut=cuts)
            env.eq("penalisation flux", gf[key], fl[key], cut=cuts)
            env.eq("penalisation forcing", go[key], fo[key], cut=cuts)
            if rest:
                env.eq("body moving with the flow gives no flux", gf[key], 0, cut=cuts)
        add = self.ref.spread(None, {key: gf[key] for key in uf}, self.ref.vol)
        got = env.snap(flux)
        for key in cells(f0.shape):
            want = add.get(key, 0)
            if not self.reset:
                want = f0[key] + want
            env.eq("Eulerian flux is the spread Lagrangian flux" + ("" if self.reset else " added"), got[key], want, cut=cuts)
        self.last = (gp, gf, go)

    def still(self):
        for a, s in zip((self.obj.lag_grid_penalised_velocity_field, self.obj.lag_grid_penalisation_flux, self.obj.lag_grid_penalisation_forcing), self.last):
            self.env.unchanged("results of one object survive calls on another", a, s)


def c_history(env, dim, n, ops, reset, on_grid=False, inplace=False):
    dx = env.scalar("dx", 0, 2, strict=True, free="hi")
    shift = env.scalar("shift", 0, 2, free="both")
    if env.concrete:
        env.assume(dx > 1e-2)
        if on_grid:
            dx, shift = 0.125, 0.25
    body = {}
    for tag in sorted(set(o[1] for o in ops)):
        body[tag] = Body(env, tag, dim, n, dx, reset, shift, on_grid, inplace)
    flux = env.field("f", (dim,) + GRID[dim])
    for j, (op, tag) in enumerate(ops):
        body[tag].call(flux, j, rest=op == "R")
        for b in body.values():
            if b.last is not None and b.tag != tag:
                b.still()


def cases(tier, seed):
    out = []
    T = tier == "thorough"

    def add(name, dim, n, ops, reset, rt="float64", **k):
        out.append(Case("%s-%dd-N%d-%s" % (name, dim, n, rt), c_history, dict(dim=dim, n=n, ops=hist(ops), reset=reset, **k),
                        real_t=rt, sym_real=True, validate=True, weight=len(ops) * n * (8 if dim == 3 else 2)))

    for dim in (2, 3):
        add("reset", dim, 2, "EaEa", True)
        add("default", dim, 1, "EaEa", None, rt="float32")
        add("noreset", dim, 2, "EaEa", False)
        add("rest", dim, 1, "EaRaEa", True)
        add("two-noreset", dim, 1, "EaEbEa", False)
        add("ongrid-noreset", dim, 3 if dim == 2 else 2, "EaEa", False, on_grid=True)
        add("ongrid-reset", dim, 2, "EaEa", None, on_grid=True)
        add("inplace", dim, 1, "EaEaEa", True, inplace=True)
        add("inplace-two", dim, 1, "EaEbRa", False, inplace=True, rt="float32")
        add("ongrid-inplace", dim, 2 if dim == 2 else 1, "EaEaRaEaEaEa", False, on_grid=True, inplace=True)
        add("ongrid-many", dim, (33 if dim == 2 else 18) if T else (17 if dim == 2 else 8), "EaEa", None, on_grid=True)
        if T:
            add("long", dim, 3, "EaEaEaRaEa", False)
            add("two-long", dim, 2, "EaEbEaEbRa", True, rt="float32")
    return out
