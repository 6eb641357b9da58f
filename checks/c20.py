"""C20 virtual boundary forcing."""
from .common import Case, cells
from .ib import Ref

FUNCTIONS = ["VirtualBoundaryForcing.__init__", "compute_interaction_forcing (with and without reset)", "compute_interaction_force_on_lag_grid",
             "compute_interaction_force_on_eul_and_lag_grid(_with_eul_grid_forcing_reset)", "time_step",
             "compute_lag_grid_velocity_mismatch_field", "update_lag_grid_position_mismatch_field_via_euler_forward", "compute_lag_grid_forcing_field",
             "the communicator kernels and the fixed-value kernels they call"]
BOUNDS = ("histories of at most 6 operations, 12 with the nodes on grid points (9 in the thorough tier) over {evaluate, evaluate on the Lagrangian grid only, time step}; every field, body velocity, "
          "coefficient, dt > 0, dx > 0, start time; nodes anywhere inside given cells (theta in [0,1) symbolic), 1..3 nodes (17 and 8, thorough 33 and 18, on grid points) on grids 6x7, 5x6x5; callers passing new arrays or the same arrays with new contents; the forcing field overwritten by the caller between evaluations; "
          "reset on and off; one and two objects sharing the Eulerian forcing field; both declared precisions")
OUTSIDE = "longer histories; floating-point rounding; numba compilation (not installed, the decorated source is executed); larger grids"
ASSUMPTIONS = ["numba.njit preserves the semantics of the decorated Python source",
               "weights and nearest indices of the reference come from a communicator of its own, decided in C17 and C19"]

GRID = {2: (6, 7), 3: (5, 6, 5)}
# x first; every support stays inside the grid
CELLS = {2: [[(1, 1), (4, 3), (2, 1)], [(3, 2), (1, 3), (4, 1)], [(2, 2), (2, 2), (3, 3)]],
         3: [[(1, 1, 2), (2, 3, 1), (1, 2, 1)], [(2, 2, 1), (1, 1, 1), (2, 3, 2)], [(2, 1, 2), (2, 1, 2), (1, 2, 2)]]}


def cells_of(dim, j, n):
    base = CELLS[dim][j % 3]
    if n <= 3:
        return base
    g = GRID[dim][::-1]
    return base + [tuple(1 + (i * (2 * a + 1) + a + j) % (g[a] - 3) for a in range(dim)) for i in range(n - 3)]


class Body:
    def __init__(self, env, tag, dim, n, dx, reset, shift, width, start, on_grid, inplace):
        from sopht.numeric.immersed_boundary_ops import VirtualBoundaryForcing

        self.env, self.tag, self.dim, self.n, self.dx, self.on_grid = env, tag, dim, n, dx, on_grid
        self.k = env.scalar("stiff" + tag, -3, 3, free="both")
        self.d = env.scalar("damp" + tag, -3, 3, free="both")
        kw = {}
        if shift is not None:
            kw["eul_grid_coord_shift"] = shift
        if width:
            kw["interp_kernel_width"] = 2
        if start:
            self.t = env.scalar("start" + tag, -3, 3, free="both")
            kw["start_time"] = self.t
        else:
            self.t = 0
        if reset is not None:
            kw["enable_eul_grid_forcing_reset"] = reset
        self.reset = reset is None or reset
        self.shift = dx / 2 if shift is None else shift
        self.obj = VirtualBoundaryForcing(virtual_boundary_stiffness_coeff=self.k, virtual_boundary_damping_coeff=self.d, grid_dim=dim,
                                          dx=dx, num_lag_nodes=n, real_t=env.real_t, **kw)
        self.ref = Ref(env, dim, dx, self.shift, n)
        self.pm = {(c, i): 0 for c in range(dim) for i in range(n)}
        self.vm = dict(self.pm)
        self.cuts = []
        self.inplace, self.arr = inplace, {}

    def put(self, name, a):
        """a caller either passes new arrays on every call or keeps its arrays and changes their contents"""
        if not self.inplace:
            return a
        if name in self.arr:
            self.arr[name][...] = a
        else:
            self.arr[name] = a
        return self.arr[name]

    def position(self, j):
        env, dim, n = self.env, self.dim, self.n
        k = cells_of(dim, j, n)
        th = [[0 if self.on_grid else env.scalar("th%s%d[%d,%d]" % (self.tag, j, a, i), 0, 1) for i in range(n)] for a in range(dim)]
        if not self.on_grid:
            for row in th:
                for t in row:
                    env.assume(env.lt(t, env.frac(1)))
                    if env.concrete:
                        env.assume(1e-3 < t < 1 - 1e-3)
        pos = env.array([[self.shift + (k[i][a] + th[a][i]) * self.dx for i in range(n)] for a in range(dim)])
        return pos, k

    def evaluate(self, mode, forcing, j):
        env, dim, n = self.env, self.dim, self.n
        flow = self.put("u", env.field("u%s%d" % (self.tag, j), (dim,) + GRID[dim]))
        vel = self.put("b", env.field("b%s%d" % (self.tag, j), (dim, n)))
        pos, k = self.position(j)
        pos = self.put("x", pos)
        u0, b0, p0, f0 = env.snap(flow), env.snap(vel), env.snap(pos), env.snap(forcing)
        args = dict(eul_grid_velocity_field=flow, lag_grid_position_field=pos, lag_grid_velocity_field=vel)
        if mode == "L":
            self.obj.compute_interaction_force_on_lag_grid(**args)
        else:
            self.obj.compute_interaction_forcing(eul_grid_forcing_field=forcing, **args)
        env.unchanged("flow velocity unchanged", flow, u0)
        env.unchanged("body velocity unchanged", vel, b0)
        env.unchanged("body positions unchanged", pos, p0)
        if self.on_grid:
            # nodes exactly on grid points: weights 1/4, 1/2, 1/4, 0 per axis, written out without any communicator
            w1 = [env.frac(1, 4), env.frac(1, 2), env.frac(1, 4), env.frac(0)]
            flat = []
            for m in cells((4,) * dim):
                v = w1[m[0]]
                for a in m[1:]:
                    v = v * w1[a]
                flat += [v / self.ref.vol] * n
            near = {(a, i): k[i][a] for a in range(dim) for i in range(n)}
            import lib.harness as H
            self.ref.set(near, H.Snap((4,) * dim + (n,), flat))
        else:
            self.ref.locate(pos)
            self.cuts = self.cuts + self.ref.cut()
        uf = self.ref.interp(u0)
        f = {}
        for key in self.vm:
            self.vm[key] = uf[key] - b0[key]
            f[key] = self.k * self.pm[key] + self.d * self.vm[key]
        self.check_force(f)
        if mode == "L":
            env.unchanged("Eulerian forcing unchanged by a Lagrangian-only evaluation", forcing, f0)
            return
        add = self.ref.spread(None, f)
        got = env.snap(forcing)
        for key in cells(f0.shape):
            want = add.get(key, 0)
            if not self.reset:
                want = f0[key] + want
            env.eq("Eulerian forcing is the spread Lagrangian force" + ("" if self.reset else " added"), got[key], want, cut=self.cuts)

    def check_force(self, f):
        got = self.env.snap(self.obj.lag_grid_forcing_field)
        for key in f:
            self.env.eq("Lagrangian force follows the PI law", got[key], f[key], cut=self.cuts)

    def step(self, j):
        dt = self.env.scalar("dt%s%d" % (self.tag, j), 0, 1, strict=True, free="hi")
        self.obj.time_step(dt=dt)
        for key in self.pm:
            self.pm[key] = self.pm[key] + dt * self.vm[key]
        self.t = self.t + dt

    def check_state(self):
        env = self.env
        env.eq("time is start time plus the steps", self.obj.time, self.t)
        got = env.snap(self.obj.lag_grid_position_mismatch_field)
        for key in self.pm:
            env.eq("position mismatch is the accumulated velocity mismatch", got[key], self.pm[key], cut=self.cuts)


def c_history(env, dim, n, ops, reset, shift=False, width=False, start=True, on_grid=False, inplace=False):
    dx = env.scalar("dx", 0, 2, strict=True, free="hi")
    if env.concrete:
        env.assume(dx > 1e-2)
        if on_grid:
            dx = 0.125
    sh = None
    if shift:
        sh = 0.25 if env.concrete and on_grid else env.scalar("shift", 0, 2, free="both")
    body = {}
    for tag in sorted(set(o[1] for o in ops)):
        body[tag] = Body(env, tag, dim, n, dx, reset, sh, width, start, on_grid, inplace)
    forcing = env.field("f", (dim,) + GRID[dim])
    for j, (op, tag) in enumerate(ops):
        b = body[tag]
        if op == "F":
            # the caller (a flow solver) leaves something else in the forcing field
            forcing[...] = env.field("f%d" % j, (dim,) + GRID[dim])
            continue
        if op == "S":
            b.step(j)
        else:
            b.evaluate(op, forcing, j)
        for x in body.values():
            x.check_state()


def hist(s):
    """'EaSaEb' -> pairs"""
    return [(s[i], s[i + 1]) for i in range(0, len(s), 2)]


def cases(tier, seed):
    out = []
    T = tier == "thorough"

    def add(name, dim, n, ops, reset, rt="float64", **k):
        out.append(Case("%s-%dd-N%d-%s" % (name, dim, n, rt), c_history, dict(dim=dim, n=n, ops=hist(ops), reset=reset, **k),
                        real_t=rt, sym_real=True, validate=True, weight=len(ops) * n * (8 if dim == 3 else 2)))

    for dim in (2, 3):
        add("reset-esse", dim, 2 if dim == 2 else 1, "EaSaSaEa", True, shift=True, width=True)
        add("default", dim, 2, "SaEaEa", None, rt="float32", start=False)
        add("noreset-eese", dim, 1, "EaEaSaEa", False, shift=True)
        add("lagonly", dim, 2, "LaSaLaSaEa", True)
        add("two-noreset", dim, 1, "EaEbSaEaSbEb", False, shift=True)
        add("two-reset", dim, 1, "EaEbSbFaLaEb", True)
        add("ongrid-noreset", dim, 3 if dim == 2 else 2, "EaSaEaSaEa", False, on_grid=True)
        add("ongrid-reset", dim, 2, "EaFaSaEa", None, on_grid=True, shift=True)
        add("inplace", dim, 1, "EaSaFaEaFaSaEa", True, inplace=True)
        add("inplace-noreset", dim, 1, "LaEaEbSaEaEb", False, inplace=True, rt="float32")
        add("ongrid-inplace", dim, 2 if dim == 2 else 1, "EaSaLaSaEaSaSaEaEaSaEaSa", False, on_grid=True, inplace=True, start=False)
        add("ongrid-many", dim, (33 if dim == 2 else 18) if T else (17 if dim == 2 else 8), "EaSaEa", None, on_grid=True)
        if T:
            add("long", dim, 2, "EaSaEaSaSaLaEaSaEa", True, shift=True)
            add("long-noreset", dim, 2, "EaSaLaSaEaEaSaEa", False, rt="float32")
            add("three-nodes", dim, 3, "EaSaEaSaEa", False, shift=True)
            add("two-long", dim, 2, "EaEbSaSbEbEaSaEb", False)
    return out
