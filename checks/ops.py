"""Registry of every pystencils kernel generator of the package (argument roles)."""
import importlib

from .common import gen_kw, fld

P = "sopht.numeric.eulerian_grid_ops.stencil_ops_%dd.%s_%dd"


class Op:
    """One generator variant.  args: list of (keyword, kind), kind in
    S/V scalar or vector field, s scalar parameter, v list of dim scalar parameters, C complex field.
    out: keywords written.  ring: cells from the boundary where the stencil does not fit (None: no stencil).
    """

    def __init__(self, name, dim, mod, gen, args, out, kw=None, ring=None, reset=False, inout=(), nofix=False,
                 pos=(), kind="flux"):
        self.name, self.dim, self.mod, self.gen = name, dim, mod, gen
        self.args = [tuple(a.split(":")) for a in args.split()]
        self.out = out.split()
        self.kw = kw or {}
        self.ring = ring
        self.reset = reset
        self.inout = set(inout)
        self.nofix = nofix
        self.pos = set(pos)
        self.kind = kind

    def generate(self, env, threads, fixed, shape, real_t=None, **more):
        m = importlib.import_module(P % (self.dim, self.mod, self.dim))
        f = getattr(m, "gen_%s_%dd" % (self.gen, self.dim))
        kw = gen_kw(env, threads, None if self.nofix else fixed, shape, **self.kw)
        if real_t is not None:
            kw["real_t"] = real_t
        kw.update(more)
        return f(**kw)

    def shape(self, kind, shape):
        return ((self.dim,) if kind == "V" else ()) + tuple(shape)

    def inputs(self, env, shape, strided=False, tag=""):
        d = {}
        for a, k in self.args:
            if k in "SV":
                kw = dict(lo=0, hi=3) if a in self.pos else {}
                d[a] = fld(env, tag + a, self.shape(k, shape), strided, **kw)
            elif k == "s":
                d[a] = env.scalar(tag + a, lo=0 if a in self.pos else None)
            elif k == "v":
                d[a] = [env.scalar("%s%s%d" % (tag, a, j)) for j in range(self.dim)]
            elif k == "C":
                d[a] = env.cfield(tag + a, shape, "complex64" if env.case.real_t == "float32" else "complex128")
        return d

    def fields(self):
        return [(a, k) for a, k in self.args if k in "SVC"]


def _both(name, dim, mod, gen, args, out, **k):
    r = []
    for reset in (True, False):
        kk = dict(k)
        kk["kw"] = dict(k.get("kw") or {}, reset_ghost_zone=reset)
        r.append(Op(name + ("" if reset else "-noreset"), dim, mod, gen, args, out, ring=1, reset=reset, **kk))
    return r


ST2, ST3 = "scalar", "vector"

FLUX = (
    [Op("curl-in", 2, "inplane_field_curl", "inplane_field_curl_pyst_kernel", "curl:S field:V prefactor:s", "curl", ring=1)]
    + _both("curl-out", 2, "outplane_field_curl", "outplane_field_curl_pyst_kernel", "curl:V field:S prefactor:s", "curl")
    + _both("diff", 2, "diffusion_flux", "diffusion_flux_pyst_kernel", "diffusion_flux:S field:S prefactor:s", "diffusion_flux")
    + _both("curl", 3, "curl", "curl_pyst_kernel", "curl:V field:V prefactor:s", "curl")
    + _both("div", 3, "divergence", "divergence_pyst_kernel", "divergence:S field:V inv_dx:s", "divergence")
    + _both("diff-s", 3, "diffusion_flux", "diffusion_flux_pyst_kernel", "diffusion_flux:S field:S prefactor:s",
            "diffusion_flux", kw=dict(field_type="scalar"))
    + _both("diff-v", 3, "diffusion_flux", "diffusion_flux_pyst_kernel",
            "vector_field_diffusion_flux:V vector_field:V prefactor:s", "vector_field_diffusion_flux",
            kw=dict(field_type="vector"))
    + [Op("stretch", 3, "vorticity_stretching_flux", "vorticity_stretching_flux_pyst_kernel",
          "vorticity_stretching_flux_field:V vorticity_field:V velocity_field:V prefactor:s",
          "vorticity_stretching_flux_field", ring=1, reset=True)]
)
ADV = [
    Op("advflux", d, "advection_flux", "advection_flux_conservative_eno3_pyst_kernel",
       "advection_flux:S field:S velocity:V inv_dx:s", "advection_flux", ring=2, inout=("advection_flux",))
    for d in (2, 3)
]
UPD = [
    Op("upd-forcing", d, "update_vorticity_from_velocity_forcing", "update_vorticity_from_velocity_forcing_pyst_kernel",
       "vorticity_field:%s velocity_forcing_field:V prefactor:s" % ("S" if d == 2 else "V"), "vorticity_field", ring=1,
       inout=("vorticity_field",))
    for d in (2, 3)
] + [
    Op("upd-pen", d, "update_vorticity_from_velocity_forcing", "update_vorticity_from_penalised_velocity_pyst_kernel",
       "vorticity_field:%s penalised_velocity_field:V velocity_field:V prefactor:s" % ("S" if d == 2 else "V"),
       "vorticity_field", ring=1, inout=("vorticity_field",))
    for d in (2, 3)
]
TS = [
    Op("ts-adv", 2, "advection_timestep", "advection_timestep_euler_forward_conservative_eno3_pyst_kernel",
       "field:S advection_flux:S velocity:V dt_by_dx:s", "field advection_flux", ring=2, kind="ts"),
    Op("ts-adv-s", 3, "advection_timestep", "advection_timestep_euler_forward_conservative_eno3_pyst_kernel",
       "field:S advection_flux:S velocity:V dt_by_dx:s", "field advection_flux", ring=2, kw=dict(field_type="scalar"), kind="ts"),
    Op("ts-adv-v", 3, "advection_timestep", "advection_timestep_euler_forward_conservative_eno3_pyst_kernel",
       "vector_field:V advection_flux:S velocity:V dt_by_dx:s", "vector_field advection_flux", ring=2,
       kw=dict(field_type="vector"), kind="ts"),
    Op("ts-diff", 2, "diffusion_timestep", "diffusion_timestep_euler_forward_pyst_kernel",
       "field:S diffusion_flux:S nu_dt_by_dx2:s", "field diffusion_flux", ring=1, kind="ts"),
    Op("ts-diff-s", 3, "diffusion_timestep", "diffusion_timestep_euler_forward_pyst_kernel",
       "field:S diffusion_flux:S nu_dt_by_dx2:s", "field diffusion_flux", ring=1, kw=dict(field_type="scalar"), kind="ts"),
    Op("ts-diff-v", 3, "diffusion_timestep", "diffusion_timestep_euler_forward_pyst_kernel",
       "vector_field:V diffusion_flux:S nu_dt_by_dx2:s", "vector_field diffusion_flux", ring=1,
       kw=dict(field_type="vector"), kind="ts"),
    Op("ts-stretch", 3, "vorticity_stretching_timestep", "vorticity_stretching_timestep_euler_forward_pyst_kernel",
       "vorticity_field:V velocity_field:V vorticity_stretching_flux_field:V dt_by_2_dx:s",
       "vorticity_field vorticity_stretching_flux_field", ring=1, kind="ts"),
]


def _elem(d):
    r = []
    for ft, K in (("scalar", "S"), ("vector", "V")):
        t = "-" + ft[0]
        kw = dict(field_type=ft)
        fn = "field" if ft == "scalar" else "vector_field"
        v = "fixed_val:s" if ft == "scalar" else "fixed_vals:v"
        r += [
            Op("sum" + t, d, "elementwise_ops", "elementwise_sum_pyst_kernel",
               "sum_field:%s field_1:%s field_2:%s" % (K, K, K), "sum_field", kw),
            Op("saxpby" + t, d, "elementwise_ops", "elementwise_saxpby_pyst_kernel",
               "sum_field:%s field_1:%s field_2:%s field_1_prefac:s field_2_prefac:s" % (K, K, K), "sum_field", kw),
            Op("set" + t, d, "elementwise_ops", "set_fixed_val_pyst_kernel", "%s:%s %s" % (fn, K, v), fn, kw),
            Op("add" + t, d, "elementwise_ops", "add_fixed_val_pyst_kernel", "sum_field:%s %s:%s %s" % (K, fn, K, v),
               "sum_field", kw),
            Op("bnd" + t, d, "elementwise_ops", "set_fixed_val_at_boundaries_pyst_kernel",
               "field:%s %s" % (K, v) if False else "%s:%s %s" % (fn, K, v), fn, dict(kw, width=2), nofix=True),
        ]
        pv = "penalised_field:S penalty_factor:s char_field:S penalty_field:S field:S" if ft == "scalar" else \
            "penalised_vector_field:V penalty_factor:s char_field:S penalty_vector_field:V vector_field:V"
        r.append(Op("brink" + t, d, "brinkmann_penalise", "brinkmann_penalise_pyst_kernel", pv, pv.split(":")[0], kw,
                    pos=("char_field", "penalty_factor")))
        if d == 2:
            pv = "penalised_field:S penalty_factor:s char_field:S penalty_val:s field:S" if ft == "scalar" else \
                "penalised_vector_field:V penalty_factor:s char_field:S penalty_val:v vector_field:V"
            r.append(Op("brinkval" + t, d, "brinkmann_penalise", "brinkmann_penalise_vs_fixed_val_pyst_kernel", pv,
                        pv.split(":")[0], kw, pos=("char_field", "penalty_factor")))
    r.append(Op("copy", d, "elementwise_ops", "elementwise_copy_pyst_kernel", "field:S rhs_field:S", "field"))
    r.append(Op("complex", d, "elementwise_ops", "elementwise_complex_product_pyst_kernel",
                "product_field:C field_1:C field_2:C", "product_field"))
    if d == 3:
        r.append(Op("cross", 3, "elementwise_ops", "elementwise_cross_product_pyst_kernel",
                    "result_field:V field_1:V field_2:V", "result_field"))
    r.append(Op("char", d, "char_func_from_level_set", "char_func_from_level_set_via_sine_heaviside_pyst_kernel",
                "char_func_field:S level_set_field:S", "char_func_field", dict(blend_width=0.75)))
    return r


ELEM = _elem(2) + _elem(3)
ALL = FLUX + ADV + UPD + TS + ELEM
