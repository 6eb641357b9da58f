"""C25 XDMF files match the data file they describe."""
import glob
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from .c22 import conf
from .common import Case
from .iolib import Setup, check_same, content, refused, scratch

FUNCTIONS = ["IO.save, IO._save, IO.generate_xdmf_eulerian, IO.generate_xdmf_lagrangian, IO.define_eulerian_grid, IO.add_as_*_fields_for_io"]
BOUNDS = ("every origin, spacing and time (symbolic reals carried through the written text), every content, every choice of scalar/vector, connectivity, "
          "named/unnamed grids and registered fields (symbolic choices, every feasible path) for 2D and 3D grids up to 4 cells a side and one of about 1000, up to "
          "4 Lagrangian grids with 0..4 and 1001 points, float32, float64 and mixed arrays, 9 file names, repeated saves")
OUTSIDE = ("whether a reader resolves a relative file reference against the folder of the description or the working folder (both are accepted); names with XML "
           "special characters or '/'; two data files whose names differ only in the extension; attribute ordering and layout of the XML")
ASSUMPTIONS = ["h5py stores datasets with the shape and type of the array given"]

NUM = re.compile(r"@T(\d+)@")


def value(env, text):
    m = NUM.fullmatch(text)
    if m:
        return env.symt._tokens[int(m.group(1))]
    return float(text) if env.concrete else env.symt.L(float(text)) if not re.fullmatch(r"[-+]?\d+", text) else env.symt.L(int(text))


def ints(text):
    return [int(x) for x in re.split(r"[\s,]+", text.strip()) if x]


def strip1(sh):
    sh = list(sh)
    while len(sh) > 1 and sh[0] == 1:
        sh = sh[1:]
    return sh


def same_value(env, a, b):
    if env.concrete:
        return abs(float(a) - float(b)) <= 1e-6 * max(abs(float(a)), abs(float(b)))
    return env.eq_(a, b)


def describe(env, path):
    """References and parameters found in one description file."""
    root = ET.parse(path).getroot()
    refs = []
    geo = {}
    for grid in root.iter("Grid"):
        for holder in grid.iter():
            for it in holder.findall("DataItem"):
                if it.get("Format", "XML") == "HDF":
                    f, d = (it.text or "").strip().rsplit(":", 1)
                    refs.append(dict(file=f.strip(), ds=d.strip().strip("/"), dims=ints(it.get("Dimensions", "")),
                                     prec=int(it.get("Precision", "4")), kind=it.get("NumberType") or it.get("DataType") or "Float",
                                     holder=holder.tag, hattr=dict(holder.attrib)))
                else:
                    geo.setdefault(holder.tag, []).append((it.get("Name"), ints(it.get("Dimensions", "")), re.split(r"[\s,]+", (it.text or "").strip())))
    times = [t.get("Value") for t in root.iter("Time")]
    topo = [dict(t.attrib) for t in root.iter("Topology")]
    gtype = [t.get("GeometryType") for t in root.iter("Geometry")]
    return dict(refs=refs, geo=geo, times=times, topo=topo, gtype=gtype, grids=len(list(root.iter("Grid"))))


def check_described(env, name, A, t, skip=None):
    """All descriptions in this folder against the data file `name`."""
    xmf = sorted(glob.glob("**/*.xmf", recursive=True))
    ds, _ = content(name)
    ngrids = len(A.lags)
    eul = any(k[0] == "E" for k in A.regs)
    env.true("each grid gets its own description", len(xmf) == ngrids + (1 if eul else 0))
    env.true("the descriptions lie next to the data file", all(os.path.dirname(os.path.abspath(p)) == os.path.dirname(os.path.abspath(name)) for p in xmf))
    seen = {}
    for p in xmf:
        D = describe(env, p)
        env.true("one grid per description", D["grids"] == 1)
        owners = set()
        for r in D["refs"]:
            here = [os.path.abspath(r["file"]), os.path.abspath(os.path.join(os.path.dirname(p), r["file"]))]
            env.true("references name the data file", os.path.abspath(name) in here)
            ok = r["ds"] in ds
            env.true("referenced datasets exist", ok)
            if not ok:
                continue
            a = ds[r["ds"]]
            seen[r["ds"]] = seen.get(r["ds"], 0) + 1
            env.true("declared dimensions are those of the dataset", strip1(r["dims"]) == strip1(a.shape) or (0 in r["dims"] and 0 in a.shape and strip1(r["dims"]) == list(a.shape)))
            env.true("declared byte size is that of the dataset", r["prec"] == a.dtype.itemsize)
            env.true("declared number type is that of the dataset", r["kind"] == {"f": "Float", "i": "Int", "u": "UInt"}[a.dtype.kind])
            parts = r["ds"].split("/")
            owners.add(parts[0] if parts[0] == "Eulerian" else "/".join(parts[:2]))
            if r["holder"] == "Attribute":
                leaf = parts[-1]
                env.true("a field is described under its name", r["hattr"].get("Name") == leaf)
                at = r["hattr"].get("AttributeType", "Scalar")
                vec = parts[0] != "Eulerian" and parts[-2] == "Vector"
                env.true("a field is described as what it is", at == ("Vector" if vec else "Scalar"))
        env.true("a description describes one grid", len(owners) <= 1)
        for tv in D["times"]:
            env.true("the time described is the time saved", same_value(env, value(env, tv), t))
        env.true("the time is described", len(D["times"]) == 1)
        if owners == {"Eulerian"}:
            items = D["geo"].get("Geometry", [])
            env.true("origin and spacing are given", len(items) == 2)
            for j, (nm, dims, vals) in enumerate(items):
                n = int(np.prod(dims)) if dims else 0
                env.true("declared number of origin and spacing values", n == len(vals))
                what = {"Origin": A.origin, "Spacing": A.dx}.get(nm, (A.origin, A.dx)[j])
                want = env.snap(what).flat
                env.true("all origin and spacing values are given", len(vals) in (len(want), 3))
                for x, y in zip(vals[-len(want):], want):
                    env.true("origin and spacing are those registered", same_value(env, value(env, x), y))
            for tp in D["topo"]:
                env.true("grid dimensions are those registered", strip1(ints(tp.get("Dimensions", ""))) == strip1(A.shape))
            env.true("topology and geometry agree", D["gtype"] == ["ORIGIN_DXDYDZ" if D["topo"][0].get("TopologyType", "").lower() == "3dcorectmesh" else "ORIGIN_DXDY"])
            env.true("as many values as the topology has dimensions",
                     all(len(v) == len(ints(D["topo"][0]["Dimensions"])) for _, _, v in items))
        elif owners:
            g = [r["ds"] for r in D["refs"] if r["holder"] == "Geometry"]
            env.true("the points of the grid are its geometry", len(g) == 1 and g[0].endswith("/Grid"))
            if len(g) == 1 and g[0] in ds:
                n, dim = ds[g[0]].shape
                env.true("number of coordinates", D["gtype"] == ["XYZ" if dim == 3 else "XY"])
                env.true("one topology", len(D["topo"]) == 1)
                tp = D["topo"][0]
                if tp.get("NumberOfElements") is not None and tp.get("TopologyType", "").lower() == "polyvertex":
                    env.true("number of points", ints(tp["NumberOfElements"]) == [n])
                conn = [r for r in D["refs"] if r["holder"] == "Topology"]
                env.true("connected grids are described with their connectivity",
                         len(conn) == (1 if g[0][:-4] + "Connection" in ds else 0))
                env.true("topology type", tp.get("TopologyType", "").lower() == ("polyline" if conn else "polyvertex"))
    for k in ds:
        env.true("every saved dataset is described exactly once", seen.get(k, 0) == 1)
    want = set()
    for key in A.regs:
        if key[0] == "E":
            want.add(key[1])
    for f in want:
        env.true("every registered field is in the file", any(k.split("/")[0] == "Eulerian" and (k.split("/")[-1] == f or k.split("/")[-1].startswith(f + "_")) for k in ds))


def c_described(env, dim, which, mixed, name, layout):
    with scratch(env):
        os.makedirs(os.path.dirname(name) or "sub", exist_ok=True)
        eul, lags = conf(env, dim, which)
        dts = (None, None) if not mixed else (np.float32, np.float64)
        rd = None if not mixed or env.boolean("declared like the run") else (np.float32 if env.base_t == np.float64 else np.float64)
        A = Setup(env, dim, eul, lags, "A", layout, dts, real_dtype=rd)
        t = env.scalar("time", -10, 10, free="both")
        saved = A.snap()
        A.io.save(h5_file_name=name, time=t)
        check_described(env, name, A, t)
        B = Setup(env, dim, eul, lags, "B", layout, dts, origin=A.origin, dx=A.dx, real_dtype=rd)
        env.true("the data file is intact", not refused(env, lambda: B.io.load(h5_file_name=name)))
        check_same(env, "the data file is intact", B, saved)


def c_large(env, dim):
    """sides and numbers of points with more than three digits"""
    with scratch(env):
        sh = (2, 1003) if dim == 2 else (1, 1002, 2)
        A = Setup(env, dim, (sh, {"u": "s"}), [("g", 1001, True, {"f": "s"}), (None, 1200, False, {"F": "v"})], "A")
        t = env.scalar("time", -10, 10, free="both")
        A.io.save(h5_file_name="out.h5", time=t)
        check_described(env, "out.h5", A, t)


def c_resave(env, dim):
    """repeated saves, new grids and fields in between, another file"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        A = Setup(env, dim, (sh, {"p": "s"}), [("a", 2, True, {"f": "v"})], "A")
        t = [env.scalar("t%d" % i, -10, 10, free="both") for i in range(3)]
        A.io.save(h5_file_name="out.h5", time=t[0])
        check_described(env, "out.h5", A, t[0])
        A.io.add_as_eulerian_fields_for_io(u=env.field("u", (dim,) + sh))
        A.regs["E", "u"] = None
        g = env.field("g", (dim, 3))
        kw = {} if env.boolean("unnamed") else {"lagrangian_grid_name": "later"}
        A.io.add_as_lagrangian_fields_for_io(lagrangian_grid=g, f=env.field("f", (3,)), **kw)
        A.lags.append((None, 3, None, {"f": "s"}))
        A.io.save(h5_file_name="out.h5", time=t[1])
        check_described(env, "out.h5", A, t[1])
        for p in glob.glob("*.xmf"):
            os.unlink(p)
        A.io.save(h5_file_name="other.h5", time=t[2])
        check_described(env, "other.h5", A, t[2])


def c_named_eulerian(env, dim):
    """a Lagrangian grid called like the suffix of the Eulerian description"""
    with scratch(env):
        sh = (2, 3) if dim == 2 else (2, 2, 2)
        A = Setup(env, dim, (sh, {"p": "s"}), [("eulerian", 2, False, {"f": "v"})], "A")
        A.io.save(h5_file_name="out.h5", time=env.scalar("time", -10, 10, free="both"))
        xmf = glob.glob("*.xmf")
        ref = [r["ds"] for p in xmf for r in describe(env, p)["refs"]]
        own = len(xmf) == 2 and sorted(ref) == sorted(content("out.h5")[0])
        alt = len(xmf) == 1 and sorted(ref) == ["Lagrangian/eulerian/Grid", "Lagrangian/eulerian/Vector/f"]
        env.true("each grid gets its own description", own, known=("lagrangian-grid-named-eulerian", alt))


NAMES = ("out.h5", "out", "sub/x.h5", "out.h5.bak", "a.b.hdf5", "dir.h5/out.h5", "x_eulerian.h5", "sub/noext", "run.h5.h5")


def cases(tier, seed):
    T = tier == "thorough"
    out = []
    n = seed
    for dim in (2, 3):
        for which in ("euler", "thin", "lag", "empty", "shared", "sizes", "defaults", "nofields"):
            for rep in range(len(NAMES) if T else 2):
                mixed = bool((n + rep) % 2)
                rt = ("float64", "float32")[(n // 2) % 2]
                out.append(Case("described%dd-%s-%d-%s%s" % (dim, which, rep, rt, "-mixed" if mixed else ""), c_described,
                                dict(dim=dim, which=which, mixed=mixed, name=NAMES[n % len(NAMES)], layout=("plain", "T", "view", "neg")[n % 4]), real_t=rt,
                                validate=True, sym_real=True, weight=200, max_paths=600))
                n += 1
        for nm in NAMES:
            out.append(Case("name%dd-%s" % (dim, nm), c_described, dict(dim=dim, which="shared", mixed=False, name=nm, layout="plain"),
                            validate=True, sym_real=True, weight=100, max_paths=600))
        out.append(Case("large%dd" % dim, c_large, dict(dim=dim), validate=True, sym_real=True, weight=300))
        out.append(Case("resave%dd" % dim, c_resave, dict(dim=dim), validate=True, sym_real=True, weight=50))
        out.append(Case("named-eulerian%dd" % dim, c_named_eulerian, dict(dim=dim), sym_real=True))
    return out
