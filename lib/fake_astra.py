"""A stand-in for the astra toolbox: books every resource, and projects by splatting voxels on the detector.

The conventions are those of the toolbox: volumes are (z, y, x) with rows growing with y in 3D, and with row 0 at
the largest y in 2D; projections are (detector row, angle, detector column) in 3D and (angle, detector pixel) in 2D;
detector positions are those of the centre of the detector.  Data has to be float32, contiguous and of the shape of
its geometry; resources are referred to by handle, and have to be deleted.

``install()`` registers the modules; it has to be called before corrct is imported.
"""

import sys
import types

import numpy as np


class Fault(RuntimeError):
    """A failure of the device."""


class Book:
    """What is alive, what was ever created, and what was done wrong."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.next = 1
        self.proj, self.data, self.algo = {}, {}, {}
        self.made = 0
        self.deleted = []
        self.wrong = []
        self.fail = {}
        self.count = {}
        self.opts = []

    def new(self, table, what):
        h = self.next
        self.next += 1
        table[h] = what
        return h

    def drop(self, table, name, ids):
        for h in ids if isinstance(ids, (list, tuple)) else [ids]:
            if h not in table:
                self.wrong.append(f"deletion of the {name} {h}, which is not there")
            else:
                del table[h]
                self.deleted.append((name, h))

    def step(self, name):
        """Count a call, and fail when it is asked for."""
        self.count[name] = self.count.get(name, 0) + 1
        if self.fail.get(name) == self.count[name]:
            raise Fault(f"{name}: out of memory")

    def arm(self, **fail):
        self.count, self.fail = {}, fail


book = Book()


class VolGeom(dict):
    pass


class ProjGeom(dict):
    pass


def create_vol_geom(*a):
    if len(a) in (2, 6):
        rows, cols = (int(v) for v in a[:2])
        ext = [float(v) for v in a[2:]] or [-cols / 2, cols / 2, -rows / 2, rows / 2]
        return VolGeom(nd=2, shape=(rows, cols), ext=ext)
    if len(a) in (3, 9):
        rows, cols, slices = (int(v) for v in a[:3])
        ext = [float(v) for v in a[3:]] or [-cols / 2, cols / 2, -rows / 2, rows / 2, -slices / 2, slices / 2]
        return VolGeom(nd=3, shape=(slices, rows, cols), ext=ext)
    raise ValueError(f"Wrong number of arguments for a volume geometry: {a}")


def create_proj_geom(kind, *a):
    if kind in ("parallel_vec", "fanflat_vec"):
        count, vec = int(a[0]), np.array(a[1], dtype=float)
        if len(a) != 2 or vec.ndim != 2 or vec.shape[1] != 6:
            raise ValueError(f"Wrong arguments for {kind}")
        return ProjGeom(nd=2, kind=kind, shape=(vec.shape[0], count), vec=vec)
    if kind in ("parallel3d_vec", "cone_vec"):
        if len(a) != 3:
            raise ValueError(f"Wrong number of arguments for {kind}")
        rows, cols, vec = int(a[0]), int(a[1]), np.array(a[2], dtype=float)
        if vec.ndim != 2 or vec.shape[1] != 12:
            raise ValueError(f"Wrong arguments for {kind}")
        return ProjGeom(nd=3, kind=kind, shape=(rows, vec.shape[0], cols), vec=vec)
    raise ValueError(f"Unknown geometry: {kind}")


def voxels(vg):
    """Positions of the centres of the voxels, in the order of the flattened volume."""
    e = vg["ext"]

    def axis(lo, hi, n):
        return lo + (np.arange(n) + 0.5) * (hi - lo) / n

    if vg["nd"] == 2:
        rows, cols = vg["shape"]
        y, x = np.meshgrid(axis(e[2], e[3], rows)[::-1], axis(e[0], e[1], cols), indexing="ij")
        return np.stack([x.ravel(), y.ravel()], axis=-1)
    slices, rows, cols = vg["shape"]
    z, y, x = np.meshgrid(axis(e[4], e[5], slices), axis(e[2], e[3], rows), axis(e[0], e[1], cols), indexing="ij")
    return np.stack([x.ravel(), y.ravel(), z.ravel()], axis=-1)


_cache = {}


def splat(vg, pg):
    """Per angle, the matrix that takes the volume to the detector."""
    key = (vg["nd"], vg["shape"], tuple(vg["ext"]), pg["kind"], pg["shape"], pg["vec"].tobytes())
    if key not in _cache:
        if len(_cache) > 2000:
            _cache.clear()
        _cache[key] = _splat(vg, pg)
    return _cache[key]


def _splat(vg, pg):
    pts, nd = voxels(vg), pg["nd"]
    out = []
    for vec in pg["vec"]:
        ray, d, u = vec[:nd], vec[nd : 2 * nd], vec[2 * nd : 3 * nd]
        axes = [u] if nd == 2 else [u, vec[9:12]]
        sizes = [pg["shape"][-1]] if nd == 2 else [pg["shape"][-1], pg["shape"][0]]
        rays = pts - ray if pg["kind"] in ("cone_vec", "fanflat_vec") else np.broadcast_to(ray, pts.shape)
        lhs = np.stack([np.broadcast_to(a, pts.shape) for a in axes] + [-rays], axis=-1)
        c = np.linalg.solve(lhs, (pts - d)[..., None])[:, :-1, 0]
        w = [np.maximum(0, 1 - np.abs(c[None, :, i] + (s - 1) / 2 - np.arange(s)[:, None])) for i, s in enumerate(sizes)]
        out.append(w[0] if nd == 2 else (w[1][:, None] * w[0][None]).reshape(sizes[1] * sizes[0], -1))
    return out


def create_projector(kind, pg, vg, options=None):
    book.step("create_projector")
    if kind not in ("linear", "cuda", "cuda3d"):
        raise ValueError(f"Unknown projector {kind}")
    nd = 3 if kind == "cuda3d" else 2
    if vg["nd"] != nd or pg["nd"] != nd:
        raise ValueError(f"Geometries of {vg['nd']} and {pg['nd']} dimensions for {kind}")
    book.opts.append(dict(options or {}))
    book.made += 1
    return book.new(book.proj, {"pg": pg, "vg": vg, "mat": None, "opts": dict(options or {})})


def _proj(h):
    if h not in book.proj:
        book.wrong.append(f"use of the projector {h}, which is not there")
        raise ValueError(f"No projector {h}")
    p = book.proj[h]
    if p["mat"] is None:
        p["mat"] = splat(p["vg"], p["pg"])
    return p


def _run(h, vol, prj, forward):
    p = _proj(h)
    nd = p["pg"]["nd"]
    v = vol.reshape(-1).astype(float)
    if forward:
        for a, m in enumerate(p["mat"]):
            line = m.dot(v)
            if nd == 2:
                prj[a] = line
            else:
                prj[:, a] = line.reshape(prj.shape[0], prj.shape[2])
    else:
        acc = np.zeros(v.size)
        for a, m in enumerate(p["mat"]):
            acc += m.T.dot((prj[a] if nd == 2 else prj[:, a]).astype(float).ravel())
        vol[...] = acc.reshape(vol.shape)


def _checked(x, geom, what):
    if not isinstance(x, np.ndarray) or x.dtype != np.float32 or not x.flags["C_CONTIGUOUS"]:
        raise ValueError(f"{what}: data should be contiguous and in single precision")
    if tuple(x.shape) != tuple(geom["shape"]):
        raise ValueError(f"{what}: the dimensions of the data do not match those of the geometry ({x.shape}, {geom['shape']})")


class _DataMod:
    def __init__(self, nd):
        self.nd = nd

    def link(self, kind, geom, data):
        book.step("link")
        if geom["nd"] != self.nd or (kind == "-vol") != isinstance(geom, VolGeom):
            raise ValueError(f"Wrong geometry for {kind}")
        _checked(data, geom, kind)
        return book.new(book.data, {"kind": kind, "geom": geom, "data": data})

    def delete(self, ids):
        book.drop(book.data, "data", ids)


class _Algorithm:
    def create(self, cfg):
        book.step("algorithm")
        return book.new(book.algo, dict(cfg))

    def run(self, h, iterations=1):
        book.step("run")
        if h not in book.algo:
            book.wrong.append(f"use of the algorithm {h}, which is not there")
            raise ValueError("No algorithm")
        c = book.algo[h]
        fw = c["type"].startswith("FP")
        ids = [c["VolumeDataId" if fw else "ReconstructionDataId"], c["ProjectionDataId"]]
        for i in ids:
            if i not in book.data:
                book.wrong.append(f"use of the data {i}, which is not there")
                raise ValueError("No data")
        p = _proj(c["ProjectorId"])
        nd = p["pg"]["nd"]
        if c["type"][2:] not in ({2: ("", "_CUDA"), 3: ("3D_CUDA",)}[nd]):
            raise ValueError(f"Unknown algorithm {c['type']}")
        v, s = (book.data[i] for i in ids)
        if v["geom"]["shape"] != p["vg"]["shape"] or s["geom"]["shape"] != p["pg"]["shape"]:
            raise ValueError("The data does not match the projector")
        _run(c["ProjectorId"], v["data"], s["data"], fw)

    def delete(self, ids):
        book.drop(book.algo, "algorithm", ids)


def _direct(forward):
    def run(h, vol, prj):
        book.step("run")
        p = _proj(h)
        if p["pg"]["nd"] != 3:
            raise ValueError("Not a 3D projector")
        _checked(vol, p["vg"], "volume")
        _checked(prj, p["pg"], "projections")
        _run(h, vol, prj, forward)

    return run


def install(direct=True):
    m = types.ModuleType("astra")
    m.__path__ = []
    sub = types.ModuleType("astra.astra")
    sub.use_cuda = lambda: True
    m.astra = sub
    exp = types.ModuleType("astra.experimental")
    exp.direct_FP3D, exp.direct_BP3D = _direct(True), _direct(False)
    m.create_vol_geom, m.create_proj_geom, m.create_projector = create_vol_geom, create_proj_geom, create_projector
    m.projector = types.SimpleNamespace(delete=lambda ids: book.drop(book.proj, "projector", ids))
    m.data2d, m.data3d, m.algorithm = _DataMod(2), _DataMod(3), _Algorithm()
    m.creators = types.SimpleNamespace(astra_dict=lambda name: {"type": name})
    sys.modules["astra"], sys.modules["astra.astra"] = m, sub
    if direct:
        m.experimental = exp
        sys.modules["astra.experimental"] = exp
    return m
