"""C12: volume geometries (spec/VolGeom.tla)."""

import numpy as np

from corrct import models
from corrct.models import VolumeGeometry

INV = ["RoundTrip", "ZxyIsPermutation", "FieldOfView", "Idempotent", "EmitAll"]
FORMATS = ["dvwu", "vwu", "dwu", "wu", "u", "vu", "wvu", "dwvu", "vdwu", "uwv", "udv", "wdvu", "uw"]


def gen_make(rng):
    if rng.random() < 0.55:
        fmt = FORMATS[rng.integers(len(FORMATS))]
        pad = (int(rng.integers(-2, 4)), int(rng.integers(-2, 4)))
        form = rng.integers(6)
        if form in (0, 1):
            pad = (0, 0)
        elif form in (2, 3):
            pad = (pad[0], pad[0])
        ss = int(rng.integers(1, 5)) if rng.random() < 0.5 else 1
        sizes = {c: int(n) for c, n in zip("dvwu", rng.integers(1, 9, size=4))}
        sizes["u"] += 8
        if sizes["v"] == 1 and rng.random() < 0.5:
            sizes["v"] = 2
        shape = tuple(sizes[c] for c in fmt)
        o = {"op": "data", "dims": [[c, sizes[c]] for c in fmt], "pad": list(pad), "ss": ss, "shape": []}
        kw = {}
        if form == 1:
            kw["padding_u"] = 0
        elif form == 2:
            kw["padding_u"] = pad[0]
        elif form >= 3:
            kw["padding_u"] = [pad, list(pad), np.array(pad)][rng.integers(3)]
        if not "dvwu".endswith(fmt) or rng.random() < 0.3:
            kw["data_format"] = fmt
        if ss > 1 or rng.random() < 0.3:
            kw["super_sampling"] = ss
        dt = [np.float32, np.uint16, np.float64][rng.integers(3)]
        static = not (set(kw) - {"data_format"}) and rng.random() < 0.5

        def mk():
            f = VolumeGeometry.get_default_from_data if static else models.get_vol_geom_from_data
            return f(np.zeros(shape, dtype=dt), **kw)

        return o, mk
    shape = tuple(int(n) for n in rng.integers(1, 8, size=rng.integers(2, 5)))
    if rng.random() < 0.3:
        shape = (*shape[:-1], shape[-2])
    static = rng.random() < 0.5
    o = {"op": "volume", "dims": [], "pad": [0, 0], "ss": 1, "shape": list(shape)}
    return o, lambda: (VolumeGeometry.get_default_from_volume if static else models.get_vol_geom_from_volume)(np.zeros(shape, np.float32))


def ints(a):
    a = np.asarray(a)
    return [int(v) for v in a] if a.ndim == 1 and np.all(a == np.round(a)) else a.tolist()


def run(ck):
    rng = np.random.default_rng(12000 + ck.seed)
    num = 900 if ck.thorough else 150
    jobs = []
    for _ in range(num):
        ms = [gen_make(rng) for _ in range(int(rng.integers(1, 4)))]
        jobs.append(({"menu": [o for o, _ in ms], "depth": int(rng.integers(1, 4))}, [f for _, f in ms]))
    r = ck.tlc("VolGeom", files={"instances.json": [j for j, _ in jobs]}, invariants=INV)
    for e in r.emitted:
        J, mk = jobs[e["iid"] - 1]
        ck.case("geometries", {"case": J, "behaviour": e})
        heap = []
        for op, k in e["hist"]:
            tag = {"construction": J["menu"][k - 1]} if op == "new" else {"get3d of": e["heap"][k - 1]}
            ok, g = ck.guard(op, (lambda: mk[k - 1]()) if op == "new" else (lambda: heap[k - 1].get_3d()), tag)
            if not ok:
                break
            ck.expect(all(g is not h for h in heap), "new-geometry", tag)
            heap.append(g)
        else:
            for g, s in zip(heap, e["heap"]):
                compare(ck, g, s, {"history": [[op, J["menu"][k - 1] if op == "new" else k] for op, k in e["hist"]]})
    refusals(ck, rng)
    shifts(ck, rng)


def compare(ck, g, s, tag):
    for what, fn, want in (("shape_xyz", lambda: ints(g.shape_xyz), s["xyz"]), ("shape_zxy", lambda: ints(g.shape_zxy), s["zxy"]),
                           ("mask_shape", lambda: ints(g.mask_shape), s["mask"]), ("is_3D", lambda: bool(g.is_3D()), s["is3d"]),
                           ("is_square", lambda: bool(g.is_square()), s["square"])):
        ok, got = ck.guard(what, fn, tag)
        if ok:
            ck.expect(got == want, what, lambda: {**tag, "got": got, "spec": want})
    ck.expect(abs(g.vox_size * s["ss"] - 1) < 1e-12, "vox_size", lambda: {**tag, "got": g.vox_size, "spec": f"1/{s['ss']}"})
    ok, ext = ck.guard("extent", lambda: np.array(g.extent, float), tag)
    if ok:
        want = np.array(s["ext2"]) / (2 * s["ss"])
        ck.expect(ext.shape == want.shape and np.allclose(ext, want, rtol=1e-12, atol=0), "extent", lambda: {**tag, "got": ext, "spec": want})


def refused(ck, clause, fn, tag):
    try:
        r = fn()
    except ValueError:
        return
    except Exception as exc:  # noqa: BLE001
        ck.violation(clause, {**tag, "raised": f"{type(exc).__name__}: {exc}"})
        return
    ck.violation(clause, {**tag, "returned": str(r)})


def refusals(ck, rng):
    """Inputs that leave the shape undetermined are refused."""
    d3 = np.zeros((3, 4, 5))
    for clause, fn in [("refuse.no-u", lambda: models.get_vol_geom_from_data(d3, data_format="dvw")),
                       ("refuse.padding", lambda: models.get_vol_geom_from_data(d3, padding_u=[1, 2, 3])),
                       ("refuse.padding", lambda: models.get_vol_geom_from_data(d3, padding_u=np.array([1]))),
                       ("refuse.volume", lambda: models.get_vol_geom_from_volume(np.zeros(4))),
                       ("refuse.parallel-3d-no-v", lambda: models.get_prj_geom_parallel(geom_type="3d", data_shape=(4, 5), data_format="wu")),
                       ("refuse.parallel-no-u", lambda: models.get_prj_geom_parallel(geom_type="2d", data_shape=(4, 5), data_format="wv")),
                       ("refuse.cone-no-v", lambda: models.get_prj_geom_cone(src_to_sam_dist=3.0, data_shape=(4, 5), data_format="wu"))]:
        ck.case("refusals", clause)
        refused(ck, clause, fn, {})


def shifts(ck, rng):
    """Vertical and horizontal shifts are combined row by row, whatever their number and layout."""
    for ii in range(60):
        n = int(rng.integers(1, 6))
        v, u = rng.normal(size=(2, n)).round(3)
        form = [lambda a: a, lambda a: a[:, None], lambda a: a[None, :], lambda a: a.astype(np.float32)]
        fv, fu = form[rng.integers(4)], form[rng.integers(4)]
        a, b = fv(v), fu(u)
        tag = {"v": a, "u": b}
        ck.case("shifts", tag)
        ok, r = ck.guard("combine", lambda: models.combine_shifts_vu(a, b), tag)
        if ok:
            ck.expect(r.shape == (2, n) and np.allclose(r, [v, u], atol=1e-6), "combine", lambda: {**tag, "got": r})
        if ok and ii % 3 == 0:
            g = models.get_prj_geom_parallel(geom_type="3d", rot_axis_shift_pix=r)
            want = np.stack([u, np.zeros(n), v], axis=-1)
            ck.expect(np.allclose(g.det_pos_xyz, want, atol=1e-6), "combine.geometry", lambda: {**tag, "got": g.det_pos_xyz, "spec": want})
        refused(ck, "refuse.combine", lambda: models.combine_shifts_vu(a, np.zeros(n + 1)), tag)
        if n > 1:
            refused(ck, "refuse.combine", lambda: models.combine_shifts_vu(np.zeros((n, 2)), np.zeros((n, 2))), tag)
