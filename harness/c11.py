"""C11: projection geometries (spec/Geometry.tla)."""

import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
import vf
from corrct import models

INV = ["Orthonormal", "RotationIsRigid", "EmitAll"]


def num(v):
    v = float(v)
    return "0" if v == 0 else np.format_float_positional(v, unique=True, trim="-")


def nums(a):
    return [num(v) for v in np.ravel(a)]


def rows(a):
    return [nums(r) for r in a]


AXES = [(0, 1, 0), (1, 0, 0), (0, 0, 1), (0.6, 0.8, 0), (0, -1, 0), (1, 2, 2), (0.5, 0.5, 0.5)]


def gen_op(rng, kind, N, ndim):
    o = {"op": kind, "u": [], "v": [], "cor": 0, "dist": ["0"], "ang": [], "axes": [], "withsrc": False, "patch": False, "idx": [], "vu": []}
    k = N if rng.random() < 0.6 else 1
    if kind == "shift":
        u = rng.normal(size=k).round(3)
        v = rng.normal(size=k).round(3) if rng.random() < 0.5 else None
        cor = None if rng.random() < 0.4 else round(float(rng.normal()), 3)
        dist = None if rng.random() < 0.4 else rng.normal(size=k if k > 1 and rng.random() < 0.5 else (N if rng.random() < 0.3 else 1)).round(3)
        only_cor = k == 1 and v is None and rng.random() < 0.5
        if only_cor:
            u = np.zeros(1)
        pos = None if only_cor else (u if v is None and rng.random() < 0.5 else np.stack([u] if v is None else [v, u]))
        if pos is not None and pos.size == 1 and rng.random() < 0.5:
            pos = float(pos.ravel()[0])
        darg = None if dist is None else (float(dist[0]) if dist.size == 1 and rng.random() < 0.5 else dist)
        o.update(u=nums(u), v=[] if v is None else nums(v), cor=num(cor or 0), dist=["0"] if dist is None else nums(dist))
        kw = {}
        if pos is not None:
            kw["det_pos_vu"] = pos
        if cor is not None:
            kw["cor_pos_u"] = cor
        if darg is not None:
            kw["det_dist_y"] = darg
        return o, ("mut", lambda g: g.set_detector_shifts_vu(**kw))
    if kind == "source":
        u = rng.normal(size=k).round(3)
        v = rng.normal(size=k).round(3) if rng.random() < 0.5 else None
        o.update(u=nums(u), v=[] if v is None else nums(v))
        pos = u if v is None and rng.random() < 0.5 else np.stack([u] if v is None else [v, u])
        return o, ("mut", lambda g: g.set_source_shifts_vu(pos))
    if kind == "tilt":
        n = int(rng.integers(1, 4))
        axes = [AXES[rng.integers(len(AXES))] for _ in range(n)]
        ang = rng.uniform(-3, 3, size=n if rng.random() < 0.7 else 1).round(3)
        ws = bool(rng.random() < 0.4)
        o.update(ang=nums(ang), axes=[nums(a) for a in axes], withsrc=ws)
        kw = {"tilt_source": ws} if ws or rng.random() < 0.5 else {}
        if n == 1 and (axes[0] == (0, 1, 0)) and rng.random() < 0.7:
            pass
        elif n == 1 and rng.random() < 0.7:
            kw["tilt_axis"] = axes[0]
        else:
            kw["tilt_axis"] = axes if rng.random() < 0.5 else np.array(axes)
        a = float(ang[0]) if ang.size == 1 and rng.random() < 0.5 else ang if rng.random() < 0.5 else list(ang)
        return o, ("mut", lambda g: g.set_detector_tilt(a, **kw))
    if kind == "rotate":
        ang = rng.uniform(-4, 4, size=k).round(3)
        patch = bool(rng.random() < 0.4)
        o.update(ang=nums(ang), patch=patch)
        a = float(ang[0]) if k == 1 and rng.random() < 0.5 else ang if rng.random() < 0.5 else list(ang)
        return o, ("new", lambda g: g.rotate(a, patch_astra_2d=True) if patch else g.rotate(a))
    if kind == "slice":
        if N == 1 or rng.random() < 0.25:
            i = int(rng.integers(N))
            o["idx"] = [i + 1]
            arg = [i, i - N, slice(i, i + 1), [i]][rng.integers(4)]
        else:
            form = rng.integers(4)
            if form == 0:
                idx = [int(v) for v in rng.integers(0, N, size=N)]
                arg = idx if rng.random() < 0.5 else np.array(idx)
            elif form == 1:
                arg = slice(None, None, -1)
                idx = list(range(N))[::-1]
            elif form == 2:
                arg = slice(0, N, 2)
                idx = list(range(N))[arg]
            else:
                idx = [i for i in range(N) if i != 1]
                arg = np.arange(N) != 1
            o["idx"] = [i + 1 for i in idx]
        o["rows"] = N
        return o, ("slice", lambda g: g[arg])
    if kind == "copy":
        return o, ("new", lambda g: g.copy())
    if kind == "get3d":
        return o, ("new", lambda g: g.get_3d())
    if kind == "shape":
        vu = [int(v) for v in rng.integers(1, 9, size=2 if ndim == 3 or rng.random() < 0.3 else 1)]
        o["vu"] = vu
        arg = vu[0] if len(vu) == 1 and rng.random() < 0.5 else vu
        return o, ("mut", lambda g: g.set_detector_shape_vu(arg))
    raise ValueError(kind)


def gen(rng):
    gt = ["parallel2d", "parallel3d", "cone"][rng.integers(3)]
    ndim = 2 if gt == "parallel2d" else 3
    N = int(rng.integers(2, 4))
    rd = ["clockwise", "counter-clockwise", "Clockwise", (0.0, 0.0, 1.0), (0.0, 1.0, 0.0), (0.0, 0.6, 0.8)][rng.integers(6)]
    rot = {"clockwise": (0, 0, -1), "counter-clockwise": (0, 0, 1)}.get(rd.lower() if isinstance(rd, str) else "", rd)
    dist = float(rng.integers(1, 40)) / 4
    kinds = ["rotate", "shift", "tilt", "slice", "source", "copy", "get3d", "shape"]
    p = np.array([3, 3, 2, 3, 2, 1, 1, 1.0])
    sel = list(rng.choice(len(kinds), size=5, replace=False, p=p / p.sum()))
    menu = [gen_op(rng, kinds[i], N, ndim) for i in sel]
    # all slices of an instance are of arrays with N rows, or one
    disp = rng.normal(size=3).round(3)
    ctor = {"op": "shift", "u": ["0"], "v": [], "cor": "0", "dist": ["0"]}
    kw = {"rot_axis_dir": rd}
    if rng.random() < 0.6:
        form = rng.integers(5)
        if form < 3:
            c = round(float(rng.normal()), 3)
            ctor["cor"] = num(c)
            kw["rot_axis_shift_pix"] = [c, [c], np.array(c)][form]
        else:
            vu = rng.normal(size=(2, N)).round(3)
            ctor["u"] = nums(vu[1])
            if form == 4:
                ctor["v"] = nums(vu[0])
            kw["rot_axis_shift_pix"] = vu if form == 4 else vu[1] if rng.random() < 0.5 else list(vu[1])
    shape0 = []
    ddkw = {}
    if rng.random() < 0.5:
        fmt = ["dvwu", "vwu", "vdwu", "wvu", "wu", "dwu", "vu", "u", "dwvu"][rng.integers(9)]
        if "v" in fmt or ndim == 2:
            dims = {c: int(v) for c, v in zip("dvwu", rng.integers(1, 9, size=4))}
            ddkw = {"data_shape": tuple(dims[c] for c in fmt)}
            if not "dvwu".endswith(fmt) or rng.random() < 0.3:
                ddkw["data_format"] = fmt
            shape0 = [dims["v"], dims["u"]] if ndim == 3 else [dims["u"]]
    J = {"gt": gt, "src": [["0", num(-dist if gt == "cone" else -1), "0"]], "rot": nums(rot), "menu": [o for o, _ in menu], "depth": 2, "maxheap": 4,
         "disp": nums(disp), "wshape": [int(v) for v in rng.integers(1, 4, size=2)], "line": bool(rng.random() < 0.25), "ctor": ctor, "shape0": shape0}

    if J["line"]:
        J["wshape"][0] = 1  # a detector of one line: asked for as [u]
    static = rng.random() < 0.4

    def mk():
        if gt == "cone":
            return models.get_prj_geom_cone(src_to_sam_dist=dist, **kw, **ddkw)
        if static:
            g = models.ProjectionGeometry.get_default_parallel(geom_type=gt[-2:].upper(), **kw)
            if shape0:
                g.set_detector_shape_vu(shape0)
            return g
        return models.get_prj_geom_parallel(geom_type=gt[-2:], **kw, **ddkw)

    return J, mk, [f for _, f in menu], {"disp": disp}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def compare(ck, g, s, m, J, tag):
    for f in ("src", "det", "u", "v"):
        name = {"src": "src_pos_xyz", "det": "det_pos_xyz", "u": "det_u_xyz", "v": "det_v_xyz"}[f]
        want = np.array([si.f(r) for r in s[f]])
        got = getattr(g, name)
        ck.expect(close(got, want), f"state.{f}", lambda: {**tag, "field": name, "got": got, "spec": want})
        for ratio in (1.0, 2.5):
            g.pix2vox_ratio = ratio
            ok, sc = ck.guard("scaled", lambda: g.get_field_scaled(name), tag)
            if ok:
                ck.expect(close(sc, want[:, : s["ndim"]] / ratio), "scaled", lambda: {**tag, "field": name, "got": sc, "spec": want})
        g.pix2vox_ratio = 1
    ck.expect(g.geom_type == s["gt"] and g.ndim == s["ndim"], "type", lambda: {**tag, "got": g.geom_type, "ndim": g.ndim, "spec": s["gt"]})
    ck.expect(([] if g.det_shape_vu is None else list(map(int, g.det_shape_vu))) == s["shape"], "detector-shape", lambda: {**tag, "got": g.det_shape_vu, "spec": s["shape"]})
    d = np.array(m["disp"])[: s["ndim"]][::-1]
    ok, p = ck.guard("displacement", lambda: g.project_displacement_to_detector(d), tag)
    if ok:
        want = np.array([si.f(r) for r in s["disp"]]).T
        want = want[0] if s["ndim"] == 2 else want
        ck.expect(close(p, want), "displacement", lambda: {**tag, "got": p, "spec": want})
    with contextlib.redirect_stdout(io.StringIO()):
        ok, w = ck.guard("pre-weights", lambda: g.get_pre_weights(J["wshape"][-1:] if J["line"] else J["wshape"]), tag)
    if ok:
        if s["gt"] != "cone":
            ck.expect(w is None, "pre-weights.parallel", tag)
        elif s["w"]:
            want = np.array([[si.f(r) for r in a] for a in s["w"]]).swapaxes(0, 1)  # v, angle, u
            want, w = want[0] if J["line"] else want, w if J["line"] or w.ndim == 3 else w[None]
            ck.expect(close(np.broadcast_to(w, want.shape) if w.shape[-2] == 1 else w, want, 1e-8), "pre-weights", lambda: {**tag, "got": w, "spec": want})


def replay(ck, J, mk, menu, m, e):
    tag = {"geometry": J["gt"], "rot": J["rot"], "operations": [[h, J["menu"][k - 1]] for h, k in e["hist"]]}
    ok, g = ck.guard("build", mk, tag)
    if not ok:
        return
    heap = [g]
    for h, k in e["hist"]:
        kind, fn = menu[k - 1]
        ok, r = ck.guard(J["menu"][k - 1]["op"], lambda: fn(heap[h - 1]), tag)
        if not ok:
            return
        if kind != "mut":
            ck.expect(r is not heap[h - 1], "new-geometry", tag)
            heap.append(r)
    for i, (g, s) in enumerate(zip(heap, e["heap"])):
        compare(ck, g, s, m, J, {"handle": i + 1, **tag})


def run(ck):
    rng = np.random.default_rng(11000 + ck.seed)
    num_ = 1200 if ck.thorough else 90
    jobs = vf.spread(lambda: gen(rng), lambda g: vf.features(g[0]), num_, 5)
    for j, job in enumerate(jobs):
        job[0]["depth"] = 3 if j % 6 == 0 else 2
    parts = [list(range(o, num_, 6)) for o in range(6)]

    def one(part):
        return part, ck.tlc("Geometry", files={"instances.json": [jobs[i][0] for i in part]}, invariants=INV, timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, parts))
    for part, r in results:
        for e in r.emitted:
            J, mk, menu, m = jobs[part[e["iid"] - 1]]
            ck.case(J["gt"], {"case": {k: v for k, v in J.items() if k != "menu"}, "behaviour": e})
            replay(ck, J, mk, menu, m, e)
