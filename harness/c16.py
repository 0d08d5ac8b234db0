"""C16: alignment of projections and volumes (spec/Align.tla)."""

import numpy as np

import solver_inst as si
import vf
from corrct import models
from corrct.alignment import DetectorShiftsPRE, DetectorShiftsXC, RecenterVolume, fitting, markers
from harness.c14 import fl, quiet, rnd

INV = ["Found", "Mirror", "SelfZero", "NoSinLeft", "InPlace", "TurnBack", "EmitAll"]
KINDS = {"xc1": 40, "xc2": 36, "zyx": 24, "sad": 20, "tilt": 12, "track": 12, "disk": 8, "fitvu": 20, "drift": 16, "u180": 16, "u360": 12, "prev": 24, "preu": 24, "center": 24, "turn": 5}
GAP = 1e-6


def imgs_dec(x):
    return [si.decs(i) for i in x]


def mat(rows):
    return np.array([fl(r) for r in rows])


def angles(rng, n, span=2 * np.pi):
    a = (np.arange(n) + rng.uniform(-0.3, 0.3, size=n)) * span / n + rng.uniform(-2, 2)
    return np.float32(a.round(4))


def shifted_pairs(rng, shape, n, new, shared):
    """Images, and the same moved by whole pixels: around the grid, or within an empty frame if it is extended."""
    base = rnd(rng, (1 if shared else n,) + shape, 0.1)
    moves = []
    if new != shape:
        inner = tuple(slice(m // 3, m - m // 3) for m in shape)
        keep = np.zeros(shape)
        keep[inner] = 1
        base = base * keep
        lim = [max(m // 3, 0) for m in shape]
    else:
        lim = [m for m in shape]
    out = []
    for k in range(n):
        s = [int(rng.integers(-m, m + 1)) for m in lim]
        moves.append(s)
        out.append(np.roll(base[0 if shared else k], s, axis=tuple(range(len(shape)))))
    return np.array(out), base, moves


def as_stack(x, axis):
    return np.moveaxis(x, 0, axis)


def gen_xc(rng, kind):
    nd = 1 if kind == "xc1" else 2
    n = int(rng.integers(1, 4))
    shape = (int(rng.integers(3, 9)),) if nd == 1 else tuple(int(v) for v in rng.integers(3, 6, size=2))
    norm = bool(rng.random() < 0.5)
    pad = bool(rng.random() < 0.35)
    if nd == 2 and norm and pad:
        shape = (3, int(rng.integers(3, 5)))
    new = shape[:-1] + (2 * shape[-1],) if pad else shape
    shared = bool(rng.random() < 0.4)
    margin = 0
    moved = rng.random() < 0.5
    if moved:
        d, p, moves = shifted_pairs(rng, shape, n, new, shared)
        if pad and nd == 2:
            # only the horizontal axis is extended
            d, p, moves = shifted_pairs(rng, shape, n, shape, shared)
            keep = np.zeros(shape)
            keep[:, shape[1] // 3 : shape[1] - shape[1] // 3] = 1
            p = p * keep
            moves = [[m[0], int(rng.integers(-(shape[1] // 3), shape[1] // 3 + 1))] for m in moves]
            d = np.array([np.roll(p[0 if shared else k], m, axis=(0, 1)) for k, m in enumerate(moves)])
    else:
        moves = []
        lo = rng.choice([-1.0, 0.1])
        d, p = rnd(rng, (n,) + shape, lo), rnd(rng, (1 if shared else n,) + shape, lo)
        if rng.random() < 0.3 and min(shape) >= 4:
            margin = 1
        if rng.random() < 0.2:
            d, p = np.round(20 * np.abs(d)).astype(np.int64), np.round(20 * np.abs(p)).astype(np.int64)
    dec = [2, 1, 4, 6, 0][rng.integers(5)]
    axis = int(rng.integers(0, nd + 1)) if rng.random() < 0.5 else nd - 1
    ax = axis - nd - 1 if rng.random() < 0.5 else axis
    kw = {"stack_axis": ax}
    if axis == nd - 1 and rng.random() < 0.7:
        kw = {}
    for key, val, default in (("pad_u", pad, False), ("normalize_fourier", norm, False), ("margin", margin, 0), ("decimals", dec, 2)):
        if val != default or rng.random() < 0.2:
            kw[key] = val
    if rng.random() < 0.5:
        kw["use_rfft"] = bool(rng.random() < 0.3)
    ds, ps = as_stack(d, axis), as_stack(p, axis)
    J = {"kind": "xc", "shape": list(shape), "new": list(new), "norm": norm and nd == 2, "margin": margin, "sub": dec > 0, "moved": moves, "d": imgs_dec(d), "p": imgs_dec(p)}

    def want(r):
        w = mat(r["s"])
        return w.ravel() if nd == 1 else w.T

    return J, "shifts", lambda: fitting.fit_shifts_vu_xc(ds, ps, **kw), want, 0.5 * 10.0**-dec if dec else 1e-9, [ds, ps]


def gen_zyx(rng):
    nd = int(rng.integers(1, 4))
    norm, pad = bool(rng.random() < 0.6), bool(rng.random() < 0.35)
    hi = {1: 9, 2: 6, 3: 4}[nd]
    if pad and nd > 1:
        hi -= 1
    if nd == 3 and pad:
        norm = False
    shape = tuple(int(v) for v in rng.integers(3, hi + 1, size=nd))
    if nd == 3 and pad:
        shape = (3, 3, 3)
    new = tuple(2 * s for s in shape) if pad else shape
    if rng.random() < 0.5:
        d, p, moves = shifted_pairs(rng, shape, 1, new, True)
    else:
        d, p, moves = rnd(rng, (1,) + shape, 0.1), rnd(rng, (1,) + shape, 0.1), []
    dec = [2, 1, 5, 0][rng.integers(4)]
    J = {"kind": "xc", "shape": list(shape), "new": list(new), "norm": norm, "margin": 0, "sub": dec > 0, "moved": moves, "d": imgs_dec(d), "p": imgs_dec(p)}
    kw = {}
    for key, val, default in (("pad_zyx", pad, False), ("normalize_fourier", norm, True), ("decimals", dec, 2)):
        if val != default or rng.random() < 0.2:
            kw[key] = val
    if rng.random() < 0.5:
        kw["use_rfft"] = bool(rng.random() < 0.3)
    a, b = d[0], p[0]
    return J, "volume-shifts", lambda: fitting.fit_shifts_zyx_xc(a, b, **kw), lambda r: mat(r["s"])[0], 0.5 * 10.0**-dec if dec else 1e-9, [a, b]


def gen_sad(rng):
    n, nu = int(rng.integers(1, 4)), int(rng.integers(5, 10))
    pad = bool(rng.random() < 0.5)
    r = int(rng.integers(1, nu if pad else (nu - 1) // 2 + 1))
    d, p = rnd(rng, (n, nu), 0.1), rnd(rng, (n, nu), 0.1)
    if rng.random() < 0.5:
        d = np.array([np.roll(v, int(rng.integers(-r + 1, r))) for v in p])
    l1 = bool(rng.random() < 0.6)
    dec = [2, 4, 0, 1][rng.integers(4)]
    J = {"d": imgs_dec(d), "p": imgs_dec(p), "pad": pad, "range": r, "l1": l1, "sub": dec > 0}
    kw = {"search_range": r, "decimals": dec}
    if pad or rng.random() < 0.3:
        kw["pad_u"] = pad
    if not l1:
        kw["error_norm"] = 2
    return J, "distance-shifts", lambda: fitting.fit_shifts_u_sad(d, p, **kw), lambda r: mat(r["s"]).ravel(), 0.5 * 10.0**-dec if dec else 1e-9, [d, p]


def gen_tilt(rng):
    n, nu = int(rng.integers(2, 7)), int(rng.integers(5, 10))
    slope = rng.uniform(-0.6, 0.6)
    off_line = rng.random() < 0.5  # one line is displaced by something else
    odd = np.zeros(n)
    if off_line:
        n, nu, slope = int(rng.integers(6, 10)), int(rng.integers(9, 13)), rng.uniform(-0.15, 0.15)
        odd = np.zeros(n)
        odd[rng.integers(n)] = rng.choice([-2.5, 2.5])
    x = np.arange(nu) - (nu - 1) / 2
    off = rng.uniform(-1, 1)
    rows = [np.exp(-(((x - off - slope * k - odd[k]) / 1.5) ** 2)) for k in range(n)]
    d, p = np.array(rows).round(3), np.array([np.exp(-(((x) / 1.5) ** 2))] * n).round(3)
    pad = bool(rng.random() < 0.4) or off_line
    J = {"shape": [nu], "new": [2 * nu if pad else nu], "norm": False, "margin": 0, "sub": True, "moved": [], "d": imgs_dec(d), "p": imgs_dec(p)}
    kw = {"pad_u": True} if pad else {}
    if rng.random() < 0.5:
        # the line of least absolute differences is at least as close to the displacements as that of least squares
        at = np.arange(n) - (n - 1) / 2

        def far(r, cor, tilt):
            return np.abs(fl(r["half"]) - cor + np.deg2rad(tilt) * at).sum()

        def judge(r, got):
            return len(got) == 2 and far(r, *got) <= far(r, float(r["cor"]), float(r["tilt"])) * (0.85 if off_line else 1) + 0.01 * n

        return J, "camera-tilt-l1", lambda: np.array(fitting.fit_camera_tilt_angle(d, p, **kw)), judge, None, [d, p]
    return J, "camera-tilt", lambda: np.array(fitting.fit_camera_tilt_angle(d, p, fit_l1=False, **kw)), lambda r: fl([r["cor"], r["tilt"]]), np.array([0.01, 0.6]), [d, p]


TURN_SHAPES = [(128, 128), (127, 127), (128, 102), (103, 128), (127, 112)]


def gen_turn(rng, which):
    """Images of scenes that are turned and scaled: an estimate, that is to be right for most of the images of a size."""
    shape = TURN_SHAPES[which % len(TURN_SHAPES)]
    m = min(shape)
    blobs = np.stack([*rng.uniform(-0.18 * m, 0.18 * m, size=(2, 12)), rng.uniform(1.3, 3.5, size=12), rng.uniform(0.4, 1, size=12)], axis=1).round(3)
    turns = np.stack([np.deg2rad(rng.choice([-1, 1], size=6) * rng.uniform(12, 60, size=6)), rng.uniform(0.88, 1.15, size=6)], axis=1).round(4)
    J = {"shape": list(shape), "blobs": imgs_dec(blobs), "turns": imgs_dec(turns)}
    grid = np.meshgrid(*[np.arange(n) - (n - 1) / 2 for n in shape], indexing="ij")

    def image(scene):
        return sum(a * np.exp(-((grid[0] - v) ** 2 + (grid[1] - u) ** 2) / w**2) for v, u, w, a in scene)

    def call():
        return image

    def judge(r, img):
        ref = image(blobs)
        good = 0
        for scene, deg, t in zip(r["scenes"], fl(r["degrees"]), turns):
            a, s = quiet(lambda scene=scene: fitting.fit_image_rotation_and_scale(ref, img(mat(scene))))
            good += abs((a - deg + 90) % 180 - 90) < 3 and abs(s / t[1] - 1) < 0.04
        a, s = quiet(lambda: fitting.fit_image_rotation_and_scale(ref, ref))
        return abs(a) < 0.1 and abs(s - 1) < 0.01 and good >= 2

    return J, "turned-images", call, judge, None, []


def gen_track(rng):
    n = int(rng.integers(1, 4))
    even = rng.random() < 0.6
    shape = tuple(2 * int(v) if even else 2 * int(v) + 1 for v in rng.integers(2, 4, size=2))
    marker = np.zeros(shape)
    c = [s // 2 for s in shape]
    marker[c[0], c[1]] = 1.0
    marker[c[0], c[1] - 1] = marker[c[0], c[1] + 1] = 0.5
    marker[c[0] - 1, c[1]] = marker[c[0] + 1, c[1]] = 0.25
    moves = [[int(rng.integers(-(s // 2) + 1, s // 2)) for s in shape] for _ in range(n)]
    imgs = np.array([np.roll(marker, m, axis=(0, 1)) for m in moves]) + rng.uniform(0, 0.05, size=(n,) + shape).round(3)
    J = {"kind": "xc", "shape": list(shape), "new": list(shape), "norm": False, "margin": 0, "sub": True, "moved": moves, "d": imgs_dec(imgs), "p": imgs_dec([marker])}
    axis = int(rng.integers(0, 3)) if rng.random() < 0.5 else 1
    stack = as_stack(imgs, axis)
    kw = {} if axis == 1 and rng.random() < 0.7 else {"stack_axis": axis - 3 if rng.random() < 0.5 else axis}

    def want(r):
        pos = mat(r["s"]).T
        return pos + np.array(shape)[:, None] / 2 if even else pos - pos[:, :1]

    def call():
        p = markers.track_marker(stack, marker, **kw)
        return p if even else p - p[:, :1]

    return J, "marker", call, want, 0.006 if even else 0.011, [stack, marker]


def gen_disk(rng):
    conv = bool(rng.random() < 0.5)
    shape = tuple(int(v) for v in rng.integers(9 if conv else 8, 12, size=2))  # away from the borders of the image
    radius = round(float(rng.uniform(0.6, 1.9 if conv else 2.6)), 2)
    ss = int(rng.integers(1, 6))
    J = {"shape": list(shape), "radius": si.dec(radius), "ss": ss, "conv": conv}
    kw = {} if conv and rng.random() < 0.5 else {"conv": conv}
    if ss != 5 or rng.random() < 0.5:
        kw["super_sampling"] = ss
    return J, "marker-disk", lambda: markers.create_marker_disk(shape, radius, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-6, []


def scan(rng, kind):
    """Projections of a scan: data, its detectors and images for the specification, its options."""
    lay = int(rng.integers(0, 4 if kind != "u360" else 3))  # 2D, 3D, 3D with several detectors, 2D with several detectors
    nu = int(rng.integers(4, 9 if lay in (0, 3) else 6))
    nv = 1 if lay in (0, 3) else int(rng.integers(3, 5))
    nd = 1 if lay < 2 else 2
    nw = int(rng.integers(4, 7))
    shape = (nu,) if lay in (0, 3) else (nv, nu)
    x = rnd(rng, (nd, nw) + shape, 0.1)
    if lay == 0:
        data = x[0]
    elif lay == 1:
        data = np.moveaxis(x[0], 0, 1)
    elif lay == 2:
        data = np.moveaxis(x, 1, 2)
    else:
        data = x
    kw = {"precision_decimals": 5, "verbose": False}
    if lay == 3:
        kw["data_format"] = "dwu"
    lim = [n / 2 for n in shape]
    form = rng.integers(3)
    if form == 1:
        kw["max_shifts"] = round(float(rng.uniform(0.7, 2.5)), 2)
        lim = [kw["max_shifts"]] * len(shape)
    elif form == 2:
        lim = [float(v) for v in rng.uniform(0.7, 2.5, size=len(shape)).round(2)]
        kw["max_shifts"] = np.array(lim)
    J = {"shape": list(shape), "dets": [imgs_dec(d) for d in x], "max": si.decs(lim)}
    return J, np.ascontiguousarray(data), x, shape, nw, kw


def least_absolute(what, ang, got, w):
    """The deviations differ from those of least squares by a sinusoid, and are not larger altogether."""
    rows = np.stack([np.sin(ang), np.cos(ang), np.ones(len(ang))], axis=1).astype(float)
    d = got - w
    left = d - rows @ np.linalg.lstsq(rows, d, rcond=None)[0]
    n1, n2 = np.abs(got).sum(), np.abs(w).sum()
    GAIN.setdefault(what, []).append(n1 < 0.99 * n2)
    return np.abs(left).max() <= 2e-4 and n1 <= n2 + 2e-5 * len(w)


GAIN = {}  # fits of least absolute deviations: better than those of least squares?


def gen_scan(rng, kind):
    J, data, x, shape, nw, kw = scan(rng, kind)
    if kind == "fitvu":
        ang = angles(rng, nw)[rng.permutation(nw)]
        J["ang"] = si.decs(ang)

        def want(r):
            return np.stack([fl(r["v"]), fl(r["u"])]) if len(shape) == 2 else fl(r["u"])[None]

        if rng.random() < 0.3:
            kw["max_shifts"] = 100.0
            J["max"] = si.decs([100.0] * len(shape))

            def judge(r, got):
                w = want(r)
                return got.shape == w.shape and np.abs(got - w)[:-1].max(initial=0) <= 2e-4 and least_absolute("vu", ang, got[-1], w[-1])

            return J, "shifts-vu-l1", lambda: DetectorShiftsXC(data, ang, **kw).fit_vu(fit_l1=True), judge, None, [data, ang]
        return J, "shifts-vu", lambda: DetectorShiftsXC(data, ang, **kw).fit_vu(), want, 2e-4, [data, ang]
    if kind == "drift":
        ang = angles(rng, nw)
        ref, kr = [], {}
        if rng.random() < 0.6:
            nr = nw if rng.random() < 0.6 else 1
            ref = rnd(rng, (x.shape[0], nr) + shape, 0.1)
            kr["ref_data_dvwu"] = ref[0] if data.ndim == 2 else ref if len(shape) == 1 else np.moveaxis(ref[0], 0, 1) if data.ndim == 3 else np.moveaxis(ref, 1, 2)
        J["ang"] = si.decs(ang)
        J["ref"] = [imgs_dec(d) for d in ref]
        J["diff"] = False
        if len(ref) and ref.shape[1] == nw and rng.random() < 0.6:
            # images one by one, or their horizontal derivatives
            J["diff"] = diff = bool(rng.random() < 0.7)
            other = kr["ref_data_dvwu"]
            kd = {"use_derivative": diff} if diff or rng.random() < 0.5 else {}
            return J, "pair-shifts", lambda: np.atleast_2d(DetectorShiftsXC(data, ang, **kw).find_shifts_vu(other, data, **kd)), lambda r: mat(r["s"]).T, 1e-5, [data, ang, other]
        return J, "drifts", lambda: DetectorShiftsXC(data, ang, **kw).fit_vu_accum_drifts(**kr), lambda r: mat(r["s"]).T, 1e-5, [data, ang] + list(kr.values())
    if kind == "u180":
        ang = angles(rng, nw, np.pi)
        perm = rng.permutation(nw)
        k = int(perm[0])
        if rng.random() < 0.8:
            ang[k] = np.float32(ang.min() + np.pi)
        ang = ang[perm]
        J["ang"] = si.decs(ang)
        return J, "center-180", lambda: np.ravel(DetectorShiftsXC(data, ang, **kw).fit_u_180()), lambda r: fl([r["c"]]), 1e-5, [data, ang]
    half = nw // 2
    nw = 2 * half
    data = np.take(data, range(nw), axis=-2)
    J["dets"] = [d[:nw] for d in J["dets"]]
    start = rng.choice([0.0, round(float(rng.uniform(-3, 3)), 3)])
    ang = np.float32(start + np.arange(nw) * np.pi / half)
    J["ang"] = si.decs(ang)
    return J, "center-360", lambda: np.array([DetectorShiftsXC(data, ang, **kw).fit_u_360()]), lambda r: fl([r["c"]]), 2e-5, [data, ang]


def gen_pre(rng, kind):
    lay = int(rng.integers(1, 3)) if kind == "prev" else int(rng.integers(0, 4))
    nw, nu = int(rng.integers(4, 7)), int(rng.integers(3, 8))
    nv = 1 if lay in (0, 3) else int(rng.integers(4, 9) if kind == "prev" else rng.integers(2, 4))
    nd = 2 if lay >= 2 else 1
    x = rnd(rng, (nd, nv, nw, nu), 0.1)
    ang = angles(rng, nw)
    bv, bu = 0, 0
    kw = {"precision_decimals": 5, "verbose": False}
    if rng.random() < 0.3:
        bv, bu = int(nv >= 6 and rng.random() < 0.5), int(nu >= 5)
        kw["borders_dvwu"] = {"d": None, "v": bv or None, "w": 0, "u": bu}
    if lay == 3:
        kw["data_format"] = "dwu"
    lim = [nv / 2, nu / 2] if lay in (1, 2) else [nu / 2]
    if rng.random() < 0.5:
        kw["max_shifts"] = round(float(rng.uniform(0.6, 2.5)), 2)
        lim = [kw["max_shifts"]] * len(lim)
    mask = np.ones(x.shape, bool)
    if kind == "prev" and rng.random() < 0.4:
        mask = rng.random(x.shape) < 0.7
        kw["data_mask_dvwu"] = mask[0] if lay == 1 else mask
    data = [x[0, 0], x[0], x, x[:, 0]][lay]
    sv, su = slice(bv, nv - bv), slice(bu, nu - bu)
    cx, cm = x[:, sv, :, su], mask[:, sv, :, su]
    per = lambda a: [[si.decs(d[:, w].astype(float)) for w in range(nw)] for d in a]  # noqa: E731
    J = {"vu": [nv - 2 * bv, nu - 2 * bu], "imgs": per(cx)}
    if kind == "prev":
        diff = bool(rng.random() < 0.5)
        J.update({"masks": per(cm), "diff": diff, "max": si.decs(lim[:1])})
        kf = {} if diff and rng.random() < 0.5 else {"use_derivative": diff}
        for name in ("use_rfft", "normalize_fourier"):
            if rng.random() < 0.5:
                kf[name] = bool(rng.random() < 0.3)
        return J, "shifts-v", lambda: DetectorShiftsPRE(data, ang, **kw).fit_v(**kf), lambda r: fl(r["s"]), 2e-5, [data, ang, mask]
    n = nu - 2 * bu
    bg = np.zeros(n)
    kf = {}
    form = rng.integers(3)
    if form == 1:
        kf["background"] = 0.4
        bg[:] = 0.4
    elif form == 2:
        kf["background"] = bg = rng.uniform(0, 0.8, size=n).round(2)
    com = bool(rng.random() < 0.6)
    if not com or rng.random() < 0.3:
        kf["method"] = ["max", "com"][com]
    J.update({"ang": si.decs(ang), "bg": si.decs(bg), "com": com, "max": si.decs(lim[-1:])})

    l1 = bool(rng.random() < 0.25)
    if l1:
        kf["fit_l1"] = True
        kw["max_shifts"] = 100.0
        J["max"] = si.decs([100.0])

    def call():
        s, c = DetectorShiftsPRE(data, ang, **kw).fit_u(**kf)
        return np.concatenate([s, [c]])

    def judge(r, got):
        w = fl(r["s"])
        rows = np.stack([np.sin(ang), np.cos(ang), np.ones(nw)], axis=1).astype(float)
        bias = float(r["cor"]) - np.linalg.lstsq(rows, got[:-1] - w, rcond=None)[0][2]
        return len(got) == nw + 1 and least_absolute("u", ang, got[:-1], w) and abs(bias - got[-1]) <= 2e-3

    if l1:
        return J, "shifts-u-l1", call, judge, None, [data, ang, bg]

    return J, "shifts-u", call, lambda r: np.concatenate([fl(r["s"]), fl([r["cor"]])]), 2e-5, [data, ang, bg]


def gen_center(rng):
    nd = int(rng.integers(2, 4))
    by = ["place", "com", "xc"][rng.integers(3)]
    shape = tuple(int(v) for v in rng.integers(3, 6 if nd == 2 else 4, size=nd))
    vol = rnd(rng, shape, 0.1)
    ref = rnd(rng, shape, 0.1)
    if by == "xc" and rng.random() < 0.6:
        ref = np.roll(vol, [int(v) for v in rng.integers(-2, 3, size=nd)], axis=tuple(range(nd)))
    place = rng.uniform(-2, 2, size=nd).round(2)
    nw = int(rng.integers(1, 5))
    ang = rng.uniform(-4, 4, size=nw).round(3)
    su, sv = rng.uniform(-3, 3, size=nw).round(2), rng.uniform(-3, 3, size=nw).round(2)
    cw = bool(rng.random() < 0.6)
    geom = models.get_prj_geom_parallel(geom_type=f"{nd}d", **({} if cw else {"rot_axis_dir": "counter-clockwise"}))
    sg = -1 if cw else 1
    sh = su if nd == 2 else np.stack([sv, su])
    prec = [2, 6][rng.integers(2)]
    J = {"by": by, "shape": list(shape), "vol": si.decs(vol), "ref": si.decs(ref), "place": si.decs(place), "ang": si.decs(ang), "su": si.decs(su), "sv": si.decs(sv), "sg": sg}

    def call():
        rec = RecenterVolume(geom, ang, **({} if prec == 2 else {"precision": prec}))
        if by == "place":
            return rec.to_com(sh, vol, place if rng.random() < 0.5 else list(place))
        return rec.as_reference(sh, vol, ref, **({} if by == "com" else {"method": "xc"}))

    def want(r):
        return fl(r["u"]) if nd == 2 else np.stack([fl(r["v"]), fl(r["u"])])

    return J, "recenter", call, want, (2.5 if by == "xc" else 0.5) * 10.0**-prec, [vol, ref, sh, ang]


def gen(rng, kind, k=0):
    if kind == "turn":
        return gen_turn(rng, k)
    if kind in ("xc1", "xc2"):
        return gen_xc(rng, kind)
    if kind in ("fitvu", "drift", "u180", "u360"):
        return gen_scan(rng, kind)
    if kind in ("prev", "preu"):
        return gen_pre(rng, kind)
    return {"zyx": gen_zyx, "sad": gen_sad, "tilt": gen_tilt, "track": gen_track, "disk": gen_disk, "center": gen_center}[kind](rng)


def run(ck):
    rng = np.random.default_rng(16000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        count = iter(range(10**9))
        for J, *rest in vf.spread(lambda: gen(rng, kind, next(count)), lambda g: vf.features(g[0]), num * (6 if ck.thorough else 1), 1 if kind == "turn" else 4):
            jobs.append(({"kind": kind, **J}, kind, *rest))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Align", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6)
    skipped = 0
    for e in r.emitted:
        J, kind, what, fn, want, tol, inputs = jobs[order[e["iid"] - 1]]
        gaps = e["r"].get("gap", [1])
        if min(fl(gaps), default=1) < GAP:
            skipped += 1  # the maximum is not unique, or a shift is at the limit
            continue
        ck.case(kind, {"case": J, "result": e["r"]})
        keep = [a.copy() for a in inputs]
        ok, got = ck.guard(what, lambda: quiet(fn), J)
        if not ok:
            continue
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
        if tol is None:
            ok, good = ck.guard(what, lambda: want(e["r"], got), J)
            if ok:
                ck.expect(bool(good), what, lambda: {**J, "got": str(got), "spec": e["r"]})
            continue
        w = want(e["r"])
        g = np.asarray(got, float)
        good = g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * (1 + 1e-6) + 1e-7))
        ck.expect(good, what, lambda: {**J, "got": got, "spec": w, "tol": tol})
    ck.case("skipped: ties", None, n=0)
    for what, better in GAIN.items():
        ck.expect(sum(better) >= 0.5 * len(better), "least-absolute." + what, {"fits": len(better), "better": sum(better)})
    if skipped > len(jobs) // 2:
        ck.violation("generator", {"skipped": skipped})
    refusals(ck)


def refusals(ck):
    x = np.ones((5, 6))
    for what, fn in (("angles", lambda: DetectorShiftsXC(x, np.zeros(4))), ("2d-vertical", lambda: DetectorShiftsPRE(x, np.zeros(5), verbose=False).fit_v()),
                     ("method", lambda: DetectorShiftsPRE(x, np.arange(5), verbose=False).fit_u(method="other")),
                     ("recenter-method", lambda: RecenterVolume(models.get_prj_geom_parallel(geom_type="2d"), [0.0]).as_reference(np.zeros(1), x, x, method="other")),
                     ("references", lambda: DetectorShiftsXC(x, np.arange(5)).fit_vu_accum_drifts(np.ones((3, 6))))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
