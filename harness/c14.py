"""C14: measures on images (spec/Measure.tla)."""

import contextlib
import io
import warnings

import numpy as np
import scipy.ndimage

import solver_inst as si
import vf
from corrct import processing, struct_illum
from corrct.processing import misc, post, pre
from corrct.projectors import ProjectorMatrix

INV = ["AziMass", "CorrBounded", "CorrPeak", "CrossInside", "HalfInside", "ComInside", "MaskRange", "BinMean", "FrcUnit", "FrcSelf", "AllPixels", "Decomposition", "Fitted", "EmitAll"]
KINDS = ["azi", "xcorr", "cross", "hwhm", "com", "mask", "ball", "bin", "frc", "ps", "bv", "sb"]


def fl(a):
    return np.array([float(v) for v in np.ravel(a)])


def pick_axes(rng, nd, k=None):
    k = k or int(rng.integers(1, nd + 1))
    return sorted(int(a) for a in rng.permutation(nd)[:k])


def as_arg(rng, axes, nd):
    """The axes, written from the start or from the end, as tuple or list."""
    neg = rng.random() < 0.5
    a = [x - nd if neg else x for x in axes]
    return [tuple, list][rng.integers(2)](a)


UNIT = [1.0]


def units(rng):
    """Images in other units, now and then."""
    UNIT[0] = [1.0, 1.0, 1.0, 2.0**-20, 2.0**12][rng.integers(5)]


def slack(w, inputs):
    """Differences that rounding explains, per unit of tolerance: as large as the values, or as the (small) data squared."""
    top = max((np.abs(np.asarray(a, float)).max(initial=0) for a in inputs), default=0)
    return np.abs(w).max(initial=0) + min(1, top**2 or 1)


def rnd(rng, shape, lo=-1.0, hi=3.0):
    return vf.laid(rng.uniform(lo, hi, size=shape).round(2) * UNIT[0])


def gen(rng, kind):
    """Instance of the specification, and the calls on the real code that must agree with it."""
    units(rng)
    nd = int(rng.integers(1, 4))
    shape = tuple(int(n) for n in rng.integers(2, 6 if nd < 3 else 4, size=nd))
    if kind == "azi":
        axes = pick_axes(rng, nd)
        x = rnd(rng, shape)
        dom = ["direct", "fourier"][rng.integers(2)]
        aa = as_arg(rng, axes, nd)
        J = {"shape": list(shape), "axes": [a + 1 for a in axes], "x": si.decs(x), "dom": dom}
        kw = {} if dom == "direct" and rng.random() < 0.5 else {"domain": dom if rng.random() < 0.7 else dom.upper()}
        rest = tuple(n for k, n in enumerate(shape) if k not in axes)
        if nd > 1 and axes == [nd - 2, nd - 1] and rng.random() < 0.5:
            call = lambda: misc.azimuthal_integration(x, **kw)  # noqa: E731
        else:
            call = lambda: misc.azimuthal_integration(x, axes=aa, **kw)  # noqa: E731
        return J, [("azimuthal", call, lambda r: fl(r["p"]).reshape(*rest, -1), 1e-9)], [x]
    if kind == "xcorr":
        nd = int(rng.integers(1, 3))
        shape = shape[:nd] if len(shape) >= nd else tuple(int(n) for n in rng.integers(2, 6, size=nd))
        x, y = rnd(rng, shape, 0.1), rnd(rng, shape, 0.1)
        auto = rng.random() < 0.4
        full, tm = bool(rng.random() < 0.6), bool(rng.random() < 0.3)
        J = {"shape": list(shape), "x": si.decs(x), "y": si.decs(x if auto else y), "full": full, "tm": tm}
        kw = {"plot": False}
        if nd == 1:
            kw["axes"] = (-1,)
        if not full:
            kw["mode_full"] = False
        if tm:
            kw["t_match"] = True
        args = (x,) if auto else (x, y)
        return J, [("correlation", lambda: misc.norm_cross_corr(*args, **kw)[0], lambda r: fl(r["c"]).reshape(r["shape"]), 2e-4),
                   ("correlation.profile", lambda: misc.norm_cross_corr(*args, **kw)[1], lambda r: fl(r["p"]), 2e-4),
                   ("correlation", lambda: misc.norm_cross_corr(*args, compute_profile=False, **kw), lambda r: fl(r["c"]).reshape(r["shape"]), 2e-4)], [x, y]
    if kind == "cross":
        n = int(rng.integers(2, 12))
        x = rnd(rng, n)
        scal = rng.random() < 0.4
        y = np.full(n, round(float(rng.uniform(-0.5, 2.5)), 2)) if scal else rnd(rng, n)
        if rng.random() < 0.2:
            x = np.sort(x)[::-1].copy()
        first = bool(rng.random() < 0.5)
        lims, form = (0, n), rng.integers(4)
        kw = {"position": "first" if first else "last"} if not first or rng.random() < 0.5 else {}
        if form == 1:
            lims = (int(rng.integers(0, n)), n)
            kw["x_lims"] = (lims[0], None)
        elif form == 2:
            lims = (0, int(rng.integers(1, n + 1)))
            kw["x_lims"] = (None, lims[1])
        elif form == 3:
            lims = tuple(sorted(int(v) for v in rng.integers(0, n + 1, size=2)))
            kw["x_lims"] = lims
        J = {"x": si.decs(x), "y": si.decs(y), "first": first, "lims": list(lims)}
        line2 = (float(y[0]) if rng.random() < 0.5 else np.array(y[0])) if scal else y if rng.random() < 0.7 else y[None, :]
        line1 = x if rng.random() < 0.7 else x[:, None]
        calls = [("crossing", lambda: misc.lines_intersection(line1, line2, **kw), lambda r: None if not r["at"] else fl(r["at"]), 1e-7)]
        if not scal and lims == (1, n) and first:
            calls.append(("resolution", lambda: post.estimate_resolution(x, y), lambda r: None if not r["at"] else fl(r["at"]), 1e-7))
            calls.append(("resolution", lambda: post.estimate_resolution(np.stack([x + 1, x - 1]), np.stack([y, y])), lambda r: None if not r["at"] else fl(r["at"]), 1e-7))
        return J, calls, [x, y]
    if kind == "hwhm":
        lead = [(1,), (2,), (3,), (1, 2), ()][rng.integers(5)]
        shape = tuple(int(n) for n in rng.integers(2, 5, size=2))
        x = rnd(rng, (*lead, *shape)) if rng.random() < 0.5 else (rng.random((*lead, *shape)) < 0.5).astype(float)
        x[..., 0, 0] += 1.1 + rng.random()
        x = x.round(2)
        J = {"shape": list(shape), "xs": [si.decs(m) for m in x.reshape(-1, *shape)], "full": True, "tm": False}
        return J, [("mask-resolution", lambda: struct_illum.estimate_resolution(x, verbose=False, plot_result=False),
                    lambda r: None if fl(r["gap"]).min() < 1e-3 else np.array([float(r["mean"]), float(r["min"])]), 1e-3)], [x]
    if kind == "com":
        x = rnd(rng, shape)
        axes = pick_axes(rng, nd)
        if rng.random() < 0.3:
            axes = axes[::-1]
        aa = as_arg(rng, axes, nd)
        J = {"shape": list(shape), "axes": [a + 1 for a in axes], "x": si.decs(x)}
        if axes == list(range(nd)) and rng.random() < 0.5:
            call = lambda: post.com(x)  # noqa: E731
        elif len(axes) == 1 and rng.random() < 0.5:
            call = lambda: post.com(x, axes=aa[0])  # noqa: E731
        else:
            call = lambda: post.com(x, axes=np.array(aa) if rng.random() < 0.3 else aa)  # noqa: E731
        return J, [("center-of-mass", call, lambda r: fl(r["c"]), 1e-9)], [x]
    if kind == "mask":
        return gen_mask(rng, shape, nd)
    if kind == "ball":
        nd = int(rng.integers(1, 3))
        shape = tuple(int(n) for n in rng.integers(2, 7, size=nd))
        ss = [1, 3, 5][rng.integers(3)] if nd == 1 or rng.random() < 0.5 else [1, 3][rng.integers(2)]
        radius = int(rng.integers(1, 4)) if rng.random() < 0.4 else round(float(rng.uniform(0.2, 3.5)), 3)
        func = bool(rng.random() < 0.3)
        J = {"shape": list(shape), "ss": ss, "radius": si.dec(radius), "func": func}
        kw = {"func": lambda r: r**2} if func else {}
        if ss != 5 or rng.random() < 0.5:
            kw["super_sampling"] = ss
        return J, [("ball", lambda: misc.ball(shape if rng.random() < 0.5 else np.array(shape), radius, **kw), lambda r: fl(r["m"]).reshape(shape), 1e-5)], []
    if kind == "bin":
        b = int(rng.integers(1, 4))
        nd = max(nd, 2)
        crop = bool(rng.random() < 0.5)
        axes = [nd - 2, nd - 1] if rng.random() < 0.5 else pick_axes(rng, nd)
        shape = tuple(int(rng.integers(1, 3)) * b + (int(rng.integers(0, b)) if crop else 0) if k in axes else int(rng.integers(1, 4)) for k in range(nd))
        x = rnd(rng, shape)
        ints = rng.random() < 0.3
        if ints:
            x = np.round(x * 100).astype([np.int32, np.uint16][rng.integers(2)] if x.min() >= 0 else np.int32)
        J = {"shape": list(shape), "axes": [a + 1 for a in axes], "x": si.decs(x), "b": b, "crop": crop}
        kw = {} if axes == [nd - 2, nd - 1] and rng.random() < 0.6 else {"axes": as_arg(rng, axes, nd)}
        if crop:
            kw["auto_crop"] = True
        return J, [("binning", lambda: pre.bin_imgs(x, b, verbose=False, **kw), lambda r: fl(r["x"]).reshape(r["shape"]), 1e-9)], [x]
    if kind in ("frc", "ps"):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(n) for n in (rng.integers(4, 15 - 3 * nd, size=nd) if nd < 3 else rng.integers(2, 5, size=nd)))
        k = int(rng.integers(1, nd + 1))
        axes = sorted(int(a) for a in rng.permutation(nd)[:k])
        if min(shape[a] for a in axes) < 4 and k < 3:
            shape = tuple(max(n, 4) if a in axes else min(n, 2) for a, n in enumerate(shape))
        tapers = rng.random() < 0.5
        ratio = [0.05, 0.1, 0.2][rng.integers(3)]
        smooth = [5, 3, 7, 1, None, 0][rng.integers(6)]
        x, y = rnd(rng, shape), rnd(rng, shape)
        if rng.random() < 0.5:
            y = x + 0.3 * y
        msize = float(np.mean([shape[a] for a in axes]))
        J = {"shape": list(shape), "axes": [a + 1 for a in axes], "x": si.decs(x), "y": si.decs(y.round(12)), "smooth": int(smooth or 0), "snrt": "0.2071", "ss": 1,
             "origin": [0] * nd, "norm": "2", "off": si.dec(-float(ratio * msize)), "taper": "edge" if tapers else "none", "target": 0, "power": 2}
        y = y.round(12)
        fine = kind == "frc" and np.prod(shape) * 2 ** k <= 32 and rng.random() < 0.4
        x0, y0 = x, y
        if fine:  # along the axes only
            x, y = (scipy.ndimage.zoom(v, [2 if a in axes else 1 for a in range(nd)], order=5).round(12) for v in (x, y))
            J.update({"shape": list(x.shape), "x": si.decs(x), "y": si.decs(y), "off": si.dec(-float(ratio * np.mean([x.shape[a] for a in axes])))})
        kw = {} if smooth == 5 and rng.random() < 0.5 else {"smooth": smooth}
        if not tapers:
            kw["taper_ratio"] = None
        elif ratio != 0.05:
            kw["taper_ratio"] = ratio
        if axes != list(range(nd)) or rng.random() < 0.4:
            kw["axes"] = as_arg(rng, axes, nd)
        if kind == "ps":
            if rng.random() < 0.4:
                J["power"] = kw["power"] = 1
            n_rest = int(np.prod([n for a, n in enumerate(shape) if a not in axes]))
            rest = tuple(n for a, n in enumerate(shape) if a not in axes)
            return J, [("power-spectrum", lambda: post.power_spectrum(x, **kw), lambda r: fl(r["f"]).reshape(*rest, -1) if n_rest else None, 2e-4)], [x]
        x, y = x0, y0
        if fine:
            kw["supersampling"] = 2
        if rng.random() < 0.2:
            y = y.astype(np.float32)
        calls = [("frc", lambda: post.compute_frc(x, y, **kw)[0], lambda r: None if float(r["weak"]) < 1e-8 else fl(r["f"]), 2e-4)]  # nothing in a ring: no ratio
        snrt = [0.2071, 0.4142, 0.5][rng.integers(3)]
        J["snrt"] = si.dec(snrt)
        kt = dict(kw) if snrt == 0.2071 else {**kw, "snrt": snrt}
        calls.append(("frc.threshold", lambda: post.compute_frc(x, y, **kt)[1], lambda r: fl(r["t"]), 1e-6))

        def pixels():
            t = post.compute_frc(x, y, **kt, theo_threshold=False)[1]
            t = t.reshape(-1, t.shape[-1])
            return t[0] if np.all(t == t[0]) else t

        calls.append(("frc.threshold-pixels", pixels, lambda r: fl(r["tp"]), 1e-6))
        return J, calls, [x, y]
    if kind == "bv":
        n = int(rng.integers(2, 13))
        x, recs = rnd(rng, shape), rnd(rng, (n, *shape))
        J = {"x": si.decs(x), "recs": [si.decs(r) for r in recs]}
        form = rng.integers(3)
        if form == 0:
            call = lambda: post.compute_reconstruction_bias_variance_maps(x, recs)  # noqa: E731
        elif form == 1:
            call = lambda: post.compute_reconstruction_bias_variance_maps(x, list(recs))  # noqa: E731
        else:
            ax = int(rng.integers(-len(shape) - 1, len(shape) + 1))
            call = lambda: post.compute_reconstruction_bias_variance_maps(x, np.moveaxis(recs, 0, ax), realizations_axis=ax)  # noqa: E731
        return J, [("bias-variance", lambda: np.stack(call()), lambda r: np.stack([fl(r[k]).reshape(shape) for k in ("mse", "bias", "var")]), 1e-9)], [x, recs]
    # scale and bias
    n, m = int(rng.integers(3, 7)), int(rng.integers(3, 9))
    ident = rng.random() < 0.3
    R = np.eye(n) if ident else rng.random((m, n)).round(2)
    x = rnd(rng, n)
    if rng.random() < 0.5:
        y = R @ (1.5 * x - 0.7) + (0 if rng.random() < 0.5 else rng.normal(size=len(R)).round(2))
        y = y.round(12)
    else:
        y = rnd(rng, len(R))
    J = {"x": si.decs(x), "y": si.decs(y), "R": [si.decs(r) for r in R]}
    # images and data of two dimensions, too
    sx = (2, n // 2) if n % 2 == 0 and rng.random() < 0.6 else (n,)
    sy = sx if ident else (2, len(R) // 2) if len(R) % 2 == 0 and rng.random() < 0.6 else (len(R),)
    x, y = x.reshape(sx), y.reshape(sy)
    call = (lambda: post.fit_scale_bias(x, y)) if ident else (lambda: post.fit_scale_bias(x, y, ProjectorMatrix(R, sx, sy)))
    return J, [("scale-bias", call, lambda r: fl(r["s"]), 2e-3)], [x, y]


def gen_mask(rng, shape, nd):
    ss = [1, 1, 2, 3, 4][rng.integers(5)] if nd < 3 else [1, 2][rng.integers(2)]
    k = int(rng.integers(1, nd + 1))
    axes = [nd - 2, nd - 1] if nd > 1 and rng.random() < 0.4 else pick_axes(rng, nd, k)
    if nd == 1:
        axes = [0]
    norm = ["2", "2", "1", "inf"][rng.integers(4)] if len(axes) > 1 else "2"
    q = 0.25 if ss != 3 else 0.2317
    off = float(rng.integers(-4, 5)) * q if rng.random() < 0.7 else 0.0
    if min(shape[a] for a in axes) / 2 + off <= 0:
        off = 0.0
    taper = ["none", "none", "edge", "diagonal", "size"][rng.integers(5)]
    target = round(float(rng.uniform(-1, 3)), 2)
    if taper == "edge":
        off = -abs(off)
    if taper == "diagonal":
        off = min(off, 0.2)
    if taper == "size" and target < off:
        target = off + 0.5
    origin = [float(v) for v in rng.integers(-4, 5, size=nd) * q] if rng.random() < 0.3 else [0.0] * nd
    J = {"shape": list(shape), "axes": [a + 1 for a in axes], "ss": ss, "off": si.dec(off), "norm": norm, "taper": taper, "target": si.dec(target), "origin": si.decs(origin)}
    kw = {}
    if off or rng.random() < 0.3:
        kw["radius_offset"] = off
    if ss > 1 or rng.random() < 0.3:
        kw["super_sampling"] = ss
    if any(origin) or rng.random() < 0.2:
        kw["vol_origin_zxy"] = origin if rng.random() < 0.5 else np.array(origin)
    if norm != "2":
        kw["ball_norm"] = {"1": 1, "inf": np.inf}[norm]
    if taper != "none":
        kw["taper_func"] = "cos"
        if taper == "diagonal":
            kw["taper_target"] = taper
        elif taper == "size":
            kw["taper_target"] = target
    if not (nd > 1 and axes == [nd - 2, nd - 1]) or rng.random() < 0.3:
        kw["coords_ball"] = as_arg(rng, axes, nd)
    if nd == 1:
        kw["coords_ball"] = [0]
    squeeze = len(axes) == 1 or rng.random() < 0.8
    if not squeeze:
        kw["squeeze"] = False
    f = processing.circular_mask if rng.random() < 0.3 else misc.circular_mask
    want_shape = tuple(n for n in shape if n > 1) if squeeze else shape

    def want(r):
        if abs(float(r["tie"])) < 1e-4 and ss == 3 and taper == "none":
            return None
        return fl(r["m"]).reshape(want_shape)

    return J, [("mask", lambda: f(shape if rng.random() < 0.5 else np.array(shape), **kw), want, 1e-4)], []


def run(ck):
    rng = np.random.default_rng(14000 + ck.seed)
    jobs = []
    for kind in KINDS:
        num = {"frc": 24, "ps": 16, "xcorr": 24, "mask": 60, "cross": 60, "hwhm": 20}.get(kind, 36) * (5 if ck.thorough else 1)
        for J, calls, inputs in vf.spread(lambda: gen(rng, kind), lambda g: vf.features(g[0]), num, 5):
            jobs.append(({"kind": kind, **J}, calls, inputs))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Measure", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6)
    for e in r.emitted:
        J, calls, inputs = jobs[order[e["iid"] - 1]]
        ck.case(J["kind"], {"case": J, "result": e["r"]})
        for what, fn, want in [(c[0], c[1], c[2]) for c in calls]:
            tol = [c[3] for c in calls if c[0] == what][0]
            keep = [a.copy() for a in inputs]
            ok, got = ck.guard(what, lambda: quiet(fn), J)
            if not ok:
                continue
            w = want(e["r"])
            if w is None:
                if what in ("crossing", "resolution"):
                    ck.expect(got is None, what, lambda: {**J, "got": got, "spec": None})
                continue
            ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
            good = got is not None
            if good:
                g = np.asarray(got, float)
                if what == "correlation.profile" and g.shape == w.shape:  # rings without pixels have no value
                    g = np.where(np.isnan(g) & (w == 0), 0, g)
                good = g.shape == w.shape and np.allclose(g, w, rtol=tol, atol=tol * slack(w, inputs))
            ck.expect(good, what, lambda: {**J, "got": got, "spec": w, "result": e["r"]})
    stacks(ck, rng)
    float_binning(ck, rng)
    refusals(ck)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn()


def stacks(ck, rng):
    """The correlation of a stack is that of its images, up to a common factor."""
    for _ in range(8):
        n = int(rng.integers(2, 4))
        x, y = rng.random((2, n, 4, 5)) + 0.1
        ck.case("stacks")
        for full in (True, False):
            ok, got = ck.guard("correlation.stack", lambda: quiet(lambda: misc.norm_cross_corr(x, y, plot=False, mode_full=full, compute_profile=False)))
            if not ok:
                continue
            one = np.stack([quiet(lambda k=k: misc.norm_cross_corr(x[k], y[k], plot=False, mode_full=full, compute_profile=False)) for k in range(n)])
            fac = np.array([np.linalg.norm(x[k]) * np.linalg.norm(y[k]) for k in range(n)])[:, None, None]
            a, b = got / got.max(), one * fac / (one * fac).max()
            ck.expect(a.shape == b.shape and np.allclose(a, b, atol=1e-4), "correlation.stack", lambda: {"got": a, "spec": b})


def float_binning(ck, rng):
    """Binning by a fractional factor keeps the order of the images, constants, and is linear."""
    for _ in range(6):
        b = [1.5, 2.0, 2.5][rng.integers(3)]
        lead = [(), (3,), (2, 2)][rng.integers(3)]
        n = [int(v) for v in rng.integers(6, 12, size=2)]
        ck.case("float-binning")
        vals = rng.integers(1, 200, size=lead) if lead else np.array(7)
        for dt in (np.float32, np.float64, np.uint16):
            x = (np.ones((*lead, *n)) * vals[..., None, None]).astype(dt)
            ok, y = ck.guard("float-binning", lambda: quiet(lambda: pre.bin_imgs(x, b, verbose=False)), {"shape": x.shape, "binning": b})
            if ok:
                want = tuple(int(np.round(v / b)) for v in n)
                ck.expect(y.shape == (*lead, *want) and np.allclose(y, vals[..., None, None], rtol=1e-4), "float-binning.constant",
                          lambda: {"shape": x.shape, "binning": b, "dtype": str(dt), "got": y, "values": vals})
        x1, x2 = rng.random((2, *lead, *n))
        ok, ys = ck.guard("float-binning", lambda: quiet(lambda: [pre.bin_imgs(v, b, verbose=False) for v in (x1, x2, 2 * x1 - x2)]))
        if ok:
            ck.expect(np.allclose(ys[2], 2 * ys[0] - ys[1], atol=1e-5), "float-binning.linear", {"shape": x1.shape, "binning": b})


def refusals(ck):
    im = np.ones((4, 4))
    for what, fn in (("mask-origin", lambda: misc.circular_mask((4, 4), vol_origin_zxy=[0.0])), ("mask-taper", lambda: misc.circular_mask((4, 4), taper_func="other")),
                     ("mask-target", lambda: misc.circular_mask((4, 4), taper_func="cos", taper_target="other")),
                     ("azimuthal-dims", lambda: misc.azimuthal_integration(np.ones(3))), ("azimuthal-axes", lambda: misc.azimuthal_integration(im, axes=())),
                     ("crossing-position", lambda: misc.lines_intersection(np.array([0.0, 2.0]), 1.0, position="other")),
                     ("crossing-limits", lambda: misc.lines_intersection(np.array([0.0, 2.0]), 1.0, x_lims=(None, None))),
                     ("frc-shapes", lambda: post.compute_frc(im, np.ones((4, 5)))), ("bias-variance-shapes", lambda: post.compute_reconstruction_bias_variance_maps(im, np.ones((12, 4, 5)))),
                     ("bias-variance-single", lambda: post.compute_reconstruction_bias_variance_maps(im, im))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
