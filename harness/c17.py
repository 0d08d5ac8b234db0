"""C17: fits of extrema, sinusoids and ellipses (spec/Fit.tla)."""

import numpy as np

import solver_inst as si
import vf
from corrct import param_tuning
from corrct.alignment import fitting
from harness.c14 import fl, quiet, rnd

INV = ["Refined", "NotAbove", "Truth", "Truth2", "SinTruth", "Covered", "Exact", "Ends", "Meet", "EmitAll"]
KINDS = {"parab": 120, "func": 60, "range": 30, "max1": 80, "max2": 60, "peak1": 40, "peakn": 30, "sin": 40, "ell": 60, "l1": 16}


def ticks(rng, n, lo, hi, digits=2):
    """Increasing values."""
    while True:
        x = np.sort(rng.uniform(lo, hi, size=n).round(digits))
        if np.diff(x).min() > 0.05 * (hi - lo) / n and x[-1] - x[0] > 0.4 * (hi - lo):
            return x


def close(got, want, tol):
    g, w = np.asarray(got, float), np.asarray(want, float)
    return g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol))


def half(dec):
    return 0.5 * 10.0**-dec * (1 + 1e-6)


def gen_parab(rng, func=False):
    n = int(rng.integers(3, 9))
    log = bool(rng.random() < 0.4)
    form = rng.integers(5)
    x = ticks(rng, n, -4, 4) if not log else np.float64(10 ** ticks(rng, n, -3, 2)).round(6)
    xf = np.log10(x) if log else x
    if form == 0:
        y = rnd(rng, (n,), 0)
    elif form == 1:
        c = rng.uniform(xf[0] - 1, xf[-1] + 1)
        y = (rng.uniform(0.2, 2) * (xf - c) ** 2 + rng.uniform(-1, 1)).round(6)
    elif form == 2:
        y = (rng.choice([-1, 1]) * xf + 0.2).round(6)
    elif form == 3:
        y = np.full(n, float(rng.integers(-1, 2)))
    else:
        y = (-((xf - xf.mean()) ** 2)).round(6)
    unit = [1.0, 1.0, 1e-6, 1e4][rng.integers(4)]  # other units
    if unit != 1:
        y = y * unit
    dec = [2, 2, 5, 5, 1][rng.integers(5)]
    if form == 4 and rng.random() < 0.5:
        y = np.round(100 * y).astype(int)
    J = {"x": si.decs(x), "y": si.decs(y), "log": log, "dec": dec}
    kw = {} if dec == 2 and rng.random() < 0.6 else {"decimals": dec}
    if func:  # no rounding, logarithmic by default
        dec, kw = 12, {}
        xa = list(x) if rng.random() < 0.3 else x
        if not log or rng.random() < 0.3:
            kw["scale"] = "log" if log else "linear"
        if rng.random() < 0.3:
            kw["f_stds"] = np.full(n, 0.1)
    elif log:
        kw["scale"] = ["log", "LOG"][rng.integers(2)]
    elif rng.random() < 0.3:
        kw["scale"] = "linear"
    if not func:
        xa, ya = (list(x), list(y)) if rng.random() < 0.3 else (x, y)

    def judge(r, got):
        px, py, *info = got
        info = info[0] if info else None
        if float(r["curv"]) == 0 or abs(float(r["curv"])) < 1e-30:  # flat or straight up to rounding: any of its smallest points
            return bool(x[0] <= px <= x[-1] and abs(py - y.min()) <= half(dec) + 1e-7)
        if r["fitted"]:
            wx = float(r["x"])
            cx = abs(np.log10(px) - wx) <= half(dec) + 1e-7 if log else abs(px - wx) <= half(dec) + 1e-7
            k = fl(r["k"])
            ok = func or info is not None and np.allclose(info[0], k, rtol=1e-6, atol=1e-6 * np.abs(k).max()) and np.allclose(info[1], fl(r["at"]), atol=1e-9)
            return bool(ok and cx and abs(py - float(r["y"])) <= half(dec) + 1e-7 * (1 + np.abs(k).max()))
        return (func or info is None) and px == float(r["x"]) and py == float(r["y"])

    def skip(r):
        flat = 1e-30 < abs(float(r["curv"])) < 1e-9 * (unit + np.abs(y).max()) or (form == 2 and log)
        return flat or float(r["gap"]) < max(2 * 10.0**-dec, 1e-6)

    if func:
        return J, "loss-minimum", lambda: param_tuning.fit_func_min(xa, y, **kw), judge, skip, [x, y]
    return J, "parabola-minimum", lambda: fitting.fit_parabola_min(xa, ya, **kw), judge, skip, [x, y]


def gen_range(rng):
    start = float(f"1e{rng.integers(-6, 3)}") if rng.random() < 0.5 else float(f"{rng.uniform(0.01, 9):.3g}")
    end = float(f"{start * 10 ** rng.integers(1, 4):.3g}") if rng.random() < 0.4 else float(f"{start * 10 ** rng.uniform(0.3, 3):.3g}")
    num, al = int(rng.integers(1, 7)), bool(rng.random() < 0.6)
    J = {"start": si.dec(start), "end": si.dec(end), "num": num, "aligned": al}
    kw = {} if num == 4 else {"num_per_order": num}
    if not al:
        kw["aligned_order"] = False

    def judge(r, got):
        w = fl(r["v"])
        return got.shape == w.shape and np.allclose(got, w, rtol=1e-9)

    return J, "range", lambda: param_tuning.get_lambda_range(start, end, **kw), judge, lambda r: float(r["gap"]) < 1e-6, []


def gen_max1(rng):
    n, cols = int(rng.integers(3, 8)), int(rng.integers(1, 4))
    flat = cols == 1 and rng.random() < 0.6
    own = rng.random() < 0.5
    x = ticks(rng, n, -3, 5) if own else np.linspace(-(n - 1) / 2, (n - 1) / 2, n)
    truth = []
    if rng.random() < 0.6:
        truth = rng.uniform(x[0] - (0.5 if rng.random() < 0.2 else -0.2), x[-1] - 0.2, size=cols).round(2)
        y = (rng.uniform(0.3, 2, size=cols).round(2) * rng.choice([-1, 1], size=cols) * (x[:, None] - truth) ** 2 + rng.uniform(-1, 1, size=cols).round(2)).round(8)
    else:
        y = rnd(rng, (n, cols)) - 2 * (x[:, None] - x.mean()).round(2) ** 2
        y = y.round(6)
    dec = [2, 2, 6, 6, 1][rng.integers(5)]
    vv = bool(rng.random() < 0.4)
    J = {"x": si.decs(x), "y": [si.decs(c) for c in y.T], "truth": si.decs(truth)}
    kw = {} if dec == 2 and rng.random() < 0.6 else {"decimals": dec}
    if own:
        kw["f_x"] = [x, list(x), x[:, None]][rng.integers(3)]
    if vv:
        kw["return_vertex_val"] = True
    a = y[:, 0] if flat else y

    def call():
        try:
            return fitting.refine_max_position_1d(a, **kw)
        except ValueError:
            return "refused"

    def judge(r, got):
        if not r["ok"]:
            return isinstance(got, str)
        if isinstance(got, str):
            return False
        p, v = got if vv else (got, None)
        w = fl(r["p"])
        ok = close(p, w[0] if flat else w, half(dec) + 1e-8)
        if vv:
            val = fl(r["val"])
            tol = half(dec) * (1 + np.abs(fl(r["slope"])) / 2) + 1e-7
            ok = ok and close(v, val[0] if flat else val, tol[0] if flat else tol)
        return ok

    return J, "extremum-1d", call, judge, lambda r: float(r["gap"]) < 2 * 10.0**-dec, [x, y]


def gen_max2(rng):
    ny, nx = int(rng.integers(3, 6)), int(rng.integers(3, 6))
    own = rng.integers(4)
    fy = ticks(rng, ny, -2, 6) if own in (1, 3) else np.linspace(-(ny - 1) / 2, (ny - 1) / 2, ny)
    fx = ticks(rng, nx, -5, 1) if own in (2, 3) else np.linspace(-(nx - 1) / 2, (nx - 1) / 2, nx)
    truth = []
    a, b, c = -rng.uniform(0.3, 2, size=2).round(2), rng.uniform(-0.2, 0.2), 0
    gy, gx = np.meshgrid(fy, fx, indexing="ij")
    if rng.random() < 0.6:
        out = 0.4 if rng.random() < 0.2 else -0.2
        truth = np.array([rng.uniform(fy[0] - out, fy[-1] + out), rng.uniform(fx[0] - out, fx[-1] + out)]).round(2)
        y = a[0] * (gy - truth[0]) ** 2 + a[1] * (gx - truth[1]) ** 2 + round(b, 2) * (gy - truth[0]) * (gx - truth[1]) + 0.5
    else:
        y = a[0] * (gy - fy.mean()) ** 2 + a[1] * (gx - fx.mean()) ** 2 + rnd(rng, (ny, nx), 0)
    y = y.round(8)
    J = {"fy": si.decs(fy), "fx": si.decs(fx), "y": si.decs(y), "truth": si.decs(truth)}
    kw = {}
    if own in (1, 3):
        kw["fy"] = fy
    if own in (2, 3):
        kw["fx"] = list(fx) if rng.random() < 0.5 else fx

    def call():
        try:
            return fitting.refine_max_position_2d(y, **kw)
        except ValueError:
            return "refused"

    def judge(r, got):
        return not isinstance(got, str) and close(got, fl(r["p"]), 1e-6) if r["ok"] else isinstance(got, str)

    return J, "extremum-2d", call, judge, lambda r: float(r["gap"]) < 1e-5, [fy, fx, y]


def gen_peak1(rng):
    axis = int(rng.integers(-2, 2))
    one = rng.random() < 0.3
    shape = (1, int(rng.integers(1, 9))) if one else tuple(int(v) for v in rng.integers(1, 8, size=2))
    if one:
        axis = -1
    cc = rng.integers(-3, 4, size=shape).astype(float) if rng.random() < 0.5 else rnd(rng, shape)
    lines = cc if axis % 2 == 1 else cc.T
    r = int(rng.integers(0, 4))
    coords = None if rng.random() < 0.4 else np.fft.fftfreq(shape[axis], 1 / shape[axis]) + 0.5
    kw = {} if r == 1 and rng.random() < 0.5 else {"peak_radius": r}
    if coords is not None:
        kw["cc_coords"] = list(coords) if rng.random() < 0.3 else coords
    if axis != -1 or rng.random() < 0.3:
        kw["axis"] = axis
    a = cc[0] if one else cc
    J = {"y": [si.decs(v) for v in lines], "r": r}

    def judge(res, got):
        f, c = got
        w = np.array([l["w"] for l in res["l"]]).T - 1
        ok = close(f, np.array([fl(l["f"]) for l in res["l"]]).T, 0)
        return ok and (c is None if coords is None else close(c, coords[w], 0))

    return J, "peak-lines", lambda: fitting.extract_peak_regions_1d(a, **kw), judge, None, [cc]


def gen_peakn(rng):
    nd = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, {1: 9, 2: 6, 3: 5}[nd], size=nd))
    cc = rng.integers(-3, 4, size=shape).astype(float) if rng.random() < 0.5 else rnd(rng, shape)
    r = int(rng.integers(0, 3))
    coords = None if rng.random() < 0.4 else [np.fft.fftfreq(s, 1 / s) + k for k, s in enumerate(shape)]
    kw = {} if r == 1 and rng.random() < 0.5 else {"peak_radius": r}
    if coords is not None:
        kw["cc_coords"] = coords
    J = {"shape": list(shape), "y": si.decs(cc), "r": r}

    def judge(res, got):
        f, c = got
        ok = close(f, fl(res["f"]).reshape((2 * r + 1,) * nd), 0)
        if coords is None:
            return ok and c is None
        return ok and len(c) == nd and all(close(a, b[np.array(w) - 1], 0) for a, b, w in zip(c, coords, res["w"]))

    return J, "peak-region", lambda: fitting.extract_peak_region_nd(cc, **kw), judge, None, [cc]


def gen_sin(rng):
    n = int(rng.integers(4, 9))
    ang = (np.arange(n) * 2 * np.pi / n * rng.uniform(0.6, 1) + rng.uniform(-0.2, 0.2, size=n) + rng.uniform(-2, 2)).round(3)
    a, p, b = rng.uniform(0.5, 6), rng.uniform(-3.1, 3.1), rng.uniform(-5, 5)
    noise = 0.0 if rng.random() < 0.4 else 0.3
    y = a * np.sin(ang + p) + b + noise * rng.uniform(-1, 1, size=n)
    if noise:
        y = y.round(3)
    J = {"x": si.decs(ang), "y": si.decs(y), "exact": False}

    def judge(r, got):
        ga, gp, gb = got
        s = 1 + np.abs(y).max()
        return close(fitting.sinusoid(ang, ga, gp, gb), fl(r["y"]), 1e-5 * s) and abs(abs(ga) - float(r["amp"])) < 1e-4 * s and abs(gb - float(r["bias"])) < 1e-4 * s

    return J, "sinusoid", lambda: fitting.fit_sinusoid(ang, y), judge, None, [ang, y]


def ell_points(rng, n):
    """Points on an ellipse, opposite points in the two halves."""
    ra, rb = rng.uniform(1, 8), rng.uniform(0.4, 3)
    th = rng.uniform(-0.6, 0.6)
    cu, cv = rng.uniform(-20, 20, size=2).round(1)
    w = np.arange(n) * 2 * np.pi / n + rng.uniform(-0.4, 0.4, size=n) / n + rng.uniform(0, 6)
    x, y = ra * np.cos(w), rb * np.sin(w)
    u, v = cu + x * np.cos(th) - y * np.sin(th), cv + x * np.sin(th) + y * np.cos(th)
    k = [np.cos(th) ** 2 / ra**2 + np.sin(th) ** 2 / rb**2, np.sin(th) ** 2 / ra**2 + np.cos(th) ** 2 / rb**2, np.cos(th) * np.sin(th) * (1 / ra**2 - 1 / rb**2), cu, cv]
    return np.stack([v, u]), k


def gen_ell(rng):
    n = 2 * int(rng.integers(3, 8)) + int(rng.random() < 0.3)
    form = rng.integers(3)
    pts, k = ell_points(rng, n)
    truth, meet = [], []
    if form == 0:
        truth = k
    elif form == 1:
        pts = (pts + rng.uniform(-0.05, 0.05, size=pts.shape)).round(2)
    else:  # chords through a point
        h = n // 2
        meet = (pts.mean(axis=1) + rng.uniform(-0.2, 0.2, size=2)).round(1)
        d = (pts[:, :h] - meet[:, None]).round(2)
        t = (-rng.uniform(0.8, 1.3, size=h)).round(1)
        pts = np.concatenate([meet[:, None] + d, meet[:, None] + t * d, pts[:, 2 * h :]], axis=1).round(6)
    at = np.concatenate([rng.uniform(-0.95, 0.95, size=3), [0]]).round(2)
    dec = [2, 5, None][rng.integers(3)]
    rs = bool(rng.random() < 0.5)
    J = {"pv": si.decs(pts[0]), "pu": si.decs(pts[1]), "truth": si.decs(truth), "meet": si.decs(meet), "at": si.decs(at)}
    kw = {} if rs and rng.random() < 0.5 else {"rescale": rs}
    kc = dict(kw) if dec == 2 and rng.random() < 0.5 else {**kw, "decimals": dec}
    # points without errors: the fit of least absolute differences is the same
    l1 = form != 1 and rng.random() < 0.4
    if l1 and form == 0:
        kw["use_l1_norm"] = True
    elif l1:
        kc["use_l1_norm"] = True
    arg = pts.tolist() if rng.random() < 0.3 else pts

    def call():
        el = fitting.fit_ellipse(arg, **kw)
        par = fitting.fit_ellipse_parameters(pts, **kw)
        cen = fitting.fit_ellipse_center(pts, **kc)
        return el, par, cen

    def judge(r, got):
        el, par, cen = got
        w = fl(r["el"])
        tol = 1e-6 * np.array([w[0], w[1], np.sqrt(w[0] * w[1]), 1 + abs(w[3]), 1 + abs(w[4])])
        c = fl(r["center"])
        ok = {"parameters": close(par, w, tol), "object": close(el.parameters, w[[1, 0, 2, 4, 3]], tol[[1, 0, 2, 4, 3]]) and (l1 and form == 0 or close(el.center_vu, c, half(2) + 1e-6)),
              "center": close(cen, c, (0 if dec is None else half(dec)) + 1e-6)}
        ok["extremes"] = close(el.extremes_u, fl(r["ext"]), 1e-5)
        v1, v2 = el(fl(r["at"]))
        ok["curve"] = close(np.stack([v1, v2], axis=-1), np.array([fl(q) for q in r["v"]]), 1e-4)
        bad = [name for name, good in ok.items() if not good]
        return True if not bad else "+".join(bad)

    def skip(r):
        w = fl(r["el"])
        return not (w[0] > 0 and w[1] > 0 and w[0] * w[1] > 1.02 * w[2] ** 2)

    return J, "ellipse", call, judge, skip, [pts]


def gen_l1(rng):
    """Recorded fits of least absolute distance, and of least squares."""
    form, part = rng.integers(2), 1 + 1e-6
    if form == 0:
        n = int(rng.integers(6, 12))
        part = 0.9 if n > 6 else part  # one value that is off: it is left aside, where least squares spreads it
        ang = (np.arange(n) * 2 * np.pi / n + rng.uniform(-0.2, 0.2, size=n)).round(3)
        y = (3 * np.sin(ang + rng.uniform(-3, 3)) + 1).round(3)
        y[rng.integers(n)] += 2.5
        f = [fitting.sinusoid(ang, *quiet(lambda s=s: fitting.fit_sinusoid(ang, y, fit_l1=s))) for s in (True, False)]
    else:
        pts, _ = ell_points(rng, 2 * int(rng.integers(4, 8)))
        pts[:, 1] += 0.3
        h = pts.shape[1] // 2
        d = pts[:, h:] - pts[:, :h]
        y = pts[0, :h] * pts[1, h:] - pts[1, :h] * pts[0, h:]
        f = [d[1] * c[0] - d[0] * c[1] for c in (fitting.fit_ellipse_center(pts, rescale=False, use_l1_norm=s, decimals=None) for s in (True, False))]
    J = {"y": si.decs(y), "l1": si.decs(f[0]), "l2": si.decs(f[1])}

    def judge(r, got):
        return float(r["l1"]) <= float(r["l2"]) * part + 1e-9

    return J, "least-absolute", lambda: None, judge, None, []


GEN = {"parab": gen_parab, "func": lambda rng: gen_parab(rng, True), "range": gen_range, "max1": gen_max1, "max2": gen_max2, "peak1": gen_peak1, "peakn": gen_peakn, "sin": gen_sin, "ell": gen_ell, "l1": gen_l1}


def run(ck):
    rng = np.random.default_rng(17000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        def draw():
            return ck.guard(kind, lambda: GEN[kind](rng), {"kind": kind}) if kind == "l1" else (True, GEN[kind](rng))

        for ok, job in vf.spread(draw, lambda g: vf.features(g[1][0]) if g[0] else {}, num * (30 if ck.thorough else 3), 1 if kind == "l1" else 5):
            if ok:
                jobs.append(({"kind": kind, **job[0]}, kind, *job[1:]))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Fit", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6)
    skipped = 0
    for e in r.emitted:
        J, kind, what, fn, judge, skip, inputs = jobs[order[e["iid"] - 1]]
        if skip is not None and skip(e["r"]):
            skipped += 1  # on the border between two answers, within the rounding
            continue
        ck.case(kind, {"case": J, "result": e["r"]})
        keep = [a.copy() for a in inputs]
        ok, got = ck.guard(what, lambda: quiet(fn), J)
        if not ok:
            continue
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
        res = judge(e["r"], got)
        ck.expect(res is True or res is np.True_, what if not isinstance(res, str) else f"{what}.{res}", lambda: {**J, "got": str(got), "spec": e["r"]})
    ck.case("skipped: borders", None, n=0)
    if skipped > len(jobs) // 3:
        ck.violation("generator", {"skipped": skipped})
    refusals(ck)


def refusals(ck):
    one = np.arange(5.0)
    for what, fn in (("parabola-short", lambda: fitting.fit_parabola_min([1, 2], [1, 2])), ("parabola-lengths", lambda: fitting.fit_parabola_min([1, 2, 3], [1, 2, 3, 4])),
                     ("parabola-scale", lambda: fitting.fit_parabola_min([1, 2, 3], [1, 0, 4], scale="other")), ("max1-dims", lambda: fitting.refine_max_position_1d(np.ones((3, 3, 3)))),
                     ("max1-coords", lambda: fitting.refine_max_position_1d(-((one - 2) ** 2), np.arange(4))), ("max2-dims", lambda: fitting.refine_max_position_2d(one)),
                     ("max2-y", lambda: fitting.refine_max_position_2d(np.ones((3, 4)), fy=np.arange(4))), ("max2-x", lambda: fitting.refine_max_position_2d(np.ones((3, 4)), fx=np.arange(3))),
                     ("peaks-dims", lambda: fitting.extract_peak_regions_1d(np.ones((3, 3, 3))))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
