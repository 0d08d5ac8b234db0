"""C25: sessions of calls on shared objects (spec/Session.tla)."""

import contextlib
import io
import logging
import warnings
from concurrent.futures import ThreadPoolExecutor

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np

import solver_inst as si
from corrct import denoisers, filters, models, operators, param_tuning, physics, projectors, regularizers, solvers, struct_illum
from corrct.alignment import fitting
from corrct.alignment.cone_beam import ConeBeamGeometry, FitConeBeamGeometry
from corrct.alignment.markers import MarkerTrackingVisualizer, create_marker_disk, track_marker
from corrct.alignment.shifts import DetectorShiftsPRE, DetectorShiftsXC
from corrct.physics import attenuation, materials, phase, xrf
from corrct.processing import misc, post, pre
from vf import MachineryError

logging.disable(logging.WARNING)
INV = ["SameAnswer", "Silence", "WorldKept", "EmitAll"]


class Env(dict):
    """What the calls of a session share: inputs (kept as they are) and objects."""

    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def leaves(v):
    """The numbers in an answer, in order."""
    if v is None:
        return [np.array("none")]
    if isinstance(v, (bool, int, float, complex, np.generic, np.ndarray)):
        return [v if isinstance(v, np.ndarray) else np.array(v)]
    if isinstance(v, str):
        return [np.array(v)]
    if isinstance(v, dict):
        return [x for k in v for x in leaves(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for k in v for x in leaves(k)]
    if isinstance(v, solvers.SolutionInfo):
        return leaves([v.method, v.iterations, v.max_iterations, v.tolerance, v.residual0, v.residual0_cv, v.residuals, v.residuals_cv])
    if isinstance(v, (ConeBeamGeometry, models.ProjectionGeometry, models.VolumeGeometry)):
        return leaves(vars(v))
    if isinstance(v, fitting.Ellipse):
        return leaves(v.parameters)
    if isinstance(v, param_tuning.PerfMeterBatch):
        return [np.array("timings")]
    if hasattr(v, "read_leaves"):
        return v.read_leaves()
    raise TypeError(f"answer of type {type(v)}")


def same(a, b, tol=1e-5):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return False
        if x.dtype.kind in "fc":
            with np.errstate(all="ignore"):
                top = np.abs(x[np.isfinite(x)]).max(initial=0)
                if not np.allclose(x, y, rtol=tol, atol=tol * top, equal_nan=True):
                    return False
        elif not np.array_equal(x, y):
            return False
    return True


def hushed(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def img(rng, *shape):
    return rng.uniform(0.1, 1, size=shape).astype(np.float32)


# ------------------------------------------------------------------------------- families
# A family makes an environment (inputs under "in_"), and has calls f(env, loud).  A call is silent unless it is told to report.
def f_minimum(rng):
    n = int(rng.integers(4, 8))
    hp = np.geomspace(0.01, 100, n)
    f = (np.log10(hp) - rng.uniform(-1, 1)) ** 2 + rng.uniform(0.1, 1)
    g = -f
    up = np.arange(n) + rng.uniform(0, 0.1, size=n)

    def make():
        return Env(in_hp=hp.copy(), in_f=f.copy(), in_g=g.copy(), in_up=up.copy(), in_std=f / 10)

    opts = lambda loud: dict(verbose=True, plot_result=True) if loud else {}  # noqa: E731
    return make, {
        "log": lambda e, loud: param_tuning.fit_func_min(e.in_hp, e.in_f, **opts(loud)),
        "linear": lambda e, loud: param_tuning.fit_func_min(e.in_hp, e.in_f, e.in_std, scale="linear", **opts(loud)),
        "concave": lambda e, loud: param_tuning.fit_func_min(e.in_hp, e.in_g, **opts(loud)),
        "border": lambda e, loud: param_tuning.fit_func_min(e.in_hp, e.in_up, e.in_std, **opts(loud)),
    }


def tomo(rng, nonneg=True):
    """A small system."""
    m, n = (4, 5), (3, 4)
    A = rng.uniform(0, 1, size=(20, 12)) * (rng.random((20, 12)) < 0.6) + 0.05
    x = rng.uniform(0.2, 1, size=n)
    b = (A @ x.ravel()).reshape(m) + rng.uniform(0, 0.05, size=m)
    return A, n, m, x, b


def f_tuning(rng, cross):
    A, n, m, x, b = tomo(rng)
    par = int(rng.integers(0, 3))
    folds = param_tuning.create_k_fold_test_masks(m, 3, seed=5)
    hps = np.array([1.0, 0.01, 0.1])

    def make():
        np.random.seed(3)
        e = Env(in_hp=hps.copy(), in_b=b.copy(), in_x=x.copy(), in_A=A.copy(), in_y=np.array([2.0, 1.0, 3.0]))
        op = projectors.ProjectorMatrix(e.in_A, n, m)
        if cross:
            e.t = param_tuning.CrossValidation(m, cv_fraction=[None, 0.2][cross - 1], num_averages=3, parallel_eval=par)
            if cross == 1:
                e.t.data_cv_masks = [v.copy() for v in folds]  # drawn anew for each object
        else:
            e.t = param_tuning.LCurve(lambda v: float(np.abs(v).sum()), parallel_eval=par)
        e.t.task_init_function = lambda hp: solvers.SIRT(regularizer=regularizers.Regularizer_l1(hp), data_term_test="l2")
        e.t.task_exec_function = lambda s, b_test_mask=None: s(op, e.in_b, 6, b_test_mask=b_test_mask)
        return e

    @contextlib.contextmanager
    def say(e, loud):
        e.t.verbose = e.t.plot_result = e.t.print_timings = loud
        yield
        e.t.verbose = e.t.plot_result = e.t.print_timings = False

    def call(f):
        def g(e, loud):
            with say(e, loud):
                return f(e)

        return g

    calls = {
        "loss": call(lambda e: e.t.compute_loss_values(e.in_hp)),
        "loss-all": call(lambda e: e.t.compute_loss_values(e.in_hp, return_all=True)),
        "error": call(lambda e: e.t.compute_reconstruction_error(e.in_hp, e.in_x)),
        "process": call(lambda e: e.t.process_hp_vals(e.in_hp[:2])),
        "one": call(lambda e: e.t.process_hp_vals([float(e.in_hp[1])])[:2]),
    }
    def old_names(e):
        t = type(e.t).__new__(type(e.t))
        t.__dict__.update(e.t.__dict__)
        t.solver_spawning_function, t.solver_calling_function = e.t.solver_spawning_function, e.t.solver_calling_function
        return t.compute_loss_values(e.in_hp)

    def elsewhere(how):
        def f(e):
            keep = e.t.parallel_eval
            e.t.parallel_eval = how() if callable(how) else how
            try:
                return e.t.compute_loss_values(list(e.in_hp))
            finally:
                if callable(how):
                    e.t.parallel_eval.shutdown()
                e.t.parallel_eval = keep

        return f

    calls["loss-old-names"] = ("loss", call(old_names))
    calls["loss-serial"] = ("loss", call(elsewhere(False)))
    calls["loss-parallel"] = ("loss", call(elsewhere(True)))
    calls["loss-executor"] = ("loss", call(elsewhere(lambda: ThreadPoolExecutor(2))))
    calls["range"] = lambda e, loud: param_tuning.get_lambda_range(0.002, 30.0, 3)
    calls["range-old-name"] = ("range", lambda e, loud: e.t.get_lambda_range(0.002, 30.0, 3))
    if cross:
        calls["minimum-function"] = ("minimum", lambda e, loud: param_tuning.fit_func_min([0.1, 1.0, 10.0], e.in_y))
        calls["minimum"] = call(lambda e: e.t.fit_loss_min(np.array([0.1, 1.0, 10.0]), e.in_y))
        calls["curves"] = lambda e, loud: param_tuning.plot_cv_curves(e.t.compute_loss_values(e.in_hp, return_all=True)[2][0][1], list(e.in_hp)) if loud else None
    return make, calls


def f_solvers(rng):
    A, n, m, x, b = tomo(rng)
    test = rng.random(m) < 0.3
    regs = {
        "none": lambda: None,
        "tv": lambda: regularizers.Regularizer_TV2D(0.02),
        "l1": lambda: regularizers.Regularizer_l1(0.02),
        "wl": lambda: regularizers.Regularizer_l1dwl(0.02, "haar", 1),
    }
    reg = regs[list(regs)[rng.integers(len(regs))]]
    kinds = {
        "SIRT": (lambda loud: solvers.SIRT(verbose=loud, leave_progress=False, regularizer=reg(), tolerance=0), 5),
        "PDHG": (lambda loud: solvers.PDHG(verbose=loud, regularizer=reg(), data_term=["l2", "l1", "kl"][which]), 5),
        "MLEM": (lambda loud: solvers.MLEM(verbose=loud, tolerance=0), 5),
        "FISTA": (lambda loud: solvers.FISTA(verbose=loud, regularizer=regularizers.Regularizer_l1(0.02), restart_period=3), 5),
        "stop": (lambda loud: solvers.SIRT(verbose=loud, tolerance=0.3), 9),
        "stop-PDHG": (lambda loud: solvers.PDHG(verbose=loud, tolerance=0.3), 9),
    }
    which = int(rng.integers(3))

    def make():
        e = Env(in_A=A.copy(), in_b=b.copy(), in_test=test.copy().astype(np.float64))
        e.op = projectors.ProjectorMatrix(e.in_A, n, m)
        e.in_b2, e.in_A2 = b[:, ::-1][:3].copy(), A.reshape(*m, -1)[:3, :, :10].reshape(15, 10).copy()
        e.op2 = projectors.ProjectorMatrix(e.in_A2, (2, 5), (3, 5))
        e.made = {k: f(False) for k, (f, _) in kinds.items()}  # these are kept and called many times
        return e

    def call(k):
        f, it = kinds[k]

        def g(e, loud):
            s = f(True) if loud else e.made[k]
            return s(e.op, e.in_b, it, **({"b_test_mask": e.in_test} if k in ("SIRT", "PDHG", "MLEM", "FISTA") else {}))

        return g

    def neutral(k):
        """The same, with every option that changes nothing given in full."""
        f, it = kinds[k]
        kw = {"x_mask": np.ones(n), "b_mask": np.ones(m), "lower_limit": 0.0 if k == "MLEM" else -np.inf, "upper_limit": np.inf}
        kw["x0"] = np.ones(n) if k == "MLEM" else np.zeros(n)

        def g(e, loud):
            return f(loud)(e.op, e.in_b, iterations=it, **kw, **({"b_test_mask": e.in_test} if k in ("SIRT", "PDHG", "MLEM", "FISTA") else {}))[0]

        return g

    def other(k):
        f, it = kinds[k]
        return lambda e, loud: (f(True) if loud else e.made[k])(e.op2, e.in_b2, it - 1)

    def plain(k):
        return lambda e, loud: call(k)(e, loud)[0]

    def describe(e, loud):
        return [[s.info(), s.upper(), s.lower()] for s in e.made.values()]

    calls = {k: call(k) for k in kinds}
    for k in ("SIRT", "PDHG", "MLEM", "FISTA"):
        calls[k + "-volume"] = plain(k)
        calls[k + "-neutral"] = (k + "-volume", neutral(k))
    for k in ("SIRT", "PDHG", "MLEM", "FISTA", "stop"):
        calls[k + "-other"] = other(k)
    calls["describe"] = describe
    return make, calls, {"describe"}


def f_projector(rng):
    ns, na = int(rng.integers(5, 9)), int(rng.integers(3, 6))
    vol = img(rng, ns, ns)
    ang = np.linspace(0, np.pi, na, endpoint=False)
    maps = rng.uniform(0, 0.2, size=(ns, ns)).astype(np.float32)

    def make():
        e = Env(in_vol=vol.copy(), in_ang=ang.copy(), in_att=maps.copy())
        e.p = projectors.ProjectorUncorrected(vol.shape, e.in_ang, backend="skimage", create_single_projs=True)
        e.filt = filters.FilterFBP("hann")
        e.in_sino = e.p.fp(e.in_vol)
        e.fbp = solvers.FBP(fbp_filter=filters.FilterFBP("hann"))
        return e

    def xr(e, loud):
        p = projectors.ProjectorAttenuationXRF(vol.shape, e.in_ang, att_in=e.in_att, att_out=e.in_att, backend="skimage", verbose=loud)
        return p.fp(e.in_vol), p.bp(e.in_sino)

    def maps_of(e, loud):
        return maps_how(e, loud, len(ang) > 3)

    def maps_how(e, loud, threads):
        a = attenuation.AttenuationVolume(e.in_att, e.in_att, e.in_ang)
        a.compute_maps(verbose=loud, use_multithreading=threads)
        if loud:
            a.plot_map(plt.figure().subplots(), 1)
        return a.get_maps(), a.get_projector_args(rot_ind=slice(0, 2))["att_maps"]

    def shown(e, loud):
        f = e.filt
        f.compute_filter(e.in_sino)
        if loud:
            f.plot_filters(fourier_abs=True)
        return f(e.in_sino), f.filter_fourier, f.filter_real

    return make, {
        "fp": lambda e, loud: e.p.fp(e.in_vol),
        "bp": lambda e, loud: e.p.bp(e.in_sino),
        "FBP": lambda e, loud: solvers.FBP(verbose=loud, fbp_filter=e.filt)(e.p, e.in_sino),
        "SART": lambda e, loud: solvers.SART(verbose=loud, leave_progress=False)(e.p, e.in_sino, 2),
        "xrf": xr,
        "maps": maps_of,
        "filter": shown,
        "fp-other": lambda e, loud: e.p.fp(e.in_att),
        "FBP-other": lambda e, loud: e.fbp(e.p, e.in_sino[:, ::-1]),
        "FBP-kept": ("FBP", lambda e, loud: e.fbp(e.p, e.in_sino)),
        "fp-call": ("fp", lambda e, loud: e.p(e.in_vol)),
        "fp-matmul": ("fp", lambda e, loud: (e.p @ e.in_vol.ravel()).reshape(e.in_sino.shape)),
        "fp-angles": ("fp", lambda e, loud: np.stack([np.squeeze(e.p.fp_angle(e.in_vol, k)) for k in range(na)])),
        "bp-call": ("bp", lambda e, loud: e.p.T(e.in_sino)),
        "bp-twice": ("bp", lambda e, loud: e.p.T.T.T(e.in_sino)),
        "maps-serial": ("maps", lambda e, loud: maps_how(e, loud, False)),
        "maps-parallel": ("maps", lambda e, loud: maps_how(e, loud, True)),
        "FBP-volume": lambda e, loud: solvers.FBP(verbose=loud, fbp_filter=e.filt)(e.p, e.in_sino)[0],
        "FBP-name": ("FBP-volume", lambda e, loud: solvers.FBP(verbose=loud, fbp_filter="hann")(e.p, e.in_sino)[0]),
    }, {"fp", "bp", "fp-other", "FBP-other", "FBP-kept", "fp-call", "fp-matmul", "fp-angles", "bp-call", "bp-twice"}


def f_filters(rng):
    ns, na = 6, 5
    sino = img(rng, na, ns)
    ang = np.linspace(0, np.pi, na, endpoint=False)

    def make():
        e = Env(in_sino=sino.copy(), in_ang=ang.copy(), in_other=sino[::-1, ::-1] ** 2, in_wide=np.concatenate([sino, sino], axis=-1))
        p = projectors.ProjectorUncorrected((ns, ns), e.in_ang, backend="skimage")
        e.mr = filters.FilterMR(p)
        e.fbp = filters.FilterFBP("ramp")
        e.fc = filters.FilterCustom(None)
        f = filters.FilterFBP("ramp")
        f.compute_filter(e.in_sino)
        e.fc.filter_real = f.filter_real.copy()
        return e

    def show(f, e, loud):
        f.compute_filter(e.in_sino)
        if loud:
            f.plot_filters(fourier_abs=True)
            f.plot_filters()
        return f.filter_fourier, f.filter_real, f(e.in_sino)

    return make, {
        "MR": lambda e, loud: show(e.mr, e, loud),
        "FBP": lambda e, loud: show(e.fbp, e, loud),
        "MR-other": lambda e, loud: show(e.mr, Env(in_sino=e.in_other), loud)[2],
        "FBP-other": lambda e, loud: show(e.fbp, Env(in_sino=e.in_wide), loud)[2],
        "custom": lambda e, loud: show(e.fc, e, loud),
        "apply": lambda e, loud: filters.FilterFBP("cosine")(e.in_sino),
        "apply-twice-halved": ("apply", lambda e, loud: sum(filters.FilterFBP("cosine")(v) for v in (e.in_sino / 2, e.in_sino / 2))),
        "apply-full-fourier": ("apply", lambda e, loud: filters.FilterFBP("cosine", use_rfft=False)(e.in_sino)),
    }, {"apply", "apply-twice-halved", "apply-full-fourier"}


def f_align(rng):
    nu, nv, nw = 8, 6, 6
    x = np.arange(nu) - (nu - 1) / 2
    a = np.array([np.exp(-(((x - 0.4 - 0.2 * k) / 1.5) ** 2)) for k in range(nv)]).round(3)
    b = np.array([np.exp(-((x / 1.5) ** 2))] * nv).round(3)
    g1, g2 = img(rng, 32, 32), img(rng, 32, 32)
    stack = img(rng, nv, nw, nu)

    def make():
        return Env(in_a=a.copy(), in_b=b.copy(), in_g1=g1.copy(), in_g2=g2.copy(), in_s=stack.copy())

    return make, {
        "tilt": lambda e, loud: fitting.fit_camera_tilt_angle(e.in_a, e.in_b, **({"verbose": True} if loud else {})),
        "tilt-l2": lambda e, loud: fitting.fit_camera_tilt_angle(e.in_a, e.in_b, pad_u=True, fit_l1=False, verbose=loud),
        "turn": lambda e, loud: fitting.fit_image_rotation_and_scale(e.in_g1, e.in_g2, verbose=loud),
        "shifts": lambda e, loud: fitting.fit_shifts_vu_xc(e.in_s, e.in_s[..., ::-1]),
        "distances": lambda e, loud: fitting.fit_shifts_u_sad(e.in_s[0], e.in_s[1], search_range=3),
        "parabola": lambda e, loud: fitting.fit_parabola_min([1.0, 2.0, 3.0, 4.0], [3.0, 1.0, 1.5, 4.0]),
        "shifts-full-fourier": ("shifts", lambda e, loud: fitting.fit_shifts_vu_xc(e.in_s, e.in_s[..., ::-1], use_rfft=False)),
        "shifts-one-by-one": ("shifts", lambda e, loud: np.concatenate([fitting.fit_shifts_vu_xc(e.in_s[:, [k]], e.in_s[:, [k], ::-1]) for k in range(nw)], axis=-1)),
        "turn-default": ("turn", lambda e, loud: fitting.fit_image_rotation_and_scale(e.in_g1, e.in_g2, window_type="hann", pad_mode=None)),
    }, {"shifts", "distances", "parabola", "shifts-full-fourier", "shifts-one-by-one", "turn-default"}


def f_shifts(rng):
    nu, nw = 9, 8
    lay = int(rng.integers(0, 3))
    nv = 6 if lay else 1
    data = rng.uniform(0.2, 1, size=(2 if lay == 2 else 1, nv, nw, nu)).astype(np.float32)
    data = data[0, 0] if lay == 0 else data[0] if lay == 1 else data
    ang = np.linspace(0, 2 * np.pi, nw, endpoint=False)

    def make():
        e = Env(in_d=data.copy(), in_ang=ang.copy(), in_p=np.roll(data, 1, axis=-1))
        e.pre = {loud: DetectorShiftsPRE(e.in_d, e.in_ang, verbose=loud) for loud in (False, True)}
        e.xc = {loud: DetectorShiftsXC(e.in_d, e.in_ang, verbose=loud) for loud in (False, True)}
        return e

    calls = {
        "u": lambda e, loud: e.pre[loud].fit_u(),
        "u-max": lambda e, loud: e.pre[loud].fit_u(method="max", background=0.1, fit_l1=True),
        "xc": lambda e, loud: e.xc[loud].fit_vu(),
        "360": lambda e, loud: e.xc[loud].fit_u_360(),
        "180": lambda e, loud: e.xc[loud].fit_u_180(),
        "drifts": lambda e, loud: e.xc[loud].fit_vu_accum_drifts(),
        "find": lambda e, loud: e.xc[loud].find_shifts_vu(e.in_d, e.in_p),
    }
    if lay:
        calls["v"] = lambda e, loud: e.pre[loud].fit_v()
    return make, calls


def f_cone(rng):
    t = np.linspace(0, 2 * np.pi, 12, endpoint=False) + rng.uniform(0, 0.3)
    tilt = np.deg2rad(rng.uniform(-3, 3))

    def ell(v, b, a):
        p = np.stack([v + b * np.sin(t), a * np.cos(t)])
        return np.stack([p[0] * np.cos(tilt) - p[1] * np.sin(tilt), p[0] * np.sin(tilt) + p[1] * np.cos(tilt)])

    p1, p2 = ell(-60, 3, 40), ell(60, 3.3, 40)
    use = [None, 0.5][rng.integers(2)]
    lean = rng.uniform(0.5, 2) * np.array([-1, 0, 1]) + rng.uniform(-0.1, 0.1, size=3)  # measured points of a tilted axis

    def make():
        e = Env(in_p1=p1.copy(), in_p2=p2.copy(), in_ax=np.array([[-60.0, lean[0]], [0.0, lean[1]], [60.0, lean[2]]]).T)
        e.f = {}
        for loud in (False, True):
            e.f[loud] = FitConeBeamGeometry([200, 160], e.in_p1, e.in_p2, pix_size_um=use, verbose=loud, plot_result=loud)
            e.f["axis", loud] = FitConeBeamGeometry([200, 160], e.in_p1, e.in_p2, points_axis=e.in_ax, verbose=loud, plot_result=loud)
        return e

    def fit(e, key, **kw):
        o = e.f[key].fit(**kw)
        return o, np.array(e.f[key].prj_origin_vu)

    def new(e, loud):
        f = FitConeBeamGeometry([200, 160], e.in_p1, e.in_p2, use_l1_norm=True, verbose=loud, plot_result=loud)
        return f.fit(r=2.0)

    return make, {
        "fit": lambda e, loud: fit(e, loud, r=2.0),
        "other-radius": lambda e, loud: fit(e, loud, r=3.0),
        "measured": lambda e, loud: fit(e, loud, r=2.0, meas_D_pix=900.0),
        "axis": lambda e, loud: fit(e, ("axis", loud), r=2.0),
        "new": new,
    }


def f_masks(rng):
    bern = struct_illum.MaskGeneratorBernoulli([4.0, 4.0])
    np.random.seed(int(rng.integers(100)))
    coll = bern.generate_collection()
    q = np.array(coll.masks_enc)

    def make():
        e = Env(in_m=q.copy(), in_img=img(rng_of(5), *q.shape[-2:]), in_b=np.arange(q[..., 0, 0].size, dtype=np.float32))
        e.c = struct_illum.MaskCollection(e.in_m)
        e.p = struct_illum.ProjectorGhostImaging(e.c, backend="numpy")
        e.sm = np.exp(-((np.arange(12) - 6) ** 2)[:, None] / 8 - ((np.arange(12) - 6) ** 2)[None] / 8)[None, None].repeat(2, 0).astype(np.float32)
        e.sm[1] = np.roll(e.sm[1], 3, axis=-1)
        return e

    def look(e, loud):
        if loud:
            e.c.inspect_masks()
            e.c.inspect_masks([1] * len(e.c.shape_shifts))
        return e.c.masks_enc, e.c.shape_fov, e.c.num_buckets, e.c.num_pixels, e.c.info()

    def fw(e, loud):
        return e.p.fp(e.in_img), e.p.bp(e.p.fp(e.in_img))

    return make, {
        "qr": lambda e, loud: struct_illum.decompose_qr_masks(e.in_m, **({"verbose": True} if loud else {})),
        "resolution": lambda e, loud: struct_illum.estimate_resolution(e.in_m, verbose=loud, plot_result=loud),
        "look": look,
        "project": fw,
        "fbp": lambda e, loud: e.p.fbp(e.p.fp(e.in_img)),
        "fbp-other": lambda e, loud: e.p.fbp(e.p(e.in_img[::-1] ** 2)),
        "fbp-default": ("fbp", lambda e, loud: e.p.fbp(e.p(e.in_img), use_lstsq=True, adjust_scaling=False)),
        "project-masks": ("project", lambda e, loud: fw(Env(e, p=struct_illum.ProjectorGhostImaging(e.in_m, backend="numpy")), loud)),
        "fbp-scaled": lambda e, loud: e.p.fbp(e.p.fp(e.in_img), adjust_scaling=True),
        "bin": lambda e, loud: hushed(lambda: e.c.bin_masks(2.0).masks_enc),  # says what it does, always
    }, {"project", "fbp-other", "fbp", "fbp-scaled", "bin", "fbp-default", "project-masks"}


def rng_of(k):
    return np.random.default_rng(k)


def f_process(rng):
    a, b = img(rng, 16, 16), img(rng, 16, 16)
    sino = img(rng, 3, 5, 12) + 1
    pic = img(rng, 9, 7)
    vol = np.stack([a] * 2)

    def make():
        return Env(in_a=a.copy(), in_b=b.copy(), in_s=sino.copy(), in_p=pic.copy(), in_t=np.exp(-sino), in_f=img(rng_of(3), 6, 3, 12) + 1, in_v=vol.copy())

    def frcs(e, loud):
        if loud:
            post.plot_frcs([(e.in_a, e.in_b), (e.in_b, e.in_a)], ["one", "two"], title="here", verbose=True)
        return post.compute_frc(e.in_a, e.in_b)

    def look(e, loud):
        if loud:
            misc.inspect_fourier_img(e.in_a)
            misc.inspect_fourier_img(e.in_b, remove_zero=True)
        return e.in_a

    return make, {
        "correlation": lambda e, loud: misc.norm_cross_corr(e.in_a, e.in_b, plot=loud),
        "autocorrelation": lambda e, loud: misc.norm_cross_corr(e.in_a, t_match=True, plot=loud),
        "no-profile": lambda e, loud: misc.norm_cross_corr(e.in_a, e.in_b, mode_full=False, compute_profile=False, plot=loud),
        "bin": lambda e, loud: pre.bin_imgs(e.in_s, 2, axes=(-3, -1), auto_crop=True, verbose=loud),
        "bin-fraction": lambda e, loud: pre.bin_imgs(e.in_a, 1.6, verbose=loud),
        "margin": lambda e, loud: pre.background_from_margin(e.in_s, 2, poly_order=1, plot=loud),
        "margin-const": lambda e, loud: pre.background_from_margin(e.in_s[0], [2, 0], plot=loud),
        "snip": lambda e, loud: pre.snip(e.in_p, iterations=8, verbose=loud),
        "snip-stack": lambda e, loud: pre.background_from_snip(e.in_s, snip_iterations=3, verbose=loud),
        "eigen": lambda e, loud: pre.compute_eigen_flats(e.in_t.swapaxes(0, 1), plot=loud),
        "eigen-flats": lambda e, loud: pre.compute_eigen_flats(e.in_t.swapaxes(0, 1), e.in_f, plot=loud),
        "frc": frcs,
        "correlation-again": ("correlation", lambda e, loud: misc.norm_cross_corr(e.in_a.copy(), e.in_b.copy(), axes=(0, 1), plot=loud)),
        "bin-two-steps": ("bin-four", lambda e, loud: pre.bin_imgs(pre.bin_imgs(e.in_a, 2, verbose=loud), 2, verbose=loud)),
        "bin-four": lambda e, loud: pre.bin_imgs(e.in_a, 4, verbose=loud),
        "look": look,
    }


def f_physics(rng):
    nrg = float(rng.uniform(8, 25))
    frac = [img(rng, 3, 4), img(rng, 3, 4)]
    shape = (int(rng.integers(5, 9)), int(rng.integers(5, 9)))
    n = int(rng.integers(8, 14))

    def make():
        e = Env(in_f0=frac[0].copy(), in_f1=frac[1].copy(), in_e=np.linspace(5, 30, 4), in_w=img(rng_of(1), 3, *shape))
        e.m = {loud: materials.VolumeMaterial([e.in_f0, e.in_f1], ["Water, Liquid", "Fe2O3"], 1e-4, verbose=loud) for loud in (False, True)}
        e.cmp = attenuation.get_compound("Fe2O3", 5.2)
        e.in_cmp = str(e.cmp)
        return e

    def lines(e, loud):
        if loud:
            attenuation.plot_emission_line_attenuation(e.cmp, 10.0, nrg, 0.2)
            attenuation.plot_emission_line_attenuation("Fe2O3", 10.0, nrg, 0.2, line_shape="gaussian", plot_lines_mean=False)
            attenuation.plot_emission_line_attenuation("Fe2O3", 10.0, nrg, 0.2, line_shape="sech**2", num_points=51)
        return attenuation.get_linear_attenuation_coefficient(e.cmp, nrg, 2.0), str(e.cmp)

    def decay(e, loud):
        if loud:
            attenuation.plot_transmittance_decay(e.cmp, nrg)
            attenuation.plot_transmittance_decay([e.cmp, "Water, Liquid"], nrg, (0.0, 5.0, 11))
        return attenuation.get_linear_attenuation_coefficient("Water, Liquid", nrg, 2.0), str(e.cmp)

    def responses(e, loud):
        if loud:
            for k in (n, n + 1):
                phase.plot_filter_responses(k, 1.0, 1e4, 1e-4, 100.0)
                phase.plot_filter_responses(k, 1.0, 1e4, 1e-4, 100.0, domain="direct")
        return phase.apply_propagation_filter(e.in_w, 1.0, 1e4, 1e-4, 100.0)

    return make, {
        "rate": lambda e, loud: xrf.get_radiation_rate("Fe", "KA", verbose=loud),
        "rate-missing": lambda e, loud: xrf.get_radiation_rate("C", "LA", verbose=loud),
        "energy": lambda e, loud: [(v[0].name, v[1]) if isinstance(v, tuple) else v for v in np.ravel(xrf.get_energy("Fe", "KB", compute_average=True, verbose=loud))],
        "attenuation": lambda e, loud: e.m[loud].get_attenuation(nrg),
        "attenuation-other": lambda e, loud: e.m[loud].get_attenuation(nrg + 3),
        "phase-other": lambda e, loud: e.m[loud].get_phase_shift(nrg + 3),
        "fluo-other": lambda e, loud: e.m[loud].get_fluo_production("Fe", nrg + 3, "KB"),
        "compton-other": lambda e, loud: e.m[loud].get_compton_scattering(nrg, angle_rad=2.0),
        "mass-other": lambda e, loud: e.m[loud].get_element_mass_fraction("H"),
        "phase": lambda e, loud: e.m[loud].get_phase_shift(nrg),
        "compton": lambda e, loud: e.m[loud].get_compton_scattering(nrg, angle_rad=1.0),
        "fluo": lambda e, loud: e.m[loud].get_fluo_production("Fe", nrg, "KA"),
        "mass": lambda e, loud: e.m[loud].get_element_mass_fraction("O"),
        "beam": lambda e, loud: physics.pencil_beam_profile(1.0, 0.7, 2, verbose=loud),
        "beam-lorentz": lambda e, loud: physics.pencil_beam_profile(2.0, 1.5, 1, beam_shape="lorentzian", verbose=loud),
        "delta-beta": lambda e, loud: phase.get_delta_beta_curves(["Water, Liquid", "Fe2O3"], (10.0, 50.0, 5), plot=loud),
        "propagation": lambda e, loud: phase.get_propagation_filter(shape, 1.0, 1e4, 1e-4, 100.0, plot_result=loud),
        "propagation-half": lambda e, loud: phase.get_propagation_filter(shape, 1.0, 1e4, 1e-4, 100.0, filter_type="tie", use_rfft=True, plot_result=loud),
        "propagation-real": ("propagation-direct", lambda e, loud: phase.get_propagation_filter(shape, 1.0, 1e4, 1e-4, 100.0, use_rfft=True, plot_result=loud)[1]),
        "propagation-direct": lambda e, loud: phase.get_propagation_filter(shape, 1.0, 1e4, 1e-4, 100.0, use_rfft=False)[1],
        "rate-number": ("rate", lambda e, loud: xrf.get_radiation_rate(26, xrf.LinesSiegbahn.get_lines("KA"), verbose=loud)),
        "mass-number": ("mass", lambda e, loud: e.m[loud].get_element_mass_fraction(8)),
        "lines": lines,
        "decay": decay,
        "responses": responses,
    }


def f_denoise(rng):
    pic = img(rng, 8, 8)
    psf = np.array([[0, 1, 0], [1, 4, 1], [0, 1, 0]], np.float32) / 8

    def make():
        return Env(in_p=pic.copy(), in_psf=psf.copy(), in_w=np.ones_like(pic), in_r=np.array([0.01, 0.1, 1.0]))

    def tuned(e, loud):
        np.random.seed(1)
        return denoisers.denoise_image(e.in_p, e.in_r, iterations=5, verbose=loud)

    return make, {
        "one": lambda e, loud: denoisers.denoise_image(e.in_p, 0.02, iterations=5, verbose=loud),
        "blurred": lambda e, loud: denoisers.denoise_image(e.in_p, 0.02, psf=e.in_psf, pix_weights=e.in_w, iterations=5, lower_limit=0.0, verbose=loud),
        "tv": lambda e, loud: denoisers.denoise_image(e.in_p, 0.02, iterations=5, regularizer=regularizers.Regularizer_TV2D, verbose=loud),
        "tuned": tuned,
        "one-default": ("one", lambda e, loud: denoisers.denoise_image(e.in_p, 0.02, iterations=5, pix_weights=None, psf=None, lower_limit=None, verbose=loud)),
    }


def f_geometry(rng):
    ns = int(rng.integers(4, 8))
    ang = np.linspace(0, np.pi, 4)

    def make():
        e = Env(in_ang=ang.copy(), in_vol=img(rng_of(2), 3, ns, ns))
        e.vol = models.VolumeGeometry.get_default_from_volume(e.in_vol)
        e.prj = models.get_prj_geom_parallel(rot_axis_shift_pix=np.array([0.5, -0.3]))
        e.prj1 = models.get_prj_geom_parallel(rot_axis_shift_pix=0.5)
        e.cone = models.get_prj_geom_cone(src_to_sam_dist=100.0, data_shape=(3, 4, ns))
        return e

    def draw(e, loud):
        if loud:
            models.plot_projection_geometry(e.cone, e.vol)
        return e.cone, e.vol, e.cone.rotate(e.in_ang)

    return make, {
        "rotate": lambda e, loud: e.prj1.rotate(e.in_ang),
        "draw": draw,
        "3d": lambda e, loud: e.prj.get_3d(),
        "volume": lambda e, loud: (e.vol, e.vol.get_3d(), e.vol.mask_shape, e.vol.extent),
        "volume-of-shape": ("default", lambda e, loud: models.get_vol_geom_from_data(e.in_vol)),
        "default": lambda e, loud: models.VolumeGeometry.get_default_from_data(e.in_vol),
    }, {"rotate", "3d", "volume", "default", "volume-of-shape"}


def f_markers(rng):
    nv, nw, nu = 9, 5, 11
    disk = create_marker_disk((nv, nu), 1.5)
    data = np.stack([np.roll(disk, (k - 2, 2 * k - 4), axis=(0, 1)) for k in range(nw)], axis=-2).astype(np.float32)

    def make():
        return Env(in_d=data.copy(), in_m=disk.copy())

    def look(e, loud):
        p = track_marker(e.in_d, e.in_m)
        if loud:
            v = MarkerTrackingVisualizer(p, e.in_d, e.in_m, trajectory=fitting.Ellipse(1.0, 2.0, 0.1, 0.0, 0.0, np.array([4.0, 5.0])) if rng.random() < 0 else None)
            from types import SimpleNamespace

            for key in ("up", "down", "l", "n"):
                v._key_event(SimpleNamespace(key=key))
            for b in ("up", "down"):
                v._scroll_event(SimpleNamespace(button=b))
        return p

    return make, {
        "track": lambda e, loud: track_marker(e.in_d, e.in_m),
        "look": look,
        "disk": lambda e, loud: create_marker_disk((nv, nu), 1.5),
        "disk-sharp": lambda e, loud: create_marker_disk((nv, nu), 2.0, super_sampling=2, conv=False),
    }, {"track", "disk", "disk-sharp"}


FAMILIES = {
    "minimum": f_minimum,
    "l-curve": lambda rng: f_tuning(rng, 0),
    "k-fold": lambda rng: f_tuning(rng, 1),
    "random-fold": lambda rng: f_tuning(rng, 2),
    "solvers": f_solvers,
    "projector": f_projector,
    "filters": f_filters,
    "alignment": f_align,
    "shifts": f_shifts,
    "cone-beam": f_cone,
    "masks": f_masks,
    "processing": f_process,
    "physics": f_physics,
    "denoising": f_denoise,
    "geometry": f_geometry,
    "markers": f_markers,
}


# ------------------------------------------------------------------------------- sessions
def settings():
    """Global settings a call has no business with."""
    st = np.random.get_state()
    keys = [k for k in matplotlib.rcParams if not k.startswith(("backend", "_"))]
    return (st[0], st[1].tobytes(), st[2]), tuple(sorted(np.geterr().items())), np.get_printoptions()["precision"], tuple(str(matplotlib.rcParams[k]) for k in keys)


def inputs(env):
    return {k: np.array(v, copy=True) for k, v in env.items() if k.startswith("in_")}


def play(make, calls, names, alias, plan, base, seeded):
    """Play a session; the record of what happened, and the values."""
    events, notes = [], []
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            env = make()
        kept = inputs(env)
        np.random.seed(11)
        home = settings()
        answers, copies, given, own = [], [], [], set()

        def look():
            reread = []
            for k in range(len(answers)):
                ok = answers[k] is None or k in own or same(leaves(answers[k]), copies[k])
                reread.append(given[k] if ok else -3)
            now = inputs(env)
            moved = [k for k in kept if not np.array_equal(now[k], kept[k])] + (["settings"] if settings() != home else [])
            return reread, moved

        for c, loud in plan:
            if c == 0:  # the caller writes over an answer
                for v in leaves(answers[loud - 1]):
                    if v.flags.writeable and v.dtype.kind in "fciu":
                        v[...] = -77
                own.add(loud - 1)
                reread, moved = look()
                events.append({"c": 0, "k": loud, "given": reread, "world": int(bool(moved))})
                notes.append(f"changed: {moved}" if moved else "")
                continue
            plt.close("all")
            out = io.StringIO()
            a, note = 0, None
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                try:
                    f = calls[names[c - 1]]
                    ans = (f[1] if isinstance(f, tuple) else f)(env, loud)
                    got = leaves(ans)
                except Exception as exc:  # noqa: BLE001
                    ans, got, a = None, None, -1
                    note = f"{type(exc).__name__}: {exc}"
            figs = len(plt.get_fignums())
            plt.close("all")
            if seeded(names[c - 1]):
                np.random.seed(11)
            if a == 0:
                a = alias[c - 1]
                if a in base and base[a] is not None and not same(got, base[a], 1e-5 if a == c else 1e-4):
                    a = -2
            reread, moved = look()
            answers.append(ans)
            given.append(a)
            copies.append(None if got is None else [np.array(g, copy=True) for g in got])
            if moved:
                note = f"{note or ''} changed: {moved}"
            events.append({"c": c, "loud": bool(loud), "a": a, "given": reread, "world": int(bool(moved)), "figs": figs, "text": bool(out.getvalue().strip()) and "WARNING" not in out.getvalue()})
            notes.append(f"{note or ''} {out.getvalue()[:200]}")
    return events, notes, copies


LENDS = {("masks", "look"), ("geometry", "draw"), ("geometry", "volume"), ("geometry", "3d"), ("processing", "look"), ("projector", "filter"), ("filters", "MR"), ("filters", "FBP"), ("filters", "custom")}  # calls that give what the objects themselves hold
SEEDED = {"tuned", "SART"}  # calls that draw at random, as they are meant to


def walks(rng, fam, most):
    """Sessions in which every call comes once right after every other, and itself."""
    n, loud, lends = len(fam[3]), fam[5], fam[6]
    name = rng.permutation(n) + 1
    todo = {a: list(rng.permutation(n)) for a in range(n)}
    back, tour = [0], []
    while back:  # an Eulerian tour
        if todo[back[-1]]:
            back.append(int(todo[back[-1]].pop()))
        else:
            tour.append(back.pop())
    tour = tour[::-1]
    out = []
    for k in range(0, len(tour) - 1, most):
        plan, free = [], []
        for c in tour[k : k + most + 1]:
            c = int(name[c])
            if free and rng.random() < 0.2:
                plan.append((0, free.pop(rng.integers(len(free)))))
            plan.append((c, bool(loud[c - 1] and rng.random() < 0.25)))
            if not lends[c - 1]:
                free.append(sum(p[0] != 0 for p in plan))
        out.append(plan)
    return [out[k] for k in rng.permutation(len(out))]


def run(ck):
    rng = np.random.default_rng(25000 + ck.seed)
    fams = []
    for _ in range(3 if ck.thorough else 1):
        for name, f in FAMILIES.items():
            make, calls, *mute = f(rng)
            names = list(calls)
            alias = [names.index(v[0]) + 1 if isinstance(v, tuple) else k for k, v in enumerate(calls.values(), 1)]
            # a call reports on itself if it can
            loud = [not mute or k not in mute[0] for k in names]
            lends = [(name, k) in LENDS for k in names]
            fams.append((name, make, calls, names, alias, loud, lends))
    r = ck.tlc("Session", files={"instances.json": [{"kind": "plan", "calls": len(f[3]), "depth": 3 if len(f[3]) < (12 if ck.thorough else 9) else 2, "loud": f[5], "alias": f[4], "lends": f[6]} for f in fams]},
               invariants=INV, properties=["GivenKept"], workers=4)
    plans = {}
    for e in r.emitted:
        plans.setdefault(e["iid"], []).append([(int(c), int(loud)) for c, loud in e["hist"]])
    traces, meta = [], []

    def session(fam, plan, base):
        name, make, calls, names, alias = fam[:5]
        ev, notes, copies = play(make, calls, names, alias, plan, base, SEEDED.__contains__)
        traces.append({"kind": "trace", "ev": ev, "alias": alias})
        meta.append((name, [(names[c - 1], "reporting" if loud else "silent") if c else ("written over", f"answer {loud}") for c, loud in plan], notes))
        return copies

    for fid, fam in enumerate(fams, 1):
        base = {}
        for c in sorted(range(1, len(fam[3]) + 1), key=lambda c: (fam[4][c - 1] != c, c)):
            got = session(fam, [(c, False)], base)
            base.setdefault(c, got[0])
        todo = sorted(plans[fid])
        chosen = [todo[k] for k in rng.permutation(len(todo))[: 200 if ck.thorough else 24]]
        # every call reports, and is silent after that
        chosen += [[(c, True), (c, False)] for c, loud in enumerate(fam[5], 1) if loud]
        # the caller writes over the answer of every call, and asks again
        chosen += [[(c, False), (0, 1), (c, False)] for c, lends in enumerate(fam[6], 1) if not lends]
        chosen += walks(rng, fam, 10)
        for plan in chosen:
            session(fam, plan, base)
    r = ck.tlc("Session", files={"instances.json": traces}, invariants=INV, properties=["GivenKept"], workers=4)
    for e in r.emitted:
        name, plan, notes = meta[e["iid"] - 1]
        ck.case(name, {"session": plan})
        for w, k in e["why"]:
            ck.violation(f"{name}.{w}", {"session": plan, "at": k, "note": notes[k - 1]}, key=f"{name}.{w}.{plan[k - 1][0]}")
    if len(r.emitted) != len(meta):
        raise MachineryError(f"{len(r.emitted)} of {len(meta)} sessions were judged")
