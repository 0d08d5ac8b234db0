"""C26: what cannot be computed is refused (spec/Refuse.tla), and refusing changes nothing (spec/Guarded.tla)."""

import contextlib
import io
import logging
import warnings
from concurrent.futures import ThreadPoolExecutor

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np

import solver_inst as si
import xraylib
from corrct import data_terms, filters, models, operators, param_tuning, physics, projectors, regularizers, solvers, struct_illum
from corrct.alignment import fitting
from corrct.alignment.cone_beam import FitConeBeamGeometry
from corrct.alignment.shifts import DetectorShiftsPRE, DetectorShiftsXC
from corrct.physics import attenuation, materials, phase, xrf
from corrct.physics.xrf import DetectorXRF
from corrct.processing import misc, post, pre

logging.disable(logging.WARNING)
REFUSALS = (ValueError, NotImplementedError, TypeError)


class Desk:
    """Makes the arguments of one request, and knows whether they were written to."""

    def __init__(self, rng):
        self.rng = rng
        self.lent = []

    def lend(self, a):
        a = np.array(a)
        self.lent.append((a, a.copy()))
        return a

    def data(self, *shape, dtype=np.float32):
        return self.lend((0.25 + self.rng.random(shape)).astype(dtype))

    def untouched(self):
        return all(a.shape == b.shape and np.array_equal(a, b, equal_nan=True) for a, b in self.lent)


TERMS = {
    "l2": lambda: data_terms.DataFidelity_l2(), "wl2": lambda: data_terms.DataFidelity_wl2(2.0), "l2b": lambda: data_terms.DataFidelity_l2b(0.5),
    "Huber": lambda: data_terms.DataFidelity_Huber(0.5), "l1": lambda: data_terms.DataFidelity_l1(), "l1b": lambda: data_terms.DataFidelity_l1b(0.5),
    "l12": lambda: data_terms.DataFidelity_l12(), "KL": lambda: data_terms.DataFidelity_KL(), "ln": lambda: data_terms.DataFidelity_ln(),
}  # fmt: skip


def r_term(d, q):

    term = TERMS[q["term"]]() if q["obj"] else q["term"]
    solver = getattr(solvers, q["solver"])
    if not q["test"]:
        return lambda: solver(data_term=term)
    return lambda: solver(data_term_test=term)


def r_regs(d, q):
    A, b = si.MatOp(d.data(5, 6), [6], [5]), d.data(5)
    one, two = regularizers.Regularizer_l1(0.1), regularizers.Constraint_LowerLimit(0)
    regs = {"none": None, "one": one, "list0": [], "list1": [one], "list2": [one, two], "tuple1": (one,), "tuple2": (one, two), "str": "l1", "bad-list": [one, "l1"], "number": 3}[q["regs"]]
    return lambda: getattr(solvers, q["solver"])(regularizer=regs)(A, b, 2)


R = regularizers
REGS = {
    "TV2D": lambda: R.Regularizer_TV2D(0.1), "HubTV2D": lambda: R.Regularizer_HubTV2D(0.1, 0.1), "smooth2D": lambda: R.Regularizer_smooth2D(0.1),
    "lap2D": lambda: R.Regularizer_lap2D(0.1), "l1": lambda: R.Regularizer_l1(0.1), "l1swl": lambda: R.Regularizer_l1swl(0.1, "haar", 1),
    "l1swl-n": lambda: R.Regularizer_l1swl(0.1, "haar", 1, normalized=True), "l12swl-n": lambda: R.Regularizer_l12swl(0.1, "haar", 1, normalized=True),
    "Hub-swl-n": lambda: R.Regularizer_Hub_swl(0.1, "haar", 1, 0.1, normalized=True), "l1dwl": lambda: R.Regularizer_l1dwl(0.1, "haar", 1),
    "l12dwl": lambda: R.Regularizer_l12dwl(0.1, "haar", 1), "Hub-dwl": lambda: R.Regularizer_Hub_dwl(0.1, "haar", 1, 0.1),
    "l1med": lambda: R.Regularizer_l1med(0.1), "l2med": lambda: R.Regularizer_l2med(0.1),
    "fft": lambda: R.Regularizer_fft(0.1, norm=data_terms.DataFidelity_l1()), "fft-l12": lambda: R.Regularizer_fft(0.1),
    "TNV": lambda: R.Regularizer_TNV(0.1), "VTV": lambda: R.Regularizer_VTV(0.1), "lnswl-n": lambda: R.Regularizer_lnswl(0.1, "haar", 1, normalized=True),
    "vl1wl-n": lambda: R.Regularizer_vl1wl(0.1, "haar", 1, normalized=True), "vl1wl-n-1": lambda: R.Regularizer_vl1wl(0.1, "haar", 1, normalized=True, pwise_lvl_norm=1, pwise_chan_norm=1),
    "vl1wl-1": lambda: R.Regularizer_vl1wl(0.1, "haar", 1, pwise_lvl_norm=1, pwise_chan_norm=1), "vSVD": lambda: R.Regularizer_vSVD(0.1),
    "lowlim": lambda: R.Constraint_LowerLimit(0), "uplim": lambda: R.Constraint_UpperLimit(1),
}  # fmt: skip


def r_proximal(d, q):
    b = d.data(2, 4, 4)
    A = operators.TransformIdentity(b.shape)
    return lambda: solvers.FISTA(regularizer=REGS[q["reg"]]())(A, b, 2)


def r_lines(d, q):
    vol, ang = d.data(6, 6), d.lend(np.linspace(0, 2, 3))
    sino = d.data(3, 6)
    if q["projector"]:
        def ask():
            with projectors.ProjectorUncorrected([6, 6], ang, create_single_projs=q["single"], backend="skimage") as p:
                solvers.SART()(p, sino, 1)
        return ask
    m, b = d.data(3, 2, 6), d.data(3, 2)
    kw = {}
    if q["At"]:
        kw["At"] = lambda y, k: m[k].T @ y
    if q["rows"]:
        kw["A_num_rows"] = 3
    return lambda: solvers.SART()(lambda x, k: m[k] @ x, b, 1, **kw)


def r_projector(d, q):
    shape = ([6] * q["dims"] if q["square"] else [6, 7, 6, 6][: q["dims"]])
    ang = d.lend(np.linspace(0, 2, 3))
    geom = models.ProjectionGeometry.get_default_parallel(geom_type="2d" if q["dims"] == 2 else "3d") if q["geom"] else None
    psf = None if q["psf"] == 0 else d.data(*[3] * q["psf"])
    return lambda: projectors.ProjectorUncorrected(shape, ang, rot_axis_shift_pix=0.5 if q["shift"] else None, prj_geom=geom, psf=psf, backend=q["backend"])


def r_xrf(d, q):
    ang, dets = d.lend(np.linspace(0, 2, 3)), d.lend(np.linspace(0.5, 2, q["dets"]))
    kw = {"weights_detectors": d.data(q["weights"])} if q["weights"] else {}
    if q["maps"]:
        kw["att_maps"] = d.data(3, q["maps"], 6, 6 if q["same"] else 5)
    else:
        kw["att_in"] = kw["att_out"] = 0.125 * d.data(6, 6)
    return lambda: projectors.ProjectorAttenuationXRF([6, 6], ang, angles_detectors_rad=dets, backend="skimage", verbose=False, **kw)


def r_atts(d, q):
    a, b = (d.data(*s) if s else None for s in (q["in"], q["out"]))
    det = {"float": 1.5, "int": 1, "list": [1.5, 2.0], "array": d.lend([1.5, 2.0]), "detector": DetectorXRF(2.0, 3.0, 1.5), "detectors": [DetectorXRF(2.0, 3.0, 1.5), 2.0],
           "str": "left", "mixed": [1.5, "left"]}[q["det"]]
    return lambda: attenuation.AttenuationVolume(a, b, [0.0, 1.0], det)


def r_maps(d, q):
    m = attenuation.AttenuationVolume(d.data(4, 4), None, [0.0, 1.0], 1.5)
    m.compute_maps(verbose=False, use_multithreading=False)
    return lambda: m.get_maps(roi=((0, 2), (0, 2)) if q["roi"] else None, binning=q["binning"])


def r_shifts(d, q):
    return lambda v=d.data(*q["v"]), u=d.data(*q["u"]): models.combine_shifts_vu(v, u)


def r_axisdir(d, q):
    return lambda: models.get_rot_axis_dir(q["name"])


def r_geomtype(d, q):
    return lambda g=models.ProjectionGeometry(q["name"], *[d.data(1, 3) for _ in range(4)], d.data(3)): g.ndim


def r_disp(d, q):
    g, v = models.ProjectionGeometry.get_default_parallel(geom_type=f"{q['ndim']}d"), d.data(q["disp"])
    return lambda: g.project_displacement_to_detector(v)


def r_minimum(d, q):
    x = d.lend(2.0 ** np.arange(q["xs"]))
    y = d.lend((np.arange(q["fs"]) - 1.0) ** 2)
    if q["fun"] == "fit_loss_min":
        return lambda: param_tuning.fit_func_min(x, y, scale=q["scale"])
    return lambda: fitting.fit_parabola_min(x, y, scale=q["scale"])


def r_peak1(d, q):
    v = np.multiply.outer([1.0, 3.0, 2.0], np.ones([2] * (q["dims"] - 1)))
    v, x = d.lend(v), d.lend(np.arange(q["xs"]) - 1.0) if q["xs"] else None
    return lambda: fitting.refine_max_position_1d(v, x)


def r_peak2(d, q):
    v = np.multiply.outer([1.0, 3.0, 2.0], [1.0, 3.0, 2.0, 1.0])
    v = d.lend({1: v[0], 2: v, 3: v[None]}[q["dims"]])
    y, x = (d.lend(np.arange(n) - 1.0) if n else None for n in (q["ys"], q["xs"]))
    return lambda: fitting.refine_max_position_2d(v, y, x)


def r_pair(d, q):
    a, b = d.data(*q["one"]), d.data(*q["two"]) if q["two"] else None
    if q["fun"] == "rotation":
        return (lambda: fitting.fit_image_rotation_and_scale(a, b)) if b is not None else None
    return lambda: post.compute_frc(a, b, 0.5)


def r_disc(d, q):
    func = {"none": None, "number": 3}.get(q["func"], q["func"])
    target = 4.0 if q["target"] == "number" else q["target"]
    origin = d.data(q["origin"]) if q["origin"] else None
    return lambda: misc.circular_mask([6, 6], -1, vol_origin_zxy=origin, taper_func=func, taper_target=target)


def r_azimuth(d, q):
    img = d.data(*[5] * q["dims"])
    return lambda: misc.azimuthal_integration(img, axes=tuple(range(-q["axes"], 0)))


def r_crossing(d, q):
    a, b = d.lend([1.0, 2.0, 3.0, 4.0, 5.0]), d.lend([3.5, 3.25, 3.125, 3.0, 2.0])
    kw = {"none": {}, "from": {"x_lims": (1, None)}, "to": {"x_lims": (None, 4)}, "both": {"x_lims": (1, 4)}, "neither": {"x_lims": (None, None)}}[q["lims"]]
    return lambda: misc.lines_intersection(a, b, position=q["pos"], **kw)


def shifts(cls, d, v, w, u, angles):
    data = d.data(*[v] * (v > 0), w, u)
    return cls(data, d.lend(np.arange(angles) * 0.5), data_format="vwu" if v else "wu", verbose=False)


def r_angles(d, q):
    return lambda: shifts({"PRE": DetectorShiftsPRE, "XC": DetectorShiftsXC}[q["class"]], d, q["v"], q["w"], 6, q["angles"])


def r_vertical(d, q):
    s = shifts(DetectorShiftsPRE, d, q["v"], 3, 6, 3)
    return lambda: s.fit_v()


def r_method(d, q):
    if q["fun"] == "fit_u":
        s = shifts(DetectorShiftsPRE, d, 0, 4, 8, 4)
        return lambda: s.fit_u(method=q["name"])


def r_refs(d, q):
    s = shifts(DetectorShiftsXC, d, 3, q["w"], 8, q["w"])
    ref = d.data(3, q["refs"], 8)
    return lambda: s.fit_vu_accum_drifts(ref)


def r_masks(d, q):
    enc, dec = d.data(*q["enc"]), d.data(*q["dec"]) if q["dec"] else None
    return lambda: struct_illum.MaskCollection(enc, dec, mask_dims=q["dims"])


def r_device(d, q):
    return lambda mc=struct_illum.MaskCollection(d.data(5, 3, 4)): struct_illum.ProjectorGhostImaging(mc, backend=q["name"])


def r_pattern(d, q):
    g = struct_illum.MaskGeneratorPoint((3, 4))
    return lambda: g.generate_collection(0.5, shift_type=q["name"])


def r_ghost(d, q):
    mc = struct_illum.MaskCollection(d.data(5, *[q["n"]] * q["dims"]), mask_dims=q["dims"])
    p = projectors.ProjectorUncorrected([4, 4], d.lend([0.0, 0.5]), backend="skimage")
    return lambda: struct_illum.ProjectorGhostTomography(mc, p, backend="numpy")


def r_margin(d, q):
    data, m = d.data(2, 3, q["u"]), d.lend(q["margin"])
    return lambda: pre.background_from_margin(data, [m] if q["nested"] else m)


def r_orbits(d, q):
    t = np.arange(8) * np.pi / 4
    a, b = (d.lend([30 + k * 40 + 8 * np.sin(t), 80 + 50 * np.cos(t)]) if s == [2, 8] else d.data(*s) for k, s in enumerate((q["one"], q["two"])))
    return lambda: FitConeBeamGeometry(d.lend(q["size"]), a, b, verbose=False)


def r_option(d, q):
    if q["what"] == "domain":
        return lambda: phase.plot_filter_responses(8, 1.0, 1e4, 1e-4, 100.0, domain=q["name"])
    if q["what"] == "profile":
        return lambda: attenuation.plot_emission_line_attenuation("Ca", 10.0, 3.7, 0.1, line_shape=q["name"])
    if q["what"] == "filter":
        x = d.data(4, 4)
        return lambda: R.Regularizer_fft(0.1, fft_filter=q["name"]).initialize_sigma_tau(x)
    if q["what"] == "beam":
        return lambda: physics.pencil_beam_profile(1.0, 2.0, 3, beam_shape=q["name"])
    if q["what"] == "transfer":
        return lambda: phase.get_propagation_filter([8, 8], 1.0, 1e4, 1e-4, 100.0, filter_type=q["name"])
    if q["what"] == "fbp":
        return lambda: filters.FilterFBP(q["name"])
    if q["what"] == "bins":
        p = projectors.ProjectorUncorrected([4, 4], d.lend([0.0, 0.5]), backend="skimage")
        return lambda: filters.FilterMR(p, binning_type=q["name"])
    return lambda: attenuation.get_linear_attenuation_coefficient(q["name"], 10.0, 2.0, density=3.0)


def r_detector(d, q):
    dist = float(q["distance"] - 1)
    return lambda v=d.lend([1.0, dist]) if q["many"] else dist: DetectorXRF(float(q["surface"] - 1), v)


def r_emission(d, q):
    lines = {"name": "KA", "line": xrf.LinesSiegbahn.get_lines("KA")[0], "list": list(xrf.LinesSiegbahn.get_lines("KA")), "no lines": []}[q["lines"]]
    return lambda: {"rate": xrf.get_radiation_rate, "energy": xrf.get_energy}[q["what"]]("Fe", lines)


def r_material(d, q):
    fracs = [d.data(*s) for s in ((3, 3), q["shape"])[: q["fractions"]]]
    return lambda: materials.VolumeMaterial(fracs, [xraylib.CompoundParser(c) | {"density": 2.0} for c in ("Fe", "CaO")][: q["compositions"]], 1e-4)


def r_scatter(d, q):
    m = materials.VolumeMaterial([d.data(3, 3)], [xraylib.GetCompoundDataNISTByName("Water, Liquid")], 1e-4)
    kw = {**({"angle_rad": 1.5} if q["angle"] else {}), **({"detector": DetectorXRF(2.0, 3.0, 1.5)} if q["detector"] else {})}
    return lambda: m.get_compton_scattering(20.0, **kw)


def r_bias(d, q):
    return lambda ref=d.data(*q["ref"]), recs=d.data(*q["recs"]): post.compute_reconstruction_bias_variance_maps(ref, recs)


def r_snip(d, q):
    return lambda x=d.data(*[5] * q["dims"]): pre.snip(x, kernel_dims=None if q["kernel"] == 5 else q["kernel"], iterations=3)


def r_fbp(d, q):
    b = d.data(*[3, 6][-q["dims"] :])

    def ask():
        with projectors.ProjectorUncorrected([6, 6], [0.0, 0.5, 1.0], backend="skimage") as p:
            solvers.FBP()(p, b)

    return ask


def r_qr(d, q):
    enc, buckets = d.data(4, 2, 2), d.data(4)
    mc = struct_illum.MaskCollection(enc, {"none": None, "same": d.lend(enc), "other": d.data(4, 2, 2)}[q["decoding"]])
    return lambda: mc.get_qr_decomposition(buckets)


def r_exponent(d, q):
    der, chan = (np.inf if k == 0 else k for k in (q["der"], q["chan"]))
    if q["reg"] == "VTV":
        return lambda: R.Regularizer_VTV(0.1, pwise_der_norm=der, pwise_chan_norm=chan)
    return lambda: R.Regularizer_vl1wl(0.1, "haar", 1, pwise_lvl_norm=der, pwise_chan_norm=chan)


INITS = {"one": lambda hp: hp, "two": lambda hp, x: hp, "zero": lambda: 1.0, "not callable": 3.0}


def r_task(d, q):
    x = d.data(4)
    info = solvers.SolutionInfo("m", 1, None)

    def answer(v):
        return x * np.float32(v if np.isscalar(v) else 1), info

    execs = {"one": lambda hp: answer(hp), "none": lambda: answer(1.0), "not callable": 3.0, "with mask": lambda hp, b_test_mask=None: answer(hp)}

    def ask():
        with ThreadPoolExecutor(2) as ex:
            par = {"False": False, "2": 2, "True": True, "executor": ex, "str": "yes", "float": 1.5}[q["parallel"]]
            if q["cls"] == "LCurve":
                t = param_tuning.LCurve(lambda v: float(v.sum()), parallel_eval=par)
            else:
                t = param_tuning.CrossValidation((4,), num_averages=2, parallel_eval=par)
            if q["init"] != "none":
                t.task_init_function = INITS[q["init"]]
            if q["exec"] != "unset":
                t.task_exec_function = execs[q["exec"]]
            t.compute_loss_values([1.0, 2.0])

    return ask


def r_loss(d, q):
    return lambda: param_tuning.LCurve(INITS[q["loss"]])


def r_plot(d, q):
    g = models.get_prj_geom_parallel(geom_type="3d") if hasattr(models, "get_prj_geom_parallel") else None
    if q["det"]:
        g.det_shape_vu = d.lend([4, 5, 6][: q["det"]])
    if q["angles"] > 1:
        g = g.rotate([0.0, 0.5])
    v = models.VolumeGeometry(np.array([4, 4, 3][: q["vol"]]))
    return lambda: models.plot_projection_geometry(g, v)


def ask(make, rng, q):
    d = Desk(rng)
    do = make(d, q)
    if do is None:
        return None
    for a, _ in d.lent:
        a.flags.writeable = True
    err = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            do()
        except Exception as exc:
            err = exc
    plt.close("all")
    return err, d.untouched()


def run(ck):
    rng = np.random.default_rng(26000 + ck.seed)
    r = ck.tlc("Refuse", invariants=["EmitVerdict"], workers=4)
    todo = {}
    for e in r.emitted:
        todo.setdefault(e["req"]["form"], []).append(e)
    for form, es in sorted(todo.items()):
        es = sorted(es, key=str)
        for e in es:
            q = e["req"]
            got = ask(globals()["r_" + form], rng, q)
            if got is None:
                continue
            err, untouched = got
            ck.case(form, q)
            kind = type(err).__name__
            if e["ok"]:
                ck.expect(err is None, f"{form}.refused", {"request": q, "error": f"{kind}: {err}"[:300]}, key=f"{form}.refused.{kind}")
            else:
                ck.expect(isinstance(err, REFUSALS), f"{form}.answered", {"request": q, "error": kind}, key=f"{form}.answered.{kind}")
            ck.expect(untouched, f"{form}.written", {"request": q})
    run_guarded(ck, rng)


# ----------------------------------------------------------------------------- guarded objects (spec/Guarded.tla)
class Tuner:
    def __init__(self, cross, rng):
        x = rng.random(4).astype(np.float32)
        self.f = [None, lambda hp: 2.0 * hp, lambda hp: 3.0 * hp, lambda: 1.0, 7.0]
        info = solvers.SolutionInfo("m", 1, None)
        self.g = [None, lambda v, b_test_mask=None: (x * np.float32(v), info), lambda v, b_test_mask=None: (x + np.float32(v), info), lambda: (x, info), "seven"]
        self.t = param_tuning.CrossValidation((4,), num_averages=2, parallel_eval=False) if cross else param_tuning.LCurve(lambda v: float(v.sum()), parallel_eval=False)

    def do(self, op, a, b):
        if op == "init":
            self.t.task_init_function = self.f[a]
        elif op == "exec":
            self.t.task_exec_function = self.g[a]
        elif op == "read":
            return [self.g.index(self.t.task_exec_function)]
        else:
            return [np.array(v) for v in self.t.process_hp_vals([1.0, 2.0])[0]]

    def state(self):
        name = ["none", "one", "two"]
        try:
            second = name[self.g.index(self.t.task_exec_function)]
        except ValueError:
            second = "unset"
        return {"first": name[self.f.index(self.t.task_init_function)], "second": second}

    def reading(self):
        return []


class Reg:
    def __init__(self, name, rng):
        self.r = REGS[name]()
        self.x = [rng.random(s).astype(np.float32) for s in ((4, 4), (2, 4, 4))]
        self.now, self.dual = 0, None

    def do(self, op, a, b):
        if op == "init":
            self.now = a
            tau = self.r.initialize_sigma_tau(self.x[a - 1])
            self.dual = self.r.initialize_dual()
            return [np.array(tau)]
        if op == "zero":
            self.dual = self.r.initialize_dual()
            return [self.arr(self.dual)]
        x = self.x[max(self.now, 1) - 1]
        if op == "step":
            # what it was given stays as it is when it refuses
            dual = self.dual if self.dual is not None else np.zeros_like(x)
            self.r.update_dual(dual, x)
            return [self.arr(dual)]
        return [np.array(self.r.compute_update_primal(self.dual if self.dual is not None else np.zeros_like(x)))]

    @staticmethod
    def arr(v):
        return np.concatenate([np.ravel(k) for k in v]) if isinstance(v, (list, tuple)) else np.array(v)

    def state(self):
        try:
            self.r.initialize_dual()
            return {"shape": self.now}
        except ValueError:
            return {"shape": 0}

    def reading(self):
        return []


class Geom:
    def __init__(self, dims, rng):
        self.g = models.ProjectionGeometry.get_default_parallel(geom_type=f"{dims}d")
        self.v = rng.normal(size=(3, 2, 3))
        self.dims, self.lines = dims, 2 if dims == 3 else 1

    def do(self, op, a, b):
        if op == "det":
            self.g.set_detector_shifts_vu(self.v[0, : self.lines, :a].copy(), det_dist_y=self.v[1, 0, :b].copy() if b > 1 else 0.25)
        elif op == "src":
            self.g.set_source_shifts_vu(self.v[2, : self.lines, :a].copy())
        elif op == "tilt":
            axes = {1: [0, 1, 0], 2: [[0, 1, 0], [1, 0, 0]], 3: [0, 1]}[b]
            self.g.set_detector_tilt(self.v[0, 0, :a].copy() if a > 1 else 0.25, axes)
        else:
            return [self.g.project_displacement_to_detector(self.v[1, 1, :1].repeat(self.dims + b - 3))]

    def state(self):
        return {"det": len(self.g.det_pos_xyz), "src": len(self.g.src_pos_xyz)}

    def reading(self):
        return [np.array(getattr(self.g, k)) for k in ("det_pos_xyz", "det_u_xyz", "det_v_xyz", "src_pos_xyz", "rot_dir_xyz")]


class Spectrum:
    def __init__(self, rng):
        self.t = operators.TransformSVD((2, 4, 4), axes_rows=(0,), axes_cols=(1, 2))
        self.x = rng.random((2, 2, 4, 4)).astype(np.float32)
        self.held = 0

    def do(self, op, a, b):
        if op == "direct":
            y = self.t(self.x[a - 1])
            self.held, self.y = a, y
            return [np.array(y)]
        return [np.array(self.t.T(np.ones(self.t.adj_shape, dtype=np.float32)))]

    def state(self):
        return {"held": self.held}

    def reading(self):
        return []


MAKES = {
    "tuner": [lambda rng: Tuner(False, rng), lambda rng: Tuner(True, rng)],
    "regularizer": [lambda rng, k=k: Reg(k, rng) for k in ("TV2D", "HubTV2D", "smooth2D", "lap2D", "l1swl", "l12swl-n", "l1dwl", "Hub-dwl", "fft", "TNV", "VTV", "lnswl-n", "vl1wl-n")],
    "geometry": [lambda rng: Geom(2, rng), lambda rng: Geom(3, rng)],
    "spectrum": [Spectrum],
}


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def play(obj, cmd):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return obj.do(*cmd) or [], None
        except Exception as exc:
            return None, exc


def run_guarded(ck, rng):
    depth = {"tuner": 4, "regularizer": 5, "geometry": 3, "spectrum": 4} if ck.thorough else {"tuner": 3, "regularizer": 4, "geometry": 3, "spectrum": 4}
    r = ck.tlc("Guarded", {"Depth": depth}, invariants=["RefusedIsStutter", "EmitSession"], properties=["RefusedKeeps"], workers=4)
    todo = {}
    for e in r.emitted:
        todo.setdefault(e["kind"], []).append(e["hist"])
    for kind, hs in sorted(todo.items()):
        # sessions that try something in vain, the longest part of them used
        hs = sorted((h for h in hs if not all(s["ok"] for s in h)), key=str)
        for k in rng.permutation(len(hs))[: 3000 if ck.thorough else 500]:
            make, seed = MAKES[kind][k % len(MAKES[kind])], int(rng.integers(2**31))
            loud, quiet = make(np.random.default_rng(seed)), make(np.random.default_rng(seed))
            plan = [[*s["cmd"], s["ok"]] for s in hs[k]]
            ck.case("guarded-" + kind, plan)
            for n, s in enumerate(hs[k]):
                info = {"session": plan, "at": n + 1, "object": int(k % len(MAKES[kind]))}
                got, err = play(loud, s["cmd"])
                if s["ok"]:
                    want, err2 = play(quiet, s["cmd"])
                    if not ck.expect(err is None and err2 is None, f"{kind}.refused", {**info, "error": str(err or err2)[:200]}, key=f"{kind}.refused.{s['cmd'][0]}"):
                        break
                    ck.expect(same(got, want), f"{kind}.answer", info, key=f"{kind}.answer.{s['cmd'][0]}")
                elif not ck.expect(isinstance(err, REFUSALS), f"{kind}.accepted", {**info, "error": type(err).__name__}, key=f"{kind}.accepted.{s['cmd'][0]}"):
                    break
                ck.expect(loud.state() == s["obj"], f"{kind}.state", {**info, "state": loud.state(), "expected": s["obj"]}, key=f"{kind}.state.{s['cmd'][0]}")
                ck.expect(same(loud.reading(), quiet.reading()), f"{kind}.kept", info, key=f"{kind}.kept.{s['cmd'][0]}")
