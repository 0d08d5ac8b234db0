"""C20: X-ray physics (spec/Physics.tla)."""

import contextlib
import io

import numpy as np
import xraylib

import solver_inst as si
import vf
from corrct import physics
from corrct.physics import attenuation, materials, phase, units, xraylib_helper, xrf
from harness.c14 import fl, quiet, rnd
from harness.c19 import near

INV = ["Reciprocal", "MassTotal", "MeanInside", "BeamOk", "Uniform", "SmallStep", "EmitAll"]
KINDS = {"units": 20, "mat": 60, "lines": 20, "beam": 16, "prop": 24, "retrieve": 20}
LEN = ["km", "m", "cm", "mm", "um", "nm", "a"]
POW = ["GeV", "MeV", "keV", "eV", "meV", "ueV"]
NAMES = ["Fe", "H2O", "SiO2", "Cu", "CaCO3", "Water, Liquid", "Fe2O3", "Al", "Bone, Cortical (ICRP)"]


def rel(got, want, tol):
    g, w = np.asarray(got, float), np.asarray(want, float)
    return g.shape == w.shape and bool(np.all(np.abs(g - w) <= tol * np.abs(w)))


def gen_units(rng):
    x = (10.0 ** rng.uniform(-3, 3, size=int(rng.integers(1, 4)))).round(6)
    ul, ul2 = (LEN[k] for k in rng.integers(len(LEN), size=2))
    ue, ue2 = (POW[k] for k in rng.integers(len(POW), size=2))
    if rng.random() < 0.3:
        ul, ue = "m", "keV"
    kw = {} if (ul, ue) == ("m", "keV") else {"unit_wl": ul, "unit_en": ue}
    J = {"x": si.decs(x), "ul": ul, "ul2": ul2, "ue": ue, "ue2": ue2}
    arg = float(x[0]) if x.size == 1 else x
    top = physics if rng.random() < 0.3 else units

    def call():
        f = (units.energy_to_wlength, units.wlength_to_energy) if top is units else (physics.convert_energy_to_wlength, physics.convert_wlength_to_energy)
        return [g(arg, **kw) for g in f], units.ConversionMetric.convert(ul, ul2), units.ConversionEnergy.convert(ue, ue2)

    def judge(r, got):
        return {"wavelength": rel(np.ravel(got[0][0]), fl(r["wl"]), 1e-8), "energy": rel(np.ravel(got[0][1]), fl(r["en"]), 1e-8),
                "length-unit": rel(got[1], float(r["len"]), 1e-12), "energy-unit": rel(got[2], float(r["pow"]), 1e-12)}

    return J, "units", call, judge, [x]


def gen_mat(rng):
    nd = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, 5, size=nd))
    nm = int(rng.integers(1, 4))
    E = round(float(rng.uniform(8, 60)), 2)
    ang = round(float(rng.uniform(0.3, 2.8)), 2) if rng.random() < 0.7 else np.pi / 2
    cmps, comp = [], []
    own = False
    for _ in range(nm):
        name = NAMES[rng.integers(len(NAMES))]
        dens = None if rng.random() < 0.5 else round(float(rng.uniform(0.5, 9)), 2)
        c = xraylib_helper.get_compound(name, dens) if dens is not None else xraylib_helper.get_compound(name)
        base = {"given": dens is not None, "density": si.dec(dens or 0)}
        form = rng.integers(3)
        if form == 0 and dens is None:
            arg = name
        elif form == 1:  # a compound that the library does not know
            own = True
            els = [int(z) for z in rng.permutation([1, 8, 13, 26, 29])[: rng.integers(1, 4)]]
            w = rng.uniform(0.2, 1, size=len(els))
            w = (w / w.sum()).round(6)
            arg = {"name": "my own material", "Elements": els, "massFractions": list(w), "density": dens or 2.5}
            c, base = arg, {"given": True, "density": si.dec(dens or 2.5)}
        else:
            arg = c
        els = [int(z) for z in c["Elements"]]
        d = 0.0 if form == 1 else 1 - xraylib.Refractive_Index_Re(name, E, c["density"])
        cmps.append(arg)
        comp.append(base | {"parts": [[z, si.dec(float(m))] for z, m in zip(els, c["massFractions"])], "own": si.decs(np.array([xraylib.ElementDensity(z) for z in els])),
                            "total": si.decs(np.array([xraylib.CS_Total(z, E) for z in els])), "compton": si.decs(np.array([xraylib.DCS_Compt(z, E, ang) for z in els])), "delta": si.dec(d)})
    vals = [rnd(rng, shape, 0.0, 1.0) for _ in range(nm)]
    dts = [[np.float64, np.float32, bool, int][k] for k in rng.integers(4, size=nm)]
    vals = [np.round(v).astype(t) if t in (bool, int) else v.astype(t) for v, t in zip(vals, dts)]
    kw = {"dtype": [np.float64, np.float32][rng.integers(2)]} if rng.random() < 0.4 else {}
    z = int(rng.choice([p[0] for c in comp for p in c["parts"]])) if rng.random() < 0.8 else 47
    sym = xraylib.AtomicNumberToSymbol(z) if rng.random() < 0.5 else z
    fam = ["K", "KA", "KB", "LA", "ka", "L"][rng.integers(6)]
    lines = [l for l in xrf.LinesSiegbahn.lines if l.name.startswith(fam.upper())]

    def lib(f, *a):
        try:
            return f(*a)
        except ValueError:
            return 0.0

    yl, le, rr = ([lib(f, z, l.indx, *a) for l in lines] for f, a in ((xraylib.CS_FluorLine_Kissel, (E,)), (xraylib.LineEnergy, ()), (xraylib.RadRate, ())))
    if sum(rr) == 0:
        lines = lines[:1]
        yl, le, rr = yl[:1], [0.0], [1.0]
    la = fam if len(lines) > 1 and rng.random() < 0.4 else lines[0] if rng.random() < 0.3 else lines
    if isinstance(la, xrf.FluoLine):
        yl, le, rr = yl[:1], le[:1], [rr[0] or 1.0]
    noline = le == [0.0] or sum(r for r in rr) == 0 or max(le) == 0
    det, D, at = None, [], ang
    if rng.random() < 0.6:
        s = float(rng.choice([0.5, 10, 50, 200]))
        dist = round(float(rng.uniform(30, 120)), 1) if rng.random() < 0.7 else float(rng.integers(30, 90))
        da = int(dist) if dist == int(dist) and rng.random() < 0.7 else np.array(dist) if rng.random() < 0.2 else dist
        det = xrf.DetectorXRF(s, da) if ang == np.pi / 2 else xrf.DetectorXRF(s, da, ang) if rng.random() < 0.5 else xrf.DetectorXRF(surface_mm2=s, distance_mm=da, angle_rad=ang)
        D = [si.dec(s), si.dec(dist)]
        at = None if rng.random() < 0.5 else ang
    voxel = round(float(rng.uniform(0.001, 2.0 if rng.random() < 0.3 else 0.05)), 4) or 0.001
    if det is not None and voxel * 10 * max(shape) / 2 > 0.8 * float(dist):
        voxel = 0.01
    J = {"f": [si.decs(v.astype(float)) for v in vals], "cmp": comp, "voxel": si.dec(voxel), "energy": si.dec(E), "z": z, "det": D, "yield": si.decs(np.array(yl)), "lineE": si.decs(np.array(le)),
         "rates": si.decs(np.array(rr)), "shape": list(shape)}
    um = round(float(rng.uniform(0.5, 80)), 2)
    other = [None if rng.random() < 0.5 else round(float(rng.uniform(0.5, 9)), 2) for _ in cmps]
    J |= {"um": si.dec(um), "other": [[] if d is None else [si.dec(d)] for d in other]}

    def call():
        lin = [attenuation.get_linear_attenuation_coefficient(c, E, um, **({} if d is None else {"density": d})) for c, d in zip(cmps, other)]
        m = materials.VolumeMaterial(vals, cmps, voxel, **kw)
        out = {"pixel": lin, "attenuation": m.get_attenuation(E), "mass": m.get_element_mass_fraction(sym)}
        if not own:
            out["phase"] = m.get_phase_shift(E)
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            out["compton"] = m.get_compton_scattering(E, **({} if at is None else {"angle_rad": at}), **({} if det is None else {"detector": det}))
        out["warned"] = "parallax" in text.getvalue()
        out["fluo"] = m.get_fluo_production(sym, E, la, **({} if det is None else {"detector": det}))
        out["twice"] = m.get_attenuation(E)
        out["seen"] = 1.0 if det is None else det.solid_angle_sr
        out["density"] = [c["density"] for c in m.materials_compositions]
        return out

    def judge(r, got):
        def vol(k, tol=1e-5):
            return fl(r[k]).reshape(shape), tol

        ok = {"attenuation": near(got["attenuation"], *vol("att")) and near(got["twice"], *vol("att")), "mass": near(got["mass"], *vol("mass")),
              "compton": near(got["compton"][1], *vol("compton")) and rel(got["compton"][0], xraylib.ComptonEnergy(E, ang), 1e-9),
              "fluo": near(got["fluo"][1], *vol("fluo")), "pixel-attenuation": rel(got["pixel"], fl(r["lin"]), 1e-5), "solid-angle": rel(got["seen"], float(r["seen"]), 1e-9), "density": np.allclose(got["density"], fl(r["dens"]))}
        if not noline:
            ok["line"] = rel(got["fluo"][0], float(r["line"]), 1e-5)
        if not own:
            ok["phase"] = near(got["phase"], *vol("phase"))
        if abs(float(r["parallax"]) - 0.01) > 1e-4:
            ok["parallax"] = got["warned"] == (float(r["parallax"]) > 0.01)
        return ok

    return J, "material", call, judge, vals


def gen_lines(rng):
    names = [l.name for l in xrf.LinesSiegbahn.lines]
    p = names[rng.integers(len(names))][: rng.integers(0, 4)]
    arg = p.lower() if rng.random() < 0.4 else p
    J = {"names": [list(n) for n in names], "prefix": list(p)}

    def call():
        got = xrf.LinesSiegbahn.get_lines(arg)
        zs = [int(z) for z in rng.integers(20, 80, size=2)]
        return got, [(z, xrf.get_energy(z, got), xrf.get_radiation_rate(z, got)) for z in zs]

    def judge(r, got):
        w = [xrf.LinesSiegbahn.lines[k - 1] for k in r["l"]]
        ok = {"selected": list(got[0]) == w and all(getattr(xraylib, l.name + "_LINE") == l.indx for l in w)}
        for z, e, rr in got[1]:
            for l, a, b in zip(w, e, rr):
                for f, v in ((xraylib.LineEnergy, a), (xraylib.RadRate, b)):
                    try:
                        x = f(z, l.indx)
                    except ValueError:
                        x = 0.0
                    ok["values"] = ok.get("values", True) and abs(v - x) <= 1e-5 * (1 + abs(x))
        return ok

    return J, "lines", call, judge, []


def gen_beam(rng):
    shape = ["gaussian", "lorentzian", "sech**2"][rng.integers(3)]
    voxel = float(rng.choice([2, 3.3, 5, 10])) if rng.random() < 0.5 else round(float(rng.uniform(2, 12)), 1)
    size = int(rng.integers(1, 4))
    fwhm = round(voxel * float(rng.uniform(0.3, 3)), 2)
    J = {"shape": shape, "voxel": si.dec(voxel), "fwhm": si.dec(fwhm), "size": size}
    kw = {} if size == 1 and rng.random() < 0.5 else {"profile_size": size}
    if shape != "gaussian" or rng.random() < 0.3:
        kw["beam_shape"] = shape.upper() if rng.random() < 0.3 else shape

    def judge(r, got):
        w = fl(r["y"])
        return {"profile": got.shape == w.shape and bool(np.all(np.abs(got - w) <= 0.15 / voxel * 0.5 * w.max() + 0.003)), "unit-sum": abs(got.sum() - 1) < 1e-9, "symmetric": np.allclose(got, got[::-1])}

    return J, "beam", lambda: physics.pencil_beam_profile(voxel, fwhm, **kw), judge, []


def optics(rng):
    db = float(10 ** rng.uniform(0, 3))
    J = {"pix": si.dec(pix := round(float(rng.uniform(0.5, 3)), 2)), "dist": si.dec(dist := round(float(rng.uniform(1e3, 1e5)), 0)), "wave": si.dec(wave := round(float(rng.uniform(2e-5, 1e-4)), 6)),
         "db": si.dec(db := round(db, 2)), "filter": (kind := ["tie", "ctf"][rng.integers(2)])}
    return J, (pix, dist, wave, db), kind


def gen_prop(rng):
    J, args, kind = optics(rng)
    nd = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, {1: 12, 2: 6, 3: 4}[nd], size=nd))
    J |= {"shape": list(shape)}
    rf = bool(rng.random() < 0.5)
    kw = {"filter_type": kind.upper() if rng.random() < 0.2 else kind} if kind != "ctf" or rng.random() < 0.5 else {}
    if rf:
        kw["use_rfft"] = True
    if rng.random() < 0.7:
        kw["dtype"] = np.float64

    def judge(r, got):
        tol = 1e-9 if "dtype" in kw else 1e-5
        f = fl(r["f"]).reshape(shape)
        return {"fourier": near(got[0], f[..., : shape[-1] // 2 + 1] if rf else f, tol), "direct": near(got[1], fl(r["d"]).reshape(shape), tol), "dtype": all(g.dtype == kw.get("dtype", np.float32) for g in got)}

    return J, "propagation-filter", lambda: phase.get_propagation_filter(list(shape) if rng.random() < 0.5 else np.array(shape), *args, **kw), judge, []


def gen_retrieve(rng):
    J, args, kind = optics(rng)
    if kind == "ctf":  # away from the zeros of the transfer
        J["dist"] = si.dec(d := round(float(rng.uniform(1e2, 2e3)), 0))
        args = (args[0], d, *args[2:])
    shape = tuple(int(v) for v in rng.integers(1, 6, size=2))
    flat = bool(rng.random() < 0.2)
    n = 1 if rng.random() < 0.6 else int(rng.integers(1, 3))
    imgs = np.full((n, *shape), 1.7) if flat else rnd(rng, (n, *shape), 0.1)
    stack = n > 1 or rng.random() < 0.3
    J |= {"shape": list(shape), "imgs": [si.decs(k) for k in imgs], "flat": flat}
    kw = {} if kind == "tie" and rng.random() < 0.5 else {"filter_type": kind}
    x = imgs if stack else imgs[0]

    def judge(r, got):
        w = np.array([fl(k) for k in r["y"]]).reshape(imgs.shape)
        return {"image": near(got, w if stack else w[0], 3e-5)}

    return J, "retrieval", lambda: phase.apply_propagation_filter(x, *args, **kw), judge, [imgs]


GEN = {"units": gen_units, "mat": gen_mat, "lines": gen_lines, "beam": gen_beam, "prop": gen_prop, "retrieve": gen_retrieve}


def run(ck):
    rng = np.random.default_rng(20000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        def draw():
            return ck.guard(kind, lambda: GEN[kind](rng), {"kind": kind})

        for ok, job in vf.spread(draw, lambda g: vf.features(g[1][0]) if g[0] else {}, num * (20 if ck.thorough else 3), 3):
            if ok:
                jobs.append(({"kind": kind, **job[0]}, kind, *job[1:]))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Physics", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6, timeout=800)
    for e in r.emitted:
        J, kind, what, fn, judge, inputs = jobs[order[e["iid"] - 1]]
        ck.case(kind, {"case": J, "result": e["r"]})
        keep = [a.copy() for a in inputs]
        ok, got = ck.guard(what, lambda: quiet(fn), J)
        if not ok:
            continue
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
        for name, good in judge(e["r"], got).items():
            ck.expect(bool(good), f"{what}.{name}", lambda: {**J, "got": str(got), "spec": e["r"]})
    # ratio of the two parts of the refractive index
    for name in ("Fe", "H2O", "Water, Liquid"):
        for dens in (None, 1.3):
            E = float(rng.uniform(5, 90))
            ck.case("delta-beta", name)
            ok, got = ck.guard("delta-beta", lambda: quiet(lambda: phase.get_delta_beta(name, E, **({} if dens is None else {"density": dens}))), {"name": name, "E": E})
            d = dens or xraylib_helper.get_compound(name)["density"]
            if ok:
                ck.expect(rel(got, (1 - xraylib.Refractive_Index_Re(name, E, d)) / xraylib.Refractive_Index_Im(name, E, d), 1e-9), "delta-beta", {"name": name, "E": E, "got": got})
    ck.case("delta-beta", "curves")
    ok, got = ck.guard("delta-beta-curves", lambda: quiet(lambda: phase.get_delta_beta_curves(["Fe", "H2O"], (7.0, 31.0, 4), plot=False)), {})
    if ok:
        want = [[(1 - xraylib.Refractive_Index_Re(c, e, d)) / xraylib.Refractive_Index_Im(c, e, d) for e in (7.0, 15.0, 23.0, 31.0)] for c in ("Fe", "H2O") for d in (xraylib_helper.get_compound(c)["density"],)]
        ck.expect(len(got) == 2 and all(rel(g, w, 1e-9) for g, w in zip(got, want)), "delta-beta-curves", {"got": str(got), "spec": want})
    one, two = np.ones((2, 2)), np.ones((2, 3))
    for what, fn in (("lengths", lambda: materials.VolumeMaterial([one], ["Fe", "Cu"], 0.1)), ("empty", lambda: materials.VolumeMaterial([], [], 0.1)),
                     ("shapes", lambda: materials.VolumeMaterial([one, two], ["Fe", "Cu"], 0.1)), ("dims", lambda: materials.VolumeMaterial([one, np.ones(4)], ["Fe", "Cu"], 0.1)),
                     ("angle", lambda: materials.VolumeMaterial([one], ["Fe"], 0.1).get_compton_scattering(20.0)), ("surface", lambda: xrf.DetectorXRF(-1.0)),
                     ("distance", lambda: xrf.DetectorXRF(1.0, 0.0)), ("distances", lambda: xrf.DetectorXRF(1.0, np.array([3.0, -1.0]))), ("beam-shape", lambda: physics.pencil_beam_profile(1, 1, beam_shape="other")),
                     ("filter-type", lambda: phase.get_propagation_filter([4, 4], 1, 1, 1, 1, filter_type="other")), ("no-line", lambda: xrf.get_energy("Fe", []))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
    d2 = np.array([10.0, 20.0])
    ok, got = ck.guard("detector-distances", lambda: xrf.DetectorXRF(50.0, d2).solid_angle_sr, {})
    if ok:
        ck.expect(rel(got, 50 / (4 * np.pi * d2**2), 1e-9), "detector-distances", {"got": str(got)})
