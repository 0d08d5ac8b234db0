"""C21: simulated data (spec/Simulate.tla)."""

import numpy as np
import xraylib

import solver_inst as si
import vf
from corrct import testing
from corrct.physics import xraylib_helper, xrf
from harness.c14 import fl, quiet, rnd
from harness.c19 import near

INV = ["Dimmer", "Beer", "Absent", "Triangle", "Rounded", "EmitAll"]
KINDS = {"sino": 30, "trans": 20, "phases": 24, "noise": 40, "power": 10, "pow2": 10}
PHASES = ("Air, Dry (near sea level)", "Ferric Oxide", "Calcium Oxide", "Calcium Carbonate")


def gen_acq(rng, J):
    n, num = int(rng.integers(2, 6)), int(rng.integers(1, 5))
    kw = {}
    start, end = 0.0, 180.0
    if rng.random() < 0.5:
        start, end = (round(float(rng.uniform(-90, 200)), 1) for _ in range(2))
        kw |= {"start_angle_deg": start, "end_angle_deg": end}
    flux, dwell = 1e9, 1.0
    if rng.random() < 0.6:
        flux, dwell = round(float(10 ** rng.uniform(0, 6)), 2), round(float(rng.uniform(0.1, 5)), 2)
        kw |= {"photon_flux": flux, "dwell_time_s": dwell}
    psf = None
    if n > 2 and rng.random() < 0.5:
        psf = rnd(rng, 3, 0.1, 1.0)
        kw["psf"] = psf
    if rng.random() < 0.3:
        kw["dtype"] = np.float64
    J |= {"n": n, "num": num, "start": si.dec(start), "end": si.dec(end), "flux": si.dec(flux), "dwell": si.dec(dwell), "psf": [] if psf is None else si.decs(psf), "vin": [], "vout": [], "det": [0]}
    return n, num, kw


def gen_noisy(rng, kw, J):
    """Random readings, in place of the expected ones: options and a verdict on them."""
    if rng.random() < 0.6:
        return None
    form, seed = int(rng.integers(3)), int(rng.integers(2**31))
    readout = round(float(np.sqrt(float(J["flux"]) * float(J["dwell"])) * rng.uniform(3, 30)), 2) if form else 0.0  # more than that of the counts
    if form != 1:
        kw["add_poisson"] = True
    if form:
        kw["readout_noise_std"] = readout

    def random(values, expected):
        values, w = np.asarray(values, float), np.asarray(expected, float)
        std = np.sqrt((w if form != 1 else 0) + readout**2)
        near_it = values.shape == w.shape and bool(np.all(np.abs(values - w) <= 8 * std + (6 if form != 1 else 0) + 3e-5 * w.max(initial=1)))
        counts = form != 0 or bool(np.all(values == np.round(values)))
        varied = form == 0 or values.size < 4 or bool(np.sqrt(np.mean(((values - w) / std) ** 2)) > 0.1)
        return near_it and counts and varied

    return seed, random


def seeded(noisy, fn):
    if noisy is not None:
        np.random.seed(noisy[0])
    return fn()


def gen_sino(rng):
    J = {}
    n, num, kw = gen_acq(rng, J)
    ph = rnd(rng, (n, n), 0.0, 2.0)
    which = int(rng.integers(4))
    nd = 1
    dets = [np.pi / 2]
    for bit, k in ((1, "in"), (2, "out")):
        if which & bit:
            v = (rng.integers(0, 9, size=(n, n)) / 8.0) * (rng.random((n, n)) < 0.7)
            J["v" + k] = si.decs(v)
            kw["vol_att_" + k] = v
    if which and rng.random() < 0.6:
        nd = int(rng.integers(1, 3))
        dets = [round(float(rng.uniform(-3, 3)), 2) for _ in range(nd)]
        kw["detectors_pos_rad"] = dets[0] if nd == 1 and rng.random() < 0.7 else np.array(dets) if rng.random() < 0.5 else dets
    bg = 0
    if rng.random() < 0.4:  # a background that does not vary
        bg = round(float(rng.uniform(0, 1)), 2)
        kw |= {"background_avg": bg, "background_std": 0.0}
    noisy = gen_noisy(rng, kw, J)
    J |= {"ph": si.decs(ph), "det": [np.format_float_positional(d) for d in dets], "bgavg": si.dec(bg)}

    def judge(r, got):
        w = np.array([[fl(l) for l in d] for d in r["s"]])
        w = w if nd > 1 else w[0]
        s, a, p, b = got
        top = np.abs(w).max()
        ok = {"reading": near(s / top, (w + float(r["bg"])) / top, 3e-5) if top else near(s, w + float(r["bg"]), 3e-5), "angles": near(a, fl(r["a"]), 1e-9),
              "phantom": near(p, fl(r["ph"]).reshape(n, n), 1e-6 * (1 + np.abs(fl(r["ph"])).max()) / (1 + np.abs(p).max())), "background": abs(b - float(r["bg"])) <= 3e-5 * (1 + abs(top) + float(r["bg"]))}
        if noisy is not None:
            ok["reading"] = noisy[1](s, w + float(r["bg"]))
        return ok

    return J, "sinogram", lambda: seeded(noisy, lambda: testing.create_sino(ph, num, **kw)), judge, [ph]


def gen_trans(rng):
    J = {}
    n, num, kw = gen_acq(rng, J)
    ph = rnd(rng, (n, n), 0.0, 0.7)
    J |= {"ph": si.decs(ph)}
    noisy = gen_noisy(rng, kw, J)

    def judge(r, got):
        w = np.array([fl(l) for l in r["s"]])
        fw = float(r["flat"])
        s, f, a, p = got
        if noisy is not None:
            return {"reading": noisy[1](s, w), "flat": noisy[1](f, np.full(w.shape, fw)), "angles": near(a, fl(r["a"]), 1e-9), "phantom": np.array_equal(p, ph)}
        return {"reading": near(s / fw, w / fw, 3e-5), "flat": f.shape == w.shape and np.allclose(f, fw, rtol=1e-6), "angles": near(a, fl(r["a"]), 1e-9), "phantom": np.array_equal(p, ph)}

    return J, "transmission", lambda: seeded(noisy, lambda: testing.create_sino_transmission(ph, num, **kw)), judge, [ph]


def gen_phases(rng):
    shape = tuple(int(v) for v in rng.integers(1, 5, size=2))
    x = rng.uniform(0, 1.0, size=shape).round(3)
    x[rng.random(shape) < 0.2] = 0.0
    for t in (0.1, 0.25, 0.5):
        x[np.abs(x - t) < 1e-6] += 0.01
    E = round(float(rng.uniform(9, 40)), 2)
    multi = bool(rng.random() < 0.6)
    voxel = 0.5
    kw = {}
    if not multi and rng.random() < 0.5:
        voxel = round(float(rng.uniform(0.1, 5)), 2)
        kw["voxel_size_um"] = voxel
    if E == 20.0 or rng.random() < 0.3:
        E = 20.0
    else:
        kw["in_energy_keV"] = E
    els = [["Ca", "Fe", "O", "C", "Ar", "Au"][k] for k in rng.permutation(6)[: int(rng.integers(1, 4)) if multi else 1]]
    lines = [["KA", "KB", "K", "LA"][k] for k in rng.integers(4, size=len(els))]
    one = len(set(lines)) == 1 and rng.random() < 0.7
    ang = None
    if multi and rng.random() < 0.6:
        ang = round(float(rng.uniform(0.1, 3)), 2)
        kw["detectors_pos_rad"] = ang

    def lib(f, *a):
        try:
            return f(*a)
        except ValueError:
            return 0.0

    zs = [xraylib.SymbolToAtomicNumber(e) for e in els]
    yields, outE = [], []
    for z, l in zip(zs, lines):
        ll = [k for k in xrf.LinesSiegbahn.lines if k.name.startswith(l)]
        yields.append(sum(lib(xraylib.CS_FluorLine_Kissel, z, k.indx, E) for k in ll))
        rr, ee = ([lib(f, z, k.indx) for k in ll] for f in (xraylib.RadRate, xraylib.LineEnergy))
        outE.append(sum(a * b for a, b in zip(rr, ee)) / sum(rr) if sum(rr) else 0.0)
    if min(outE) <= 0.2:  # no such line
        return None
    if ang is not None:
        outE.append(xraylib.ComptonEnergy(E, ang))
    cmp = []
    for c in PHASES:
        c = xraylib_helper.get_compound(c)
        ez = [int(z) for z in c["Elements"]]
        cmp.append({"density": si.dec(c["density"]), "parts": [[z, si.dec(float(m))] for z, m in zip(ez, c["massFractions"])], "total": si.decs(np.array([xraylib.CS_Total(z, E) for z in ez])),
                    "out": [si.decs(np.array([xraylib.CS_Total(z, e) for z in ez])) for e in outE], "compton": [] if ang is None else si.decs(np.array([xraylib.DCS_Compt(z, E, ang) for z in ez]))})
    J = {"x": si.decs(x), "cmp": cmp, "z": zs, "yield": si.decs(np.array(yields)), "voxel": si.dec(voxel)}
    if multi:
        em = lines[0] if one else lines if rng.random() < 0.5 else tuple(lines)
        if em != "KA":
            kw["em_lines"] = em
        if els != ["Ca", "Fe"]:
            kw["elements"] = els
        fn = lambda: testing.phantom_assign_concentration_multi(x, **kw)  # noqa: E731
    else:
        kw |= {"element": els[0], "em_line": lines[0]}
        fn = lambda: testing.phantom_assign_concentration(x, **kw)  # noqa: E731

    def judge(r, got):
        def v(a):
            return fl(a).reshape(shape)

        def eq(g, w):
            w = v(w)
            s = np.abs(w).max() or 1.0
            return np.shape(g) == shape and near(np.asarray(g) / s, w / s, 2e-5)

        y, a, o = got
        y, o = (y, o) if multi else ([y], [o])
        want = list(r["fluo"]) + ([] if ang is None else [r["compton"]])
        return {"attenuation": eq(a, r["att"]), "emitted": len(o) == len(r["out"]) and all(eq(g, w) for g, w in zip(o, r["out"])), "yield": len(y) == len(want) and all(eq(g, w) for g, w in zip(y, want))}

    return J, "phases", fn, judge, [x]


def gen_noise(rng):
    """Readings are recorded when the instances are made: the specification judges them."""
    n = int(rng.integers(20, 27))
    img = rnd(rng, (n, n), 0.5, 1.5) * (rng.random((n, n)) < 0.9)
    photons = float(rng.choice([40, 100, 1000, 2e4]))
    eff = float(rng.choice([1.0, 1.0, 0.5]))
    kw = {} if eff == 1.0 else {"detection_efficiency": eff}
    poisson = bool(rng.random() < 0.6)
    readout = 0.0 if rng.random() < 0.6 else float(rng.choice([1.0, 5.0]))
    bg = bool(rng.random() < 0.5)
    avg = std = 0.0
    if bg:
        avg = float(rng.choice([0.5, 1.0]))
        std = avg * 5e-2
        kw["background_avg"] = avg
        if rng.random() < 0.5:
            std = avg / 8
            kw["background_std"] = std
    if poisson:
        kw["add_poisson"] = True
    if readout:
        kw["readout_noise_std"] = readout
    if rng.random() < 0.3:
        kw["dtype"] = np.float64
    np.random.seed(int(rng.integers(2**31)))
    src = img.copy()
    noisy, clean, background = testing.add_noise(src, int(photons) if rng.random() < 0.3 else photons, **kw)
    J = {"img": si.decs(img), "photons": si.dec(photons), "eff": si.dec(eff), "poisson": poisson, "readout": si.dec(readout), "bg": bg, "bgavg": si.dec(avg), "bgstd": si.dec(std),
         "noisy": si.decs(noisy.astype(float)), "background": si.dec(float(background))}

    def judge(r, got):
        return {"clean": near(clean, fl(r["clean"]).reshape(n, n), 1e-6), "modified": np.array_equal(src, img), "dtype": noisy.dtype == kw.get("dtype", np.float32),
                **{k: r[k] for k in ("background", "mean", "variance", "counts", "added")}}

    return J, "noise", lambda: None, judge, []


def gen_power(rng):
    shape = tuple(int(v) for v in rng.integers(1, 5, size=int(rng.integers(1, 4))))
    x, y = rnd(rng, shape), rnd(rng, shape)
    if rng.random() < 0.2:
        y = x.copy()

    def judge(r, got):
        return {"powers": near(np.array(got), np.array([float(r["v"]), float(r["e"])]), 1e-9)}

    return {"x": si.decs(x), "y": si.decs(y)}, "error-power", lambda: testing.compute_error_power(x, y), judge, [x, y]


def gen_pow2(rng):
    x = rng.integers(-50, 200, size=int(rng.integers(1, 5))) if rng.random() < 0.5 else rng.uniform(-50, 200, size=int(rng.integers(1, 5))).round(2)
    p = int(rng.integers(0, 6))
    arg = x if x.size > 1 else x[0].item()

    def judge(r, got):
        return {"rounded": np.array_equal(np.ravel(got), r["r"]) and np.shape(got) == np.shape(arg)}

    return {"x": si.decs(x.astype(float)), "p": p}, "round-up", lambda: testing.roundup_to_pow2(arg, p), judge, []


GEN = {"sino": gen_sino, "trans": gen_trans, "phases": gen_phases, "noise": gen_noise, "power": gen_power, "pow2": gen_pow2}


def run(ck):
    rng = np.random.default_rng(21000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        def draw():
            return ck.guard(kind, lambda: quiet(lambda: GEN[kind](rng)), {"kind": kind})

        for ok, job in vf.spread(draw, lambda g: vf.features(g[1][0]) if g[0] and g[1] is not None else {}, num * (20 if ck.thorough else 3), 2):
            if ok and job is not None:
                jobs.append(({"kind": kind, **job[0]}, kind, *job[1:]))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Simulate", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6, timeout=800)
    for e in r.emitted:
        J, kind, what, fn, judge, inputs = jobs[order[e["iid"] - 1]]
        ck.case(kind, {"case": J, "result": e["r"]} if kind != "noise" else None)
        keep = [a.copy() for a in inputs]
        ok, got = ck.guard(what, lambda: quiet(fn), J)
        if not ok:
            continue
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
        for name, good in judge(e["r"], got).items():
            ck.expect(bool(good), f"{what}.{name}", lambda: {**J, "got": str(got), "spec": e["r"]})
    # no scattering table at angle zero: told, rather than volumes without voxels
    ck.case("refusals")
    try:
        y, _, o = quiet(lambda: testing.phantom_assign_concentration_multi(np.full((2, 2), 0.7), detectors_pos_rad=0.0))
        ck.expect(np.shape(y[-1]) == (2, 2) == np.shape(o[-1]), "phases.angle-zero", lambda: {"shape": np.shape(y[-1])})
    except ValueError:
        pass
