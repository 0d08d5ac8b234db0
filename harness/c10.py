"""C10: attenuation maps (spec/Attenuation.tla)."""

import contextlib
import io
import itertools
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
import vf
from corrct import _projector_backends as pb
from corrct import projectors
from corrct.physics.attenuation import AttenuationVolume
from corrct.physics.xrf import DetectorXRF
from sched_vf import MatBackend, shuffled

INV = ["Probability", "Independent", "StraightBeam", "BinnedProbability", "EmitAll"]


def num(v):
    return np.format_float_positional(float(v), unique=True, trim="-")


def gen(rng, thorough):
    nz = int(rng.integers(1, 3)) if rng.random() < 0.2 else 0
    ny = int(rng.integers(1, 5))
    nx = ny if rng.random() < 0.6 else int(rng.integers(1, 5))
    shape = ([nz] if nz else []) + [ny, nx]
    na = int(rng.integers(1, 4))
    which = int(rng.integers(1, 4))
    vol = [(rng.integers(0, 9, size=shape) / 8.0) * (rng.random(shape) < 0.7) for _ in range(2)]
    inc = vol[0] if which & 1 else None
    emi = vol[1] if which & 2 else None
    rot = rng.uniform(-3.2, 6.4, size=na) if rng.random() < 0.7 else rng.integers(-2, 5, size=na) * (np.pi / 4)
    nd = int(rng.integers(1, 4))
    sub = int(rng.integers(1, 4))
    dets, det = [], []
    form = ["list", "array", "scalar", "int"][rng.integers(4)] if rng.random() < 0.5 else "det"
    for _ in range(nd):
        a = float(rng.uniform(-3.2, 3.2)) if rng.random() < 0.6 else float(rng.integers(-2, 3) * np.pi / 2)
        half = 0
        if form == "int":
            a = float(rng.integers(-2, 3))
        if form == "det":
            s, d = float(rng.choice([0.0, 1.0, 4.0, 25.0])), float(rng.choice([1.0, 2.0, 10.0]))
            half = float(np.arctan(np.sqrt(s) / 2 / d))
            dets.append(DetectorXRF(surface_mm2=s, distance_mm=d, angle_rad=a) if s or rng.random() < 0.5 else a)
        else:
            dets.append(int(a) if form == "int" else a)
        det.append({"angle": num(a), "half": num(half), "sub": sub})
    if form == "array":
        dets = np.array(dets)
    elif form == "scalar":
        dets, det, nd = dets[0], det[:1], 1
    J = {"nz": nz, "ny": ny, "nx": nx, "inc": [] if inc is None else si.decs(inc), "emi": [] if emi is None else si.decs(emi),
         "rot": [num(a) for a in rot], "det": det}
    return J, {"inc": inc, "emi": emi, "rot": rot, "dets": dets, "sub": sub, "shape": shape, "nd": nd, "na": na}


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def selectors(rng, n):
    i = int(rng.integers(n))
    opts = [(None, slice(None)), (i, [i]), (-1, [-1]), (np.int64(i), [i]), (slice(i, n), slice(i, n)), ([i, 0], [i, 0]), (np.array([0, i]), [0, i]), ((0,), [0])]
    return opts[rng.integers(len(opts))]


def replay(ck, J, m, want, rng, binned=None):
    what = {"case": J, "detectors": str(m["dets"])}
    f32 = bool(rng.random() < 0.3)
    dtype = np.float64 if rng.random() < 0.6 else np.float32
    tol = 2e-5 if f32 or dtype == np.float32 else 1e-8
    inc, emi = (None if v is None else vf.laid(v.astype(np.float32 if f32 else float)) for v in (m["inc"], m["emi"]))
    keep = [None if v is None else v.copy() for v in (inc, emi)]
    rot = m["rot"] if rng.random() < 0.5 else list(m["rot"])
    perms = list(itertools.permutations(range(m["na"])))
    orders = [None, "plain"] + [perms[i] for i in rng.permutation(len(perms))[:2]]
    for order in orders:
        with shuffled(order) if isinstance(order, tuple) else contextlib.nullcontext(), contextlib.redirect_stdout(io.StringIO()):
            def build():
                av = AttenuationVolume(inc, emi, rot, m["dets"], emitted_sub_sampling=m["sub"], dtype=dtype)
                av.compute_maps(use_multithreading=order is not None, verbose=False)
                return av

            ok, av = ck.guard("maps", build, {"order": order, **what})
        if not ok:
            return
        got = av.get_maps()
        ck.expect(close(got, want, tol), "maps", lambda: {"order": order, **what, "got": got, "spec": want})
        ck.expect(got.dtype == dtype, "maps.dtype", lambda: {"got": str(got.dtype), "wanted": str(dtype), **what})
    for v, k in zip((inc, emi), keep):
        ck.expect(v is None or np.array_equal(v, k), "volumes-modified", what)
    # what is handed over to a projector
    angs = np.array([d["angle"] for d in J["det"]], float)
    for _ in range(3):
        (ri, rw), (di, dw) = selectors(rng, m["na"]), selectors(rng, m["nd"])
        w2 = {"rot_ind": str(ri), "det_ind": str(di), **what}
        ok, g = ck.guard("select", lambda: av.get_maps(rot_ind=ri, det_ind=di), w2)
        if ok:
            ck.expect(close(g, want[rw][:, dw], tol), "select", lambda: {**w2, "got": g, "spec": want[rw][:, dw]})
        ok, g = ck.guard("projector-args", lambda: av.get_projector_args(rot_ind=ri, det_ind=di), w2)
        if ok:
            ck.expect(close(g["att_maps"], want[rw][:, dw], tol), "projector-args.maps", w2)
            ck.expect(close(np.ravel(g["angles_detectors_rad"]), np.ravel(angs[dw]), 1e-6), "projector-args.angles", lambda: {**w2, "got": g["angles_detectors_rad"]})
    if binned is not None:
        (ri, rw), (di, dw) = selectors(rng, m["na"]), selectors(rng, m["nd"])
        w2 = {"rot_ind": str(ri), "det_ind": str(di), "binning": 2, **what}
        with contextlib.redirect_stdout(io.StringIO()):
            ok, g = ck.guard("binning", lambda: (av.get_maps(rot_ind=ri, det_ind=di, binning=2), av.get_projector_args(rot_ind=ri, det_ind=di, binning=2)["att_maps"]), w2)
        if ok:
            b = binned[rw][:, dw]
            ck.expect(close(g[0], b, tol) and close(g[1], b, tol), "binning", lambda: {**w2, "got": g[0], "spec": b})
            ck.expect(close(av.get_maps(), want, tol), "binning.maps-modified", w2)
    if J["ny"] == J["nx"] and J["ny"] > 1 and not any(d["half"] != "0" for d in J["det"]):
        n, nz = J["nx"], J["nz"]
        nvox = int(np.prod(m["shape"]))
        x = rng.integers(-8, 9, size=m["shape"]) / 4.0
        direct = bool(rng.random() < 0.5)
        rot32 = m["rot"].astype(np.float32)

        def proj():
            kw = {"att_in": inc, "att_out": emi} if direct else {}
            if not direct:
                kw = av.get_projector_args()
            return projectors.ProjectorAttenuationXRF(
                (n, n, nz) if nz else (n, n), rot32, backend=MatBackend([np.eye(nvox)] * m["na"], 0, nvox, False),
                **({**kw, "angles_detectors_rad": angs} if direct else kw), use_multithreading=bool(rng.random() < 0.5), verbose=False)

        ok, p = ck.guard("projector", proj, what)
        if ok and not nz:
            ok, f = ck.guard("projector.fp", lambda: p.fp(x), what)
            if ok:
                w = np.moveaxis(want, 0, 1).reshape(m["nd"], m["na"], nvox) * x.ravel()
                ck.expect(close(f, w if m["nd"] > 1 else w[0], max(tol, 2e-5)), "projector.fp", lambda: {**what, "x": x, "got": f, "spec": w})
    # a beam along one direction of one volume
    for v in (inc, emi):
        if v is not None:
            a = float(m["rot"][0])
            ok, t = ck.guard("invert", lambda: (pb.compute_attenuation(v, a, invert=True), pb.compute_attenuation(v, a + np.pi)), what)
            if ok:
                ck.expect(close(t[0], t[1], 1e-5), "invert", what)


def run(ck):
    rng = np.random.default_rng(10000 + ck.seed)
    num_ = 1500 if ck.thorough else 100
    jobs = vf.spread(lambda: gen(rng, ck.thorough), lambda g: vf.features(g[0]), num_, 5)
    parts = [list(range(o, num_, 6)) for o in range(6)]

    def one(part):
        return part, ck.tlc("Attenuation", files={"instances.json": [jobs[i][0] for i in part]}, invariants=INV, view="View", timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, parts))
    for part, r in results:
        seen = set()
        for e in r.emitted:
            J, m = jobs[part[e["iid"] - 1]]
            ck.expect(e["iid"] not in seen, "machinery", "several final maps")
            seen.add(e["iid"])
            want = np.array([[si.f(v).reshape(m["shape"]) for v in row] for row in e["maps"]])
            ck.case(f"{len(m['shape'])}D", {"case": J, "maps": e["maps"]})
            half = [n // 2 for n in m["shape"]]
            replay(ck, J, m, want, rng, np.array([[si.f(v).reshape(half) for v in row] for row in e["binned"]]) if e["binned"] else None)
