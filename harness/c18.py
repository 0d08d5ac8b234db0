"""C18: cone-beam geometries and their calibration (spec/ConeBeam.tla)."""

import dataclasses

import numpy as np

import solver_inst as si
from corrct.alignment.cone_beam import ConeBeamGeometry, FitConeBeamGeometry
from harness.c14 import fl, quiet

INV = ["Framed", "Centered", "Recovered", "Centers", "Upright", "EmitAll"]
NAMES = {"theta": "theta_deg", "phi": "phi_deg", "eta": "eta_deg", "D": "D_pix", "R": "R_pix", "v0": "v0_pix", "u0": "u0_pix", "nv": "det_size_v_pix", "nu": "det_size_u_pix", "pix": "pix_size_um"}
INTS = ("nv", "nu")


def fields(rng, theta=True):
    D = float(rng.integers(1000, 4000))
    ang = lambda a: round(float(rng.uniform(-a, a)), 2)  # noqa: E731
    eta = ang(8) if rng.random() < 0.7 else 0.0
    if abs(eta) < 0.3:
        eta = 0.0
    return {"theta": ang(4) if theta else 0.0, "phi": ang(5) if rng.random() < 0.7 else 0.0, "eta": eta, "D": D, "R": float(rng.integers(300, int(0.7 * D))),
            "v0": ang(40), "u0": ang(40), "nv": int(rng.integers(100, 300)), "nu": int(rng.integers(100, 300)), "pix": round(float(rng.uniform(0, 80)), 1)}


def real(g):
    return ConeBeamGeometry(**{NAMES[k]: v for k, v in g.items()})


def decf(g):
    return {k: si.dec(v) for k, v in g.items()}


def gen_geom(rng):
    g = fields(rng)
    g["eta"] = round(float(rng.uniform(-180, 180)), 2)
    center = bool(rng.random() < 0.6)
    up = int(rng.integers(1, 4))

    def call():
        o = real(g)
        q = o.get_prj_geom() if center and up > 1 else o.get_prj_geom(translate_z_to_center=center)
        return o, q, o.get_vol_geom() if up == 1 else o.get_vol_geom(up_sampling=up)

    def judge(r, got):
        o, q, vg = got
        bad = [k for k, v in (("src", q.src_pos_xyz), ("det", q.det_pos_xyz), ("u", q.det_u_xyz), ("v", q.det_v_xyz)) if not np.allclose(np.ravel(v), fl(r[k]), rtol=1e-7, atol=1e-6)]
        if abs(float(np.ravel(q.pix2vox_ratio)[0]) - float(r["ratio"])) > 1e-7:
            bad.append("ratio")
        if list(np.ravel(q.det_shape_vu)) != [g["nv"], g["nu"]]:
            bad.append("shape")
        if list(np.ravel(q.rot_dir_xyz)) != [0, 0, 1] or q.geom_type != "cone":
            bad.append("rotation")
        if list(vg.shape_xyz) != [g["nu"] * up, g["nu"] * up, g["nv"] * up] or vg.vox_size != 1 / up:
            bad.append("volume")
        if o != real(g):
            bad.append("changed")
        return bad

    return {"g": decf(g), "center": center}, "geometry", call, judge


def gen_fit(rng):
    g = fields(rng, theta=False)
    e = 1 if rng.random() < 0.6 else -1
    r = round(float(rng.uniform(0.1, 0.25) * g["R"]), 1)
    z1 = -round(float(rng.uniform(0.12, 0.2) * g["R"]), 1)
    z2 = round(float(rng.uniform(0.04, 0.1) * g["R"]), 1) * e
    n = 2 * int(rng.integers(4, 10))
    axis = bool(rng.random() < 0.5)
    sep = (z2 - z1) * g["D"] / g["R"]
    tol = 1.1e-4 if axis else 1.1e-4 + np.rad2deg(0.015 / sep)
    size = [g["nv"], g["nu"]]
    center = bool(rng.random() < 0.5)
    J = {"g": decf(g), "center": center, "r": si.dec(r), "z1": si.dec(z1), "z2": si.dec(z2), "n": n, "w0": si.dec(round(float(rng.uniform(0, 6)), 3)), "dir": int(rng.choice([-1, 1])), "e": e, "tol": si.dec(tol)}
    meas = bool(rng.random() < 0.25)
    c = np.array(size)[:, None] / 2
    kw = {"verbose": False} if rng.random() < 0.8 else {}
    if rng.random() < 0.3:  # points without errors: the fits of least absolute differences are the same
        kw["use_l1_norm"] = True
    if g["pix"] and rng.random() < 0.5:
        kw["pix_size_um"] = g["pix"]

    def call_on(res):
        p1, p2, ax = (np.array([fl(q) for q in res[k]]).T + c for k in ("p1", "p2", "axis"))
        keep = [p1.copy(), p2.copy(), ax.copy()]
        f = FitConeBeamGeometry(np.array(size) if rng.random() < 0.5 else size, p1, p2, **({"points_axis": ax} if axis else {}), **kw)
        kf = {} if e == 1 and len(kw) >= 2 else {"e": e}
        if meas:
            kf["meas_D_pix"] = g["D"]
        o = f.fit(r=r, **kf)
        origin = f.prj_origin_vu
        # another fit, with the same ellipses, knows nothing of the one before
        first = {k: getattr(o, v) for k, v in NAMES.items()}
        kept_origin = np.array(origin)
        again = {**kf, "meas_D_pix": g["D"] * 1.1}
        fresh = FitConeBeamGeometry(np.array(size), p1, p2, **({"points_axis": ax} if axis else {}), **kw)
        o2, o3 = f.fit(r=2 * r, **again), fresh.fit(r=2 * r, **again)
        memory = [k for k, v in NAMES.items() if getattr(o2, v) != getattr(o3, v)]
        if not np.array_equal(f.prj_origin_vu, fresh.prj_origin_vu):
            memory.append("origin")
        memory += ["earlier " + k for k, v in NAMES.items() if getattr(o, v) != first[k]]
        if not np.array_equal(origin, kept_origin):
            memory.append("earlier origin")
        # and the first one again gives the same
        o4 = f.fit(r=r, **kf)
        memory += ["repeated " + k for k, v in NAMES.items() if getattr(o4, v) != first[k]]
        if not np.array_equal(f.prj_origin_vu, kept_origin):
            memory.append("repeated origin")
        swapped = "accepted"
        try:
            FitConeBeamGeometry(size, p2, p1, verbose=False)
        except ValueError:
            swapped = "refused"
        return o, kept_origin, swapped, memory, all(np.array_equal(a, b) for a, b in zip(keep, (p1, p2, ax)))

    def judge(res, got):
        o, origin, swapped, memory, kept = got
        w = np.array([g["D"], g["R"], g["v0"], g["u0"], g["phi"]])
        t = 1.2 * np.maximum(abs(fl(res["plus"]) - w), abs(fl(res["minus"]) - w)) + np.array([1e-5 * g["D"], 1e-5 * g["R"], 1e-3 + 1e-5 * g["D"], 1e-3 + 1e-5 * g["D"], 1e-3])
        if meas:
            t[0] = 1e-9
        v = np.array([o.D_pix, o.R_pix, o.v0_pix, o.u0_pix, o.phi_deg])
        bad = [k for k, a, b, d in zip(("D", "R", "v0", "u0", "phi"), v, w, t) if not abs(a - b) <= d]
        if not abs(o.eta_deg - g["eta"]) <= tol:
            bad.append("eta")
        if o.theta_deg != 0 or [o.det_size_v_pix, o.det_size_u_pix] != size or o.pix_size_um != kw.get("pix_size_um", 0.0):
            bad.append("other")
        if not np.allclose(np.ravel(origin), fl(res["axis"][1]), atol=1e-6 if axis else 0.05 * (abs(z1) + abs(z2)) / abs(z2 - z1)):
            bad.append("origin")
        if swapped != "refused":
            bad.append("swapped")
        bad += memory
        if not kept:
            bad.append("inputs")
        return bad

    return J, "calibration", call_on, judge


def gen_objects(rng, depth):
    start = [fields(rng), fields(rng)]
    menu = []
    for _ in range(3):
        f = str(rng.choice(list(NAMES)))
        rel = bool(rng.random() < 0.5)
        val = int(rng.integers(1, 9)) if f in INTS else round(round(float(rng.uniform(-3, 3)), 4) + 0.00003, 5)
        dec = -1 if f in INTS and rng.random() < 0.5 else [3, 3, 1, -1][rng.integers(4)]
        menu.append({"op": "update", "g": int(rng.integers(1, 4)), "field": f, "val": si.dec(val), "rel": rel, "dec": dec})
    f = str(rng.choice([k for k in NAMES if k not in INTS]))
    menu.append({"op": "tune", "g": int(rng.integers(1, 3)), "field": f, "vals": si.decs((rng.uniform(-2, 2, size=2).round(4) + 0.00003).round(5)), "rel": bool(rng.random() < 0.6), "dec": 3})
    menu.append({"op": "load", "g": 1, "src": int(rng.integers(2, 4))})
    return {"start": [decf(g) for g in start], "menu": menu, "depth": depth}, start


def replay(ck, J, start, e):
    heap = [real(g) for g in start]
    for o in e["hist"]:
        g = heap[o["g"] - 1]
        num = lambda v: int(v) if isinstance(v, int) and o["field"] in INTS else float(v)  # noqa: E731
        if o["op"] == "update":
            kw = {} if o["rel"] and o["dec"] == 3 else {"is_relative": o["rel"], "decimals": None if o["dec"] < 0 else o["dec"]}
            heap.append(g.update(NAMES[o["field"]], num(o["val"]), **kw))
        elif o["op"] == "tune":
            vals = [float(v) for v in o["vals"]]
            kw = {} if o["rel"] else {"is_relative": False}
            heap.extend(g.get_tuning_params(NAMES[o["field"]], vals if o["g"] == 1 else np.array(vals), **kw))
        else:
            g.from_json(heap[o["src"] - 1].to_json())
    bad = len(heap) != len(e["r"]["heap"])
    for g, w in zip(heap, e["r"]["heap"]):
        bad = bad or any(abs(getattr(g, NAMES[k]) - float(v)) > 1e-9 * (1 + abs(float(v))) for k, v in w.items())
        back = ConeBeamGeometry()
        bad = bad or any(float(v) != 0 for v in dataclasses.asdict(back).values())
        back.from_json(g.to_json())
        bad = bad or back != g or str(back) != str(g)
    return not bad


def run(ck):
    rng = np.random.default_rng(18000 + ck.seed)
    f = 8 if ck.thorough else 1
    insts, meta = [], []
    for _ in range(40 * f):
        J, *rest = gen_geom(rng)
        insts.append({"kind": "geom", "start": [], **J})
        meta.append(rest)
    for _ in range(30 * f):
        J, *rest = gen_fit(rng)
        insts.append({"kind": "fit", "start": [], **J})
        meta.append(rest)
    for _ in range(12 * f):
        J, start = gen_objects(rng, 3 if ck.thorough else 2)
        insts.append({"kind": "objects", **J})
        meta.append(start)
    r = ck.tlc("ConeBeam", files={"instances.json": insts}, invariants=INV, properties=["Kept"], workers=6)
    for e in r.emitted:
        J, m = insts[e["iid"] - 1], meta[e["iid"] - 1]
        kind = J["kind"]
        ck.case(kind, {"case": J, "hist": e["hist"], "result": e["r"]})
        if kind == "objects":
            ok, good = ck.guard("objects", lambda: quiet(lambda: replay(ck, J, m, e)), {"hist": e["hist"], "case": J})
            if ok:
                ck.expect(good, "objects", lambda: {"case": J, "hist": e["hist"], "spec": e["r"]})
            continue
        what, call, judge = m
        ok, got = ck.guard(what, lambda: quiet((lambda: call(e["r"])) if kind == "fit" else call), J)
        if ok:
            bad = judge(e["r"], got)
            ck.expect(not bad, what + "." + "+".join(bad), lambda: {**J, "got": str(got), "spec": e["r"]})
    refusals(ck, rng)


def refusals(ck, rng):
    p = np.stack([np.cos(np.arange(8) * np.pi / 4), 3 * np.sin(np.arange(8) * np.pi / 4)])
    g = ConeBeamGeometry()
    for what, fn in (("size", lambda: FitConeBeamGeometry((1, 2, 3), p, p)), ("points-1d", lambda: FitConeBeamGeometry((4, 4), p[0], p)), ("points-shape", lambda: FitConeBeamGeometry((4, 4), p, p.T)),
                     ("class", lambda: g.from_json('{"Other": {"theta_deg": 0}}')), ("two", lambda: g.from_json('{"ConeBeamGeometry": {}, "Other": {}}'))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
