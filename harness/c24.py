"""C24: tuning of cone-beam geometries (spec/ConeBeam.tla), on a stand-in for the astra toolbox."""

import fake_astra

fake_astra.install()

import numpy as np

import solver_inst as si
from corrct import projectors, solvers
from corrct.alignment.cone_beam import tune_acquisition_geometry
from harness.c14 import fl, quiet
from harness.c18 import INV, NAMES, decf, real
from harness.c23 import hats

book = fake_astra.book


def scene(rng):
    nu, nv, na = int(rng.integers(3, 5)), int(rng.integers(2, 4)), int(rng.integers(6, 9))
    D = float(rng.integers(10, 25))
    g = {"theta": round(float(rng.uniform(-3, 3)), 2), "phi": round(float(rng.uniform(-3, 3)), 2), "eta": round(float(rng.uniform(-4, 4)), 2), "D": D,
         "R": round(D * float(rng.uniform(0.4, 0.7)), 1), "v0": round(float(rng.uniform(-1, 1)), 2), "u0": round(float(rng.uniform(-1, 1)), 2), "nv": nv, "nu": nu, "pix": 0.0}
    ang = np.linspace(0, 2 * np.pi, na, endpoint=False) + rng.uniform(0, 1)
    names = list(rng.permutation([k for k in NAMES if k not in ("nv", "nu", "pix", "D")])[: int(rng.integers(1, 4))])
    params = {}
    for k in names:
        n = int(rng.choice([3, 5, 4]))
        w = {"R": D / 20, "u0": 0.8, "v0": 0.8}.get(k, 6.0)
        v = np.linspace(-w, w, n) + rng.uniform(-w, w) / 4
        params[k] = v.round(2)
    true = dict(g)
    for k in names:
        true[k] = g[k] + float(rng.choice(params[k])) * 0.7
    return g, np.float32(ang).astype(float), params, true


def matrices(q, g, ang):
    """What a cone-beam geometry of the specification does to the volume."""
    r = float(q["ratio"])
    src, det, u, v = (fl(q[k])[None] / r for k in ("src", "det", "u", "v"))
    u1, v1 = u * r, v * r
    # detector pixels are 1 / ratio long, in voxels
    m = {"nd": 3, "phys": (1.0 * r, ang, src * r, det * r, u1, v1, np.array([0, 0, 1.0]), "cone", g["nv"], g["nu"], g["nu"], g["nv"])}
    return hats(m)


def projector(W, g, na):
    A = np.stack(W)  # angle, v u, vox
    A = A.reshape(na, g["nv"], g["nu"], -1).transpose(1, 0, 2, 3).reshape(-1, A.shape[-1])
    return projectors.ProjectorMatrix(A, (g["nv"], g["nu"], g["nu"]), (g["nv"], na, g["nu"]))


def run(ck):
    rng = np.random.default_rng(24000 + ck.seed)
    jobs = []
    for j in range(120 if ck.thorough else 30):
        g, ang, params, true = scene(rng)
        jobs.append({"g": g, "ang": ang, "params": params, "true": true, "cur": dict(g), "spread": np.inf, "mask": None})
    # the data is that of the true geometry
    r = ck.tlc("ConeBeam", files={"instances.json": [{"kind": "geom", "start": [], "g": decf(j["true"]), "center": True} for j in jobs]}, invariants=INV)
    for e in r.emitted:
        J = jobs[e["iid"] - 1]
        W = matrices(e["r"], J["g"], J["ang"])
        na = len(J["ang"])
        vol = rng.uniform(0, 1, size=(J["g"]["nv"], J["g"]["nu"], J["g"]["nu"]))
        P = projector(W, J["g"], na)
        y = P(vol)
        J["data"] = np.maximum(y + rng.normal(size=y.shape) * 0.03 * y.mean(), 0)
        if rng.random() < 0.5:
            m = rng.random(y.shape) > 0.1
            J["mask"] = m if rng.random() < 0.5 else m.astype(np.float32)
            J["data"] = np.where(m, J["data"], J["data"] + 5)  # hot pixels
    for stage in range(3):
        todo = [j for j in jobs if stage < len(j["params"]) and j["cur"] is not None]
        if not todo:
            break
        key = [list(j["params"])[stage] for j in todo]
        inst = [{"kind": "tune", "start": [], "g": decf(j["cur"]), "field": k, "vals": si.decs(j["params"][k]), "y": []} for j, k in zip(todo, key)]
        r = ck.tlc("ConeBeam", files={"instances.json": inst}, invariants=[*INV, "InRange"])
        for e in r.emitted:
            J, I = todo[e["iid"] - 1], inst[e["iid"] - 1]
            res = []
            for q in e["r"]:
                P = projector(matrices(q, J["g"], J["ang"]), J["g"], len(J["ang"]))
                s = solvers.SIRT(tolerance=0.0)
                _, info = quiet(lambda: s(P, J["data"], iterations=100, b_mask=J["mask"]))
                res.append(info.residuals[-1])
            I["y"] = si.decs(res)
            o = np.sort(res)
            J["spread"] = min(J["spread"], (o[1] - o[0]) / max(o[0], 1e-9))
            J.setdefault("res", []).append([float(v) for v in res])
        r = ck.tlc("ConeBeam", files={"instances.json": inst}, invariants=[*INV, "InRange"])
        for e in r.emitted:
            J = todo[e["iid"] - 1]
            J["cur"] = {k: float(v) for k, v in e["r"].items()}
            J["cur"].update(nu=J["g"]["nu"], nv=J["g"]["nv"])
    for J in jobs:
        if J["spread"] < 1e-3:  # the smallest residual is a matter of rounding
            continue
        book.reset()
        ck.case("tuning", {"case": {k: v for k, v in J.items() if k not in ("data", "mask")}})
        tag = {"geometry": J["g"], "params": J["params"], "masked": J["mask"] is not None, "residuals": J["res"]}
        init = real(J["g"])
        data, ang, vals = J["data"].copy(), J["ang"].copy(), {NAMES[k]: v.copy() for k, v in J["params"].items()}
        kw = {} if J["mask"] is None else {"data_mask": J["mask"]}
        p = vals if rng.random() < 0.5 else {k: list(map(float, v)) for k, v in vals.items()}
        ok, t = ck.guard("tune", lambda: quiet(lambda: tune_acquisition_geometry(init, data if rng.random() < 0.7 else data.tolist(), ang, p, verbose=False, **kw)), tag)
        if not ok:
            continue
        got = {k: float(getattr(t, v)) for k, v in NAMES.items()}
        for k in NAMES:
            span = np.ptp(J["params"][k]) if k in J["params"] else 0
            ck.expect(abs(got[k] - J["cur"][k]) <= (0.0021 + 0.01 * span if span else 1e-9), f"tuned.{'parameter' if span else 'other-field'}", {**tag, "field": k, "got": got, "spec": J["cur"]})
        ck.expect(init == real(J["g"]), "initial-modified", tag)
        ck.expect(np.array_equal(data, J["data"]) and np.array_equal(ang, J["ang"]) and all(np.array_equal(vals[NAMES[k]], v) for k, v in J["params"].items()), "input-modified", tag)
        ck.expect(not book.proj and not book.data and not book.wrong, "released", tag)
