"""C09: projectors (spec/Projector.tla)."""

from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
import vf
from corrct import models, projectors
from sched_vf import MatBackend, ShuffledPool, shuffled

INV = ["Adjointness", "CollapseKeepsTotal", "EmitAll"]
def q(rng, shape, lo=-8):
    return rng.integers(lo, 9, size=shape) / 4.0


def gen(rng, j, device=None):
    """``device`` tells of a projector on a device, for the given volume."""
    kind = "sk" if j % 3 == 0 and device is None else "mat"
    n = int(rng.integers(2, 5))
    threeD = kind == "mat" and rng.random() < 0.4
    nz = int(rng.integers(1, 4)) if threeD else 0
    na = int(rng.integers(1, 5))
    attenuated = rng.random() < 0.6
    nd = int(rng.integers(1, 4)) if attenuated else 1
    if kind == "sk":
        nv, nu = 0, n
    elif threeD:
        nv, nu = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    else:
        nv, nu = 0, int(rng.integers(2, 6))
    dev = None
    if device is not None:
        nz = max(nz, 2) if threeD else 0
        dev = device(rng, threeD, n, nz, na)
        nz, nv, nu = dev["nz"] if threeD else 0, dev["nv"], dev["nu"]
    xs = (nz, n, n) if threeD else (n, n)
    nvox = int(np.prod(xs))
    line = max(nv, 1) * nu
    W = q(rng, (na, line, nvox), -2) if kind == "mat" else np.zeros((na, 0, 0))
    ang = np.float32(np.sort(rng.uniform(-3.2, 3.2, size=na)))
    if kind == "sk" and rng.random() < 0.3:
        ang[0] = 0
    if dev is not None:
        W, ang = dev["W"], dev["ang"]
    inten = q(rng, na, 1) if rng.random() < 0.6 else None
    psf = None
    pshape = ()
    if rng.random() < 0.4:
        k = int(rng.choice([1, 3])) if nu < 3 else 3
        if nv and k > 1 and rng.random() < 0.5:
            psf = q(rng, (3 if nv > 1 else 1, k))
            if psf.shape[0] == 1:
                psf = psf[0]
        elif k > 1:
            psf = q(rng, k)
        if psf is not None and nv:
            pshape = (1, *psf.shape) if psf.ndim == 1 else psf.shape
    att = rng.integers(1, 9, size=(na, nd, *xs)) / 8.0 if attenuated else None
    wdet = q(rng, nd, 1) if attenuated and rng.random() < 0.7 else None
    wscalar = attenuated and nd > 1 and rng.random() < 0.15
    if wscalar:
        wdet = np.full(nd, q(rng, 1, 1)[0])
    wang = None
    if attenuated and rng.random() < 0.6:
        wang = q(rng, (na, nd), 1)
        if rng.random() < 0.4:
            wang = np.repeat(wang[:, :1], nd, axis=1)
    # uncorrected projectors have nothing to be symmetric about
    symm = bool(rng.random() < 0.5) if attenuated else True
    x = q(rng, xs)
    y = q(rng, (nd, na, line))
    J = {"kind": kind, "n": n, "nv": nv, "nu": nu, "na": na, "nd": nd, "nvox": nvox,
         "W": [[si.decs(r) for r in w] for w in W], "ang": [repr(float(a)) if "e" not in repr(float(a)) else format(float(a), ".20f") for a in ang],
         "att": [] if att is None else [[si.decs(att[a, d]) for d in range(nd)] for a in range(na)],
         "wdet": si.decs(np.ones(nd) if wdet is None else wdet), "wang": [si.decs(r) for r in (np.ones((na, nd)) if wang is None else wang)],
         "inten": si.decs(np.ones(na) if inten is None else inten), "psf": [] if psf is None else si.decs(psf), "pshape": list(map(int, pshape)),
         "symm": symm, "x": si.decs(x), "y": [[si.decs(y[d, a]) for a in range(na)] for d in range(nd)]}
    mt = bool(rng.random() < 0.6)
    strict = False

    def mk(pool=None):
        backend = MatBackend(W, nv, nu, strict) if kind == "mat" else "skimage"
        geo = (n, n, nz) if threeD else (n, n)
        if rng.random() < 0.5:
            geo = models.VolumeGeometry(np.array(geo))
        if dev is not None:
            backend, geo = dev["backend"](), dev["geo"]
        kw = dict(dev["kw"] if dev is not None else {}, prj_intensities=inten if inten is None or rng.random() < 0.5 else list(inten), psf=psf, backend=backend)
        angs = list(map(float, ang)) if rng.random() < 0.5 else ang
        if att is None:
            return projectors.ProjectorUncorrected(geo, angs, create_single_projs=bool(rng.random() < 0.5) or dev is not None, **kw)
        wd = wdet if not wscalar else float(wdet[0])
        return projectors.ProjectorAttenuationXRF(
            geo, angs, att_maps=att.copy(), angles_detectors_rad=np.linspace(-1.5, 1.5, nd) if nd > 1 else 1.5,
            weights_detectors=wd, weights_angles=wang, is_symmetric=symm, use_multithreading=mt, verbose=False, **kw)

    return J, mk, x, y, {"xs": xs, "attenuated": attenuated, "mt": mt, "ang": ang, "psf": psf, "tol": 1e-4 if dev is not None else None}


def close(a, b, tol, mask=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    d = np.abs(a - b)
    if mask is not None:
        d = d[mask]
    return bool(np.all(d <= tol * (1 + (np.max(np.abs(b)) if b.size else 0))))


def decided(J, m, a):
    """Voxels whose projection is not on the very end of the detector line (there, a rounding decides)."""
    n, h = J["n"], J["n"] // 2
    r, c = np.mgrid[:n, :n] - h
    pos = h + c * np.cos(float(m["ang"][a])) - r * np.sin(float(m["ang"][a]))
    return (np.abs(pos) > 1e-4) & (np.abs(pos - (n - 1)) > 1e-4)


def rows(P, nv, nu, nd):
    """Emitted lines [d][a] -> array (D, V, A, U) without the axes that do not exist."""
    A = np.array([[si.f(line).reshape([nv, nu] if nv else [nu]) for line in det] for det in P])  # D, A, (V,) U
    A = np.moveaxis(A, 1, -2)
    return A if nd > 1 else A[0]


def replay(ck, J, mk, x, y, m, vals, hist, rng):
    nv, nu, na = J["nv"], J["nu"], J["na"]
    what = {"case": {k: v for k, v in J.items() if k not in ("W", "x", "y")}, "multithreading": m["mt"], "history": hist}
    sk = J["kind"] == "sk"
    tol = m["tol"] or (2e-5 if sk else 1e-10)
    ok, p = ck.guard("build", mk, what)
    if not ok:
        return
    coll = False
    vshape = [nv, nu] if nv else [nu]
    kept = []
    for step, op in enumerate(hist):
        nd = 1 if coll else J["nd"]
        v = vals[coll]
        yy = np.moveaxis(y.reshape(J["nd"], na, *vshape), 1, -2)  # D, (V,) A, U
        yy = yy[:1] if coll else yy
        ydat = vf.laid(yy.copy() if nd > 1 else yy[0].copy())
        xx = vf.laid(x.copy())
        tag = {"step": step, **what}

        def cmp(clause, got, want, mask=None, t=tol):
            kept.append((np.asarray(got), np.array(got, copy=True), clause))
            ck.expect(close(got, want, t, mask), clause, lambda: {"case": tag, "x": x, "y": ydat, "got": got, "spec": want})

        mask_all = np.all([decided(J, m, a) for a in range(na)], axis=0) if sk else None
        if op == "enter":
            ok, r = ck.guard("enter", p.__enter__, tag)
            if ok:
                ck.expect(r is p, "enter.returns-itself", tag)
                if not sk:
                    ck.expect(p.projector_backend.is_ready, "enter.ready", tag)
        elif op == "leave":
            ok, _ = ck.guard("leave", lambda: p.__exit__(None, None, None), tag)
            if ok and not sk:
                ck.expect(not p.projector_backend.is_ready, "leave.disposed", tag)
        elif op == "collapse":
            ok, _ = ck.guard("collapse", p.collapse_detectors, tag)
            coll = True
        elif op == "fp":
            want = rows(v["fp"], nv, nu, nd)
            which = int(rng.integers(3))
            f32 = bool(rng.random() < 0.25)
            ok, r = ck.guard("fp", lambda: (p.fp if which else p)(xx.astype(np.float32) if f32 else xx), tag)
            if ok:
                cmp("fp", r, want, t=max(tol, 3e-5) if f32 else tol)
            if rng.random() < 0.15:  # linear, also for integer volumes
                xi = np.rint(4 * x).astype([int, np.int16, np.int8][rng.integers(3)])
                ok, r = ck.guard("fp-integer", lambda: p.fp(xi), tag)
                if ok:
                    cmp("fp-integer", r, 4 * want, t=max(tol, 2e-5))
            if nd == 1 and rng.random() < 0.3:
                ok, r = ck.guard("matvec", lambda: p @ xx.ravel(), tag)
                if ok:
                    cmp("matvec", r, want.ravel())
        elif op == "bp":
            want = si.f(v["bp"]).reshape(m["xs"])
            ok, r = ck.guard("bp", lambda: p.bp(ydat), tag)
            if ok:
                cmp("bp", r, want, mask_all)
        elif op == "T":
            want = si.f(v["bp"]).reshape(m["xs"])
            ok, r = ck.guard("transpose", lambda: p.T(ydat), tag)
            if ok:
                cmp("transpose", r, want, mask_all)
            ok, r = ck.guard("transpose", lambda: p.T.T(xx), tag)
            if ok:
                cmp("transpose-twice", r, rows(v["fp"], nv, nu, nd))
            if nd == 1 and rng.random() < 0.3:
                ok, r = ck.guard("rmatvec", lambda: p.rmatvec(ydat.ravel()), tag)
                if ok:
                    cmp("rmatvec", np.reshape(r, m["xs"]), want, mask_all)
        elif op == "fpa":
            want = rows(v["fp"], nv, nu, nd)
            for a in rng.permutation(na)[:2]:
                ok, r = ck.guard("fp_angle", lambda: p.fp_angle(xx, int(a)), tag)
                if ok:
                    cmp("fp_angle", r, want[..., a, :])
        elif op == "bpa":
            for a in rng.permutation(na)[:2]:
                want = si.f(v["bpa"][a]).reshape(m["xs"])
                mask = decided(J, m, a) if sk else None
                line = ydat[..., a, :]
                if m["attenuated"]:
                    ok, r = ck.guard("bp_angle", lambda: p.bp_angle(ydat, int(a)), tag)
                    if ok:
                        cmp("bp_angle", r, want, mask)
                    ok, r = ck.guard("bp_angle-line", lambda: p.bp_angle(line, int(a), single_line=True), tag)
                    if ok:
                        cmp("bp_angle-line", r, want, mask)
                else:
                    ok, r = ck.guard("bp_angle", lambda: p.bp_angle(line, int(a)), tag)
                    if ok:
                        cmp("bp_angle", r, want, mask)
        elif op == "rep":
            ck.guard("repr", lambda: (repr(p), repr(p.projector_backend), p.get_pre_weights(), p.angles_rot_rad), tag)
            ck.expect(np.allclose(p.angles_rot_rad, m["ang"]), "angles", tag)
        ck.expect(np.array_equal(xx, x), f"{op}.volume-modified", lambda: {"case": tag})
        ck.expect(np.array_equal(ydat, yy if nd > 1 else yy[0]), f"{op}.data-modified", lambda: {"case": tag})
        for arr, cp, clause in kept:
            ck.expect(np.array_equal(arr, cp), f"{op}.earlier-result-modified", lambda: {"case": tag, "result of": clause})


def run(ck):
    rng = np.random.default_rng(9000 + ck.seed)
    num = 2400 if ck.thorough else 100
    third = -(-num // 3)
    sk, mat = (vf.spread(lambda j=j: gen(rng, j), lambda g: vf.features(g[0]), (2 if j else 1) * third, 5) for j in (0, 1))
    jobs = [g for k in range(third) for g in (sk[k], mat[2 * k], mat[2 * k + 1])][:num]
    for j, job in enumerate(jobs):
        job[0]["depth"] = 3 if j % 25 == 7 or (ck.thorough and j % 6 == 0) else 2 if j % 3 == 1 else 1
    parts = [list(range(o, num, 6)) for o in range(6)]

    def one(part):
        return part, ck.tlc("Projector", files={"instances.json": [jobs[i][0] for i in part]}, invariants=INV, timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, parts))
    with shuffled():
        for part, r in results:
            vals = {}
            for e in r.emitted:
                if "fp" in e:
                    vals.setdefault(part[e["iid"] - 1], {})[e["coll"]] = e
            for e in r.emitted:
                if "hist" in e:
                    i = part[e["iid"] - 1]
                    J, mk, x, y, m = jobs[i]
                    ShuffledPool.order = ["reverse", "odd"][rng.integers(2)]
                    ck.case(f"{J['kind']}-{'attenuated' if m['attenuated'] else 'plain'}", {"case": J, "history": e["hist"]})
                    replay(ck, J, mk, x, y, m, vals[i], e["hist"], rng)
