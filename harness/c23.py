"""C23: backends on a device (spec/Backend.tla), and projectors on top of them (spec/Projector.tla), with a stand-in for the astra toolbox."""

import fake_astra

fake_astra.install()

import gc
from concurrent.futures import ThreadPoolExecutor

import numpy as np


import solver_inst as si
from corrct import _projector_backends as pb
from corrct import models
from harness import c09
from harness.c14 import quiet
from sched_vf import ShuffledPool, shuffled

INV = ["Released", "OneGeneration", "Conserved", "EmitAll"]
BACKENDS = [pb.ProjectorBackendASTRA, pb.ProjectorBackendDirectASTRA]
book = fake_astra.book


def num(v):
    v = float(v)
    return "0" if v == 0 else np.format_float_positional(v, unique=True, trim="-")


def rows(a):
    return [[num(v) for v in r] for r in np.atleast_2d(a)]


def scene(rng, nd=None, n=None, direct=None, simple=False, na=None, nz=None):
    """A volume, a detector and a set of angles; what the backend is told, and what this means."""
    nd = nd or int(rng.integers(2, 4))
    vox, mult = [(1.0, 1), (1.0, 1), (0.5, 2), (2.0, 1), (1 / 3, 3), (1.5, 2)][rng.integers(6)]
    if n is None:
        n = mult * int(rng.integers(1, 3 if mult == 2 else 2 if mult == 3 else 5))
        n = max(n, 2)
    else:
        vox = 1.0 if n % mult else vox
    nz = nz or (1 if nd == 2 else max(2, mult * int(rng.integers(1, 3))) if mult < 3 else 3)
    if nd == 3 and nz * vox != int(nz * vox):
        nz = mult * 2
    na = na or int(rng.integers(1, 4))
    ang = np.float32(rng.uniform(-3.2, 3.2, size=na).round(3))
    nu0, nv0 = int(np.floor(n * vox + 1e-9)), int(np.floor(nz * vox + 1e-9)) if nd == 3 else 1
    src, det, u, v = np.array([[0, -1.0, 0]]), np.zeros((1, 3)), np.array([[1.0, 0, 0]]), np.array([[0, 0, 1.0]])
    rot = (0.0, 0.0, -1.0)
    gt = "parallel"
    how = int(rng.integers(2 if simple else 5)) if not simple or rng.random() < 0.5 else 0
    kw = {}
    prj = None
    shape = None
    if how == 0:
        if rng.random() < 0.6:
            form = rng.integers(4)
            if form < 2:
                c = round(float(rng.normal()), 2)
                det = det + c * u
                kw["rot_axis_shift_pix"] = c if form else np.array([c])
            else:
                s = rng.normal(size=(2, na)).round(2)
                det = s[1][:, None] * u + (s[0][:, None] * v if form == 3 and nd == 3 else 0)
                kw["rot_axis_shift_pix"] = s if form == 3 and nd == 3 else s[1]
                if kw["rot_axis_shift_pix"].ndim == 1 and na == 1:
                    pass
    else:
        if rng.random() < 0.5:
            shape = [int(rng.integers(1, 6))] if nd == 2 else [int(rng.integers(1, 5)), int(rng.integers(1, 6))]
        rd = ["clockwise", "counter-clockwise", (0.0, 0.0, 1.0), (0.0, 0.6, 0.8)][rng.integers(4 if nd == 3 else 3)]
        rot = {"clockwise": (0, 0, -1.0), "counter-clockwise": (0, 0, 1.0)}.get(rd, rd) if isinstance(rd, str) else rd
        if nd == 3 and how >= 3:
            gt = "cone"
            dist = float(n * vox + nz * vox) * float(rng.choice([1.5, 3.0, 8.0]))
            src = np.array([[0, -dist, 0]])
            prj = models.get_prj_geom_cone(src_to_sam_dist=dist, rot_axis_dir=rd)
        else:
            prj = models.get_prj_geom_parallel(geom_type=f"{nd}d", rot_axis_dir=rd)
        if shape is not None:
            prj.set_detector_shape_vu(shape if len(shape) == 2 or rng.random() < 0.5 else shape[0])
        if rng.random() < 0.6:
            k = na if rng.random() < 0.5 else 1
            s = rng.normal(size=(nd - 1, k)).round(2)
            d = 0.0 if nd == 2 or rng.random() < 0.5 else round(float(rng.normal()), 2)
            prj.set_detector_shifts_vu(s, det_dist_y=d)
            det = s[-1][:, None] * u + (s[0][:, None] * v if nd == 3 else 0) + np.array([[0, d, 0]])
        if nd == 3 and rng.random() < 0.4:
            t = round(float(rng.uniform(-0.5, 0.5)), 2)
            c, s_ = np.cos(t), np.sin(t)
            prj.set_detector_tilt(t, tilt_axis=(0, 1, 0))
            R = np.array([[c, 0, s_], [0, 1, 0], [-s_, 0, c]])
            det, u, v = det @ R.T, u @ R.T, v @ R.T
    nv, nu = nv0, nu0
    if shape is not None:
        nv, nu = (shape[0], shape[1]) if nd == 3 else (1, shape[0])
    single = bool(rng.random() < 0.6)
    sizes = (nz, n, n) if nd == 3 else (n, n)
    x = rng.integers(-8, 9, size=sizes) / 4.0
    pshape = (nv, na, nu) if nd == 3 else (na, nu)
    y = rng.integers(-8, 9, size=pshape) / 4.0
    J = {"nd": nd, "n": n, "nz": nz, "vox": num(vox), "ang": [num(a) for a in ang], "gt": gt, "rot": [num(c) for c in rot], "src": rows(src), "det": rows(det),
         "u": rows(u), "v": rows(v), "nv": nv, "nu": nu, "single": single, "x": si.decs(x.ravel()),
         "y": [si.decs(np.ravel(y[..., a, :])) for a in range(na)]}
    vol = models.VolumeGeometry(np.array((n, n, nz) if nd == 3 else (n, n)), vox)
    return J, {"vol": vol, "ang": ang, "prj": prj, "kw": kw, "x": x, "y": y, "pshape": pshape, "single": single, "nd": nd,
               "phys": (vox, ang, src, det, u, v, np.array(rot), gt, nv, nu, n, nz)}


def set_geometry(b, m):
    b.initialize_geometry(m["vol"], m["ang"] if len(m["ang"]) > 1 else list(map(float, m["ang"])), prj_geom=m["prj"], create_single_projs=m["single"], **m["kw"])


MENU = ["ready", "close", "fp", "bp", "fpa", "bpa", "wrong", "fail-make", "fail-run", "free", "set"]
P = np.array([1, 2, 3, 2, 3, 2, 1, 2, 2, 1, 3.0])


def snap(m):
    g = m["prj"]
    return None if g is None else (g.geom_type, *(np.array(getattr(g, f)) for f in ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz", "rot_dir_xyz")),
                                   g.pix2vox_ratio, None if g.det_shape_vu is None else np.array(g.det_shape_vu))


def same(a, b):
    if a is None or b is None:
        return a is b
    return all((p is None) == (q is None) and (p is None or np.array_equal(p, q)) for p, q in zip(a, b))


def close(a, b, tol=1e-4):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def replay(ck, job, hist, states, res, rng, tag0):
    J, ms, cls, menu = job
    book.reset()
    samples = int(rng.integers(1, 4))
    b = cls(super_sampling=samples)
    m, want = ms[0], res[1]
    before = [snap(q) for q in ms]
    tag = {"backend": cls.__name__, "history": [menu[i - 1] for i in hist], **tag0}
    ok, _ = ck.guard("set", lambda: set_geometry(b, m), tag)
    if not ok:
        return
    kept = []
    for step in range(1, len(hist) + 1):
        o = menu[hist[step - 1] - 1]
        st = states[tuple(hist[:step])]
        op = o[0]
        what = {**tag, "step": step, "op": o}
        book.arm()
        x, y = m["x"].astype(np.float32), m["y"].astype(np.float32)
        if rng.random() < 0.3:
            x, y = x.astype(float), np.asfortranarray(y.astype(float))
        x0, y0 = x.copy(), y.copy()
        got = exp = None
        fault = None

        def do():
            nonlocal got, exp, m, want, b, fault
            if op == "set":
                m, want = ms[o[1] - 1], res[o[1]]
                set_geometry(b, m)
            elif op == "ready":
                b.make_ready()
            elif op == "close":
                b.dispose()
            elif op == "free":
                del b
                b = None
                gc.collect()
            elif op == "fp":
                got, exp = b.fp(x), np.stack([si.f(v).reshape(m["pshape"][:-2] + m["pshape"][-1:]) for v in want["fp"]], axis=-2)
            elif op == "bp":
                got, exp = b.bp(y), si.f(want["bp"]).reshape(m["x"].shape)
            elif op == "fpa":
                got, exp = b.fp(x, o[1] - 1), si.f(want["fp"][o[1] - 1]).reshape(m["pshape"][:-2] + m["pshape"][-1:])
            elif op == "bpa":
                got, exp = b.bp(y[..., o[1] - 1, :], o[1] - 1), si.f(want["bpa"][o[1] - 1]).reshape(m["x"].shape)
            elif op == "wrong":
                which = int(rng.integers(3))
                if which == 0:
                    b.fp(np.ones(np.array(m["x"].shape) + 1, np.float32))
                elif which == 1:
                    b.bp(np.ones(np.array(m["pshape"]) + (np.arange(len(m["pshape"])) == len(m["pshape"]) - 1), np.float32))
                else:
                    b.bp(np.ones([*m["pshape"][:-2], m["pshape"][-2] + 1, m["pshape"][-1]], np.float32))
            elif op == "fail-make":
                book.arm(create_projector=int(rng.integers(1, 2 + (len(m["ang"]) if m["single"] else 0))))
                [b.make_ready, lambda: b.fp(x), lambda: b.bp(y)][rng.integers(3)]()
            elif op == "fail-run":
                stage = "run" if cls is BACKENDS[1] else ["run", "link", "algorithm"][rng.integers(3)]
                book.arm(**{stage: int(rng.integers(1, 3)) if stage == "link" else 1})
                k = int(rng.integers(len(m["ang"]))) if m["single"] and rng.random() < 0.5 else None
                if rng.random() < 0.5:
                    b.fp(x, k)
                else:
                    b.bp(y if k is None else y[..., k, :], k)

        err = None
        if st["outcome"] == "ok":
            ok, _ = ck.guard(op, do, what)
            if not ok:
                return
        else:
            try:
                quiet(do)
            except Exception as e:  # noqa: BLE001
                err = e
            ck.expect(err is not None, f"{op}.{st['outcome']}", what)
            if st["outcome"] == "failed":
                ck.expect(isinstance(err, fake_astra.Fault), f"{op}.reported", lambda: {**what, "got": repr(err)})
            err = None
        ck.expect(len(book.proj) in st["alive"], f"{op}.projectors-on-device", lambda: {**what, "got": len(book.proj), "spec": st["alive"]})
        ck.expect(not book.data and not book.algo, f"{op}.data-on-device", lambda: {**what, "got": [list(book.data), list(book.algo)]})
        ck.expect(not book.wrong, f"{op}.misuse", lambda: {**what, "got": book.wrong})
        coarse = [(k, v) for h in book.proj.values() for k, v in h["opts"].items() if k.endswith("SuperSampling") and not (float(v).is_integer() and v >= samples)]
        ck.expect(not coarse, f"{op}.samples", lambda: {**what, "got": coarse, "asked": samples})
        if exp is not None:
            ck.expect(close(got, exp), f"{op}.result", lambda: {**what, "got": got, "spec": exp, "case": J["geoms"][st["cur"] - 1]})
            kept.append((got, got.copy(), op))
        ck.expect(np.array_equal(x, x0) and np.array_equal(y, y0), f"{op}.input-modified", what)
        for arr, cp, of in kept:
            ck.expect(np.array_equal(arr, cp), f"{op}.earlier-result-modified", {**what, "of": of})
        ck.expect(all(same(p, snap(q)) for p, q in zip(before, ms)), f"{op}.geometry-modified", what)
        if b is not None:
            ck.expect(list(b.get_prj_shape()) == list(m["pshape"]) and list(b.get_vol_shape()) == list(m["x"].shape), f"{op}.shapes",
                      lambda: {**what, "got": [list(b.get_prj_shape()), list(b.get_vol_shape())], "spec": [m["pshape"], m["x"].shape]})
    if b is not None:
        b.dispose()
        ck.expect(not book.proj and not book.wrong, "released-at-the-end", tag)


# ----------------------------------------------------------------------------- projectors on top
def rot_mat(axis, th):
    n = np.linalg.norm(axis)
    if n == 0:
        return np.eye(3)
    k = np.asarray(axis) / n
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    th = th * n
    return np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K


def hats(m):
    """The same as Mats of the specification, in double precision."""
    vox, ang, src, det, u, v, rot, gt, nv, nu, n, nz = m["phys"]
    z, r, c = np.meshgrid(*(vox * (np.arange(s) - (s - 1) / 2) for s in (nz, n, n)), indexing="ij")
    pts = np.stack([c.ravel(), r.ravel(), z.ravel()], axis=-1)
    out = []
    for a, th in enumerate(ang):
        R = rot_mat(rot, float(th))
        s, d, uu, vv = (R @ q[a if len(q) > 1 else 0] for q in (src, det, u, v))
        nn = np.cross(uu, vv)
        ray = pts - s if gt == "cone" else np.broadcast_to(s, pts.shape)
        p = pts + ray * ((d - pts) @ nn / (ray @ nn))[:, None] - d
        hu = np.maximum(0, 1 - np.abs((p @ uu + (nu - 1) / 2)[None] - np.arange(nu)[:, None]))
        hv = np.maximum(0, 1 - np.abs((p @ vv + (nv - 1) / 2)[None] - np.arange(nv)[:, None])) if m["nd"] == 3 else np.ones((1, len(pts)))
        out.append((hv[:, None] * hu[None]).reshape(nv * nu, -1))
    return np.stack(out)


def on_device(rng, threeD, n, nz, na):
    """What C09 needs to know of a projector on the device."""
    J, m = scene(rng, nd=3 if threeD else 2, n=n, nz=nz if threeD else None, na=na)
    cls = [None, *BACKENDS][rng.integers(3)]
    kw = dict(m["kw"])
    if m["prj"] is not None:
        kw["prj_geom"] = m["prj"]
    return {"W": hats(m), "nv": J["nv"] if threeD else 0, "nu": J["nu"], "nz": J["nz"], "ang": m["ang"], "geo": m["vol"], "kw": kw,
            "backend": lambda: "astra" if cls is None else cls(super_sampling=int(rng.integers(1, 3)))}


def run(ck):
    rng = np.random.default_rng(23000 + ck.seed)
    num_ = 400 if ck.thorough else 48
    jobs = []
    for j in range(num_):
        ng = 2 if j % 4 else 1
        sc = [scene(rng) for _ in range(ng)]
        sel = ["fp" if rng.random() < 0.7 else "bp", *rng.choice(MENU, size=5 if j % 3 else 4, replace=False, p=P / P.sum())]
        menu = []
        for o in dict.fromkeys(sel):
            menu.append([o, int(rng.integers(1, ng + 1))] if o == "set" else [o, 1 + int(rng.integers(min(len(s[0]["ang"]) for s in sc)))] if o in ("fpa", "bpa") else [o])
        J = {"geoms": [s[0] for s in sc], "menu": menu, "depth": 4 if ck.thorough or j % 6 == 0 else 3}
        jobs.append((J, [s[1] for s in sc], BACKENDS[j % 2], menu))
    parts = [list(range(o, num_, 6)) for o in range(6)]

    def one(part):
        return part, ck.tlc("Backend", files={"instances.json": [jobs[i][0] for i in part]}, invariants=INV, timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(one, parts))
    gc.collect()
    gc.freeze()  # the collections below look at what the cases leave behind
    for part, r in results:
        res, states = {}, {}
        for e in r.emitted:
            i = part[e["iid"] - 1]
            if "res" in e:
                res.setdefault(i, {})[e["geom"]] = e["res"]
            else:
                states.setdefault(i, {})[tuple(e["hist"])] = e
        for i in part:
            J, ms, cls, menu = jobs[i]
            for h in states.get(i, {}):
                if len(h) < J["depth"] and menu[h[-1] - 1][0] != "free":
                    continue
                ck.case(f"{cls.__name__[16:]}-{ms[0]['nd']}d", {"case": J, "history": h})
                replay(ck, jobs[i], list(h), states[i], res[i], rng, {"menu": menu, "instance": i})

    # the projectors that use them
    num_ = 1200 if ck.thorough else 90
    jobs = []
    for j in range(num_):
        job = c09.gen(rng, j, on_device)
        job[0]["depth"] = 3 if j % 25 == 7 or (ck.thorough and j % 6 == 0) else 2 if j % 3 == 1 else 1
        jobs.append(job)
    parts = [list(range(o, num_, 6)) for o in range(6)]

    def two(part):
        return part, ck.tlc("Projector", files={"instances.json": [jobs[i][0] for i in part]}, invariants=c09.INV, timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        results = list(ex.map(two, parts))
    gc.collect()
    gc.freeze()
    with shuffled():
        for part, r in results:
            vals = {}
            for e in r.emitted:
                if "fp" in e:
                    vals.setdefault(part[e["iid"] - 1], {})[e["coll"]] = e
            for e in r.emitted:
                if "hist" in e:
                    i = part[e["iid"] - 1]
                    J, mk, x, y, m = jobs[i]
                    book.reset()
                    ShuffledPool.order = ["reverse", "odd"][rng.integers(2)]
                    ck.case(f"projector-{'attenuated' if m['attenuated'] else 'plain'}", {"case": J, "history": e["hist"]})
                    c09.replay(ck, J, mk, x, y, m, vals[i], e["hist"], rng)
                    gc.collect()
                    ck.expect(not book.proj and not book.data and not book.wrong, "projector.released",
                              lambda: {"history": e["hist"], "got": [list(book.proj), list(book.data), book.wrong]})
