"""C13: structured illumination and ghost imaging (spec/Ghost.tla, spec/Masks.tla)."""

import contextlib
import io

import numpy as np

import solver_inst as si
import vf
from corrct import solvers, struct_illum as st
from corrct.projectors import ProjectorMatrix

INV = ["Consistent", "Orthonormal", "NormalEquations", "GtAdjoint", "EmitAll"]


def arr(rows, shape=None):
    a = np.array([[float(v) for v in r] for r in rows])
    return vf.laid(a if shape is None else a.reshape(-1, *shape))


def rows(a):
    return [si.decs(r) for r in np.asarray(a).reshape(len(a), -1)]


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def gen(rng):
    dims = int(rng.integers(1, 3))
    fov = tuple(int(n) for n in rng.choice([2, 3, 4] if rng.random() < 0.8 else [3, 3, 6], size=2)) if dims == 2 else (int(rng.integers(3, 9)),)
    npix = int(np.prod(fov))
    nb = int(rng.integers(2, npix + 3))
    k = int(rng.integers(1, 4))
    for _ in range(100):
        enc = rng.normal(size=(nb, npix)).round(2) if rng.random() < 0.5 else rng.random((nb, npix)).round(2)
        if np.linalg.cond(enc) < 50:
            break
        nb = max(2, nb - 1)
    sym = rng.random() < 0.7
    dec = enc if sym else rng.normal(size=enc.shape).round(2)
    menu = [{"op": "reorder", "k": int(rng.integers(-3, 6))}, {"op": "qr", "k": 0 if rng.random() < 0.5 else int(rng.integers(1, nb + 2))}, {"op": "abs", "k": 0}]
    if rng.random() < 0.6:
        menu.append({"op": "bin", "k": 2 if rng.random() < 0.5 else 3})
    tomo = []
    if rng.random() < 0.5:
        nv, nu = (1, fov[0]) if dims == 1 else fov
        nw, nx = int(rng.integers(2, 4)), nu if rng.random() < 0.6 else int(rng.integers(2, 5))
        nvol = nv * nx * nx
        R = rng.normal(size=(nv * nw * nu, nvol)).round(1)
        tomo = [{"R": rows(R), "nv": nv, "nw": nw, "nu": nu, "nx": nx, "vol": si.decs(rng.normal(size=nvol).round(2)), "bk": rows(rng.normal(size=(nw, nb)).round(2))}]
    return {"fov": list(fov), "enc": rows(enc), "dec": rows(dec), "sym": bool(sym), "imgs": rows(rng.normal(size=(k, npix)).round(2)),
            "noise": si.decs(rng.normal(size=nb).round(2) * (rng.random() < 0.7)), "menu": menu, "depth": int(rng.integers(1, 4)), "tomo": tomo}


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(b).max(initial=0)))


def run(ck):
    rng = np.random.default_rng(13000 + ck.seed)
    insts = vf.spread(lambda: gen(rng), vf.features, 150 if ck.thorough else 36, 5)
    r = ck.tlc("Ghost", files={"instances.json": insts}, invariants=INV, workers=4)
    spec = {}
    for e in r.emitted:
        spec[e["iid"], tuple(e["hist"])] = e
    for (iid, hist), e in sorted(spec.items()):
        replay(ck, insts[iid - 1], iid, hist, spec)
    refusals(ck)
    generators(ck, rng)


def step(ck, I, o, mc, bk, want, tag):
    """One derivation on the real objects; rows of a decomposition are compared up to their sign."""
    dims = len(I["fov"])
    if o["op"] == "reorder":
        kw = {} if dims == 2 else {"mask_dims": dims}
        enc, nbk = st.reorder_masks(mc.masks_enc, bk, o["k"], **kw)
        dec = enc if mc.masks_dec is mc.masks_enc else st.reorder_masks(mc.masks_dec, bk, o["k"], **kw)[0]
        return st.MaskCollection(enc, dec, mask_dims=dims), nbk
    if o["op"] == "abs":
        return st.ProjectorGhostImaging(mc, backend="numpy").absolute().mc, bk
    if o["op"] == "bin":
        return mc.bin_masks(o["k"]), bk
    nmc, nbk = mc.get_qr_decomposition(bk, **({"shift": o["k"]} if o["k"] else {}))
    q, w = nmc.masks_enc.reshape(len(nmc.masks_enc), -1), arr(want["enc"])
    if q.shape != w.shape:
        ck.violation("qr.shape", {**tag, "got": q.shape, "spec": w.shape})
        return nmc, nbk
    ck.expect(np.array_equal(nmc.masks_enc, nmc.masks_dec), "qr.decoding", tag)
    s = np.where((q * w).sum(axis=1) < 0, -1.0, 1.0)
    return st.MaskCollection(nmc.masks_enc * s.reshape(-1, *[1] * dims), mask_dims=dims), nbk * s


def replay(ck, I, iid, hist, spec):
    e = spec[iid, hist]
    dims = len(I["fov"])
    tag = {"fov": I["fov"], "masks": I["enc"], "imgs": I["imgs"], "history": [I["menu"][m - 1] for m in hist]}
    ck.case("collections", {"instance": I, "behaviour": e})
    enc = arr(I["enc"], I["fov"])
    mc = st.MaskCollection(enc, None if I["sym"] else arr(I["dec"], I["fov"]), mask_dims=dims)
    bk = arr(spec[iid, ()]["bk"])
    single = len(I["imgs"]) == 1
    if single:
        bk = bk[0]
    for n, m in enumerate(hist):
        o = I["menu"][m - 1]
        before = mc.masks_enc.copy(), mc.masks_dec.copy(), bk.copy()
        ok, res = ck.guard(f"{o['op']}", lambda: quiet(lambda: step(ck, I, o, mc, bk, spec[iid, hist[: n + 1]], tag)), tag)
        if not ok:
            return
        ck.expect(np.array_equal(before[0], mc.masks_enc) and np.array_equal(before[1], mc.masks_dec) and np.array_equal(before[2], bk), f"{o['op']}.inputs-modified", tag)
        mc, bk = res
    fov = tuple(e["fov"])
    tol = 1e-8
    ck.expect(tuple(mc.shape_fov) == fov and mc.num_buckets == len(e["enc"]) and mc.num_pixels == np.prod(fov) and tuple(mc.shape_shifts) == (len(e["enc"]),), "shapes",
              lambda: {**tag, "fov": mc.shape_fov, "shifts": mc.shape_shifts, "spec": fov})
    for what, got, want in (("masks_enc", mc.masks_enc, arr(e["enc"], fov)), ("masks_dec", mc.masks_dec, arr(e["dec"], fov)),
                            ("buckets", np.atleast_2d(bk), arr(e["bk"]))):
        ck.expect(close(got, want, tol), what, lambda: {**tag, "got": got, "spec": want})
    k = len(hist) % len(e["enc"])
    ck.expect(close(mc.get_mask([k]), arr(e["enc"], fov)[k], tol) and close(mc.get_mask([k], mask_encoding=False), arr(e["dec"], fov)[k], tol), "get_mask", tag)
    masks, dmasks = arr(e["enc"], fov), arr(e["dec"], fov)
    same = I["sym"]
    mc = st.MaskCollection(masks, None if same else dmasks, mask_dims=dims)
    scans = [a for a in range(2, len(masks)) if len(masks) % a == 0]
    grid = bool(scans) and len(hist) != 1  # buckets in a grid of positions: the same masks, with two axes of shifts
    if grid:
        shifts = (scans[-1], len(masks) // scans[-1])
        mc = st.MaskCollection(masks.reshape(*shifts, *fov), None if same else dmasks.reshape(*shifts, *fov), mask_dims=dims)
        ck.expect(tuple(mc.shape_fov) == fov and mc.num_buckets == len(masks) and tuple(mc.shape_shifts) == shifts, "shapes", lambda: {**tag, "shifts": (mc.shape_shifts, shifts), "buckets": mc.num_buckets})
        ck.expect(close(mc.get_mask((shifts[0] - 1, 1)), masks[(shifts[0] - 1) * shifts[1] + 1], tol), "get_mask", tag)
    ok, P = ck.guard("projector", lambda: quiet(lambda: st.ProjectorGhostImaging(mc if dims == 1 or not same or grid or len(hist) % 2 else masks, backend="numpy")), tag)
    if not ok:
        return
    ck.expect(tuple(P.dir_shape) == fov and tuple(P.adj_shape) == (len(masks),), "projector.shapes", lambda: {**tag, "got": (P.dir_shape, P.adj_shape)})
    imgs, fp, bks, bp = arr(e["imgs"], fov), arr(e["fp"]), arr(e["bk"]), arr(e["bp"], fov)
    kept = imgs.copy(), bks.copy()
    x = imgs[0]
    b1 = bks[0] + np.array([float(v) for v in I["noise"]])
    cond = np.linalg.cond(masks.reshape(len(masks), -1))
    calls = [("fp", lambda: P.fp(imgs[0]), fp[0]), ("fp", lambda: P(x), fp[0]), ("fp.product", lambda: P * x.ravel(), fp[0]),
             ("bp", lambda: P.bp(bks[0]), bp[0]), ("bp", lambda: P.T(bks[0]), bp[0]), ("bp.product", lambda: P.T * bks[0], bp[0].ravel()),
             ("absolute.fp", lambda: P.absolute()(x), np.abs(masks).reshape(len(masks), -1) @ x.ravel()),
             ("absolute.bp", lambda: P.absolute().T(bks[0]), (bks[0] @ np.abs(dmasks).reshape(len(masks), -1)).reshape(fov)),
             ("explicit", lambda: P.explicit(), masks.reshape(len(masks), -1)),
             ("fp", lambda: P(x), fp[0])]
    if len(imgs) > 1:
        calls += [("fp.images", lambda: P(imgs), fp), ("bp.images", lambda: P.T(bks), bp)]
    if cond < 1e4:
        rec, sca = arr([e["rec"]], fov)[0], arr([e["scaled"]], fov)[0]
        calls += [("least-squares", lambda: P.fbp(b1), rec), ("least-squares", lambda: P.fbp(b1, use_lstsq=True, adjust_scaling=False), rec),
                  ("scaling", lambda: P.fbp(b1, adjust_scaling=True), sca), ("scaling", lambda: P.adjust_sampling_scaling(rec), sca)]
    if not same and not np.array_equal(masks, dmasks):
        calls += [("cross-correlation", lambda: P.fbp(bks[0], use_lstsq=False), bp[0])]
    for what, fn, want in calls:
        ok, got = ck.guard(what, lambda: quiet(fn), tag)
        if ok:
            ck.expect(close(got, want, 1e-6 if "explicit" in what else tol * max(1.0, cond if cond < 1e4 else 1)), what, lambda: {**tag, "got": got, "spec": want})
    ck.expect(np.array_equal(kept[0], imgs) and np.array_equal(kept[1], bks), "projector.inputs-modified", tag)
    if e["gfp"]:
        tomography(ck, I, e, mc, cond, tag)


def tomography(ck, I, e, mc, cond, tag):
    T = I["tomo"][0]
    nv, nw, nu, nx = T["nv"], T["nw"], T["nu"], T["nx"]
    vs, ps = ([nx, nx], [nw, nu]) if len(I["fov"]) == 1 else ([nv, nx, nx], [nv, nw, nu])
    R = arr(T["R"])
    vol, bk = np.array([float(v) for v in T["vol"]]).reshape(vs), arr(T["bk"])
    ck.case("ghost-tomography", {"tomography": T})
    tag = {**tag, "tomography": T}

    def mk():
        return st.ProjectorGhostTomography(mc, ProjectorMatrix(R, vs, ps), backend="numpy")

    ok, G = ck.guard("tomography", lambda: quiet(mk), tag)
    if not ok:
        return
    gfp, gbp = arr(e["gfp"]), np.array([float(v) for v in e["gbp"]]).reshape(vs)
    ck.expect(list(G.dir_shape) == vs and list(G.adj_shape) == list(gfp.shape), "tomography.shapes", lambda: {**tag, "got": (G.dir_shape, G.adj_shape)})
    kept = vol.copy(), bk.copy()
    calls = [("tomography.fp", lambda: G.fp(vol), gfp), ("tomography.fp", lambda: G(vol), gfp), ("tomography.product", lambda: G * vol.ravel(), gfp.ravel()),
             ("tomography.bp", lambda: G.bp(bk), gbp), ("tomography.bp", lambda: G.T(bk), gbp), ("tomography.product", lambda: G.T * bk.ravel(), gbp.ravel())]
    if len(I["fov"]) == 1 and nu == nx and cond < 1e4:
        ims = arr(e["grec"])  # w, u
        calls.append(("tomography.fbp", lambda: G.fbp(bk), solvers.FBP()(ProjectorMatrix(R, vs, ps), ims)[0]))
        P = st.ProjectorGhostImaging(mc, backend="numpy")  # decided above: each angle is an image of its own
        for kw in ({"use_lstsq": False}, {"adjust_scaling": True}, {"use_lstsq": False, "adjust_scaling": True}):
            if kw.get("use_lstsq", True) or not I["sym"]:
                each = np.stack([quiet(lambda b=b: P.fbp(b, **kw)) for b in bk])
                calls.append(("tomography.fbp-options", lambda kw=kw: G.fbp(bk, **kw), solvers.FBP()(ProjectorMatrix(R, vs, ps), each)[0]))
    for what, fn, want in calls:
        ok, got = ck.guard(what, lambda: quiet(fn), tag)
        if ok:
            ck.expect(close(got, want, 1e-6), what, lambda: {**tag, "got": got, "spec": want})
    ck.expect(np.array_equal(kept[0], vol) and np.array_equal(kept[1], bk), "tomography.inputs-modified", tag)
    bad = ps[:-1] + [nu + 1]

    def wrong():
        return st.ProjectorGhostTomography(mc, ProjectorMatrix(np.ones((int(np.prod(bad)), int(np.prod(vs)))), vs, bad), backend="numpy")

    refused(ck, "refuse.tomography-shape", wrong, tag)


def refused(ck, clause, fn, tag):
    try:
        quiet(fn)
    except ValueError:
        return
    except Exception as exc:  # noqa: BLE001
        ck.violation(clause, {**tag, "raised": f"{type(exc).__name__}: {exc}"})
        return
    ck.violation(clause, {**tag, "returned": True})


def refusals(ck):
    m = np.ones((3, 2, 2))
    for what, fn in (("dims", lambda: st.MaskCollection(np.ones((2, 2)))), ("dec-dims", lambda: st.MaskCollection(m, np.ones((2, 2)))),
                     ("dec-stack", lambda: st.MaskCollection(m, np.ones((4, 2, 2)))), ("dec-fov", lambda: st.MaskCollection(m, np.ones((3, 2, 3)))),
                     ("qr-two-forms", lambda: st.MaskCollection(m, 2 * m).get_qr_decomposition(np.ones(3))),
                     ("shift-type", lambda: st.MaskGeneratorPoint([3, 3]).generate_collection(shift_type="other")),
                     ("backend", lambda: st.ProjectorGhostImaging(m, backend="other"))):
        ck.case("refusals", what)
        refused(ck, "refuse." + what, fn, {})


FRAC = [(1, 1), (1, 2), (1, 4), (3, 4), (1, 8), (5, 8)]


def generators(ck, rng):
    jobs = []
    for _ in range(120 if ck.thorough else 50):
        kind = ["point", "mura", "free", "point", "mura"][rng.integers(5)]
        num, den = FRAC[rng.integers(len(FRAC))]
        shift = ["sequential", "interval", "random"][rng.integers(3)] if kind != "free" else ["sequential", "random"][rng.integers(2)]
        tn, td = [(1, 1), (1, 2), (3, 4), (1, 8)][rng.integers(4)]
        res = [1.0, 0.5, 2.0][rng.integers(3)]
        ratio = 1.0
        if kind == "mura":
            base = int(rng.integers(1, 4))
            n = [4 * base + 1] * 2
            size = n[0] * res - (rng.integers(0, 7) / 2) * res  # any field of view that needs that many points
            mk = lambda size=size, res=res: st.MaskGeneratorMURA(float(size), res)  # noqa: E731
            if n[0] > 5:
                num, den = (1, 16) if rng.random() < 0.7 else (1, 8)
        else:
            n = [int(v) for v in rng.integers(2, 6, size=2)]
            fov = [v * res for v in n] if rng.random() < 0.6 else [v * res - res / 4 for v in n]
            if kind == "point":
                mk = lambda fov=fov, res=res: st.MaskGeneratorPoint(fov, res)  # noqa: E731
            else:
                ratio = [1.5, 1.0, 1.25][rng.integers(3)]
                cls = [st.MaskGeneratorBernoulli, st.MaskGeneratorHalfGaussian][rng.integers(2)]
                mk = lambda cls=cls, fov=fov, res=res, ratio=ratio: cls(fov, res, ratio)  # noqa: E731
        ns = [int(np.ceil(v * ratio)) for v in n]
        J = {"kind": kind, "n": n, "ns": ns, "shift": shift, "num": num, "den": den, "tn": tn, "td": td, "got": [], "res": str(res)}
        ok, g = ck.guard("generator", lambda: quiet(mk), J)
        if not ok:
            continue
        g.transmittance = tn / td
        ok, mc = ck.guard("generate", lambda: quiet(lambda: g.generate_collection(num / den, shift) if rng.random() < 0.8 or shift != "sequential" else g.generate_collection(num / den)), J)
        if not ok:
            continue
        if shift == "random":
            J["got"] = recorded(ck, J, mc)
        jobs.append((J, g, mc))
    r = ck.tlc("Masks", files={"instances.json": [j for j, _, _ in jobs]}, invariants=["Decodes", "Partition", "EmitAll"], workers=4)
    for e in r.emitted:
        J, g, mc = jobs[e["iid"] - 1]
        ck.case("generators", {"case": J})
        n = tuple(J["n"])
        td = J["td"]
        if not (list(g.shape_fov) == J["n"] and g.num_pixels == n[0] * n[1] and g.max_buckets == J["ns"][0] * J["ns"][1] and tuple(mc.shape_fov) == n):
            ck.violation("generator.shapes", {**J, "got": [g.shape_fov, g.max_buckets, mc.shape_fov]})
            continue
        feat = np.broadcast_to(np.asarray(g.feature_size_mm, float), (2,))
        ck.expect(np.allclose(feat * np.array(n), np.asarray(g.fov_size_mm, float)) and np.all(feat <= float(J["res"]) + 1e-9), "generator.features", lambda: {**J, "got": [feat, g.fov_size_mm]})
        if J["kind"] == "free":
            half = np.asarray(mc.masks_enc, float)
            ck.expect(half.shape == (e["count"], *n), "generator.count", lambda: {**J, "got": half.shape, "spec": e["count"]})
            lo = 1 - J["tn"] / td
            is_b = isinstance(g, st.MaskGeneratorBernoulli)
            ck.expect(np.all(half >= lo - 1e-6) and (not is_b or np.all((np.abs(half - lo) < 1e-6) | (np.abs(half - 1) < 1e-6))), "generator.values", J)
            continue
        ck.expect(e["ok"], "generator.random-choice", J)
        for what, got, want in (("generator.encoding", mc.masks_enc, e["enc"]), ("generator.decoding", mc.masks_dec, e["dec"] or e["enc"])):
            w = np.array(want, float).reshape(-1, *n) / td
            ck.expect(close(got, w, 1e-6), what, lambda: {**J, "got": np.asarray(got), "spec": w})
        if J["kind"] == "mura" and J["shift"] == "sequential":
            m = n[0]
            ok, s = ck.guard("mura.sizes", lambda: st.MaskGeneratorMURA.compute_possible_mask_sizes(m), J)
            if ok:
                ck.expect(list(s) == e["sizes"], "mura.sizes", lambda: {"fov": m, "got": s, "spec": e["sizes"]})
    sizes = [int(v) for v in rng.integers(1, 120, size=10)] + [5, 13, 101]
    r = ck.tlc("Masks", files={"instances.json": [{"kind": "free", "n": [s, 1], "ns": [1, 1], "shift": "sequential", "num": 1, "den": 1, "tn": 1, "td": 1, "got": []} for s in sizes]},
               invariants=["EmitAll"])
    for e in r.emitted:
        s = sizes[e["iid"] - 1]
        ck.case("mura-sizes")
        ok, got = ck.guard("mura.sizes", lambda: st.MaskGeneratorMURA.compute_possible_mask_sizes(s), {"fov": s})
        if ok:
            ck.expect([int(v) for v in got] == e["sizes"], "mura.sizes", lambda: {"fov": s, "got": got, "spec": e["sizes"]})


def recorded(ck, J, mc):
    """The shifts that a random collection contains, as far as the masks show them."""
    m = np.asarray(mc.masks_enc, float)
    m = 1 - (1 - m) * J["td"] / J["tn"]
    if J["kind"] == "free":
        return []
    base = np.zeros(J["n"])
    if J["kind"] == "point":
        base[0, 0] = 1
    else:
        n = J["n"][0]
        q = {(k * k) % n for k in range(1, n)}
        for i in range(1, n):
            for j in range(n):
                base[i, j] = 1 if j == 0 or ((i in q) == (j in q)) else 0
    out = []
    for x in m:
        hit = [[v, u] for v in range(J["n"][0]) for u in range(J["n"][1]) if np.allclose(np.roll(base, (v, u), (0, 1)), x, atol=1e-5)]
        out.append(hit[0] if hit else [-1, -1])
    return out
