"""C06: data-fidelity terms as objects (spec/TermObj.tla, spec/DataTerm.tla)."""

import itertools
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
import vf
from corrct import data_terms as dt

INV = ["EmitBound", "EmitLn", "MoreauHolds", "NormNonNegative", "ZeroOnData", "NonExpansive", "KLStationary", "DualBall", "SpectralProjection"]
KINDS = ["l2", "wl2", "l2b", "l1", "l1b", "Hub", "KL", "l12", "HubG"]


def gen(rng, kind):
    shape = [(2, 2), (2, 3), (3, 2), (1, 4), (4,), (2, 1, 2)][rng.integers(6)]
    m = int(np.prod(shape))
    pos = kind == "KL" and rng.random() < 0.4
    t = {"kind": kind, "w": [], "err": [], "bg": [], "G": shape[0], "mats": [], "shape": shape}
    if kind == "wl2":
        t["w"] = rng.integers(0, 5, size=m) / 2.0
    if kind in ("l2b", "l1b", "Hub", "HubG"):
        t["err"] = np.full(m, rng.integers(1, 9) / 8.0) if rng.random() < 0.5 or kind == "HubG" else rng.integers(1, 9, size=m) / 8.0
    if rng.random() < 0.4:
        t["bg"] = np.full(m, rng.integers(1, 5) / 4.0) if rng.random() < 0.5 else rng.integers(0, 5, size=m) / 4.0
    lo = 0 if pos else -2
    t["datas"] = [si.q4(rng, lo, 4, m) for _ in range(2)]
    t["sigmas"] = [np.full(m, [1.0, 0.5, 2.0][rng.integers(3)]), rng.integers(1, 9, size=m) / 4.0]
    t["taus"] = [np.full(m, [1.0, 0.5, 2.0][rng.integers(3)]), rng.integers(1, 9, size=m) / 4.0]
    t["ys"] = [si.q4(rng, lo, 3, m) for _ in range(2)]
    t["ds"] = [si.q4(rng, lo, 3, m), si.q4(rng, lo, 3, m)]
    t["masks"] = [[], rng.integers(0, 2, size=m).astype(float)]
    if kind in ("l12", "HubG") and len(shape) > 1:  # the axis of the groups
        t["gax"] = [0, 1, -1, -len(shape)][rng.integers(4)]
    u = [1.0, 1.0, 2.0**-13, 2.0**10][rng.integers(4)]  # other units
    for k in ("err", "bg"):
        t[k] = np.asarray(t[k]) * u if len(t[k]) else t[k]
    for k in ("datas", "ys", "ds"):
        t[k] = [v * u for v in t[k]]
    return t


def gen_ln(rng):
    return {"kind": "ln", "w": [], "err": [], "bg": [], "G": 1, "datas": [], "sigmas": [], "taus": [], "ys": [], "ds": [[]], "masks": [],
            "mats": [si.q4(rng, -2, 2, (int(rng.integers(2, 4)), 2)) for _ in range(3)]}


def to_json(t):
    J = {"kind": t["kind"], "G": int(t["G"]), "mats": [[si.decs(r) for r in M] for M in t["mats"]]}
    for k in ("w", "err", "bg"):
        J[k] = si.decs(t[k])
    for k in ("datas", "sigmas", "taus", "ys", "ds", "masks"):
        J[k] = [si.decs(v) for v in t[k]]
    return J


def const(v):
    return len(v) and np.all(np.asarray(v) == v[0])


def place(v, t):
    """The values of a vector of the specification, with the axis of the groups where the object expects it."""
    return vf.laid(np.moveaxis(np.array(v, dtype=float).reshape(t["shape"]), 0, t.get("gax", 0)).copy())


def val(v, t):
    return float(v[0]) if const(v) else place(v, t)


def build(t):
    sh = t["shape"]
    bg = val(t["bg"], t) if len(t["bg"]) else None
    k = t["kind"]
    if k == "l12":
        return dt.DataFidelity_l12(background=bg, l2_axis=t.get("gax", 0))
    if k == "HubG":
        return dt.DataFidelity_Huber(float(t["err"][0]), background=bg, l2_axis=t.get("gax", 0))
    return si.build_term(t, sh)


def compare(ck, t, obj, ans, ind, det):
    """All the answers of the real object against those of the specification; ind: slicing of the object, or None."""
    sh = t["shape"]
    k = t["kind"]

    def arr(v):
        a = place([float(x) for x in v], t)
        return a if ind is None else a[ind].copy()

    def same(what, got, want):
        ck.expect(si.close(got, want, 1e-9), f"term.{k}.{what}", lambda: {"got": np.asarray(got), "want": want, **det()})

    for jy, y in enumerate(t["ys"]):
        for jm, mask in enumerate(t["masks"]):
            yy = arr(y)
            keep = yy.copy()
            mk = arr(mask) if len(mask) else None
            r = obj.compute_residual(yy, mask=mk)
            same("residual", r, arr(ans["res"][jy][jm]))
            ck.expect(np.array_equal(yy, keep) and not np.shares_memory(r, yy), f"term.{k}.residual.input", det)
            if ans["desc"]:
                g = obj.compute_residual(yy, mask=mk, use_proximal=False)
                same("descent", g, arr(ans["desc"][jy][jm]))
                ck.expect(np.array_equal(yy, keep), f"term.{k}.descent.input", det)
            if ind is None:
                r2 = np.array(r)
                nrm = obj.compute_residual_norm(r)
                same("norm", nrm, np.array(float(ans["norm"][jy][jm])))
                ck.expect(np.array_equal(r, r2), f"term.{k}.norm.input", det)
    for jd, d in enumerate(t["ds"]):
        u = arr(d)
        y0 = arr(t["ys"][0])
        keep = y0.copy()
        obj.update_dual(u, y0)
        same("update-dual", u, arr(ans["upd"][jd]))
        ck.expect(np.array_equal(y0, keep), f"term.{k}.update-dual.input", det)
        if ind is None or k not in ("l12", "HubG"):
            u = arr(d)
            obj.apply_proximal_dual(u)
            same("prox-dual", u, arr(ans["pd"][jd]))
        for jm, mask in enumerate(t["masks"]):
            if ind is None:
                u = arr(d)
                same("dot", obj.compute_data_dual_dot(u, arr(mask) if len(mask) else None), np.array(float(ans["dot"][jd][jm])))
                ck.expect(np.array_equal(u, arr(d)), f"term.{k}.dot.input", det)
        if ans["pp"] and not len(t["bg"]) and ind is None:
            for ju, tau in enumerate(t["taus"]):
                u = arr(d)
                obj.apply_proximal_primal(u, val(tau, t))
                same("prox-primal", u, arr(ans["pp"][jd][ju]))


def run(ck):
    rng = np.random.default_rng(6000 + ck.seed)
    num = 1200 if ck.thorough else 160
    terms = [gen(rng, KINDS[j % len(KINDS)]) for j in range(num)] + [gen_ln(rng) for _ in range(num // 4)]
    chunk = 25
    parts = [(o, terms[o:o + chunk]) for o in range(0, len(terms), chunk)]

    def one(p):
        r = ck.tlc("TermObj", invariants=INV, files={"terms.json": [to_json(t) for t in p[1]]}, timeout=1200, mem="2g")
        return p[0], r.emitted

    answers = {}
    lns = {}
    with ThreadPoolExecutor(6) as ex:
        for o, em in ex.map(one, parts):
            for e in em:
                if "clip" in e:
                    lns[o + e["tid"] - 1] = e
                else:
                    answers.setdefault(o + e["tid"] - 1, {})[tuple(e["bind"])] = e["ans"]

    for j, t in enumerate(terms):
        if t["kind"] == "ln":
            check_ln(ck, t, lns[j])
            continue
        sh = t["shape"]
        A = answers[j]
        keys = sorted(A)
        hists = list(itertools.product(keys, repeat=2))
        if not ck.thorough:
            hists = [hists[i] for i in rng.choice(len(hists), 12, replace=False)]
        for h in hists:
            obj = build(t)
            det = lambda: {"term": to_json(t), "shape": sh, "bindings (data, step)": h}  # noqa: E731
            for pos, (di, sg) in enumerate(h):
                b = None if di == 0 else place(t["datas"][di - 1], t)
                keep = None if b is None else b.copy()

                def go():
                    obj.assign_data(b, val(t["sigmas"][sg - 1], t))
                    compare(ck, t, obj, A[(di, sg)], None, det)
                    if b is not None:
                        z = obj.initialize_dual()
                        ck.expect(np.array_equal(z, np.zeros(b.shape)), f"term.{t['kind']}.initialize-dual", det)
                        ck.expect(np.array_equal(b, keep), f"term.{t['kind']}.data-modified", det)
                        b[...] = 77.0  # the object keeps its own copy of the data
                        compare(ck, t, obj, A[(di, sg)], None, det)
                    if pos == 1 and len(sh) == 2 and not const(t["err"]) and not const(t["w"]):
                        ind = [(slice(0, 1),), (slice(None), 0), (slice(None), slice(1, None))][int(rng.integers(3))]
                        if sh[1] > 1 and t["kind"] not in ("l12", "HubG"):
                            compare(ck, t, obj[ind], A[(di, sg)], ind, det)
                            compare(ck, t, obj, A[(di, sg)], None, det)

                ck.guard(f"term.{t['kind']}", go, detail=det)
            ck.case("term." + t["kind"], det())


def check_ln(ck, t, e):
    """The nuclear norm, on stacks of matrices with different axes for rows and columns."""
    mats = [np.asarray(M, dtype=float) for M in t["mats"]]
    clip = [np.array([[float(x) for x in r] for r in M]) for M in e["clip"]]
    nuc = [float(v) for v in e["nuc"]]
    det = lambda: {"matrices": [M.tolist() for M in mats]}  # noqa: E731
    for M, P, n in zip(mats, clip, nuc):
        for axes, tr in (((0, 1), False), ((1, 0), False), ((0, -1), False), ((1, 0), True)):

            def go():
                x = M.T.copy() if tr else M.copy()
                o = dt.DataFidelity_ln(ln_axes=axes)
                o.assign_data(None, 1.0)
                ck.expect(abs(o.compute_residual_norm(x) - n) <= 1e-9 * (1 + n), "term.ln.norm",
                          lambda: {"got": o.compute_residual_norm(x), "want": n, **det()})
                o.apply_proximal_dual(x)
                ck.expect(si.close(x, P.T if tr else P, 1e-7), "term.ln.prox-dual", lambda: {"got": x, "want": P, "axes": axes, **det()})

            ck.guard("term.ln", go, detail=det)
            ck.case("term.ln", {"matrix": M.tolist(), "axes": axes})
        # the last row as the data of the others
        def go_data():
            o = dt.DataFidelity_ln(ln_axes=(0, 1))
            o.assign_data(M[-1:].copy(), 1.0)
            x = M[:-1].copy()
            o.apply_proximal_dual(x)
            ck.expect(si.close(x, P[:-1], 1e-7), "term.ln.prox-dual.data", lambda: {"got": x, "want": P[:-1], **det()})

        ck.guard("term.ln.data", go_data, detail=det)
    same = [M for M in mats if M.shape == mats[0].shape]
    idx = [j for j, M in enumerate(mats) if M.shape == mats[0].shape]

    def stack():
        x = np.stack(same)
        o = dt.DataFidelity_ln(ln_axes=(1, -1))
        o.assign_data(None, 1.0)
        want = sum(nuc[j] for j in idx)
        ck.expect(abs(o.compute_residual_norm(x) - want) <= 1e-8 * (1 + want), "term.ln.stack.norm", det)
        o.apply_proximal_dual(x)
        ck.expect(si.close(x, np.stack([clip[j] for j in idx]), 1e-7), "term.ln.stack.prox-dual", det)

    ck.guard("term.ln.stack", stack, detail=det)
    ck.case("term.ln.stack")
