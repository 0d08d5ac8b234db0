"""C05: masks, limits and held-out data (spec/Limits.tla on recorded runs, spec/Solver.tla on the algorithms)."""

import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
from corrct import data_terms as dt
from corrct import projectors, regularizers, solvers
from harness.c03 import generate, matches, near_tie, solve_spec


def mat_job(rng):
    xs = [(6,), (4, 5), (3, 3, 3), (1, 7), (8, 8)][rng.integers(5)]
    bs = [(3, 5), (6, 4), (2, 9), (12, 3)][rng.integers(4)]
    A = rng.random((int(np.prod(bs)), int(np.prod(xs)))) * (rng.random((int(np.prod(bs)), int(np.prod(xs)))) < 0.7)
    A[:, 0] += 0.1
    A[0, :] += 0.1
    if rng.random() < 0.5:
        from scipy.sparse import csr_matrix

        A = csr_matrix(A)
    return projectors.ProjectorMatrix(A, xs, bs), xs, bs, "matrix"


def prj_job(rng):
    n = int(rng.integers(6, 13))
    angles = np.deg2rad(np.linspace(0, 180, int(rng.integers(3, 7)), endpoint=False))
    A = projectors.ProjectorUncorrected((n, n), angles, create_single_projs=True, prj_intensities=None)
    return A, tuple(int(v) for v in A.vol_shape), tuple(int(v) for v in A.prj_shape), "projector"


def pick_reg(rng, alg, xs):
    if alg in ("FBP", "SART", "MLEM") or rng.random() < 0.45:
        return None
    w = float(rng.choice([0.05, 0.5, 2.0]))
    um = rng.integers(0, 2, size=xs).astype(float) if rng.random() < 0.3 else None
    if alg == "FISTA":
        return regularizers.Regularizer_l1(w)
    nd = len(xs)
    opts = [lambda: regularizers.Regularizer_l1(w, upd_mask=um), lambda: regularizers.Regularizer_TV1D(w, upd_mask=um),
            lambda: regularizers.Constraint_LowerLimit(0.25), lambda: regularizers.Regularizer_smooth1D(w)]
    if nd >= 2:
        opts += [lambda: regularizers.Regularizer_TV2D(w, upd_mask=um), lambda: regularizers.Regularizer_lap2D(w), lambda: regularizers.Regularizer_HubTV2D(w, 0.5)]
    return opts[rng.integers(len(opts))]()


def bits(rng, shape, p):
    m = (rng.random(shape) < p).astype(float)
    m.flat[rng.integers(m.size)] = 1.0
    return m


def one_run(rng, ck):
    A, xs, bs, kind = (prj_job if rng.random() < 0.5 else mat_job)(rng)
    alg = ["SIRT", "PDHG", "FISTA", "MLEM", "SART", "FBP"][rng.integers(6)]
    if alg in ("SART", "FBP") and kind == "matrix":
        alg = ["SIRT", "PDHG", "FISTA", "MLEM"][rng.integers(4)]
    if alg == "SART" and len(xs) == 3:
        alg = "SIRT"
    dtype = np.float32 if kind == "projector" or rng.random() < 0.5 else np.float64
    xt = rng.random(xs)
    with contextlib.redirect_stdout(io.StringIO()), A if kind == "projector" else contextlib.nullcontext():
        b = np.abs(A(xt.astype(dtype)))
        b = (b + 0.3 * rng.standard_normal(bs) * (alg != "MLEM")).astype(dtype)
        kw = {}
        xm = bits(rng, xs, 0.6) if rng.random() < 0.5 else None
        if xm is not None:
            kw["x_mask"] = [xm.astype(dtype), xm.astype(np.float32)][rng.integers(2)]
        bm = tm = None
        if alg not in ("FBP",):
            if rng.random() < 0.6:
                bm = bits(rng, bs, 0.75)
                kw["b_mask"] = bm.astype(dtype)
            if alg != "SART" and rng.random() < 0.6:
                tm = bits(rng, bs, 0.3)
                kw["b_test_mask"] = tm.astype(dtype)
        lo = hi = None
        if rng.random() < 0.6:
            lo = [np.full(xs, 0.0), np.full(xs, 0.125), np.full(xs, -0.25), rng.integers(-2, 4, size=xs) / 8.0][rng.integers(4)]
            kw["lower_limit"] = float(lo.flat[0]) if np.all(lo == lo.flat[0]) else lo.astype(dtype)
        if rng.random() < 0.5:
            hi = [np.full(xs, 0.5), np.full(xs, 0.75), rng.integers(4, 9, size=xs) / 8.0][rng.integers(3)]
            kw["upper_limit"] = float(hi.flat[0]) if np.all(hi == hi.flat[0]) else hi.astype(dtype)
        if alg != "FBP" and rng.random() < 0.3:
            kw["x0"] = (rng.random(xs) * 2 + 0.1).astype(dtype)
        seen = np.ones(bs)
        if bm is not None:
            seen = seen * bm
        if tm is not None:
            seen = seen * (1 - tm)
        if not np.any(seen):
            return None
        b2 = (b + (seen == 0) * rng.integers(1, 50, size=bs)).astype(dtype) if np.any(seen == 0) else None
        reg = pick_reg(rng, alg, xs)
        rseed = int(rng.integers(1 << 30))
        term = {"SIRT": ["l2", "l2b", "KL", "wl2"], "PDHG": ["l2", "l1", "KL", "Hub", "l2b", "l1b", "wl2"], "FISTA": ["l2", "wl2"], "MLEM": ["KL"]}.get(alg, ["l2"])
        term = term[rng.integers(len(term))]
        if term == "KL" and np.any(b <= 0):
            term = "l2"
        wts = (rng.integers(1, 9, size=bs) / 4.0).astype(dtype)

        def mk():
            T = {"l2": dt.DataFidelity_l2, "l1": dt.DataFidelity_l1, "KL": dt.DataFidelity_KL, "wl2": lambda: dt.DataFidelity_wl2(wts),
                 "l2b": lambda: dt.DataFidelity_l2b(0.25), "l1b": lambda: dt.DataFidelity_l1b(0.25), "Hub": lambda: dt.DataFidelity_Huber(0.5)}[term]()
            if alg == "FBP":
                return solvers.FBP(fbp_filter=["ramp", "hann", "shepp-logan"][rseed % 3])
            if alg == "SART":
                return solvers.SART()
            if alg == "MLEM":
                return solvers.MLEM(data_term=T)
            return getattr(solvers, alg)(data_term=T, regularizer=reg)

        def call(data, K):
            s = mk()
            np.random.seed(rseed)
            k2 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
            with np.errstate(all="ignore"):
                if alg == "FBP":
                    return s(A, data.copy(), **k2)[0]
                if alg == "SART" and rseed % 2:
                    return s(A, data.copy(), K, **k2)[0]
                if alg == "SART":
                    fa = lambda v, i: A.fp_angle(v, i)  # noqa: E731
                    return s(fa, data.copy(), K, A_num_rows=bs[-2], At=lambda y, i: A.bp_angle(y, i), **k2)[0]
                return s(A, data.copy(), K, **k2)[0]

        what = {"alg": alg, "kind": kind, "xs": xs, "bs": bs, "dtype": np.dtype(dtype).name, "term": term,
                "reg": None if reg is None else type(reg).__name__, "args": {k: (v if not isinstance(v, np.ndarray) else "array") for k, v in kw.items()}}
        ks = [1] if alg == "FBP" else [1, int(rng.integers(2, 5))]
        runs = []
        for K in ks:
            ok, x = ck.guard("run." + alg, lambda: call(b, K), what)
            if not ok:
                return None
            x2 = None
            if b2 is not None:
                ok, x2 = ck.guard("run." + alg, lambda: call(b2, K), what)
                if not ok:
                    return None
            if not ck.expect(np.shape(x) == tuple(xs), "run.shape", lambda: {"case": what, "shape": np.shape(x)}):
                return None
            if not np.all(np.isfinite(x)) or (x2 is not None and not np.all(np.isfinite(x2))):
                # a degenerate problem (nothing seen of some voxels) is not judged, unless only one of the twins is
                if x2 is not None:
                    ck.expect(np.array_equal(np.isfinite(x), np.isfinite(x2)), "run.influence", lambda: {"case": what, "K": K})
                return None
            runs.append({"x": num(x), "x2": [] if x2 is None else num(x2)})
    J = {"n": int(np.prod(xs)), "xm": [] if xm is None else si.decs(xm), "lo": [] if lo is None else si.decs(lo), "hi": [] if hi is None else si.decs(hi),
         "tol": "1e-5" if dtype == np.float32 else "1e-10", "runs": runs}
    return J, what


def num(x):
    return [0 if v == 0 else repr(float(v)) for v in np.ravel(x)]


def run(ck):
    rng = np.random.default_rng(5000 + ck.seed)
    # the algorithms, on the model and on the code
    insts = [i for i in generate(rng, 6000 if ck.thorough else 480)]
    spec = solve_spec(ck, insts)
    for j, I in enumerate(insts):
        outs = spec[j]
        if any(near_tie(I, e) or e["kink"] for e in outs):
            continue
        n = int(np.prod(I["xshape"]))
        if not (len(I["b2"]) or len(I["lo"]) or len(I["hi"]) or len(I["xm"])):
            continue
        for b in [I["b_np"]] + ([I["b2"]] if len(I["b2"]) else []):
            ok, r = ck.guard("model." + I["alg"], lambda: si.run_real(I, b=b), detail=lambda: si.describe(I))
            if not ok:
                continue
            x, info, _ = r
            ck.case("twins-on-the-model." + I["alg"])
            if b is not I["b_np"]:
                # the held-out residuals are those of the other data; the reconstruction, its residuals and the stop are the same
                why = [matches({**I, "tm": []}, e, x, info, I["K"], 1e-8) for e in outs]
            else:
                why = [matches(I, e, x, info, I["K"], 1e-8) for e in outs]
            ck.expect(any(w is None for w in why), f"model.{I['alg']}", lambda: {"why": why[0], "instance": si.describe(I)})
    # recorded runs, larger
    jobs = []
    for _ in range(3000 if ck.thorough else 420):
        r = one_run(rng, ck)
        if r is not None:
            jobs.append(r)
    parts = [jobs[o:o + 60] for o in range(0, len(jobs), 60)]

    def one(part):
        return part, ck.tlc("Limits", files={"instances.json": [p[0] for p in part]}, invariants=["EmitBad"], mem="2g", timeout=1500)

    with ThreadPoolExecutor(6) as ex:
        for part, r in ex.map(one, parts):
            seen = {}
            for e in r.emitted:
                seen[e["iid"] - 1] = e
            for j, (J, what) in enumerate(part):
                ck.case("recorded." + what["alg"], what)
                e = seen.get(j)
                ck.expect(e is not None and not e["bad"], f"recorded.{what['alg']}." + ("-".join(e["bad"]) if e else "none"),
                          lambda: {"case": what, "broken": e and e["bad"], "call": e and e["k"], "run": J["runs"][max(e["k"] - 1, 0)] if e and J["n"] < 30 else None})
