"""Generator of the instances of spec/Solver.tla, and their execution on the real solvers."""

import contextlib
import io
from fractions import Fraction

import numpy as np
import vf

from corrct import data_terms as dt
from corrct import operators, projectors, regularizers, solvers
from sched_vf import MatBackend

EPS = np.finfo(np.float32).eps


def dec(v):
    """Exact decimal numeral of a dyadic number."""
    f = Fraction(float(v))
    if f.denominator == 1 and abs(f.numerator) < 10**6:
        return int(f)
    return str(np.format_float_positional(float(v), unique=True, trim="-"))


def decs(a):
    return [dec(v) for v in np.asarray(a, dtype=float).ravel()]


class MatOp(operators.BaseTransform):
    """An operator given by a matrix; fresh results, direct and adjoint."""

    def __init__(self, A, xs, bs):
        self.M = A
        self.dir_shape = np.array(xs, ndmin=1, dtype=int)
        self.adj_shape = np.array(bs, ndmin=1, dtype=int)
        super().__init__()

    def _op_direct(self, x):
        return (self.M @ x.ravel()).reshape(self.adj_shape)

    def _op_adjoint(self, y):
        return (self.M.T @ y.ravel()).reshape(self.dir_shape)

    def absolute(self):
        r = MatOp(np.abs(self.M), self.dir_shape, self.adj_shape)
        if not self.is_dir_operator:
            r = r.T
        return r


def make_operator(inst):
    A = inst["A_np"]
    xs, bs = inst["xshape"], (inst["na"], inst["nu"])
    kind = inst["opkind"]
    if kind == "mat":
        return MatOp(A, xs, bs)
    if kind == "pmat":
        return projectors.ProjectorMatrix(A, xs, bs)
    if kind == "fun":
        return operators.TransformFunctions(xs, bs, lambda x: (A @ x.ravel()).reshape(bs), lambda y: (A.T @ y.ravel()).reshape(xs))
    if kind == "ident":
        return operators.TransformIdentity(bs)
    if kind == "diag":
        return operators.TransformDiagonalScaling(bs, np.diag(A).reshape(bs))
    raise ValueError(kind)


def q4(rng, lo, hi, size):
    return rng.integers(int(lo * 4), int(hi * 4) + 1, size=size) / 4.0


# ----------------------------------------------------------------------------- terms and regularizers
def gen_term(rng, alg, m):
    kinds = {
        "SIRT": ["l2", "l2", "wl2", "l2b", "KL"],
        "FISTA": ["l2", "l2", "wl2", "l2b"],
        "PDHG": ["l2", "l2", "wl2", "l2b", "l1", "l1b", "Hub", "KL"],
        "MLEM": ["KL", "KL", "l2"],
        "SART": ["l2"],
    }[alg]
    k = kinds[rng.integers(len(kinds))]
    t = {"kind": k, "w": [], "err": [], "bg": []}
    if k == "wl2":
        t["w"] = rng.integers(0, 5, size=m) / 2.0
        if not np.any(t["w"]):
            t["w"][0] = 1.0
    if k in ("l2b", "l1b", "Hub"):
        t["err"] = np.full(m, rng.integers(1, 5) / 8.0) if rng.random() < 0.6 else rng.integers(1, 5, size=m) / 8.0
        if k == "Hub":
            t["err"] = np.full(m, t["err"][0])
    if alg != "SART" and rng.random() < 0.35:
        t["bg"] = np.full(m, rng.integers(1, 5) / 4.0) if rng.random() < 0.6 else rng.integers(0, 5, size=m) / 4.0
    return t


def build_term(t, shape):
    """The data term object of a record (scalars are passed as scalars when the vector is constant)."""

    def val(v, scalar_ok=True):
        v = np.asarray(v, dtype=float)
        if scalar_ok and np.all(v == v[0]):
            return float(v[0])
        return vf.laid(v.reshape(shape))

    bg = val(t["bg"]) if len(t["bg"]) else None
    k = t["kind"]
    if k == "l2":
        return dt.DataFidelity_l2(background=bg)
    if k == "wl2":
        return dt.DataFidelity_wl2(val(t["w"], False), background=bg)
    if k == "l2b":
        return dt.DataFidelity_l2b(val(t["err"]), background=bg)
    if k == "l1":
        return dt.DataFidelity_l1(background=bg)
    if k == "l1b":
        return dt.DataFidelity_l1b(val(t["err"]), background=bg)
    if k == "Hub":
        return dt.DataFidelity_Huber(val(t["err"]), background=bg)
    if k == "KL":
        return dt.DataFidelity_KL(background=bg)
    raise ValueError(k)


def gen_reg(rng, alg, xs):
    n = int(np.prod(xs))
    if alg == "FISTA":
        kind = ["id", "id", "lowlim", "uplim"][rng.integers(4)]
    else:
        kind = ["grad", "grad", "grad", "lap", "id", "lowlim", "uplim"][rng.integers(7)]
    r = {"kind": kind, "norm": "l1", "err": 0, "axes": [], "pad": "edge", "lim": np.zeros(n), "name": "", "um_none": True}
    r["w"] = np.full(n, rng.integers(1, 9) / 8.0)
    r["um"] = np.ones(n)
    nd = len(xs)
    if kind in ("grad", "lap"):
        r["pad"] = ["edge", "edge", "constant", "wrap"][rng.integers(4)]
        na = 1 if nd == 1 else int(rng.integers(1, 3))
        first = int(rng.integers(nd)) if na == 1 else 0
        r["axes"] = [first + 1] if na == 1 else [1, 2]
        if rng.random() < 0.2:
            r["w"] = rng.integers(1, 9, size=n) / 8.0
    if kind == "grad":
        r["norm"] = ["l12", "l2", "l1", "Hub"][rng.integers(4)]
        if r["norm"] == "Hub":
            r["err"] = rng.integers(1, 5) / 4.0
    if kind in ("lowlim", "uplim"):
        r["norm"] = "l2"
        r["w"] = np.ones(n)
        r["lim"] = np.full(n, rng.integers(-2, 7) / 4.0) if rng.random() < 0.7 else rng.integers(-2, 7, size=n) / 4.0
    if kind == "id" and rng.random() < 0.3:
        r["w"] = rng.integers(0, 9, size=n) / 8.0
    if kind in ("grad", "lap", "id") and rng.random() < 0.3:
        r["um"] = rng.integers(0, 2, size=n).astype(float)
        r["um_none"] = False
    return r


def build_reg(r, xs):
    R = regularizers

    def val(v):
        v = np.asarray(v, dtype=float)
        return float(v[0]) if np.all(v == v[0]) else vf.laid(v.reshape(xs))

    um = None if r["um_none"] else vf.laid(np.asarray(r["um"]).reshape(xs))
    w = val(r["w"])
    nd = len(r["axes"])
    ax = [a - 1 - len(xs) for a in r["axes"]]
    k, nm = r["kind"], r["norm"]
    if k == "grad":
        if nm == "l12":
            cls = [R.Regularizer_TV1D, R.Regularizer_TV2D][nd - 1]
            return cls(w, axes=ax, pad_mode=r["pad"], upd_mask=um)
        if nm == "l2":
            cls = [R.Regularizer_smooth1D, R.Regularizer_smooth2D][nd - 1]
            return cls(w, axes=ax, pad_mode=r["pad"], upd_mask=um)
        if nm == "Hub":
            if nd == 2:
                return R.Regularizer_HubTV2D(w, float(r["err"]), axes=ax, pad_mode=r["pad"], upd_mask=um)
            return R.Regularizer_Grad(w, ndims=1, axes=ax, pad_mode=r["pad"], upd_mask=um,
                                      norm=dt.DataFidelity_Huber(float(r["err"]), l2_axis=0))
        return R.Regularizer_Grad(w, ndims=nd, axes=ax, pad_mode=r["pad"], upd_mask=um, norm=dt.DataFidelity_l1())
    if k == "lap":
        cls = [R.Regularizer_lap1D, R.Regularizer_lap2D][nd - 1]
        return cls(w, axes=ax, pad_mode=r["pad"], upd_mask=um)
    if k == "id":
        return R.Regularizer_l1(w, upd_mask=um)
    if k == "lowlim":
        return R.Constraint_LowerLimit(val(r["lim"]))
    if k == "uplim":
        return R.Constraint_UpperLimit(val(r["lim"]))
    raise ValueError(k)


# ----------------------------------------------------------------------------- instances
def gen_config(rng, alg, *, xs, na, nu, cv=None, tol=None):
    """What is fixed in a solver object: algorithm, relaxation, tolerance, terms, regularizers."""
    m = na * nu
    c = {"alg": alg, "xshape": list(xs), "na": na, "nu": nu}
    c["rlx"] = {"SIRT": 1.95, "PDHG": 0.95, "FISTA": 1.0, "SART": 1.0, "MLEM": 1.0}[alg]
    if alg != "MLEM" and rng.random() < 0.6:
        c["rlx"] = float([0.25, 0.5, 0.75, 1.0, 1.5][rng.integers(5 if alg != "PDHG" else 4)])
    c["term"] = gen_term(rng, alg, m)
    c["tterm"] = dict(c["term"])
    c["tterm_none"] = True
    if alg in ("PDHG", "SIRT", "FISTA", "MLEM") and rng.random() < 0.25:
        t = gen_term(rng, "FISTA" if alg != "PDHG" else "PDHG", m)
        c["tbg"] = t["bg"] if rng.random() < 0.3 else c["term"]["bg"]
        t["bg"] = c["term"]["bg"]  # the background is that of the data term, whatever the other one was given
        c["tterm"], c["tterm_none"] = t, False
    nreg = 0
    if alg in ("SIRT", "PDHG"):
        nreg = [0, 0, 1, 1, 2][rng.integers(5)]
    elif alg == "FISTA":
        nreg = int(rng.random() < 0.5)
    c["regs"] = [gen_reg(rng, alg, xs) for _ in range(nreg)]
    c["restart"] = int([0, 0, 2, 3][rng.integers(4)]) if alg == "FISTA" else 0
    if tol is None:
        tol = float([0, 2.0**-40, 0.5, 4.0, 64.0][rng.integers(5)])
    c["tol"] = tol
    return c


def traits(I):
    """What makes an instance different from the others (see vf.spread)."""
    how = lambda v: "no" if not len(v) else "same" if np.all(np.asarray(v) == v[0]) else "each"  # noqa: E731
    seen = (how(I["bm"]) != "no", how(I["tm"]) != "no")
    opts = {
        "term": (I["term"]["kind"], how(I["term"]["bg"])), "test": None if I["tterm_none"] else (I["tterm"]["kind"], how(I["tterm"]["bg"])), "relax": I["rlx"],
        "tol": I["tol"] > 0, "x0": len(I["x0"]) > 0, "xmask": len(I["xm"]) > 0, "masks": seen, "low": how(I["lo"]), "high": how(I["hi"]), "scaled": I["pre"], "op": I["opkind"],
        "dims": len(I["xshape"]), "restart": I["restart"], "units": I["units"],
    }
    for k, reg in enumerate(I["regs"] or [{"kind": "none"}]):
        opts[f"reg{k}"] = (reg["kind"], len(I["regs"]))
    return {k: (I["alg"], v) for k, v in opts.items()}


def gen_instance(rng, cfg, *, K=None, twin=True, opkinds=None):
    alg, xs, na, nu = cfg["alg"], tuple(cfg["xshape"]), cfg["na"], cfg["nu"]
    n, m = int(np.prod(xs)), na * nu
    I = dict(cfg)
    I["pre"] = True
    I["L"] = 1
    I["units"] = "same"
    kinds = ["mat", "mat", "pmat"]
    if alg in ("SIRT", "PDHG", "FISTA") and n == m and rng.random() < 0.3:
        kinds = ["ident", "diag"]
    if alg in ("PDHG", "FISTA") and n == m and rng.random() < 0.25:
        # scaled signed permutation: the power method is exact on it
        I["pre"] = False
        c = float([0.5, 1.0, 2.0][rng.integers(3)])
        A = np.zeros((m, n))
        A[np.arange(m), rng.permutation(n)] = c * rng.choice([-1.0, 1.0], size=m)
        I["L"] = c
        kinds = ["mat", "fun"]
    elif kinds[0] == "ident":
        k = kinds[rng.integers(2)]
        kinds = [k]
        A = np.eye(n) if k == "ident" else np.diag(rng.choice([-1.0, 0.5, 1.0, 2.0], size=n))
        if tuple(xs) != (na, nu):
            kinds = ["mat"]
    else:
        neg = alg != "MLEM" and rng.random() < 0.4
        A = rng.choice([-1.0, 0.0, 1.0, 2.0] if neg else [0.0, 1.0, 1.0, 2.0], size=(m, n))
        if alg == "MLEM" or rng.random() < 0.85:
            for r in range(m):
                if not np.any(A[r] > 0):
                    A[r, rng.integers(n)] = 1.0
        if not np.any(A):
            A[0, 0] = 1.0
        if not neg and alg == "SIRT" and rng.random() < 0.3:
            kinds = ["fun"]
        # other units; voxels that are seen less, and pixels that see less, than the others
        I["units"] = ["same", "same", "same", "small", "large", "voxel", "pixel"][rng.integers(7)]
        if I["units"] in ("small", "large"):
            A = A * {"small": 2.0**-20, "large": 2.0**10}[I["units"]]
        elif I["units"] == "voxel":
            A[:, rng.integers(n)] *= 2.0**-13
        elif I["units"] == "pixel":
            A[rng.integers(m)] *= 2.0**-13
    I["opkind"] = (opkinds or kinds)[rng.integers(len(opkinds or kinds))]
    I["A_np"] = A
    pos = alg == "MLEM" or cfg["term"]["kind"] == "KL"
    I["x0"] = [] if rng.random() < 0.6 else (q4(rng, 0.25, 2, n) if pos else q4(rng, -1, 2, n))
    b = q4(rng, 0, 4, m) if pos else q4(rng, -2, 4, m)
    I["xm"] = [] if rng.random() < 0.7 else rng.integers(0, 2, size=n).astype(float)
    if len(I["xm"]) and not np.any(I["xm"]):
        I["xm"][0] = 1.0
    I["bm"] = [] if rng.random() < 0.6 else rng.integers(0, 2, size=m).astype(float)
    I["tm"] = []
    if alg != "SART" and m > 1 and rng.random() < 0.5:
        tm = rng.integers(0, 2, size=m).astype(float)
        tm[rng.integers(m)] = 1.0
        I["tm"] = tm
    seen = np.ones(m)
    if len(I["bm"]):
        seen = seen * I["bm"]
    if len(I["tm"]):
        seen = seen * (1 - np.asarray(I["tm"]))
    void = I["pre"] and rng.random() < 0.04
    if void:  # the masks leave nothing
        how = rng.integers(3)
        if how != 1:
            I["bm"], I["tm"] = np.zeros(m), []
            seen = np.zeros(m)
        if how != 0:
            I["xm"] = np.zeros(n)
    else:
        # something has to be left to reconstruct from, and to be seen through the masks
        xm = np.asarray(I["xm"]) if len(I["xm"]) else np.ones(n)
        if not np.any(np.abs(A).T @ seen) or not np.any(np.abs(A) @ xm) or (alg in ("SART", "MLEM") and (np.max(np.abs(A.T @ seen)) == 0 or np.max(np.abs(A @ xm)) == 0)):
            I["bm"], I["tm"], I["xm"] = [], [], []
            seen = np.ones(m)
            if not np.any(A.T @ seen) or not np.any(A @ np.ones(n)):
                A = np.abs(A)
                I["A_np"] = A
        if alg == "SART":
            A = I["A_np"]
            t0 = max(np.max(np.abs(A[a * nu:(a + 1) * nu].T @ seen.reshape(na, nu)[a])) for a in range(na))
            if t0 == 0 or np.max(np.abs(A @ (np.asarray(I["xm"]) if len(I["xm"]) else np.ones(n)))) == 0:
                I["A_np"] = A = np.abs(A)
                I["bm"], I["xm"] = [], []
                seen = np.ones(m)
    I["lo"], I["hi"] = [], []
    if rng.random() < 0.4:
        I["lo"] = np.full(n, float([0.0, 0.0, 0.25, -0.5][rng.integers(4)])) if rng.random() < 0.7 else q4(rng, -1, 0.5, n)
    if rng.random() < 0.3:
        I["hi"] = np.full(n, float([0.5, 1.0, 1.5][rng.integers(3)])) if rng.random() < 0.7 else q4(rng, 0.5, 2, n)
    I["fixed"] = False
    if (alg in ("SIRT", "FISTA") and cfg["term"]["kind"] in ("l2", "wl2") and not cfg["regs"] and not len(cfg["term"]["bg"])
            and I["units"] == "same" and rng.random() < 0.25):
        xt = q4(rng, -1, 2, n)
        for j in range(n):
            if len(I["lo"]):
                xt[j] = max(xt[j], I["lo"][j])
            if len(I["hi"]):
                xt[j] = min(xt[j], I["hi"][j])
        if len(I["xm"]):
            xt = xt * I["xm"]
        I["x0"], I["fixed"] = xt, True
        b = A @ xt
    I["b_np"] = b
    b2 = []
    if twin and np.any(seen == 0):
        b2 = b + (seen == 0) * 3.0
    I["b2"] = b2
    I["K"] = int(K if K is not None else rng.integers(1, 5))
    I["counts"] = bool(alg == "MLEM" and not len(I["lo"]) and not len(I["hi"]) and not len(I["xm"]) and not len(cfg["term"]["bg"])
                       and not len(I["x0"]) and np.all((A > 0).sum(1)[seen > 0] > 0) and np.all(b >= 0))
    if I["counts"]:  # every voxel has to be seen, for the voxels to hold all the counts
        I["counts"] = bool(np.all(A.T @ seen > 0) and np.all(b[seen > 0] > 0))
    return I


def to_json(I):
    J = {k: I[k] for k in ("alg", "na", "nu", "K", "pre", "restart", "fixed", "counts")}
    J["xshape"] = [int(v) for v in I["xshape"]]
    J["A"] = [decs(row) for row in I["A_np"]]
    J["At"] = [decs(row) for row in I.get("At_np", [])]
    J["b"] = decs(I["b_np"])
    for k in ("x0", "lo", "hi", "xm", "bm", "tm", "b2"):
        J[k] = decs(I[k])
    J["rlx"] = dec(I["rlx"])
    J["L"] = dec(I["L"])
    J["tol"] = "" if not I["tol"] else str(dec(I["tol"]))
    for k in ("term", "tterm"):
        J[k] = {"kind": I[k]["kind"], "w": decs(I[k]["w"]), "err": decs(I[k]["err"]), "bg": decs(I[k]["bg"])}
    J["regs"] = [{"kind": r["kind"], "norm": r["norm"], "err": dec(r["err"]), "w": decs(r["w"]), "um": decs(r["um"]),
                  "axes": r["axes"], "pad": r["pad"], "lim": decs(r["lim"])} for r in I["regs"]]
    return J


def describe(I):
    J = to_json(I)
    J["opkind"] = I["opkind"]
    return J


# ----------------------------------------------------------------------------- the real solvers
def build_solver(cfg, regs=None):
    xs, bs = tuple(cfg["xshape"]), (cfg["na"], cfg["nu"])
    kw = {"verbose": False, "leave_progress": False}
    if cfg["tol"]:
        kw["tolerance"] = cfg["tol"]
    alg = cfg["alg"]
    if alg == "SART":
        return solvers.SART(relaxation=cfg["rlx"], **kw)
    term = build_term(cfg["term"], bs)
    plain = cfg["term"]["kind"] in ("l2", "KL") and not len(cfg["term"]["bg"])
    kw["data_term"] = cfg["term"]["kind"].lower() if plain and cfg["rlx"] != 0.5 else term
    if not cfg["tterm_none"]:
        kw["data_term_test"] = build_term(cfg.setdefault("given", {**cfg["tterm"], "bg": cfg.get("tbg", cfg["tterm"]["bg"])}), bs)
    if regs is None:
        regs = [build_reg(r, xs) for r in cfg["regs"]]
    if alg == "MLEM":
        return solvers.MLEM(**kw)
    kw["regularizer"] = None if not regs else (regs[0] if len(regs) == 1 else regs)
    if alg == "SIRT":
        return solvers.SIRT(relaxation=cfg["rlx"], **kw)
    if alg == "PDHG":
        return solvers.PDHG(relaxation=cfg["rlx"], **kw)
    if alg == "FISTA":
        return solvers.FISTA(relaxation=cfg["rlx"], restart_period=cfg["restart"] or None, **kw)
    raise ValueError(alg)


def call_kwargs(I, dtype=np.float64):
    xs, bs = tuple(I["xshape"]), (I["na"], I["nu"])
    kw = {}
    if len(I["x0"]):
        kw["x0"] = vf.laid(np.array(I["x0"], dtype=dtype).reshape(xs))
    for k, name in (("lo", "lower_limit"), ("hi", "upper_limit")):
        if len(I[k]):
            v = np.asarray(I[k], dtype=float)
            kw[name] = float(v[0]) if np.all(v == v[0]) else vf.laid(v.astype(dtype).reshape(xs))
    for k, name, sh in (("xm", "x_mask", xs), ("bm", "b_mask", bs), ("tm", "b_test_mask", bs)):
        if len(I[k]):
            kw[name] = vf.laid(np.array(I[k], dtype=dtype).reshape(sh))
    return kw


def run_real(I, solver=None, *, K=None, dtype=np.float64, b=None, op=None):
    """Execute the real solver; returns (x, info, changed) with the names of the arguments that were modified."""
    xs, bs = tuple(I["xshape"]), (I["na"], I["nu"])
    if solver is None:
        solver = build_solver(I)
    J = I if dtype == np.float64 else {**I, "A_np": I["A_np"].astype(dtype)}
    b = vf.laid(np.array(I["b_np"] if b is None else b, dtype=dtype).reshape(bs))
    kw = call_kwargs(I, dtype)
    args = {"b": b, **{k: v for k, v in kw.items() if isinstance(v, np.ndarray)}}
    before = {k: v.copy() for k, v in args.items()}
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        if I["alg"] == "SART":
            A = J["A_np"]
            na, nu = bs
            fa = lambda x, ii: A[ii * nu:(ii + 1) * nu] @ x.ravel()  # noqa: E731
            ft = lambda y, ii: (A[ii * nu:(ii + 1) * nu].T @ y.ravel()).reshape(xs)  # noqa: E731
            if len(xs) == 2 and xs[0] == xs[1] and I["K"] % 2:  # the same lines, given by a projector
                inten = 2.0 ** (np.arange(na) % 3 - 1)
                W = [(A[k * nu:(k + 1) * nu] / inten[k]).astype(A.dtype) for k in range(na)]
                P = projectors.ProjectorUncorrected(xs, np.arange(na) * 0.1, prj_intensities=inten, create_single_projs=True, backend=MatBackend(W, 0, nu, False))
                with P:
                    x, info = solver(P, b, I["K"] if K is None else K, **kw)
            else:
                x, info = solver(fa, b, I["K"] if K is None else K, A_num_rows=na, At=ft, **kw)
        else:
            if I["alg"] in ("PDHG", "FISTA") and I["opkind"] != "fun":
                kw["precondition"] = I["pre"]
            x, info = solver(make_operator(J) if op is None else op, b, I["K"] if K is None else K, **kw)
    changed = [k for k, v in args.items() if not np.array_equal(v, before[k], equal_nan=True)]
    return x, info, changed


def f(v):
    return np.array([float(t) for t in v])


def close(a, b, rtol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= rtol * (1 + np.abs(b)) + rtol * (np.max(np.abs(b)) if b.size else 0)))
