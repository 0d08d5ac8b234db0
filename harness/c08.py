"""C08: linear operators and their adjoints (spec/Operators.tla, spec/Svd.tla)."""

from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pywt
from scipy.sparse import csr_matrix

import solver_inst as si
import vf
from corrct import operators as ops
from corrct import projectors

INV = ["Adjointness", "Involution", "Isometry", "FlatIsFlat", "EmitAll"]


def q(rng, n):
    return rng.integers(-8, 9, size=n) / 4.0


def base(kind, shape):
    return {"kind": kind, "shape": [int(v) for v in shape], "axes": [], "pad": "", "kernel": [], "kshape": [], "symm": True, "flip": False,
            "scale": [], "M": [], "lo": [], "hi": [], "level": 0, "norm": True, "adj": "T", "abs": False, "iso": False, "depth": 3, "showM": True}


def rand_shape(rng, mx=12, nd=None):
    while True:
        nd_ = nd or int(rng.integers(1, 4))
        s = tuple(int(v) for v in rng.integers(1, 6, size=nd_))
        if 1 < np.prod(s) <= mx:
            return s


def pick_axes(rng, nd, perm=True):
    k = int(rng.integers(1, nd + 1))
    ax = rng.permutation(nd)[:k]
    if not perm:
        ax = np.sort(ax)
    return [int(a) for a in ax]


def num(v):
    return "0" if v == 0 else format(v, ".17g") if "e" not in format(v, ".17g") else np.format_float_positional(v, unique=True, trim="-")


def gen(rng, kind):
    """(record for the specification, function that builds the real operator, group)"""
    if kind == "mat":
        xs, bs = rand_shape(rng), rand_shape(rng)
        M = q(rng, (int(np.prod(bs)), int(np.prod(xs))))
        J = base("mat", xs)
        J["M"] = [si.decs(r) for r in M]
        which = ["pmat", "sparse", "fun"][rng.integers(3)]
        if which == "fun":
            return J, (lambda: ops.TransformFunctions(xs, bs, lambda x: (M @ x.ravel()).reshape(bs), lambda y: (M.T @ y.ravel()).reshape(xs))), xs, bs
        J["abs"] = True
        A = csr_matrix(M) if which == "sparse" else M
        return J, (lambda: projectors.ProjectorMatrix(A, xs, bs)), xs, bs
    if kind == "ident":
        xs = rand_shape(rng)
        J = base("ident", xs)
        J["abs"] = True
        return J, (lambda: ops.TransformIdentity(xs)), xs, xs
    if kind == "diag":
        xs = rand_shape(rng)
        J = base("diag", xs)
        sc = q(rng, xs)
        if rng.random() < 0.3:
            v = float(sc.flat[0])
            sc = np.full(xs, v)
            arg = v
        elif rng.random() < 0.3:
            arg = sc[..., :1] if len(xs) == 1 else sc[:1]
            sc = np.broadcast_to(arg, xs)
        else:
            arg = sc
        J["scale"], J["abs"] = si.decs(sc), True
        return J, (lambda: ops.TransformDiagonalScaling(xs, arg)), xs, xs
    if kind in ("grad", "lap"):
        xs = rand_shape(rng)
        J = base(kind, xs)
        J["pad"] = ["edge", "edge", "constant", "wrap"][rng.integers(4)]
        ax = pick_axes(rng, len(xs))
        if rng.random() < 0.3:
            ax, arg = list(range(len(xs))), None
        else:
            arg = [a - len(xs) * int(rng.random() < 0.5) for a in ax]
            if len(arg) == 1 and rng.random() < 0.5:
                arg = arg[0]
        J["axes"] = [a + 1 for a in ax]
        cls = ops.TransformGradient if kind == "grad" else ops.TransformLaplacian
        pad = J["pad"]
        default = pad == "edge" and rng.random() < 0.5
        return J, (lambda: cls(xs, axes=arg) if default else cls(xs, axes=arg, pad_mode=pad)), xs, ((len(ax), *xs) if kind == "grad" else xs)
    if kind == "fft":
        xs = rand_shape(rng, 8)
        J = base("fft", xs)
        ax = pick_axes(rng, len(xs))
        if rng.random() < 0.3:
            ax, arg = list(range(len(xs))), None
        else:
            arg = [a - len(xs) for a in ax]
        J["axes"], J["iso"] = [a + 1 for a in ax], True
        return J, (lambda: ops.TransformFourier(xs, axes=arg)), xs, (2, *xs)
    if kind == "conv":
        nd = int(rng.integers(1, 3))
        xs = tuple(int(v) for v in rng.integers(2, [8, 4][nd - 1], size=nd))
        J = base("conv", xs)
        ks = tuple(int(v) for v in rng.choice([1, 3, 3, 5], size=nd))
        ks = tuple(min(k, 2 * n - 1) for k, n in zip(ks, xs))
        kd1 = nd == 2 and rng.random() < 0.3
        if kd1:
            ks = (1, ks[1])
        K = q(rng, ks)
        pal = rng.random() < 0.4
        if pal:
            K = (K + np.flip(K)) / 2
        J["kernel"], J["kshape"] = si.decs(K), list(ks)
        J["pad"] = ["constant", "wrap", "edge", "reflect", "symmetric"][rng.integers(5)]
        if J["pad"] == "reflect" and min(xs) < 2:
            J["pad"] = "constant"
        symm = bool(rng.random() < 0.75)
        flip = bool(rng.random() < 0.6)
        exact = J["pad"] in ("constant", "wrap") and (pal or flip)
        J.update(symm=symm, flip=flip, abs=True, adj="id" if not symm else "T" if exact else "approx")
        pad = J["pad"]
        karg = K[0] if kd1 else K
        default = pad == "edge" and rng.random() < 0.5
        if default:
            return J, (lambda: ops.TransformConvolution(xs, karg, is_symm=symm, flip_adjoint=flip)), xs, xs
        return J, (lambda: ops.TransformConvolution(xs, karg, pad_mode=pad, is_symm=symm, flip_adjoint=flip)), xs, xs
    wl = ["db1", "db1", "db2", "sym4", "bior2.2"][rng.integers(5)]
    w = pywt.Wavelet(wl)
    if kind == "swt":
        nd = int(rng.integers(1, 3))
        xs = [(4,), (8,), (6,), (7,), (5,), (3,)][rng.integers(6)] if nd == 1 else [(4, 4), (2, 4), (3, 4), (2, 2), (3, 2)][rng.integers(5)]
        J = base("swt", xs)
        ax = pick_axes(rng, nd, perm=False)
        L = int(rng.integers(1, 3))
        if rng.random() < 0.3:
            ax, arg = list(range(nd)), None
        else:
            arg = [a - nd for a in ax]
        padded = any(xs[a] % 2**L for a in ax)
        norm = bool(rng.random() < 0.7)
        pad = ["edge", "constant", "wrap", "symmetric"][rng.integers(4)]
        exact = norm and not padded and w.orthogonal
        J.update(axes=[a + 1 for a in ax], pad=pad, level=L, norm=norm, lo=[num(v) for v in w.dec_lo], hi=[num(v) for v in w.dec_hi],
                 adj="T" if exact else "inv", iso=False, depth=2, showM=False)
        bs = [n + (-n) % 2**L if a in ax else n for a, n in enumerate(xs)]
        bs = (L * (2 ** len(ax) - 1) + 1, *bs)
        default = pad == "edge" and rng.random() < 0.5
        kw = {} if default else {"pad_on_demand": pad}
        return J, (lambda: ops.TransformStationaryWavelet(xs, wl, L, axes=arg, normalized=norm, **kw)), xs, bs
    if kind == "dwt1":
        n = int(rng.integers(2, 11))
        L = int(rng.integers(1, 3))
        mode = ["edge", "constant", "periodization", "periodic", "symmetric", "zero"][rng.integers(6)]
        if mode == "periodization":
            n = [4, 8, 12][rng.integers(3)]
        J = base("dwt1", (n,))
        exact = w.orthogonal and (mode == "periodization" or (wl == "db1" and n % 2**L == 0))
        J.update(pad=mode, level=L, lo=[num(v) for v in w.dec_lo], hi=[num(v) for v in w.dec_hi], adj="T" if exact else "inv", iso=False, depth=2, showM=False)
        kw = {} if mode == "edge" else {"pad_on_demand": mode}
        ln, tot, F = n, 0, len(w.dec_lo)
        for _ in range(L):
            ln = (ln + 1) // 2 if mode == "periodization" else (ln + F - 1) // 2
            tot += ln
        return J, (lambda: ops.TransformDecimatedWavelet((n,), wl, L, **kw)), (n,), (tot + ln,)
    if kind == "dwtn":
        L = int(rng.integers(1, 3))
        xs = [(4, 4), (4, 2), (2, 4), (4, 3), (2, 3, 2), (4, 1, 4)][rng.integers(6)]
        nd = len(xs)
        ax = [a for a in range(nd) if xs[a] % 2**L == 0]
        if not ax:
            L = 1
            ax = [a for a in range(nd) if xs[a] % 2 == 0]
        if rng.random() < 0.4:
            ax = ax[:1] if rng.random() < 0.5 else ax[-1:]
        J = base("dwtn", xs)
        if wl == "bior2.2":
            wl = "db2"
            w = pywt.Wavelet(wl)
        mode = "periodization" if wl != "db1" else ["constant", "periodization", "edge"][rng.integers(3)]
        J.update(pad=mode, level=L, axes=[a + 1 for a in ax], lo=[num(v) for v in w.dec_lo], hi=[num(v) for v in w.dec_hi], adj="T", iso=False, depth=2, showM=False)
        arg = [a - nd for a in ax]
        return J, (lambda: ops.TransformDecimatedWavelet(xs, wl, L, axes=arg, pad_on_demand=mode)), xs, xs
    raise ValueError(kind)


def close(a, b, tol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b)) if b.size else 1)))


def apply_chain(A, chain):
    for c in chain:
        A = A.T if c == "T" else A.H if c == "H" else A.absolute()
    return A


def replay(ck, J, mk, xs, bs, e, xd, xa, rng):
    what = {"op": {k: v for k, v in J.items() if k not in ("M", "xd", "xa")}, "in": xs, "out": bs, "chain": e["chain"]}
    nt = sum(c != "abs" for c in e["chain"]) % 2
    tol = 1e-10
    k = J["kind"]
    ok, A = ck.guard(k + ".build", mk, what)
    if not ok:
        return
    ok, H = ck.guard(k + ".chain", lambda: apply_chain(A, e["chain"]), what)
    if not ok:
        return
    x, y = (xa, xd) if nt else (xd, xa)
    ishape, oshape = (bs, xs) if nt else (xs, bs)
    x = vf.laid(x.reshape(ishape))
    y = vf.laid(y.reshape(oshape))
    fx = si.f(e["fx"]).reshape(oshape)
    x0 = x.copy()

    def ex(cond, clause, d=None):
        ck.expect(cond, f"{k}.{clause}", lambda: {"case": what, "x": x, "y": y, "spec": fx, "got": d})

    ex(tuple(H.shape) == (int(np.prod(oshape)), int(np.prod(ishape))), "shape", H.shape)
    ok, r = ck.guard(k + ".call", lambda: H(x), what)
    if not ok:
        return
    ex(close(r, fx, tol), "direct", r)
    ex(np.array_equal(x, x0), "input-modified")
    if not (k == "mat" and isinstance(A, ops.TransformFunctions)):
        ex(not np.shares_memory(r, x), "result-aliases-input")
    r1 = np.array(r, copy=True)
    inplace = np.asarray(r)
    if inplace.flags.writeable:
        inplace += 1.0  # results belong to the caller
    ok, r2 = ck.guard(k + ".call", lambda: H(x), what)
    if ok:
        ex(close(r2, r1, 1e-14), "not-repeatable", r2)
    for name, fn in (("matvec", lambda: H.matvec(x.ravel())), ("matmul", lambda: H @ x.ravel()), ("mul", lambda: H * x.ravel())):
        ok, r = ck.guard(f"{k}.{name}", fn, what)
        if ok:
            ex(close(np.ravel(r), fx.ravel(), tol), name, r)
    r = None
    if J["adj"] != "inv":
        bx = si.f(e["bx"]).reshape(ishape)
        for name, fn, want in (("adjoint", lambda: H.T(y), bx), ("rmatvec", lambda: H.rmatvec(y.ravel()), bx.ravel()), ("hermitian", lambda: H.H @ y.ravel(), bx.ravel())):
            ok, r = ck.guard(f"{k}.{name}", fn, what)
            if ok:
                ck.expect(close(r, want, tol), f"{k}.{name}", lambda: {"case": what, "y": y, "got": r, "spec": want})
        if rng.random() < 0.3:
            ok, r = ck.guard(f"{k}.matmat", lambda: H @ np.stack([x.ravel(), 2 * x.ravel()], axis=1), what)
            if ok:
                ex(close(r, np.stack([fx.ravel(), 2 * fx.ravel()], axis=1), tol), "matmat", r)
            ok, r = ck.guard(f"{k}.compose", lambda: (H.T * H) @ x.ravel(), what)
            if ok:
                ok, want = ck.guard(f"{k}.compose", lambda: H.T(H(x)), what)
                if ok:
                    ex(close(np.ravel(r), np.ravel(want), 1e-9), "compose", r)
    else:
        ok, r = ck.guard(f"{k}.inverse", lambda: A.T(A(x)), what)
        if ok:
            ck.expect(close(r, x, 1e-8), f"{k}.inverse", lambda: {"case": what, "x": x, "got": r})
    if e["M"]:
        ok, r = ck.guard(f"{k}.explicit", lambda: H.explicit(), what)
        if ok:
            ck.expect(close(r, np.array([si.f(row) for row in e["M"]]), 2e-6), f"{k}.explicit", lambda: {"case": what, "got": r, "spec": e["M"]})
    # single precision
    ok, r = ck.guard(k + ".call32", lambda: H(x.astype(np.float32)), what)
    if ok:
        ex(close(r, fx, 3e-5), "direct32", r)
    # the operator it is made from is still the same
    if e["chain"]:
        ok, r = ck.guard(k + ".original", lambda: A(xd.reshape(xs)), what)
        if ok:
            ok, want = ck.guard(k + ".original", lambda: mk()(xd.reshape(xs)), what)
            if ok:
                ck.expect(close(r, want, 1e-13), f"{k}.original-changed", lambda: {"case": what, "got": r, "spec": want})


KINDS = ["mat", "ident", "diag", "grad", "lap", "fft", "conv", "swt", "dwt1", "dwtn", "grad", "conv", "lap", "swt"]


def linear(ck, rng, num_):
    jobs = []
    for J, mk, xs, bs in [g for k in dict.fromkeys(KINDS) for g in vf.spread(lambda k=k: gen(rng, k), lambda g: vf.features(g[0]), -(-num_ * KINDS.count(k) // len(KINDS)))]:
        xd, xa = q(rng, int(np.prod(xs))), q(rng, int(np.prod(bs)))
        J["xd"], J["xa"] = si.decs(xd), si.decs(xa)
        jobs.append((J, mk, xs, bs, xd, xa))
    parts = [jobs[o::6] for o in range(6)]

    def one(part):
        return part, ck.tlc("Operators", files={"instances.json": [p[0] for p in part]}, invariants=INV, mem="3g", timeout=3000)

    with ThreadPoolExecutor(6) as ex:
        for part, r in ex.map(one, parts):
            for e in r.emitted:
                J, mk, xs, bs, xd, xa = part[e["iid"] - 1]
                ck.case(J["kind"], {"op": J, "behaviour": e})
                replay(ck, J, mk, xs, bs, e, xd, xa, rng)


def svd(ck, rng, num_):
    ins, meta = [], []
    while len(ins) < num_:
        nd = int(rng.integers(2, 5))
        shape = [int(v) for v in rng.integers(1, 5, size=nd)]
        p = [int(v) for v in rng.permutation(nd)]
        nr = 1 if nd == 2 or rng.random() < 0.7 else 2
        rows = p[:nr]
        nc = int(rng.integers(1, nd - nr + 1))
        cols = p[nr:nr + nc]
        rest = sorted(set(range(nd)) - set(rows) - set(cols))
        R, C = int(np.prod([shape[a] for a in rows])), int(np.prod([shape[a] for a in cols]))
        if min(R, C) > 2 or np.prod(shape) > 48:
            continue
        x = q(rng, int(np.prod(shape)))
        resc = bool(rng.random() < 0.4)
        ins.append({"shape": shape, "rows": [a + 1 for a in rows], "cols": [a + 1 for a in cols], "rest": [a + 1 for a in rest], "x": si.decs(x), "rescale": resc})
        meta.append((shape, rows, cols, rest, x, resc))
    r = ck.tlc("Svd", files={"instances.json": ins}, invariants=["Energy", "EmitAll"])
    for e in r.emitted:
        shape, rows, cols, rest, x, resc = meta[e["iid"] - 1]
        what = {"shape": shape, "rows": rows, "cols": cols, "rescale": resc, "x": x}
        ck.case("svd", what)
        xx = vf.laid(x.reshape(shape))
        ok, S = ck.guard("svd.build", lambda: ops.TransformSVD(shape, axes_rows=[a - len(shape) for a in rows], axes_cols=cols, rescale=resc), what)
        if not ok:
            continue
        for k in (0, 1):
            ok, s = ck.guard("svd.direct", lambda: S(xx), what)
            if not ok:
                break
            want = np.array([si.f(v) for v in e["s"]])
            ck.expect(close(np.reshape(s, want.shape) if np.size(s) == want.size else s, want, 1e-7), "svd.values", lambda: {"case": what, "got": s, "spec": want})
            ck.expect(tuple(np.shape(s)) == tuple(S.adj_shape), "svd.shape", lambda: {"case": what, "got": np.shape(s), "declared": S.adj_shape})
            ok, back = ck.guard("svd.inverse", lambda: S.T(s), what)
            if ok:
                ck.expect(close(back, xx, 1e-8), "svd.inverse", lambda: {"case": what, "got": back})
            ck.expect(np.array_equal(xx.ravel(), x), "svd.input-modified", what)


def run(ck):
    rng = np.random.default_rng(8000 + ck.seed)
    linear(ck, rng, 6000 if ck.thorough else 280)
    svd(ck, rng, 1500 if ck.thorough else 150)
