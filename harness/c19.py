"""C19: filters of the filtered back-projection (spec/Filters.tla)."""

import numpy as np

import solver_inst as si
import vf
from corrct import filters, operators, solvers
from harness.c14 import fl, quiet, rnd

INV = ["Isolated", "WindowDamps", "KernelSym", "BinsCover", "Orthogonal", "BasisSym", "BasisNorm", "WaveNorm", "Adjoint", "EmitAll"]
KINDS = {"apply": 40, "named": 30, "basis": 40, "wave": 16, "mr": 12, "fbp": 30}
MODES = ["constant", "edge", "wrap", "symmetric", "reflect", "mean", "maximum", "minimum"]
NAMES = list(filters.FilterFBP.FILTERS)


def pad_size(n):
    N = 64
    while N < 2 * n:
        N *= 2
    return N


def mode_arg(rng, p=0.35):
    mode = "constant" if rng.random() < p else MODES[rng.integers(len(MODES))]
    kw = {} if mode == "constant" and rng.random() < 0.5 else {"pad_mode": mode.upper() if rng.random() < 0.2 else mode}
    return mode, kw


def sino(rng, n=None):
    """Lines of detector pixels: angles, or rows and angles."""
    n = n or int(rng.choice([rng.integers(2, 12), rng.integers(2, 12), 32, 33]))
    shape = (int(rng.integers(1, 4)), n) if rng.random() < 0.7 else (int(rng.integers(1, 3)), int(rng.integers(1, 3)), n)
    return rnd(rng, shape)


def near(got, want, tol):
    g, w = np.asarray(got), np.asarray(want, float)
    return g.shape == w.shape and not np.iscomplexobj(g) and bool(np.all(np.abs(g - w) <= tol * (1 + np.abs(w).max(initial=0))))


def rfft(r, h):
    f = np.fft.ifftshift(h, axes=-1)
    return np.fft.rfft(f) if r else np.fft.fft(f)


def ifft(r, f, N):
    return np.fft.fftshift(np.fft.irfft(f, N, axis=-1) if r else np.fft.ifft(f, axis=-1).real, axes=-1)


def gen_apply(rng):
    """Kernels given in Fourier or real space, applied to one or more sinograms."""
    d = sino(rng)
    N = pad_size(d.shape[-1])
    nf = 1 if rng.random() < 0.6 else int(rng.integers(2, 4))
    form = rng.integers(4)  # at construction, Fourier setter, real setter, argument of the application
    h = np.zeros((nf, N))
    w = int(rng.integers(0, 6)) if rng.random() < 0.7 else N // 2
    h[:, N // 2 - w : N // 2 + w + 1] = rnd(rng, (nf, min(2 * w + 1, N)))
    if form == 0 or rng.random() < 0.2:  # real filters in Fourier
        h[:, 0] = 0
        h[:, 1:] += h[:, :0:-1]
    if rng.random() < 0.1:
        form, h, nf = 4, np.zeros((1, N)), 1
        h[:, N // 2] = 1
    mode, kw = mode_arg(rng)
    rf = bool(rng.random() < 0.6)
    if not rf or rng.random() < 0.3:
        kw["use_rfft"] = rf
    tol = 1e-9
    if form == 0:
        if rng.random() < 0.7:
            kw["dtype"] = np.float64
        else:
            tol = 2e-5
    data = [d] + [rnd(rng, d.shape) for _ in range(int(rng.integers(0, 2)))]
    J = {"h": [si.decs(k) for k in h], "mode": mode, "steps": [{"lines": [si.decs(v) for v in x.reshape(-1, x.shape[-1])]} for x in data]}
    hh = h[0] if nf == 1 and rng.random() < 0.6 else h
    own = rng.random() < 0.5

    def call():
        f = filters.FilterCustom(rfft(rf, hh) if form == 0 and rng.random() < 0.5 else rfft(rf, hh).real if form == 0 else None, **kw)
        if form == 1:
            given = rfft(rf, hh)
            f.filter_fourier = given
            given[...] = 7  # what was given belongs to the caller
        elif form == 2:
            given = hh.copy()
            f.filter_real = given
            given[...] = 7
        out = [f.apply_filter(x, rfft(rf, hh)) if form == 3 else f(x) if own else f.apply_filter(x) for x in data]
        return out, f.num_filters, f.filter_fourier, f.filter_real if form < 3 else None

    def judge(r, got):
        out, num, ff, fr = got
        want = [np.array([[fl(l) for l in k] for k in s]).reshape((nf,) + d.shape) for s in r["y"]]
        ok = {"filtered": all(near(g, w[0] if nf == 1 else w, tol) for g, w in zip(out, want))}
        if form < 3:
            ok["number"] = num == nf
            ok["fourier"] = np.allclose(ff, rfft(rf, hh), atol=tol * N)
            ok["real"] = near(fr, hh, tol)
        return ok

    return J, "custom", call, judge, data


def gen_named(rng):
    """Classic filters: the same object on sinograms of different sizes."""
    name = NAMES[rng.integers(len(NAMES))]
    data = [sino(rng) for _ in range(int(rng.integers(1, 4)))]
    mode, kw = mode_arg(rng)
    rf = bool(rng.random() < 0.5)
    if not rf or rng.random() < 0.3:
        kw["use_rfft"] = rf
    J = {"name": name, "mode": mode, "steps": [{"lines": [si.decs(v) for v in x.reshape(-1, x.shape[-1])], "angles": x.shape[-2]} for x in data]}
    args = () if name == "ramp" and rng.random() < 0.5 else (name.upper() if rng.random() < 0.3 else name,)

    def call():
        f = filters.FilterFBP(*args, **kw)
        out = []
        for x in data:
            y = f(x)
            out.append((y, f.apply_filter(x), f.filter_fourier, f.filter_real, f.num_filters))
        return out, tuple(f.get_available_filters())

    def judge(r, got):
        ok = {"names": sorted(got[1]) == sorted(NAMES)}
        for x, s, (y, y2, ff, fr, num) in zip(data, r, got[0]):
            w = np.array([fl(l) for l in s["y"]]).reshape(x.shape)
            half = fl(s["f"])
            ok["filtered"] = ok.get("filtered", True) and near(y, w, 1e-9) and near(y2, w, 1e-9)
            full = half if rf else np.concatenate([half, half[-2:0:-1]])
            ok["kernel"] = ok.get("kernel", True) and near(fr, fl(s["h"]), 1e-9) and np.allclose(ff, full, atol=1e-9) and num == 1
        return ok

    return J, f"classic.{name}", call, judge, data


def gen_basis(rng):
    n = int(rng.integers(4, 41))
    start = [-1, 0, 1, 2, 2, 5][rng.integers(6)]
    typ = ["exponential", "incremental", "custom"][rng.integers(3)]
    order, norm = int(rng.integers(0, 2)), bool(rng.random() < 0.5)
    J = {"n": n, "start": start, "type": typ, "order": order, "norm": norm}
    kw = {"dtype": np.float64}
    if typ != "exponential" or rng.random() < 0.5:
        kw["binning_type"] = typ
    if start != 2 or rng.random() < 0.5:
        kw["binning_start"] = None if start < 0 else start
    if norm or rng.random() < 0.5:
        kw["normalized"] = norm
    if order != 1 or rng.random() < 0.5:
        kw["order"] = order

    def judge(r, got):
        return {"values": near(got, np.array([fl(b) for b in r["b"]]), 1e-9)}

    return J, "basis", lambda: filters.create_basis(n, **kw), judge, []


def gen_wave(rng):
    import pywt

    name = ["bior2.2", "haar", "db2", "sym3", "bior1.3"][rng.integers(5)]
    w = pywt.Wavelet(name)
    lo, hi = np.trim_zeros(w.dec_lo), np.trim_zeros(w.dec_hi)
    n = int(rng.integers(max(len(lo), len(hi), 4), 26))
    level, norm = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    J = {"n": n, "lo": si.decs(lo), "hi": si.decs(hi), "level": level, "norm": norm}
    kw = {"level": level, "dtype": np.float64}
    if name != "bior2.2" or rng.random() < 0.5:
        kw["wavelet"] = name
    if norm != 1 or rng.random() < 0.5:
        kw["norm"] = float(norm)

    def judge(r, got):
        want = np.array([fl(b) for b in r["b"]])
        return {"values": near(np.fft.fftshift(got, axes=-1), want, 1e-9)}

    return J, "wavelet-basis", lambda: filters.create_basis_wavelet(n, **kw), judge, []


class Matrix(operators.BaseTransform):
    """A given projector, in double precision."""

    def __init__(self, rows, n, angles):
        self.dir_shape, self.adj_shape = np.array([n, n]), np.array([angles, n])
        self.m = np.zeros((angles * n, n * n))
        for r, row in enumerate(rows):
            for k, v in row:
                self.m[r, k] += v
        super().__init__()

    def _op_direct(self, x):
        return (self.m @ x.ravel()).reshape(self.adj_shape)

    def _op_adjoint(self, x):
        return (x.ravel() @ self.m).reshape(self.dir_shape)

    def absolute(self):
        raise NotImplementedError()


class Weighted(operators.ProjectorOperator):
    """The same, as a projector with weights for the data."""

    def __init__(self, mat, weights):
        self.mat, self.weights = mat, weights
        self.vol_shape, self.prj_shape = mat.dir_shape, mat.adj_shape
        super().__init__()

    def fp(self, x):
        return self.mat._op_direct(x)

    def bp(self, x):
        return self.mat._op_adjoint(x)

    def get_pre_weights(self):
        return self.weights

    def absolute(self):
        raise NotImplementedError()


def projector(rng, n, angles):
    """Sparse rows: sums along lines of the image (rows, columns, shifted diagonals), with random weights."""
    rows = []
    for a in range(angles):
        slope = [(1, 0), (0, 1), (1, 1), (1, -1)][a % 4]
        for u in range(n):
            row = []
            for k in range(n):
                y, x = (k, u) if slope == (1, 0) else (u, k) if slope == (0, 1) else (k, u + slope[1] * (k - n // 2))
                if 0 <= x < n:
                    row.append((y * n + x, 1.0 if n > 12 else float(round(rng.uniform(0.5, 1.5), 1))))
            rows.append(row)
    cols = [[] for _ in range(n * n)]
    for r, row in enumerate(rows):
        for k, v in row:
            cols[k].append((r, v))

    def js(ls):
        return [[[k + 1, si.dec(v)] for k, v in l] for l in ls]

    return Matrix(rows, n, angles), js(rows), js(cols)


def gen_mr(rng):
    """Recorded kernels of the data-driven filter, on a history of sinograms."""
    ns = [int(rng.integers(3, 7))]
    if rng.random() < 0.5:
        ns.append(33 if rng.random() < 0.5 else int(rng.integers(3, 7)))
        if rng.random() < 0.5:
            ns.reverse()
    typ = ["exponential", "exponential", "incremental"][rng.integers(3)]
    start = [2, 2, 0, 4, -1][rng.integers(5)] if max(ns) < 33 else 2
    if typ == "incremental" or start == -1:
        ns = [min(n, 6) for n in ns]
    mode, kw = ("constant", {}) if rng.random() < 0.5 else mode_arg(rng)
    smooth = "0" if rng.random() < 0.6 else si.dec(float(rng.choice([0.1, 0.5, 2.0])))
    if start == -1:
        smooth = "0.5"
    if smooth != "0":
        kw["lambda_smooth"] = float(smooth)
    elif rng.random() < 0.3:
        kw["lambda_smooth"] = 0.0
    if typ != "exponential" or rng.random() < 0.3:
        kw["binning_type"] = typ
    if start != 2 or rng.random() < 0.3:
        kw["binning_start"] = None if start < 0 else start
    rf = bool(rng.random() < 0.6)
    if not rf:
        kw["use_rfft"] = False
    flt, steps, outs = None, [], []
    same = rng.random() < 0.5
    for n in ns:
        angles = 2 if n > 12 else int(rng.integers(2, 5))
        mat, rows, cols = projector(rng, n, angles)
        d = mat(rnd(rng, (n, n), 0.0)) + 0.1 * rng.uniform(-1, 1, size=(angles, n))
        d = d.round(3)
        keep = d.copy()
        if flt is None:
            flt = filters.FilterMR(mat, dtype=np.float64, **kw)
        else:
            flt.projector = mat
        outs.append(flt(d) if same else quiet(lambda: solvers.FBP(fbp_filter=flt, pad_mode=mode)(mat, d))[0])
        if flt.filter_real.size != pad_size(n) or flt.filter_fourier.size != (pad_size(n) // 2 + 1 if rf else pad_size(n)):
            raise ValueError(f"filter of {flt.filter_real.size} values for {n} pixels")
        assert np.array_equal(keep, d)
        steps.append({"n": n, "data": si.decs(d), "kernel": si.decs(ifft(rf, flt.filter_fourier, pad_size(n))), "rows": rows, "cols": cols, "m": mat, "f": flt.filter_real.size})
    J = {"start": start, "type": typ, "mode": mode, "smooth": smooth, "smoothed": smooth != "0", "steps": [{k: v for k, v in s.items() if k not in ("m", "f")} for s in steps]}

    def judge(r, got):
        ok = {"span": True, "optimal": True, "filtered": True, "size": True}
        for s, e, o in zip(steps, r, outs):
            ok["size"] &= s["f"] == e["size"]
            ok["span"] &= float(e["away"]) < 1e-7
            ok["optimal"] &= float(e["slope"]) < 1e-7
            y = fl(e["y"]).reshape(s["m"].adj_shape)
            ok["filtered"] &= near(o, y if same else s["m"].T(y), 1e-8)
        return ok

    return J, "fitted", lambda: None, judge, []


def gen_fbp(rng):
    n = int(rng.integers(3, 8))
    angles = int(rng.integers(1, 5))
    mat, rows, cols = projector(rng, n, angles)
    d = rnd(rng, (angles, n))
    N = pad_size(n)
    form = rng.integers(4)  # by default, name, array, object
    name = "ramp" if form == 0 else NAMES[rng.integers(len(NAMES))] if form in (1, 3) else ""
    mode, kp = mode_arg(rng)
    kp = {k: v.lower() for k, v in kp.items()}
    h = np.zeros(N)
    h[N // 2] = 1
    w = rnd(rng, (3,))
    h[N // 2 + 1 : N // 2 + 4], h[N // 2 - 3 : N // 2] = w, w[::-1]
    kw = dict(kp)
    if form == 1:
        kw["fbp_filter"] = name.upper() if rng.random() < 0.4 else name
    elif form == 2:
        kw["fbp_filter"] = rfft(True, h).real
    elif form == 3:
        kw["fbp_filter"] = filters.FilterFBP(name, pad_mode=mode, use_rfft=bool(rng.random() < 0.5))
    weights = rng.uniform(0.5, 1, size=d.shape).round(2) if rng.random() < 0.4 else None
    A = Weighted(mat, weights) if weights is not None or rng.random() < 0.3 else mat
    call_kw = {}
    lo = hi = ""
    if rng.random() < 0.4:
        lo = round(float(rng.uniform(-0.3, 0.3)), 2)
        call_kw["lower_limit"] = lo
    if rng.random() < 0.4:
        hi = round(float(rng.uniform(0.4, 1)), 2)
        call_kw["upper_limit"] = hi
    mask = np.ones((n, n))
    if rng.random() < 0.4:
        mask = (rng.random((n, n)) < 0.7).astype(float)
        call_kw["x_mask"] = mask
    if rng.random() < 0.3:
        call_kw["iterations"] = 3
    J = {"name": name, "mode": mode, "lo": si.dec(lo) if lo != "" else 0, "hi": si.dec(hi) if hi != "" else 0, "floored": lo != "", "capped": hi != "",
         "steps": [{"n": n, "data": si.decs(d), "weights": si.decs(np.ones(d.shape) if weights is None else weights), "kernel": si.decs(h), "cols": cols, "mask": si.decs(mask)}]}

    def call():
        s = solvers.FBP(**kw)
        text = s.info()
        return s(A, d, **call_kw)[0], s(A, d, **call_kw)[0], text

    def judge(r, got):
        want = fl(r["x"]).reshape(n, n)
        tol = 2e-5 if form == 2 else 1e-8
        label = name.upper() if form < 2 else {2: "FILTERCUSTOM", 3: "FILTERFBP"}[int(form)]
        return {"image": near(got[0], want, tol), "again": near(got[1], want, tol), "info": label in got[2]}

    return J, "reconstruction", call, judge, [d, mask] + ([] if weights is None else [weights])


GEN = {"apply": gen_apply, "named": gen_named, "basis": gen_basis, "wave": gen_wave, "mr": gen_mr, "fbp": gen_fbp}


def run(ck):
    rng = np.random.default_rng(19000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        def draw():
            return ck.guard("fitted", lambda: GEN[kind](rng), {"kind": kind}) if kind == "mr" else (True, GEN[kind](rng))

        for ok, job in vf.spread(draw, lambda g: vf.features(g[1][0]) if g[0] else {}, num * (20 if ck.thorough else 2), 1 if kind == "mr" else 5):
            if ok:
                jobs.append(({"kind": kind, **job[0]}, kind, *job[1:]))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Filters", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6, timeout=800)
    for e in r.emitted:
        J, kind, what, fn, judge, inputs = jobs[order[e["iid"] - 1]]
        ck.case(kind, {"case": J, "result": e["r"]})
        keep = [a.copy() for a in inputs]
        ok, got = ck.guard(what, lambda: quiet(fn), J)
        if not ok:
            continue
        ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
        for name, good in judge(e["r"], got).items():
            ck.expect(bool(good), f"{what}.{name}", lambda: {**J, "got": str(got), "spec": e["r"]})
    one = np.ones((2, 4))
    for what, fn in (("filter-name", lambda: filters.FilterFBP("other")), ("binning-type", lambda: filters.FilterMR(None, binning_type="other")),
                     ("basis-binning", lambda: filters.create_basis(20, binning_type="other")), ("one-line", lambda: solvers.FBP()(operators.TransformIdentity([4]), one[0])),
                     ("solver-filter", lambda: solvers.FBP(fbp_filter="other")(operators.TransformIdentity([2, 4]), one))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
