"""C07: regularizers and constraints as objects (spec/RegObj.tla, spec/Reg.tla)."""

import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import pywt

import solver_inst as si
import vf
from corrct import data_terms as dt
from corrct import regularizers as R

INV = ["EmitStep", "WithinWeights", "NoDrift", "Projection", "TightFrame", "SvdInverse"]
KINDS = ["grad", "grad", "grad", "lap", "id", "lowlim", "uplim", "med", "vtv", "tnv", "fft", "dwl", "swl", "swln", "grad", "grad", "vwl", "lnwl", "grad", "dwl", "vsvd", "med"]


def gen(rng, kind):
    r = {"kind": kind, "norm": "l1", "err": 0, "pad": "edge", "C": 1, "der": 2, "chan": 0, "xref": [], "approx": True, "filt": "delta", "nrm": True, "rch": False, "fs": 3, "lvl": 1, "wl": "db1", "alt": int(rng.integers(4))}
    wave = kind in ("dwl", "swl", "swln")
    multich = kind in ("vtv", "tnv", "vwl", "lnwl", "vsvd")
    if kind in ("grad", "lap"):
        pool = [(3,), (4,), (2, 3), (3, 2), (2, 2, 2), (1, 3), (2, 1, 3)]
    elif kind == "vsvd":
        pool = [(2, 3), (2, 2), (2, 2, 2), (2, 3, 2), (2, 1, 3)]
    elif kind in ("vtv", "tnv"):
        pool = [(2, 2, 2), (2, 2, 3), (3, 2, 2), (1, 2, 3)] + [(2, 3)] * (kind == "vtv")
    elif kind in ("vwl", "lnwl"):
        pool = [(2, 4), (3, 4), (3, 2), (1, 4), (2, 2, 2), (1, 2, 4), (2, 4, 2), (1, 4, 4)] + [(3, 2, 2)] * (kind == "vwl") + [(2, 3), (2, 5), (2, 1, 3), (2, 3, 2)]
    elif wave:
        pool = [(4,), (2,), (8,), (2, 4), (4, 2), (2, 2), (4, 4), (3, 4)] + [(3,), (5,), (3, 2), (2, 3), (6,)] * (kind != "dwl")
    elif kind == "fft":
        pool = [(4,), (3,), (2, 3), (3, 2), (2, 4)]
    else:
        pool = [(3,), (4,), (2, 3), (3, 3), (2, 2, 2)]
    na2 = 2  # the derivatives of the multi-channel kinds
    if kind in ("vtv", "tnv") and rng.random() < 0.45:
        na2 = 1 if rng.random() < 0.6 else 3
        pool = {1: [(2, 3), (1, 3), (2, 4)] + [(3, 3)] * (kind == "vtv"), 3: [(1, 2, 2, 2), (2, 2, 1, 2), (2, 2, 2, 2), (1, 2, 3, 2)]}[na2]
    shape = pool[rng.integers(len(pool))]
    nd = len(shape)
    scalar = kind == "vtv" and nd == 2 and na2 == 2
    if multich:
        r["C"] = 1 if scalar else shape[0]
        na = na2 if kind in ("vtv", "tnv") else nd - 1
        if kind == "vsvd" and nd == 3 and shape != (2, 1, 3) and rng.random() < 0.4:
            na = 1
        axes = list(range(nd - na + 1, nd + 1))
    elif shape == (3, 4):
        axes = [2]
        na = 1
    else:
        na = int(rng.integers(1, min(nd, 3) + 1))
        axes = sorted(int(a) + 1 for a in rng.choice(nd, na, replace=False))
    r["axes"] = axes
    multi = rng.random() < 0.4 and (shape != (3, 4) or multich)
    if multi:
        other = [s for s in pool if len(s) == nd and (s != (3, 4) or multich) and (not multich or scalar or s[0] == shape[0])]
        shapes = [shape, other[rng.integers(len(other))]]
    else:
        shapes = [shape]
    r["shapes"] = shapes
    if wave or kind in ("vwl", "lnwl"):
        r["wl"] = ["db1", "db2", "sym4", "bior2.2", "bior1.3"][rng.integers(5)]
        pad_to = kind != "dwl" and rng.random() < 0.4
        if pad_to:
            r["pad"] = ["edge", "constant", "wrap", "symmetric"][rng.integers(4)]
        if (all(s[a - 1] % 4 == 0 for s in shapes for a in axes) or pad_to) and (kind != "lnwl" or shape[0] < 3) and rng.random() < 0.7:
            r["lvl"] = 2
    if kind in ("grad", "lap", "tnv"):
        r["pad"] = ["edge", "constant", "wrap"][rng.integers(3)]
    if kind == "grad":
        r["norm"] = ["l12", "l12", "l2", "l1", "Hub"][rng.integers(5)]
        if r["norm"] == "Hub":
            r["err"] = rng.integers(1, 5) / 4.0
    if kind == "med":
        r["norm"] = ["l1", "l2"][rng.integers(2)]
        r["fs"] = [3, 3, 1, 5][rng.integers(4)]
    if kind in ("lowlim", "uplim"):
        r["norm"] = "l2"
    if kind in ("vtv", "vwl"):
        r["norm"] = "l12" if kind == "vtv" else "l1"
        r["der"] = int([1, 2, 2, 0][rng.integers(4)])
        r["chan"] = int([1, 2, 0, 0][rng.integers(4)])
    if kind in ("tnv", "lnwl"):
        r["norm"] = "ln"
    if kind in ("vwl", "lnwl"):
        r["approx"] = bool(rng.random() < 0.6)
        r["nrm"] = bool(rng.random() < 0.5)
    if multich and kind != "vsvd" and not (kind == "tnv" and na != 2 and r["C"] > 1) and not multi and not scalar and not (kind == "lnwl" and (nd == 3 or r["lvl"] > 1) and shape[0] > 1) and rng.random() < 0.5:
        r["xref"] = si.q4(rng, -2, 2, int(np.prod(shape[1:])))
        r["rch"] = kind != "vtv" and bool(rng.random() < 0.5)
    if kind == "fft":
        r["norm"] = ["l12", "l1"][rng.integers(2)]
        r["filt"] = ["delta", "exp", "exp2"][rng.integers(3)]
    if wave:
        r["norm"] = ["l1", "l1", "l12", "Hub"][rng.integers(4)]
        if r["norm"] == "Hub":
            r["err"] = rng.integers(1, 5) / 4.0
        r["approx"] = bool(rng.random() < 0.6) or (kind == "dwl" and r["norm"] == "Hub")
    sizes = [int(np.prod(s)) for s in shapes]
    w0 = rng.integers(1, 9) / 8.0
    r["ws"] = [np.full(n, w0) for n in sizes]
    if not multi and not len(r["xref"]) and kind in ("grad", "lap", "id", "vtv", "vwl") and (kind != "vwl" or all(shape[a - 1] % 2 ** r["lvl"] == 0 for a in axes)) and rng.random() < 0.35:
        r["ws"] = [rng.integers(0 if kind == "id" else 1, 9, size=sizes[0]) / 8.0]
        if multich:  # the same weights for all the channels
            r["ws"] = [np.tile(r["ws"][0][: sizes[0] // r["C"]], r["C"])]
    r["ums"] = [np.ones(n) for n in sizes]
    r["um_none"] = True
    if not multi and rng.random() < 0.3:
        r["ums"] = [rng.integers(0, 2, size=sizes[0]).astype(float)]
        r["um_none"] = False
    r["lims"] = [np.zeros(n) for n in sizes]
    if kind in ("lowlim", "uplim"):
        r["ws"] = [np.ones(n) for n in sizes]
        l0 = rng.integers(-2, 5) / 4.0
        r["lims"] = [np.full(n, l0) for n in sizes]
        if not multi and rng.random() < 0.4:
            r["lims"] = [rng.integers(-3, 7, size=sizes[0]) / 4.0]
    r["xs"] = [[si.q4(rng, -2, 2, n) for _ in range(2)] for n in sizes]
    u = [1.0, 1.0, 1.0, 2.0**-13, 2.0**10][rng.integers(5)]  # other units
    if u != 1:
        r["err"] = r["err"] * u
        for k in ("ws", "lims"):
            r[k] = [v * u if k == "lims" or kind not in ("lowlim", "uplim") else v for v in r[k]]
        r["xs"] = [[x * u for x in v] for v in r["xs"]]
        r["xref"] = np.asarray(r["xref"]) * u if len(r["xref"]) else r["xref"]
    r["u"] = u
    t0 = rng.integers(1, 5) / 2.0
    r["taus"] = [[np.full(n, t0)] + ([] if wave or kind == "vwl" else [rng.integers(1, 9, size=n) / 4.0]) for n in sizes]
    return r


def traits(r):
    """What makes an instance different from the others of the same kind."""
    nd, na = len(r["shapes"][0]), len(r["axes"])
    # the class that makes it
    how = r["alt"] if r["kind"] in ("med", "vsvd") else r["kind"] == "grad" and (r["alt"] == 1 or (r["alt"] == 2 and r["norm"] in ("l1", "Hub")) * 2)
    cls = (r["kind"] != "med" and na, r["norm"], how)
    opts = {
        "last": r["axes"] == list(range(nd - na + 1, nd + 1)), "mask": not r["um_none"], "weights": len(set(r["ws"][0])) > 1, "again": len(r["shapes"]) > 1,
        "pad": r["pad"], "explicit-axes": r["alt"] == 3, "ref": (len(r["xref"]) > 0, r["rch"]), "norms": (r["der"], r["chan"]), "approx": r["approx"], "filt": r["filt"], "nrm": r["nrm"], "fs": r["fs"], "units": r["u"], "levels": r["lvl"], "wavelet": r["wl"],
    }
    return {k: (cls, v) for k, v in opts.items()}


def to_json(r):
    J = {k: r[k] for k in ("kind", "norm", "pad", "C", "der", "chan", "approx", "filt", "axes", "nrm", "fs", "lvl")}
    lo, hi, rlo, rhi = pywt.Wavelet(r["wl"]).filter_bank
    for k, v in (("lo", lo), ("hi", hi), ("rlo", rlo[::-1]), ("rhi", rhi[::-1])):
        J[k] = [repr(float(x)) for x in v]
    J["err"] = si.dec(r["err"])
    J["xref"] = si.decs(r["xref"])
    J["shapes"] = [[int(v) for v in s] for s in r["shapes"]]
    for k in ("ws", "ums", "lims"):
        J[k] = [si.decs(v) for v in r[k]]
    for k in ("xs", "taus"):
        J[k] = [[si.decs(v) for v in vs] for vs in r[k]]
    return J


def sc(v, shape):
    v = np.asarray(v, dtype=float)
    return float(v[0]) if np.all(v == v[0]) else vf.laid(v.reshape(shape))


def build(r):
    shape = tuple(r["shapes"][0])
    nd = len(shape)
    ax = [a - 1 - nd for a in r["axes"]]
    na = len(ax)
    w = sc(r["ws"][0], shape)
    um = None if r["um_none"] else vf.laid(np.array(r["ums"][0]).reshape(shape))
    k, nm = r["kind"], r["norm"]
    last = ax == list(range(-na, 0))
    if k == "grad":
        kw = {"pad_mode": r["pad"], "upd_mask": um}
        if not last or r["alt"] == 3:
            kw["axes"] = ax
        alt = r["alt"]
        if alt == 1:  # by the general class (the number of axes is that of the axes)
            norm = {"l12": dt.DataFidelity_l12(), "l1": dt.DataFidelity_l1(), "l2": dt.DataFidelity_l2(), "Hub": dt.DataFidelity_Huber(float(r["err"]), l2_axis=0)}[nm]
            return R.Regularizer_Grad(w, ndims=na if last else 1 + na % 3, norm=norm, **{**kw, "pad_mode": r["pad"].upper()})
        if nm == "l12":
            return [R.Regularizer_TV1D, R.Regularizer_TV2D, R.Regularizer_TV3D][na - 1](w, **kw)
        if nm == "l2":
            return [R.Regularizer_smooth1D, R.Regularizer_smooth2D, R.Regularizer_smooth3D][na - 1](w, **kw)
        if nm == "Hub" and na > 1:
            return [R.Regularizer_HubTV2D, R.Regularizer_HubTV3D][na - 2](w, float(r["err"]), **kw)
        norm = dt.DataFidelity_l1() if nm == "l1" else dt.DataFidelity_Huber(float(r["err"]), l2_axis=0)
        if alt == 2:
            return [R.Regularizer_TV1D, R.Regularizer_TV2D, R.Regularizer_TV3D][na - 1](w, norm=norm, **kw)
        return R.Regularizer_Grad(w, ndims=na, norm=norm, **kw)
    if k == "lap":
        kw = {"pad_mode": r["pad"], "upd_mask": um}
        if not last or r["alt"] == 3:
            kw["axes"] = ax
        return [R.Regularizer_lap1D, R.Regularizer_lap2D, R.Regularizer_lap3D][na - 1](w, **kw)
    if k == "id":
        return R.Regularizer_l1(w, upd_mask=um)
    if k == "lowlim":
        return R.Constraint_LowerLimit(sc(r["lims"][0], shape), **({} if um is None else {"upd_mask": um}))
    if k == "uplim":
        return R.Constraint_UpperLimit(sc(r["lims"][0], shape), **({} if um is None else {"upd_mask": um}))
    if k == "med":
        kw = {} if r["fs"] == 3 and r["alt"] else {"filt_size": r["fs"]}
        if um is not None:
            return R.BaseRegularizer_med(w, upd_mask=um, norm=dt.DataFidelity_l1() if nm == "l1" else dt.DataFidelity_l2(), **kw)
        return R.Regularizer_l1med(w, **kw) if nm == "l1" else R.Regularizer_l2med(w, **kw)
    if k == "vsvd":
        return R.Regularizer_vSVD(w, ndims=na, upd_mask=um) if r["alt"] < 2 else R.Regularizer_vSVD(w, ndims=r["alt"] - 1, axes=ax, axis_channels=(0,), upd_mask=um)
    inf = {0: np.inf}
    xref = np.array(r["xref"]).reshape((1,) * r["rch"] + shape[1:]) if len(r["xref"]) else None
    more = {} if r["pad"] == "edge" and r["alt"] % 2 else {"pad_mode": r["pad"]}
    if r["alt"] == 3:
        more["axes"] = ax
    if k == "vtv":
        return R.Regularizer_VTV(w, na, pwise_der_norm=inf.get(r["der"], r["der"]), pwise_chan_norm=inf.get(r["chan"], r["chan"]),
                                 x_ref=xref, upd_mask=um)
    if k == "tnv":
        return R.Regularizer_TNV(w, na, upd_mask=um, x_ref=xref, **more)
    if k == "fft":
        norm = dt.DataFidelity_l12() if nm == "l12" else dt.DataFidelity_l1()
        return R.Regularizer_fft(w, na, axes=None if last and r["alt"] != 3 else ax, fft_filter=r["filt"], upd_mask=um, norm=norm)
    wl = (r["wl"], r["lvl"])
    if k == "dwl" and (r["wl"] != "db1" or r["alt"] == 1):
        wk = {"pad_on_demand": "periodization"}
    elif r["pad"] != "constant":
        wk = {"pad_on_demand": r["pad"]}
    else:
        wk = {}
    kw = {**wk, "ndims": na, "axes": None if last and r["alt"] != 3 else ax, "upd_mask": um, "min_approx": r["approx"]}
    if k == "vwl":
        return R.Regularizer_vl1wl(w, *wl, normalized=r["nrm"], pwise_lvl_norm=inf.get(r["der"], r["der"]),
                                   pwise_chan_norm=inf.get(r["chan"], r["chan"]), x_ref=xref, **kw)
    if k == "lnwl":
        return R.Regularizer_lnswl(w, *wl, normalized=r["nrm"], x_ref=xref, **kw)
    if k == "dwl" and nm == "l12":
        return R.Regularizer_l12dwl(w, *wl, **kw)
    if k == "dwl" and nm == "Hub":
        del kw["min_approx"]
        return R.Regularizer_Hub_dwl(w, *wl, float(r["err"]), **kw)
    if nm == "Hub":
        return R.Regularizer_Hub_swl(w, *wl, float(r["err"]), normalized=k == "swln", **kw)
    if k == "dwl":
        return R.Regularizer_l1dwl(w, *wl, **kw)
    cls = R.Regularizer_l1swl if nm == "l1" else R.Regularizer_l12swl
    return cls(w, *wl, normalized=k == "swln", **kw)


def run(ck):
    rng = np.random.default_rng(7000 + ck.seed)
    num = 4800 if ck.thorough else 800
    per = {k: vf.spread(lambda k=k: gen(rng, k), traits, -(-num * KINDS.count(k) // len(KINDS))) for k in dict.fromkeys(KINDS)}
    recs = []
    while any(per.values()):
        recs += [per[k].pop() for k in KINDS if per[k]]
    chunk = 30
    parts = [(o, recs[o:o + chunk]) for o in range(0, len(recs), chunk)]

    def one(p):
        r = ck.tlc("RegObj", invariants=INV, files={"regs.json": [to_json(t) for t in p[1]]}, timeout=1500, mem="2g")
        return p[0], r.emitted

    spec = {}
    with ThreadPoolExecutor(7) as ex:
        for o, em in ex.map(one, parts):
            for e in em:
                spec.setdefault(o + e["rid"] - 1, {})[(e["bound"], e["step"])] = e

    for j, r in enumerate(recs):
        det = lambda: {"regularizer": to_json(r)}  # noqa: E731
        name = f"reg.{r['kind']}.{r['norm']}"
        for dtype, rtol in ((np.float64, 1e-8), (np.float32, 2e-4)):
            if dtype == np.float32 and j % 3:
                continue

            def go():
                with contextlib.redirect_stdout(io.StringIO()):
                    exercise(ck, r, spec[j], name, dtype, rtol, det)

            ck.guard(name, go, detail=det)
        ck.case(name, det())


def exercise(ck, r, S, name, dtype, rtol, det):
    obj = build(r)

    def same(what, got, want, shape=None):
        want = si.f(want)
        got = np.asarray(got)
        if shape is not None:
            ck.expect(got.shape == tuple(shape), f"{name}.{what}.shape", lambda: {"got": got.shape, "want": shape, **det()})
        ck.expect(si.close(got.ravel(), want, rtol), f"{name}.{what}", lambda: {"got": got.ravel(), "want": want, "dtype": str(dtype), **det()})

    for b, shape in enumerate(r["shapes"], 1):
        x0 = np.zeros(shape, dtype=dtype)
        tau = obj.initialize_sigma_tau(x0)
        same("tau", np.broadcast_to(np.asarray(tau, dtype=float), shape), S[(b, 0)]["tau"])
        q = obj.initialize_dual()
        ck.expect(not np.any(q), f"{name}.initialize-dual", det)
        for s, x in enumerate(r["xs"][b - 1], 1):
            e = S[(b, s)]
            x = vf.laid(np.array(x, dtype=dtype).reshape(shape))
            keep = x.copy()
            obj.update_dual(q, x)
            ck.expect(np.array_equal(x, keep), f"{name}.update-dual.input", det)
            if e["qu"]:
                same("update-dual", q, e["qu"])
            obj.apply_proximal_dual(q)
            if e["q"]:
                same("prox-dual", q, e["q"])
            qk = q.copy()
            upd = obj.compute_update_primal(q)
            if e["upd"]:
                same("update-primal", upd, e["upd"], shape)
            ck.expect(np.array_equal(q, qk) and not np.shares_memory(upd, q), f"{name}.update-primal.input", det)
            for ju, t in enumerate(r["taus"][b - 1]):
                if not e["pp"]:
                    continue
                y = x.copy()
                obj.apply_proximal_primal(y, np.array(t, dtype=dtype).reshape(shape) if ju else dtype(t[0]))
                same("prox-primal", y, e["pp"][ju], shape)
