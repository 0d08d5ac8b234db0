"""C15: pre-processing of projections (spec/Preproc.tla)."""

import numpy as np

import solver_inst as si
import vf
from corrct import processing
from corrct.processing import noise, pre
from harness.c14 import fl, quiet, rnd, slack, units

INV = ["FlatUnits", "FlatOnes", "PadKeeps", "ShiftBack", "ShiftSum", "MarginFit", "SnipBelow", "StripeFree", "WeightOrder", "WeightUnit", "EigenSettled", "EmitAll"]
KINDS = {"flat": 30, "pad": 40, "rot": 24, "shift": 40, "margin": 40, "snip": 24, "snipstack": 16, "destripe": 24, "pvar": 24, "weight": 40, "eigen": 10}


def stack_shape(rng, hi=5):
    nd = int(rng.integers(2, 4))
    return tuple(int(n) for n in rng.integers(1, 4, size=nd - 1)) + (int(rng.integers(3, hi + 2)),)


def gen(rng, kind):
    """Instance, calls [(clause, function, value of the spec, tolerance)], inputs."""
    units(rng)
    if kind == "flat":
        n, nf, nd = (int(v) for v in (rng.integers(1, 4), rng.integers(1, 4), rng.integers(0, 4)))
        v, u = (int(k) for k in rng.integers(1, 4, size=2))
        projs, flats = rng.uniform(20, 90, size=(n, v, u)).round(1), rng.uniform(50, 99, size=(nf, v, u)).round(1)
        darks = rng.uniform(1, 9, size=(nd, v, u)).round(1)
        crop = [0, 0, v, u]
        kw = {}
        if rng.random() < 0.4:
            crop = [int(rng.integers(0, v)), int(rng.integers(0, u)), v, u]
            crop[2] = int(rng.integers(crop[0] + 1, v + 1))
            crop[3] = int(rng.integers(crop[1] + 1, u + 1))
            kw["crop"] = crop if rng.random() < 0.5 else np.array(crop)
        cap = ["", round(float(rng.uniform(0.4, 1.2)), 2)][rng.integers(2)]
        if cap:
            kw["cap_intensity"] = cap
        low = ["", round(float(rng.uniform(-0.2, 0.8)), 2)][rng.integers(2)]
        double = rng.random() < 0.5
        if double:
            kw["dtype"] = np.float64
        cast = (lambda a: np.round(a).astype(np.uint16)) if rng.random() < 0.4 else (lambda a: a)
        projs, flats, darks = cast(projs), cast(flats), cast(darks)
        a_f = flats[0] if nf == 1 and rng.random() < 0.7 else flats
        a_d = None if nd == 0 else darks[0] if nd == 1 and rng.random() < 0.7 else darks
        J = {"shape": [v, u], "projs": [si.decs(p) for p in projs], "flats": [si.decs(p) for p in flats], "darks": [si.decs(p) for p in darks],
             "crop": crop, "cap": [] if cap == "" else [si.dec(cap)], "floor": [] if low == "" else [si.dec(low)]}
        kd = {} if a_d is None and rng.random() < 0.5 else {"darks_wvu": a_d}

        def fun():
            return pre.apply_flat_field(projs, a_f, **kd, **kw)

        def log():
            return pre.apply_minus_log(fun(), **({} if low == "" else {"lower_limit": low}))

        out = (n, crop[2] - crop[0], crop[3] - crop[1])
        tol = 1e-9 if double else 1e-4
        return J, [("flat-field", fun, lambda r: fl(r["x"]).reshape(out), tol), ("minus-log", log, lambda r: fl(r["l"]).reshape(out), tol)], [projs, flats, darks]
    if kind == "pad":
        nd = int(rng.integers(1, 4))
        shape = tuple(int(n) for n in rng.integers(2, 5, size=nd))
        x = rnd(rng, shape)
        ax = int(rng.integers(0, nd))
        w = [int(v) for v in rng.integers(0, 6, size=2)]
        form = rng.integers(4)
        if form < 2:
            w[1] = w[0]
        arg = [w[0], [w[0]], tuple(w), np.array(w)][form]
        mode = ["edge", "edge", "constant", "reflect", "symmetric", "wrap"][rng.integers(6)]
        fill = 0
        kw = {}
        if mode != "edge" or rng.random() < 0.3:
            kw["mode"] = mode.upper() if rng.random() < 0.2 else mode
        if mode == "constant" and rng.random() < 0.5:
            fill = kw["constant_values"] = 2.5
        if ax != nd - 1 or rng.random() < 0.5:
            kw["pad_axis"] = ax if rng.random() < 0.5 else ax - nd
        J = {"shape": list(shape), "axis": ax + 1, "w": w, "mode": mode, "fill": si.dec(fill), "x": si.decs(x)}
        out = tuple(n + sum(w) * (k == ax) for k, n in enumerate(shape))
        return J, [("pad", lambda: pre.pad_sinogram(x, arg, **kw), lambda r: fl(r["x"]).reshape(out), 1e-12)], [x]
    if kind == "rot":
        v, w, u = (int(k) for k in rng.integers([2, 1, 2], [6, 4, 6]))
        x = rnd(rng, (v, w, u))
        deg = [0.0, 90.0, 180.0, -90.0, round(float(rng.uniform(-180, 180)), 1)][rng.integers(5)] if rng.random() < 0.5 else round(float(rng.uniform(-30, 30)), 1)
        # a half-integer coordinate is at the border of the image when turned by a right angle
        if deg in (90.0, -90.0):
            u = v
            x = rnd(rng, (v, w, u))
        J = {"shape": [v, w, u], "deg": si.dec(deg), "x": si.decs(x)}
        return J, [("rotation", lambda: pre.rotate_proj_stack(x, deg), lambda r: fl(r["x"]).reshape(x.shape), 1e-5)], [x]
    if kind == "shift":
        shape = stack_shape(rng)
        fft = bool(rng.random() < 0.5)
        frac = rng.random() < 0.6
        if fft and frac:
            shape = tuple(n if k == len(shape) - 2 else n | 1 for k, n in enumerate(shape))
        x = rnd(rng, shape)
        nw = shape[-2]
        sv, su = (rng.uniform(-4, 4, size=nw).round(2 if frac else 0) for _ in range(2))
        if len(shape) == 2:
            sh = su
        else:
            sh = np.stack([sv, su])
        J = {"shape": list(shape), "fft": fft, "sv": si.decs(sv), "su": si.decs(su), "x": si.decs(x)}
        kw = {"use_fft": True} if fft else {}
        return J, [("shift-fft" if fft else "shift", lambda: pre.shift_proj_stack(x, sh, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-9)], [x, sh]
    if kind == "margin":
        shape = stack_shape(rng, 8)
        x = rnd(rng, shape)
        u = shape[-1]
        m = [int(rng.integers(0, u // 2 + 1)) for _ in range(2)]
        if sum(m) == 0:
            m = [1, 1]
        form = rng.integers(4)
        if form == 0:
            m[0] = m[1] = max(m[0], 1)
            while sum(m) > u:
                m = [1, 1]
        arg = [m[0], m, tuple(m), np.array(m)][form]
        order = int(rng.integers(0, 3))
        if sum(m) <= order:
            order = 0
        kw = {"poly_order": order} if order or rng.random() < 0.3 else {}
        if min(m) == 0:
            order = 0
        if rng.random() < 0.4 and order:
            x = np.round(20 * x).astype([np.int32, np.float32][rng.integers(2)])
        J = {"shape": list(shape), "m": m, "order": order, "x": si.decs(x)}

        def want(r):
            b = fl(r["x"]).reshape(shape[-2:])
            return b if len(shape) == 2 else b[None]

        def fun():
            b = pre.background_from_margin(x, arg, **kw)
            if b.ndim == 3:
                assert b.shape[0] in (1, shape[0]) and np.all(b == b[:1]), "background depends on the line"
                x - b  # noqa: B018
                b = b[:1]
            return b

        return J, [("margin", fun, want, 1e-4 if x.dtype == np.float32 else 1e-8)], [x]
    if kind == "snip":
        nd = int(rng.integers(1, 3))
        shape = tuple(int(n) for n in rng.integers(1 if nd == 2 else 3, 5, size=nd))
        x = rnd(rng, shape)
        kd = int(rng.integers(1, nd + 1))
        h = 1 if rng.random() < 0.7 else 2
        n = int(rng.integers(0, 4))
        J = {"shape": list(shape), "kd": kd, "h": h, "n": n, "x": si.decs(x)}
        kw = {"iterations": n}
        if kd != nd or rng.random() < 0.5:
            kw["kernel_dims"] = kd
        if h != 1:
            kw["window"] = 2 * h + 1
        return J, [("snip", lambda: pre.snip(x, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-9)], [x]
    if kind == "snipstack":
        shape = stack_shape(rng)
        x = rnd(rng, shape)
        n = int(rng.integers(1, 4))
        kw = {"snip_iterations": n}
        if rng.random() < 0.4:
            kw["smooth_std"] = round(float(rng.uniform(0.3, 1.2)), 1)
        J = {"shape": list(shape), "n": n, "smooth": [si.dec(kw["smooth_std"])] if "smooth_std" in kw else [], "x": si.decs(x)}
        calls = [("snip-stack", lambda: pre.background_from_snip(x, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-9)]
        if len(shape) == 3 and "smooth_std" not in kw:
            # stacks of stacks: backgrounds scale with the images
            x4 = np.stack((x, 2 * x))
            calls.append(("snip-stacks", lambda: pre.background_from_snip(x4, **kw), lambda r: np.stack((fl(r["x"]), 2 * fl(r["x"]))).reshape(x4.shape), 1e-9))
            return J, calls, [x, x4]
        return J, calls, [x]
    if kind == "destripe":
        nd = int(rng.integers(2, 4))
        shape = tuple(int(n) for n in rng.integers(2, 6 if nd == 2 else 5, size=nd))
        x = rnd(rng, shape)
        kw = {}
        angle = nd - 1
        if rng.random() < 0.4:
            angle = int(rng.integers(1, nd + 1))
            kw["angle_axis"] = angle - 1 if rng.random() < 0.5 else angle - 1 - nd
        axes = list(range(1, nd + 1))
        if rng.random() < 0.4:
            axes = sorted(int(a) for a in rng.choice([a for a in axes if a != angle], int(rng.integers(1, nd)), replace=False))
            if rng.random() < 0.3:
                axes = sorted([*axes, angle])
            kw["other_axes"] = [a - 1 - nd for a in axes] if rng.random() < 0.5 else np.array(axes) - 1
        wl = ["db1", "bior2.2"][rng.integers(2)]
        if wl == "db1":
            kw["wavelet"] = wl
        level = 1 if rng.random() < 0.7 else 2
        if level == 2:
            kw["level"] = 2
        sd = 0.005
        if rng.random() < 0.8:
            kw["sigma"] = sd = round(float(rng.uniform(0.05, 0.4)), 2)
        J = {"shape": list(shape), "x": si.decs(x), "angle": angle, "axes": axes, "wl": wl, "level": level, "sd": si.dec(sd)}
        return J, [("destripe", lambda: pre.destripe_wlf_vwu(x, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-8)], [x]
    if kind == "pvar":
        n = int(rng.integers(1, 6))
        x = rng.uniform(-1, 9, size=n).round(2)
        if rng.random() < 0.3:
            x[rng.integers(n)] = 0
        has0, hasv = rng.random() < 0.8, rng.random() < 0.5
        x0, v0 = rng.uniform(1, 9, size=n).round(2), rng.uniform(0, 4, size=n).round(2)
        norm = bool(rng.random() < 0.6)
        J = {"x": si.decs(x), "x0": si.decs(x0) if has0 else [], "v0": si.decs(v0) if has0 and hasv else [], "norm": norm}
        args = [x] + ([x0] if has0 else []) + ([v0] if has0 and hasv else [])
        kw = {} if norm and rng.random() < 0.5 else {"normalized": norm}
        f = processing.compute_variance_poisson if rng.random() < 0.5 else noise.compute_variance_poisson
        form = (2, n // 2) if n % 2 == 0 and rng.random() < 0.6 else (n,)
        args = [a.reshape(form) for a in args]
        return J, [("poisson-variance", lambda: f(*args, **kw), lambda r: fl(r["x"]).reshape(form), 1e-6)], [x, x0, v0]
    if kind == "weight":
        n = int(rng.integers(2, 9))
        x = rng.uniform(0.01, 9, size=n).round(3)
        if rng.random() < 0.4:
            x[rng.integers(n)] = 0
        if rng.random() < 0.2:
            x *= -1
        mask = np.ones(n, bool) if rng.random() < 0.5 else rng.random(n) < 0.7
        if not np.any(mask & (x != 0)):
            mask[:] = True
        pct = [0.001, 0.001, 0.0, 0.03, 0.117, 0.4][rng.integers(6)]
        J = {"x": si.decs(x), "mask": [int(v) for v in mask], "pct": si.dec(pct), "norm": bool(rng.random() < 0.5), "std": bool(rng.random() < 0.4), "semilog": bool(rng.random() < 0.4)}
        kw = {a: J[b] for a, b in (("normalized", "norm"), ("use_std", "std"), ("semilog", "semilog")) if J[b] or rng.random() < 0.2}
        if pct != 0.001:
            kw["percentile"] = pct
        if not mask.all() or rng.random() < 0.3:
            kw["mask"] = mask if rng.random() < 0.7 else mask.astype([np.int32, np.float32][rng.integers(2)])
        shape = (n,) if n % 2 or rng.random() < 0.5 else (2, n // 2)
        xs = x.reshape(shape)
        if "mask" in kw:
            kw["mask"] = kw["mask"].reshape(shape)
        return J, [("weight", lambda: processing.compute_variance_weight(xs, **kw), lambda r: fl(r["x"]).reshape(shape), 1e-6)], [xs, mask]
    # eigen flats
    n, nf, nd = (int(v) for v in (rng.integers(1, 5), rng.integers(0, 3), rng.integers(0, 3)))
    dims = 2 if rng.random() < 0.5 else [1, 3][rng.integers(2)]
    size = tuple(int(k) for k in rng.integers(1 if dims > 1 else 2, 4 if dims < 3 else 3, size=dims))
    base = rng.uniform(3, 9, size=size)
    imgs = (base * rng.uniform(0.8, 1.2, size=(n + nf, *size))).round(3)
    darks = rng.uniform(0.1, 0.5, size=(nd, *size)).round(2)
    J = {"num": n, "imgs": [si.decs(i) for i in imgs], "darks": [si.decs(d) for d in darks]}
    kw = {} if dims == 2 and rng.random() < 0.7 else {"ndim": dims}
    lead = [(n,), (1, n), (n // 2, 2) if n % 2 == 0 else (n, 1)][rng.integers(3)]
    if nf:
        kw["flats_wvu"] = imgs[n:]
    if nd:
        kw["darks_wvu"] = darks if nd > 1 or rng.random() < 0.5 else darks[0]
    call = lambda: pre.compute_eigen_flats(imgs[:n].reshape(*lead, *size), **kw)  # noqa: E731
    return J, [("eigen-flats", lambda: call()[1], lambda r: fl(r["f"]).reshape(*lead, *size), 1e-6), ("eigen-projections", lambda: call()[0], lambda r: fl(r["p"]).reshape(*lead, *size), 1e-6)], [imgs, darks]


def run(ck):
    rng = np.random.default_rng(15000 + ck.seed)
    jobs = []
    for kind, num in KINDS.items():
        for J, calls, inputs in vf.spread(lambda: gen(rng, kind), lambda g: vf.features(g[0]), num * (5 if ck.thorough else 1), 5):
            jobs.append(({"kind": kind, **J}, calls, inputs))
    order = rng.permutation(len(jobs))
    r = ck.tlc("Preproc", files={"instances.json": [jobs[k][0] for k in order]}, invariants=INV, workers=6)
    for e in r.emitted:
        J, calls, inputs = jobs[order[e["iid"] - 1]]
        ck.case(J["kind"], {"case": J, "result": e["r"]})
        for what, fn, want, tol in calls:
            keep = [a.copy() for a in inputs]
            ok, got = ck.guard(what, lambda: quiet(fn), J)
            if not ok:
                continue
            w = want(e["r"])
            ck.expect(all(np.array_equal(a, b) for a, b in zip(keep, inputs)), what + ".inputs-modified", J)
            g = np.asarray(got, float)
            good = g.shape == w.shape and np.allclose(g, w, rtol=tol, atol=tol * slack(w, inputs))
            ck.expect(good, what, lambda: {**J, "got": got, "spec": w})
            if isinstance(got, np.ndarray):
                ck.expect(not any(np.shares_memory(got, a) for a in inputs), what + ".alias", J)
    refusals(ck)


def refusals(ck):
    im = np.ones((3, 5))
    for what, fn in (("margin-large", lambda: pre.background_from_margin(im, 3)), ("snip-dims", lambda: pre.snip(im, kernel_dims=3, iterations=1)),
                     ("snip-no-dims", lambda: pre.snip(im, kernel_dims=0, iterations=1)), ("pad-mode", lambda: pre.pad_sinogram(im, 2, mode="other"))):
        ck.case("refusals", what)
        try:
            quiet(fn)
        except ValueError:
            continue
        except Exception as exc:  # noqa: BLE001
            ck.violation("refuse." + what, {"raised": f"{type(exc).__name__}: {exc}"})
            continue
        ck.violation("refuse." + what, {"returned": True})
