"""C22: denoising of images (spec/Denoise.tla, Solver.tla, Fit.tla)."""

import contextlib
import inspect
import threading

import numpy as np

import solver_inst as si
from corrct import denoisers, regularizers, solvers
from harness.c03 import matches, solve_spec
from harness.c14 import fl, quiet, rnd


@contextlib.contextmanager
def recorded():
    """What the solver that denoises is asked, and what it answers (from any thread)."""
    calls, lock = [], threading.Lock()
    real = solvers.PDHG.__call__
    sig = inspect.signature(real)

    def spy(self, *args, **kw):
        out = real(self, *args, **kw)
        with lock:
            b = sig.bind(self, *args, **kw).arguments
            calls.append({"solver": self, "b": b["b"], "K": b["iterations"], "x0": b.get("x0"), "mask": b.get("b_test_mask"), "x": np.array(out[0]), "info": out[1]})
        return out

    solvers.PDHG.__call__ = spy
    try:
        yield calls
    finally:
        solvers.PDHG.__call__ = real


def gen(rng, cv, large=False):
    shape = (tuple(int(v) for v in rng.integers(2, 6, size=2)) if not cv else tuple(int(v) for v in rng.integers(3, 5, size=2))) if not large else tuple(int(v) for v in rng.integers(8, 14, size=2))
    n = int(np.prod(shape))
    img = rnd(rng, shape, -0.5, 3.0)
    kw = {}
    psf = None
    if min(shape) > 2 and rng.random() < 0.45:
        ks = [(1, 3), (3, 1), (3, 3)][rng.integers(3)]
        psf = rng.uniform(0.1, 1.0, size=ks).round(2)
        kw["psf"] = psf if rng.random() < 0.8 or ks != (1, 3) else psf[0]
    term = {"kind": "l2", "w": [], "err": [], "bg": []}
    if rng.random() < 0.4:
        w = rng.integers(1, 9, size=n) / 4.0
        term = {"kind": "wl2", "w": w, "err": [], "bg": []}
        kw["pix_weights"] = w.reshape(shape)
    lo = []
    if rng.random() < 0.4:
        v = float(rng.choice([0.0, 0.25]))
        lo = np.full(n, v)
        kw["lower_limit"] = v
    K = int(rng.integers(1, 7)) if not large else 1
    kw["iterations"] = K
    kind = rng.integers(4)
    seen = {}

    def factory(lam):
        lam = float(np.ravel(lam)[0])
        reg = [lambda: regularizers.Regularizer_TV2D(lam), lambda: regularizers.Regularizer_smooth2D(lam), lambda: regularizers.Regularizer_lap2D(lam), lambda: regularizers.Regularizer_l1(lam)][kind]()
        seen[id(reg)] = (lam, reg)
        return reg

    weights = [round(float(10 ** rng.uniform(-2, 1)), 3)]
    if cv:
        weights = sorted({round(float(v), 4) for v in 10 ** np.linspace(rng.uniform(-3, -1), rng.uniform(0.5, 1.5), int(rng.integers(3, 6)))})
    arg = weights[0]
    if cv:
        arg = weights if rng.random() < 0.5 else np.array(weights)
    elif rng.random() < 0.3:
        arg = [arg] if rng.random() < 0.5 else np.array(arg)
    regs = {"kind": ["grad", "grad", "lap", "id"][kind], "norm": ["l12", "l2", "l1", "l1"][kind], "err": 0, "axes": [1, 2] if kind < 3 else [], "pad": "edge", "lim": np.zeros(n), "um": np.ones(n), "um_none": True}

    def instance(lam, x0, mask):
        """The denoising as an instance of the specification of the solvers."""
        return {"alg": "PDHG", "xshape": list(shape), "na": shape[0], "nu": shape[1], "rlx": 0.95, "term": term, "tterm": term, "tterm_none": False, "regs": [regs | {"w": np.full(n, lam)}], "restart": 0, "tol": 0,
                "pre": True, "L": 1, "opkind": "mat", "A_np": np.eye(n), "b_np": img.ravel(), "x0": np.ravel(x0), "xm": [], "bm": [], "tm": [] if mask is None else np.ravel(mask), "lo": lo, "hi": [], "fixed": False,
                "b2": [], "K": K, "counts": False}

    J = {"shape": list(shape), "img": si.decs(img), "psf": [] if psf is None else si.decs(psf), "pshape": [] if psf is None else list(psf.shape), "starts": []}
    return {"J": J, "kw": kw, "arg": arg, "img": img, "weights": weights, "factory": factory, "seen": seen, "instance": instance, "cv": cv, "large": large, "psf": psf, "seed": int(rng.integers(2**31))}


def run_real(c):
    np.random.seed(c["seed"])
    img = c["img"].copy()
    with recorded() as calls:
        out = quiet(lambda: denoisers.denoise_image(img, c["arg"], regularizer=c["factory"], verbose=False, **c["kw"]))
    c["calls"] = []
    for k in calls:
        tag = next((c["seen"].get(id(r)) for r in np.atleast_1d(np.array(getattr(k["solver"], "regularizer", []), dtype=object))), None)
        if k["mask"] is not None and tag is not None:
            c["calls"].append(k | {"lam": tag[0]})
    c["modified"] = not np.array_equal(img, c["img"])
    return out


def brief(c):
    return {"image": c["img"].tolist(), "weights": c["weights"], **{k: np.asarray(v).tolist() for k, v in c["kw"].items()}, "seed": c["seed"]}


def run(ck):
    rng = np.random.default_rng(22000 + ck.seed)
    f = 12 if ck.thorough else 1
    cases = [gen(rng, cv=False) for _ in range(60 * f)] + [gen(rng, cv=True) for _ in range(14 * f)] + [gen(rng, cv=True, large=True) for _ in range(8 * f)]
    live = []
    for c in cases:
        ok, out = ck.guard("denoise", lambda: run_real(c), brief(c))
        if not ok:
            continue
        ck.expect(not c["modified"], "denoise.image-modified", brief(c))
        if c["cv"]:
            if not ck.expect(isinstance(out, tuple) and len(out) == 2, "denoise.returns-weight", brief(c)):
                continue
            c["x"], c["lam"] = out[0], float(out[1])
            ck.expect(c["weights"][0] <= c["lam"] <= c["weights"][-1], "denoise.weight-in-range", lambda: {**brief(c), "got": c["lam"]})
        else:
            c["x"], c["lam"] = out, c["weights"][0]
        if not ck.expect(np.shape(c["x"]) == c["img"].shape, "denoise.shape", brief(c)):
            continue
        live.append(c)
        masks = {}
        for k in c["calls"]:
            masks.setdefault(np.asarray(k["mask"]).tobytes(), k)
        c["J"]["starts"] = [{"mask": np.asarray(k["mask"]).astype(int).ravel().tolist(), "x0": si.decs(np.asarray(k["x0"], float))} for k in masks.values()]
    r = ck.tlc("Denoise", files={"instances.json": [c["J"] for c in live]}, invariants=["Adjoint", "EmitAll"], workers=6, timeout=800)
    for e in r.emitted:
        c = live[e["iid"] - 1]
        c["blur"] = [np.array([fl(row) for row in m]) for m in e["blur"]]
        for s, k in zip(e["starts"], c["J"]["starts"]):
            ck.case("held-out pixels", {"image": c["J"]["img"], "start": k})
            ck.expect(s["binary"] and s["some"] and s["most"], "denoise.held-out", lambda: {**brief(c), "mask": k["mask"]})
            ck.expect(s["x0"], "denoise.start", lambda: {**brief(c), **k})
    insts, owner = [], []
    for c in live:
        if c["large"]:
            continue

        def add(I, what):
            if c["blur"]:
                I |= {"A_np": c["blur"][0], "At_np": c["blur"][1]}
            insts.append(I)
            owner.append((c, what))

        add(c["instance"](c["lam"], c["img"], None), None)
        done = {}
        for k in c["calls"]:  # the same pixels may be drawn in several rounds
            key = (k["lam"], np.asarray(k["mask"]).tobytes())
            done.setdefault(key, k.setdefault("times", []))
            done[key].append(1)
            if len(done[key]) == 1:
                add(c["instance"](k["lam"], k["x0"], k["mask"]), k)
    spec = solve_spec(ck, insts, chunk=max(10, len(insts) // 12))
    left = {}
    for j, I in enumerate(insts):
        c, k = owner[j]
        e = spec[j][0]
        if k is not None:
            left.setdefault(id(c), {}).setdefault(k["lam"], []).extend([(e["rcv"][0], e["rcv"][-1])] * len(k["times"]))
        if e["kink"]:
            continue
        if k is None:
            ck.case("image")
            ck.expect(si.close(np.ravel(c["x"]), si.f(e["xs"][-1]), 1e-6), "denoise.image", lambda: {**brief(c), "weight": c["lam"], "got": c["x"].tolist(), "spec": e["xs"][-1]})
        else:
            ck.case("round of cross-validation")
            why = matches(I, e, k["x"], k["info"], I["K"], 1e-6)
            ck.expect(why is None, "denoise.round", lambda: {**brief(c), "why": why, "mask": np.asarray(k["mask"]).tolist(), "weight": k["lam"]})
    # the weight that leaves the least on the held-out pixels
    jobs = []
    for c in live:
        t = left.get(id(c))
        if t is None:
            continue
        ck.expect(sorted(t) == c["weights"] and len({len(v) for v in t.values()}) == 1, "denoise.tried", lambda: {**brief(c), "tried": sorted(t)})
        if sorted(t) == c["weights"] and all(float(a) > 1e-6 for v in t.values() for a, _ in v):
            jobs.append((c, {"kind": "cv", "log": True, "x": si.decs(np.array(c["weights"])), "left": [t[w] for w in c["weights"]]}))
    r = ck.tlc("Fit", files={"instances.json": [j for _, j in jobs]}, invariants=["Refined", "NotAbove", "EmitAll"], workers=4, timeout=800)
    for e in r.emitted:
        c, J = jobs[e["iid"] - 1]
        e = e["r"]
        if float(e["gap"]) < 1e-4 or abs(float(e["curv"])) < 1e-6:
            continue
        ck.case("choice", J)
        want = 10 ** float(e["x"]) if e["fitted"] else float(e["x"])
        ck.expect(abs(c["lam"] - want) <= 1e-4 * want, "denoise.weight", lambda: {**brief(c), "got": c["lam"], "spec": want})
    # the default regularizer removes nothing without a weight
    for _ in range(6 * f):
        shape = tuple(int(v) for v in rng.integers(6, 20, size=2))
        img = rnd(rng, shape, 0.0)
        ck.case("default regularizer")
        ok, got = ck.guard("denoise.default", lambda: quiet(lambda: denoisers.denoise_image(img, 0.0, iterations=5, verbose=False)), {"shape": shape})
        if ok:
            ck.expect(np.shape(got) == shape and np.allclose(got, img, atol=1e-5), "denoise.default-weightless", lambda: {"shape": shape, "got": got.tolist()})
