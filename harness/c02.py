"""C02: cross-validation (spec/CrossVal.tla, composed with spec/Solver.tla)."""

import contextlib
import io
from concurrent.futures import ThreadPoolExecutor

import numpy as np

import solver_inst as si
from corrct import param_tuning as pt
from corrct.solvers import SolutionInfo
from harness.c03 import solve_spec

INV = ["HeldOutOnce", "SameFolds", "OncePerFold", "Complete", "Scores", "EmitDone"]


def ceil_frac(size, frac):
    """The fraction, rounded up (the fractions used are exact decimals)."""
    from fractions import Fraction

    return int(-((-size * Fraction(str(frac))) // 1))


def blank(N, R, H, kfold, count=0, obs=(), trace=()):
    return {"N": N, "R": R, "H": H, "kfold": kfold, "count": count, "obs": list(obs), "trace": list(trace),
            "r0": [[1] * R for _ in range(H)], "rs": [[[1]] * R for _ in range(H)], "it": [[1] * R for _ in range(H)]}


def as_masks(masks):
    return [np.asarray(m).ravel().astype(float).tolist() for m in masks]


def ints(masks):
    return [[int(v) if float(v).is_integer() else -1 for v in m] for m in masks]


def design(ck):
    """The design itself: all folds of small data, all the orders of the evaluations."""
    ins = [blank(N, R, H, kf, count=c) for N, R, H, kf, c in
           [(3, 2, 2, True, 0), (4, 2, 2, True, 0), (4, 3, 2, True, 0), (5, 3, 1, True, 0), (4, 2, 2, False, 1), (4, 2, 2, False, 2), (3, 3, 2, False, 1)]]
    for i in ins:
        i["r0"] = [[2 + h + r for r in range(i["R"])] for h in range(i["H"])]
        i["rs"] = [[[7, 5, 3 + h - r] for r in range(i["R"])] for h in range(i["H"])]
        i["it"] = [[1 + (h + r) % 3 for r in range(i["R"])] for h in range(i["H"])]
    invs = [v for v in INV if v != "EmitDone"]
    ck.tlc("CrossVal", files={"instances.json": ins}, invariants=invs, workers=4)


def masks_part(ck, rng, num):
    """The masks the code makes are masks the specification allows."""
    ins, meta = [], []
    for _ in range(num):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(v) for v in rng.integers(1, [24, 9, 5][nd - 1], size=nd))
        N = int(np.prod(shape))
        dtype = [np.float32, np.float64][rng.integers(2)]
        seedv = int(rng.integers(1 << 30))
        np.random.seed(seedv)
        kf = rng.random() < 0.55
        via = rng.random() < 0.5
        if kf:
            R = int(rng.integers(1, min(N, 8) + 1))
            cnt = 0
            if via:
                fn = lambda: pt.CrossValidation(shape, cv_fraction=None, num_averages=R, dtype=dtype, parallel_eval=False).data_cv_masks  # noqa: E731
            else:
                fn = lambda: pt.create_k_fold_test_masks(shape, R, dtype=dtype, seed=seedv)  # noqa: E731
        else:
            frac = [0.05, 0.1, 0.2, 0.25, 0.33, 0.5, 0.9, 0.02][rng.integers(8)]
            R = int(rng.integers(1, 4))
            cnt = ceil_frac(N, frac)
            if abs(N * frac - round(N * frac)) < 1e-9 and N * frac != round(N * frac):
                continue  # the product itself is rounded
            if via:
                fn = lambda: pt.CrossValidation(shape, cv_fraction=frac, num_averages=R, dtype=dtype, parallel_eval=False).data_cv_masks  # noqa: E731
            else:
                fn = lambda: [pt.create_random_test_mask(shape, frac, dtype) for _ in range(R)]  # noqa: E731
        what = {"shape": shape, "kfold": kf, "folds": R, "count": cnt, "via": via, "dtype": np.dtype(dtype).name}
        ok, masks = ck.guard("masks", fn, what)
        if not ok:
            continue
        ck.expect(all(np.shape(m) == shape for m in masks), "masks.shape", lambda: [what, [np.shape(m) for m in masks]])
        ck.expect(all(m.dtype == dtype for m in masks), "masks.dtype", lambda: [what, [str(m.dtype) for m in masks]])
        if kf and not via:
            again = fn()
            ck.expect(all(np.array_equal(a, b) for a, b in zip(masks, again)), "masks.seed-not-reproducible", what)
        ins.append(blank(N, R, 0, kf, cnt, obs=ints(as_masks(masks))))
        meta.append(what)
    r = ck.tlc("CrossVal", files={"instances.json": ins}, invariants=INV)
    got = {e["iid"] - 1: e["phase"] for e in r.emitted}
    for j, what in enumerate(meta):
        ck.case("masks", what)
        ck.expect(got.get(j) == "done", "masks.not-allowed", lambda: {"case": what, "masks": ins[j]["obs"]})


def tuner(rng, shape, kf, R, frac, name="b_test_mask", mode=None):
    mode = mode or ["serial", "threads", "executor"][rng.integers(3)]
    ex = None
    par = False
    if mode == "threads":
        par = int(rng.integers(1, 4))
    elif mode == "executor":
        ex = par = ThreadPoolExecutor(2)
    cv = pt.CrossValidation(shape, cv_fraction=None if kf else frac, num_averages=R, mask_param_name=name, parallel_eval=par, dtype=np.float64)
    return cv, ex, mode


def synthetic(ck, rng, num):
    """Tasks with planned outcomes: which mask each one gets, and how the losses are made of the outcomes."""
    ins, meta = [], []
    for _ in range(num):
        shape = [(4,), (2, 3), (3, 2, 2), (7,)][rng.integers(4)]
        N = int(np.prod(shape))
        kf = rng.random() < 0.5
        R = int(rng.integers(1, 5))
        frac = [0.25, 0.5, 0.1][rng.integers(3)]
        H = int(rng.integers(1, 5))
        K = int(rng.integers(1, 5))
        hps = [float(v) for v in rng.permutation([0.25, 0.5, 1.0, 2.0, 8.0, 0.125])[:H]]
        name = ["b_test_mask", "held_out"][rng.integers(2)]
        r0 = rng.integers(1, 65, size=(H, R)) / 8.0
        rs = rng.integers(0, 65, size=(H, R, K)) / 8.0
        it = rng.integers(1, K + 1, size=(H, R))
        two = bool(rng.random() < 0.6)
        cv, ex, mode = tuner(rng, shape, kf, R, frac, name)
        masks = [np.array(m, copy=True) for m in cv.data_cv_masks]
        calls, wrong = [], []

        def task(hp, mask, mark, *, calls=calls, wrong=wrong, masks=masks, hps=hps, r0=r0, rs=rs, it=it, K=K, shape=shape):
            h = [j for j, v in enumerate(hps) if v == float(hp)]
            if len(h) != 1 or mark != "mark":
                wrong.append((float(hp), mark))
                h = [0]
            h = h[0]
            seen = sum(1 for c in calls if c["h"] == h + 1)
            calls.append({"h": h + 1, "mask": ints(as_masks([mask]))[0]})
            # which fold is it: the first one with this mask that this value has not been scored on
            same = [q for q in range(len(masks)) if np.array_equal(masks[q], mask)]
            done = [c["r"] for c in calls if c["h"] == h + 1 and "r" in c]
            r = ([q for q in same if q not in done] or [seen % len(masks)])[0]
            calls[-1]["r"] = r
            info = SolutionInfo("x", K, None, residual0=1.0, residual0_cv=r0[h, r])
            info.residuals_cv[:] = rs[h, r]
            info.residuals[:] = 100.0
            info.iterations = int(it[h, r])
            return np.full(3, h + 10 * r, dtype=float), info

        if two:
            cv.task_init_function = lambda hp: (hp, 5)
            if name == "b_test_mask":
                cv.task_exec_function = lambda s, b_test_mask=None, mark=None: task(s[0], b_test_mask, mark if s[1] == 5 else "lost")
            else:
                cv.task_exec_function = lambda s, held_out=None, mark=None: task(s[0], held_out, mark if s[1] == 5 else "lost")
        else:
            if name == "b_test_mask":
                cv.task_exec_function = lambda hp, b_test_mask=None, mark=None: task(hp, b_test_mask, mark)
            else:
                cv.task_exec_function = lambda hp, held_out=None, mark=None: task(hp, held_out, mark)
        ekw = {"mark": "mark"}
        ret_all = bool(rng.random() < 0.4)
        what = {"shape": shape, "kfold": kf, "folds": R, "values": hps, "mode": mode, "mask_param_name": name, "init_fun": two, "return_all": ret_all,
                "r0": r0, "rs": rs, "it": it}
        with contextlib.redirect_stdout(io.StringIO()):
            ok, out = ck.guard("synthetic", lambda: cv.compute_loss_values(hps, exec_fun_kwds=ekw, return_all=ret_all), what)
        if ex is not None:
            ex.shutdown()
        if not ok:
            continue
        ck.expect(not wrong, "synthetic.arguments", lambda: {"case": what, "received": wrong})
        ck.expect(ekw == {"mark": "mark"}, "synthetic.keywords-modified", lambda: {"case": what, "kwds": list(ekw)})
        ck.expect(all(np.array_equal(a, b) for a, b in zip(masks, cv.data_cv_masks)), "synthetic.masks-modified", what)
        i = blank(N, R, H, kf, ceil_frac(N, frac), obs=ints(as_masks(masks)), trace=[{"h": c["h"], "mask": c["mask"]} for c in calls])
        i["r0"] = [si.decs(r) for r in r0]
        i["rs"] = [[si.decs(v) for v in r] for r in rs]
        i["it"] = [[int(v) for v in r] for r in it]
        ins.append(i)
        meta.append((what, out, ret_all))
    r = ck.tlc("CrossVal", files={"instances.json": ins}, invariants=INV, workers=2)
    check_scores(ck, r, meta, "synthetic")


def check_scores(ck, r, meta, group):
    got = {}
    for e in r.emitted:
        got.setdefault(e["iid"] - 1, e)
    for j, (what, out, ret_all) in enumerate(meta):
        ck.case(group, what)
        e = got.get(j)
        if not ck.expect(e is not None and e["phase"] == "done", f"{group}.evaluations", lambda: {"case": what, "trace": "the recorded evaluations are no behaviour of the specification"}):
            continue
        avg, std, res = out
        R = len(e["f"][0])
        ck.expect(np.shape(avg) == (len(e["avg"]),) and si.close(avg, si.f(e["avg"])), f"{group}.average", lambda: {"case": what, "got": avg, "spec": e["avg"]})
        ck.expect(np.shape(std) == (len(e["std"]),) and si.close(std, si.f(e["std"]), 1e-7), f"{group}.std", lambda: {"case": what, "got": std, "spec": e["std"]})
        ck.expect(len(res) == R, f"{group}.rounds", lambda: {"case": what, "got": len(res)})
        for rr in range(min(R, len(res))):
            f = [float(e["f"][h][rr]) for h in range(len(e["f"]))]
            if ret_all:
                vals = [i.residuals_cv_rel[i.iterations - 1] for i in res[rr][1]]
            else:
                vals = res[rr]
            ck.expect(si.close(vals, f), f"{group}.fold-loss", lambda: {"case": what, "fold": rr, "got": vals, "spec": f})


def with_hp(cfg, hp):
    c = dict(cfg)
    for j, r in enumerate(cfg["regs"]):
        if r["kind"] in ("grad", "lap", "id"):
            rr = dict(r)
            rr["w"] = np.full(len(r["w"]), hp)
            c["regs"] = [rr if q == j else o for q, o in enumerate(cfg["regs"])]
            return c
    c["rlx"] = hp
    return c


def spawner(cfg):
    return lambda hp: si.build_solver(with_hp(cfg, float(hp)))


def composed(ck, rng, num):
    """The real solvers within the real cross-validation, against Solver.tla and CrossVal.tla."""
    jobs, insts = [], []
    for j in range(num):
        alg = ["SIRT", "PDHG", "FISTA"][j % 3]
        xs, na, nu = [((2,), 2, 2), ((2, 2), 2, 2), ((3,), 2, 2), ((2, 2), 3, 2)][rng.integers(4)]
        cfg = si.gen_config(rng, alg, xs=xs, na=na, nu=nu)
        I = si.gen_instance(rng, cfg, twin=False)
        I["fixed"] = False
        if cfg["term"]["kind"] == "Hub" or cfg["tterm"]["kind"] == "Hub":
            continue
        kf = rng.random() < 0.7
        R = int(rng.integers(2, 4))
        cv, ex, mode = tuner(rng, (na, nu), kf, R, 0.25)
        hps = [float(v) for v in rng.permutation([0.25, 0.5, 0.75, 0.125])[:int(rng.integers(1, 4))]]
        A = I["A_np"]
        masks = [np.array(m, dtype=float) for m in cv.data_cv_masks]
        xm = np.asarray(I["xm"]) if len(I["xm"]) else np.ones(A.shape[1])
        bm = np.asarray(I["bm"]) if len(I["bm"]) else np.ones(A.shape[0])
        if not np.any(np.abs(A) @ xm) or any(not np.any(np.abs(A).T @ (bm * (1 - m.ravel()))) or not np.any(bm * m.ravel()) for m in masks):
            continue
        idx = {}
        for h, hp in enumerate(hps):
            for r, m in enumerate(masks):
                Q = {**I, **with_hp(cfg, hp)}
                Q["tm"] = m.ravel()
                Q["b2"] = np.asarray(I["b_np"]) + 5.0 * m.ravel() * rng.integers(1, 5, size=m.size)
                idx[h, r] = len(insts)
                insts.append(Q)
        jobs.append((I, cfg, cv, ex, mode, hps, masks, idx))
    spec = solve_spec(ck, insts)
    ins, meta = [], []
    for I, cfg, cv, ex, mode, hps, masks, idx in jobs:
        H, R = len(hps), len(masks)
        beh = {k: spec[v][0] for k, v in idx.items()}
        tol = I["tol"]
        if tol and any(np.any(np.abs(si.f(b["res"]) - tol) <= 1e-6 * (1 + tol)) for b in beh.values()):
            continue
        if any(float(b["rcv"][0]) == 0 for b in beh.values()):
            continue
        op = si.make_operator(I)
        base = si.call_kwargs({**I, "tm": []})
        if I["alg"] in ("PDHG", "FISTA") and I["opkind"] != "fun":
            base["precondition"] = I["pre"]
        b = np.array(I["b_np"]).reshape(I["na"], I["nu"])
        b0 = b.copy()
        recs = {}

        def call(solver, b_test_mask=None, op=op, b=b, I=I, base=base):
            return solver(op, b, I["K"], b_test_mask=b_test_mask, **base)

        cv.task_init_function = spawner(cfg)
        cv.task_exec_function = call
        what = {"instance": si.describe(I), "values": hps, "masks": masks, "mode": mode}
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            ok, out = ck.guard("composed." + I["alg"], lambda: cv.compute_loss_values(hps, return_all=True), what)
        if ex is not None:
            ex.shutdown()
        if not ok:
            continue
        for h in range(H):
            for r in range(R):
                x = out[2][r][0][h]
                want = si.f(beh[h, r]["xs"][-1])
                ck.expect(si.close(np.ravel(x), want), "composed.reconstruction", lambda: {"case": what, "h": h, "r": r, "got": x, "spec": want})
                Q = insts[idx[h, r]]
                ok2, tw = ck.guard("composed.twin", lambda: si.run_real(Q, b=Q["b2"]), what)
                if ok2:
                    ck.case("held-out-non-interference")
                    ck.expect(si.close(tw[0], x, 1e-12), "composed.held-out-data-leak", lambda: {"case": what, "h": h, "r": r, "x": x, "with other held-out data": tw[0]})
        ck.expect(np.array_equal(b, b0), "composed.data-modified", what)
        i = blank(len(I["b_np"]), R, H, cv.cv_fraction is None, ceil_frac(len(I["b_np"]), 0.25), obs=ints(as_masks(masks)))
        i["r0"] = [[beh[h, r]["rcv"][0] for r in range(R)] for h in range(H)]
        i["rs"] = [[beh[h, r]["rcv"][1:] for r in range(R)] for h in range(H)]
        i["it"] = [[beh[h, r]["k"] for r in range(R)] for h in range(H)]
        # the order of the evaluations is the one of the values: one behaviour is enough here
        i["trace"] = [{"h": h + 1, "mask": i["obs"][r]} for r in range(R) for h in range(H)]
        ins.append(i)
        meta.append((what, out, True))
    r = ck.tlc("CrossVal", files={"instances.json": ins}, invariants=INV)
    check_scores(ck, r, meta, "composed")


def run(ck):
    rng = np.random.default_rng(2000 + ck.seed)
    f = 6 if ck.thorough else 1
    design(ck)
    masks_part(ck, rng, 250 * f)
    synthetic(ck, rng, 150 * f)
    composed(ck, rng, 130 * f)
