"""C03: every iterate of the solvers is the one of the algorithm (spec/Solver.tla)."""

import numpy as np

import solver_inst as si
import vf

INV = ["LimitsHold", "NonInterference", "FixedPoint", "DualDomain", "SirtDescent", "MlemCounts", "Books", "EmitDone"]


def shapes(rng, alg):
    xs = [(2,), (3,), (2, 2), (2, 3), (4,), (1, 3)][rng.integers(6)]
    na, nu = [(1, 2), (2, 2), (3, 1), (2, 3), (1, 3)][rng.integers(5)]
    if alg in ("SIRT", "PDHG", "FISTA") and rng.random() < 0.25:
        xs = (2, 2)
        na, nu = 2, 2
    return xs, na, nu


def generate(rng, num):
    def draw(alg):
        xs, na, nu = shapes(rng, alg)
        return si.gen_instance(rng, si.gen_config(rng, alg, xs=xs, na=na, nu=nu))

    algs = ["SIRT", "PDHG", "FISTA", "MLEM", "SART", "PDHG"]
    per = {a: vf.spread(lambda a=a: draw(a), si.traits, -(-num * algs.count(a) // 6)) for a in algs}
    out = []
    while any(per.values()):
        out += [per[a].pop() for a in algs if per[a]]
    return out


def solve_spec(ck, insts, module="Solver", chunk=40):
    """Behaviours of the specification for all the instances: {index: [behaviour per projection order]}."""
    from concurrent.futures import ThreadPoolExecutor

    parts = [(o, insts[o:o + chunk]) for o in range(0, len(insts), chunk)]

    def one(part):
        o, ins = part
        r = ck.tlc(module, spec="Spec", invariants=INV, files={"instances.json": [si.to_json(i) for i in ins]}, timeout=1500, mem="2g")
        return o, r

    res = {}
    with ThreadPoolExecutor(6) as ex:
        for o, r in ex.map(one, parts):
            for e in r.emitted:
                res.setdefault(o + e["iid"] - 1, []).append(e)
    return res


def matches(I, e, x, info, K, rtol):
    """None when the outcome of the real solver is the behaviour e cut at K iterations, else what differs."""
    k = min(e["k"], K)
    if info.iterations != k:
        return f"iterations {info.iterations} instead of {k}"
    want = si.f(e["xs"][min(k, len(e["xs"]) - 1)])
    if np.shape(x) != tuple(I["xshape"]):
        return f"shape {np.shape(x)}"
    if not si.close(np.ravel(x), want, rtol):
        return f"x {np.ravel(x).tolist()} instead of {want.tolist()}"
    alg = I["alg"]
    tracks = bool(I["tol"]) or (len(I["tm"]) and alg not in ("MLEM", "SART"))
    if tracks:
        if not si.close([info.residual0], si.f(e["res"][:1]), rtol * 10):
            return f"residual0 {info.residual0} instead of {e['res'][0]}"
        if not si.close(info.residuals[:k], si.f(e["res"][1:k + 1]), rtol * 10):
            return f"residuals {info.residuals[:k].tolist()} instead of {e['res'][1:k + 1]}"
    if len(I["tm"]):
        if not si.close([info.residual0_cv], si.f(e["rcv"][:1]), rtol * 10):
            return f"residual0_cv {info.residual0_cv} instead of {e['rcv'][0]}"
        if not si.close(info.residuals_cv[:k], si.f(e["rcv"][1:k + 1]), rtol * 10):
            return f"residuals_cv {info.residuals_cv[:k].tolist()} instead of {e['rcv'][1:k + 1]}"
    if info.max_iterations != K or len(info.residuals) != K:
        return f"max_iterations {info.max_iterations}, {len(info.residuals)} residuals, instead of {K}"
    return None


def near_tie(I, e):
    """The stop decision is within rounding of the tolerance (not judged)."""
    if not I["tol"]:
        return False
    r = si.f(e["res"])
    return bool(np.any(np.abs(r - I["tol"]) <= 1e-6 * (1 + I["tol"])))


def run(ck):
    rng = np.random.default_rng(9000 + ck.seed)
    insts = generate(rng, 12000 if ck.thorough else 1500)
    spec = solve_spec(ck, insts)
    for j, I in enumerate(insts):
        outs = spec[j]
        if any(near_tie(I, e) or e["kink"] for e in outs):
            continue
        rtol = 1e-8
        ks = [I["K"]]
        if j % 4 == 0 and I["K"] > 1:
            ks.append(int(rng.integers(1, I["K"])))
        for K in ks:
            ok, r = ck.guard("solver." + I["alg"], lambda: si.run_real(I, K=K), detail=lambda: si.describe(I), key=f"solver.{I['alg']}.raises")
            if not ok:
                continue
            x, info, changed = r
            why = [matches(I, e, x, info, K, rtol) for e in outs]
            ck.case(f"{I['alg']}", {"instance": si.describe(I), "behaviour": outs[0]})
            ck.expect(any(w is None for w in why), f"solver.{I['alg']}.iterates",
                      lambda: {"why": why[0], "iterations": K, "instance": si.describe(I)})
            ck.expect(not changed, f"solver.{I['alg']}.inputs-modified", lambda: {"changed": changed, "instance": si.describe(I)})
        if j % 3 == 0 and all(not len(t["err"]) for t in (I["term"],)):
            ok, r = ck.guard("solver32." + I["alg"], lambda: si.run_real(I, dtype=np.float32), detail=lambda: si.describe(I))
            if ok:
                x, info, _ = r
                d = np.min([np.max(np.abs(np.ravel(x) - si.f(e["xs"][-1])) / (1 + np.max(np.abs(si.f(e["xs"][-1]))))) for e in outs])
                ck.case("float32")
                if not I["tol"] or I["tol"] < 1e-6:
                    ck.expect(d < 2e-3, "solver.float32", lambda: {"distance": d, "instance": si.describe(I)})
