"""C04: the outcome of a solver call depends on its arguments only, whatever was called before (spec/History.tla, spec/Solver.tla)."""

import numpy as np

import solver_inst as si
from harness import c03

ALGS = ["SIRT", "PDHG", "FISTA", "MLEM", "SART"]


def resized(v, n):
    """A constant vector, for another size."""
    return np.full(n, v[0]) if len(v) else []


def retarget(cfg, xs, na, nu):
    """The same solver configuration on other shapes (None when something in it is bound to its shapes)."""
    n, m = int(np.prod(xs)), na * nu
    c = dict(cfg)
    c["xshape"], c["na"], c["nu"] = list(xs), na, nu
    for k in ("term", "tterm"):
        t = dict(c[k])
        for f in ("w", "err", "bg"):
            if len(t[f]):
                if f == "w" or not np.all(np.asarray(t[f]) == t[f][0]):
                    return None
                t[f] = resized(t[f], m)
        c[k] = t
    c["regs"] = []
    for r in cfg["regs"]:
        r = dict(r)
        for f in ("w", "lim", "um"):
            if not np.all(np.asarray(r[f]) == r[f][0]):
                return None
            r[f] = resized(r[f], n)
        if not r["um_none"]:
            return None
        c["regs"].append(r)
    return c


def make_group(rng):
    """Two or three solvers that share their regularizers and data terms, and four calls."""
    xs = [(2, 2), (3,), (2, 3)][rng.integers(3)]
    na, nu = [(1, 2), (2, 2), (2, 3)][rng.integers(3)]
    algs = list(rng.permutation(ALGS)[:2])
    if "PDHG" not in algs and rng.random() < 0.6:
        algs[0] = "PDHG"
    nregs = int(rng.integers(1, 3))
    fista = "FISTA" in algs
    pool_regs = [si.gen_reg(rng, "FISTA" if fista else "PDHG", xs) for _ in range(1 if fista else nregs)]
    cfgs = []
    for a in algs:
        cfg = si.gen_config(rng, a, xs=xs, na=na, nu=nu, tol=float([0, 0, 0.5, 4.0][rng.integers(4)]))
        if a in ("SIRT", "PDHG"):
            cfg["regs"] = pool_regs
        elif a == "FISTA":
            cfg["regs"] = pool_regs[:1]
        else:
            cfg["regs"] = []
        cfgs.append(cfg)
    # the same data term object is given to all the solvers that accept it
    ok = {"SIRT": {"l2", "wl2", "l2b", "KL"}, "FISTA": {"l2", "wl2", "l2b"}, "PDHG": {"l2", "wl2", "l2b", "l1", "l1b", "Hub", "KL"},
          "MLEM": {"KL", "l2", "wl2", "l2b"}, "SART": set()}
    base = cfgs[0]["term"]
    for cfg in cfgs[1:]:
        if base["kind"] in ok[cfg["alg"]]:
            cfg["term"] = base
            if cfg["tterm_none"]:
                cfg["tterm"] = dict(base)
            else:
                cfg["tterm"] = dict(cfg["tterm"], bg=base["bg"])
    calls = []
    for j in range(4):
        si_ = j % len(cfgs)
        cfg = cfgs[si_]
        if rng.random() < 0.5:
            xs2 = [(2, 2), (3, 2), (1, 3)][rng.integers(3)] if len(xs) == 2 else [(2,), (4,)][rng.integers(2)]
            na2, nu2 = [(1, 3), (2, 1), (2, 2)][rng.integers(3)]
            cfg = retarget(cfg, xs2, na2, nu2) or cfg
        calls.append((si_, si.gen_instance(rng, cfg, K=int(rng.integers(1, 4)), twin=False, opkinds=None)))
    return cfgs, calls


def replay(ck, gi, cfgs, calls, behaviours, hist):
    xs, bs = tuple(cfgs[0]["xshape"]), (cfgs[0]["na"], cfgs[0]["nu"])
    regs_pool = {}
    terms_pool = {}
    solvers = {}
    ops = {}
    kept = []
    for pos, c in enumerate(hist):
        s, I = calls[c - 1]
        if s not in solvers:
            cfg = cfgs[s]
            regs = [regs_pool.setdefault(id(r), None) or regs_pool.__setitem__(id(r), si.build_reg(r, xs)) or regs_pool[id(r)]
                    for r in cfg["regs"]]
            solvers[s] = build_shared(cfg, regs, terms_pool)
        det = lambda: {"history": hist, "position": pos, "instance": si.describe(I), "solvers": [x["alg"] for x in cfgs]}  # noqa: E731
        if c not in ops:
            ops[c] = None if I["alg"] == "SART" else si.make_operator(I)
        ok, r = ck.guard("history." + I["alg"], lambda: si.run_real(I, solvers[s], op=ops[c]), detail=det)
        if not ok:
            return
        x, info, changed = r
        outs = behaviours[c - 1]
        if not any(c03.near_tie(I, e) or e["kink"] for e in outs):
            why = [c03.matches(I, e, x, info, I["K"], 1e-8) for e in outs]
            ck.expect(any(w is None for w in why), f"history.{I['alg']}.outcome", lambda: {"why": why[0], **det()})
        ck.expect(not changed, f"history.{I['alg']}.inputs-modified", lambda: {"changed": changed, **det()})
        for x_old, x_copy, r_old, r_copy in kept:
            ck.expect(np.array_equal(x_old, x_copy) and np.array_equal(r_old, r_copy), "history.earlier-outcome-modified", det)
        kept.append((x, x.copy(), info.residuals, info.residuals.copy()))
    ck.case("histories", {"group": gi, "history": hist, "calls": [si.describe(I) for _, I in calls]})


def build_shared(cfg, regs, terms_pool):
    """Like si.build_solver, with the data term objects shared through terms_pool."""
    orig = si.build_term

    def shared(t, shape):
        return terms_pool.setdefault(id(t), orig(t, shape))

    si.build_term = shared
    try:
        return si.build_solver(cfg, regs)
    finally:
        si.build_term = orig


def run(ck):
    rng = np.random.default_rng(4100 + ck.seed)
    num = 300 if ck.thorough else 50
    groups = [make_group(rng) for _ in range(num)]
    flat = [I for _, calls in groups for _, I in calls]
    spec = c03.solve_spec(ck, flat, chunk=40)
    hists = {}
    pos = 0
    for gi, (cfgs, calls) in enumerate(groups):
        beh = [spec[pos + j] for j in range(len(calls))]
        pos += len(calls)
        sof = tuple(s + 1 for s, _ in calls)
        nreg = max(len(c["regs"]) for c in cfgs)
        uses = tuple(frozenset(list(range(1, len(cfgs[s]["regs"]) + 1)) + [nreg + 1, nreg + 1 + s + 1]) for s, _ in calls)
        key = (sof, uses)
        if key not in hists:
            r = ck.tlc("History", {"NCalls": len(calls), "SolverOf": sof, "UsesOf": uses, "NObjs": nreg + 1 + len(cfgs), "MaxLen": 3},
                       invariants=["Independent", "EmitFull"], properties=["Stable"])
            hists[key] = [tuple(h) for h in r.emitted]
        hs = hists[key]
        if not ck.thorough:
            hs = [hs[i] for i in sorted(rng.choice(len(hs), 36, replace=False))]
        for h in hs:
            replay(ck, gi, cfgs, calls, beh, h)
