"""C01: hyper-parameter batches (param_tuning) against TuneSched / TuneTrace."""

import contextlib
import io
import random
import threading
import time
from concurrent.futures import Executor, Future, ThreadPoolExecutor

import numpy as np

from corrct.param_tuning import BaseParameterTuning, CrossValidation, LCurve
from corrct.solvers import SolutionInfo

INV = ["OrderedAndComplete", "ExactlyOnce", "FailurePropagates", "FailureIsReal", "NoLateStart", "SlotOwnership"]


class Boom(RuntimeError):
    pass


class ScheduledExecutor(Executor):
    """Starts and finishes tasks in the order of a specification behaviour."""

    def __init__(self, events, n):
        self.events = list(events)
        self.n = n
        self.futs = []
        self.work = []
        self.cv = threading.Condition()
        self.aborted = False
        self.cancelled_flag = None
        self.outcome = {}
        self.started_after_abort = []
        self.timeouts = []
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def submit(self, fn, /, *args, **kwargs):
        with self.cv:
            f = Future()
            self.futs.append(f)
            self.work.append((fn, args, kwargs))
            self.cv.notify_all()
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cv:
            self.aborted = True
            self.cancelled_flag = cancel_futures
            if cancel_futures:
                for f in self.futs:
                    f.cancel()
            self.cv.notify_all()
        if wait and threading.current_thread() is not self.thread:
            self.thread.join(20)

    def _wait(self, cond, what):
        with self.cv:
            if not self.cv.wait_for(cond, 10):
                self.timeouts.append(what)

    def _start(self, t):
        f = self.futs[t - 1]
        with self.cv:
            if not f.set_running_or_notify_cancel():
                return
            if self.aborted:
                self.started_after_abort.append(t)
        fn, a, k = self.work[t - 1]
        try:
            self.outcome[t] = ("ok", fn(*a, **k))
        except BaseException as exc:  # noqa: BLE001
            self.outcome[t] = ("exc", exc)

    def _finish(self, t):
        kind, v = self.outcome[t]
        if kind == "ok":
            self.futs[t - 1].set_result(v)
        else:
            self.futs[t - 1].set_exception(v)

    def _run(self):
        for ev, t in self.events:
            if ev == "submit":
                self._wait(lambda: len(self.futs) >= t, f"submit {t}")
            elif self.timeouts:
                continue
            elif ev == "start":
                self._start(t)
            elif ev == "finish":
                if t in self.outcome:
                    self._finish(t)
            elif ev == "abort":
                self._wait(lambda: self.aborted, f"abort {t}")
        # whatever was not cancelled runs, as in any executor
        for t in range(1, len(self.futs) + 1):
            f = self.futs[t - 1]
            if not f.done() and t not in self.outcome:
                self._start(t)
            if not f.done() and t in self.outcome:
                self._finish(t)


class Plain(BaseParameterTuning):
    def compute_loss_values(self, hp_vals, **kw):
        raise NotImplementedError


def make_funs(hp, bad, log, lock, *, exc_type, two_stage, delays=None, scale=1):
    """Task functions whose outcome identifies the task; `bad` tasks fail in the init or in the exec stage."""
    expected = scale

    def tid(h):
        # the hyper-parameter is the identity of the task (the first task with that value)
        return int(np.nonzero(hp == h)[0][0]) + 1

    def body(t, mark, fail):
        if fail:
            raise exc_type(t)
        if mark != expected:  # the keywords of the call are those of each task
            t = -1
        info = SolutionInfo(f"task{t}", 1, None)
        info.residual0_cv = 1.0
        info.residuals_cv[0] = 10.0 * t
        info.iterations = 1
        return np.full((2, 3), float(t)), info

    def rec(e, t):
        with lock:
            log.append([e, t])

    if two_stage:

        def init(h):
            t = tid(h)
            rec("start", t)
            if t in bad and t % 2:
                rec("finish", t)
                raise exc_type(t)
            return ("solver", t)

        def execf(s, scale=1, b_test_mask=None):
            assert s[0] == "solver"
            t = s[1]
            if delays:
                time.sleep(delays[t - 1])
            try:
                return body(t, scale, t in bad)
            finally:
                rec("finish", t)

    else:
        init = None

        def execf(h, scale=1, b_test_mask=None):
            t = tid(h)
            rec("start", t)
            if delays:
                time.sleep(delays[t - 1])
            try:
                return body(t, scale, t in bad)
            finally:
                rec("finish", t)

    return init, execf


def evaluate(tuner, hp, how, scale=1):
    """Call the public entry point `how`; returns ('returned', slots) or ('raised', task)."""
    kw = {} if scale == 1 else {"exec_fun_kwds": {"scale": scale}, "init_fun_kwds": {}}
    try:
        if how == "process":
            recs, infos, perf = tuner.process_hp_vals(hp, **kw)
            slots = []
            for r, i in zip(recs, infos):
                t = int(r.flat[0]) if r.size else 0
                slots.append(t if i.method == f"task{t}" and r.shape == (2, 3) else -1)
            if len(recs) != len(infos) or len(perf.tasks_perf) != len(recs):
                return "returned", ["length mismatch"]
            return "returned", slots
        if how == "error":
            e1, e2 = tuner.compute_reconstruction_error(hp, np.zeros((2, 3)), **kw)
            return "returned", [int(round(a / 6)) if round(b) == round(6 * (a / 6) ** 2) else -1 for a, b in zip(e1, e2)]
        if how == "loss":
            if isinstance(tuner, CrossValidation):
                f_avg, f_std, _ = tuner.compute_loss_values(hp, **kw)
                return "returned", [int(round(a / 10)) if s == 0 else -1 for a, s in zip(f_avg, f_std)]
            raise AssertionError(how)
        if how == "curve":
            f = tuner.compute_loss_values(hp, **kw) if np.size(hp) % 2 else tuner.compute_loss_values(hp, return_all=False, **kw)
            return "returned", [int(round(v)) for v in f] if isinstance(f, np.ndarray) and f.ndim == 1 else [f"{type(f).__name__} for the losses"]
        if how == "all":
            f, recs, infos, perf = tuner.compute_loss_values(hp, return_all=True, **kw)
            return "returned", [int(round(v)) if int(r.flat[0]) == round(v) and i.method == f"task{round(v)}" else -1
                                for v, r, i in zip(f, recs, infos)]
    except Exception as exc:  # noqa: BLE001
        t = exc.args[0] if exc.args and isinstance(exc.args[0], int) else f"{type(exc).__name__}: {exc}"
        return "raised", t
    raise AssertionError(how)


def make_tuner(how, ex):
    if how in ("process", "error"):
        return Plain(parallel_eval=ex)
    if how in ("all", "curve"):
        return LCurve(lambda rec: float(rec.flat[0]), parallel_eval=ex)
    if how == "loss":
        return CrossValidation((3, 4), cv_fraction=0.25, num_averages=1, parallel_eval=ex)
    raise AssertionError


HP = {
    1: [0.5], 2: [1e-3, 1e2], 3: [3.0, 0.1, 7.0], 4: [1e-3, 10.0, 1e-1, 2.0], 5: [5.0, 4.0, 3.0, 2.0, 1.0],
}


def run(ck):
    rng = random.Random(ck.seed)
    quiet = io.StringIO()

    # 1. the design, exhaustively
    for n, w, mf in [(4, 2, 2), (3, 3, 3), (4, 0, 2)] + ([(5, 3, 5), (6, 2, 2)] if ck.thorough else []):
        ck.tlc("TuneSched", dict(N=n, W=w, MAXFAIL=mf, TRACK=False), spec="FairSpec" if n < 5 else "Spec", invariants=INV,
               properties=["Ends"] if n < 5 else [], workers=4)

    # 2. replay of every schedule of small batches on the real dispatcher
    plans = [(1, 1, 1), (2, 1, 2), (2, 2, 2), (3, 2, 1), (3, 3, 1)]
    if ck.thorough:
        plans += [(3, 2, 3), (4, 2, 1)]
    for n, w, mf in plans:
        r = ck.tlc("TuneSched", dict(N=n, W=w, MAXFAIL=mf, TRACK=True), invariants=INV + ["EmitDone"])
        seen = {}
        for b in r.emitted:
            ev = tuple((e, 0 if e == "abort" else t) for e, t in b["hist"] if e != "file")
            # the first failure that is collected decides; a schedule with later failures admits each of them
            key = (tuple(b["bad"]), ev)
            seen.setdefault(key, set()).add((b["out"], b["cause"], tuple(b["runs"])))
        keys = sorted(seen)
        cap = 3000 if ck.thorough else 450
        if len(keys) > cap:
            keys = rng.sample(keys, cap)
        for ii, key in enumerate(keys):
            bad, ev = key
            how = ["process", "all", "loss", "error", "curve"][ii % 5]
            replay_one(ck, n, set(bad), ev, seen[key], how, ii, quiet)
            if n > 1 and not bad:
                # tasks with the same value: slot ownership up to the value
                replay_one(ck, n, set(bad), ev, seen[key], how, ii, quiet, hp=[HP[n][0]] * (n - 1) + HP[n][-1:] if n % 2 else HP[n][:1] * n)

    # 3. serial evaluation
    for n in (1, 2, 3):
        r = ck.tlc("TuneSched", dict(N=n, W=0, MAXFAIL=2, TRACK=True), invariants=INV + ["EmitDone"])
        for ii, b in enumerate(r.emitted):
            for how in ("process", "all", "loss", "error", "curve"):
                serial_one(ck, n, set(b["bad"]), b, how)

    # 4. real thread pools: recorded traces, decided by TuneTrace
    groups = {}
    reps = 60 if ck.thorough else 14
    for n, w in [(3, 2), (4, 2), (5, 3), (4, 1), (5, 5)]:
        for k in range(reps):
            for how in ("process", "loss", "all"):
                groups.setdefault((n, w), []).append(record(rng, n, w, how, k, quiet))
    for (n, w), trs in groups.items():
        res = ck.tlc("TuneTrace", dict(N=n, W=w, MAXFAIL=n, TRACK=False), spec="TraceSpec", invariants=INV + ["Accepted"],
                     files={"traces.json": [{"bad": t["bad"], "ev": t["ev"]} for t in trs]})
        acc = {e["acc"] for e in res.emitted}
        for i, t in enumerate(trs):
            ck.case("recorded-threadpool", t)
            ck.expect(i + 1 in acc, f"trace-not-a-behaviour.{t['how']}", t)

    # 5. histories of one tuner: successive batches with different values, functions and degrees of parallelism
    history(ck, rng)
    ck.assumptions += ["an outcome is identified by the value that produced it: tasks with the same value are interchangeable",
                       "an executor runs a task that was neither cancelled nor started when its batch was aborted"]


def replay_one(ck, n, bad, ev, allowed, how, ii, quiet, hp=None):
    hp = np.array(hp or HP[n])
    first = [hp.tolist().index(h) + 1 for h in hp]
    log, lock = [], threading.Lock()
    exc_type = [ValueError, Boom, TypeError][ii % 3]
    scale = [1, 3, "mark"][ii % 3]
    init, execf = make_funs(hp, bad, log, lock, exc_type=exc_type, two_stage=bool(ii % 2), scale=scale)
    ex = ScheduledExecutor(ev, n)
    tuner = make_tuner(how, ex)
    tuner.verbose = ii % 11 == 0
    if init:
        tuner.task_init_function = init
    tuner.task_exec_function = execf
    with contextlib.redirect_stdout(quiet), contextlib.redirect_stderr(quiet):
        out = evaluate(tuner, hp, how, scale)
    ex.thread.join(30)
    starts = [t for e, t in log if e == "start"]
    case = {"n": n, "bad": sorted(bad), "schedule": ev, "entry": how, "outcome": out, "started": starts,
            "allowed": sorted(allowed), "late": ex.started_after_abort, "stuck": ex.timeouts}
    ck.case("replayed-schedules", case)
    outs = {a[0] for a in allowed}
    ck.expect(out[0] in outs, "outcome", case)
    if out[0] == "returned":
        ck.expect(list(out[1]) == first, "order", case)
        ck.expect(sorted(starts) == sorted(first), "exactly-once", case)
    else:
        causes = {a[1] for a in allowed if a[0] == "raised"}
        ck.expect(out[1] in causes, "failure-cause", case)
        ck.expect(len(starts) == len(set(starts)), "exactly-once", case)
        ck.expect(not ex.started_after_abort and not ex.timeouts, "no-start-after-failure", case)


def serial_one(ck, n, bad, b, how):
    hp = np.array(HP[n])
    log, lock = [], threading.Lock()
    scale = 1 + len(bad)
    init, execf = make_funs(hp, bad, log, lock, exc_type=Boom, two_stage=True, scale=scale)
    tuner = make_tuner(how, 0)
    tuner.task_init_function = init
    tuner.task_exec_function = execf
    with contextlib.redirect_stdout(io.StringIO()):
        out = evaluate(tuner, hp, how, scale)
    starts = [t for e, t in log if e == "start"]
    case = {"n": n, "bad": sorted(bad), "entry": how, "outcome": out, "log": log, "spec": b}
    ck.case("serial", case)
    ck.expect(out[0] == b["out"], "serial.outcome", case)
    if b["out"] == "returned":
        ck.expect(list(out[1]) == list(range(1, n + 1)), "serial.order", case)
    else:
        ck.expect(out[1] == b["cause"], "serial.cause", case)
    ck.expect(starts == [t for e, t in b["hist"] if e == "start"], "serial.execution", case)


def record(rng, n, w, how, k, quiet):
    hp = np.array(HP[n])
    bad = set() if k % 3 else {rng.randint(1, n)} | ({rng.randint(1, n)} if k % 2 else set())
    log, lock = [], threading.Lock()
    delays = [rng.choice([0, 0.0005, 0.002, 0.006]) for _ in range(n)]
    if k == 1:
        delays = [0.006 * (n - i) for i in range(n)]
    init, execf = make_funs(hp, bad, log, lock, exc_type=[ValueError, Boom][k % 2], two_stage=bool(k % 2), delays=delays)
    external = k % 4 == 3
    pool = ThreadPoolExecutor(max_workers=w) if external else w
    tuner = make_tuner(how, pool)
    if init:
        tuner.task_init_function = init
    tuner.task_exec_function = execf
    with contextlib.redirect_stdout(quiet), contextlib.redirect_stderr(quiet):
        out = evaluate(tuner, hp, how)
    if external:
        pool.shutdown()
    with lock:
        ev = list(log)
    slots = out[1]
    if out[0] == "returned":
        ev.append(["returned", [int(s) if isinstance(s, (int, np.integer)) else -1 for s in slots] + [-1] * (n - len(slots))])
    else:
        ev.append(["raised", slots if isinstance(slots, int) else -1])
    return {"bad": sorted(bad), "ev": ev, "how": how, "n": n, "w": w, "delays": delays, "out": out}


def history(ck, rng):
    """One tuner object, a history of batches: each batch is evaluated as on a fresh object."""
    for rep in range(40 if ck.thorough else 10):
        for how in ("process", "all", "loss", "error", "curve"):
            tuner = make_tuner(how, rng.choice([0, 1, 2, 3, True, False]))
            steps = []
            for _ in range(4):
                n = rng.randint(1, 5)
                hp = np.array(rng.sample(range(1, 60), n)) / 8.0
                if n > 1 and rng.random() < 0.4:
                    hp[rng.randrange(n)] = hp[rng.randrange(n)]
                first = [hp.tolist().index(h) + 1 for h in hp]
                bad = {rng.choice(first)} if rng.random() < 0.25 else set()
                tuner.parallel_eval = rng.choice([0, 1, 2, 4, tuner.parallel_eval])
                log, lock = [], threading.Lock()
                init, execf = make_funs(hp, bad, log, lock, exc_type=ValueError, two_stage=rng.random() < 0.5)
                tuner.task_init_function = init
                tuner.task_exec_function = execf
                arg = hp if rng.random() < 0.5 else hp.tolist()
                if n == 1 and rng.random() < 0.5:
                    arg = float(hp[0])
                with contextlib.redirect_stdout(io.StringIO()):
                    out = evaluate(tuner, arg, how)
                steps.append({"hp": hp, "bad": bad, "par": str(tuner.parallel_eval), "out": out})
                starts = sorted(t for e, t in log if e == "start")
                if bad:
                    ok = out[0] == "raised" and out[1] in bad
                else:
                    ok = out[0] == "returned" and list(out[1]) == first and starts == sorted(first)
                ck.case("histories")
                ck.expect(ok, f"history.{how}", steps)
