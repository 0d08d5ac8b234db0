"""Executors with chosen completion orders, and a projector backend given by matrices."""

import concurrent.futures as cf
import contextlib
import threading
from concurrent.futures import Future

import numpy as np

from corrct import _projector_backends as pb

RealPool = cf.ThreadPoolExecutor


class ShuffledPool(cf.Executor):
    """An executor whose tasks complete in the reverse order of, or an order unrelated to, their submission."""

    order = "reverse"  # or "odd", or a permutation

    def __init__(self, *args, **kwargs):
        self.q = []
        self.lock = threading.Lock()
        self.timer = None

    def submit(self, fn, /, *a, **k):
        f = Future()
        with self.lock:
            self.q.append((f, fn, a, k))
            if self.timer is not None:
                self.timer.cancel()
            self.timer = threading.Timer(0.003, self._drain)
            self.timer.daemon = True
            self.timer.start()
        return f

    def _drain(self):
        with self.lock:
            q, self.q = self.q, []
        n = len(q)
        o = ShuffledPool.order
        if not isinstance(o, str):
            idx = [i for i in o if i < n] + [i for i in range(n) if i not in o]
        else:
            idx = list(range(n))[::-1] if o == "reverse" else list(range(1, n, 2)) + list(range(0, n, 2))
        for i in idx:
            f, fn, a, k = q[i]
            if not f.set_running_or_notify_cancel():
                continue
            try:
                r = fn(*a, **k)
            except BaseException as exc:  # noqa: BLE001
                f.set_exception(exc)
            else:
                f.set_result(r)

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.lock:
            if cancel_futures:
                for f, *_ in self.q:
                    f.cancel()
        if wait:
            self._drain()


@contextlib.contextmanager
def shuffled(order="reverse"):
    """Every thread pool made inside completes its tasks in the given order."""
    ShuffledPool.order = order
    cf.ThreadPoolExecutor = ShuffledPool
    try:
        yield
    finally:
        cf.ThreadPoolExecutor = RealPool


class MatBackend(pb.ProjectorBackend):
    """A backend given by one matrix per angle; it can be used between make_ready and dispose only, if it is strict."""

    def __init__(self, W, nv, nu, strict):
        super().__init__()
        self.W = W
        self.nv, self.nu = nv, nu
        self.strict = strict
        self.log = []

    def initialize_geometry(self, vol_geom, angles_rot_rad, rot_axis_shift_pix=None, prj_geom=None, create_single_projs=False):
        super().initialize_geometry(vol_geom, angles_rot_rad, rot_axis_shift_pix, prj_geom, create_single_projs)
        v = [self.nv] if self.nv else []
        self.prj_shape_vwu = np.array([*v, len(self.angles_w_rad), self.nu], dtype=int)
        self.prj_shape_vu = np.array([*v, 1, self.nu], dtype=int)

    def make_ready(self):
        self.log.append("ready")
        super().make_ready()

    def dispose(self):
        self.log.append("dispose")
        super().dispose()

    def fp(self, vol, angle_ind=None):
        assert tuple(vol.shape) == tuple(self.vol_shape_zxy), (vol.shape, self.vol_shape_zxy)
        v = [self.nv] if self.nv else []
        if angle_ind is not None:
            return (self.W[angle_ind] @ vol.ravel()).reshape([*v, self.nu])
        return np.stack([(w @ vol.ravel()).reshape([*v, self.nu]) for w in self.W], axis=-2)

    def bp(self, prj, angle_ind=None):
        if angle_ind is not None:
            assert prj.size == self.W[angle_ind].shape[0], (prj.shape, "line")
            return (self.W[angle_ind].T @ prj.ravel()).reshape(self.vol_shape_zxy)
        assert tuple(prj.shape) == tuple(self.prj_shape_vwu), (prj.shape, self.prj_shape_vwu)
        return sum(w.T @ prj[..., i, :].ravel() for i, w in enumerate(self.W)).reshape(self.vol_shape_zxy)
