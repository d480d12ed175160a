"""Dask schedulers that observe, refuse, delay and reorder."""
import contextlib
import random
import threading
import time
from concurrent.futures import Future, ThreadPoolExecutor

import dask
import dask.array as da
import numpy as np
from dask.callbacks import Callback
from dask.local import get_async


class ComputedEarly(Exception):
    """Something was computed while only a graph should have been built."""


@contextlib.contextmanager
def no_compute():
    """Any computation in this context raises."""
    def get(dsk, keys, **kw):
        raise ComputedEarly("a lazy input was computed")
    with dask.config.set(scheduler=get):
        yield


class ShuffleExecutor:
    """Runs submitted tasks one at a time in a random order of the ready ones."""

    def __init__(self, seed, workers=6):
        self.rnd = random.Random(seed)
        self._max_workers = workers
        self.pending = []
        self.cond = threading.Condition()
        self.stop = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def submit(self, func, *args, **kw):
        """Queue a task."""
        fut = Future()
        with self.cond:
            self.pending.append((fut, func, args, kw))
            self.cond.notify()
        return fut

    def _run(self):
        while True:
            with self.cond:
                while not self.pending and not self.stop:
                    self.cond.wait()
                if self.stop:
                    return
            time.sleep(0)
            with self.cond:
                task = self.pending.pop(self.rnd.randrange(len(self.pending)))
            fut, func, args, kw = task
            try:
                fut.set_result(func(*args, **kw))
            except BaseException as err:
                fut.set_exception(err)

    def shutdown(self):
        """Stop the thread."""
        with self.cond:
            self.stop = True
            self.cond.notify()


class Order(Callback):
    """Records the order in which tasks complete."""

    def __init__(self):
        super().__init__(posttask=self._post)
        self.order = []

    def _post(self, key, result, dsk, state, worker_id):
        self.order.append(str(key)[-40:])


@contextlib.contextmanager
def scheduler(kind, seed, mon=None):
    """Compute in this context with the given scheduler."""
    order = Order()
    if kind == "shuffle":
        exe = ShuffleExecutor(seed)

        def get(dsk, keys, **kw):
            return get_async(exe.submit, 6, dsk, keys, **{k: v for k, v in kw.items() if k in ("cache", "callbacks")})
        with dask.config.set(scheduler=get), order:
            try:
                yield
            finally:
                exe.shutdown()
    elif kind == "threads":
        with ThreadPoolExecutor(4) as pool, dask.config.set(scheduler="threads", pool=pool), order:
            yield
    else:
        with dask.config.set(scheduler="synchronous"), order:
            yield
    if mon is not None and order.order:
        mon.ev("dask_tasks_observed", len(order.order))
        mon.seen("task_orders", order.order)


SCHEDULERS = ("sync", "threads", "shuffle")


class Touch:
    """Counts how often blocks of a lazy array are really computed."""

    def __init__(self):
        self.count = 0
        self.lock = threading.Lock()

    def __call__(self, block):
        with self.lock:
            self.count += 1
        return block


def lazy(arr, chunks, touch=None):
    """Return a dask array over arr whose blocks report being computed."""
    arr = np.asanyarray(arr)
    darr = da.from_array(arr, chunks=chunks)
    if touch is not None:
        darr = darr.map_blocks(touch, dtype=arr.dtype, meta=arr[(slice(0, 0),) * arr.ndim])
    return darr


def random_chunks(rng, shape):
    """Return a random, often irregular, chunk layout."""
    res = []
    for n in shape:
        kind = rng.integers(5)
        if kind == 0 or n <= 1:
            res.append((n,))
        elif kind == 1:
            k = int(rng.integers(1, n + 1))
            sizes = [k] * (n // k) + ([n % k] if n % k else [])
            res.append(tuple(sizes))
        elif kind == 2 and n <= 12:
            res.append((1,) * n)
        else:
            cuts = np.sort(rng.choice(np.arange(1, n), size=min(int(rng.integers(1, 4)), n - 1), replace=False))
            res.append(tuple(int(x) for x in np.diff(np.r_[0, cuts, n])))
    return tuple(res)
