"""A controlled joblib backend: every order in which jobs can complete.

Jobs are executed in this thread, when a result is asked for, in an order given
by a list of choices; `explore` enumerates all of them depth-first. With
`isolate` a job and its result are pickled, as between processes.
"""
import cloudpickle
import joblib
from joblib.parallel import ParallelBackendBase


class Future:
    def __init__(self, func, callback):
        self.func, self.callback = func, callback
        self.done, self.value, self.error = False, None, None

    def get(self, timeout=None):
        return self.value

    result = get


class Controlled(ParallelBackendBase):
    supports_retrieve_callback = False
    supports_sharedmem = True
    uses_threads = True
    supports_timeout = False

    def __init__(self, prefix, isolate=False, **kw):
        super().__init__(**kw)
        self.prefix, self.isolate = prefix, isolate
        self.queue, self.choices, self.order, self.count = [], [], [], 0

    def effective_n_jobs(self, n_jobs):
        if n_jobs is None:
            return 2
        return 8 if n_jobs < 0 else n_jobs

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        return self.effective_n_jobs(n_jobs)

    def submit(self, func, callback=None):
        f = Future(func, callback)
        f.no = self.count
        self.count += 1
        self.queue.append(f)
        return f

    apply_async = submit

    def _one(self):
        i = 0
        if len(self.queue) > 1:
            d = len(self.choices)
            i = self.prefix[d] if d < len(self.prefix) else 0
            self.choices.append((i, len(self.queue)))
        f = self.queue.pop(i)
        func = f.func
        if self.isolate:
            func = cloudpickle.loads(cloudpickle.dumps(func))
        try:
            f.value = func()
            if self.isolate:
                f.value = cloudpickle.loads(cloudpickle.dumps(f.value))
        except BaseException as e:
            f.error = e
        f.done = True
        self.order.append(f.no)
        if f.callback:
            f.callback(f)

    def retrieve_result(self, out, timeout=None):
        while not out.done:
            self._one()
        if out.error is not None:
            raise out.error
        return out.value


def explore(run, isolate=False, cap=None):
    """Call run() under every completion order; yields (backend, value)."""
    prefix, n = [], 0
    while True:
        b = Controlled(prefix, isolate)
        with joblib.parallel_config(backend=b):
            val = run()
        yield b, val
        n += 1
        ch = list(b.choices)
        while ch and ch[-1][0] == ch[-1][1] - 1:
            ch.pop()
        if not ch or (cap and n >= cap):
            return
        prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
