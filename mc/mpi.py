"""A controlled MPI: runs the real command line program of /repo on simulated
ranks and explores every order in which messages can be received.

Every rank is a thread executing the unmodified program; exactly one of them
runs at a time, between two communication calls. Sends and receives from a
named source are executed as soon as they are possible; when no other progress
is possible the pending receives from any source are matched with every message
that could have arrived (the "partial order avoiding elusive interleavings"
reduction: everything else commutes). Sends are eager (buffered) or synchronous.
"""
import os
import pickle
import sys
import threading
import types

ANY = -1
_local = threading.local()


class Killed(BaseException):
    pass


class Status:
    def __init__(self):
        self.source, self.tag = ANY, ANY

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class _Request:
    def __init__(self, fn=None):
        self._fn = fn
        self._done = fn is None
        self._val = None

    def wait(self, status=None):
        if not self._done:
            self._val = self._fn()
            self._done = True
        return self._val

    Wait = wait


class _World:
    """MPI.COMM_WORLD for whichever rank the calling thread is."""

    def Get_rank(self):
        return getattr(_local, "rank", 0)

    def Get_size(self):
        w = getattr(_local, "world", None)
        return w.n if w else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        _local.world._op(("send", dest, tag, pickle.dumps(obj)))

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        _local.world._op(("isend", dest, tag, pickle.dumps(obj)))
        return _Request()

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        src, tg, data = _local.world._op(("recv", source, tag))
        if status is not None:
            status.source, status.tag = src, tg
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return _Request(lambda: self.recv(None, source, tag))

    def probe(self, source=ANY, tag=ANY, status=None):
        src, tg, _ = _local.world._op(("probe", source, tag))
        if status is not None:
            status.source, status.tag = src, tg
        return True

    def _coll(self, name, data, root):
        return _local.world._op(("coll", name, root, pickle.dumps(data)))

    def bcast(self, obj, root=0):
        return pickle.loads(self._coll("bcast", obj, root)[root])

    def barrier(self):
        self._coll("barrier", None, 0)

    Barrier = barrier

    def gather(self, obj, root=0):
        vals = self._coll("gather", obj, root)
        return ([pickle.loads(vals[r]) for r in range(len(vals))]
                if self.Get_rank() == root else None)

    def allgather(self, obj):
        vals = self._coll("allgather", obj, 0)
        return [pickle.loads(vals[r]) for r in range(len(vals))]

    def scatter(self, objs, root=0):
        vals = self._coll("scatter", objs, root)
        return pickle.loads(vals[root])[self.Get_rank()]

    def Abort(self, errorcode=0):
        _local.world._op(("abort", errorcode))

    def Dup(self):
        return self


def install():
    """Make `from mpi4py import MPI` give the controlled MPI."""
    if getattr(sys.modules.get("mpi4py"), "_gwmc", False):
        return
    pk = types.ModuleType("mpi4py")
    pk._gwmc = True
    pk.__path__ = []
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD = _World()
    MPI.ANY_SOURCE = ANY
    MPI.ANY_TAG = ANY
    MPI.Status = Status
    MPI.Is_initialized = lambda: True
    MPI.Is_finalized = lambda: False
    MPI.Finalize = lambda: None
    pk.MPI = MPI
    sys.modules["mpi4py"] = pk
    sys.modules["mpi4py.MPI"] = MPI


_code = {}


def load_program(rank, size):
    """A fresh copy of the command line program, as one rank imports it."""
    import gw_eccentricity.postprocess as pkg
    path = os.path.join(os.path.dirname(pkg.__file__), "postprocess_cli.py")
    if path not in _code:
        with open(path) as fh:
            _code[path] = compile(fh.read(), path, "exec")
    name = f"gw_eccentricity.postprocess.postprocess_cli_r{rank}of{size}"
    mod = types.ModuleType(name)
    mod.__file__ = path
    mod.__package__ = "gw_eccentricity.postprocess"
    sys.modules[name] = mod
    exec(_code[path], mod.__dict__)
    return mod


class Outcome:
    def __init__(self):
        self.finished = {}       # rank -> None | exception
        self.deadlock = None
        self.livelock = False
        self.aborted = None
        self.undelivered = []
        self.trace = []
        self.choices = []        # (picked, number of options)
        self.steps = 0


class Run:
    """One execution of `size` ranks under the given choice prefix."""

    def __init__(self, n, body, prefix=(), sync=False, max_steps=3000):
        self.n, self.body, self.prefix, self.sync = n, body, prefix, sync
        self.max_steps = max_steps
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.pending = [None] * n
        self.reply = [None] * n
        self.dead = False
        self.out = Outcome()
        self.chan = {}            # (src, dst) -> [(tag, data)]

    # --- in the rank threads
    def _op(self, op):
        if self.dead:
            raise Killed()
        r = _local.rank
        self.pending[r] = op
        self.back.release()
        self.go[r].acquire()
        if self.dead:
            raise Killed()
        return self.reply[r]

    def _main(self, r):
        _local.rank, _local.world = r, self
        self.go[r].acquire()
        err = None
        try:
            if not self.dead:
                self.body(r)
        except Killed:
            err = "killed"
        except SystemExit as e:
            err = f"exit:{e.code}" if e.code not in (None, 0) else None
        except BaseException as e:
            err = e
        self.out.finished[r] = err
        self.pending[r] = None
        self.back.release()

    # --- in the controller
    def _resume(self, r, val=None):
        self.reply[r] = val
        self.pending[r] = None
        self.go[r].release()
        self.back.acquire()

    def _candidates(self, r):
        """messages the recv/probe pending at r could match: list of sources"""
        kind, source, tag = self.pending[r]
        out = []
        for s in range(self.n):
            if source not in (ANY, s):
                continue
            if any(tag in (ANY, tg) for tg, _ in self.chan.get((s, r), [])):
                out.append(s)
            elif self.sync and self.pending[s] and self.pending[s][0] == "send" \
                    and self.pending[s][1] == r \
                    and tag in (ANY, self.pending[s][2]):
                out.append(s)
        return out

    def _deliver(self, r, s):
        kind, _, tag = self.pending[r]
        q = self.chan.get((s, r), [])
        for i, (tg, data) in enumerate(q):
            if tag in (ANY, tg):
                if kind == "recv":
                    q.pop(i)
                self.out.trace.append((s, r))
                self._resume(r, (s, tg, data))
                return
        op = self.pending[s]
        self.out.trace.append((s, r))
        if kind == "recv":
            self._resume(r, (s, op[2], op[3]))
            self._resume(s)
        else:
            self._resume(r, (s, op[2], op[3]))

    def run(self):
        o = self.out
        ths = [threading.Thread(target=self._main, args=(r,), daemon=True)
               for r in range(self.n)]
        for t in ths:
            t.start()
        try:
            for r in range(self.n):
                self._resume(r)
            self._loop()
        finally:
            self.dead = True
            for r in range(self.n):
                if r not in o.finished:
                    self.go[r].release()
        for t in ths:
            t.join(5)
        o.undelivered = [(k, len(v)) for k, v in self.chan.items() if v]
        return o

    def _loop(self):
        o = self.out
        while len(o.finished) < self.n:
            o.steps += 1
            if o.steps > self.max_steps:
                o.livelock = True
                return
            done = False
            for r in range(self.n):
                op = self.pending[r]
                if op is None:
                    continue
                k = op[0]
                if k == "abort":
                    o.aborted = (r, op[1])
                    return
                if k == "isend" or (k == "send" and not self.sync):
                    self.chan.setdefault((r, op[1]), []).append((op[2], op[3]))
                    self._resume(r)
                    done = True
                elif k in ("recv", "probe") and op[1] != ANY:
                    c = self._candidates(r)
                    if c:
                        self._deliver(r, c[0])
                        done = True
                if done:
                    break
            if done:
                continue
            live = [r for r in range(self.n) if r not in o.finished]
            coll = [r for r in live if self.pending[r][0] == "coll"]
            if coll and len(coll) == len(live) == self.n:
                vals = [self.pending[r][3] for r in range(self.n)]
                for r in range(self.n):
                    self._resume(r, vals)
                continue
            opts = [(r, s) for r in live
                    if self.pending[r][0] in ("recv", "probe")
                    for s in self._candidates(r)]
            if not opts:
                o.deadlock = {r: self.pending[r][:2] for r in live}
                return
            i = 0
            if len(opts) > 1:
                d = len(o.choices)
                i = self.prefix[d] if d < len(self.prefix) else 0
                o.choices.append((i, len(opts)))
            self._deliver(*opts[i])


def explore(n, body_factory, sync=False, cap=None):
    """Yield the Outcome of every schedule (depth-first, no repetition)."""
    prefix = []
    count = 0
    while True:
        run = Run(n, body_factory(), prefix, sync)
        o = run.run()
        yield o
        count += 1
        ch = list(o.choices)
        while ch and ch[-1][0] == ch[-1][1] - 1:
            ch.pop()
        if not ch or (cap and count >= cap):
            return
        prefix = [c for c, _ in ch[:-1]] + [ch[-1][0] + 1]
