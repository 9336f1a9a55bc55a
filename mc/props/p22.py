"""P22: a crash at any point of a run loses nothing that was recorded.

Every call of the real program that changes a file below the output directory
is a crash point (mc/c/crash.c, preloaded: open for writing, write, rename,
unlink, ...; for a write also after half and all but one of its bytes). For each
history of runs every crash point is executed in a forked process, then the
next run of the history follows (which may crash as well), and the last one
completes. After it the result file must equal direct measurements, recorded
samples must not have been evaluated again, and at most one checkpoint interval
of evaluations may be lost. A result file present after a crash is complete.
"""
import ctypes
import hashlib
import itertools
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from mc import mpi, pp, ppgen

META = dict(
    level="model_checking", limit=600, chunk=1,
    rule="state = content of the output directory after a crash (hashed), per "
         "history; transition = one run of the program (crashed or complete). "
         "All file-changing calls of every history; torn writes after half and "
         "all but one byte (quick: at the first, middle and last write of a "
         "file; two-crash histories use only these writes).",
    assumptions=[
        "crash = death of the process (all ranks) between two calls or within "
        "a write; what was written before stays (no power loss model)",
        "histories of up to three runs, up to two crashes"])
NBLOCK = 8


def setup(scratch, tier):
    so = os.environ.get("GWMC_CRASH_SO")
    if so is None:
        d = tempfile.mkdtemp(prefix="gwmc_so_")
        so = os.path.join(d, "crash.so")
        src = os.path.join(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))), "c", "crash.c")
        subprocess.run(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", so, src,
                        "-ldl"], check=True)
        env = dict(os.environ, GWMC_CRASH_SO=so, LD_PRELOAD=so)
        sys.stdout.flush()
        rc = subprocess.call([sys.executable, "-m", "mc.core"] + sys.argv[1:],
                             env=env, stdout=sys.__stdout__)
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.__stdout__.flush()
        os._exit(rc)
    os.environ.pop("LD_PRELOAD", None)
    lib().gwmc_count()


def lib():
    if not hasattr(lib, "h"):
        h = ctypes.CDLL(os.environ["GWMC_CRASH_SO"])
        h.gwmc_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
        h.gwmc_kinds.restype = ctypes.c_char_p
        h.gwmc_count.restype = ctypes.c_long
        lib.h = h
    return lib.h


# a run: sel (None = all), se, fmt, size, prefix of message choices
def r(sel=None, se=1, fmt="csv", size=1, pre=(), b=1):
    return dict(sel=sel, se=se, fmt=fmt, size=size, pre=list(pre), b=b)


def histories(tier):
    th = tier == "thorough"
    H = []
    # (name, number of samples, runs, indices of the runs that crash)
    for se in (1, 2, 3, 0):
        H.append((f"same-se{se}", 4, [r(se=se), r(se=se)], [0]))
    for fmt in ("json", "parquet"):
        H.append((f"fmt-{fmt}", 2, [r(fmt=fmt), r(fmt=fmt)], [0]))
    H.append(("rerun", 2, [r(), r(), r()], [1]))
    H.append(("parts", 4, [r("0:2"), r("2:4"), r()], [1]))
    H.append(("parts-first", 4, [r("0:2"), r("1:4", se=2), r()], [0]))
    H.append(("subset-after", 3, [r(), r("1"), r()], [0]))
    H.append(("no-se-after", 3, [r(se=2), r(se=0)], [0]))
    H.append(("no-se-then", 3, [r(se=0), r(se=1), r(se=1)], [1]))
    H.append(("twice", 3, [r(), r(), r()], [0, 1]))
    for pre in ([0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 1], [1, 0, 1, 0]):
        H.append((f"mpi3-{''.join(map(str, pre))}", 4,
                  [r(size=3, pre=pre), r(size=3, pre=pre)], [0]))
    H.append(("mpi-batch2", 4, [r(size=3, b=2, se=2), r()], [0]))
    H.append(("mpi-to-single", 3, [r(size=4, se=1), r()], [0]))
    # no crash: every set of recorded samples x number of ranks x batch size x
    # what is asked for next; then everything
    for k in range(1, 5):
        for first in itertools.combinations(range(4), k):
            a = ",".join(map(str, first))
            for size, b, se in ((1, 1, 3), (3, 1, 1), (3, 2, 3), (2, 3, 2)) + (
                    ((2, 1, 3), (4, 2, 2), (1, 1, 1)) if th else ()):
                for nxt in (None, "1:3") + (("3,0", "2") if th else ()):
                    H.append((f"after-{a}-{size}-{b}-{nxt}", 4,
                              [r(a), r(nxt, se, size=size, b=b), r()], []))
    if th:
        H.append(("twice-se2", 5, [r(se=2), r(se=2), r(se=2)], [0, 1]))
        H.append(("twice-parts", 4, [r("0:3"), r("1:4"), r()], [0, 1]))
        H.append(("twice-mpi", 4, [r(size=3, pre=[0, 1, 0, 1]),
                                   r(size=3, pre=[1, 0]), r(size=2)], [0, 1]))
        H.append(("parts-rev", 4, [r("2:4"), r("0:2"), r("1:3"), r()], [1, 2]))
        H.append(("long", 7, [r(se=3), r(se=1)], [0]))
    return H


KINDS = [0, 3, 1, 2, 6, 0, 4]


def cases(tier):
    out = []
    for name, n, runs, crash in histories(tier):
        for blk in range(NBLOCK if crash else 1):
            out.append(dict(h=name, n=n, runs=runs, crash=crash, blk=blk,
                            th=tier == "thorough"))
    return out


def selected(run, n):
    if run["sel"] is None:
        return list(range(n))
    if ":" in run["sel"]:
        a, b = run["sel"].split(":")
        return list(range(int(a), int(b)))
    return [int(x) for x in run["sel"].split(",")]


def forked(fn, timeout=120):
    """(exit status, value) of fn run in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(timeout)
            os.close(rd)
            val = fn()
            lib().gwmc_disarm()
            data = pickle.dumps(val)
            while data:
                data = data[os.write(wr, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        c = os.read(rd, 1 << 16)
        if not c:
            break
        buf += c
    os.close(rd)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    return code, (pickle.loads(buf) if code == 0 else None)


class Space:
    def __init__(self, base, n, R, key):
        self.base, self.n, self.R, self.key = base, n, R, key
        self.kinds = KINDS[:n]
        self.out = os.path.join(base, "out")
        self.log = os.path.join(base, "evals.log")
        self.post = os.path.join(base, "post.json")
        pp.write_posterior(self.post, self.kinds)
        self.seen = set()
        self.snap = 0

    def argv(self, run):
        a = ["--posterior-path", self.post, "--output-dir", self.out, "--tref",
             str(pp.TREF), "--method", "Amplitude", "--output-format",
             run["fmt"], "--data-dict-generator", "mc.ppgen:generate",
             "--batch-size", str(run["b"])]
        if run["se"]:
            a += ["--save-every", str(run["se"])]
        if run["sel"] is not None:
            a += ["--samples", run["sel"]]
        return a

    def go(self, run, k=-1, v=0):
        """Execute one run on the current directory; crash at event k."""
        if os.path.exists(self.log):
            os.unlink(self.log)

        def body():
            ppgen.LOG = self.log
            f = pp.cli(self.argv(run), run["size"])()
            lib().gwmc_arm((self.out).encode(), k, v)
            o = mpi.Run(run["size"], f, run["pre"]).run()
            kinds = lib().gwmc_kinds().decode()
            lib().gwmc_disarm()
            df = pp.read_output(self.out, run["fmt"])
            bad = pp.check_output(df, self.kinds, selected(run, self.n),
                                  run["fmt"])
            errs = {q: repr(e)[:200] for q, e in o.finished.items() if e}
            if o.deadlock or o.livelock or o.aborted:
                errs["run"] = f"{o.deadlock} {o.livelock} {o.aborted}"
            return kinds, bad, errs
        self.R.ev()
        self.R.trans()
        code, val = forked(body)
        ev = []
        if os.path.exists(self.log):
            ev = [int(x) - 100 for x in open(self.log).read().split()]
        return code, val, ev

    def save(self):
        self.snap += 1
        d = os.path.join(self.base, f"snap{self.snap}")
        shutil.copytree(self.out, d)
        return d

    def load(self, d):
        shutil.rmtree(self.out)
        shutil.copytree(d, self.out)

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        for root, _, files in sorted(os.walk(self.out)):
            for f in sorted(files):
                h.update(f.encode())
                h.update(open(os.path.join(root, f), "rb").read())
        return h.hexdigest()

    def bad(self, msg):
        self.R.bad(self.key, msg)
        raise StopIteration


def points(kinds, case):
    """[(file call, torn-write variants)]: every call (with two crashes in the
    quick tier: of consecutive writes the first, the middle and the last one)."""
    out, n = [], len(kinds)
    two, th = len(case["crash"]) > 1, case["th"]
    i = 0
    while i < n:
        if kinds[i] != "w":
            out.append((i, (0,)))
            i += 1
            continue
        j = i
        while j < n and kinds[j] == "w":
            j += 1
        mid = (i + j - 1) // 2
        for k in range(i, j):
            edge = k in (i, mid, j - 1)
            if two:
                if edge:
                    out.append((k, (0, 1) if th else (0,)))
            else:
                out.append((k, (0, 1, 2) if th or k == j - 1 else
                            (0, 1) if edge else (0,)))
        i = j
    return out


def check(case, R):
    base = pp.fresh(os.path.join(os.getcwd(), "p22"))
    key = f"p22:{case['h']}"
    sp = Space(base, case["n"], R, key)
    os.makedirs(sp.out)
    try:
        explore(sp, case, 0, {}, "", blk=case["blk"])
    except StopIteration:
        pass


def explore(sp, case, i, rec, path, blk=None, maybe=()):
    """Run i of the history from the current directory. `rec`: what is known to
    be recorded: sample -> True (must not be evaluated again). `maybe`: (samples
    evaluated by a crashed run, how many of them may be lost, those evaluated
    again since). `blk`: only the crash points of this block (first crashing
    run)."""
    runs = case["runs"]
    run = runs[i]
    sel = selected(run, sp.n)
    start = sp.save()
    code, val, ev = sp.go(run)
    if code != 0:
        sp.bad(f"run {i} of {path or 'start'} ended with status {code}")
    kinds, bad, errs = val
    judge(sp, case, i, sel, ev, rec, bad, errs, path)
    losses(sp, i, ev, maybe, path)
    if i == len(runs) - 1:
        return
    if i not in case["crash"]:
        rec2 = dict(rec)
        for s in sel:
            if run["se"]:
                rec2[s] = True
        explore(sp, case, i + 1, rec2, path + f" run{i} complete;", blk,
                losses(sp, i, ev, maybe, path))
        return
    full = ev
    for j, (k, vs) in enumerate(points(kinds, case)):
        if blk is not None and j % NBLOCK != blk:
            continue
        for v in vs:
            sp.load(start)
            code, val, ev = sp.go(run, k, v)
            if code != 137:
                # another order of events: the program finished or failed
                if code != 0:
                    sp.bad(f"status {code} at crash point {k}")
                continue
            here = path + f" run{i} dies at file call {k} ({kinds[k]}, {v});"
            # results present must be complete
            for fmt in {q["fmt"] for q in runs}:
                if os.path.exists(os.path.join(
                        sp.out, f"eccentricity_results.{fmt}")):
                    cands = [selected(q, sp.n) for q in runs[:i + 1]
                             if q["fmt"] == fmt]
                    c2, probs = forked(lambda: verdict(sp, fmt, cands))
                    if c2 != 0 or probs:
                        sp.bad(f"incomplete result file after {here} {probs}")
            d = (sp.digest(), i, tuple(sorted(set(ev))), tuple(sorted(rec)))
            sp.R.state((sp.key, d))
            if d in sp.seen:
                continue
            sp.seen.add(d)
            # at most `save_every` of the evaluated samples may be lost
            # (and, with workers, the batches that were being worked on)
            lost_ok = run["se"] if run["se"] else len(sel)
            if run["size"] > 1:
                lost_ok += (run["size"] - 1) * run["b"]
            mb = losses(sp, i, ev, maybe, here)
            mb += ((frozenset(ev), lost_ok, frozenset()),)
            explore(sp, case, i + 1, rec, here, None, mb)
    return full


def losses(sp, i, ev, maybe, path):
    out = []
    for seen, allowed, again in maybe:
        again = again | (seen & set(ev))
        if len(again) > allowed:
            sp.bad(f"after [{path}] the samples {sorted(again)} were lost; "
                   f"at most {allowed} may be")
        out.append((seen, allowed, again))
    return tuple(out)


def verdict(sp, fmt, cands):
    try:
        df = pp.read_output(sp.out, fmt)
    except Exception as e:
        return f"{type(e).__name__}"
    probs = [pp.check_output(df, sp.kinds, c, fmt) for c in cands]
    return None if any(not p for p in probs) else str(probs[0][:1])


def judge(sp, case, i, sel, ev, rec, bad, errs, path):
    if errs:
        sp.bad(f"run {i} after [{path}] failed: {errs}")
    if bad:
        sp.bad(f"run {i} after [{path}]: {bad[0]}")
    if len(set(ev)) != len(ev):
        sp.bad(f"run {i} after [{path}] evaluated samples twice: {ev}")
    if not set(ev) <= set(sel):
        sp.bad(f"run {i} after [{path}] evaluated {ev}, selected {sel}")
    again = [s for s in ev if s in rec]
    if again:
        sp.bad(f"run {i} after [{path}]: recorded samples {again} were "
               "evaluated again")
