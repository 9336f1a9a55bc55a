"""P21: the MPI run computes every sample once, for every message order.

The real program runs on simulated ranks (mc/mpi.py). For each configuration
(samples x workers x batch size x checkpoint interval x already recorded subset
x send mode) every possible order of message receptions is executed. After each
of them: all ranks have ended, no message is left, every pending sample was
evaluated exactly once, and the result file equals direct measurements.
Fault configurations (failures of the coordinating rank before and after
dispatch) must not leave any rank waiting.
"""
import contextlib
import io
import os

from mc import mpi, pp, ppgen

META = dict(
    level="model_checking", limit=400, chunk=1,
    rule="state = sequence of (source, destination) message deliveries of an "
         "execution of the real program together with its configuration; "
         "transition = one delivered message. All schedules per configuration "
         "(depth-first over every receive-from-any choice).",
    assumptions=[
        "MPI semantics: messages between two ranks do not overtake; sends "
        "either eager or synchronous; local steps of different ranks commute",
        "up to 3 workers and 5 samples (thorough: 4 and 7)"])

PAT = [0, 3, 1, 2, 6, 0, 4]


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 8 if th else 6):
        for w in (1, 2, 3, 4) if th else (1, 2, 3):
            for b in (1, 2, 3):
                if b > n or (n >= 7 and b == 1 and w > 2) or (
                        n >= 6 and b == 1 and w > 3):
                    continue
                for se in (0, 1, 2, 3):
                    for sync in (0, 1):
                        if not th and n == 5 and b == 1 and w == 3 and (
                                sync or se):
                            continue
                        if n >= 6 and b == 1 and w == 3 and se not in (0, 2):
                            continue
                        out.append(dict(f="run", n=n, w=w, b=b, se=se,
                                        sync=sync))
    N = 4
    for m in range(2 ** N):
        for w in (1, 2, 3):
            for b in (1, 2):
                for se in (0, 1):
                    out.append(dict(f="resume", n=N, w=w, b=b, se=se, mask=m))
    for sel in ([3, 1], [0, 0], [2, 0, 2], [], [1]):
        for w in (1, 2):
            out.append(dict(f="select", n=4, w=w, b=1, se=0, sel=sel))
    for what in ("nofile", "range", "outfile", "lostdir"):
        for w in (1, 2, 3):
            for se in (0, 1):
                for sync in (0, 1):
                    out.append(dict(f="fault", what=what, n=3, w=w, b=1, se=se,
                                    sync=sync))
    for b in ("0", "-1"):
        for w in (1, 2):
            out.append(dict(f="batch", n=3, w=w, b=b, se=0))
    out.sort(key=lambda c: (c["f"] != "run", c["n"]))
    return out


def argv_for(case, base, fmt="csv"):
    a = ["--posterior-path", os.path.join(base, "post.json"),
         "--output-dir", os.path.join(base, "out"), "--tref", str(pp.TREF),
         "--method", "Amplitude", "--output-format", fmt,
         "--data-dict-generator", "mc.ppgen:generate",
         "--batch-size", str(case["b"])]
    if case["se"]:
        a += ["--save-every", str(case["se"])]
    return a


def check(case, R):
    with contextlib.redirect_stderr(io.StringIO()):
        _check(case, R)


def _check(case, R):
    base = pp.fresh(os.path.join(os.getcwd(), "p21"))
    kinds = PAT[:case["n"]]
    if case["f"] == "fault" and case["what"] == "lostdir":
        kinds = [0, 8, 1]
        ppgen.MOVE = os.path.join(base, "out")
    pp.write_posterior(os.path.join(base, "post.json"), kinds)
    outdir = os.path.join(base, "out")
    argv = argv_for(case, base)
    size = case["w"] + 1
    sel = list(range(case["n"]))
    pending = list(sel)
    if case["f"] == "resume":
        done = [i for i in sel if case["mask"] >> i & 1]
        pending = [i for i in sel if i not in done]
    if case["f"] == "select":
        sel = case["sel"]
        pending = sorted(set(sel))
        argv += ["--samples", ",".join(map(str, sel)) if len(sel) > 1 else
                 (str(sel[0]) if sel else "2:2")]
    if case["f"] == "fault":
        if case["what"] == "nofile":
            os.unlink(os.path.join(base, "post.json"))
        elif case["what"] == "range":
            argv += ["--samples", "1,77"]
    key = "p21:" + ":".join(f"{k}={case[k]}" for k in sorted(case))
    runs = mpi.explore(size, lambda: prepare(case, base, argv, size, outdir),
                       sync=bool(case.get("sync")), cap=6000)
    k = 0
    for o in runs:
        k += 1
        R.ev()
        R.trans(len(o.trace))
        R.state((key, tuple(o.trace)))
        tag = f" (schedule {[c for c, _ in o.choices]})"
        if o.livelock:
            R.bad(key, "the ranks exchange messages forever" + tag)
            return
        if o.deadlock:
            R.bad(key, f"ranks wait forever: {o.deadlock}, ended: "
                  f"{ {r: str(e)[:80] for r, e in o.finished.items()} }" + tag)
            return
        errs = {r: e for r, e in o.finished.items() if e is not None}
        if case["f"] == "fault":
            if case["what"] == "lostdir":
                if os.path.isfile(outdir):
                    os.unlink(outdir)
            if not o.aborted and not errs:
                R.bad(key, "the failure was not reported" + tag)
                return
            continue
        if case["f"] == "batch":
            if not errs and not o.aborted:
                bad = pp.check_output(pp.read_output(outdir, "csv"), kinds, sel)
                if bad:
                    R.bad(key, bad[0] + tag)
            continue
        if o.aborted or errs:
            R.bad(key, f"aborted {o.aborted}, errors {errs}" + tag)
            return
        if o.undelivered:
            R.bad(key, f"messages never received: {o.undelivered}" + tag)
            return
        calls = sorted(ppgen.CALLS)
        want = sorted(100 + i for i in pending)
        if case["f"] == "select":
            calls = sorted(set(calls))
        if calls != want:
            R.bad(key, f"evaluated samples {calls} instead of {want}" + tag)
            return
        bad = pp.check_output(pp.read_output(outdir, "csv"), kinds, sel)
        if bad:
            R.bad(key, bad[0] + tag)
            return
        if case["se"] and (k <= 3 or k % 8 == 0):
            ppgen.CALLS.clear()
            o1 = mpi.Run(1, pp.cli(argv)(), ()).run()
            R.ev()
            if ppgen.CALLS or o1.finished[0] is not None:
                R.bad(key, f"after a complete run, {sorted(ppgen.CALLS)} "
                      "were evaluated again" + tag)
                return
            bad = pp.check_output(pp.read_output(outdir, "csv"), kinds, sel)
            if bad:
                R.bad(key, "from the checkpoint: " + bad[0] + tag)
                return


def prepare(case, base, argv, size, outdir):
    """Fresh output directory (with the recorded subset), then the ranks."""
    gone = outdir + ".gone"
    import shutil
    assert "gwmc_" in gone
    shutil.rmtree(gone, ignore_errors=True)
    for p in (outdir, gone):
        if os.path.isfile(p):
            os.unlink(p)
    pp.fresh(outdir)
    if case["f"] == "resume" and case["mask"]:
        done = [i for i in range(case["n"]) if case["mask"] >> i & 1]
        first = dict(case, se=1)
        o = mpi.Run(1, pp.cli(argv_for(first, base) + [
            "--samples", ",".join(map(str, done)) + ","])(), ()).run()
        assert o.finished[0] is None, o.finished
    if case["f"] == "fault" and case["what"] == "outfile":
        os.rmdir(outdir)
        open(outdir, "w").close()
    ppgen.CALLS.clear()
    return pp.cli(argv, size)()
