"""Exhaustive bounded exploration of the real code in /repo: driver.

A property module mc/props/pXX.py defines

  META   dict: title-free facts about the exploration (level, rule, assumptions)
  cases(tier)    -> iterable of JSON-able cases, simplest first, deterministic
  check(case, R) -> run the real code on one case and report into R

R (class Rec) collects, per case:
  R.ev(n)          executions of the code under test
  R.state(x)       a (canonical, hashable) state / outcome reached
  R.trans(n)       transitions (operations/steps) taken
  R.bad(key, msg)  a violation; `key` identifies the failing input, stably
Every case is explored; nothing is sampled.
"""
import argparse
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GWECC_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "known_findings.txt")
BUDGET = {"quick": 700.0, "thorough": 5400.0}


class Hang(BaseException):
    """A case used more than its CPU allowance."""


class Rec:
    def __init__(self):
        self.evals = 0
        self.transitions = 0
        self.states = set()
        self.bads = []

    def ev(self, n=1):
        self.evals += n

    def trans(self, n=1):
        self.transitions += n

    def state(self, x):
        self.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8)
                        .digest())

    def bad(self, key, msg):
        self.bads.append((str(key), str(msg)))


def default_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(),
                           digest_size=6).hexdigest()


def _alarm(*_):
    raise Hang()


def run_case(mod, case, limit, scratch):
    """Run one case; always returns a Rec."""
    R = Rec()
    os.chdir(scratch)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.check(case, R)
    except Hang:
        R.bad("hang:" + default_key(case),
              f"no result after {limit} s of CPU time")
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        R.bad(f"error:{default_key(case)}",
              f"{type(e).__name__}: {str(e)[:300]} @ "
              + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}"
                           for f in traceback.extract_tb(e.__traceback__)[::-1][:4]))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return R


def _worker(mod, cases, nxt, cur, wid, out, limit, scratch, deadline, chunk):
    os.setpgid(0, 0) if False else None
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    my = os.path.join(scratch, f"w{wid}")
    os.makedirs(my, exist_ok=True)
    agg = {"done": 0, "evals": 0, "trans": 0, "states": set(), "bads": []}
    with open(out, "wb") as fh:
        while time.time() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value = i + chunk
            if i >= len(cases):
                break
            for j in range(i, min(i + chunk, len(cases))):
                cur[wid] = j
                R = run_case(mod, cases[j], limit, my)
                agg["done"] += 1
                agg["evals"] += R.evals
                agg["trans"] += R.transitions
                agg["states"] |= R.states
                agg["bads"] += [(j, k, m) for k, m in R.bads]
            if len(agg["bads"]) > 400:
                break
        cur[wid] = -1
        pickle.dump(agg, fh)
    os._exit(0)


def load_findings(pid):
    known = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if parts[1] == f"property={pid}":
                    key = parts[2].split("=", 1)[1]
                    known[key] = parts[3] if len(parts) > 3 else ""
    return known


def clean_scratch(path):
    assert path.startswith("/") and os.path.basename(path).startswith("gwmc_")
    shutil.rmtree(path, ignore_errors=True)


def main():
    if "--selftest" in sys.argv:
        sys.path.insert(0, REPO)
        import gw_eccentricity                      # noqa: F401
        print("gw_eccentricity imported from", gw_eccentricity.__file__)
        sys.exit(0)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default="quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--all", action="store_true",
                    help="print every violation, write no replay files")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix="gwmc_")
    try:
        rc = explore(pid, a, t0, scratch)
    finally:
        clean_scratch(scratch)
    sys.exit(rc)


def explore(pid, a, t0, scratch):
    real_out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        mod = importlib.import_module(f"mc.props.{pid.lower()}")
        if hasattr(mod, "setup"):
            mod.setup(scratch, a.tier)
    finally:
        sys.stdout = real_out
    meta = mod.META
    limit = meta.get("limit", {"quick": 60, "thorough": 240}[a.tier])
    if a.replay:
        art = json.load(open(a.replay))
        sys.stdout = io.StringIO()
        R = run_case(mod, art["case"], limit, scratch)
        sys.stdout = real_out
        for k, m in R.bads:
            print(f"VIOLATION property={pid} replay={a.replay} key={k} {m}")
        print(f"replayed: {len(R.bads)} violation(s)")
        return 1 if R.bads else 0
    cases = list(mod.cases(a.tier))
    if a.limit:
        cases = cases[:a.limit]
    assert cases, "no cases"
    budget = BUDGET[a.tier]
    deadline = t0 + budget
    njobs = a.jobs or meta.get("jobs") or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    nxt = ctx.Value("l", 0)
    cur = ctx.Array("l", [-1] * njobs)
    chunk = meta.get("chunk", max(1, min(16, len(cases) // (njobs * 8))))
    procs = []
    for w in range(njobs):
        p = ctx.Process(target=_worker, args=(
            mod, cases, nxt, cur, w, os.path.join(scratch, f"out{w}.pkl"),
            limit, scratch, deadline, chunk))
        p.daemon = False
        p.start()
        procs.append(p)
    bads, states = [], set()
    done = evals = trans = 0
    for w, p in enumerate(procs):
        p.join(max(1.0, deadline + limit + 60 - time.time()))
        f = os.path.join(scratch, f"out{w}.pkl")
        if p.is_alive():
            p.kill()
            p.join()
            bads.append((cur[w], f"stuck:{default_key(cases[cur[w]])}",
                         "the code under test blocked without finishing"))
            continue
        try:
            with open(f, "rb") as fh:
                agg = pickle.load(fh)
        except (EOFError, OSError, pickle.UnpicklingError):
            j = cur[w]
            bads.append((j, f"died:{default_key(cases[j])}",
                         f"the process running the case died ({p.exitcode})"))
            continue
        done += agg["done"]
        evals += agg["evals"]
        trans += agg["trans"]
        states |= agg["states"]
        bads += agg["bads"]
    bads.sort(key=lambda b: (b[0], b[1]))
    # a property module may relate outcomes across cases
    known = load_findings(pid)
    seen_known, fresh = {}, []
    for j, k, m in bads:
        if k in known:
            seen_known.setdefault(k, m)
        else:
            fresh.append((j, k, m))
    complete = done == len(cases)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(states),
        "rule": meta["rule"],
        "cases": len(cases),
        "cases_completed": done,
        "exhaustive": bool(complete),
        "samples": [cases[0], cases[len(cases) // 2], cases[-1]],
    }
    if meta["level"] == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = trans
        cov["traces_validated_against_impl"] = done
    elif trans:
        cov["transitions"] = trans
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage(a.tier))
    if not complete:
        cov["cap"] = (f"stopped after {done} of {len(cases)} cases "
                      f"(time budget {budget:.0f} s or violation cap)")
    ev = {"property": pid, "tier": a.tier,
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": meta["level"], "coverage": cov,
          "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} {a.tier}: {done}/{len(cases)} cases, {evals} executions, "
          f"{len(states)} distinct states/outcomes, {trans} transitions, "
          f"{ev['wall_s']} s")
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[k]} [{k}]")
    if fresh and a.all:
        for j, k, m in fresh:
            print(f"case {j} {k} :: {m[:300]}".replace("\n", " "))
    if fresh:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for j, k, m in fresh:
            if k in shown or len(shown) >= 5:
                continue
            shown.add(k)
            path = os.path.join(rdir, f"{pid}-{len(shown)}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "key": k, "what": m,
                           "case": cases[j] if j >= 0 else None,
                           "how": f"./run.sh {pid} quick --replay {path}"},
                          fh, indent=1)
            print(f"VIOLATION property={pid} replay={path}  key={k}  {m[:400]}")
        return 1
    if len(states) < 2:
        print(f"harness error: only {len(states)} distinct outcome(s)")
        return 2
    return 0


if __name__ == "__main__":
    main()
