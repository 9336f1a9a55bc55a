"""P20: advertised common frequency ranges hold for every sample.

All sequences (length <= 3) over good waveforms with different ranges and failing
samples, x methods x options: every sample's range equals the range of a direct
measurement, failures are isolated, and the common range (largest minimum,
smallest maximum) is exactly the set of frequencies usable for all successful
samples: frequencies in it (including its lowest one) succeed for each of them,
frequencies just outside fail for at least one. Every completion order of the
jobs gives the same result.
"""
import itertools

import numpy as np

from mc import jobs, pp, ppgen
from mc.common import attempt, run
from mc.props.p19 import make

META = dict(
    level="exploration", limit=300, chunk=2,
    rule="distinct = (sequence of sample behaviours, method, options, outcome)."
         " All sequences up to length 3.",
    assumptions=["samples of one posterior share the options"])
ALL = [0, 1, 2, 3, 4, 5, 6, 9]
OPTS = [None, {"extra_kwargs": {"omega_gw_averaging_method":
                                "orbit_averaged_omega_gw"}},
        {"num_orbits_to_exclude_before_merger": 1},
        {"extra_kwargs": {"omega_gw_averaging_method":
                          "mean_of_extrema_interpolants"}}]
_direct = {}


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for seq in itertools.product(ALL, repeat=n):
            if n == 3 and not th and sorted(seq) != list(seq) and \
                    sorted(seq, reverse=True) != list(seq):
                continue
            out.append(dict(seq=list(seq), method="Amplitude", o=0, j=0))
    for seq in itertools.product([0, 1, 3, 9], repeat=2):
        for m in ("Frequency", "AmplitudeFits"):
            out.append(dict(seq=list(seq), method=m, o=0, j=0))
        for o in (1, 2, 3):
            out.append(dict(seq=list(seq), method="Amplitude", o=o, j=0))
    for seq in ([0, 3, 1], [6, 0, 9, 2], [1, 2, 3, 0, 9]):
        for iso in (1, 2):
            out.append(dict(seq=seq, method="Amplitude", o=0, j=iso))
    for lab in ([2, 1, 0], [7, 0, 2]):
        out.append(dict(seq=[0, 3, 1], method="Amplitude", o=0, j=0, lab=lab))
    return out


def direct(kind, method, o):
    key = (kind, method, o)
    if key not in _direct:
        if kind in (3, 4):
            _direct[key] = None
        else:
            def f():
                d = ppgen.data(kind)
                r = run(dataDict=d, tref_in=d["t"], method=method,
                        **__import__("copy").deepcopy(OPTS[o] or {}))
                return r["gwecc_object"].get_fref_bounds()
            s, v = attempt(f)
            _direct[key] = tuple(float(x) for x in v) if s == "ok" else None
    return _direct[key]


def judge(R, key, res, case, kinds, samples):
    rs = res.results
    if [int(r.sample_index) for r in rs] != samples:
        R.bad(key, f"results for {[r.sample_index for r in rs]}")
        return None
    good = []
    for r, s in zip(rs, samples):
        d = direct(kinds[s], case["method"], case["o"])
        if (r.status == "success") != (d is not None):
            R.bad(key, f"sample {s} of {kinds}: {r.status} {r.error_message}")
            return None
        if d is None:
            if r.fref_min is not None or r.fref_max is not None \
                    or not r.error_message:
                R.bad(key, f"failed sample {s}: {r}")
                return None
            continue
        good.append(d)
        if not np.allclose([r.fref_min, r.fref_max], d, rtol=1e-14, atol=0):
            R.bad(key, f"sample {s}: [{r.fref_min}, {r.fref_max}] instead of {d}")
            return None
    sm = res.get_summary()
    if sm["total_samples"] != len(rs) or \
            list(sm["fref_min"]) != [r.fref_min for r in res.success_only()] or \
            list(sm["fref_max"]) != [r.fref_max for r in res.success_only()] or \
            abs(sm["success_percentage"] - 100 * len(good) / len(rs)) > 1e-9:
        R.bad(key, f"summary {sm}")
        return None
    s, v = attempt(res.get_minmax_fref)
    if not good:
        if s == "ok":
            R.bad(key, f"range {v} without any successful sample")
        return None
    if s != "ok":
        R.bad(key, f"{v!r}")
        return None
    want = (max(g[0] for g in good), min(g[1] for g in good))
    if not np.allclose(v, want, rtol=1e-14, atol=0):
        R.bad(key, f"common range {v} instead of {want}")
        return None
    return v


def labelled(case, R):
    """Row labels of the posterior are not positions."""
    lab = case["lab"]
    kinds = dict(zip(lab, case["seq"]))
    p = make(case["seq"], labels=lab)
    for sel in [None] + [list(x) for n in (1, 2, 3)
                         for x in itertools.permutations(lab, n)]:
        res = p.get_fref_bounds(method="Amplitude", samples=sel, n_jobs=1)
        R.ev()
        R.state((tuple(lab), None if sel is None else tuple(sel)))
        judge(R, f"p20:lab={lab}:sel={sel}", res, case, kinds,
              lab if sel is None else sel)


def check(case, R):
    if case.get("lab"):
        return labelled(case, R)
    kinds = case["seq"]
    key = "p20:" + ":".join(f"{k}={case[k]}" for k in sorted(case))
    p = make(kinds)
    idx = list(range(len(kinds)))

    def go(nj=1):
        return p.get_fref_bounds(method=case["method"], n_jobs=nj,
                                 gw_eccentricity_kwargs=OPTS[case["o"]])
    if case["j"]:
        for b, res in jobs.explore(lambda: go(2), isolate=case["j"] == 2,
                                   cap=800):
            R.ev()
            R.state((key, tuple(b.order)))
            if judge(R, key, res, case, kinds, idx) is None:
                return
        return
    res = go()
    R.ev()
    R.state((key, tuple(r.status for r in res.results)))
    rng = judge(R, key, res, case, kinds, idx)
    if rng is None or not rng[0] < rng[1]:
        return
    if len(kinds) == 3 and sorted(kinds) != kinds:
        return
    good = [i for i in idx if res.results[i].status == "success"]
    lo, hi = rng
    w = hi - lo
    for f, inside in ((lo, True), (lo + .3 * w, True), (lo + .7 * w, True),
                      (hi - 1e-6 * w, True), (lo - 1e-6 * w, False),
                      (hi + 1e-6 * w, False)):
        rr = p.postprocess(fref=f, samples=good, method=case["method"],
                           n_jobs=1, gw_eccentricity_kwargs=OPTS[case["o"]])
        R.ev()
        st = [r.status for r in rr.results]
        if inside and "fail" in st:
            R.bad(key, f"frequency {f} of the common range [{lo}, {hi}] "
                  f"failed: {[r.error_message for r in rr.results]}")
            return
        if not inside and "fail" not in st:
            R.bad(key, f"frequency {f} outside the common range [{lo}, {hi}] "
                  "is accepted for every sample")
            return
    # repeated with the samples in reverse: same ranges
    r2 = p.get_fref_bounds(samples=idx[::-1], method=case["method"], n_jobs=1,
                           gw_eccentricity_kwargs=OPTS[case["o"]])
    R.ev()
    if judge(R, key + ":rev", r2, case, kinds, idx[::-1]) is None:
        return
