"""P27: comparing two measurements; truncating a signal by frequency.

compare: for every pair of methods x reference-time pattern (dense, sparse, windows
straddling each pericentre) x (tmin, tmax) window the returned times are exactly the
requested times both measurements support, and the errors are the absolute
difference of eccentricity and the circular distance of the mean anomaly.
truncate: for every cutoff of a grid across the range of pericentre frequencies x
mode content x m_max x method, everything at or above the cutoff is kept, the start
is not earlier than needed, and nothing else changes.
"""
import itertools

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline

from gw_eccentricity.compare_methods import compute_errors_between_methods
from gw_eccentricity.truncate_waveform_by_flow import truncate_waveform_by_flow

from mc.common import (METHODS, angdiff, attempt, data_for, deriv4, run, same,
                       snapshot, spline_kw, wave)

META = dict(
    level="exploration", limit=200, chunk=2,
    rule="distinct = (pair, pattern, window, outcome) and (method, modes, m_max,"
         " cutoff, outcome). Full grids.",
    assumptions=["the last common time may or may not be included",
                 "truncation: cutoff within 0.1% of the frequency is undecided"])
PAIRS = [(a, b) for a in METHODS for b in METHODS]
PAT = ["dense", "sparse", "sparse2", "straddle", "few", "one"]
WIN = [(None, None), (-1500., None), (None, -900.), (-1500., -900.),
       (-1200., -1200.), (-500., None), (None, -2500.), (5000., None),
       (-1e4, 1e4)]
FLOWF = [-.6, -.3, -.05, 0.02, .2, .5, .8, .97, 1.1]
_mem = {}


def cases(tier):
    th = tier == "thorough"
    out = []
    for (a, b), p in itertools.product(PAIRS, PAT):
        if not th and p not in ("straddle", "sparse") and \
                (a, b) not in PAIRS[:4]:
            continue
        for e in (.1, .3) if th else (.2,):
            # d: the second signal's initial mean anomaly differs by this
            for d in (0, .3, -.3) if th else (0, .3):
                out.append(dict(k="cmp", a=a, b=b, p=p, e=e, d=d))
    for p in ("dense", "few"):
        out.append(dict(k="mismatch", p=p))
    for m in METHODS:
        for mm in range(len(MODES)):
            if not th and mm and m not in METHODS[:2]:
                continue
            for l0 in (.5, 3.0, 5.9) if th or m == METHODS[0] else (.5,):
                out.append(dict(k="cut", m=m, mm=mm, l0=l0))
    return out


def times(w, p):
    lo, hi = w.t[0] + 100, w.t[w.merger_index] - 250
    if p == "dense":
        return w.t[(w.t > lo) & (w.t < hi)][::7]
    if p == "sparse":
        return np.linspace(lo, hi, 15)
    if p == "sparse2":
        return np.linspace(lo, hi, 8)
    if p == "few":
        return np.array([-1400., -1100, -700.])
    if p == "one":
        return np.array([-1100.])
    P = w.t[w.extrema()[0]]
    return np.sort(np.concatenate([P[1:-1] + d for d in (-2.5, .3, -4., 4.)]))


def measured(m, p, e, d=0):
    key = (m, p, e, d)
    if key not in _mem:
        w = wave(n_orb=9, dt=1.5, e0=e)
        t = times(w, p)
        if d:
            w = wave(n_orb=9, dt=1.5, e0=e, l0=.5 + d)
        _mem[key] = attempt(run, dataDict=data_for(w, m), tref_in=t.copy(),
                            method=m, extra_kwargs=spline_kw())
    return _mem[key]


def compare(case, R):
    key = ":".join(map(str, case.values()))
    (s1, v1), (s2, v2) = (measured(case[x], case["p"], case["e"],
                                   case["d"] * (x == "b")) for x in "ab")
    if s1 != "ok" or s2 != "ok":
        R.state((key, s1, s2))
        return R.bad(key, f"not measured: {v1} {v2}") if \
            case["p"] != "straddle" else None
    o1, o2 = v1["gwecc_object"], v2["gwecc_object"]
    A = dict(zip(v1["tref_out"], zip(v1["eccentricity"], v1["mean_anomaly"])))
    B = dict(zip(v2["tref_out"], zip(v2["eccentricity"], v2["mean_anomaly"])))
    both = sorted(set(A) & set(B))
    win = list(WIN)
    if both:
        # windows that begin or end exactly at a measured time
        win += [(both[0], None), (both[len(both) // 2], None),
                (both[-1], None), (None, both[len(both) // 2]),
                (both[len(both) // 3], both[-1] + 1.),
                (both[len(both) // 2], both[len(both) // 2] + 1e-3)]
    for lo, hi in win:
        s, r = attempt(compute_errors_between_methods, o1, o2, tmin=lo, tmax=hi)
        R.ev()
        L = max(o1.tmin, o2.tmin, -np.inf if lo is None else lo)
        H = min(o1.tmax, o2.tmax, np.inf if hi is None else hi)
        want = sorted(t for t in set(A) & set(B) if L <= t < H)
        edge = sorted(t for t in set(A) & set(B) if t == H >= L)
        k = f"{key}:{lo}:{hi}"
        R.state((k, s, len(want)))
        if L > H:
            if s == "ok" and len(r[0]):
                R.bad(k, f"errors at {r[0]} outside the common range")
            continue
        if s != "ok":
            R.bad(k, f"failed: {r}")
            continue
        t = list(r[0])
        if t != want and t != want + edge:
            R.bad(k, f"{len(t)} times {t[:3]}, common ones are {want[:3]} "
                     f"({len(want)})")
            continue
        if len({len(x) for x in r}) != 1 or len(r) != 7:
            R.bad(k, f"lengths {[len(x) for x in r]}")
            continue
        for i, x in enumerate(t):
            (e1, l1), (e2, l2) = A[x], B[x]
            if r[3][i] != e1 or r[4][i] != e2 or angdiff(r[5][i], l1) > 1e-12 \
                    or angdiff(r[6][i], l2) > 1e-12:
                R.bad(k, f"at {x}: values of the measurements not returned")
                break
            if abs(r[1][i] - abs(e1 - e2)) > 1e-14:
                R.bad(k, f"at {x}: eccentricity error {r[1][i]}, values {e1} "
                         f"and {e2}")
                break
            if abs(r[2][i] - angdiff(l1, l2)) > 1e-9:
                R.bad(k, f"at {x}: mean anomaly error {r[2][i]}, values {l1} "
                         f"and {l2}")
                break


MODES = [None, [(3, 3)], [(3, 3), (4, 4), (2, 1)], [(4, 4)], [(3, 3)],
         [(3, 3), (4, 1)], [(5, -5), (3, 1)]]
MMAX = [None, None, None, 2, 4, None, None]


def cut(case, R):
    w = wave(n_orb=9, dt=1.5, e0=.2, l0=case["l0"])
    m = case["m"]
    d = data_for(w, m)
    for ell, mode in MODES[case["mm"]] or []:
        d["hlm"][(ell, mode)] = .1 * w.amp * np.exp(-1j * w.phase * mode / 2)
    mm = MMAX[case["mm"]]
    use = mm or max(x for _, x in d["hlm"])
    snap = snapshot(d)
    f = deriv4(w.phase, w.t[1] - w.t[0]) / 2 / np.pi
    P = w.extrema()[0]
    fp = InterpolatedUnivariateSpline(w.t[P], f[P], k=3)
    f0, f1 = fp(w.t[P[0]]), fp(w.t[P[-1]])
    for x in FLOWF:
        flow = (f0 + x * (f1 - f0)) * use / 2
        key = ":".join(map(str, case.values())) + f":{x}"
        s, r = attempt(truncate_waveform_by_flow, dataDict=d, flow=flow,
                       m_max=mm, method=m, extra_kwargs=spline_kw())
        R.ev()
        R.state((key, s))
        if snapshot(d) != snap:
            R.bad(key, "the caller's data changed")
            return
        if s != "ok":
            # beyond the last usable pericentre refusing is right
            if x < .6:
                R.bad(key, f"failed: {r!r}")
            continue
        if x > 1:
            # above all pericentre frequencies: refusing is expected
            R.bad(key, f"truncated at {r[0]['t'][0]}")
            continue
        out = r[0]
        n = len(out["t"])
        if set(out) != set(d) or set(out["hlm"]) != set(d["hlm"]) \
                or not same(out["t"], w.t[-n:]) \
                or any(not same(out["hlm"][k], d["hlm"][k][-n:])
                       for k in d["hlm"]) \
                or any(snapshot(out[k]) != snapshot(d[k]) for k in d
                       if k.endswith("zeroecc")):
            R.bad(key, "the result is not the end of the input")
            continue
        lost = f[:len(w.t) - n] * use / 2
        if len(lost) and lost.max() >= flow * 1.001:
            R.bad(key, f"frequency {lost.max()} lost, cutoff {flow}")
        tl = out["t"][0]
        if .1 < x < .9 and len(lost) and \
                not abs(fp(tl) * use / 2 - flow) < 2e-3 * flow:
            R.bad(key, f"starts where the pericentre frequency is "
                       f"{fp(tl) * use / 2}, cutoff {flow}")
        if x >= .2 and not len(lost):
            R.bad(key, "nothing truncated")


def check(case, R):
    if case["k"] == "cmp":
        compare(case, R)
    elif case["k"] == "cut":
        cut(case, R)
    else:
        (_, v1), (_, v2) = (measured("Amplitude", p, .2)
                            for p in (case["p"], "sparse"))
        s, r = attempt(compute_errors_between_methods, v1["gwecc_object"],
                       v2["gwecc_object"])
        R.ev()
        R.state((case["p"], s))
        if s == "ok":
            R.bad("mismatch:" + case["p"], "compared different reference times")
