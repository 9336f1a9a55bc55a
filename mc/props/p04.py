"""P04: the answer at a reference point does not depend on its companions."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (waveform, method, interpolation, averaging, domain, list "
         "length, first letter); all ordered selections with repetition from "
         "an alphabet of in-range and out-of-range points, and arrangements of "
         "up to 20001 of them; a state is the "
         "(configuration, request tuple); every answer is compared with the "
         "one obtained for that point alone",
    assumptions=["short-segment mode excluded: there the segment is chosen "
                 "from the whole request (P14)"],
)
WK = [dict(e0=0.25, l0=1.0, n_orb=9), dict(e0=0.45, l0=4.0, n_orb=9, t0=0.0)]


def cases(tier):
    out = []
    for wi in range(2):
        for dom in ("time", "frequency"):
            for m in METHODS:
                for interp in ("spline", "rational_fit"):
                    avs = ["orbit_averaged_omega_gw"]
                    if dom == "frequency" and m in FAST:
                        avs = ["orbit_averaged_omega_gw",
                               "mean_of_extrema_interpolants"]
                        if m in RESIDUAL:
                            avs.append("omega_gw_zeroecc")
                    for av in avs:
                        cheap = m in FAST and interp == "spline"
                        L = 4 if cheap and m == "Amplitude" else 3 if cheap else 2
                        if tier == "quick":
                            L = 3 if cheap and av.startswith("orbit") else 2
                            if wi and not cheap:
                                continue
                        for f in range(8):
                            out.append([wi, dom, m, interp, av, L, f])
                        if not wi or tier != "quick":
                            out.append([wi, dom, m, interp, av, 0, "long"])
    return out


LONG = (17, 129, 501, 1001, 2049, 5001, 20001)


def long_requests():
    """name, indices: long requests in different arrangements"""
    for n in LONG:
        i = np.arange(n)
        yield f"{n} mixed", (5 * i + i // 8) % 8
        yield f"{n} blocks", 8 * i[::-1] // n
        yield f"{n} one late", np.where(i == n - 2, 6, 1)
        yield f"{n} none outside until the end", np.where(
            i < n - 1, np.array([7, 0, 2])[i % 3], 4)


_single = {}


def letters(k):
    wi, dom, m, interp, av = k
    w = wave(**WK[wi])
    d = data_for(w, m)
    ek = {"omega_gw_extrema_interpolation_method": interp,
          "omega_gw_averaging_method": av}
    r = run(tref_in=w.t, method=m, dataDict=d, extra_kwargs=dict(ek))
    o = r["gwecc_object"]
    if dom == "time":
        lo, hi = r["tref_out"][0], r["tref_out"][-1]
    else:
        lo, hi = o.get_fref_bounds()
    D = hi - lo
    A = [lo + .1 * D, lo + .5 * D, lo + .5001 * D, lo + .93 * D, lo - .01 * D,
         hi + .01 * D, lo + 1e-7 * D, lo + .35 * D]
    key = "tref" if dom == "time" else "fref"
    single = {}
    for i, a in enumerate(A):
        st, r1 = attempt(run, method=m, dataDict=data_for(w, m),
                         extra_kwargs=dict(ek), **{key + "_in": a})
        if st == "ok":
            single[i] = (r1[key + "_out"], r1["eccentricity"],
                         r1["mean_anomaly"])
    return w, ek, A, single, key


def check(case, R):
    wi, dom, m, interp, av, L, first = case
    k = (wi, dom, m, interp, av)
    if k not in _single:
        _single[k] = letters(k)
    w, ek, A, single, key = _single[k]
    if sorted(single) != [0, 1, 2, 3, 6, 7]:
        R.bad(f"{k}:single", f"answered letters {sorted(single)}")
        return
    if first == "long":
        sing = np.array([single.get(i, (np.nan,) * 3) for i in range(len(A))],
                        float)
        for name, idx in long_requests():
            want = sing[[i for i in idx if i in single]]
            st, r = attempt(run, method=m, dataDict=data_for(w, m),
                            extra_kwargs=dict(ek),
                            **{key + "_in": np.array(A)[idx]})
            R.ev()
            R.trans(len(idx))
            R.state((k, name))
            if st == "err":
                R.bad(f"{k}:{name}", f"{type(r).__name__}: {str(r)[:200]}")
                continue
            got = np.array([r[key + "_out"], r["eccentricity"],
                            r["mean_anomaly"]], float).T
            if got.shape != want.shape:
                R.bad(f"{k}:{name}", f"{len(got)} answers for {len(want)}")
                continue
            off = ((got[:, 0] != want[:, 0])
                   | ~(abs(got[:, 1] - want[:, 1]) <= 1e-11)
                   | ~(angdiff(got[:, 2], want[:, 2]) <= 1e-9))
            if off.any():
                j = int(np.argmax(off))
                R.bad(f"{k}:{name}", f"answer {j}: {got[j]}, alone {want[j]}")
        return
    for n in range(1, L + 1):
        for rest in itertools.product(range(len(A)), repeat=n - 1):
            idx = (first,) + rest
            want = [i for i in idx if i in single]
            if not want:
                continue
            st, r = attempt(run, method=m, dataDict=data_for(w, m),
                            extra_kwargs=dict(ek),
                            **{key + "_in": [A[i] for i in idx]})
            R.ev()
            R.trans(n)
            R.state((k, idx))
            tag = f"{k}:{idx}"
            if st == "err":
                R.bad(tag, f"{type(r).__name__}: {str(r)[:200]}")
                continue
            got = list(zip(r[key + "_out"], r["eccentricity"],
                           r["mean_anomaly"]))
            if len(got) != len(want):
                R.bad(tag, f"{len(got)} answers for {len(want)} points")
                continue
            for g, i in zip(got, want):
                s = single[i]
                if g[0] != s[0] or abs(g[1] - s[1]) > 1e-11 \
                        or angdiff(g[2], s[2]) > 1e-9:
                    R.bad(tag, f"point {A[i]} gives {g} in company, {s} alone")
                    break
