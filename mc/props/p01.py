"""P01: every in-range reference point is answered, and only those."""
import itertools
import re

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (waveform, method, interpolation, domain, list length, first "
         "letter); within it all reference lists over an alphabet of points "
         "around the allowed range (below/at/above both ends, interior, "
         "duplicates, nan/inf), every container type; a state is (which "
         "letters were asked, which came back, container, outcome)",
    assumptions=["synthetic Keplerian chirp; extrema used by the measurement "
                 "define the range and are read from the result object"],
)

WAVES = [dict(e0=0.2, l0=0.5, n_orb=10), dict(e0=0.5, l0=3.5, n_orb=9),
         dict(e0=0.05, l0=2.0, n_orb=11, t0=0.0)]


def cases(tier):
    out = []
    for dom in ("time", "frequency"):
        for wi in range(len(WAVES)):
            for m in METHODS:
                for interp in ("spline", "rational_fit"):
                    slow = m.endswith("Fits") or interp == "rational_fit"
                    if m in ("Amplitude", "Frequency") and WAVES[wi]["e0"] < 0.1:
                        continue
                    maxlen = (2 if slow else 3) + (tier == "thorough")
                    if slow and tier == "quick" and wi and m != "Amplitude":
                        maxlen = 1
                    if not slow and m != "Amplitude" and tier == "quick":
                        maxlen = 2
                    for L in range(0, maxlen + 1):
                        firsts = [-1] if L < 2 else range(9)
                        for f in firsts:
                            out.append([dom, wi, m, interp, L, f])
    if tier == "quick":
        out.sort(key=lambda c: c[4])
    return out


_probe = {}


def probe(wi, m, interp):
    k = (wi, m, interp)
    if k not in _probe:
        w = wave(**WAVES[wi])
        d = data_for(w, m)
        mid = w.t[len(w.t) // 3]
        r = run(tref_in=mid, method=m, dataDict=d,
                extra_kwargs={"omega_gw_extrema_interpolation_method": interp})
        o = r["gwecc_object"]
        tp, ta = extrema_times(o)
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        ref = ref_from(o, w)
        _probe[k] = (w, lo, hi, ref.fbounds())
    return _probe[k]


def alphabet(lo, hi):
    d = hi - lo
    return [lo + 0.37 * d, lo + 0.8 * d, hi, lo, hi + 1e-6 * d, lo - 1e-6 * d,
            hi + 0.2 * d, np.nan, lo + 1e-9 * d]


def numbers(msg):
    return [float(x) for x in
            re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", msg)]


def check(case, R):
    dom, wi, m, interp, L, first = case
    w, lo, hi, (flo, fhi) = probe(wi, m, interp)
    key = "tref" if dom == "time" else "fref"
    if dom == "frequency":
        lo, hi = flo, fhi
    A = alphabet(lo, hi)
    if dom == "frequency":
        # the exact end values of the average frequency are known to us only
        # to rounding: ask just inside instead, and far enough outside
        d = hi - lo
        A[2], A[3] = hi - 1e-7 * d, lo + 1e-7 * d
        A[4], A[5], A[8] = hi + 1e-5 * d, lo - 1e-5 * d, lo + 1e-6 * d
    inside = [lo <= a <= hi for a in A]
    ek = {"omega_gw_extrema_interpolation_method": interp}
    if L == 0:
        combos = [((i,), c) for i in range(len(A))
                  for c in ("float", "np", "0d", "int")]
    elif L == 1:
        combos = [((i,), c) for i in range(len(A))
                  for c in ("list", "tuple", "array")]
    else:
        combos = [((first,) + r, "array" if sum(r) % 2 else "list")
                  for r in itertools.product(range(len(A)), repeat=L - 1)]
    for idx, cont in combos:
        vals = [A[i] for i in idx]
        want = [v for i, v in zip(idx, vals) if inside[i]]
        if cont == "float":
            arg = float(vals[0])
        elif cont == "np":
            arg = np.float64(vals[0])
        elif cont == "0d":
            arg = np.array(vals[0])
        elif cont == "int":
            if dom != "time" or not np.isfinite(vals[0]):
                continue
            arg = int(round(vals[0]))
            want = [arg] if lo <= arg <= hi else []
        elif cont == "list":
            arg = list(vals)
        elif cont == "tuple":
            arg = tuple(vals)
        else:
            arg = np.array(vals)
        R.ev()
        R.trans(len(vals))
        tag = f"{dom}:{WAVES[wi]}:{m}:{interp}:{cont}:{idx}"
        st, res = attempt(run, method=m, dataDict=data_for(w, m),
                          extra_kwargs=dict(ek), **{key + "_in": arg})
        R.state((dom, m, interp, wi, cont, idx, st))
        if not want:
            if st == "ok":
                R.bad(tag, f"all points out of range [{lo},{hi}] but an answer "
                      f"was returned: {res['eccentricity']}")
            elif any(np.isfinite(vals)):
                nums = numbers(str(res))
                ok = any(abs(x - lo) <= 1e-4 * (hi - lo) for x in nums) and \
                    any(abs(x - hi) <= 1e-4 * (hi - lo) for x in nums)
                if not ok:
                    R.bad(tag, f"out-of-range error does not state the range "
                          f"[{lo},{hi}]: {str(res)[:200]}")
            continue
        if st == "err":
            R.bad(tag, f"in-range points {want} not answered: "
                  f"{type(res).__name__} {str(res)[:200]}")
            continue
        scalar = cont in ("float", "np", "0d", "int")
        if (key + "_out") not in res:
            R.bad(tag, f"result lacks {key}_out: {sorted(res)}")
            continue
        other = ("fref" if key == "tref" else "tref") + "_out"
        if other in res:
            R.bad(tag, f"result unexpectedly has {other}")
        outp, e, l = res[key + "_out"], res["eccentricity"], res["mean_anomaly"]
        if scalar:
            if not (np.ndim(outp) == np.ndim(e) == np.ndim(l) == 0):
                R.bad(tag, "scalar request did not give scalar results: "
                      f"{outp!r} {e!r} {l!r}")
                continue
        elif not (np.shape(outp) == np.shape(e) == np.shape(l)
                  == (len(want),)):
            R.bad(tag, f"shapes {np.shape(outp)} {np.shape(e)} {np.shape(l)} "
                  f"for {len(want)} in-range points")
            continue
        outp, e, l = map(np.atleast_1d, (outp, e, l))
        if not np.array_equal(outp, np.array(want, dtype=float)):
            R.bad(tag, f"returned points {outp} expected {want}")
        if not (np.all(np.isfinite(e)) and np.all(e >= -1e-9)
                and np.all(e < 1)):
            R.bad(tag, f"eccentricity {e}")
        if not (np.all(np.isfinite(l)) and np.all(l >= 0)
                and np.all(l < 2 * np.pi)):
            R.bad(tag, f"mean anomaly {l}")
        if len(set(want)) < len(want):
            for v in set(want):
                s = [i for i, x in enumerate(want) if x == v]
                if len(set(e[s])) > 1 or len(set(l[s])) > 1:
                    R.bad(tag, "repeated points got different answers")
