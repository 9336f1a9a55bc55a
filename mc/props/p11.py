"""P11: zeros only when asked for, only when the waveform is long but the
extrema are not there; otherwise an error.  Decision table, all combinations."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (number of pericentres 0..3, apocentres 0..3, policy, length "
         "in orbits around the 5-orbit limit, midpoints option, domain, shape "
         "of the request); state = (case, outcome class)",
    assumptions=["detection scripted through find_extrema; real detection in "
                 "family R"],
)
LEN = [4.2, 4.97, 5.03, 6.0, 9.0]
REQ = ["scalar", "one", "three", "outside"]


def cases(tier):
    out = []
    for base in ("Amplitude", "Frequency") if tier == "quick" else FAST:
        for L in LEN:
            for pol in (True, False, None):
                for mid in (False, True):
                    out.append(["S", base, L, pol, mid])
    for m in METHODS:
        for e in ((0.0, 1e-6, 0.2) if tier == "quick" else
                  (0.0, 1e-8, 1e-6, 1e-5, 1e-4, 0.01, 0.2)):
            for L in (4.0, 6.0, 11.0):
                for pol in (True, False):
                    out.append(["R", m, e, L, pol])
    return out


def cut_wave(L, e0=.2):
    """Waveform whose data before the default 2-orbit cut has L orbits."""
    w = wave(e0=e0, l0=.4, n_orb=15)
    im = int(np.argmax(w.amp))
    end = w.phase[im] - 8 * np.pi
    iend = int(np.argmin(np.abs(w.phase - end)))
    # last usable sample is iend - 1
    i0 = int(np.argmin(np.abs(w.phase - (w.phase[iend - 1] - 4 * np.pi * L))))
    return w, i0, iend


def is_zero(r, req, dom):
    k = "tref_out" if dom == "t" else "fref_out"
    e, l, o = r["eccentricity"], r["mean_anomaly"], r[k]
    return (np.shape(e) == np.shape(req) and np.shape(l) == np.shape(req)
            and np.all(np.asarray(e) == 0) and np.all(np.asarray(l) == 0)
            and np.array_equal(np.asarray(o), np.asarray(req)))


def check(case, R):
    if case[0] == "R":
        return real(case, R)
    _, base, L, pol, mid = case
    w, i0, iend = cut_wave(L)
    t = w.t[i0:]
    d = {"t": t, "hlm": {(2, 2): w.hlm[(2, 2)][i0:]}}
    if base in RESIDUAL:
        z = wave(e0=0.0, l0=0.0, n_orb=19)
        d.update(t_zeroecc=z.t, hlm_zeroecc=z.hlm)
    P, A = w.extrema()
    P, A = P[P >= i0] - i0, A[A >= i0] - i0
    long = (w.phase[iend - 1] - w.phase[i0]) / (4 * np.pi) > 5
    for nP, nA in itertools.product(range(5), repeat=2):
        cls = scripted(base)
        p, a = P[-nP:] if nP else P[:0], A[-nA:] if nA else A[:0]
        cls.script = {"pericenters": p, "apocenters": a}
        if mid and nP > 2:
            continue                  # midpoints then exist: other property
        few = nP < 2 or (nA < 2 if not mid else nP - 1 < 2)
        for dom in "tf":
            mids = t[len(t) // 3] if dom == "t" else .009
            reqs = {"scalar": mids, "one": np.array([mids]),
                    "three": np.array([mids, mids * 1.01, mids * .97]),
                    "outside": np.array([1e6, -1e6]) if dom == "t"
                    else np.array([9.9, 1e-9])}
            for rn, req in reqs.items():
                ek = dict(spline_kw(),
                          treat_mid_points_between_pericenters_as_apocenters=mid)
                if pol is not None:
                    ek["return_zero_if_small_ecc_failure"] = pol
                kw = {"tref_in" if dom == "t" else "fref_in": req}
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    st, r = attempt(lambda: cls(fresh(d), extra_kwargs=ek,
                                                **kw).measure_ecc())
                R.ev()
                tag = f"{case}:{nP}:{nA}:{dom}:{rn}".replace(" ", "")
                zero = st == "ok" and is_zero(r, req, dom)
                R.state((tag, st, zero))
                if few and long and pol:
                    if not zero:
                        R.bad(tag, "expected zeros for every requested point, "
                              f"got {str(r)[:200]}")
                elif few:
                    if st == "ok":
                        R.bad(tag, f"expected an error ({'long' if long else 'short'}"
                              f" waveform, policy {pol}), got {str(r)[:150]}")
                    elif not str(r):
                        R.bad(tag, "error without a message")
                elif st == "ok" and np.any(np.asarray(r["eccentricity"]) == 0):
                    R.bad(tag, "zero eccentricity although extrema exist")


def real(case, R):
    _, m, e, L, pol = case
    w, i0, iend = cut_wave(L, e)
    t = w.t[i0:]
    d = {"t": t, "hlm": {(2, 2): w.hlm[(2, 2)][i0:]}}
    if m in RESIDUAL:
        z = wave(e0=0.0, l0=0.0, n_orb=19)
        d.update(t_zeroecc=z.t, hlm_zeroecc=z.hlm)
    long = (w.phase[iend - 1] - w.phase[i0]) / (4 * np.pi) > 5
    req = np.array([t[len(t) // 3], t[len(t) // 2]])
    st, r = attempt(run, tref_in=req, method=m, dataDict=fresh(d),
                    extra_kwargs=dict(spline_kw(),
                                      return_zero_if_small_ecc_failure=pol))
    R.ev()
    zero = st == "ok" and is_zero(r, req, "t")
    tag = f"{case}"
    R.state((tag, st, zero))
    if zero and not (pol and long):
        R.bad(tag, "zeros returned although not asked for or waveform short")
    if st == "ok" and not zero and not np.all(np.isfinite(r["eccentricity"])):
        R.bad(tag, f"not finite: {r['eccentricity']}")
    if m in ("Amplitude", "Frequency") and e < 2e-6:
        # monotonic data: certainly no extrema
        if pol and long and not zero:
            R.bad(tag, f"no extrema, expected zeros, got {str(r)[:150]}")
        if not (pol and long) and st == "ok":
            R.bad(tag, f"no extrema, expected an error, got {str(r)[:150]}")
    if e > .1 and L > 10:
        if st == "err":
            R.bad(tag, f"{type(r).__name__} {str(r)[:150]}")
        elif zero:
            R.bad(tag, "zero for an eccentric waveform")
    if m not in ("Amplitude", "Frequency") and e >= 1e-3 and st == "ok" \
            and not zero and np.any(np.abs(r["eccentricity"] - e) > .5 * e + 1e-3):
        pass
