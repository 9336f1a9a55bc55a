"""P02: the eccentricity reported is the one the definition prescribes."""
import numpy as np

from mc.common import *          # noqa
from mc.wf import Wave
from mc.truth import true_e_gw

META = dict(
    level="exploration",
    rule="case = (waveform, method/scripted extrema window, interpolation); "
         "within it every sample and half-sample time of the allowed range is "
         "a state (waveform, window, time index); compared with the reference "
         "model of the definition and with the analytic orbit",
    assumptions=["reference model: cubic spline (lower order below 4 points) "
                 "through the 4th-order finite-difference frequency at the "
                 "extrema used"],
)

E0 = [0.02, 0.1, 0.3, 0.6]
L0 = [0.5, 3.6]


def cases(tier):
    out = []
    e0s = E0 if tier == "quick" else [0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.4,
                                      0.5, 0.6]
    l0s = L0 if tier == "quick" else [0.1, 0.9, 1.7, 2.5, 3.3, 4.1, 4.9, 5.7]
    for e0 in e0s:
        for l0 in l0s:
            w = dict(e0=e0, l0=l0, n_orb=11)
            for m in METHODS:
                if e0 < 0.04 and m in ("Amplitude", "Frequency"):
                    continue
                out.append(["m", w, m, "spline"])
                if e0 >= 0.1:
                    out.append(["m", w, m, "rational_fit"])
    # long and finely sampled signals
    for w in [dict(e0=0.3, l0=0.5, n_orb=150, dt=.25)] + (
            [] if tier == "quick" else [dict(e0=0.1, l0=3., n_orb=600, dt=.5)]):
        for m in METHODS:
            out.append(["m", w, m, "spline"])
    # strongly eccentric orbits
    for e0 in ([0.7, 0.8, 0.9] if tier == "quick" else
               [0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.93]):
        for l0 in ([0.5, 3.6] if tier == "quick" else l0s):
            for dec in (0.3, 1.0):
                for m in ("scripted", "AmplitudeFits", "FrequencyFits"):
                    out.append(["h", [e0, l0, dec], m])
    # scripted windows of extrema: all (first, count) for both kinds
    ws = [dict(e0=0.3, l0=0.5, n_orb=11)]
    if tier == "thorough":
        ws += [dict(e0=0.1, l0=3.6, n_orb=11), dict(e0=0.6, l0=2.0, n_orb=11)]
    for w in ws:
        for p0 in range(0, 4):
            for np_ in range(2, 7):
                out.append(["s", w, p0, np_])
    # pericentres whose frequency is below the apocentres'
    for mask in range(2 ** 5):
        out.append(["n", mask])
    return out


def compare(R, tag, o, w, w_kw, grid, ecc, interp, tol):
    ref = ref_from(o, w)
    exp = ref.ecc(grid)
    d = np.abs(ecc - exp)
    if not np.all(d <= tol):
        i = int(np.nanargmax(np.where(np.isfinite(d), d, np.inf)))
        R.bad(tag, f"eccentricity {ecc[i]:.10g} at t={grid[i]:.6g}, the "
              f"definition gives {exp[i]:.10g}")
        return False
    return True


def attempt_loud(f):
    try:
        return "ok", f()
    except Exception as e:
        return "err", e


def crossing(mask, R):
    """Frequencies (given as omegalm) at which the extrema cross: the formula
    gives a negative number there, which must be reported as such."""
    wk = dict(e0=0.3, l0=0.5, n_orb=11)
    w = wave(**wk)
    P, A = w.extrema()
    P = P[1:6]
    A = A[(A > P[0]) & (A < P[-1])]
    om = deriv4(w.phase, w.t[1] - w.t[0])
    lo = np.interp(P, A, om[A])
    for j in range(5):
        if mask >> j & 1:
            om[P[j]] = .9 * lo[j]
    d = w.data()
    d["omegalm"] = {(2, 2): om}
    obj = scripted()(d, tref_in=w.t, extra_kwargs=spline_kw())
    obj.script = {"pericenters": P, "apocenters": A}
    with captured() as (_, _, wn):
        st, r = attempt_loud(obj.measure_ecc)
    R.ev()
    if st == "err":
        R.bad(f"n:{mask}", f"{type(r).__name__}: {str(r)[:150]}")
        return
    g, e = r["tref_out"], r["eccentricity"]
    exp = Ref(w.t, w.phase, w.t[P], w.t[A], omega=om).ecc(g)
    R.trans(len(g))
    R.state(("n", mask, int(np.sum(exp < 0))))
    # (where a spline dips below zero there is no value)
    if not np.allclose(e, exp, rtol=0, atol=1e-9, equal_nan=True):
        i = int(np.nanargmax(np.abs(e - exp)))
        R.bad(f"n:{mask}", f"eccentricity {e[i]:.10g} at t={g[i]:.6g}, the "
              f"definition gives {exp[i]:.10g}")
    told = any("negative eccentricity" in str(x.message) for x in wn)
    if told != bool(np.any(exp < 0)):
        R.bad(f"nw:{mask}", f"negative values {bool(np.any(exp < 0))}, "
              f"but reported as such: {told}")


def check(case, R):
    if case[0] == "n":
        return crossing(case[1], R)
    if case[0] == "m":
        _, wk, m, interp = case
        w = wave(**wk)
        d = data_for(w, m)
        ek = {"omega_gw_extrema_interpolation_method": interp}
        t = w.t
        mid = (t[:-1] + t[1:]) / 2
        grid = np.sort(np.concatenate([t, mid]))
        r = run(tref_in=grid, method=m, dataDict=d, extra_kwargs=ek)
        o = r["gwecc_object"]
        g, e = r["tref_out"], r["eccentricity"]
        R.ev()
        R.trans(len(g))
        for i in range(len(g)):
            R.state((str(wk), m, interp, i))
        tag = f"{wk}:{m}:{interp}"
        # every admissible time is there
        tp, ta = extrema_times(o)
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        if len(g) != int(((grid >= lo) & (grid <= hi)).sum()):
            R.bad(tag, "times lost")
        tol = 1e-9 if interp == "spline" else 0.03 * max(wk["e0"], 0.05)
        if interp == "spline" or len(tp) > 4:
            # the rational approximation is a fit, not an interpolant: hold it
            # to the definition away from the ends
            sel = np.ones(len(g), bool) if interp == "spline" else \
                (g > lo + 0.1 * (hi - lo)) & (g < hi - 0.1 * (hi - lo))
            compare(R, tag, o, w, wk, g[sel], e[sel], interp, tol)
        # agreement with the analytic orbit
        exp = true_e_gw(w, g)
        rel = np.abs(e - exp) / exp
        lim = 0.05 if wk["e0"] >= 0.1 else 0.2
        inner = (g > lo + 0.1 * (hi - lo)) & (g < hi - 0.1 * (hi - lo))
        if not np.all(rel[inner] < lim):
            i = int(np.argmax(np.where(inner, rel, 0)))
            R.bad(tag + ":truth", f"eccentricity {e[i]:.6g} at t={g[i]:.6g}; "
                  f"analytic orbit has {exp[i]:.6g}")
    elif case[0] == "h":
        _, (e0, l0, dec), m = case
        w = Wave(e0=e0, l0=l0, n_orb=11, dt=0.25, decay=dec)
        # the merger is louder than every pericentre
        w.amp = w.amp * (1 + 12 * np.exp(
            -((w.t - w.t[w.merger_index]) / 20) ** 2))
        if m == "scripted":
            P, A = w.extrema()
            obj = scripted()(w.data(), tref_in=w.t, extra_kwargs=spline_kw())
            obj.script = {"pericenters": P, "apocenters": A}
            st, r = attempt(obj.measure_ecc)
        else:
            st, r = attempt(run, tref_in=w.t, method=m, dataDict=w.data(),
                            extra_kwargs=spline_kw())
            obj = r["gwecc_object"] if st == "ok" else None
        R.ev()
        tag = f"high:{e0}:{l0}:{dec}:{m}"
        if st == "err":
            R.state((tag, "err"))
            if m == "scripted":
                R.bad(tag, f"{type(r).__name__}: {str(r)[:150]}")
            return
        g, e = r["tref_out"], r["eccentricity"]
        R.trans(len(g))
        for i in range(len(g)):
            R.state((tag, i))
        compare(R, tag, obj, w, None, g, e, "spline", 1e-9)
        if m == "scripted":
            exp = true_e_gw(w, g)
            lo, hi = g[0], g[-1]
            inner = (g > lo + 0.1 * (hi - lo)) & (g < hi - 0.1 * (hi - lo))
            rel = np.abs(e - exp) / exp
            if not np.all(rel[inner] < 0.05):
                i = int(np.argmax(np.where(inner, rel, 0)))
                R.bad(tag + ":truth", f"eccentricity {e[i]:.6g} at "
                      f"t={g[i]:.6g}; analytic orbit has {exp[i]:.6g}")
    else:
        _, wk, p0, n_p = case
        w = wave(**wk)
        P, A = w.extrema()
        cls = scripted()
        for a0 in range(0, 4):
            for n_a in range(2, 7):
                P_, A_ = P[p0:p0 + n_p], A[a0:a0 + n_a]
                if len(P_) < n_p or len(A_) < n_a:
                    continue
                # keep what the measurement needs: alternating overlap
                if max(P_[0], A_[0]) >= min(P_[-1], A_[-1]):
                    continue
                obj = cls(w.data(), tref_in=w.t, extra_kwargs=spline_kw())
                obj.script = {"pericenters": P_, "apocenters": A_}
                st, r = attempt(obj.measure_ecc)
                R.ev()
                tag = f"{wk}:P{p0}+{n_p}:A{a0}+{n_a}"
                if st == "err":
                    # too few left after discarding unpaired ends
                    tp = getattr(obj, "pericenters_location", [])
                    ta = getattr(obj, "apocenters_location", [])
                    if min(len(tp), len(ta)) >= 2:
                        R.bad(tag, f"{type(r).__name__}: {str(r)[:150]}")
                    R.state((str(wk), p0, n_p, a0, n_a, "err"))
                    continue
                g, e = r["tref_out"], r["eccentricity"]
                R.trans(len(g))
                R.state((str(wk), p0, n_p, a0, n_a, len(g)))
                compare(R, tag, obj, w, wk, g, e, "spline", 1e-9)
