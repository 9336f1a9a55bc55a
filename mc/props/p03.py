"""P03: mean anomaly grows linearly 0 -> 2 pi between successive pericentres."""
import numpy as np

from mc.common import *          # noqa
from mc.truth import true_l

META = dict(
    level="exploration",
    rule="case = (waveform, method/scripted window, interpolation, averaging "
         "domain); every sample and half-sample of the allowed range plus every "
         "pericentre time (and its neighbours) is a state (waveform, window, "
         "point)",
    assumptions=["pericentre times are those the measurement reports; they "
                 "are checked against the analytic pericentres within 3% of "
                 "an orbit"],
)


def cases(tier):
    e0s = [0.05, 0.2, 0.5] if tier == "quick" else [0.02, 0.05, 0.1, 0.2, 0.3,
                                                    0.4, 0.5, 0.6]
    l0s = [0.5, 3.6] if tier == "quick" else [0.1, 1.0, 1.9, 2.8, 3.7, 4.6, 5.5]
    out = []
    for e0 in e0s:
        for l0 in l0s:
            w = dict(e0=e0, l0=l0, n_orb=11)
            for m in METHODS:
                if e0 < 0.08 and m in ("Amplitude", "Frequency"):
                    continue
                for interp in ("spline", "rational_fit"):
                    for mid in (False, True):
                        if mid and m != "Amplitude":
                            continue
                        out.append(["m", w, m, interp, mid])
    # long and finely sampled signals
    for w in [dict(e0=0.3, l0=0.5, n_orb=150, dt=.25)] + (
            [] if tier == "quick" else [dict(e0=0.1, l0=3., n_orb=600, dt=.5)]):
        for m in METHODS:
            out.append(["m", w, m, "spline", False])
    for w in ([dict(e0=0.3, l0=0.5, n_orb=11, t0=0.0)] if tier == "quick" else
              [dict(e0=0.3, l0=0.5, n_orb=11), dict(e0=0.1, l0=4.0, n_orb=11)]):
        for p0 in range(0, 4):
            for n_p in range(2, 8):
                out.append(["s", w, p0, n_p])
    return out


def judge(R, tag, tp, g, l, w=None):
    tp = np.asarray(tp)
    j = np.clip(np.searchsorted(tp, g, side="right") - 1, 0, len(tp) - 2)
    x = (g - tp[j]) / (tp[j + 1] - tp[j])
    exp = 2 * np.pi * x
    if not (np.all(l >= 0) and np.all(l < 2 * np.pi)):
        R.bad(tag, f"mean anomaly outside [0, 2pi): {l.min()} {l.max()}")
    d = angdiff(l, exp)
    if not np.all(d <= 1e-9):
        i = int(np.argmax(np.where(np.isfinite(d), d, 9)))
        R.bad(tag, f"mean anomaly {l[i]:.9g} at t={g[i]:.9g}, linear growth "
              f"between pericentres gives {exp[i] % (2 * np.pi):.9g}")
    if w is not None:
        d = angdiff(l, true_l(w, g))
        if not np.all(d < (0.5 if w.e0 > 0.08 else 0.8)):
            i = int(np.argmax(d))
            R.bad(tag + ":truth", f"mean anomaly {l[i]:.5g} at t={g[i]:.6g}; "
                  f"true orbit has {true_l(w, g[i]) % (2 * np.pi):.5g}")


def points(w, P=()):
    t = w.t
    mid = (t[:-1] + t[1:]) / 2
    return np.sort(np.concatenate([t, mid]))


def check(case, R):
    if case[0] == "m":
        _, wk, m, interp, midp = case
        w = wave(**wk)
        ek = {"omega_gw_extrema_interpolation_method": interp,
              "treat_mid_points_between_pericenters_as_apocenters": midp}
        grid = points(w)
        r = run(tref_in=grid, method=m, dataDict=data_for(w, m),
                extra_kwargs=ek)
        R.ev()
        tag = f"{wk}:{m}:{interp}:{midp}"
        tp, ta = extrema_times(r["gwecc_object"])
        g, l = r["tref_out"], r["mean_anomaly"]
        R.trans(len(g))
        for i in range(len(g)):
            R.state((str(wk), m, interp, midp, i))
        # with mid points as apocentres the first pericentre interval still
        # starts at a pericentre
        judge(R, tag, tp, g, l, w)
        lp = true_l(w, tp)
        d = angdiff(lp, 0)
        if not np.all(d < (0.45 if wk["e0"] > 0.08 else 0.7)):
            R.bad(tag + ":peri", f"pericentres are not at pericentre: true "
                  f"mean anomalies there {lp % (2 * np.pi)}")
        if midp and not np.allclose(
                ta, (tp[:-1] + tp[1:])[:len(ta)] / 2, atol=1.01) \
                and not np.allclose(ta, (tp[:-1] + tp[1:])[-len(ta):] / 2,
                                    atol=1.01):
            R.bad(tag + ":mid", "apocentres are not the midpoints")
        # one scalar / permuted request per pericentre neighbourhood
        inner = tp[(tp >= g[0]) & (tp <= g[-1])]
        for x in inner[::-(-len(inner) // 12)]:
            q = [x, np.nextafter(x, np.inf), np.nextafter(x, -np.inf)]
            q += [x + s * y for y in (1e-6, 1e-5, 1e-4, 1e-3, .01, .1)
                  for s in (1, -1)]
            q = [v for v in q if g[0] <= v <= g[-1]]
            r2 = run(tref_in=q[::-1], method=m, dataDict=data_for(w, m),
                     extra_kwargs=dict(ek))
            R.ev()
            judge(R, tag + f":near{x}", tp, np.array(q[::-1]),
                  r2["mean_anomaly"])
            if interp == "rational_fit":
                break
        # the same through frequencies
        f = r["gwecc_object"].get_fref_bounds()
        fs = np.linspace(f[0], f[1], 40)[1:-1]
        r3 = run(fref_in=fs, method=m, dataDict=data_for(w, m),
                 extra_kwargs=dict(ek))
        R.ev()
        o3 = r3["gwecc_object"]
        ref = ref_from(o3, w)
        _, _, s = ref.fref_window()
        tt = InterpolatedUnivariateSpline(ref.average(s) / 2 / np.pi, s)(fs)
        exp = ref.mean_ano(tt)
        if not np.all(angdiff(r3["mean_anomaly"], exp) < 1e-6):
            R.bad(tag + ":fref", "mean anomaly at reference frequencies "
                  "differs from the one at the corresponding times")
    else:
        _, wk, p0, n_p = case
        w = wave(**wk)
        P, A = w.extrema()
        cls = scripted()
        g0 = points(w)
        for a0 in range(0, 4):
            for n_a in range(2, 8):
                P_, A_ = P[p0:p0 + n_p], A[a0:a0 + n_a]
                if len(P_) < n_p or len(A_) < n_a:
                    continue
                if max(P_[0], A_[0]) >= min(P_[-1], A_[-1]):
                    continue
                obj = cls(w.data(), tref_in=g0, extra_kwargs=spline_kw())
                obj.script = {"pericenters": P_, "apocenters": A_}
                st, r = attempt(obj.measure_ecc)
                R.ev()
                tag = f"{wk}:P{p0}+{n_p}:A{a0}+{n_a}"
                R.state((p0, n_p, a0, n_a, st))
                if st == "ok":
                    tp, _ = extrema_times(obj)
                    R.trans(len(r["tref_out"]))
                    judge(R, tag, tp, r["tref_out"], r["mean_anomaly"], w)
