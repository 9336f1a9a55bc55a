"""P05: a frequency request is the time request where the average frequency
equals it, over exactly the advertised frequency range."""
import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (waveform, method, interpolation, averaging method); a dense "
         "grid of frequencies across and outside the advertised range, asked "
         "as one list, plus scalars at the range ends; state = (case, index, "
         "answered?)",
    assumptions=["time of a frequency is found with a reference inversion of "
                 "the reference average frequency"],
)


def cases(tier):
    out = []
    e0s = [0.1, 0.4] if tier == "quick" else [0.05, 0.1, 0.2, 0.3, 0.4, 0.5]
    l0s = [0.8, 4.2] if tier == "quick" else [0.1, 1.2, 2.3, 3.4, 4.5, 5.6]
    for e0 in e0s:
        for l0 in l0s:
            for t0 in (None, 0.0):
                w = dict(e0=e0, l0=l0, n_orb=10)
                if t0 is not None:
                    w["t0"] = t0
                for m in METHODS:
                    if e0 < 0.08 and m in ("Amplitude", "Frequency"):
                        continue
                    for av in ("orbit_averaged_omega_gw",
                               "mean_of_extrema_interpolants",
                               "omega_gw_zeroecc"):
                        for interp in ("spline", "rational_fit"):
                            if interp == "rational_fit" and av.startswith("mean"):
                                continue
                            out.append([w, m, av, interp])
    return out


def check(case, R):
    wk, m, av, interp = case
    w = wave(**wk)
    tag = f"{wk}:{m}:{av}:{interp}"
    zk = dict(n_orb=16)
    if "t0" in wk:
        zk["t0"] = 100.0
    z = wave(e0=0.0, l0=0.0, **zk)

    def data():
        d = w.data()
        if av == "omega_gw_zeroecc" or m in RESIDUAL:
            d["t_zeroecc"] = z.t.copy()
            d["hlm_zeroecc"] = {k: v.copy() for k, v in z.hlm.items()}
        return d
    ek = {"omega_gw_extrema_interpolation_method": interp,
          "omega_gw_averaging_method": av}
    rt = run(tref_in=w.t, method=m, dataDict=data(), extra_kwargs=dict(ek))
    o = rt["gwecc_object"]
    b = o.get_fref_bounds()
    ref = ref_from(o, w, averaging=av)
    if av == "omega_gw_zeroecc":
        fz, _ = zero_average(w, z)
        ref.average = fz
    _, _, s = ref.fref_window()
    fav = ref.average(s) / (2 * np.pi)
    lo, hi = fav.min(), fav.max()
    R.ev()
    if len(b) != 2 or abs(b[0] - lo) > 1e-9 * lo or abs(b[1] - hi) > 1e-9 * hi:
        R.bad(tag + ":bounds", f"advertised range {b}, expected [{lo},{hi}]")
        return
    if np.any(np.diff(fav) <= 0):
        # no unique time for a frequency: it has to be refused
        st, rl = attempt(run, fref_in=0.5 * (lo + hi), method=m,
                         dataDict=data(), extra_kwargs=dict(ek))
        R.ev()
        R.state((tag, "nonmonotonic", st))
        if st == "ok":
            R.bad(tag + ":nonmono", "the average frequency is not monotonic "
                  "but a reference frequency was mapped to a time")
        return
    d = hi - lo
    fs = np.concatenate([np.linspace(lo - 0.2 * d, lo - 1e-4 * d, 5),
                         np.linspace(lo + 1e-6 * d, hi - 1e-6 * d, 97),
                         np.linspace(hi + 1e-4 * d, hi + .2 * d, 5)])
    r = run(fref_in=fs, method=m, dataDict=data(), extra_kwargs=dict(ek))
    R.ev()
    R.trans(len(fs))
    f, e, l = r["fref_out"], r["eccentricity"], r["mean_anomaly"]
    for i, x in enumerate(fs):
        R.state((tag, i, bool(np.any(f == x))))
    if not np.array_equal(f, fs[5:-5]):
        R.bad(tag + ":range", f"{len(f)} frequencies answered, 97 are in range")
        return
    tt = InterpolatedUnivariateSpline(fav, s, k=3)(f)
    # the answer at those times
    r2 = run(tref_in=tt, method=m, dataDict=data(), extra_kwargs=dict(ek))
    R.ev()
    if not (len(r2["tref_out"]) == len(f)):
        R.bad(tag + ":times", "some of the corresponding times are refused")
        return
    de = np.abs(r2["eccentricity"] - e)
    dl = angdiff(r2["mean_anomaly"], l)
    if not (np.all(de < 1e-7) and np.all(dl < 1e-5)):
        i = int(np.argmax(de + dl))
        R.bad(tag + ":match", f"f={f[i]:.8g}: (e,l)=({e[i]:.8g},{l[i]:.8g}) but "
              f"({r2['eccentricity'][i]:.8g},{r2['mean_anomaly'][i]:.8g}) at the "
              f"corresponding time {tt[i]:.8g}")
    # the inversion really inverts
    back = ref.average(tt) / 2 / np.pi
    if not np.all(np.abs(back - f) < 1e-5 * f):
        R.bad(tag + ":inv", "reference inversion off")
    # range ends asked as scalars, from the range the object advertises
    st, rl = attempt(run, fref_in=b[0], method=m, dataDict=data(),
                     extra_kwargs=dict(ek))
    R.ev()
    R.state((tag, "low end", st))
    if st == "err":
        R.bad(tag + ":low", f"the advertised lowest frequency is refused: {rl}")
    for x in (b[0] * (1 - 1e-6), b[1] * (1 + 1e-6)):
        st, rl = attempt(run, fref_in=x, method=m, dataDict=data(),
                         extra_kwargs=dict(ek))
        R.ev()
        if st == "ok":
            R.bad(tag + ":outside", f"{x} is outside {b} but was answered")
