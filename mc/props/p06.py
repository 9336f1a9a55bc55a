"""P06: physics does not depend on units, time origin, amplitude normalisation
or initial phase."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (waveform, method, interpolation, domain, averaging, segment "
         "option); within it every combination of time origin x time unit x "
         "amplitude unit x phase offset; state = (case, transformation, "
         "outcome rounded to 1e-4)",
    assumptions=["rounding differences up to 1e-7 (spline) / 1e-6 (rational "
                 "fit) are tolerated"],
)
SHIFT = [0.0, 12345.678, "start0", -5e4]
SCALE = [1.0, 4.925490947e-6, 1e8]     # one solar mass in seconds, huge
AMP = [1.0, 1e-21, 1e4]
PHASE = [0.0, 2.5, -3000.0]      # large ones as amplitude and phase


def cases(tier):
    out = []
    wks = [dict(e0=0.2, l0=0.9, n_orb=13)]
    if tier == "thorough":
        wks += [dict(e0=0.5, l0=4.0, n_orb=12), dict(e0=0.06, l0=2.0, n_orb=13)]
    for wk in wks:
        for m in METHODS:
            if wk["e0"] < .08 and m in ("Amplitude", "Frequency"):
                continue
            for interp in ("spline", "rational_fit"):
                for dom, av in (("time", "orbit_averaged_omega_gw"),
                                ("frequency", "orbit_averaged_omega_gw"),
                                ("frequency", "mean_of_extrema_interpolants"),
                                ("frequency", "omega_gw_zeroecc")):
                    for seg in (None, 7):
                        if seg and av != "orbit_averaged_omega_gw":
                            continue
                        if interp == "rational_fit" and \
                                not av.startswith("orbit"):
                            continue
                        if tier == "quick" and interp == "rational_fit" \
                                and m not in ("Amplitude", "AmplitudeFits"):
                            continue
                        for sh in range(len(SHIFT)):
                            out.append([wk, m, interp, dom, av, seg, sh])
    return out


def transformed(w, z, sh, sc, am, ph, zero):
    c = -w.t[0] if sh == "start0" else sh
    d = {"t": (w.t + c) * sc,
         "hlm": {(2, 2): am * w.amp * np.exp(-1j * (w.phase + ph))}}
    if abs(ph) > 100:
        del d["hlm"]
        d.update(amplm={(2, 2): am * w.amp}, phaselm={(2, 2): w.phase + ph})
    if zero:
        d["t_zeroecc"] = (z.t + c + 17.0) * sc
        d["hlm_zeroecc"] = {(2, 2): am * z.amp * np.exp(-1j * (z.phase - ph))}
    return d, c


def check(case, R):
    wk, m, interp, dom, av, seg, shi = case
    w = wave(**wk)
    z = wave(e0=0.0, l0=0.0, n_orb=17)
    zero = m in RESIDUAL or av == "omega_gw_zeroecc"
    ek = {"omega_gw_extrema_interpolation_method": interp,
          "omega_gw_averaging_method": av,
          "use_only_these_many_orbits": seg}
    d0, _ = transformed(w, z, 0.0, 1.0, 1.0, 0.0, zero)
    n = len(w.t)
    if dom == "time":
        base_ref = w.t[[int(n * .32), int(n * .4), int(n * .55)]]
        if not seg:                 # the whole signal, both ends included
            base_ref = w.t[7::n // 45]
        base = run(tref_in=base_ref, method=m, dataDict=fresh(d0),
                   extra_kwargs=dict(ek))
    else:
        r = run(tref_in=w.t, method=m, dataDict=fresh(d0),
                extra_kwargs=dict(ek, use_only_these_many_orbits=None))
        lo, hi = r["gwecc_object"].get_fref_bounds()
        base_ref = lo + (np.array([.2, .35, .6]) if seg else
                         np.linspace(-.021, 1.017, 45)) * (hi - lo)
        sb, base = attempt(run, fref_in=base_ref, method=m,
                           dataDict=fresh(d0), extra_kwargs=dict(ek))
        if sb == "err":       # refused (non-monotonic average): in all units
            if "monoton" not in str(base):
                R.bad(str(case), str(base)[:200])
            base = None
    R.ev()
    sh = SHIFT[shi]
    full = m in FAST and interp == "spline"
    for i, (sc, am, ph) in enumerate(itertools.product(SCALE, AMP, PHASE)):
        if not full and sum((sc != 1, am != 1, ph != 0)) not in (0, 1, 3):
            continue
        d, c = transformed(w, z, sh, sc, am, ph, zero)
        arg = {"tref_in": (base_ref + c) * sc} if dom == "time" else \
            {"fref_in": base_ref / sc}
        st, r = attempt(run, method=m, dataDict=d, extra_kwargs=dict(ek), **arg)
        R.ev()
        R.trans()
        tag = f"{case}:{sc}:{am}:{ph}"
        if base is None:
            R.state((tag, st))
            if st == "ok":
                R.bad(tag, "refused in one unit system, answered in another")
            continue
        if st == "err":
            R.bad(tag, f"{type(r).__name__}: {str(r)[:250]}")
            continue
        R.state((tag, np.round(r["eccentricity"], 4).tolist()))
        te, tl = (1e-7, 1e-6) if interp == "spline" else (1e-6, 1e-6)
        if len(r["eccentricity"]) != len(base["eccentricity"]):
            R.bad(tag, f"{len(r['eccentricity'])} answers instead of "
                  f"{len(base['eccentricity'])}")
            continue
        de = np.max(np.abs(r["eccentricity"] - base["eccentricity"]))
        dl = np.max(angdiff(r["mean_anomaly"], base["mean_anomaly"]))
        if not (de < te and dl < tl):
            R.bad(tag, f"eccentricity changed by {de:.3g}, mean anomaly by "
                  f"{dl:.3g} (base {base['eccentricity']}, "
                  f"now {r['eccentricity']})")
