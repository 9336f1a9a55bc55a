"""P13: residual methods subtract the quasicircular counterpart aligned at the
merger; unusable counterparts are refused."""
import numpy as np
from scipy.signal import find_peaks

from mc.common import *          # noqa
from mc.wf import Wave
from mc.props.p12 import default_width, merger

META = dict(
    level="exploration",
    rule="A = all products of counterpart time origin x step x start x tail x "
         "frame x method x request domain, compared with an independently "
         "computed residual, its peaks and the reference measurement; B = every "
         "start offset / end offset of a window of samples around the limits, "
         "accepted exactly when the aligned counterpart covers the signal up "
         "to its merger; C = every position class and size of a sampling "
         "irregularity; D = no orbits excluded, every tail: no answer beyond "
         "the counterpart",
    assumptions=["merger = vertex of the parabola through the five samples "
                 "around the largest total amplitude (documented)"],
)

SHIFTS = [0.0, 0.37, -1234.56, 1.0e5]
STEPS = [1.0, 0.5, 0.7, 1.9]
STARTS = [13.0, 18.0]
TAILS = [9.0, 35.0, 120.0]          # post-merger length of the counterpart


def cases(tier):
    out = []
    th = tier == "thorough"
    for e0, l0 in (((.03, .4), (.2, 2.1), (.4, 4.4)) if not th else
                   ((.01, .4), (.03, .4), (.1, 5.0), (.2, 2.1), (.4, 4.4),
                    (.6, 1.0))):
        for m in RESIDUAL:
            for prec in (False, True):
                for st in STARTS:
                    for dt in STEPS:
                        out.append(["A", e0, l0, m, prec, st, dt])
    for m in RESIDUAL + ["Amplitude"]:
        for dt in (1.0, .7):
            out.append(["B", m, dt])
            out.append(["E", m, dt])
        out.append(["C", m])
    for m in RESIDUAL:
        for e0 in (.1, .3):
            out.append(["D", m, e0])
        for at_ in (.45, .6):
            out.append(["X", m, at_])
        for off in (-25, -8, 0, 6, 15, 30):
            out.append(["H", m, off])
    return out


def zero(n_orb, dt, tail):
    # the counterpart of waves with n0=.02 and 12 orbits: same chirp, earlier
    n0 = .02 * (12 / n_orb) ** (3. / 8 / (5. / 8))
    return wave(e0=0.0, l0=0.0, n_orb=n_orb, n0=n0, dt=dt, ring=tail)


def put_zero(d, z, shift, prec, cut=None):
    s = slice(None) if cut is None else slice(*cut)
    d["t_zeroecc"] = (z.t + shift)[s].copy()
    modes = ell2_modes(z) if prec else z.hlm
    d["hlm_zeroecc"] = {k: v[s].copy() for k, v in modes.items()}


def total_amp(w, prec):
    return w.amp * (np.sqrt(2) if prec else 1)


def residual(m, w, z, cut=None):
    s = slice(None) if cut is None else slice(*cut)
    tz, az, pz = z.t[s], z.amp[s], z.phase[s]
    tz = tz - quad_peak(tz, az) + quad_peak(w.t, w.amp)
    if "Amp" in m:
        y, x = np.abs(w.hlm[(2, 2)]), az
    else:
        y = deriv4(w.phase, w.t[1] - w.t[0])
        x = deriv4(pz, z.t[1] - z.t[0])
    return y - InterpolatedUnivariateSpline(tz, x, k=3)(w.t), tz


def used(w):
    """samples before 2 orbits before merger"""
    return int(np.argmin(np.abs(w.phase - (w.phase[merger(w)] - 8 * np.pi))))


def check(case, R):
    globals()["do_" + case[0]](R, *case[1:])


def do_A(R, e0, l0, m, prec, start, dt):
    w = wave(e0=e0, l0=l0, n_orb=12)
    n = used(w)
    width = int(default_width(w))
    for tail in TAILS:
        z = zero(start, dt, tail)
        y, tz = residual(m, w, z)
        y = y[:n]
        P = find_peaks(y, width=width)[0]
        A = find_peaks(-y, width=width)[0]
        ref = Ref(w.t, w.phase, w.t[P], w.t[A])
        lo, hi, s = ref.fref_window()
        tq = np.linspace(ref.tmin, ref.tmax, 9)
        om = deriv4(z.phase, dt)
        zav = InterpolatedUnivariateSpline(tz, om, k=3)
        fq = [np.linspace(*ref.fbounds(), 7)[1:-1],
              zav(np.linspace(ref.tmin, ref.tmax, 7)[1:-1]) / 2 / np.pi]
        for shift in SHIFTS:
            d = {"t": w.t.copy(),
                 "hlm": ell2_modes(w) if prec else dict(w.hlm)}
            put_zero(d, z, shift, prec)
            for dom, av in (("t", None), ("f", "orbit_averaged_omega_gw"),
                            ("f", "omega_gw_zeroecc")):
                ek = spline_kw()
                kw = dict(precessing=True, frame="coprecessing") if prec else {}
                if dom == "t":
                    kw["tref_in"] = tq
                else:
                    ek["omega_gw_averaging_method"] = av
                    kw["fref_in"] = fq[0] if av[0] == "o" and av[1] == "r" \
                        else fq[1]
                tag = f"A:{e0}:{m}:{prec}:{start}:{dt}:{tail}:{shift}:{dom}:{av}"
                st, r = attempt(run, method=m, dataDict=d, extra_kwargs=ek, **kw)
                R.ev()
                if st != "ok":
                    R.bad(tag, f"{type(r).__name__}: {str(r)[:200]}")
                    continue
                tp, ta = extrema_times(r["gwecc_object"])
                R.state((tag, len(tp), len(ta)))
                ok = (len(tp) == len(P) and len(ta) == len(A)
                      and np.all(np.abs(tp - w.t[P]) <= 1.01)
                      and np.all(np.abs(ta - w.t[A]) <= 1.01))
                if not ok:
                    R.bad(tag, f"extrema {tp}, {ta}; residual with aligned "
                          f"mergers has {w.t[P]}, {w.t[A]}")
                    continue
                rr = ref_from(r["gwecc_object"], w)
                if dom == "t":
                    tt = tq
                elif av == "orbit_averaged_omega_gw":
                    _, _, s = rr.fref_window()
                    tt = InterpolatedUnivariateSpline(
                        rr.average(s) / 2 / np.pi, s)(fq[0])
                else:
                    s = w.t[(w.t >= rr.tmin) & (w.t <= rr.tmax)]
                    tt = InterpolatedUnivariateSpline(
                        zav(s) / 2 / np.pi, s)(fq[1])
                if len(r["eccentricity"]) != len(tt):
                    R.bad(tag, f"{len(r['eccentricity'])} of {len(tt)} answered")
                    continue
                de = np.max(np.abs(r["eccentricity"] - rr.ecc(tt)))
                dl = np.max(angdiff(r["mean_anomaly"], rr.mean_ano(tt)))
                if not (de < 1e-6 and dl < 1e-3):
                    R.bad(tag, f"eccentricity off by {de:.3g}, mean anomaly by "
                          f"{dl:.3g} against the aligned reference")


def do_H(R, m, off):
    """Higher modes move the merger, the peak of the total amplitude, away
    from the peak of the (2, 2) mode, differently for the two signals."""
    w = wave(e0=.05, l0=.4, n_orb=12)
    n33 = lambda x, o, s: s * x.amp[merger(x)] * np.exp(
        -((x.t - x.t[merger(x)] - o) / 20.) ** 2)
    for zoff in (off, 0, -12):
        for s in (.5, 1.3):
            z = zero(13.0, .7, 120.0)
            aw, az = n33(w, off, s), n33(z, zoff, s)
            tw, ta = np.hypot(w.amp, aw), np.hypot(z.amp, az)
            mw = int(np.argmax(tw))
            n = int(np.argmin(np.abs(w.phase - (w.phase[mw] - 8 * np.pi))))
            width = int(default_width(w))
            tz = z.t - quad_peak(z.t, ta) + quad_peak(w.t, tw)
            if "Amp" in m:
                y, x = w.amp, z.amp
            else:
                y, x = deriv4(w.phase, 1.0), deriv4(z.phase, .7)
            y = (y - InterpolatedUnivariateSpline(tz, x, k=3)(w.t))[:n]
            P = find_peaks(y, width=width)[0]
            A = find_peaks(-y, width=width)[0]
            d = w.data()
            put_zero(d, z, 3.3, False)
            d["hlm"][(3, 3)] = aw * np.exp(-1.5j * w.phase)
            d["hlm_zeroecc"][(3, 3)] = az * np.exp(-1.5j * z.phase)
            om = InterpolatedUnivariateSpline(tz, deriv4(z.phase, .7), k=3)
            tq = w.t[[len(w.t) // 3, len(w.t) // 2]]
            st, r = attempt(run, method=m, dataDict=d,
                            fref_in=om(tq) / 2 / np.pi,
                            extra_kwargs=spline_kw(
                                omega_gw_averaging_method="omega_gw_zeroecc"))
            R.ev()
            R.state(("H", m, off, zoff, s, st))
            tag = f"H:{m}:{off}:{zoff}:{s}"
            if st == "err":
                if len(P) > 4 and len(A) > 4:
                    R.bad(tag, f"{type(r).__name__}: {str(r)[:200]}")
                continue
            tp, ta = extrema_times(r["gwecc_object"])
            # the ends may lose extrema, none may be elsewhere
            for nm, x, true in (("pericentres", tp, w.t[P]),
                                ("apocentres", ta, w.t[A])):
                if len(x) < len(true) - 2 or max(
                        np.min(np.abs(true - q)) for q in x) > 2.01:
                    R.bad(tag, f"{nm} at {x}; residual with aligned mergers "
                          f"has {true}")
            # the time at which the aligned counterpart has this frequency
            dl = angdiff(r["mean_anomaly"],
                         ref_from(r["gwecc_object"], w).mean_ano(tq))
            if len(dl) != 2 or np.max(dl) > .01:
                R.bad(tag, f"mean anomalies {r['mean_anomaly']} off by {dl}")


def do_B(R, m, dt):
    """Start of the counterpart around the start of the signal."""
    w = wave(e0=.2, l0=2.1, n_orb=12)
    z = zero(13.0, dt, 120.0)
    tz = z.t - quad_peak(z.t, z.amp) + quad_peak(w.t, w.amp)
    j0 = int(np.searchsorted(tz, w.t[0]))
    for off in list(range(-4, 5)) + [40, 400]:
        j = j0 + off
        d = w.data()
        put_zero(d, z, 77.7, False, (j, None))
        st, r = attempt(run, method=m, dataDict=d, extra_kwargs=spline_kw(),
                        tref_in=w.t[[len(w.t) // 2]])
        R.ev()
        R.state(("B", m, dt, off, st))
        if abs(tz[j] - w.t[0]) < 1e-7:
            continue
        want = "ok" if tz[j] <= w.t[0] else "err"
        if st != want:
            R.bad(f"B:{m}:{dt}:{off}", f"counterpart starting {off} samples "
                  f"from the signal's start: {st} {str(r)[:120] if st == 'err' else ''}")


def do_E(R, m, dt):
    """End of the counterpart around its merger (peak kept)."""
    w = wave(e0=.2, l0=2.1, n_orb=12)
    z = zero(13.0, dt, 120.0)
    im = int(np.argmax(z.amp))
    for off in list(range(3, 12)) + [30, 60]:
        d = w.data()
        put_zero(d, z, 0, False, (None, im + off))
        st, r = attempt(run, method=m, dataDict=d, extra_kwargs=spline_kw(),
                        tref_in=w.t[[len(w.t) // 2]])
        R.ev()
        tzc = z.t[:im + off]
        end = tzc[-1] - quad_peak(tzc, z.amp[:im + off])
        R.state(("E", m, dt, off, st))
        if abs(end) < 1e-7:
            continue
        if (st == "ok") != (end >= 0):
            R.bad(f"E:{m}:{dt}:{off}", f"counterpart ending {end} after its "
                  f"merger: {st} {str(r)[:100] if st == 'err' else ''}")


def do_C(R, m):
    """Irregular sampling of signal or counterpart."""
    w = wave(e0=.2, l0=2.1, n_orb=12)
    z = zero(13.0, 1.0, 120.0)
    for which in ("t", "t_zeroecc"):
        n = used(w) if which == "t" else len(z.t)
        for pos in (1, 2, n // 4, n // 2, n - 3, n - 2):
            for eps in (.5, .01, -.01, 1e-3):
                for kind in ("jitter", "step"):
                    d = w.data()
                    put_zero(d, z, 0, False)
                    if kind == "jitter":
                        d[which][pos] += eps
                    else:
                        d[which][pos:] += eps
                    st, r = attempt(run, method=m, dataDict=d,
                                    extra_kwargs=spline_kw(),
                                    tref_in=w.t[[len(w.t) // 2]])
                    R.ev()
                    R.state(("C", m, which, pos, eps, kind, st))
                    if st == "ok":
                        R.bad(f"C:{m}:{which}:{pos}:{eps}:{kind}",
                              f"irregular sampling of {which} accepted")


def do_D(R, m, e0):
    """No exclusion: nothing is reported where the counterpart is unknown."""
    for ring in (40, 120):
        w = wave(e0=e0, l0=2.1, n_orb=12, tau_min=200., ring=ring)
        for tail in range(4, 60, 5):
            z = wave(e0=0., l0=0., n_orb=13, n0=.02 * (12 / 13) ** .6,
                     tau_min=200., ring=120.)
            im = int(np.argmax(z.amp))
            d = w.data()
            put_zero(d, z, 5.5, False, (None, im + tail))
            end = z.t[im + tail - 1] - quad_peak(z.t, z.amp) \
                + quad_peak(w.t, w.amp)
            for k in range(1, 12):
                t = w.t[: merger(w) + 60][-1 - 12 * k]
                mid = w.t[len(w.t) // 2]
                for tt in ([t], [mid, t]):
                    st, r = attempt(run, method=m, dataDict=d, tref_in=tt,
                                    num_orbits_to_exclude_before_merger=None,
                                    extra_kwargs=spline_kw())
                    R.ev()
                    R.state((m, e0, ring, tail, k, tuple(tt), st))
                    if st == "ok" and np.max(r["tref_out"]) > end:
                        R.bad(f"D:{m}:{e0}:{ring}:{tail}:{k}:{len(tt)}"
                              f"{tt[0] == t}",
                              f"answer at {np.max(r['tref_out'])}, the "
                              f"counterpart ends at {end}")


def do_X(R, m, where):
    """Signals that go on for several orbits after their loudest point, with a
    counterpart that ends earlier: requests of every order around its end."""
    w = Wave(e0=.2, l0=2.1, n_orb=14, tau_min=150.)
    z = Wave(e0=0., l0=0., n_orb=15, n0=.02 * (14 / 15) ** .6, tau_min=150.)
    peak = w.t[int(where * len(w.t))]
    for x in (w, z):
        x.amp = x.amp * (1 + 4 * np.exp(-((x.t - peak) / 30) ** 2))
    ek = dict(spline_kw(), general_interp_kwargs={"k": 1})
    iz = int(np.argmin(np.abs(z.t - peak)))
    refused = 0
    for tail in range(100, len(z.t) - iz - 350, 75):
        d = w.data()
        put_zero(d, z, 5.5, False, (None, iz + tail))
        end = z.t[iz + tail - 1] - quad_peak(z.t, z.amp) \
            + quad_peak(w.t, w.amp)
        A, B = peak - 200., peak + 20.
        for late in np.arange(end - 90, end + 700, 80):
            for tt in ([late], [A, late], [late, A], [A, late, B],
                       [late, late + 1, A, B], [A, B]):
                st, r = attempt(run, method=m, dataDict=d, tref_in=tt,
                                num_orbits_to_exclude_before_merger=None,
                                extra_kwargs=dict(ek))
                R.ev()
                key = f"X:{m}:{where}:{tail}:{late:.0f}:{len(tt)}" \
                    f":{tt[0] == late}"
                R.state((key, st))
                if st == "ok" and np.max(r["tref_out"]) > end:
                    R.bad(key, f"answer at {np.max(r['tref_out'])}, the "
                          f"counterpart ends at {end}")
                refused += st == "err" and "extrapolated" in str(r)
    R.state((m, where, "refused some", refused > 0))
