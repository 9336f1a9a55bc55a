"""P26: spin-induced oscillations are filtered when, and only when, they matter.

Coprecessing (2,+-2) modes are put together from an analytic eccentric wave, a mode
asymmetry (relative size a, at half the spin frequency) and a spin-induced
oscillation of the symmetric part (relative size eps). Over a full grid of
(eccentricity, a, eps, frequency ratio, threshold, units, options):
 * the filter decision agrees with a ratio of asymmetry to modulation computed here,
   is monotone in the threshold, and the same in all units and time origins;
 * where it acts on both quantities the eccentricity is that of the wave without
   oscillations; where it does not act, and with do_not_filter, the data are the
   plain combinations, bit for bit, and the result that of a non-precessing
   measurement of them;
 * the originals are kept; the phase is the integral of the filtered frequency; the
   first extrema are not used; the reference model reproduces the measurement from
   the filtered frequency.
"""
import itertools
import os

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.signal import find_peaks

from mc.common import (Ref, angdiff, attempt, captured, deriv4, run, same,
                       snapshot, spline_kw, wave)

META = dict(
    level="exploration", limit=300, chunk=1,
    rule="distinct = (wave parameters, options, units, filter decision, outcome)."
         " Full grid.",
    assumptions=["the spin period is 1.2-1.6 per half radial period: the fast "
                 "oscillation is separable from the radial one",
                 "crossings of the two modes are resolved by the sampling"])
TR = np.array([-1560, -1410., -1260, -1110, -960, -810, -660])
ES = [.02, .03, .05]
AS = [(0, 0), (.004, 0), (.02, 0), (.02, .002), (.05, .004)]
RS = [1.25, 1.5]
THR = [.02, .05, .1, .2, .35, .5, .65, .8, .95]
REL = [.7, .85, .94, 1.14, 1.3, 1.85]
UNITS = [dict(ts=4.925e-6 * 50), dict(asc=1e-21), dict(asc=1e4),
         dict(ts=1e3, asc=1e-3), dict(t0=1e4), dict(ts=2.5e-4, asc=3e-22)]
FK = [{}, {"alpha": 1}, {"alpha": 3}, {"segment_size": 12},
      {"segment_size": 18, "alpha": 1.5}, {"padding_length": 7000},
      {"taper_width": .1}, {"taper_width": .4},
      {"f_spin_lo_frac": .9, "f_spin_hi_frac": 1.1},
      {"f_spin_lo_frac": .6, "f_spin_hi_frac": .85},
      {"f_spin_lo_frac": 1.15, "f_spin_hi_frac": 1.4},
      {"f_spin_lo_frac": 1.2, "f_spin_hi_frac": 1.20000001},
      {"fecc_lo_frac": .15, "fecc_hi_frac": .3},
      {"fecc_lo_frac": .36, "fecc_hi_frac": .7},
      {"fecc_lo_frac": .4, "fecc_hi_frac": .40000001},
      {"f_spin_lo_frac": 1.2, "f_spin_hi_frac": 1.20000001,
       "fecc_lo_frac": .4, "fecc_hi_frac": .40000001},
      {"data_type_for_fspin_estimate": "amp"},
      {"data_type_for_fspin_estimate": "omega", "segment_size": 12}]
PLOT = [{"debug_plots": True}, {"debug_level": 1},
        {"debug_plots": True, "debug_level": 1, "f_spin_lo_frac": 1.2,
         "f_spin_hi_frac": 1.20000001}]
DEF = dict(alpha=2, segment_size=15, padding_length=20000, taper_width=.2,
           f_spin_lo_frac=.75, f_spin_hi_frac=1.25, fecc_lo_frac=.25,
           fecc_hi_frac=.5)


def cases(tier):
    th = tier == "thorough"
    out = []
    for e, ae, r in itertools.product(ES, AS, RS):
        out.append(dict(k="clean", e=e, ae=ae, r=r, m="Amplitude"))
        if th or r == 1.5:
            out.append(dict(k="clean", e=e, ae=ae, r=r, m="Frequency"))
        # signals starting after an apocentre: the pericentre comes first
        for l0 in (3.6, 4.6) if th else (3.8,):
            out.append(dict(k="clean", e=e, ae=ae, r=r, m="Amplitude", l0=l0))
        out.append(dict(k="skip", e=e, ae=ae, r=r, m="Amplitude"))
    for e, ae, r in itertools.product(ES + [.1, .2], AS[1:], RS):
        if not th and (ae[1] or r == 1.25 and e > .05):
            continue
        out.append(dict(k="thr", e=e, ae=ae, r=r))
    for u in range(len(UNITS)):
        for e, ae in (((.02, AS[3]), (.05, AS[4]), (.03, AS[1]))
                      if not th else itertools.product(ES, AS)):
            out.append(dict(k="unit", e=e, ae=ae, r=1.5, u=u))
    for o in ("amp", "omega", "alpha", "segment", "pad", "taper", "level",
              "both"):
        out.append(dict(k="opt", o=o))
    for key in ("filter_threshold_", "alfa", "verbose", 3):
        out.append(dict(k="bad", key=key))
    for e, a, r, f in itertools.product(
            ES, ([.02, .002], [.05, .004]), RS,
            range(len(FK)) if th else (0,)):
        out.append(dict(k="seg", e=e, ae=a, r=r, f=f))
    if not th:
        for f in range(1, len(FK)):
            out.append(dict(k="seg", e=.02, ae=[.02, .002], r=1.5, f=f))
    for f in range(len(PLOT)):
        out.append(dict(k="plot", e=.02, ae=[.02, .002], r=1.5, f=f))
    for v in ("phase", "Amp", ""):
        for key in ("data_type_for_fspin_estimate",
                    "data_type_for_filter_requirement_check"):
            out.append(dict(k="badtype", key=key, v=v))
    for a in (.1, .3, .6):
        for e in (.1, .2, .3):
            out.append(dict(k="ecc", a=a, e=e))
    return out


def make(e, a, eps, ratio, ts=1., asc=1., t0=None, l0=.5):
    w = wave(n_orb=12, dt=1.5, e0=e, tscale=ts, ascale=asc, t0=t0, l0=l0)
    psi = w.l * ratio
    amp = w.amp * (1 + eps * np.cos(2 * psi))
    ph = w.phase + eps * np.sin(2 * psi)
    A, p = a * np.cos(psi + .3), a * np.sin(psi + .3)
    return w, {(2, 2): amp * (1 + A) * np.exp(-1j * (ph + p)),
               (2, -2): amp * (1 - A) * np.exp(1j * (ph - p))}


def times(w):
    tm = w.t[w.merger_index]
    return TR * w.tscale + tm


def measure(w, modes, m="Amplitude", prec=True, fk=None, level=0):
    d = {"t": w.t.copy(), "hlm": {k: v.copy() for k, v in modes.items()}}
    snap = snapshot(d)
    kw = spline_kw()
    if fk is not None:
        kw["filter_kwargs"] = fk
    s, v = attempt(run, dataDict=d, tref_in=times(w), method=m, debug_level=level,
                   precessing=prec, frame="coprecessing", extra_kwargs=kw)
    assert snapshot(d) == snap, "the caller's data changed"
    return s, v


def combined(w, modes):
    """amplitude and phase to be measured, from the two modes"""
    h, g = modes[(2, 2)], modes[(2, -2)]
    return (.5 * (np.abs(h) + np.abs(g)),
            .5 * (-np.unwrap(np.angle(h)) + np.unwrap(np.angle(g))))


def plain(w, modes, m):
    """Non-precessing measurement of the combined mode."""
    a, p = combined(w, modes)
    d = {"t": w.t.copy(), "amplm": {(2, 2): a}, "phaselm": {(2, 2): p}}
    return attempt(run, dataDict=d, tref_in=times(w), method=m,
                   extra_kwargs=spline_kw())


def flags(o):
    return (o.amp_gw_filtered is not None, o.omega_gw_filtered is not None)


def ratios(w, modes):
    """Mean peak of the asymmetry over mean peak of the modulation of (2,2)."""
    a, p = combined(w, modes)
    end = int(np.argmin(np.abs(p - (p[w.merger_index] - 8 * np.pi))))
    dt = w.t[1] - w.t[0]
    x = (w.t[w.merger_index] - w.t[:end]) / (w.t[w.merger_index] - w.t[0])
    out = []
    for q in ("amp", "omega"):
        if q == "amp":
            h, g = np.abs(modes[(2, 2)])[:end], np.abs(modes[(2, -2)])[:end]
        else:
            h = -deriv4(np.unwrap(np.angle(modes[(2, 2)])), dt)[:end]
            g = deriv4(np.unwrap(np.angle(modes[(2, -2)])), dt)[:end]
        asy = .5 * (h - g)
        c = np.polyfit(np.log(x + .02), np.log(h), 3)
        res = h - np.exp(np.polyval(c, np.log(x + .02)))
        # highest point of every radial period
        n = int(np.floor((w.l[end] - w.l[0]) / (2 * np.pi)))
        ix = [np.searchsorted(w.l, w.l[0] + 2 * np.pi * j) for j in range(n + 1)]
        rp = np.mean([res[i:j].max() for i, j in zip(ix, ix[1:])])
        ap = np.mean(asy[find_peaks(asy)[0]]) if np.ptp(asy) > 1e-9 * h[0] else 0
        out.append(ap / rp)
    return out


def vals(v):
    return dict(zip(np.round(v["tref_out"], 9),
                    zip(v["eccentricity"], v["mean_anomaly"])))


def far(a, b, etol, ltol):
    """Compare where both have an answer."""
    A, B = vals(a), vals(b)
    common = sorted(set(A) & set(B))
    if len(common) < 2:
        return f"only {len(common)} common reference times of {len(A)}, {len(B)}"
    for t in common:
        if abs(A[t][0] - B[t][0]) > etol or angdiff(A[t][1], B[t][1]) > ltol:
            return f"at {t}: {A[t]} and {B[t]}"
    return None


def consistent(R, key, w, modes, v, fl, m="Amplitude"):
    """Data bookkeeping of one precessing result."""
    o = v["gwecc_object"]
    n = len(o.t)
    a, p = combined(w, modes)
    om = deriv4(p, w.t[1] - w.t[0])
    sc = np.abs(om[:n]).max()
    if not same(o.amp_gw_original, a[:n], rtol=1e-12):
        R.bad(key + ":orig", "amp_gw_original is not the plain combination")
    d = o.phase_gw_original - p[:n]
    if not np.ptp(d) < 1e-9:
        R.bad(key + ":orig", "phase_gw_original is not the plain combination")
    if not same(o.omega_gw_original[2:], om[2:n], atol=1e-9 * sc):
        R.bad(key + ":orig", "omega_gw_original is not the plain combination")
    for q, f in (("amp", fl[0]), ("omega", fl[1]), ("phase", fl[1])):
        best, orig, filt = (getattr(o, f"{q}_gw"),
                            getattr(o, f"{q}_gw_original"),
                            getattr(o, f"{q}_gw_filtered"))
        if (filt is not None) != f:
            R.bad(key + ":flag", f"{q} filtered: {filt is not None}, "
                                 f"frequency: {fl[1]}")
        elif f:
            if not same(best, filt) or not np.all(np.isfinite(best)) \
                    or best.shape != orig.shape:
                R.bad(key + ":data", f"{q}_gw is not the filtered data")
            if q != "phase":
                seg = getattr(o, f"{q}_gw_filter_segment_results")
                if not seg:
                    R.bad(key + ":seg", f"no segments kept for {q}")
        elif not same(best, orig):
            R.bad(key + ":data", f"{q}_gw changed without filter")
    if fl[1]:
        dp = np.diff(o.phase_gw) / (o.t[1] - o.t[0])
        mid = .5 * (o.omega_gw[1:] + o.omega_gw[:-1])
        if not same(dp, mid, rtol=3e-3):
            R.bad(key + ":phase", "phase is not the integral of the frequency")
    # after filtering the first extremum of each kind is not used
    used = (np.searchsorted(o.t, o.t_pericenters - 1e-9 * abs(o.t[0])),
            np.searchsorted(o.t, o.t_apocenters - 1e-9 * abs(o.t[0])))
    im = int(np.argmax(np.sqrt(sum(np.abs(x) ** 2 for x in modes.values()))))
    i2, i1 = (int(np.argmin(np.abs(p - (p[im] - 4 * np.pi * j))))
              for j in (2, 1))
    y = o.amp_gw if m == "Amplitude" else o.omega_gw
    for kind, u, sg in zip(("pericentre", "apocentre"), used, (1, -1)):
        all_ = find_peaks(sg * y, width=int((i1 - i2) / 4))[0]
        if fl[1] and len(all_) > 3 and (len(u) == 0 or u[0] < all_[1]):
            R.bad(key + ":first", f"first {kind} used {u[:1]}, "
                                  f"found {all_[:3]}, filtered: {fl}")
    ref = Ref(o.t, o.phase_gw, o.t_pericenters, o.t_apocenters,
              omega=np.array(o.omega_gw))
    t = v["tref_out"]
    if not same(ref.ecc(t), v["eccentricity"], atol=2e-7):
        R.bad(key + ":ref", f"eccentricity {v['eccentricity']}, from the data "
                            f"measured {ref.ecc(t)}")
    if np.any(angdiff(ref.mean_ano(t), v["mean_anomaly"]) > 1e-7):
        R.bad(key + ":ref", "mean anomaly differs from the reference model")


def segments(R, key, w, v, fk, ratio):
    """The segments kept with the result against the documented filter."""
    o, k = v["gwecc_object"], dict(DEF, **fk)
    n, dt = len(o.t), o.t[1] - o.t[0]
    fl = np.gradient(w.l, w.t)[:n] / 2 / np.pi
    for q in ("amp", "omega"):
        num, den = np.zeros(len(o.t)), np.zeros(len(o.t))
        seg = getattr(o, f"{q}_gw_filter_segment_results") or []
        mids, old = [], None
        if not seg:
            R.bad(key, f"{q} not filtered")
            continue
        for j, r in enumerate(seg):
            def bad(what):
                R.bad(f"{key}:{q}:{what[:12]}", f"{q} segment {j}: {what}")
            i0 = int(np.argmin(abs(o.t - r.t[0])))
            m = len(r.t)
            if not np.array_equal(o.t[i0:i0 + m], r.t):
                return bad("times are not those of the data")
            orig = getattr(o, f"{q}_gw_original")[i0:i0 + m]
            if not same(r.data[:len(orig)], orig):
                bad("data are not those of the signal")
            if not same(r.secular + r.residual, r.data, rtol=1e-12) \
                    or not same(r.secular + r.filtered_residual,
                                r.filtered_data, rtol=1e-12):
                bad("trend and residual do not add up")
            amp = np.ptp(r.residual)
            if abs(np.mean(r.residual)) > .05 * amp \
                    or np.polyfit(r.t - r.t[0], r.residual, 1)[0] \
                    * (r.t[-1] - r.t[0]) > .1 * amp:
                bad(f"secular trend left in the residual: {amp}")
            # width and position
            half = .5 * k["segment_size"] / r.f_spin_guess
            free = (i0 > 0, i0 + m < len(o.t))
            if free[0]:
                mid = r.t[0] + half
            elif free[1]:
                mid = r.t[-1] - half
            else:
                mid = None
            if all(free) and abs(r.t[-1] - r.t[0] - 2 * half) > 2.01 * dt:
                bad(f"segment is {r.t[-1] - r.t[0]} wide instead of {2 * half}")
            if not any(free):
                bad("segment is the whole signal")
            if j == 0 and (mid is None or abs(mid - o.t[0]) > 2.01 * dt):
                bad("first segment not centred at the start")
            if old is not None and mid is not None \
                    and not abs(mid - old) < 2.01 * dt:
                bad(f"centred at {mid} instead of {old}")
            old = None if mid is None else mid + k["alpha"] / r.f_spin_guess
            mids.append(mid)
            ft = np.interp(mid, o.t, fl)
            inner = mid > o.t[0] + half / 2 and mid < o.t[-1] - half / 2
            if inner and abs(r.f_spin_guess / (2 * ratio * ft) - 1) > .08:
                bad(f"spin frequency estimated as {r.f_spin_guess}, is "
                    f"{2 * ratio * ft}")
            # peaks and trough of the spectrum
            win = np.abs(np.fft.rfft(np.hamming(m) * r.residual, m + 2
                                     * k["padding_length"]))
            fr = np.fft.rfftfreq(m + 2 * k["padding_length"], dt)
            if not same(r.frequency, fr, rtol=1e-9):
                return bad("frequencies are not those of the padded segment")
            if not same(r.spectrum, win / len(fr) * win.max()
                        / (win / len(fr)).max() / (m + 2 * k["padding_length"]),
                        rtol=1e-6, atol=1e-9 * win.max()):
                bad("spectrum is not that of the residual")
            def pick(lo, hi, fn, none):
                s = (fr >= lo) & (fr <= hi)
                return fr[s][fn(win[s])] if s.any() else none
            fs = pick(k["f_spin_lo_frac"] * r.f_spin_guess,
                      k["f_spin_hi_frac"] * r.f_spin_guess, np.argmax,
                      r.f_spin_guess)
            fe = pick(k["fecc_lo_frac"] * fs, k["fecc_hi_frac"] * fs, np.argmax,
                      fs / 2.5)
            fc = pick(fe, fs, np.argmin, .5 * (fs + fe))
            if not same((r.f_spin, r.f_ecc, r.f_cutoff), (fs, fe, fc),
                        rtol=1e-9):
                bad(f"peaks {(r.f_spin, r.f_ecc, r.f_cutoff)} instead of "
                    f"{(fs, fe, fc)}")
            x = np.clip((fr - fc * (1 - k["taper_width"]))
                        / (2 * fc * k["taper_width"]), 0, 1)
            pad = k["padding_length"]
            full = np.fft.rfft(np.pad(r.residual, pad))
            y = np.fft.irfft(full * .5 * (1 + np.cos(np.pi * x)),
                             n=m + 2 * pad)[pad:pad + m]
            if not same(r.filtered_residual, y, atol=1e-9 * amp):
                bad("residual is not the tapered low-pass of the data")
            h = np.hanning(m)
            num[i0:i0 + m] += h * r.filtered_data
            den[i0:i0 + m] += h
        if o.t[0] + mids[-1] - o.t[0] + 2 * k["alpha"] / seg[-1].f_spin_guess \
                < max(r.t[-1] for r in seg):
            R.bad(f"{key}:{q}:end", f"{q}: segments end at {mids[-1]}")
        ok = den > 0
        tot = np.interp(o.t, o.t[ok], num[ok] / den[ok])[:n]
        if not same(getattr(o, f"{q}_gw"), tot, rtol=1e-9):
            R.bad(f"{key}:{q}:sum", f"{q} is not the weighted mean of the "
                                    "segments")


def get(case, fk=None, m=None, **u):
    w, md = make(case["e"], *case["ae"], case["r"], **u)
    return (w, md) + measure(w, md, m or case.get("m", "Amplitude"), fk=fk)


def check(case, R):
    k = case["k"]
    key = ":".join(str(x) for x in case.values())
    if k == "clean":
        u = {"l0": case["l0"]} if "l0" in case else {}
        w, md, s, v = get(case, **u)
        R.ev(2)
        if s != "ok":
            return R.bad(key, f"failed: {v}")
        fl = flags(v["gwecc_object"])
        R.state((key, fl))
        consistent(R, key, w, md, v, fl, case["m"])
        if not case["ae"][0] and any(fl):
            R.bad(key, f"filtered {fl} without any asymmetry")
        r = ratios(w, md)
        for q, f, x in zip(("amplitude", "frequency"), fl, r):
            if case["ae"][0] and (f and x < .11 or not f and x > .3):
                R.bad(key + ":dec", f"{q} filtered: {f}; asymmetry is {x:.3f} of "
                                    "the modulation, threshold 0.2")
        if all(fl) or not case["ae"][0]:
            w0, m0 = make(case["e"], 0, 0, 1, **u)
            s0, v0 = measure(w0, m0, case["m"])
            x = far(v, v0, .02 * case["e"] + 3e-4, .35)
            if s0 != "ok" or x:
                R.bad(key + ":clean", f"oscillations not removed: {x}")
    elif k == "skip":
        w, md, s, v = get(case, fk={"do_not_filter": True})
        s1, v1 = plain(w, md, case["m"])
        R.ev(2)
        if s != s1:
            return R.bad(key, f"do_not_filter: {s}, plain combination: {s1}")
        R.state((key, s))
        if s == "ok":
            if any(flags(v["gwecc_object"])):
                R.bad(key, "filtered in spite of do_not_filter")
            # the merger differs slightly (peak of all modes), the data do not
            x = far(v, v1, 1e-9, 1e-9)
            if x:
                R.bad(key, f"do_not_filter, plain combination {x}")
            consistent(R, key, w, md, v, (False, False))
    elif k == "thr":
        w, md = make(case["e"], *case["ae"], case["r"])
        r = ratios(w, md)
        seen = []
        own = sorted(THR + [f * x for x in r for f in REL])
        for th in own:
            s, v = measure(w, md, fk={"filter_threshold": th})
            R.ev()
            seen.append(None if s != "ok" else flags(v["gwecc_object"]))
        R.state((key, str(seen)))
        for i, q in enumerate(("amplitude", "frequency")):
            f = [(x, g[i]) for x, g in zip(own, seen) if g]
            if any(b and not a for (_, a), (_, b) in zip(f, f[1:])):
                R.bad(key, f"{q}: filtered at a higher threshold only: {f}")
            for x, g in f:
                # with a slow spin the two estimates agree closely
                up = 1.12 if case["r"] == 1.25 else 1.8
                if g and x > up * r[i] or not g and x < .95 * r[i]:
                    R.bad(key, f"{q} filtered: {g} at threshold {x}; asymmetry "
                               f"is {r[i]:.3f} of the modulation")
    elif k == "unit":
        w, md, s, v = get(case)
        w1, m1, s1, v1 = get(case, **UNITS[case["u"]])
        R.ev(2)
        if s != s1:
            return R.bad(key, f"{s} in geometric units, {s1} in these: {v1}")
        if s == "ok":
            f, f1 = flags(v["gwecc_object"]), flags(v1["gwecc_object"])
            R.state((key, f))
            tm, tm1 = w.t[w.merger_index], w1.t[w1.merger_index]
            if f != f1:
                R.bad(key, f"filtered {f} in geometric units, {f1} in these")
            elif not same((v["tref_out"] - tm) / w.tscale,
                          (v1["tref_out"] - tm1) / w1.tscale, atol=1e-6) \
                    or not same(v["eccentricity"], v1["eccentricity"],
                                atol=2e-6) \
                    or np.any(angdiff(v["mean_anomaly"],
                                      v1["mean_anomaly"]) > 1e-5):
                R.bad(key, f"{v['eccentricity']} in geometric units, "
                           f"{v1['eccentricity']} in these")
    elif k == "opt":
        o = case["o"]
        c = dict(e=.02, ae=(.02, .002), r=1.5)
        w, md, s0, v0 = get(c)
        fk, tol = {"amp": ({"data_type_for_fspin_estimate": "amp"}, 3e-4),
                   "omega": ({"data_type_for_fspin_estimate": "omega"}, 3e-4),
                   "both": ({"data_type_for_filter_requirement_check": "amp"},
                            1e-9),
                   "alpha": ({"alpha": 1}, 3e-4),
                   "segment": ({"segment_size": 12}, 4e-4),
                   "pad": ({"padding_length": 12000}, 2e-4),
                   "taper": ({"taper_width": .15}, 3e-4),
                   "level": ({"debug_level": -1}, 0)}[o]
        fk0 = dict(fk)
        with captured() as (out, err, ws):
            s, v = measure(w, md, fk=fk, level=-1 if o == "level" else 0)
        R.ev(2)
        R.state((key, s))
        if s0 != "ok" or s != "ok":
            return R.bad(key, f"{s0} {s} {v}")
        if fk != fk0:
            R.bad(key, "the caller's options changed")
        if o == "level" and (out.getvalue() or err.getvalue() or len(ws)):
            R.bad(key, "output at debug level -1: " + out.getvalue()[:80])
        x = far(v, v0, tol, .3)
        if x:
            R.bad(key, f"with {fk}: {x}")
        fl = flags(v["gwecc_object"])
        consistent(R, key, w, md, v, fl)
        if not all(fl):
            R.bad(key, f"filtered {fl}")
    elif k == "seg":
        fk = dict(FK[case["f"]])
        w, md, s, v = get(case, fk=fk)
        R.ev()
        if s != "ok":
            R.state((key, s))
            if not fk:
                R.bad(key, f"failed: {v}")
            return
        fl = flags(v["gwecc_object"])
        R.state((key, fl))
        consistent(R, key, w, md, v, fl)
        if all(fl):
            segments(R, key, w, v, fk, case["r"])
        elif case["e"] == .02 and case["ae"][0] == .02:
            R.bad(key, f"filtered {fl}")
    elif k == "plot":
        for f in os.listdir("."):
            os.remove(f)
        w, md, s, v = get(case)
        with captured():
            w1, md1, s1, v1 = get(case, fk=dict(PLOT[case["f"]]))
            if "f_spin_lo_frac" in PLOT[case["f"]]:
                w, md, s, v = get(case, fk={
                    x: y for x, y in PLOT[case["f"]].items() if x[0] == "f"})
        R.ev(2)
        if s != "ok" or s1 != "ok":
            return R.bad(key, f"{s}, {s1} with diagnostics: {v1}")
        R.state((key, flags(v1["gwecc_object"])))
        for x in ("tref_out", "eccentricity", "mean_anomaly"):
            if not np.array_equal(v[x], v1[x]):
                R.bad(key, f"{x} changes with {PLOT[case['f']]}")
        files = sorted(os.listdir("."))
        if bool(files) != bool(PLOT[case["f"]].get("debug_plots")) \
                or any(not f.startswith(("gwecc_", "debug_")) for f in files):
            R.bad(key, f"files written: {files}")
        for f in files:
            os.remove(f)
    elif k in ("bad", "badtype"):
        c = dict(e=.02, ae=(.02, .002), r=1.5)
        fk = {case["key"]: 1} if k == "bad" else {case["key"]: case["v"]}
        w, md, s, v = get(c, fk=fk)
        R.ev()
        R.state((key, s))
        if s == "ok" or str(case["key"]) not in str(v) and k == "bad":
            R.bad(key, f"accepted or unnamed: {fk}: {s} {str(v)[:80]}")
    elif k == "ecc":
        w = wave(n_orb=10, dt=1.5, e0=case["e"])
        psi = w.phase / 2 * 1.25
        A = case["a"] * np.cos(psi)
        md = {(2, 2): w.amp * (1 + A) * np.exp(-1j * w.phase),
              (2, -2): w.amp * (1 - A) * np.exp(1j * w.phase)}
        s, v = measure(w, md)
        s0, v0 = plain(w, md, "Amplitude")
        R.ev(2)
        R.state((key, s))
        if s != "ok" or s0 != "ok":
            return R.bad(key, f"failed: {v}")
        fl = flags(v["gwecc_object"])
        consistent(R, key, w, md, v, fl)
        if fl[1]:
            R.bad(key, "frequency filtered, but it has no asymmetry")
        x = far(v, v0, .01, .3)
        if x:
            R.bad(key, f"oscillations only in the asymmetry: {x}")
