"""P10: only data up to N orbits before the merger is used."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (waveform, method, N, domain); within it every variant of the "
         "discarded data (ringdown length and shape, altered last orbits) and "
         "the supported range/extrema checked against the N-orbit rule; a sweep of fractional N decides "
         "which samples are used; state "
         "= (case, variant, outcome)",
    assumptions=["one orbit = 4 pi of phase of the (2,2) mode; the merger is "
                 "the amplitude maximum"],
)
NS = [None, 0, 0.5, 1, 2, 2.5, 3, 4, 6, 8, 11.5, 13, 40, -1, -0.001]


def cases(tier):
    out = []
    wks = [dict(e0=.2, l0=.6, n_orb=13)]
    if tier == "thorough":
        wks += [dict(e0=.35, l0=3.9, n_orb=13), dict(e0=.1, l0=5., n_orb=15)]
    for wk in wks:
        for m in METHODS:
            for n in range(len(NS)):
                for interp in ("spline", "rational_fit"):
                    if interp == "rational_fit" and tier == "quick" and (
                            m != "Amplitude"):
                        continue
                    out.append([wk, m, n, interp])
            if m in ("Amplitude", "Frequency"):
                out.append([wk, m, "fraction", None])
                for sh in (-3., -1.5, .6, 2.):
                    out.append([wk, m, "modes", sh])
                out.append([wk, m, "prec", None])
            if m in ("Amplitude", "Frequency"):
                out.append([wk, m, "sweep", 241 if tier == "thorough" else 61])
            # nothing excluded: complete signals (-1), signals that end at the
            # merger (0) or before it (inspiral only)
            for c in (-1, 0, 0.4, 0.75, 1.3, 2, 2.5, 3.7):
                out.append([wk, m, "nomerger", c])
    return out


def tail_variants(w):
    """Same inspiral up to just after the merger, different data afterwards."""
    im = w.merger_index
    keep = im + 4                      # samples that define the peak
    for kind in range(4):
        t, a, p = w.t.copy(), w.amp.copy(), w.phase.copy()
        if kind == 1:                  # shorter ringdown
            t, a, p = t[:keep + 12], a[:keep + 12], p[:keep + 12]
        elif kind == 2:                # wobbly ringdown
            x = np.arange(len(t) - keep)
            a[keep:] *= 0.8 + .2 * np.cos(x / 3.)
        elif kind == 3:                # flat tail, longer
            ext = 300
            t = np.concatenate([t, t[-1] + w.dt * np.arange(1, ext + 1)])
            a = np.concatenate([a, np.full(ext, a[-1] * .1)])
            p = np.concatenate([p, p[-1] + .3 * np.arange(1, ext + 1)])
        yield kind, t, a, p


def prec(case, R):
    """Data flagged as precessing without any asymmetry of the modes: the same
    samples are used, so the answers are the same."""
    wk, m, _, _ = case
    w = wave(**wk)
    im = w.merger_index
    for end, n in (("full", len(w.t)), ("merger", im + 1),
                   ("before", im - int(60 / w.dt))):
        for N in (None, 0, .5, 1, 2, 3.5, 6):
            got = []
            for p in (False, True):
                h = {(2, 2): w.hlm[(2, 2)][:n].copy()}
                if p:
                    h[(2, -2)] = np.conj(h[(2, 2)])
                got.append(attempt(
                    run, tref_in=w.t[:n].copy(), method=m, precessing=p,
                    dataDict={"t": w.t[:n].copy(), "hlm": h},
                    frame="coprecessing" if p else "inertial",
                    num_orbits_to_exclude_before_merger=N,
                    extra_kwargs=spline_kw()))
                R.ev()
            (s0, a), (s1, b) = got
            R.state((str(case), end, N, s0, s1))
            key = f"prec:{m}:{N}:{end}"
            if s0 != s1:
                R.bad(key, f"not precessing: {s0} {str(a)[:60]}, precessing: "
                           f"{s1} {str(b)[:60]}")
            elif s0 == "ok" and not (
                    same(a["tref_out"], b["tref_out"])
                    and same(a["eccentricity"], b["eccentricity"])
                    and same(a["mean_anomaly"], b["mean_anomaly"])):
                R.bad(key, f"times {a['tref_out'][[0, -1]]}, precessing "
                           f"{b['tref_out'][[0, -1]]}, or answers differ")


def used(R, tag, o, t, p, ph_cut):
    """The samples the measurement works on: all before the cut, none after
    it, up to the sample nearest to the cut."""
    x = getattr(o, "t", None)
    if x is None:
        return
    i = int(np.searchsorted(t, x[-1]))
    if x[0] != t[0] or len(x) != i + 1:
        R.bad(tag + ":data", f"{len(x)} samples used from {x[0]} to {x[-1]}")
    elif not np.isfinite(ph_cut):
        if i != len(t) - 1:
            R.bad(tag + ":data", f"data up to {x[-1]} of {t[-1]} used")
    elif p[i] > ph_cut + 1e-9:
        R.bad(tag + ":data", f"sample {i} used is "
              f"{(p[i] - ph_cut) / (p[i] - p[i - 1]):.2f} samples beyond the "
              "cut")
    elif p[i + 2] < ph_cut - 1e-9:
        R.bad(tag + ":data", f"data after sample {i} not used, cut is at "
              f"{np.interp(ph_cut, p[:i + 40], np.arange(i + 40)):.2f}")


def sweep(case, R):
    wk, m, _, n = case
    w = wave(**wk)
    phm = w.phase[int(np.argmax(w.amp))]
    for N in np.linspace(0, 6, n):
        st, r = attempt(run, tref_in=w.t[len(w.t) // 4], method=m,
                        dataDict=data_for(w, m), extra_kwargs=spline_kw(),
                        num_orbits_to_exclude_before_merger=N)
        R.ev()
        R.state((m, round(N, 4), st))
        tag = f"sweep:{m}:{wk['e0']}:{N}"
        if st != "ok":
            R.bad(tag, str(r)[:150])
            continue
        used(R, tag, r["gwecc_object"], w.t, w.phase, phm - 4 * np.pi * N)


def check(case, R):
    wk, m, ni, interp = case
    if ni == "sweep":
        return sweep(case, R)
    if ni == "fraction":
        return fraction(case, R)
    if ni == "modes":
        return modes(case, R)
    if ni == "nomerger":
        return no_merger(case, R)
    if ni == "prec":
        return prec(case, R)
    N = NS[ni]
    w = wave(**wk)
    im = int(np.argmax(w.amp))
    phm = w.phase[im]
    total = (phm - w.phase[0]) / (4 * np.pi)
    ek = {"omega_gw_extrema_interpolation_method": interp}
    base = None
    for kind, t, a, p in tail_variants(w):
        if N is None and kind:
            continue               # the ringdown is then part of the data
        d = {"t": t, "amplm": {(2, 2): a}, "phaselm": {(2, 2): p}}
        if m in RESIDUAL:
            z = wave(e0=0.0, l0=0.0, n_orb=wk["n_orb"] + 4)
            d.update(t_zeroecc=z.t.copy(), hlm_zeroecc=dict(z.hlm))
        st, r = attempt(run, tref_in=t, method=m, dataDict=d,
                        num_orbits_to_exclude_before_merger=N,
                        extra_kwargs=dict(ek))
        R.ev()
        tag = f"{case}:{kind}"
        R.state((tag, st, None if st == "err" else len(r["tref_out"])))
        if N is not None and N < 0:
            if st == "ok" or not isinstance(r, ValueError):
                R.bad(tag, f"negative N={N} accepted ({st} {str(r)[:80]})")
            continue
        if N is not None and N > total:
            if st == "ok":
                R.bad(tag, f"N={N} exceeds the {total:.1f} available orbits "
                      "but numbers were returned")
            continue
        # the Fits methods need data that ends before the merger
        must = N <= total - 5.5 if N is not None else m in FAST
        if st == "err":
            if must:
                R.bad(tag, f"N={N}: {type(r).__name__}: {str(r)[:200]}")
            continue
        o = r["gwecc_object"]
        ph_cut = np.inf if N is None else phm - 4 * np.pi * N
        step = np.max(np.diff(w.phase))
        for nm, x in (("pericentre", o.t_pericenters),
                      ("apocentre", o.t_apocenters)):
            last = p[np.searchsorted(t, x[-1])]
            if last > ph_cut + step:
                R.bad(tag, f"{nm} at {x[-1]} is only "
                      f"{(phm - last) / 4 / np.pi:.2f} orbits before merger, "
                      f"N={N}")
        used(R, tag, o, t, p, ph_cut)
        if N is not None and r["tref_out"][-1] > t[np.argmin(np.abs(p[:im + 1] - ph_cut))]:
            R.bad(tag, "supported range reaches into the excluded region")
        if kind == 0:
            base = r
            # nothing that is allowed is thrown away: all true extrema but
            # possibly the one next to the cut (its flank is cut off)
            if m in FAST and N is not None and N >= 2:
                P, A = w.extrema(cut=N)
                # residual data has its extrema slightly elsewhere
                tol = 3 * w.dt if m in ("Amplitude", "Frequency") else 40.
                for nm, x, true in (("pericentres", o.t_pericenters, P),
                                    ("apocentres", o.t_apocenters, A)):
                    miss = [q for q in w.t[true]
                            if np.min(np.abs(x - q)) > tol
                            and true[2] <= np.searchsorted(w.t, q) < true[-1]]
                    if miss:
                        R.bad(tag, f"{nm} {miss} not used although earlier "
                              f"than {N} orbits before merger")
        elif base is not None:
            if not (same(r["tref_out"], base["tref_out"])
                    and same(r["eccentricity"], base["eccentricity"],
                             atol=1e-9)
                    and same(r["mean_anomaly"], base["mean_anomaly"],
                             atol=1e-9)):
                R.bad(tag, "data after the merger changed the answer")
    # altering data between the cut and the last two orbits changes nothing
    if N is not None and N >= 2.5 and base is not None \
            and m in ("Amplitude", "Frequency"):
        lo = int(np.argmin(np.abs(w.phase[:im] - (phm - 4 * np.pi * N)))) + 1
        hi = int(np.argmin(np.abs(w.phase[:im] - (phm - 4 * np.pi * 2)))) - 3
        a = w.amp.copy()
        x = np.linspace(0, np.pi, hi - lo)
        a[lo:hi] *= 1 + .1 * np.sin(x) * np.sin(7 * x)
        p = w.phase.copy()
        p[lo:hi] += .2 * np.sin(x) ** 2
        d = {"t": w.t.copy(), "amplm": {(2, 2): a}, "phaselm": {(2, 2): p}}
        st, r = attempt(run, tref_in=w.t, method=m, dataDict=d,
                        num_orbits_to_exclude_before_merger=N,
                        extra_kwargs=dict(ek))
        R.ev()
        R.state((case, "altered", st))
        # the frequency of the last four samples is a one-sided difference
        ok = st == "ok" and same(r["tref_out"], base["tref_out"]) and same(
            r["eccentricity"], base["eccentricity"], atol=1e-7)
        if not ok:
            R.bad(f"{case}:altered", "excluded data changed the answer: "
                  + (str(r)[:100] if st == "err" else
                     f"{len(r['tref_out'])}/{len(base['tref_out'])}"))


def fraction(case, R):
    """Fine grid of N: every extremum followed by enough allowed data is used, and none beyond the cut."""
    wk, m, _, _ = case
    w = wave(**wk)
    im = int(np.argmax(w.amp))
    # (an extremum is identified once enough data follow it)
    gap = .4 if wk["e0"] == .2 else .65
    for N in np.arange(1.5, 6.01, .1):
        N = round(float(N), 2)
        st, r = attempt(run, tref_in=w.t, method=m, dataDict=w.data(),
                        num_orbits_to_exclude_before_merger=N,
                        extra_kwargs=spline_kw())
        R.ev()
        R.state((case, N, st))
        tag = f"{case}:{N}"
        if st == "err":
            R.bad(tag, f"{type(r).__name__}: {str(r)[:200]}")
            continue
        tp, ta = extrema_times(r["gwecc_object"])
        need = [w.t[x[-1]] for x in w.extrema(cut=N + gap)]
        cut = w.t[np.argmin(np.abs(w.phase[:im] - (w.phase[im]
                                                   - 4 * np.pi * N)))]
        for nm, x, q in (("pericentre", tp, need[0]),
                         ("apocentre", ta, need[1])):
            if np.min(np.abs(x - q)) > 3 * w.dt:
                R.bad(tag, f"{nm} at {q} not used although more than {N} + {gap} "
                      "orbits before merger")
            if x[-1] > cut + w.dt:
                R.bad(tag, f"{nm} at {x[-1]} is less than {N} orbits before "
                      "merger")


def modes(case, R):
    """A higher mode whose loudest point, `sh` orbits from that of the (2,2)
    mode, is the loudest of all: the merger is there."""
    wk, m, _, sh = case
    w = wave(**wk)
    im = int(np.argmax(w.amp))
    t, p = w.t, w.phase
    per = 4 * np.pi / (p[im] - p[im - 1]) * w.dt
    tt = np.arange(t[0], t[-1] + 4 * per, w.dt)
    a = np.interp(tt, t, w.amp)
    x = np.minimum(tt, t[-1])
    p = np.interp(x, t, w.phase) + (tt - x) * (p[-1] - p[-2]) / w.dt
    tc = t[im] + sh * per
    b = 3 * w.amp[im] * np.exp(-((tt - tc) / (.15 * per)) ** 2)
    jm = int(np.argmax(a ** 2 + b ** 2))
    for N, order in itertools.product((1, 2, 3.5), (0, 1)):
        h = {(2, 2): a * np.exp(-1j * p), (3, 3): b * np.exp(-1.5j * p)}
        if order:
            h = dict(reversed(h.items()))
        st, r = attempt(run, tref_in=tt, method=m,
                        dataDict={"t": tt.copy(), "hlm": h},
                        num_orbits_to_exclude_before_merger=N,
                        extra_kwargs=spline_kw())
        R.ev()
        R.state((case, N, order, st))
        tag = f"{case}:{N}:{order}"
        if st == "err":
            R.bad(tag, f"{type(r).__name__}: {str(r)[:200]}")
            continue
        o = r["gwecc_object"]
        if not abs(o.t_merger - tt[jm]) <= 1.5 * w.dt:
            R.bad(tag, f"merger at {o.t_merger}; the loudest point of all modes "
                       f"is {tt[jm]}")
        cut = int(np.argmin(np.abs(p - (p[jm] - 4 * np.pi * N))))
        if abs(len(o.t) - cut) > 2:
            R.bad(tag, f"{len(o.t)} samples are used; {N} orbits before the "
                       f"loudest point of all modes is sample {cut}")


def no_merger(case, R):
    wk, m, _, c = case
    w = wave(**wk)
    im = int(np.argmax(w.amp))
    i = len(w.t) if c < 0 else im + 1 if c == 0 else int(
        np.argmin(np.abs(w.phase[:im] - (w.phase[im] - 4 * np.pi * c))))
    d = {"t": w.t[:i].copy(), "hlm": {(2, 2): w.hlm[(2, 2)][:i].copy()}}
    if m in RESIDUAL:
        # a quasicircular signal of the same kind: its own loudest point is
        # its end
        return
    st, r = attempt(run, tref_in=d["t"], method=m, dataDict=fresh(d),
                    num_orbits_to_exclude_before_merger=None,
                    extra_kwargs=spline_kw())
    R.ev()
    R.state((case, st))
    if st == "err":
        R.bad(f"{case}", f"{type(r).__name__}: {str(r)[:200]}")
        return
    o = r["gwecc_object"]
    P, A = w.extrema(cut=c if c > 0 else 1.)
    for nm, x, true in (("pericentres", o.t_pericenters, P),
                        ("apocentres", o.t_apocenters, A)):
        tol = 3 * w.dt if m in ("Amplitude", "Frequency") else 60.
        miss = [q for q in w.t[true] if np.min(np.abs(x - q)) > tol
                and true[1] < np.searchsorted(w.t, q) < true[-2]]
        if miss:
            R.bad(f"{case}", f"{nm} {miss} not used ({x})")
