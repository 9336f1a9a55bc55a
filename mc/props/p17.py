"""P17: every method finds every pericentre and apocentre of a clean signal,
once, where it is."""
import numpy as np
from scipy.signal import find_peaks

from mc.common import *          # noqa
from mc.props.p12 import default_width, merger

META = dict(
    level="exploration",
    rule="all products of method x eccentricity x initial anomaly x (length, "
         "precession of the pericentre, sampling, units, time origin); Fits and "
         "residual methods are compared with the orbit's own pericentre and "
         "apocentre passages, the direct methods with the local extrema of the "
         "input sample by sample; refined extrema at three samplings",
    assumptions=["waveform: analytic Keplerian orbit with a Newtonian chirp",
                 "residual methods need e > 0.01 and Fits methods e < 0.45 here"],
)
CONF = [dict(n_orb=12), dict(n_orb=17, k=.07, dt=.7),
        dict(n_orb=9, k=.015, tscale=1e-4, ascale=1e-21),
        dict(n_orb=13, t0=2e4, decay=.5), dict(n_orb=30, dt=1.6)]
NC = len(CONF)
# only for the Fits methods
CONF += [dict(n_orb=24, k=-.08), dict(n_orb=24, k=0), dict(n_orb=24, k=.25),
         dict(n_orb=14, k=.25), dict(n_orb=60, dt=1.6),
         dict(n_orb=40, k=.1, decay=.3)]
NF = len(CONF)
CONF += [dict(n_orb=20, dt=1.)]
NL = len(CONF)
# long and finely sampled
CONF += [dict(n_orb=120, dt=.3), dict(n_orb=180, dt=.8)]
ECC = {"A": [.045, .08, .2, .35, .5], "R": [.012, .05, .2, .35, .5],
       "F": [.001, .01, .08, .2, .33]}


def kind_of(m):
    return "F" if "Fits" in m else "R" if "Residual" in m else "A"


def cases(tier):
    out = []
    th = tier == "thorough"
    nl = 24 if th else 8
    for ci in range(NC):
        for m in METHODS:
            es = ECC[kind_of(m)]
            if th:
                es = sorted(es + [.5 * (a + b) for a, b in zip(es, es[1:])])
            for e in es:
                if kind_of(m) == "R" and ci == 3 and e > .3:
                    continue
                for i in range(nl):
                    if kind_of(m) == "F" and ci and (i + ci) % 4 and not th:
                        continue
                    out.append([m, e, round(2 * np.pi * i / nl + .05, 6), ci])
    for m in METHODS:
        for e in (.08, .2) if not th else (.05, .08, .2, .3):
            for ci in (NL, NL + 1):
                out.append([m, e, .9 + ci, ci])
    # documented tuning parameters of the Fits methods
    for m in METHODS[4:]:
        for N, G in ((2, 10), (2, 100), (3, 100)):
            for e in (.01, .05, .2):
                out.append([m, e, .9, 0, [N, G]])
    # any number of orbits in the fit, with a distance short enough for the
    # last of them; extreme advances of the pericentre, short and long signals
    for m in METHODS[4:]:
        for e in (.01, .2) if not th else (.003, .01, .05, .1, .2, .3):
            for l0 in (4.4,) if not th else (.05, 1.3, 2.7, 4.4):
                for ci in (NC, NC + 1, NC + 2):
                    for N in (3, 4, 5, 6):
                        out.append([m, e, l0, ci, [N, 10, .4]])
                for ci in range(NC + 3, NF):
                    out.append([m, e, l0, ci])
    # up to the merger, where the last of the small oscillations can no longer
    # be told from the change of the trend
    for m in METHODS[4:]:
        for e in (.0003, .001, .003):
            for N in (2, 3, 5) if not th else (2, 3, 4, 5):
                for pf in (.03, .1, .3):
                    for l0 in (.9, 3.) if not th else (.1, .9, 2., 3., 4., 5.):
                        out.append([m, e, l0, NF, [N, 10, .75, pf], 0])
    # refined extrema of the Fits methods do not depend on the sampling
    for m in METHODS[4:]:
        for e in (.08, .2, .33):
            for l0 in (.6, 3.1, 5.0) if th else (.6,):
                out.append([m, e, l0, "refine"])
    return out


def refine(case, R):
    """Sub-sample positions agree between samplings, the plain ones do not."""
    m, e, l0, _ = case
    pos = []
    for dt in (.06, .05, .04):
        w = wave(e0=e, l0=l0, n_orb=12, dt=dt, t0=0.)
        sc = 1e-5 if dt == .05 else 1.
        st, r = attempt(measure_eccentricity, tref_in=w.t[-1] / 2 * sc,
                        method=m, extra_kwargs=spline_kw(refine_extrema=True),
                        dataDict=dict(w.data(), t=w.t * sc))
        R.ev()
        R.state((case, dt, st))
        if st == "err":
            R.bad(f"{case}:{dt}", f"{type(r).__name__}: {str(r)[:200]}")
            return
        o = r["gwecc_object"]
        if not hasattr(o, "periastron_info"):    # not part of the interface
            return
        for nm, i in (("pericentres", o.periastron_info),
                      ("apocentres", o.apastron_info)):
            for k, x in ((1, o.data_for_finding_extrema), (2, o.phase_gw)):
                if not np.allclose(np.interp(i[0] + o.t_merger, o.t, x), i[k],
                                   rtol=1e-4):
                    R.bad(f"{case}:{dt}:{nm}:value", f"recorded with {nm}: "
                          f"{i[k]} at {i[0]}")
        pos.append([(i[0] + o.t_merger) / sc
                    for i in (o.periastron_info, o.apastron_info)])
    for k in (1, 2):
        for nm, a, b in zip(("pericentres", "apocentres"), pos[0], pos[k]):
            if len(a) != len(b) or np.max(np.abs(a - b)) > .004:
                R.bad(f"{case}:{k}:{nm}", f"refined {nm} depend on the sampling: "
                      f"{a} and {b}")


def check(case, R):
    if case[3] == "refine":
        return refine(case, R)
    m, e, l0, ci = case[:4]
    kw = {}
    if len(case) > 4:
        kw = dict(kwargs_for_fits_methods=dict(zip(
            ("num_orbits", "num_orbits_for_global_fit", "distance_factor",
             "prominence_factor"), case[4])))
    w = wave(e0=e, l0=l0, **CONF[ci])
    d = w.data()
    if m in RESIDUAL:
        c = dict(CONF[ci])
        n_orb = c.pop("n_orb")
        longer = n_orb + 4
        # the counterpart: same chirp, aligned at the merger
        z = wave(e0=0.0, l0=0.0, n_orb=longer, n0=chirp_n0(w, longer),
                 **{q: v for q, v in c.items() if q != "decay"})
        d["t_zeroecc"], d["hlm_zeroecc"] = z.t.copy(), z.hlm
    key = ":".join(map(str, case))
    end = int(np.argmin(np.abs(w.phase - (w.phase[merger(w)]
                                          - 8 * np.pi))))
    st, r = attempt(measure_eccentricity, tref_in=w.t[:end].copy(), method=m,
                    num_orbits_to_exclude_before_merger=(case[5:] or [2])[0],
                    dataDict=d, extra_kwargs=spline_kw(
                        return_zero_if_small_ecc_failure=False, **kw))
    R.ev()
    if st == "err":
        if kind_of(m) == "A":
            P, A = own_extrema(w, m, end)
            if min(len(P), len(A)) < 3:
                R.state((m, e, "too few"))
                return
        R.bad("fail:" + key, f"{type(r).__name__}: {str(r)[:200]}")
        return
    tp, ta = extrema_times(r["gwecc_object"])
    if kind_of(m) == "A":
        # near the threshold of the width and at the ends either is right
        may = own_extrema(w, m, end + 3, .9)
        must = own_extrema(w, m, end - 3, 1.1)
        eps = 1e-3 * w.dt * w.tscale
        for name, got, lo, hi in (("pericentres", tp, w.t[must[0]], w.t[may[0]]),
                                  ("apocentres", ta, w.t[must[1]], w.t[may[1]])):
            R.state((m, e, name, len(got)))
            inside = lo[(lo >= got[0] - eps) & (lo <= got[-1] + eps)]
            if any(np.min(np.abs(got - x)) > eps for x in inside):
                R.bad(f"missed:{name}:{key}", f"{len(got)} {name} used, the data "
                      f"has {len(inside)} in the same interval")
            elif any(np.min(np.abs(hi - x)) > eps for x in got):
                R.bad(f"false:{name}:{key}", f"one of the {name} used is no "
                                             "extremum of the data")
            elif len(lo) - len(got) > 2:
                # surplus extrema at the ends are discarded by documented rules
                R.bad(f"count:{name}:{key}",
                      f"only {len(got)} of {len(lo)} {name} used")
        return
    n = w.n_insp
    for name, got, off in (("pericentres", tp, 0.), ("apocentres", ta, np.pi)):
        lt = np.interp(got, w.t[:n], w.l[:n])
        orb = (lt - off) / (2 * np.pi)
        num = np.rint(orb)
        R.state((m, e, ci, name, len(got), int(num[0])))
        late = len(case) > 5
        tol = .03 if kind_of(m) == "R" or late else .012
        if np.max(np.abs(orb - num)) > tol:
            j = int(np.argmax(np.abs(orb - num)))
            R.bad(f"place:{name}:{key}", f"{name[:-1]} {j} is {orb[j] - num[j]:+.3f}"
                                         " radial periods off")
        elif np.any(np.diff(num) != 1):
            R.bad(f"hole:{name}:{key}", f"orbits found: {num.astype(int)}")
        else:
            first = np.ceil((w.l[0] - off) / (2 * np.pi))
            last = np.floor((w.l[end] - off) / (2 * np.pi))
            if num[0] > first + 1 or num[-1] < last - (
                    2 if late and case[4][0] > 3 else 1):
                R.bad(f"range:{name}:{key}",
                      f"found orbits {num[0]:.0f}..{num[-1]:.0f} of "
                      f"{first:.0f}..{last:.0f}")


def chirp_n0(w, longer):
    """Initial frequency of a longer wave with the same late evolution:
    n0 (tau/T)^(-3/8) with 1.6 n0 T = 2 pi n_orb."""
    c = w.n0 * w.T ** (3. / 8)
    T = (2 * np.pi * longer / (1.6 * c)) ** (8. / 5)
    return c * T ** (-3. / 8)


def own_extrema(w, m, end, slack=1.0):
    x = w.amp if m == "Amplitude" else deriv4(w.phase, w.t[1] - w.t[0])
    width = default_width(w) * slack
    x = x[:end]
    return (find_peaks(x, width=width)[0], find_peaks(-x, width=width)[0])
