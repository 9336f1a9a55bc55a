"""P12: options are validated, omission means the documented default, and the
documented meaning of each numeric option is what it does."""
import itertools

import numpy as np
from scipy.signal import find_peaks

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="distinct = (configuration, outcome). Families: U = every option "
         "dictionary x unknown key x companions; V = every invalid choice "
         "value / combination of reference arguments; D = every single "
         "option, every pair of options and all options set explicitly to the "
         "documented default, compared with omission; X = documented effect "
         "of interpolation order, peak-finder arguments and default width, "
         "compared with an independent computation",
    assumptions=["documented defaults: docstring of measure_eccentricity and "
                 "the option tables it refers to"],
)

FIND = {"height": None, "threshold": None, "distance": None,
        "prominence": None, "wlen": None, "rel_height": 0.5,
        "plateau_size": None}
SPLINE = {"w": None, "bbox": [None, None], "k": 3, "ext": 2,
          "check_finite": False}
RATIONAL = {"degrees": None, "max_iterations": 20, "verbose": False,
            "tol": 1e-7}
FITS = {"FrequencyFits": {"nPN": -3. / 8, "prominence_factor": .03,
                          "distance_factor": .75},
        "AmplitudeFits": {"nPN": -1. / 4, "prominence_factor": .025,
                          "distance_factor": .5}}
for d in FITS.values():
    d.update(fit_bounds_max_amp_factor=10, fit_bounds_max_nPN_factor=10,
             num_orbits=3, num_orbits_for_global_fit=10,
             return_diagnostic_data=False)
FILTER = {"filter_threshold": .2, "alpha": 2, "segment_size": 15,
          "data_type_for_filter_requirement_check": None,
          "data_type_for_fspin_estimate": None, "debug_level": 0,
          "debug_plots": False, "do_not_filter": False,
          "padding_length": 2 * 10 ** 4, "taper_width": .2,
          "f_spin_lo_frac": .75, "f_spin_hi_frac": 1.25, "fecc_lo_frac": .25,
          "fecc_hi_frac": .5}
TOP = {"debug_plots": False, "treat_mid_points_between_pericenters_as_apocenters": False,
       "omega_gw_averaging_method": "orbit_averaged_omega_gw",
       "refine_extrema": False, "return_zero_if_small_ecc_failure": False,
       "use_only_these_many_orbits": None}
DICTS = ["general_interp_kwargs", "special_interp_kwargs_for_omega_gw_extrema",
         "extrema_finding_kwargs", "kwargs_for_fits_methods", "filter_kwargs"]


def flat(method, interp, precessing):
    """All (path, documented default) pairs for a configuration."""
    out = [((k,), v) for k, v in TOP.items()]
    out += [(("general_interp_kwargs", k), v) for k, v in SPLINE.items()]
    sp = SPLINE if interp == "spline" else RATIONAL
    out += [(("special_interp_kwargs_for_omega_gw_extrema", k), v)
            for k, v in sp.items()]
    if method in FITS:
        out += [(("kwargs_for_fits_methods", k), v)
                for k, v in FITS[method].items()]
    else:
        out += [(("extrema_finding_kwargs", k), v) for k, v in FIND.items()]
    if precessing:
        out += [(("filter_kwargs", k), v) for k, v in FILTER.items()]
    out += [((d,), {}) for d in DICTS]
    return out


def put(ek, path, v):
    if len(path) == 1:
        if not (isinstance(v, dict) and path[0] in ek):
            ek[path[0]] = v
    else:
        ek.setdefault(path[0], {})[path[1]] = v


UNKNOWN = ["no_such_option", "Debug_plots", "", "k ", "width_", "degree",
           "num_orbit", "tref_in"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in METHODS:
        for interp in ("spline", "rational_fit"):
            for prec in (False, True):
                levels = ["top", "general_interp_kwargs",
                          "special_interp_kwargs_for_omega_gw_extrema"]
                levels += (["kwargs_for_fits_methods"] if m in FITS else [])
                levels += ["extrema_finding_kwargs"]
                levels += (["filter_kwargs"] if prec else [])
                for lv in levels:
                    out.append(["U", m, interp, prec, lv])
    for m in METHODS:
        out.append(["V", m])
    cfg = [("Amplitude", "spline", False), ("Frequency", "spline", False),
           ("ResidualAmplitude", "spline", False),
           ("AmplitudeFits", "spline", False),
           ("FrequencyFits", "spline", False),
           ("Amplitude", "rational_fit", False),
           ("Frequency", "spline", True)]
    if th:
        cfg += [("ResidualFrequency", "rational_fit", False),
                ("AmplitudeFits", "rational_fit", True),
                ("ResidualAmplitude", "spline", True),
                ("FrequencyFits", "spline", True)]
    for c in cfg:
        n = len(flat(*c))
        slow = c[0] in FITS or c[1] == "rational_fit" or c[2]
        for dom in ("t", "f"):
            if dom == "f" and slow and not th:
                continue
            for i in range(n):
                out.append(["D", *c, dom, i, (not slow) or th])
            out.append(["D", *c, dom, -1, False])
    for m in FAST:
        for interp in ("spline",):
            for k in (1, 2, 3, 4, 5):
                for kg in (1, 2, 3, 4, 5):
                    out.append(["K", m, k, kg])
    for m in FAST:
        for i in range(len(EXTREMA_OPTS)):
            for j in range(i, len(EXTREMA_OPTS)):
                out.append(["X", m, i, j])
    for dt in (1., .5, 2.):
        for e0 in (.1, .4):
            out.append(["W", dt, e0])
    return out


EXTREMA_OPTS = [("width", 1), ("width", 60), ("width", (20, 80)),
                ("distance", 5), ("distance", 150), ("prominence", 1e-4),
                ("prominence", .01), ("height", .02), ("height", -.09),
                ("wlen", 101), ("rel_height", .25), ("rel_height", .9),
                ("plateau_size", 1), ("plateau_size", (1, 1)),
                ("threshold", 1e-9)]

_base = {}


def base_args(m, prec, dom="t"):
    w = wave(e0=.25, l0=1.0, n_orb=11)
    if prec:
        d = {"t": w.t.copy(), "hlm": ell2_modes(w, asym=.002)}
        if m in RESIDUAL:
            z = wave(e0=0.0, l0=0.0, n_orb=14)
            d["t_zeroecc"] = z.t.copy()
            d["hlm_zeroecc"] = ell2_modes(z)
    else:
        d = data_for(w, m, zkw=dict(n_orb=14))
    a = dict(method=m, dataDict=d)
    if prec:
        a.update(precessing=True, frame="coprecessing")
    n = len(w.t)
    if dom == "t":
        a["tref_in"] = w.t[[int(.35 * n), int(.5 * n)]]
    else:
        a["fref_in"] = np.array([.0085, .0099])
    return a


def numbers(r):
    return {k: np.asarray(v) for k, v in r.items() if k != "gwecc_object"}


def check(case, R):
    globals()["do_" + case[0]](R, *case[1:])


def do_U(R, m, interp, prec, lv):
    other = {"top": {}, "general_interp_kwargs": {"k": 3},
             "special_interp_kwargs_for_omega_gw_extrema":
             {"k": 3} if interp == "spline" else {"tol": 1e-7},
             "extrema_finding_kwargs": {"plateau_size": None},
             "kwargs_for_fits_methods": {"num_orbits": 3},
             "filter_kwargs": {"alpha": 2}}[lv]
    valid = {"spline": RATIONAL, "rational_fit": SPLINE}[interp]
    names = UNKNOWN + (["max_iterations", "tol"] if lv == "general_interp_kwargs" else [])
    if lv.startswith("special"):
        names = names + [k for k in valid]
    for name in names:
        for order in (0, 1, 2):
            bad = {name: 1}
            d = dict(bad) if order == 0 else (
                {**other, **bad} if order == 1 else {**bad, **other})
            ek = {"omega_gw_extrema_interpolation_method": interp}
            if lv == "top":
                ek = {**ek, **d} if order != 2 else {**d, **ek}
            else:
                ek[lv] = d
            for dom in ("t", "f"):
                st, e = attempt(run, **base_args(m, prec, dom),
                                extra_kwargs=ek)
                R.ev()
                R.state((m, interp, prec, lv, name, order, dom, st))
                tag = f"U:{m}:{interp}:{prec}:{lv}:{name}:{dom}"
                if st == "ok":
                    R.bad(tag, "unknown option accepted")
                elif not isinstance(e, ValueError) or name not in str(e):
                    R.bad(tag, f"unknown option reported as "
                          f"{type(e).__name__}: {str(e)[:100]}")


def do_V(R, m):
    a = base_args(m, False)

    def expect(tag, types=Exception, **kw):
        st, e = attempt(run, **kw)
        R.ev()
        R.state((m, tag, st))
        if st == "ok":
            R.bad(f"V:{m}:{tag}", "accepted")
        elif not isinstance(e, types):
            R.bad(f"V:{m}:{tag}", f"{type(e).__name__}: {e}")

    for x in ("linear", "Spline", "", None, 3):
        expect(f"interp={x!r}", **a, extra_kwargs={
            "omega_gw_extrema_interpolation_method": x})
    fa = base_args(m, False, "f")
    for x in ("mean", "Orbit_averaged_omega_gw", "", None, 3):
        expect(f"avg={x!r}", **fa, extra_kwargs=spline_kw(
            omega_gw_averaging_method=x))
    if m not in RESIDUAL:
        expect("avg=zeroecc without data", **fa, extra_kwargs=spline_kw(
            omega_gw_averaging_method="omega_gw_zeroecc"))
    for x in ("lab", "Inertial", "", None):
        for p in (False, True):
            expect(f"frame={x!r},{p}", ValueError,
                   **dict(a, frame=x, precessing=p))
    for x in (m.lower(), m + " ", "", None, "eccDefinition"):
        expect(f"method={x!r}", **dict(a, method=x))
    # the methods on offer are those that can be used, by name
    names, table = get_available_methods(), get_available_methods(True)
    R.ev()
    if list(table) != names or sorted(names) != sorted(METHODS):
        R.bad(f"V:{m}:methods", f"{names} {list(table)}")
    table.clear()
    names.clear()
    st, r = attempt(run, **a)
    if st != "ok" or type(r["gwecc_object"]) is not \
            get_available_methods(return_dict=True)[m] or \
            r["gwecc_object"].method != m:
        R.bad(f"V:{m}:class", f"{st} {r}"[:100])
    for x in ("nope", m + "s"):
        st, e = attempt(run, **dict(a, method=x))
        if st == "ok" or x not in str(e) or not all(
                q in str(e) for q in METHODS):
            R.bad(f"V:{m}:unknown", f"method={x}: {str(e)[:200]}")
    t = a.pop("tref_in")
    expect("no reference", KeyError, **a)
    for tt in (t, t[0], list(t), 0.0, 0):
        for ff in (fa["fref_in"], .009, 0, 0.0):
            expect(f"both {np.shape(tt)} {np.shape(ff)} {np.size(ff)} "
                   f"{np.ravel(tt)[0]} {np.ravel(ff)[0]}",
                   KeyError, **dict(a, tref_in=tt, fref_in=ff))


def do_D(R, m, interp, prec, dom, i, pairs):
    opts = flat(m, interp, prec)
    key = (m, interp, prec, dom)
    b = {"omega_gw_extrema_interpolation_method": interp}
    if key not in _base:
        _base[key] = numbers(run(**base_args(m, prec, dom),
                                 extra_kwargs=dict(b)))
        R.ev()
        if interp == "rational_fit":      # the documented default as well
            r = numbers(run(**base_args(m, prec, dom)))
            R.ev()
            if not all(same(r[k], v) for k, v in _base[key].items()):
                R.bad(f"D:{key}:interp", "the default interpolation is not "
                      "rational_fit")
    sets = [range(len(opts))] if i < 0 else [[i]] + (
        [[i, j] for j in range(i + 1, len(opts))] if pairs else [])
    for sel in sets:
        ek = dict(b)
        for s in sel:
            put(ek, opts[s][0], fresh(opts[s][1]))
        st, r = attempt(run, **base_args(m, prec, dom), extra_kwargs=ek)
        R.ev()
        names = ",".join(".".join(opts[s][0]) for s in sel)[:120]
        R.state((key, tuple(sel)))
        if st != "ok":
            R.bad(f"D:{key}:{names}", f"documented default refused: "
                  f"{type(r).__name__}: {str(r)[:150]}")
        elif not all(k in r and same(r[k], v, 1e-9, 1e-12)
                     for k, v in _base[key].items()):
            R.bad(f"D:{key}:{names}", "setting the documented default(s) "
                  "explicitly changes the result")


def do_K(R, m, k, kg):
    """Interpolation orders."""
    for e0, n in ((.25, 11), (.4, 9)):
        w = wave(e0=e0, l0=1.0, n_orb=n)
        nt = len(w.t)
        t = w.t[[int(.4 * nt), int(.5 * nt), int(.55 * nt)]]
        f = np.array([.0088, .0093])
        for dom in ("t", "f"):
            a = {"tref_in": t} if dom == "t" else {"fref_in": f}
            ek = spline_kw(special_interp_kwargs_for_omega_gw_extrema={"k": k},
                           general_interp_kwargs={"k": kg})
            st, r = attempt(run, method=m, dataDict=data_for(w, m),
                            extra_kwargs=ek, **a)
            R.ev()
            if st != "ok":
                if dom == "f":      # e.g. low orders may be non-monotonic
                    R.state((m, k, kg, e0, dom, type(r).__name__))
                    if kg == 3:
                        R.bad(f"K:{m}:{k}:{kg}:{e0}:{dom}", f"{r}"[:200])
                    continue
                R.bad(f"K:{m}:{k}:{kg}:{e0}:{dom}", f"{r}"[:200])
                continue
            tp, ta = extrema_times(r["gwecc_object"])
            ref = Ref(w.t, w.phase, tp, ta)
            om, t0 = ref.omega, w.t

            def spl(x, y, kk):
                return InterpolatedUnivariateSpline(x, y, k=min(kk, len(x) - 1))
            wp, wa = spl(ref.tp, om[ref.ip], k), spl(ref.ta, om[ref.ia], k)
            if dom == "f":
                p = ref.orbit_average_points()
                av = spl(p[:, 0], p[:, 1], kg)
                _, _, s = ref.fref_window()
                y = av(s)
                if not np.all(np.diff(y) > 0):
                    continue
                tt = spl(y / 2 / np.pi, s, kg)(f)
            else:
                tt = t
            x, y = np.sqrt(wp(tt)), np.sqrt(wa(tt))
            want = ecc_map((x - y) / (x + y))
            got = r["eccentricity"]
            R.state((m, k, kg, e0, dom, tuple(np.round(got, 9))))
            if not np.allclose(got, want, rtol=0, atol=2e-9):
                R.bad(f"K:{m}:{k}:{kg}:{e0}:{dom}", f"eccentricity {got} with "
                      f"order {k}/{kg} interpolation; reference {want}")
            if not np.all(angdiff(r["mean_anomaly"], ref.mean_ano(tt)) < 1e-6):
                R.bad(f"K:{m}:{k}:{kg}:{e0}:{dom}", "mean anomaly")


def merger(w):
    return int(np.argmin(np.abs(w.t - quad_peak(w.t, w.amp))))


def default_width(w):
    """Two (2,2) cycles starting 4 cycles before merger, in steps, over 4."""
    pm = w.phase[merger(w)]
    i = np.argmin(np.abs(w.phase - (pm - 8 * np.pi)))
    j = np.argmin(np.abs(w.phase - (pm - 4 * np.pi)))
    return (j - i) / 4


def finder_data(m, w):
    n = int(np.argmin(np.abs(w.phase - (w.phase[merger(w)] - 8 * np.pi))))
    if "Amp" in m:
        y = np.abs(w.hlm[(2, 2)])
    else:
        y = deriv4(-np.unwrap(np.angle(w.hlm[(2, 2)])), w.t[1] - w.t[0])
    if m in RESIDUAL:
        z = wave(e0=0.0, l0=0.0, n_orb=16)
        tz = z.t - quad_peak(z.t, z.amp) + quad_peak(w.t, w.amp)
        x = z.amp if "Amp" in m else deriv4(z.phase, z.t[1] - z.t[0])
        y = y - InterpolatedUnivariateSpline(tz, x, k=3)(w.t)
    return y[:n]


def do_X(R, m, i, j):
    """The peak finder gets the documented data and arguments."""
    for e0 in (.15, .4):
        w = wave(e0=e0, l0=2.0, n_orb=10)
        opts = dict([EXTREMA_OPTS[i], EXTREMA_OPTS[j]])
        cls = get_available_methods(return_dict=True)[m]
        obj = cls(data_for(w, m), tref_in=np.array([w.t[len(w.t) // 2]]),
                  extra_kwargs=spline_kw(extrema_finding_kwargs=dict(opts)))
        y = finder_data(m, w)
        kw = dict(width=int(default_width(w)), rel_height=.5)
        kw.update(opts)
        for typ, s in (("pericenters", 1), ("apocenters", -1)):
            got = np.asarray(obj.find_extrema(typ))
            R.ev()
            want = find_peaks(s * y, **kw)[0]
            # samples that tie within rounding may swap
            ok = len(got) == len(want) and np.all(np.abs(got - want) <= 1)
            R.state((m, i, j, e0, typ, len(got)))
            if not ok:
                R.bad(f"X:{m}:{opts}:{e0}:{typ}", f"extrema {got[:12]}; peak "
                      f"finder with {kw} gives {want[:12]}")


def do_W(R, dt, e0):
    """Default width: bumps narrower than it are ignored, wider ones found."""
    w = wave(e0=e0, l0=2.0, n_orb=10, dt=dt)
    P, A = w.extrema()
    width = int(default_width(w))
    for m in ("Amplitude", "Frequency"):
        for at in (A[2], (A[3] + P[3]) // 2):
            for fw in range(max(2, width // 3), 3 * width, max(1, width // 6)):
                x = (np.arange(len(w.t)) - at) / (fw / 2.3548)
                d = w.data()
                amp = w.amp * (1 + .8 * np.exp(-x ** 2 / 2))
                d = {"t": w.t.copy(), "amplm": {(2, 2): amp},
                     "phaselm": {(2, 2): w.phase.copy()},
                     "omegalm": {(2, 2): deriv4(w.phase, w.t[1] - w.t[0])
                                 * (1 + .8 * np.exp(-x ** 2 / 2))}}
                cls = get_available_methods(return_dict=True)[m]
                obj = cls(d, tref_in=np.array([w.t[len(w.t) // 2]]),
                          extra_kwargs=spline_kw())
                y = (amp if m == "Amplitude" else d["omegalm"][(2, 2)])
                n = int(np.argmin(np.abs(w.phase - (
                    w.phase[merger(w)] - 8 * np.pi))))
                got = np.asarray(obj.find_extrema("pericenters"))
                R.ev()
                want = find_peaks(y[:n], width=width)[0]
                R.state((dt, e0, m, int(at), fw, len(got)))
                if len(got) != len(want) or np.any(got != want):
                    R.bad(f"W:{dt}:{e0}:{m}:{at}:{fw}", f"pericentres {got}; "
                          f"with the documented width {width}: {want}")
