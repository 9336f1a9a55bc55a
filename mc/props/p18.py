"""P18: diagnostics are passive and obey the debug level."""
import glob
import itertools
import os

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="L = scenario x method x interpolation x domain, each at all four "
         "debug levels: equal outcomes, messages nested, silence at the lowest, "
         "exceptions at the highest; P = the same with debug plots: equal "
         "outcomes, only diagnostic files; O = all sequences of diagnostic "
         "calls up to the depth on one measured object: every figure shows the "
         "same curves whatever was called before, and the measurement stays "
         "bit-identical; state = (object state, curves)",
    assumptions=["the numbers shown are compared with the object's public "
                 "evaluation functions and with the input"],
    chunk=1,
)
SCEN = ["clean", "junk", "few", "few-no", "circ-zero", "circ", "seg", "noisy",
        "mean", "jump", "rising", "flat", "fref", "fscalar", "N0",
        "nonmono", "nonmono-mean", "segt", "segf", "segfs", "circf", "prec"]


def cases(tier):
    out = []
    for s in SCEN:
        for m in METHODS:
            for interp in ("spline", "rational_fit"):
                if tier == "quick" and "Fits" in m and s in (
                        "N0", "fscalar", "nonmono", "mean", "flat", "noisy",
                        "segf", "segfs", "circf", "prec"):
                    continue
                out.append(["L", s, m, interp])
    for s in ("clean", "fref", "mean", "seg", "noisy", "nonmono",
              "nonmono-mean", "segt", "segf", "segfs", "circf", "prec"):
        for m in METHODS:
            if tier == "thorough" or m in METHODS[:5:2] or s == "clean":
                out.append(["P", s, m])
    ops = list(range(len(OPS)))
    depth = 3 if tier == "thorough" else 2
    for i, dom in enumerate(("t", "fv", "f", "tv")):
        for m in (METHODS if tier == "thorough" else METHODS[i:i + 1] * (i < 3)):
            for a in ops:
                out.append(["O", dom, m, a, depth])
    for m in METHODS:
        for dom in ("t", "f", "tv", "fv"):
            out.append(["V", dom, m])
    for m in METHODS[4:]:
        for s in ("clean", "seg", "fref", "N0"):
            out.append(["D", s, m])
    return out


def diagnostic_data(case, R):
    """The diagnostic data of the Fits methods are those of the measurement."""
    _, s, m = case
    got = []
    for on in (False, True):
        w, d, req, kw, N = scenario(s, m)
        kw = dict(kw, kwargs_for_fits_methods={"return_diagnostic_data": on})
        st, r = attempt(measure_eccentricity, method=m, dataDict=d,
                        num_orbits_to_exclude_before_merger=N,
                        extra_kwargs=kw, **req)
        R.ev()
        R.state((str(case), on, st))
        if st == "err":
            R.bad(f"{case}:{on}", f"{type(r).__name__}: {str(r)[:200]}")
            return
        got.append([r["eccentricity"], r["mean_anomaly"]])
    if not all(same(a, b) for a, b in zip(*got)):
        R.bad(f"{case}", f"diagnostic data change the result: {got}")
    o = r["gwecc_object"]
    q = getattr(o, "diagnostic_data_dict", None)
    if not isinstance(q, dict) or "data" not in q or "t" not in q:
        R.bad(f"{case}:none", "no diagnostic data")
        return
    a = w.amp if m == "AmplitudeFits" else np.gradient(w.phase, w.t)
    a = np.interp(q["t"], w.t, a)
    x = np.asarray(q["data"])[10:-10] / a[10:-10]
    if len(q["t"]) != len(o.t) or np.ptp(x) > 2e-2 * np.mean(x):
        R.bad(f"{case}:data", f"the data shown are not proportional to the "
              f"signal's ({np.ptp(x) / np.mean(x):.3g})")
    for kind, loc in (("pericenters", o.t_pericenters),
                      ("apocenters", o.t_apocenters)):
        last = [list(c.values())[-1] for c in q["t_extrema"][kind] if c]
        every = np.concatenate(last) + o.t_merger if last else np.zeros(0)
        miss = [v for v in loc if not len(every)
                or np.min(np.abs(every - v)) > 1.5 * w.dt]
        if miss:
            R.bad(f"{case}:{kind}", f"{kind} {miss} are not in the diagnostic "
                  "data")


def scenario(s, m):
    kw = {}
    w = wave(e0=.2, l0=.6, n_orb=12)
    d = w.data()
    req = dict(tref_in=w.t[w.n_insp // 2])
    N = 2
    if s == "junk":
        d["junk"] = 1
    elif s in ("few", "few-no"):
        w = wave(e0=.2, l0=.6, n_orb=6)
        d = w.data()
        req = dict(tref_in=w.t[w.n_insp // 3])
        if s == "few-no":
            kw["return_zero_if_small_ecc_failure"] = False
    elif s in ("circ-zero", "circ"):
        w = wave(e0=0.0, l0=.6, n_orb=12)
        d = w.data()
        if s == "circ-zero":
            kw["return_zero_if_small_ecc_failure"] = True
    elif s in ("segt", "segf", "segfs"):
        kw["use_only_these_many_orbits"] = 5
        req = {"segt": dict(tref_in=w.t[[w.n_insp // 2, w.n_insp // 2 + 300,
                                         w.n_insp - 500]]),
               "segf": dict(fref_in=np.array([.0075, .008, .0085])),
               "segfs": dict(fref_in=.008)}[s]
    elif s == "circf":
        w = wave(e0=0.0, l0=.6, n_orb=12)
        d = w.data()
        kw["return_zero_if_small_ecc_failure"] = True
        req = dict(fref_in=np.array([.0075, .008, .0085]))
    elif s == "prec":           # with spin-induced oscillations
        w = wave(e0=.02, l0=.5, n_orb=12, dt=1.5)
        psi = 1.5 * w.l
        am = w.amp * (1 + .002 * np.cos(2 * psi))
        ph = w.phase + .002 * np.sin(2 * psi)
        A, q = .02 * np.cos(psi + .3), .02 * np.sin(psi + .3)
        d = {"t": w.t.copy(),
             "hlm": {(2, 2): am * (1 + A) * np.exp(-1j * (ph + q)),
                     (2, -2): am * (1 - A) * np.exp(1j * (ph - q))}}
        req = dict(tref_in=w.t[w.merger_index] - 1000, precessing=True,
                   frame="coprecessing")
    elif s == "seg":
        kw["use_only_these_many_orbits"] = 5
    elif s == "noisy":
        d["hlm"] = {k: v * (1 + .01 * np.sin(.013 * w.t + 1))
                    * np.exp(.02j * np.sin(.021 * w.t))
                    for k, v in d["hlm"].items()}
    elif s == "mean":
        kw["omega_gw_averaging_method"] = "mean_of_extrema_interpolants"
    elif s == "jump":       # one orbit carries no visible modulation
        e = np.exp(-((w.t - w.t[int(.45 * w.n_insp)]) / 180) ** 2)
        c = wave(e0=0.02, l0=.6, n_orb=12)
        a = w.amp * (1 - e) + c.amp * e
        p = w.phase * (1 - e) + c.phase * e
        d["hlm"] = {(2, 2): a * np.exp(-1j * p)}
    elif s == "rising":     # eccentricity grows with time
        w = wave(e0=.1, l0=.6, n_orb=12, decay=-2.0)
        d = w.data()
    elif s == "flat":
        w = wave(e0=.2, l0=.6, n_orb=12, decay=0.0)
        d = w.data()
    elif s == "fref":
        req = dict(fref_in=np.array([.0075, .008, .0085]))
    elif s == "fscalar":
        req = dict(fref_in=.008)
    elif s in ("nonmono", "nonmono-mean"):  # the average frequency decreases
        x = (w.t - w.t[w.n_insp // 3]) / 400
        ph = w.phase + 25 * np.tanh(x)
        d["hlm"] = {(2, 2): w.amp * np.exp(-1j * ph)}
        req = dict(fref_in=.012 if s == "nonmono-mean" else .008)
        if s == "nonmono-mean":
            kw.update(spline_kw(
                omega_gw_averaging_method="mean_of_extrema_interpolants"))
    elif s == "N0":
        N = 0
    if m in RESIDUAL:
        z = wave(e0=0.0, l0=0.0, n_orb=16)
        d["t_zeroecc"], d["hlm_zeroecc"] = z.t.copy(), dict(z.hlm)
        if s == "prec":
            d["hlm_zeroecc"][2, -2] = np.conj(z.hlm[2, 2])
    return w, d, req, kw, N


def outcome(s, m, level, kw2):
    w, d, req, kw, N = scenario(s, m)
    kw = dict(kw, **kw2)
    with captured() as (o, e, wn):
        try:
            r = measure_eccentricity(method=m, dataDict=d,
                                     **({} if level is None else
                                        {"debug_level": level}),
                                     num_orbits_to_exclude_before_merger=N,
                                     extra_kwargs=kw, **req)
            v = ("ok", snapshot({k: np.asarray(x) for k, x in r.items()
                                 if k != "gwecc_object"}))
        except Exception as ex:
            v = ("err", type(ex).__name__, str(ex))
    plt.close("all")
    return v, o.getvalue() + e.getvalue(), [
        (x.category.__name__, str(x.message)) for x in wn]


TAIL = "\nFor more verbose output use `debug_level=1`."


def norm(s):
    """Message without the pointers to more output."""
    i = s.find("\nFor more verbose output")
    return s if i < 0 else s[:i]


def check(case, R):
    if case[0] == "D":
        return diagnostic_data(case, R)
    if case[0] == "L":
        _, s, m, interp = case
        kw = {"omega_gw_extrema_interpolation_method": interp}
        got = {lv: outcome(s, m, lv, kw) for lv in (-1, 0, 1, 2)}
        R.ev(4)
        key = f"{s}:{m}:{interp}"
        R.state((key, got[0][0][0], got[2][0][0], len(got[1][2])))
        for lv in (-1, 1):
            if norm_v(got[lv][0]) != norm_v(got[0][0]):
                R.bad(f"level{lv}:{key}", f"outcome differs between debug "
                      f"levels: {str(got[lv][0])[:150]} vs {str(got[0][0])[:150]}")
        if got[-1][1] or got[-1][2]:
            R.bad("silent:" + key, "output at the silent level: "
                  f"{got[-1][1][:120]!r} {got[-1][2][:2]}")
        if got[0][1]:
            R.bad("print:" + key, f"prints at level 0: {got[0][1][:120]!r}")
        if interp == "spline":
            x = outcome(s, m, None, kw)
            R.ev()
            if norm_v(x[0]) != norm_v(got[0][0]) or x[1:] != got[0][1:]:
                R.bad("default:" + key, "leaving the level out is not level 0: "
                      f"{str(x)[:150]} vs {str(got[0])[:150]}")
        msgs = {norm(x[1]) for x in got[1][2]}
        lost = [x[1] for x in got[0][2] if norm(x[1]) not in msgs]
        if lost:
            R.bad("nested:" + key, f"shown at level 0 but not 1: {lost[0][:150]}")
        user = [norm(x[1]) for x in got[1][2] if x[0] == "UserWarning"
                and not x[1].startswith("No of data points is")
                and "Instead the eccentricity and mean anomaly will be set to "
                    "zero" not in x[1]]
        if user and got[2][0][0] == "ok":
            R.bad("raise:" + key, f"no exception at level 2 for: {user[0][:120]}")
        elif user and norm(got[2][0][2]) not in user and got[1][0][0] == "ok":
            R.bad("which:" + key, f"level 2 raised {got[2][0][2][:120]!r}, "
                                  f"level 1 warned {user[0][:120]!r}")
        elif not user and norm_v(got[2][0]) != norm_v(got[0][0]):
            R.bad("level2:" + key, "nothing to warn about, yet the outcome "
                  f"differs at level 2: {str(got[2][0])[:150]}")
    elif case[0] == "P":
        _, s, m = case
        before = set(os.listdir("."))
        a = outcome(s, m, 0, {})
        if set(os.listdir(".")) != before:
            R.bad(f"files:{s}:{m}", "files written without being asked: "
                  f"{sorted(set(os.listdir('.')) - before)}")
        b = outcome(s, m, 0, {"debug_plots": True})
        c = outcome(s, m, -1, {"debug_plots": True})
        R.ev(3)
        new = set(os.listdir(".")) - before
        R.state((s, m, len(new), a[0][0]))
        for x in (b, c):
            if norm_v(x[0]) != norm_v(a[0]):
                R.bad(f"plots:{s}:{m}", "the outcome changes with debug plots: "
                      f"{str(x[0])[:200]}")
        if not new and s != "circf" and (a[0][0] == "ok" or "monotonic" in a[0][2]):
            R.bad(f"noplot:{s}:{m}", "no diagnostic file was written")
        if [x for x in new if not x.startswith("gwecc_")]:
            R.bad(f"names:{s}:{m}", f"unexpected files {sorted(new)}")
        for x in new:
            os.remove(x)
    elif case[0] == "O":
        _, dom, m, a, depth = case
        order(dom, m, a, depth, R)
    elif case[0] == "V":
        values(case[1], case[2], R)


def norm_v(v):
    if v[0] == "ok":
        return v
    m = norm(v[2]).split("\n")[0]
    return v[0], v[1], m


# ---------------------------------------------------------------- figures
def curves(fig_ax):
    ax = fig_ax[1] if isinstance(fig_ax, tuple) else fig_ax
    axs = np.atleast_1d(ax).ravel()
    out = []
    for x in axs:
        out.append(tuple(
            (np.asarray(l.get_xdata(), float).tobytes(),
             np.asarray(l.get_ydata(), float).tobytes()) for l in x.lines))
    plt.close("all")
    return tuple(out)


def mid(o):
    return .5 * (o.tmin + o.tmax)


OPS = [
    ("eccentricity", lambda o: curves(o.plot_eccentricity(use_fancy_settings=False))),
    ("decc_dt", lambda o: curves(o.plot_decc_dt(use_fancy_settings=False))),
    ("mean_anomaly", lambda o: curves(o.plot_mean_anomaly(use_fancy_settings=False))),
    ("omega_gw", lambda o: curves(o.plot_omega_gw(use_fancy_settings=False))),
    ("omega_gw_average", lambda o: curves(o.plot_omega_gw_average(use_fancy_settings=False))),
    ("amp_gw", lambda o: curves(o.plot_amp_gw(use_fancy_settings=False))),
    ("phase_ratio", lambda o: curves(o.plot_phase_diff_ratio_between_extrema(use_fancy_settings=False))),
    ("data", lambda o: curves(o.plot_data_used_for_finding_extrema(use_fancy_settings=False))),
    ("all", lambda o: curves(o.make_diagnostic_plots(use_fancy_settings=False))),
    ("twocol", lambda o: curves(o.make_diagnostic_plots(use_fancy_settings=False, twocol=True, style="Notebook", add_help_text=False))),
    ("dedt", lambda o: np.asarray(o.derivative_of_eccentricity(mid(o))).tobytes()),
    ("d2edt2", lambda o: np.asarray(o.derivative_of_eccentricity(np.linspace(o.tmin, o.tmax, 9), n=2)).tobytes()),
    ("ecc", lambda o: np.asarray(o.compute_eccentricity(np.linspace(o.tmin, o.tmax, 9))).tobytes()),
    ("ano", lambda o: np.asarray(o.compute_mean_anomaly(np.linspace(o.tmin, o.tmax, 9))).tobytes()),
    ("again", lambda o: snapshot({k: np.asarray(v) for k, v in o.measure_ecc().items()})),
]

_base = {}


def make(dom, m):
    w = wave(e0=.25, l0=1.0, n_orb=9, dt=2.0)
    d = w.data()
    if m in RESIDUAL:
        z = wave(e0=0.0, l0=0.0, n_orb=13, dt=2.0)
        d["t_zeroecc"], d["hlm_zeroecc"] = z.t.copy(), z.hlm
    t = w.t[w.n_insp // 2]
    req = {"t": dict(tref_in=t), "f": dict(fref_in=.0082),
           "tv": dict(tref_in=np.array([t, t - 300., t - 100.])),
           "fv": dict(fref_in=np.array([.0079, .0084]))}[dom]
    r = run(method=m, dataDict=d, extra_kwargs=spline_kw(), **req)
    return w, d, r


def base(dom, m):
    """Single-call outcomes on fresh objects."""
    if (dom, m) not in _base:
        b = {}
        for name, f in OPS:
            w, d, r = make(dom, m)
            with captured():
                b[name] = attempt(f, r["gwecc_object"])
        _base[dom, m] = b
    return _base[dom, m]


def order(dom, m, a, depth, R):
    b = base(dom, m)
    for rest in itertools.product(range(len(OPS)), repeat=depth - 1):
        seq = (a,) + rest
        w, d, r = make(dom, m)
        o = r["gwecc_object"]
        res0 = snapshot({k: np.asarray(v) for k, v in r.items()
                         if k != "gwecc_object"})
        in0 = snapshot(d)
        for i in seq:
            name, f = OPS[i]
            with captured():
                st, v = attempt(f, o)
            R.ev()
            R.trans()
            if (st, v if st == "ok" else str(v)) != (
                    b[name][0], b[name][1] if b[name][0] == "ok"
                    else str(b[name][1])):
                R.bad(f"order:{dom}:{m}:" + "-".join(OPS[j][0] for j in seq),
                      f"{name} gives a different result after the calls before "
                      f"it ({st}: {str(v)[:80] if st == 'err' else ''})")
                break
        R.state((dom, m, seq))
        if snapshot({k: np.asarray(v) for k, v in r.items()
                     if k != "gwecc_object"}) != res0 or snapshot(d) != in0:
            R.bad(f"alters:{dom}:{m}:" + "-".join(OPS[j][0] for j in seq),
                  "diagnostics changed the results or the input")


def values(dom, m, R):
    """What the figures show."""
    w, d, r = make(dom, m)
    o = r["gwecc_object"]
    ref = ref_from(o, w)
    key = f"{dom}:{m}"

    def lines(out):
        ax = out[1] if isinstance(out, tuple) else out
        x = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))
             for l in ax.lines]
        plt.close("all")
        return x
    kw = dict(use_fancy_settings=False)
    with captured():
        L = {n: lines(getattr(o, "plot_" + n)(**kw)) for n in (
            "eccentricity", "mean_anomaly", "decc_dt", "omega_gw",
            "omega_gw_average", "amp_gw",
            "phase_diff_ratio_between_extrema",
            "data_used_for_finding_extrema")}
    R.ev(len(L))
    s = w.t[(w.t >= ref.tmin - 1e-6) & (w.t <= ref.tmax + 1e-6)]

    def eq(name, i, x, y, tol=1e-6):
        R.state((key, name, i))
        if i >= len(L[name]):
            R.bad(f"curve:{name}:{key}", "a curve is missing")
            return
        gx, gy = L[name][i]
        if gx.shape != np.shape(x) or not np.allclose(gx, x, atol=1e-6) \
                or not np.allclose(gy, y, rtol=tol, atol=tol * np.max(np.abs(y))):
            R.bad(f"curve:{name}:{i}:{key}",
                  f"curve {i} of the {name} figure does not show its data")
    eq("eccentricity", 0, s, ref.ecc(s))
    x, y = L["mean_anomaly"][0]
    if x.shape != s.shape or np.max(angdiff(y, ref.mean_ano(s))) > 1e-6:
        R.bad(f"curve:mean_anomaly:{key}", "wrong curve")
    sp = InterpolatedUnivariateSpline(s, ref.ecc(s), k=3)
    eq("decc_dt", 0, s, sp.derivative()(s), 1e-4)
    eq("omega_gw", 0, s, ref.wp(s))
    eq("omega_gw", 1, s, ref.wa(s))
    eq("omega_gw", 3, ref.tp, ref.omega[ref.ip])
    eq("omega_gw", 4, ref.ta, ref.omega[ref.ia])
    lo, hi, sf = ref.fref_window()
    eq("omega_gw_average", 0, sf, ref.average(sf))
    eq("amp_gw", 1, ref.tp, w.amp[ref.ip])
    eq("amp_gw", 2, ref.ta, w.amp[ref.ia])
    for i, (ix, t) in enumerate(((ref.ip, ref.tp), (ref.ia, ref.ta))):
        q = np.diff(w.phase[ix])
        eq("phase_diff_ratio_between_extrema", i, t[2:], q[1:] / q[:-1])
    for i, t in ((1, ref.tp), (2, ref.ta)):
        if len(L["data_used_for_finding_extrema"]) <= i or not np.allclose(
                L["data_used_for_finding_extrema"][i][0], t, atol=1e-6):
            R.bad(f"curve:data:{i}:{key}", "extrema shown are not those used")
    if dom in ("t", "f"):
        for n, v in (("eccentricity", r["eccentricity"]),
                     ("mean_anomaly", r["mean_anomaly"])):
            x, y = L[n][-1]
            if x.size != 1 or not np.isclose(x.item(), r["tref_out"] if "tref_out"
                                             in r else o.tref_out) \
                    or not np.isclose(y.item(), v):
                R.bad(f"point:{n}:{key}", "the reference point is not shown")
    options(o, ref, L, key, R, dom, m)


def options(o, ref, L, key, R, dom, m):
    """The figures on axes of the user, and with the curves they can add."""
    def data(ax):
        return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))
                for l in ax.lines]

    def same(a, b):
        return len(a) == len(b) and all(
            x.shape == u.shape and np.array_equal(x, u) and np.array_equal(y, v)
            for (x, y), (u, v) in zip(a, b))
    kw = dict(use_fancy_settings=False)
    with captured():
        for n in L:
            fig, ax = plt.subplots()
            ax.plot([0., 1.], [3., 4.])
            nfig = len(plt.get_fignums())
            back = getattr(o, "plot_" + n)(fig, ax, **kw)
            R.ev()
            R.state((key, "given", n))
            if not same(data(ax)[1:], L[n]) or back is not ax:
                R.bad(f"given:{n}:{key}",
                      f"{n} is not drawn on the axes that were given")
            if len(plt.get_fignums()) != nfig:
                R.bad(f"extra:{n}:{key}",
                      f"{n} opens another figure although axes were given")
            plt.close("all")
        for two in (False, True):
            fig, axs = o.make_diagnostic_plots(twocol=two, **kw)
            shown = [data(a) for a in axs if a.figure is fig and a in fig.axes]
            names = ["eccentricity", "mean_anomaly", "omega_gw",
                     "data_used_for_finding_extrema", "decc_dt",
                     "phase_diff_ratio_between_extrema", "omega_gw_average"]
            R.ev()
            R.state((key, "all", two))
            for n in names:
                if sum(same(x, L[n]) for x in shown) != 1:
                    R.bad(f"all:{two}:{n}:{key}",
                          f"the diagnostic figure does not show {n} once")
            if len(shown) != len(names) + (1 if m in RESIDUAL else 0):
                R.bad(f"all:{two}:number:{key}",
                      f"the diagnostic figure has {len(shown)} panels")
            plt.close("all")
        if m in RESIDUAL:
            # after excluded orbits, on the samples that are analysed
            for n, v in (("residual_amp_gw", "res_amp_gw"),
                         ("residual_omega_gw", "res_omega_gw")):
                fig, ax = getattr(o, "plot_" + n)(**kw)
                x = data(ax)
                v = np.asarray(getattr(o, v))
                R.ev()
                R.state((key, n))
                want = [(o.t, v), (ref.tp, v[ref.ip]), (ref.ta, v[ref.ia])]
                if len(x) != 3 or any(
                        a.shape != np.shape(c) or not np.allclose(a, c, atol=1e-6)
                        or not np.array_equal(b, d)
                        for (a, b), (c, d) in zip(x, want)):
                    R.bad(f"residual:{n}:{key}",
                          f"{n} does not show the residual and its extrema")
                plt.close("all")
        # the averages between the extrema, whatever was averaged before
        pts = [np.array([(.5 * (ref.t[a] + ref.t[b]),
                          (ref.phase[b] - ref.phase[a]) / (ref.t[b] - ref.t[a]))
                         for a, b in zip(ix[:-1], ix[1:])])
               for ix in (ref.ia, ref.ip)]
        for before in (None, "mean_of_extrema_interpolants",
                       "orbit_averaged_omega_gw"):
            for bare in (False, True):
                x = make(dom, m)[2]["gwecc_object"]
                if before:
                    x.get_fref_bounds(before)
                st, v = attempt(
                    x.plot_omega_gw_average, plot_omega_gw=not bare,
                    plot_orbit_averaged_omega_gw_between_extrema=True, **kw)
                R.ev()
                R.state((key, "between", before, bare))
                if st != "ok":
                    R.bad(f"between:{before}:{key}",
                          f"no figure of the orbit averages: {str(v)[:120]}")
                    continue
                g = data(v[1])
                if len(g) != (3 if bare else 4) or any(
                        a.shape != q[:, 0].shape
                        or not np.allclose(a, q[:, 0], atol=1e-6)
                        or not np.allclose(b, q[:, 1], rtol=1e-6)
                        for (a, b), q in zip(g[-2:], pts)):
                    R.bad(f"between:{before}:{bare}:{key}",
                          "the orbit averages shown are not those between "
                          "the extrema")
                plt.close("all")
