"""P16: the average-frequency curve is what its name says, and a curve that is
not monotonic is refused rather than inverted."""
import itertools

import numpy as np
from scipy.interpolate import PchipInterpolator

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="family A: analytic waveform x all windows of consecutive pericentres "
         "and apocentres (scripted) x averaging method; family B: all sequences "
         "of per-orbit period changes (shorter/equal/longer) up to the bound, "
         "giving monotonic and non-monotonic averages; family C: real "
         "methods; state = (pattern, accepted/refused, number of points)",
    assumptions=["reference: difference quotient of phase between consecutive "
                 "extrema placed at the temporal mid point, cubic spline"],
)
AV = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants",
      "omega_gw_zeroecc"]


def cases(tier):
    out = []
    for p0 in range(3):
        for n_p in range(2, 7):
            out.append(["A", p0, n_p, tier])
    n = 6 if tier == "quick" else 8
    for pre in itertools.product(range(3), repeat=3):
        out.append(["B", n, list(pre)])
    for m in METHODS:
        for e0 in (0.15, 0.4):
            for interp in ("spline", "rational_fit"):
                out.append(["C", m, e0, interp])
    return out


class Levels:
    """A waveform whose successive radial periods are prescribed."""

    def __init__(self, pattern):
        periods = [300.0]
        for s in pattern:
            periods.append(periods[-1] * (0.93, 1.0, 1.04)[s])
        for _ in range(4):              # run into the merger
            periods.append(periods[-1] * 0.8)
        tk = np.concatenate([[0], np.cumsum(periods)])
        tk = np.rint(tk)
        lk = 2 * np.pi * np.arange(len(tk))
        t = np.arange(0, tk[-1] + 60.0)
        ins = t <= tk[-1]
        l = np.empty(len(t))
        l[ins] = PchipInterpolator(tk, lk)(t[ins])
        dl = (l[ins][-1] - l[ins][-2])
        l[~ins] = l[ins][-1] + dl * (t[~ins] - tk[-1])
        mod = 0.25 * np.sin(l) * np.where(ins, 1, 0)
        self.phase = 2 * l + 2 * mod
        self.t = t - tk[-1]
        self.amp = np.where(ins, 0.5 + 0.5 * t / tk[-1], 0) \
            + np.where(~ins, np.exp(-((t - tk[-1]) / 15.) ** 2), 0)
        self.ip = tk[:-3].astype(int)
        self.ia = np.rint(0.5 * (tk[:-1] + tk[1:])).astype(int)[:-3]

    def data(self):
        return {"t": self.t.copy(),
                "hlm": {(2, 2): self.amp * np.exp(-1j * self.phase)}}


def expected(ref):
    """Reference curve and whether it is strictly increasing everywhere."""
    if ref.averaging == "orbit_averaged_omega_gw":
        mono = True
        for ix in (ref.ip, ref.ia):
            v = np.diff(ref.phase[ix]) / np.diff(ref.t[ix])
            mono &= bool(np.all(np.diff(v) > 0))
        p = ref.orbit_average_points()
        mono &= bool(np.all(np.diff(p[:, 1]) > 0))
    else:
        mono = True
    _, _, s = ref.fref_window()
    c = ref.average(s)
    return s, c, mono, mono and bool(np.all(np.diff(c) > 0))


def compare(R, tag, obj, ref, av, fresh_obj):
    s, c, mono, mono_all = expected(ref)
    st, v = attempt(obj.get_omega_gw_average, av)
    R.ev()
    if mono or av != "orbit_averaged_omega_gw":
        if st == "err":
            R.bad(tag, f"average refused: {str(v)[:150]}")
            return
        t, a = v
        if not (same(t, s, atol=1e-9) and same(a, c, rtol=1e-9)):
            R.bad(tag, "average frequency differs from its definition "
                  f"(max {np.max(np.abs(a - c)) if len(a) == len(c) else 'n/a'},"
                  f" {len(t)} vs {len(s)} points)")
    elif st == "ok":
        R.bad(tag, "orbit averages decrease but the average frequency was "
              "built from them")
    # a frequency request is refused exactly when the curve is not monotonic
    if len(c) < 4:
        return
    f = (0.4 * c.min() + 0.6 * c.max()) / 2 / np.pi
    o2 = fresh_obj(f)
    st, v = attempt(o2.measure_ecc)
    R.ev()
    R.state((tag, mono, mono_all, st))
    if mono_all and st == "err":
        R.bad(tag + ":f", f"monotonic average refused: {str(v)[:200]}")
    if not mono_all and st == "ok":
        R.bad(tag + ":f", "non-monotonic average frequency was inverted")


def check(case, R):
    if case[0] == "A":
        _, p0, n_p, tier = case
        cls = scripted()
        for wk in ([dict(e0=0.15, l0=0.5, n_orb=11)] if tier == "quick" else
                   [dict(e0=0.15, l0=0.5, n_orb=11), dict(e0=0.4, l0=4, n_orb=11),
                    dict(e0=0.05, l0=2.2, n_orb=11, t0=0.0)]):
            w = wave(**wk)
            z = wave(e0=0.0, l0=0.0, n_orb=16)
            P, A = w.extrema()
            for a0 in range(3):
                for n_a in range(2, 7):
                    P_, A_ = P[p0:p0 + n_p], A[a0:a0 + n_a]
                    if len(P_) < n_p or len(A_) < n_a or \
                            max(P_[0], A_[0]) >= min(P_[-1], A_[-1]):
                        continue
                    for av in AV:
                        d = w.data()
                        if av == "omega_gw_zeroecc":
                            d["t_zeroecc"] = z.t.copy()
                            d["hlm_zeroecc"] = z.hlm

                        def mk(f=None, av=av, P_=P_, A_=A_, d=d):
                            kw = dict(tref_in=w.t) if f is None else \
                                dict(fref_in=f)
                            o = cls(fresh(d), extra_kwargs=spline_kw(
                                omega_gw_averaging_method=av), **kw)
                            o.script = {"pericenters": P_, "apocenters": A_}
                            return o
                        obj = mk()
                        st, r = attempt(obj.measure_ecc)
                        tag = f"A:{wk}:P{p0}+{n_p}:A{a0}+{n_a}:{av}"
                        R.state((tag, st))
                        R.trans()
                        if st == "err":
                            continue
                        ref = ref_from(obj, w, averaging=av)
                        if av == "omega_gw_zeroecc":
                            if not hasattr(obj, "t_zeroecc_shifted"):
                                # curve only defined once the counterpart has
                                # been processed, i.e. via the full call
                                continue
                            ref.average = zero_average(w, z)[0]
                        compare(R, tag, obj, ref, av, mk)
    elif case[0] == "B":
        _, n, pre = case
        cls = scripted()
        for rest in itertools.product(range(3), repeat=n - 3):
            pat = tuple(pre) + rest
            if n > 6 and sum(1 for a, b in zip(pat, pat[1:]) if a != b) > 3:
                continue
            L = Levels(pat)

            def mk(f=None, av="orbit_averaged_omega_gw", L=L):
                kw = dict(tref_in=L.t) if f is None else dict(fref_in=f)
                o = cls(L.data(), extra_kwargs=spline_kw(
                    omega_gw_averaging_method=av), **kw)
                o.script = {"pericenters": L.ip, "apocenters": L.ia}
                return o
            obj = mk()
            st, r = attempt(obj.measure_ecc)
            tag = f"B:{pat}"
            R.trans()
            R.state((tag, st))
            if st == "err":
                R.bad(tag, f"time request failed: {str(r)[:150]}")
                continue
            for av in AV[:2]:
                ref = ref_from(obj, L, averaging=av)
                compare(R, tag + ":" + av, obj, ref, av,
                        lambda f, av=av: mk(f, av))
    else:
        _, m, e0, interp = case
        w = wave(e0=e0, l0=1.3, n_orb=10)
        z = wave(e0=0.0, l0=0.0, n_orb=16)
        ek = {"omega_gw_extrema_interpolation_method": interp}
        r = run(tref_in=w.t, method=m, dataDict=data_for(w, m, zero=True),
                extra_kwargs=ek)
        o = r["gwecc_object"]
        R.ev()
        R.trans()
        for av in ("orbit_averaged_omega_gw",) if interp != "spline" else AV:
            if av == "omega_gw_zeroecc" and not hasattr(o, "t_zeroecc_shifted"):
                continue
            ref = ref_from(o, w, averaging=av)
            if av == "omega_gw_zeroecc":
                ref.average = zero_average(w, z)[0]
            s, c, mono, _ = expected(ref)
            t, a = o.get_omega_gw_average(av)
            R.state((m, e0, interp, av, len(t)))
            if not (same(t, s, atol=1e-9) and same(a, c, rtol=1e-9)):
                R.bad(f"C:{m}:{e0}:{interp}:{av}", "average frequency differs "
                      "from its definition")
        if set(o.get_available_omega_gw_averaging_methods()) != set(AV):
            R.bad("C:names", "averaging methods offered: "
                  f"{list(o.get_available_omega_gw_averaging_methods())}")
