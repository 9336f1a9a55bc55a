"""P30: the measured object answers later queries, whatever was asked before.

The object returned with a measurement is explored as a transition system: its
state is everything stored in it, its transitions are the public evaluation
calls (scalars, arrays, end points, outside the range, frequency bounds of each
average, a repeated measurement). Starting from a fresh measurement all
reachable states are visited; in each of them every call has to give the value
of the reference model, or the refusal, that it gives in the first state.
"""
import copy
import hashlib

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline

from mc.common import *          # noqa

META = dict(
    level="exploration", limit=600, chunk=1,
    rule="state = everything stored in the object (arrays bit for bit, spline "
         "coefficients), explored breadth first over all calls until no new "
         "state appears or the bound is reached; configuration = method x "
         "kind of reference x interpolation x average x segment x precession",
    assumptions=["the average used for frequency bounds is the first one asked "
                 "for, as documented, until it is reset"],
)
AVS = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants",
       "omega_gw_zeroecc"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in METHODS:
        for dom in ("t", "tv", "f", "fv"):
            for av in AVS[:3 if m in RESIDUAL else 2]:
                for x in ("spline", "rational", "seg", "prec", "linear"):
                    slow = "Fits" in m
                    plain = (dom, av, x)
                    if not th:
                        if slow and plain not in (
                                ("t", AVS[0], "spline"),
                                ("fv", AVS[1], "spline")):
                            continue
                        if x in ("seg", "prec", "linear") and (
                                dom not in ("t", "fv") or m in METHODS[1:2]):
                            continue
                        if av != AVS[0] and dom in ("f", "tv"):
                            continue
                    if x == "prec" and slow:
                        continue
                    out.append([m, dom, av, x, 4000 if th else 220])
    return out


def measure(m, dom, av, x):
    w = wave(e0=.25, l0=1.0, n_orb=9 if x != "seg" else 14, dt=2.0)
    d = w.data()
    z = wave(e0=0.0, l0=0.0, n_orb=20, dt=2.0)
    kw = {"omega_gw_averaging_method": av}
    req = {}
    if x != "rational":
        kw["omega_gw_extrema_interpolation_method"] = "spline"
    if x == "seg":
        kw["use_only_these_many_orbits"] = 6
    if x == "linear":
        kw["general_interp_kwargs"] = {"k": 1}
    if x == "prec":
        req.update(precessing=True, frame="coprecessing")
        d["hlm"][2, -2] = np.conj(d["hlm"][2, 2])
    if m in RESIDUAL:
        d["t_zeroecc"], d["hlm_zeroecc"] = z.t.copy(), dict(z.hlm)
        if x == "prec":
            d["hlm_zeroecc"][2, -2] = np.conj(z.hlm[2, 2])
    i = w.n_insp // 2
    f = (w.phase[i + 200] - w.phase[i - 200]) / (w.t[i + 200] - w.t[i - 200]) \
        / 2 / np.pi
    if av == AVS[2]:
        spl, tz = zero_average(w, z)
        f = spl(w.t[i]) / 2 / np.pi
    req.update({"t": dict(tref_in=w.t[i]), "f": dict(fref_in=f),
                "tv": dict(tref_in=w.t[[i, i - 150, i + 50]]),
                "fv": dict(fref_in=f * np.array([1.02, .99]))}[dom])
    r = run(method=m, dataDict=d, extra_kwargs=kw, **req)
    return r, (quad_peak(z.t, z.amp), z)


def freeze(v):
    if isinstance(v, np.ndarray):
        return ("a", v.shape, str(v.dtype),
                hashlib.sha1(np.ascontiguousarray(v)).hexdigest())
    if isinstance(v, dict):
        return ("d", tuple((repr(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, (int, float, str, bool, type(None), np.generic)):
        return (type(v).__name__, repr(v))
    if hasattr(v, "_eval_args"):
        return ("spline", freeze([np.asarray(x) for x in v._eval_args]))
    return type(v).__name__


def state(o):
    return hashlib.sha1(repr(sorted(
        (k, freeze(v)) for k, v in vars(o).items())).encode()).hexdigest()


class Model:
    """What every call has to return; built from the first state only."""

    def __init__(self, o, r, default, z, x):
        self.o, self.default, self.x = o, default, x
        tp, ta = extrema_times(o)
        self.ref = ref = Ref(o.t, o.phase_gw, tp, ta, omega=np.array(o.omega_gw))
        if x == "rational":
            wp, wa = (copy.deepcopy(o.omega_gw_pericenters_interp),
                      copy.deepcopy(o.omega_gw_apocenters_interp))
            ref.wp, ref.wa = wp, wa
        if x == "linear":
            ref._spl = lambda a, b: InterpolatedUnivariateSpline(a, b, k=1)
        self.dt = dt = ref.t[1] - ref.t[0]
        self.inner = np.linspace(ref.tmin, ref.tmax, 7)
        self.far = (ref.tmin - dt, ref.tmax + dt)
        tz, zz = z
        self.zt = zz.t - tz + o.t_merger
        self.zw = deriv4(zz.phase, zz.t[1] - zz.t[0])
        self.first = {k: np.asarray(v).copy() for k, v in r.items()
                      if k != "gwecc_object"}
        s = ref.t[(ref.t >= ref.tmin) & (ref.t <= ref.tmax)]
        self.curve = InterpolatedUnivariateSpline(
            s, ref.ecc(s), k=1 if x == "linear" else 3)
        self.zero = "t_zeroecc_shifted" in vars(o)

    def average(self, m):
        ref = copy.copy(self.ref)
        ref.averaging = m
        _, _, s = ref.fref_window()
        if m == AVS[2]:
            k = 1 if self.x == "linear" else 3
            return s, InterpolatedUnivariateSpline(self.zt, self.zw, k=k)(s)
        return s, ref.average(s)


def calls(M):
    """name -> (call, expected(cache), tolerance, new cache or None)"""
    ref, inner, dt = M.ref, M.inner, M.dt
    mid, arr = inner[3], inner
    lo, hi = M.far
    peri = ref.tp[(ref.tp >= ref.tmin) & (ref.tp <= ref.tmax)]
    out = {}

    def add(name, fn, exp, atol=0., rtol=1e-9, ang=False, cache=None):
        out[name] = (fn, exp, atol, rtol, ang, cache)
    for name, t in (("mid", mid), ("arr", arr), ("ends", arr[[-1, 0]]),
                    ("many", arr[(5 * np.arange(2003)) % 7])):
        add(f"ecc {name}", lambda o, t=t: o.compute_eccentricity(t),
            lambda c, t=t: ref.ecc(t), atol=1e-7)
        add(f"ano {name}", lambda o, t=t: o.compute_mean_anomaly(t),
            lambda c, t=t: ref.mean_ano(t) if np.ndim(t)
            else ref.mean_ano(t)[0], atol=1e-7, ang=True)
        for n in () if name == "many" else (1, 2) if M.x != "linear" else (1,):
            add(f"d{n} {name}",
                lambda o, t=t, n=n: o.derivative_of_eccentricity(t, n=n),
                lambda c, t=t, n=n: M.curve.derivative(n)(t),
                atol=(3e-7 if n == 1 else 3e-6) * 1e-2, rtol=1e-3)
    # exactly as many times as the signal has in the allowed range, but others
    n_in = np.count_nonzero((ref.t >= ref.tmin) & (ref.t <= ref.tmax))
    same = (ref.tmin + .6 * (ref.tmax - ref.tmin)
            * np.linspace(0, 1, n_in) ** 2)
    add("d1 same", lambda o: o.derivative_of_eccentricity(same, n=1),
        lambda c: M.curve.derivative(1)(same), atol=3e-9, rtol=1e-3)
    add("ecc same", lambda o: o.compute_eccentricity(same),
        lambda c: ref.ecc(same), atol=1e-7)
    add("ano peri", lambda o: o.compute_mean_anomaly(peri),
        lambda c: 0 * peri, atol=1e-9, ang=True)
    for name, t in (("low", lo), ("high", hi), ("amid", np.array([mid, hi, mid])),
                    ("among", np.array([mid, lo, inner[2]]))):
        for q in ("compute_eccentricity", "compute_mean_anomaly",
                  "derivative_of_eccentricity"):
            add(f"{q} {name}", lambda o, t=t, q=q: getattr(o, q)(t), None)
    avs = AVS[:3 if M.zero else 2]
    for a in [None] + avs:
        def bounds(c, a=a):
            s, v = M.average(c or a or M.default)
            return [v.min() / 2 / np.pi, v.max() / 2 / np.pi]
        add(f"bounds {a}", lambda o, a=a: o.get_fref_bounds(a)
            if a else o.get_fref_bounds(), bounds, rtol=2e-7,
            cache=lambda c, a=a: c or a or M.default)
        add(f"average {a}", lambda o, a=a: o.get_omega_gw_average(a)
            if a else o.get_omega_gw_average(),
            lambda c, a=a: M.average(a or M.default), rtol=2e-7)
    s0 = M.average(AVS[0])
    sub = slice(None, None, max(1, len(s0[0]) // 9))
    add("orbit", lambda o: o.compute_orbit_averaged_omega_gw_between_extrema(
        s0[0][sub]), lambda c: s0[1][sub], rtol=2e-7)
    s1 = M.average(AVS[1])
    add("mean", lambda o: o.compute_mean_of_extrema_interpolants(s1[0][sub]),
        lambda c: s1[1][sub], rtol=2e-7)
    if M.zero:
        s2 = M.average(AVS[2])
        add("zero", lambda o: o.compute_omega_gw_zeroecc(s2[0][sub]),
            lambda c: s2[1][sub], rtol=2e-7)

    def reset(o):
        o.t_for_omega_gw_average = o.omega_gw_average = None
        return 0
    add("reset", reset, lambda c: 0, cache=lambda c: None)
    return out


def close(a, b, atol, rtol, ang):
    if isinstance(b, (list, tuple)):
        return (len(a) == len(b)
                and all(close(x, y, atol, rtol, ang) for x, y in zip(a, b)))
    if np.shape(a) != np.shape(b):
        return False
    if ang:
        return (np.all(angdiff(a, b) <= atol) and np.all(np.asarray(a) >= 0)
                and np.all(np.asarray(a) < 2 * np.pi))
    scale = rtol * np.max(np.abs(b)) if np.size(b) else 0
    return bool(np.all(np.abs(np.asarray(a) - b) <= atol + scale))


def check(case, R):
    m, dom, av, x, limit = case
    key = f"{m}:{dom}:{av}:{x}"
    r, z = measure(m, dom, av, x)
    R.ev()
    o = r["gwecc_object"]
    M = Model(copy.deepcopy(o), r, av, z, x)
    ops = calls(M)
    cache0 = None if dom[0] == "t" else av
    seen = {(state(o), cache0): ()}
    front = [(o, cache0, ())]
    said = set()
    while front and len(seen) < limit:
        nxt = []
        for obj, cache, path in front:
            if len(seen) >= limit:
                break
            for name, (fn, exp, atol, rtol, ang, new) in ops.items():
                q = copy.deepcopy(obj)
                with captured():
                    s, v = attempt(fn, q)
                R.ev()
                R.trans()
                want = exp(cache) if exp else None
                if name in said:
                    pass
                elif exp is None and s == "ok":
                    said.add(name)
                    R.bad(f"{key}:{name}", f"{name} answered with {v} after "
                                           f"{path}")
                elif exp is None and "outside" not in str(v):
                    said.add(name)
                    R.bad(f"{key}:{name}", f"{name} refused with {v}")
                elif exp and (s != "ok"
                              or not close(v, want, atol, rtol, ang)):
                    said.add(name)
                    R.bad(f"{key}:{name}", f"{name} gives {s} {str(v)[:110]} "
                          f"instead of {str(want)[:110]} after {path}")
                c2 = new(cache) if new and s == "ok" else cache
                st = (state(q), c2)
                if st not in seen:
                    seen[st] = path + (name,)
                    nxt.append((q, c2, path + (name,)))
        front = nxt
    for st in seen:
        R.state((key,) + st)
    # the results handed out do not change with later queries
    for k, v in r.items():
        if k != "gwecc_object" and not np.array_equal(v, M.first[k]):
            R.bad(f"{key}:result", f"{k} changed by later queries")
