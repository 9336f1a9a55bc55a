"""P25: frame and representation independence of precessing measurements.

Coprecessing l=2 modes with known content are taken to an inertial frame by every
rotation of a grid (constant orientations x precession motions: simple, nutating,
through the equator), written in every accepted representation and measured with
every method; the results must be those of the coprecessing modes themselves.
The Wigner matrices are built here from the l=2 angular momentum matrices.
"""
import itertools

import numpy as np

from gw_eccentricity.load_data import get_coprecessing_data_dict
from mc.common import (METHODS, RESIDUAL, angdiff, attempt, ell2_modes, rot2,
                       rotate_modes, run, same, snapshot, spline_kw, wave)

META = dict(
    level="exploration", limit=200, chunk=4,
    rule="distinct = (rotation, modes, representation, method, request,"
         " outcome). Full grid of constant rotations and precession motions.",
    assumptions=["the orbital angular momentum starts in the upper half space of"
                 " the inertial frame (otherwise the phase convention is violated"
                 " and the package refuses)", "l=2 modes"])
ALPHA = [0.0, 2.1, -1.3]
BETA = [0.0, 0.4, 0.9, 1.3, 1.5]
GAMMA = [0.0, 1.3, 4.0]
MOTION = ["fixed", "slow", "fast", "nutating", "equator", "tumble"]
REPR = ["hlm", "amp_phase", "hlm+omega", "hlm+extra"]
CONTENT = [(0.0, 0.0), (0.1, 0.0), (0.0, 0.03), (0.0, 0.3)]   # h21, asymmetry


def cases(tier):
    th = tier == "thorough"
    out = []
    for m in METHODS:
        for c in range(len(CONTENT)):
            out.append(dict(k="limit", m=m, c=c, r="hlm", i=0))
    for r in REPR[1:]:
        for f in ("coprecessing", "inertial"):
            out.append(dict(k="repr", m="Amplitude", c=1, r=r, f=f))
            out.append(dict(k="repr", m="ResidualFrequency", c=2, r=r, f=f))
    for a, b, g in itertools.product(ALPHA, BETA, GAMMA):
        for c in range(len(CONTENT)) if th else (1, 3):
            out.append(dict(k="rot", m="Amplitude", c=c, mo="fixed", r="hlm",
                            ang=[a, b, g], i=1))
    for mo in MOTION[1:]:
        for a, b, g in itertools.product(ALPHA[:2], BETA[:4], GAMMA[:2]):
            out.append(dict(k="rot", m="Amplitude", c=2, mo=mo, r="hlm",
                            ang=[a, b, g], i=0))
    for m in METHODS:
        for mo in ("fixed", "slow", "nutating"):
            for r in REPR:
                for i in (0, 1):
                    if not th and i and r != "hlm":
                        continue
                    out.append(dict(k="rot", m=m, c=1, mo=mo, r=r,
                                    ang=[2.1, 0.4, 1.3], i=i))
    for m in (-2, -1, 0, 1, 2):
        for f in ("inertial", "coprecessing"):
            for r in ("hlm", "amp_phase"):
                out.append(dict(k="missing", mode=m, f=f, r=r))
    for m in METHODS[:3]:                  # any way of saying yes or no
        for fl in range(4):
            for f in ("inertial", "coprecessing"):
                out.append(dict(k="flag", m=m, fl=fl, f=f))
    for f in ("Inertial", "corotating", "", None):
        out.append(dict(k="frame", f=f))
    return out


def modes(c, z=False):
    h21, asym = CONTENT[c]
    w = wave(n_orb=14, e0=0.0, l0=0.0, dt=1.5) if z else \
        wave(n_orb=9, dt=1.5, e0=.05 if asym > .1 else .2)
    return w, ell2_modes(w, asym=0 if z else asym, h21=h21)


def motion(mo, ang, w):
    a, b, g = ang
    x = w.l / (2 * np.pi)
    one = np.ones_like(x)
    if mo == "fixed":
        return rot2(a, b, g)
    if mo == "slow":
        al, be = a + .25 * x, b * one
    elif mo == "fast":
        al, be = a + 1.1 * x, .4 * b * one
    elif mo == "nutating":
        al, be = a + .4 * x, .8 * b + .1 * np.cos(1.9 * x)
    elif mo == "equator":                    # sinks below the equator
        al, be = a + .1 * x, b + .2 * np.maximum(x - 2, 0)
    else:                                    # passes through the pole
        al, be = a * one, b - .25 * x
    # minimal rotation: gamma' = -alpha' cos(beta)
    da = np.gradient(al)
    f = da * np.cos(be)
    ga = g - np.concatenate([[0], np.cumsum(.5 * (f[1:] + f[:-1]))])
    return rot2(al, be, ga)


def represent(t, hlm, r, tag=""):
    d = {"t" + tag: t.copy()}
    if r.startswith("hlm"):
        d["hlm" + tag] = {k: v.copy() for k, v in hlm.items()}
        if r == "hlm+omega":
            d["omegalm" + tag] = {k: np.gradient(-np.unwrap(np.angle(v)), t)
                                  for k, v in hlm.items()}
        if r == "hlm+extra" and not tag:
            d["note"] = "anything"
    else:
        d["amplm" + tag] = {k: np.abs(v) for k, v in hlm.items()}
        d["phaselm" + tag] = {k: -np.unwrap(np.angle(v))
                              for k, v in hlm.items()}
    return d


def request(w, m, i):
    if i == 0:
        return {"tref_in": np.linspace(w.t[0] + 700, w.t[0] + 2100, 7)}
    return {"fref_in": np.array([.0066, .0071, .0078])}


def measure(w, d, m, i, prec, frame, **kw):
    k = spline_kw()
    k.update(kw)
    return attempt(run, dataDict=d, method=m, precessing=prec, frame=frame,
                   extra_kwargs=k, **request(w, m, i))


def outcome(s, v):
    if s == "err":
        return ("err", type(v).__name__)
    return ("ok", [np.asarray(v[k], float) for k in
                   ("tref_out" if "tref_out" in v else "fref_out",
                    "eccentricity", "mean_anomaly")])


def agree(a, b, tol=1e-6):
    if a[0] != b[0]:
        return False
    if a[0] == "err":
        return True
    return (same(a[1][0], b[1][0], rtol=1e-12)
            and same(a[1][1], b[1][1], atol=tol)
            and a[1][2].shape == b[1][2].shape
            and np.all(angdiff(a[1][2], b[1][2]) < 10 * tol))


def show(o):
    return o[1] if o[0] == "err" else \
        f"e={np.round(o[1][1], 6).tolist()} l={np.round(o[1][2], 5).tolist()}"


_base = {}


def base(c, m, i):
    """Outcome for the coprecessing modes themselves, from (2,+-2) averages put
    together here: 0.5(|h22|+|h2-2|), 0.5(phase22-phase2-2), nonprecessing."""
    key = (c, m, i)
    if key not in _base:
        w, co = modes(c)
        d = represent(w.t, co, "hlm")
        if m in RESIDUAL:
            z, zc = modes(c, True)
            d.update(represent(z.t, zc, "hlm", "_zeroecc"))
        _base[key] = outcome(*measure(w, d, m, i, True, "coprecessing"))
    return _base[key]


def aligned(c, m, i):
    """The same physics as a non-precessing measurement of one combined mode
    (no spin filter can act: do_not_filter)."""
    w, co = modes(c)
    d = {"t": w.t.copy()}

    def comb(h):
        a = .5 * (np.abs(h[(2, 2)]) + np.abs(h[(2, -2)]))
        p = .5 * (-np.unwrap(np.angle(h[(2, 2)]))
                  + np.unwrap(np.angle(h[(2, -2)])))
        return a, p
    a, p = comb(co)
    d["amplm"], d["phaselm"] = {(2, 2): a}, {(2, 2): p}
    if m in RESIDUAL:
        z, zc = modes(c, True)
        a, p = comb(zc)
        d["t_zeroecc"] = z.t.copy()
        d["amplm_zeroecc"], d["phaselm_zeroecc"] = {(2, 2): a}, {(2, 2): p}
    s1 = outcome(*measure(w, d, m, i, False, "inertial"))
    d2 = represent(w.t, {k: v for k, v in co.items() if abs(k[1]) == 2}, "hlm")
    if m in RESIDUAL:
        d2.update(represent(z.t, {k: v for k, v in zc.items()
                                  if abs(k[1]) == 2}, "hlm", "_zeroecc"))
    s2 = outcome(*measure(w, d2, m, i, True, "coprecessing",
                          filter_kwargs={"do_not_filter": True}))
    return s1, s2


FLAG = [(np.bool_(True), True), (1, True), (np.bool_(False), False), (0, False)]


def flag(case, R):
    val, prec = FLAG[case["fl"]]
    w, co = modes(1)
    D = rot2(2.1, .4, 1.3) if case["f"] == "inertial" else np.eye(5)[None]
    if case["f"] == "inertial":
        co = rotate_modes(co, D)
    d = represent(w.t, co, "hlm")
    if case["m"] in RESIDUAL:
        z, zc = modes(1, True)
        if case["f"] == "inertial":
            zc = rotate_modes(zc, D)
        d.update(represent(z.t, zc, "hlm", "_zeroecc"))
    a, b = (outcome(*measure(w, d, case["m"], 0, v, case["f"]))
            for v in (prec, val))
    R.ev(2)
    R.state((str(case), a[0], b[0]))
    if not agree(a, b, 1e-12):
        R.bad(f"flag:{case}", f"precessing={val!r}: {show(b)}; "
              f"precessing={prec}: {show(a)}")


def all_modes(R, key, t, hlm, true):
    """Every l=2 mode is brought to the coprecessing frame: there its
    amplitude is the known one."""
    s, v = attempt(get_coprecessing_data_dict, dict(t=t, hlm=hlm))
    R.ev()
    if s != "ok":
        return R.bad(key + ":modes", f"{v!r}")
    top = max(np.abs(x).max() for x in true.values())
    for m in range(-2, 3):
        a, b = (np.abs(x.get((2, m), 0 * t)) for x in (v["hlm"], true))
        if np.abs(a - b).max() > 1e-6 * top:
            return R.bad(key + ":modes", f"|h(2,{m})| differs by "
                         f"{np.abs(a - b).max() / top:.2g} of the signal")
    # and so are the phases, but for a rotation about the orbital axis
    for c in ((2, -2), (1, -1), (2, -1, -1), (-2, 1, 1)):
        a, b = (np.prod([x.get((2, m), 0 * t) for m in c], axis=0)
                for x in (v["hlm"], true))
        if np.abs(a - b).max() > 1e-6 * top ** len(c):
            return R.bad(key + ":modes", f"the product of the modes {c} differs")


def check(case, R):
    k = case["k"]
    if k == "flag":
        return flag(case, R)
    if k == "limit":
        s1, s2 = aligned(case["c"], case["m"], case["i"])
        R.ev(2)
        R.state((k, case["m"], case["c"], s1[0]))
        key = f"limit:{case['m']}:{case['c']}"
        if s1[0] != "ok":
            R.bad(key, f"nonprecessing measurement failed: {s1}")
        # peak times use all modes in one and one mode in the other: identical
        # maxima, since all amplitudes are proportional near the merger
        elif not agree(s1, s2, 1e-6 if CONTENT[case["c"]][1] == 0 else 2e-3):
            R.bad(key, f"combined (2,+-2) measured as nonprecessing {show(s1)}, "
                       f"as precessing {show(s2)}")
        return
    if k == "missing":
        w, co = modes(1)
        co.pop((2, case["mode"]))
        d = represent(w.t, co, case["r"])
        snap = snapshot(d)
        s, v = measure(w, d, "Amplitude", 0, True, case["f"])
        R.ev()
        need = case["f"] == "inertial" or abs(case["mode"]) == 2
        R.state((k, case["mode"], case["f"], case["r"], s))
        key = f"missing:{case['f']}:{case['mode']}:{case['r']}"
        if need and s == "ok":
            R.bad(key, f"measured without the (2, {case['mode']}) mode")
        elif not need and not agree(outcome(s, v), base(1, "Amplitude", 0)):
            R.bad(key, f"(2, {case['mode']}) is not needed, but: "
                       f"{show(outcome(s, v))}")
        if snapshot(d) != snap:
            R.bad(key + ":mutated", "the caller's data changed")
        return
    if k == "frame":
        w, co = modes(1)
        s, v = measure(w, represent(w.t, co, "hlm"), "Amplitude", 0, True,
                       case["f"])
        R.ev()
        R.state((k, case["f"], s))
        if s == "ok":
            R.bad(f"frame:{case['f']}", "unknown frame accepted")
        return
    w, co = modes(case["c"])
    m = case["m"]
    zd = None
    if m in RESIDUAL:
        z, zc = modes(case["c"], True)
    if k == "repr":
        i, f, r = 0, case["f"], case["r"]
        key = f"repr:{m}:{r}:{f}"
    else:
        i, f, r = case["i"], "inertial", case["r"]
        key = f"{case['mo']}:{m}:{case['c']}:{r}:{case['ang']}:{i}"
        true = co
        co = rotate_modes(co, motion(case["mo"], case["ang"], w))
        if r == "hlm":
            all_modes(R, key, w.t, co, true)
        if m in RESIDUAL:
            # the circular counterpart lives in its own frame
            a, b, g = case["ang"]
            mz = {"slow": "nutating"}.get(case["mo"], case["mo"])
            zc = rotate_modes(zc, motion(mz, [g, .7 * b, a], z))
    d = represent(w.t, co, r)
    if m in RESIDUAL:
        d.update(represent(z.t, zc, r, "_zeroecc"))
    snap = snapshot(d)
    s, v = measure(w, d, m, i, True, f)
    R.ev()
    o, b = outcome(s, v), base(case["c"], m, i)
    R.state((key, o[0]))
    if b[0] != "ok":
        R.bad(key, f"coprecessing modes not measured: {b}")
    # given omega in the coprecessing frame replaces the derived one (second
    # order differences): compare loosely there
    elif not agree(o, b, 2e-2 if r == "hlm+omega" and f == "coprecessing"
                   else 1e-6):
        R.bad(key, f"{show(o) if s == 'ok' else v}; coprecessing {show(b)}")
    if snapshot(d) != snap:
        R.bad(key + ":mutated", "the caller's data changed")
    if s == "ok" and v["gwecc_object"].frame != "coprecessing":
        R.bad(key + ":frame", f"frame reported as {v['gwecc_object'].frame}")
