"""P08: caller's objects are never modified; call histories do not matter.
All histories of calls sharing the same data / option objects, to a depth."""
import itertools
import os
import random
import sys
import warnings

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="model_checking",
    rule="state = (bit-exact snapshot of every shared object, outcome of the "
         "last call); a case is one world (data encoding, frame, write "
         "protection, options) and all call histories in it that begin with "
         "one given call, up to the depth; every history ends with a "
         "comparison of the last outcome with the same call made alone on "
         "fresh objects, and of earlier results re-read afterwards",
    assumptions=["identical input must give bit-identical output on one "
                 "machine (checked by repeating the fresh call)"],
)

ENC = ["hlm", "ampphase", "ampphaseomega", "hlmomega"]

# name -> (method, kwargs builder index)
CALLS = ["Amp-t", "Freq-f", "ResAmp-t", "AmpFits-t", "FreqFits-f", "segment",
         "outofrange", "badkw", "noexclude", "ResFreq-qc-f", "rational",
         "silent"]
# which calls depend on the (cheap) pairs only
WORLD_OPTS = ["none", "shared", "nested"]


def options(kind):
    if kind == "none":
        return None
    if kind == "shared":
        return {"omega_gw_extrema_interpolation_method": "spline"}
    return {"omega_gw_extrema_interpolation_method": "spline",
            "extrema_finding_kwargs": {"plateau_size": None},
            "general_interp_kwargs": {"k": 3},
            "special_interp_kwargs_for_omega_gw_extrema": {"k": 3},
            "kwargs_for_fits_methods": {"num_orbits": 3}}


def world(enc, frame, opts, zero_enc):
    w = wave(e0=.22, l0=1.1, n_orb=12)
    z = wave(e0=0.0, l0=0.0, n_orb=15)
    d = {"t": w.t.copy()}
    for tag, x, en in (("", w, enc), ("_zeroecc", z, zero_enc)):
        d["t" + tag] = x.t.copy()
        if frame == "none":
            modes = {(2, 2): x.hlm[(2, 2)].copy()}
            ph = {(2, 2): x.phase.copy()}
        else:
            modes = ell2_modes(x, h21=.02)
            if frame == "inertial":
                modes = rotate_modes(modes, rot2(.3, .4, -.2))
            ph = {k: -np.unwrap(np.angle(v)) for k, v in modes.items()}
        am = {k: np.abs(v) for k, v in modes.items()}
        if en.startswith("hlm"):
            d["hlm" + tag] = modes
        else:
            d["amplm" + tag], d["phaselm" + tag] = am, ph
        if en.endswith("omega"):
            d["omegalm" + tag] = {k: deriv4(p, x.t[1] - x.t[0])
                                  for k, p in ph.items()}
    n = len(w.t)
    shared = {"data": d, "kw": options(opts),
              "tref": w.t[[int(n * .3), int(n * .45)]].copy(),
              "fref": np.array([.0085, .0100]), "frame": frame}
    return shared


def protect(x):
    if isinstance(x, np.ndarray):
        x.flags.writeable = False
    elif isinstance(x, dict):
        for v in x.values():
            protect(v)
    return x


def call(name, s):
    """Perform the named call on the shared objects."""
    kw = s["kw"]
    a = dict(dataDict=s["data"], extra_kwargs=kw)
    if s["frame"] != "none":
        a.update(precessing=True, frame=s["frame"])
    if name == "Amp-t":
        a.update(method="Amplitude", tref_in=s["tref"])
    elif name == "Freq-f":
        a.update(method="Frequency", fref_in=s["fref"])
    elif name == "ResAmp-t":
        a.update(method="ResidualAmplitude", tref_in=s["tref"])
    elif name == "AmpFits-t":
        a.update(method="AmplitudeFits", tref_in=s["tref"])
    elif name == "FreqFits-f":
        a.update(method="FrequencyFits", fref_in=s["fref"])
    elif name == "segment":
        if "seg" not in s:
            s["seg"] = dict(kw or {}, use_only_these_many_orbits=7)
        a.update(method="Amplitude", tref_in=s["tref"], extra_kwargs=s["seg"])
    elif name == "outofrange":
        a.update(method="FrequencyFits", tref_in=float(s["data"]["t"][0]))
    elif name == "badkw":
        if "bad" not in s:
            s["bad"] = dict(kw or {}, no_such_option=1)
        a.update(method="Frequency", tref_in=s["tref"], extra_kwargs=s["bad"])
    elif name == "noexclude":
        a.update(method="ResidualAmplitude", tref_in=float(s["tref"][0]),
                 num_orbits_to_exclude_before_merger=None)
    elif name == "ResFreq-qc-f":
        if "qc" not in s:
            s["qc"] = dict(kw or {},
                           omega_gw_averaging_method="omega_gw_zeroecc")
        a.update(method="ResidualFrequency", fref_in=s["fref"],
                 extra_kwargs=s["qc"])
    elif name == "rational":
        if "rat" not in s:
            s["rat"] = dict(kw or {})
            s["rat"]["omega_gw_extrema_interpolation_method"] = "rational_fit"
            s["rat"]["special_interp_kwargs_for_omega_gw_extrema"] = {
                "tol": 1e-07}
        a.update(method="Amplitude", fref_in=s["fref"], extra_kwargs=s["rat"])
    elif name == "silent":
        a.update(method="Frequency", tref_in=s["tref"], debug_level=-1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warnings.filterwarnings("default", "a filter of the caller")
        before = process_state()
        out = attempt_here(measure_eccentricity, a)
        after = process_state()
    for k in before:
        if before[k] != after[k]:
            LEAKS.append(f"{name} changed the process's {k}: "
                         f"{str(before[k])[:80]} -> {str(after[k])[:80]}")
    return out


LEAKS = []


def attempt_here(f, a):
    try:
        return "ok", f(**a)
    except Exception as e:
        return "err", e


def process_state():
    """Settings of the process that other calls and the caller depend on."""
    mpl = sys.modules.get("matplotlib")
    return {"warning filters": [(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4])
                                for f in warnings.filters],
            "floating point error handling": np.geterr(),
            "print options": str(np.get_printoptions()),
            "random numbers (numpy)": hash(np.random.get_state()[1].tobytes()),
            "random numbers": hash(random.getstate()),
            "working directory": (os.getcwd(), sorted(os.listdir("."))),
            "environment": dict(os.environ),
            "plot settings": None if mpl is None else str(dict(mpl.rcParams))}


def prime(s):
    for n in ("segment", "badkw", "ResFreq-qc-f", "rational"):
        call(n, dict(s, data={}))
    s.setdefault("seg", dict(s["kw"] or {}, use_only_these_many_orbits=7))
    s.setdefault("bad", dict(s["kw"] or {}, no_such_option=1))
    s.setdefault("qc", dict(s["kw"] or {},
                            omega_gw_averaging_method="omega_gw_zeroecc"))
    s.setdefault("rat", dict(s["kw"] or {},
                             omega_gw_extrema_interpolation_method="rational_fit",
                             special_interp_kwargs_for_omega_gw_extrema={
                                 "tol": 1e-07}))


def outcome(st, r):
    if st == "err":
        return ("err", type(r).__name__)
    return tuple((k, snapshot(np.asarray(v))) for k, v in r.items()
                 if k != "gwecc_object")


def reread(r):
    """Numbers an earlier result object still answers."""
    o = r["gwecc_object"]
    t = np.asarray(o.tref_out)
    st, b = attempt(o.get_fref_bounds)
    return (snapshot(np.asarray(o.compute_eccentricity(t))),
            snapshot(np.asarray(o.compute_mean_anomaly(t))),
            snapshot(np.asarray(b)) if st == "ok" else None)


def cases(tier):
    out = []
    depth = 3
    for frame in ("none", "coprecessing", "inertial"):
        for enc in ENC:
            for opts in WORLD_OPTS:
                if frame != "none" and opts == "shared":
                    continue
                for zenc in (ENC if tier == "thorough" else [enc]):
                    d = depth if frame == "none" and zenc == enc else 2
                    if tier == "quick" and d == 3 and opts != "nested":
                        d = 2
                    for first in CALLS:
                        if tier == "quick" and d == 3 and enc != "ampphaseomega":
                            d = 2
                        out.append([frame, enc, zenc, opts, first, d,
                                    tier == "quick"])
    return out


_fresh = {}


def fresh_outcome(key, name, R):
    k = (key, name)
    if k not in _fresh:
        s = world(*key)
        prime(s)
        o = outcome(*call(name, s))
        R.ev()
        _fresh[k] = o
    return _fresh[k]


SLOW = {"AmpFits-t", "FreqFits-f", "rational"}


def check(case, R):
    frame, enc, zenc, opts, first, depth, quick = case
    key = (enc, frame, opts, zenc)
    # write-protected arrays must do as well
    s = world(*key)
    prime(s)
    protect(s["data"])
    protect(s["tref"]), protect(s["fref"])
    call(first, s)           # (imports on first use settle)
    del LEAKS[:]
    got = outcome(*call(first, s))
    R.ev()
    if LEAKS:
        R.bad(f"{frame}:{enc}:{opts}:{first}:process", LEAKS[0])
    want = fresh_outcome(key, first, R)
    if got != want:
        R.bad(f"{case}:readonly", f"{first}: read-only input gives a "
              f"different outcome ({str(got)[:60]} / {str(want)[:60]})")
    alpha = [c for c in CALLS if depth < 3 or c not in SLOW or c == first]
    if frame == "inertial" and quick:
        alpha = ["Amp-t", "AmpFits-t", "badkw", "segment"]
    for d in range(1, depth + 1):
        for rest in itertools.product(alpha, repeat=d - 1):
            seq = (first,) + rest
            s = world(*key)
            prime(s)
            snap = snapshot({k: v for k, v in s.items()})
            first_r = None
            for i, name in enumerate(seq):
                st, r = call(name, s)
                R.ev()
                R.trans()
                if first_r is None and st == "ok":
                    first_r = (r, reread(r))
                if LEAKS:
                    R.bad(f"{frame}:{enc}:{opts}:{name}:process", LEAKS.pop())
                    return
                now = snapshot({k: v for k, v in s.items()})
                if now != snap:
                    what = [k for k in s if snapshot(s[k]) != dict(
                        zip(s, [x[1] for x in snap[1]])).get(k)]
                    R.bad(f"{frame}:{enc}:{zenc}:{opts}:{name}:modified",
                          f"history {seq[:i+1]}: {name} modified {what}")
                    return
            o = outcome(st, r)
            R.state((key, seq, o))
            if o != fresh_outcome(key, seq[-1], R):
                R.bad(f"{frame}:{enc}:{zenc}:{opts}:{seq}",
                      f"after {seq[:-1]} the call {seq[-1]} gives another "
                      f"result ({str(o)[:100]})")
            if first_r is not None and reread(first_r[0]) != first_r[1]:
                R.bad(f"{frame}:{enc}:{zenc}:{opts}:{seq}:reread",
                      f"a result object changed its answers after {seq}")
