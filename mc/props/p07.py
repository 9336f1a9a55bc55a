"""P07: equivalent encodings agree; ambiguous or incomplete key sets are
rejected; unrelated keys do not matter.  Decision table over all key subsets."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="case = (method, averaging, subset of the signal keys {t,hlm,amplm,"
         "phaselm,omegalm}); within it all 32 subsets of the partner's keys "
         "(all of them for the residual methods, all in thorough); plus, for "
         "every encoding, a phase and/or frequency of the opposite sign and "
         "modes other than (2,2) only, and times that are not equidistant; state = (case, partner subset, "
         "accepted or error class)",
    assumptions=["an omegalm consistent with the phase is supplied"],
)
KEYS = ["t", "hlm", "amplm", "phaselm", "omegalm"]
SUB = [[k for i, k in enumerate(KEYS) if b >> i & 1] for b in range(32)]


def cases(tier):
    out = []
    wks = [dict(e0=.25, l0=1.2, n_orb=13)]
    if tier == "thorough":
        wks.append(dict(e0=.1, l0=4.2, n_orb=14))
    for wk in wks:
        for m in METHODS:
            for av in ("orbit_averaged_omega_gw",
                       "mean_of_extrema_interpolants", "omega_gw_zeroecc"):
                if tier == "quick" and m not in ("Amplitude", "Frequency",
                                                 "ResidualAmplitude",
                                                 "ResidualFrequency") \
                        and av != "orbit_averaged_omega_gw":
                    continue
                for s in SUB:
                    out.append([wk, m, av, s])
            out.append([wk, m, "contradict", None])
            out.append([wk, m, "uneven", None])
    return out


def full(w, tag):
    om = deriv4(w.phase, w.t[1] - w.t[0])
    return {"t" + tag: w.t.copy(), "hlm" + tag: {(2, 2): w.hlm[(2, 2)].copy()},
            "amplm" + tag: {(2, 2): w.amp.copy()},
            "phaselm" + tag: {(2, 2): w.phase.copy()},
            "omegalm" + tag: {(2, 2): om}}


def legal(s):
    """Is this set of keys a complete, unambiguous description?"""
    if "hlm" in s and ("amplm" in s or "phaselm" in s):
        return False
    return "t" in s and ("hlm" in s or ("amplm" in s and "phaselm" in s))


def ambiguous(s):
    return "hlm" in s and ("amplm" in s or "phaselm" in s)


def contradict(case, R):
    """Data that contradict each other or the sign convention."""
    wk, m, _, _ = case
    w = wave(**wk)
    z = wave(e0=0.0, l0=0.0, n_orb=wk["n_orb"] + 4)
    tref = w.t[[int(len(w.t) * .3), int(len(w.t) * .5)]]
    f, fz = full(w, ""), full(z, "_zeroecc")
    enc = {"hlm": ("t", "hlm"), "ap": ("t", "amplm", "phaselm"),
           "apo": ("t", "amplm", "phaselm", "omegalm"),
           "ho": ("t", "hlm", "omegalm")}

    def neg(d, k):
        d[k] = {(2, 2): -d[k][(2, 2)]}

    for e, keys in enc.items():
        for what, off in itertools.product(
                ("phase", "omega", "both", "modes", "none"),
                (0., 1000., -1000.)):
            d = fresh({k: f[k] for k in keys})
            if m in RESIDUAL:
                d.update({k + "_zeroecc": fz[k + "_zeroecc"]
                          for k in ("t", "hlm")})
            x = [k for k in d if k in ("hlm", "phaselm")][0]
            if off and x == "hlm":
                continue
            if what in ("phase", "both"):
                if x == "hlm":
                    d[x] = {(2, 2): np.conj(d[x][(2, 2)])}
                else:
                    neg(d, x)
            if what in ("omega", "both"):
                if "omegalm" not in d:
                    continue
                neg(d, "omegalm")
            if off:
                d[x][(2, 2)] = d[x][(2, 2)] + off
            if what == "modes":
                for k in d:
                    if k[0] == "t" or k == "hlm_zeroecc":
                        continue
                    b = dict(d)
                    b[k] = {(3, 3): d[k][(2, 2)]}
                    one(R, f"{case}:{e}:{what}:{k}:{off}", m, b, tref, False)
                continue
            one(R, f"{case}:{e}:{what}:{off}", m, d, tref, what == "none")


def uneven(case, R):
    """Times that are not equidistant, of the signal or of its partner."""
    wk, m, _, _ = case
    w = wave(**wk)
    z = wave(e0=0.0, l0=0.0, n_orb=wk["n_orb"] + 4)
    tref = w.t[[int(len(w.t) * .3), int(len(w.t) * .5)]]
    f, fz = full(w, ""), full(z, "_zeroecc")
    base = {k: f[k] for k in ("t", "hlm")}
    if m in RESIDUAL:
        base.update({k: fz[k] for k in ("t_zeroecc", "hlm_zeroecc")})
    one(R, f"{case}:even", m, fresh(base), tref, True)
    for k in [k for k in base if k[0] == "t"]:
        t = base[k]
        n = len(t)
        for i, x in itertools.product(
                (1, 2, n // 3, n // 2), (1e-2, .1, .25, .5, .9)):
            for what in ("late", "gap", "slower", "faster", "jitter"):
                d = fresh(base)
                dt = t[1] - t[0]
                u = d[k]
                if what == "late":
                    u[i] += x * dt
                elif what == "gap":
                    u[i:] += x * dt
                elif what == "slower":
                    u[i:] += x * dt * np.arange(n - i)
                elif what == "faster":
                    u[i:] -= x * dt * np.arange(n - i)
                else:
                    u[i:-1:7] += x * dt
                one(R, f"{case}:{k}:{what}:{x}:{i}", m, d, tref, False)
        for i in (1, n // 3, n // 2):          # a sample missing
            d = fresh(base)
            d[k] = np.delete(d[k], i)
            h = "hlm" + k[1:]
            d[h] = {q: np.delete(v, i) for q, v in d[h].items()}
            one(R, f"{case}:{k}:missing:{i}", m, d, tref, False)


def one(R, tag, m, d, tref, good):
    st, r = attempt(run, method=m, dataDict=d, tref_in=tref,
                    extra_kwargs=spline_kw())
    R.ev()
    R.state((tag, st))
    if (st == "ok") != good:
        R.bad(tag, f"{'refused' if good else 'accepted'}: {str(r)[:150]}")


def check(case, R):
    if case[2] == "contradict":
        return contradict(case, R)
    if case[2] == "uneven":
        return uneven(case, R)
    wk, m, av, s = case
    w = wave(**wk)
    z = wave(e0=0.0, l0=0.0, n_orb=wk["n_orb"] + 4)
    ek = {"omega_gw_extrema_interpolation_method": "spline",
          "omega_gw_averaging_method": av}
    fw, fz = full(w, ""), full(z, "_zeroecc")
    needs = m in RESIDUAL or av == "omega_gw_zeroecc"
    n = len(w.t)
    tref = w.t[[int(n * .3), int(n * .5)]]
    # reference answer: complex modes
    base = {k: v for k, v in {**fw, **fz}.items()
            if k[:3] in ("t", "t_z", "hlm")}
    b = run(tref_in=tref, method=m, dataDict=fresh(base), extra_kwargs=dict(ek))
    st, x = attempt(lambda: b["gwecc_object"].get_fref_bounds())
    fref = None
    if st == "ok":
        fref = x[0] + np.array([.3, .6]) * (x[1] - x[0])
        bf = run(fref_in=fref, method=m, dataDict=fresh(base),
                 extra_kwargs=dict(ek))
    R.ev(2)
    ok_signal = legal(s)
    zsets = SUB if ok_signal else [[], ["t", "hlm"], ["hlm", "amplm"], SUB[31]]
    for zs in zsets:
        d = {k: fw[k] for k in s}
        d.update({k + "_zeroecc": fz[k + "_zeroecc"] for k in zs})
        tag = f"{case}:{zs}"
        must_ok = ok_signal and not ambiguous(zs) and \
            (legal(zs) or not zs and not needs)
        must_err = not ok_signal or ambiguous(zs) or \
            (needs and not legal(zs) and m in RESIDUAL)
        for extra in ((), ("hlm_noecc", "amplm_extra", "T", 7)):
            if extra and not (must_ok and zs in ([], ["t", "hlm"])):
                continue
            for dom in ("t", "f"):
                if dom == "f" and (fref is None):
                    continue
                dd = fresh(d)
                for k in extra:
                    dd[k] = {(2, 2): np.zeros(3)}
                a = {"tref_in": tref} if dom == "t" else {"fref_in": fref}
                st, r = attempt(run, method=m, dataDict=dd,
                                extra_kwargs=dict(ek), **a)
                R.ev()
                R.state((tag, extra, dom, st if st == "ok" else
                         type(r).__name__))
                if must_ok and st == "err":
                    R.bad(tag, f"complete data rejected ({dom}): "
                          f"{type(r).__name__}: {str(r)[:200]}")
                if must_err and st == "ok":
                    R.bad(tag, f"{'ambiguous' if ambiguous(s) or ambiguous(zs) else 'incomplete'} "
                          f"data accepted ({dom}, extra {extra})")
                if dom == "f" and not must_ok and av == "omega_gw_zeroecc" \
                        and st == "ok" and not legal(zs):
                    R.bad(tag, "reference frequency from missing "
                          "quasicircular data")
                if st == "ok":
                    ref = b if dom == "t" else bf
                    tol = 1e-7 if dom == "t" else 1e-6
                    if not (same(r["eccentricity"], ref["eccentricity"],
                                 atol=tol)
                            and np.all(angdiff(r["mean_anomaly"],
                                               ref["mean_anomaly"]) < 1e-5)):
                        R.bad(tag, f"{r['eccentricity']} instead of "
                              f"{ref['eccentricity']} ({dom}, extra {extra})")
