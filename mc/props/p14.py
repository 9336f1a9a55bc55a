"""P14: measuring with only N orbits around the reference point(s)."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="exploration",
    rule="T = waveform x method x N x every reference time of a grid that "
         "includes both ends of the supported range, scalar and all ordered "
         "tuples up to length 3 of a pool; F = the same for frequencies; C = "
         "the same call with everything farther than the segment replaced by "
         "other data must be bit-identical; L = N around and beyond the length "
         "of the waveform. Checked: the extrema used are a contiguous run of "
         "the full measurement's extrema, long enough on both sides (missing "
         "orbits at an edge are taken from the other side), and the numbers "
         "are those of the reference measurement from these extrema. S = the "
         "extent of the segment itself on both sides of the reference points, "
         "in orbits, against the documented rule",
    assumptions=["an orbit is a phase change between 4 pi and 1.1*4 pi, which "
                 "brackets the documented allowance for pericentre advance"],
)

WAVES = [dict(e0=.2, l0=.6, n_orb=26), dict(e0=.35, l0=3.8, n_orb=22, t0=-1e4),
         dict(e0=.1, l0=2.0, n_orb=24, k=.08)]
NS = [5, 6.5, 8, 10, 13]
TUPLE_POOL = [.06, .3, .45, .5, .8, .93]


def cases(tier):
    th = tier == "thorough"
    out = []
    for i, w in enumerate(WAVES):
        for m in METHODS:
            slow = m in METHODS[4:]
            if slow and not th and i:
                continue
            for n in (NS if not slow or th else [8]):
                out.append(["T", i, m, n, (120 if th else 40) if not slow
                            else (24 if th else 8)])
                out.append(["F", i, m, n, (40 if th else 12) if not slow
                            else (12 if th else 4)])
                out.append(["C", i, m, n, 9 if not slow else 3])
            out.append(["P", i, m, 8, th])
            for n in (5, 6, 6.5, 7, 9, 11, 13) if m in FAST[:2] or th else (7,):
                if not slow or th:
                    out.append(["S", i, m, n, 60 if th else 24])
            out.append(["L", i, m])
            if not slow or th:
                for n in (NS if th else (5, 10)):
                    out.append(["R", i, m, n, 48 if th else 20])
    return out


_full = {}


def full(i, m):
    if (i, m) not in _full:
        w = wave(**WAVES[i])
        r = run(tref_in=np.array([w.t[len(w.t) // 2]]), method=m,
                dataDict=data(w, m), extra_kwargs=spline_kw())
        tp, ta = extrema_times(r["gwecc_object"])
        _full[i, m] = tp, ta, Ref(w.t, w.phase, tp, ta)
    return _full[i, m]


def data(w, m):
    return data_for(w, m, zkw=dict(n_orb=40, t0=0.0,
                                   n0=.02 * (w.T * 1.6 * .02 / 2 / np.pi / 40)
                                   ** .6))


def orbit_pos(w, t):
    return np.interp(t, w.t, w.phase) / (4 * np.pi)


def judge(R, tag, w, m, i, n, ts, r, fuzz=0):
    """ts: reference times (first/last bound the segment); r: result."""
    # fuzz: uncertainty, in orbits, of where the segment was centred
    tp, ta = extrema_times(r["gwecc_object"])
    ftp, fta, fref = full(i, m)
    tol = .51 * w.dt if m in FAST else 2.1 * w.dt
    for name, x, f in (("pericentre", tp, ftp), ("apocentre", ta, fta)):
        j = np.searchsorted(f, x[0] - 2.5 * w.dt)
        k = j + len(x)
        if k > len(f) or np.any(np.abs(f[j:k] - x) > tol):
            R.bad(tag, f"{name}s used {x} are not consecutive {name}s of the "
                  f"waveform {f}")
            return None
        # enough orbits on both sides, in units of 4 pi, allowing for the
        # distance from the segment's edge to the next extremum (two radial
        # periods: one for position, one for filtering near the edges)
        lo, hi = orbit_pos(w, np.min(ts)), orbit_pos(w, np.max(ts))
        flo, fhi = orbit_pos(w, f[0]), orbit_pos(w, f[-1])
        a, b = orbit_pos(w, x[0]), orbit_pos(w, x[-1])
        half = n / 2
        slack = 1.25 * (1 + w.k) + fuzz
        start, end = orbit_pos(w, w.t[0]), orbit_pos(w, fref.tmax) + 1.2
        miss_l = max(0, half - (lo - start) - (hi - lo))
        miss_r = max(0, half - (end - hi) - (hi - lo))
        if a > max(flo, lo - half - miss_r * .9 + slack) + 1e-6:
            R.bad(tag, f"first {name} {x[0]} is later than {half} orbits "
                  f"before the first reference point {np.min(ts)}")
        if b < min(fhi, hi + half + miss_l * .9 - slack) - 1e-6:
            R.bad(tag, f"last {name} {x[-1]} is earlier than {half} orbits "
                  f"after the last reference point {np.max(ts)}")
        far = 1.1 * (np.ceil(half) + 1.2 + fuzz)
        if a < min(fhi - far - 1.1 * half, lo - far - 1.1 * miss_r):
            R.bad(tag, f"{name} {x[0]} is outside the segment of {n} orbits")
        if b > max(flo + far + 1.1 * half, hi + far + 1.1 * miss_l) + 1.2:
            R.bad(tag, f"{name} {x[-1]} is outside the segment of {n} orbits")
    ref = Ref(w.t, w.phase, tp, ta)
    return ref


def compare(R, tag, ref, fref, tt, r, n, dl_full=True):
    e, l = np.atleast_1d(r["eccentricity"]), np.atleast_1d(r["mean_anomaly"])
    if not np.all(np.abs(e - ref.ecc(tt)) < 1e-6):
        R.bad(tag, f"eccentricity {e} at {tt}; extrema used give {ref.ecc(tt)}")
    if not np.all(angdiff(l, ref.mean_ano(tt)) < 1e-4):
        R.bad(tag, f"mean anomaly {l} at {tt}: extrema used give "
              f"{ref.mean_ano(tt)}")
    inside = (tt >= fref.tmin) & (tt <= fref.tmax)
    d = np.abs(e - fref.ecc(tt))[inside]
    if not np.all(d < 4e-3):
        R.bad(tag, f"eccentricity differs from the full-waveform one by {d}")


def check(case, R):
    globals()["do_" + case[0]](R, *case[1:])


def do_R(R, i, m, n, npts):
    """Reference points everywhere, also outside of what can be answered: the
    segment never decides whether there is an answer."""
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    flo, fhi = fref.fbounds()
    om = np.gradient(w.phase, w.t)
    kw = dict(spline_kw(), use_only_these_many_orbits=n)
    d = data(w, m)
    for dom in ("t", "f"):
        if dom == "t":
            lo, hi, pad = fref.tmin, fref.tmax, 2.5 * w.dt
            x = np.linspace(w.t[0], w.t[-1], npts)
        else:
            lo, hi, pad = flo, fhi, 4e-3 * (fhi - flo)
            x = np.r_[np.geomspace(.1 * flo, 1.3 * om.max() / 2 / np.pi,
                                   npts), om.min() / 2 / np.pi * .999]
        x = x[(abs(x - lo) > pad) & (abs(x - hi) > pad)]
        good = (x > lo) & (x < hi)
        name = {"t": "tref_", "f": "fref_"}[dom]
        for v, g in zip(x, good):
            s, r = attempt(run, method=m, dataDict=d, extra_kwargs=dict(kw),
                           **{name + "in": v})
            R.ev()
            R.state((i, m, n, dom, s))
            if (s == "ok") != bool(g):
                R.bad(f"R:{i}:{m}:{dom}:{g}",
                      f"{name}in={v} with {n} orbits: {s} {str(r)[:90]}; range "
                      f"of the waveform is {lo}, {hi}")
            elif s != "ok" and "outside" not in str(r):
                R.bad(f"R:{i}:{m}:{dom}:msg",
                      f"{name}in={v}, range {lo}, {hi}: {str(r)[:120]}")
            elif s == "ok" and (np.ndim(r["eccentricity"])
                                or not 0 < r["eccentricity"] < 1):
                R.bad(f"R:{i}:{m}:{dom}:val", f"{v}: {r['eccentricity']}")
        # an answerable one together with one that is not
        a, b = x[good][[1, -2]], x[~good]
        for v in a:
            for u in b[[0, len(b) // 3, -2, -1]]:
                req = np.sort([u, v])
                s, r = attempt(run, method=m, dataDict=d,
                               extra_kwargs=dict(kw), **{name + "in": req})
                R.ev()
                R.state((i, m, n, dom, s, u > v))
                if s != "ok" or not np.array_equal(r[name + "out"], [v]):
                    R.bad(f"R:{i}:{m}:{dom}:pair",
                          f"{name}in={req} with {n} orbits, range {lo}, {hi}: "
                          f"{s} {r[name + 'out'] if s == 'ok' else str(r)[:90]}")


def do_T(R, i, m, n, npts):
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    grid = np.unique(np.concatenate([
        np.linspace(fref.tmin, fref.tmax, npts),
        [np.nextafter(fref.tmin, np.inf), fref.tmin + w.dt,
         fref.tmax - w.dt]]))
    for t in grid:
        tag = f"T:{i}:{m}:{n}:{t}"
        st, r = attempt(run, tref_in=t, method=m, dataDict=data(w, m),
                        extra_kwargs=spline_kw(use_only_these_many_orbits=n))
        R.ev()
        if st != "ok":
            # Fits methods may find the outermost extremum one orbit later
            if m in FAST:
                R.bad(tag, f"not answered: {type(r).__name__} {str(r)[:150]}")
            continue
        ref = judge(R, tag, w, m, i, n, [t], r)
        if ref is None:
            continue
        R.state((i, m, n, len(ref.tp), len(ref.ta), round(float(ref.tp[0]))))
        compare(R, tag, ref, fref, np.atleast_1d(t), r, n)


def do_S(R, i, m, n, npts):
    """Extent of the segment: half of the orbits on either side, missing ones
    made up for on the other side, never more than half an orbit too many."""
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    unit, half = 1.1 * 4 * np.pi, n / 2
    orb = lambda t: np.interp(t, w.t, w.phase) / unit     # noqa
    grid = np.linspace(fref.tmin, fref.tmax, npts)[1:-1]
    span = fref.tmax - fref.tmin
    reqs = [[t] for t in grid]
    for d in (.05, .2, .5, .9):
        reqs += [[t + d * span, t] for t in grid[::4] if t + d * span
                 < fref.tmax - w.dt]
    for req in reqs:
        tag = f"S:{i}:{m}:{n}:{len(req)}"
        st, r = attempt(run, tref_in=req, method=m, dataDict=data(w, m),
                        extra_kwargs=spline_kw(use_only_these_many_orbits=n))
        R.ev()
        if st != "ok" or not hasattr(r["gwecc_object"], "t"):
            continue                          # judged by T and P
        t = r["gwecc_object"].t
        a, b = orb(t[[0, -1]])
        lo, hi = orb(min(req)), orb(max(req))
        # last sample that can be used: two orbits before the merger
        start = orb(w.t[0])
        end = (w.phase[w.merger_index] - 8 * np.pi) / unit
        left, right = lo - a, b - hi
        tol = .12
        miss_l, miss_r = (max(0, half - (lo - start)),
                          max(0, half - (end - hi)))
        R.state((i, m, n, len(req), round(float(left), 1),
                 round(float(right), 1)))
        need_l = half + max(0, miss_r - (hi - lo))
        need_r = half + max(0, miss_l - (hi - lo))
        for side, have, room, need in (("before", left, lo - start, need_l),
                                       ("after", right, end - hi, need_r)):
            if have < min(room, need) - tol:
                R.bad(tag, f"{n} orbits around {req}: only {have} {side} "
                      f"the reference points, {room} available, {need} needed")
            if have > need + (np.ceil(half) - half) + tol:
                R.bad(tag, f"{n} orbits around {req}: {have} {side} the "
                      f"reference points, {need} needed")


def do_P(R, i, m, n, th):
    """Ordered tuples of reference times."""
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    pool = fref.tmin + np.array(TUPLE_POOL) * (fref.tmax - fref.tmin)
    if m not in FAST and not th:
        pool = pool[[0, 2, 3, 5]]
    first = {}
    for q in (1, 2, 3):
        if q == 3 and m not in FAST and not th:
            continue
        for sel in itertools.permutations(range(len(pool)), q):
            ts = pool[list(sel)]
            tag = f"P:{i}:{m}:{n}:{sel}"
            st, r = attempt(run, tref_in=ts, method=m, dataDict=data(w, m),
                            extra_kwargs=spline_kw(
                                use_only_these_many_orbits=n))
            R.ev()
            R.state((i, m, sel, st))
            if st != "ok":
                R.bad(tag, f"not answered: {type(r).__name__} {str(r)[:150]}")
                continue
            if not np.array_equal(r["tref_out"], ts):
                R.bad(tag, f"asked {ts}, answered {r['tref_out']}")
                continue
            ref = judge(R, tag, w, m, i, n, ts, r)
            if ref is None:
                continue
            compare(R, tag, ref, fref, ts, r, n)
            key = tuple(sorted(sel))
            got = dict(zip(sel, zip(r["eccentricity"], r["mean_anomaly"])))
            if first.setdefault(key, got) != got:
                R.bad(tag, "answers depend on the order of the request")


def do_F(R, i, m, n, npts):
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    lo, hi = fref.fbounds()
    _, _, s = fref.fref_window()
    back = InterpolatedUnivariateSpline(fref.average(s) / 2 / np.pi, s)
    fs = np.linspace(lo, hi, npts + 2)[1:-1]
    reqs = [[f] for f in fs] + [[fs[1], fs[-2]], [fs[-2], fs[1]],
                                [fs[-1], fs[0], fs[len(fs) // 2]]]
    for req in reqs:
        tag = f"F:{i}:{m}:{n}:{req}"
        t0 = back(req)
        st, r = attempt(run, fref_in=np.array(req) if len(req) > 1 else req[0],
                        method=m, dataDict=data(w, m),
                        extra_kwargs=spline_kw(use_only_these_many_orbits=n))
        R.ev()
        inner = (min(t0) > fref.tp[1] and max(t0) < fref.tp[-2]
                 and min(t0) > fref.ta[1] and max(t0) < fref.ta[-2])
        R.state((i, m, n, tuple(req), st))
        if st != "ok":
            if inner:
                R.bad(tag, f"not answered: {type(r).__name__} {str(r)[:150]}")
            continue
        if not np.array_equal(np.atleast_1d(r["fref_out"]),
                              np.atleast_1d(req)):
            if inner:
                R.bad(tag, f"asked {req}, answered {r['fref_out']}")
            continue
        # the time for the segment is only approximate: allow 1.5 orbits
        ref = judge(R, tag, w, m, i, n, t0, r, 1.5) if inner else ref_from(
            r["gwecc_object"], w)
        if ref is None:
            continue
        _, _, s2 = ref.fref_window()
        tt = InterpolatedUnivariateSpline(ref.average(s2) / 2 / np.pi,
                                          s2)(np.atleast_1d(req))
        compare(R, tag, ref, fref, tt, r, n)
        if inner and not np.all(np.abs(tt - t0) < .05 * 4 * np.pi
                                / (2 * np.pi * np.array(req))):
            R.bad(tag, f"reference time {tt}; full waveform gives {t0}")


def do_C(R, i, m, n, npts):
    """Data outside the segment has no influence."""
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    om = deriv4(w.phase, w.t[1] - w.t[0])
    base = {"t": w.t.copy(), "amplm": {(2, 2): w.amp.copy()},
            "phaselm": {(2, 2): w.phase.copy()}, "omegalm": {(2, 2): om}}
    d0 = data(w, m)
    base.update({k: d0[k] for k in d0 if k.endswith("zeroecc")})
    far = 4 * np.pi * 1.1 * (np.ceil(n / 2) + .3)
    x = w.phase / 1.37
    shape = [1 + .3 * np.cos(x), 1 + .2 * np.cos(3.1 * x)]
    end = w.phase[w.merger_index] - 4 * 4 * np.pi
    for t in fref.tmin + np.linspace(.02, .95, npts) * (fref.tmax - fref.tmin):
        p = np.interp(t, w.t, w.phase)
        room_l = p - w.phase[0] > 4 * np.pi * 1.1 * (np.ceil(n / 2) + 1)
        room_r = end + 2 * 4 * np.pi - p > 4 * np.pi * 1.1 * (np.ceil(n / 2) + 1)
        out = np.zeros(len(w.t), bool)
        if room_l:
            out |= w.phase > p + far
        if room_r:
            out |= w.phase < p - far
        out &= w.phase < end
        if not out.any():
            continue
        kw = dict(tref_in=t, method=m, extra_kwargs=spline_kw(
            use_only_these_many_orbits=n))
        st, r0 = attempt(run, dataDict=fresh(base), **kw)
        R.ev()
        if st != "ok":
            continue
        for which in ("amplm", "omegalm", "both"):
            for sh in shape:
                d = fresh(base)
                for k in ("amplm", "omegalm"):
                    if which in (k, "both"):
                        d[k][(2, 2)] = np.where(out, d[k][(2, 2)] * sh,
                                                d[k][(2, 2)])
                st, r1 = attempt(run, dataDict=d, **kw)
                R.ev()
                R.state((i, m, n, round(float(t)), which, st))
                if st != "ok" or not (
                        same(r0["eccentricity"], r1["eccentricity"])
                        and same(r0["mean_anomaly"], r1["mean_anomaly"])):
                    R.bad(f"C:{i}:{m}:{n}:{t}:{which}",
                          "data outside the segment of "
                          f"{n} orbits changes the result")


def do_L(R, i, m):
    """N around and beyond the available number of orbits."""
    w = wave(**WAVES[i])
    ftp, fta, fref = full(i, m)
    cut = int(np.argmin(np.abs(w.phase - (w.phase[w.merger_index] - 8 * np.pi))))
    total = (w.phase[cut - 1] - w.phase[0]) / (4 * np.pi)
    ts = fref.tmin + np.array([.2, .5, .7]) * (fref.tmax - fref.tmin)
    for t in (ts, ts[1], ts[:1]):
        r0 = run(tref_in=t, method=m, dataDict=data(w, m),
                 extra_kwargs=spline_kw())
        R.ev()
        for n in (None, 0, False, total + .01, np.ceil(total) + 1, 2 * total,
                  1000):
            st, r = attempt(run, tref_in=t, method=m, dataDict=data(w, m),
                            extra_kwargs=spline_kw(
                                use_only_these_many_orbits=n))
            R.ev()
            R.state((i, m, np.shape(t), n, st))
            if st != "ok" or not (
                    same(r0["eccentricity"], r["eccentricity"])
                    and same(r0["mean_anomaly"], r["mean_anomaly"])):
                R.bad(f"L:{i}:{m}:{n}:{np.shape(t)}", "asking for more orbits "
                      "than available does not give the full result: "
                      f"{str(r)[:100] if st != 'ok' else ''}")
