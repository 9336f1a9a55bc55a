"""P31: what the package says about a measurement is what happened."""
import itertools
import re

import numpy as np

from mc.common import *          # noqa
from mc.props import p26
from mc.props.p09 import WK, clean, clean_one, patterns

META = dict(
    level="model_checking",
    rule="state = history of detected extrema (all subsets of missing ones of "
         "one kind, pairs of prefix / suffix / hole patterns of both kinds, "
         "all insertions of a spurious one, every single frequency value at an "
         "extremum changed up or down); one verbose measurement per state; the "
         "set of messages, and the times, numbers and kinds they name, must be "
         "those of an independent model of the documented conditions, no more "
         "and no less. Further families: small eccentricity (zero or error), "
         "number of orbits longer than the data, unknown keys, requests "
         "outside of the range, order of frequencies, segment bounds",
    assumptions=["messages are recognised by their key words (kind of extremum, "
                 "side, reason) and the numbers in them, not by exact text"],
)


def data(w, m):
    if m[:8] != "Residual":
        return data_for(w, m)
    # a longer partner whose chirp passes through the same frequencies
    n = 40
    return data_for(w, m, zkw=dict(n_orb=n, t0=0., n0=.02 * (
        w.T * 1.6 * .02 / 2 / np.pi / n) ** .6))


def attempt(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err", e


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in range(2 if th else 1):
        P, A = wave(**WK[k]).extrema()
        for who, n in ((0, len(P)), (1, len(A))):
            for hi in range(2 ** max(0, n - 4)):
                if th or hi.bit_count() in (0, 1, 2, n - 5):
                    out.append(["D", k, who, hi])
            for i in range(n):
                out.append(["I", k, who, i])
                out.append(["V", k, who, i])
        for i in range(len(patterns(len(P)))):
            out.append(["B", k, i, th])
    for a in (0, .004, .02, .05):
        for thr in (.05, .2, .5):
            out.append(["filter", a, thr])
    for frame in ("inertial", "coprecessing"):
        for enc in range(4):
            out.append(["frame", frame, enc])
    for m in METHODS if th else METHODS[:4]:
        out.append(["zero", m])
        for i in range(3):
            out.append(["long", m, i])
        out.append(["key", m])
        for i in range(4):
            out.append(["range", m, i])
        out.append(["order", m])
        out.append(["bounds", m])
    return out


NUM = re.compile(r"-?\d+\.?\d*(?:e[+-]?\d+)?")


def has(msg, numbers, rtol=1e-9, atol=1e-9):
    got = np.array([float(x) for x in NUM.findall(msg)] or [np.nan])
    return all(np.any(abs(got - x) <= atol + rtol * abs(x)) for x in numbers)


def match(R, tag, expected, optional, msgs):
    """expected: list of (words, numbers[, tol]); optional: list of words that
    may also be said (borderline)."""
    left = list(msgs)
    for words, numbers, *tol in expected:
        hit = [m for m in left if all(re.search(x, m, re.I) for x in words)]
        R.state((tuple(words), bool(hit)))
        if not hit:
            R.bad(f"{tag}", f"nothing said about {' '.join(words)} "
                  f"{numbers}: {[m[:70] for m in msgs]}")
            return
        good = [m for m in hit if has(m, numbers, *tol)]
        if not good:
            R.bad(f"{tag}", f"{words}: expected the numbers {numbers} in "
                  f"{hit[0][:400]!r}")
            return
        left.remove(good[0])
    left = [m for m in left if not any(all(re.search(x, m, re.I) for x in o)
                                       for o in optional)]
    if left:
        R.bad(f"{tag}", f"unfounded message {left[0][:300]!r}")


def gaps(x, phase, kind, t):
    """Events of the two cleaning steps of one kind."""
    ev = []
    x = list(x)
    d = [phase[b] - phase[a] for a, b in zip(x, x[1:])]
    r = [b / a for a, b in zip(d, d[1:])]
    mid = len(r) // 2
    grow = [i for i, q in enumerate(r) if q > 1.5]
    shrink = [i for i, q in enumerate(r) if q < 1 / 1.5]
    lo, hi = 0, len(x)
    if grow and grow[0] > mid:
        i = grow[0]
        ev.append(((kind, "too widely separated", "near the end"),
                   [t[x[i + 1]], t[x[i + 2]]]))
        hi = i + 2
    if shrink and shrink[-1] < mid:
        i = shrink[-1]
        ev.append(((kind, "too widely separated", "near the start"),
                   [t[x[i]], t[x[i + 1]]]))
        lo = i + 1
    x = x[lo:hi]
    d = [phase[b] - phase[a] for a, b in zip(x, x[1:])]
    mid = len(d) // 2
    close = [i for i, q in enumerate(d) if q < 4 * np.pi]
    lo, hi = 0, len(x)
    if close and close[0] > mid:
        i = close[0]
        ev.append(((kind, "too close to each other", "second half",
                    "dropped"), [x[i], x[i + 1], t[x[i]]]))
    if close and close[-1] < mid:
        i = close[-1]
        ev.append(((kind, "too close to each other", "first half",
                    "dropped"), [x[i], x[i + 1], t[x[i + 1]]]))
    return ev


def surplus(P, A):
    ev = []
    P, A = list(P), list(A)

    def cut(x, y, kind, end):
        k = [v for v in x if (v > y[-1] if end else v < y[0])]
        if len(k) > 1:
            ev.append(((f"extra {kind}", "at the " + ("end" if end else
                                                      r"\s*start")),
                       [len(k) - 1]))
            return [v for v in x if (v <= k[0] if end else v >= k[-1])]
        return x
    P = cut(P, A, "pericenters", True)
    A = cut(A, P, "apocenters", True)
    P = cut(P, A, "pericenters", False)
    A = cut(A, P, "apocenters", False)
    return ev


def ratios(f, t):
    """ratio of successive slopes on the samples t."""
    d = np.gradient(f, t[1] - t[0])
    return d[1:] / d[:-1]


def model(t, phase, P, A, omega=None):
    """(expected, optional) messages of a measurement that succeeds."""
    kinds = ("pericenters", "apocenters")
    ev, opt = [], []
    for x, kind in zip((P, A), kinds):
        ev += gaps(x, phase, kind, t)
    p1, a1 = clean_one(P, phase), clean_one(A, phase)
    ev += surplus(p1, a1)
    gp, ga = clean(P, A, phase)
    for x, g, kind in zip((P, A), (gp, ga), kinds):
        if len(x) - len(g) > .5 * len(x):
            ev.append((("more than", kind, "dropped"), [50]))
    if abs(len(gp) - len(ga)) >= 2:
        ev.append((("not appearing alternately",), [abs(len(gp) - len(ga))]))
    else:
        seq = sorted([(v, 0) for v in gp] + [(v, 1) for v in ga])
        if any(a[1] == b[1] for a, b in zip(seq, seq[1:])):
            ev.append((("not? appear alternately",), []))
    for g, kind in zip((gp, ga), kinds):
        d = np.diff(phase[g]) / 2
        close = np.flatnonzero(d < np.pi)
        if len(close):
            ev.append((("at least a pair of " + kind, "too close", "minimum"),
                       [d.min()] + [t[g[i + 1]] for i in close], 1e-6))
        if np.any(abs(d - np.pi) < abs(d - 2 * np.pi)):
            ev.append((("closer to pi than 2 ?pi",), []))
        q = np.r_[0, d[1:] / d[:-1]]
        far = np.flatnonzero(q > 1.5)
        if len(far):
            ev.append((("at least a pair of " + kind, "too far", "maximum"),
                       [d.max()] + [t[g[i + 1]] for i in far], 1e-6))
    ref = Ref(t, phase, t[gp], t[ga], omega=omega)
    s = t[(t >= ref.tmin) & (t <= ref.tmax)]
    for f, kind in ((ref.wp, kinds[0]), (ref.wa, kinds[1])):
        q = ratios(f(s), s)
        words = ("nonmonotonic time derivative", "spline", "through " + kind)
        if np.any(q < 1 - 2e-5):
            ev.append((words, []))
        elif np.any(q < 1 - 5e-6):
            opt.append(words)
    with np.errstate(invalid="ignore"):
        e = ref.ecc(s)
    for g in (gp, ga):
        if len(g) < 4:
            ev.append((("data points", "spline order", "decreasing"),
                       [len(g), len(g) - 1]))
    de = InterpolatedUnivariateSpline(s, e).derivative()(s)
    words = ("egw", "nonmonotonic")
    eps = 1e-9 * np.ptp(e) / (s[1] - s[0]) + 1e-13
    if np.any(de > eps):
        sure = s[de > eps]
        ev.append((words, [sure[0], sure[-1]], 0, 6 * (s[1] - s[0])))
    elif np.any(de > -eps):
        opt.append(words)
    return ev, opt, gp, ga, ref, s


def one(R, w, P, A, tag, omega=None):
    gp, ga = ([], []) if min(len(P), len(A)) < 2 else clean(P, A, w.phase)
    usable = len(gp) >= 2 and len(ga) >= 2 and \
        max(gp[0], ga[0]) + 8 < min(gp[-1], ga[-1])
    if not usable and min(len(P), len(A)) >= 2:
        return
    d = w.data()
    if omega is not None:
        d = {"t": w.t.copy(), "amplm": {(2, 2): w.amp.copy()},
             "phaselm": {(2, 2): w.phase.copy()},
             "omegalm": {(2, 2): omega.copy()}}
    cls = scripted("Amplitude")
    cls.script = {"pericenters": P, "apocenters": A}
    R.ev()
    R.trans()
    if not usable:
        st, o = attempt(lambda: cls(d, tref_in=w.t.copy(), extra_kwargs=
                                    spline_kw()).measure_ecc())
        kind, n = ("pericenters", len(P)) if len(P) < 2 else ("apocenters",
                                                              len(A))
        R.state((tag, st))
        if st == "ok" or not re.search(rf"{kind}\D*{n}\b", str(o)):
            R.bad(tag + ":few", f"{n} {kind}: {st} {str(o)[:120]}")
        return
    ev, opt, gp, ga, ref, s = model(w.t, w.phase, P, A, omega)
    with captured() as (out, err, c):
        st, o = attempt(cls, d, tref_in=s[[0, len(s) // 2]],
                        extra_kwargs=spline_kw(), debug_level=1)
        st, r = attempt(o.measure_ecc) if st == "ok" else (st, o)
    msgs = [str(x.message) for x in c if x.category is UserWarning]
    if st != "ok":
        if omega is None:
            R.bad(tag + ":fail", f"{type(r).__name__} {str(r)[:150]}")
        return
    neg = [m for m in msgs if "negative ecc" in m]
    if bool(neg) != bool(np.any(r["eccentricity"] < 0)):
        R.bad(tag + ":neg", f"{neg}: {r['eccentricity']}")
    match(R, tag, ev, opt + [("negative eccentricity",)], msgs)
    for g, kind in ((gp, "pericenters"), (ga, "apocenters")):
        x = np.diff(w.phase[g]) / 2
        if not same(getattr(o, "orb_phase_diff_at_" + kind), x, 1e-9):
            R.bad(tag + ":diff", f"orb_phase_diff_at_{kind} "
                  f"{getattr(o, 'orb_phase_diff_at_' + kind)}, expected {x}")
        if not same(getattr(o, "orb_phase_diff_ratio_at_" + kind),
                    np.r_[0, x[1:] / x[:-1]], 1e-9):
            R.bad(tag + ":ratio", f"orb_phase_diff_ratio_at_{kind} "
                  f"{getattr(o, 'orb_phase_diff_ratio_at_' + kind)}")


def messages(level=1, **kw):
    with captured() as (out, err, c):
        st, r = attempt(run_loud, debug_level=level, **kw)
    return st, r, [str(x.message) for x in c if x.category is UserWarning]


def run_loud(**kw):
    from gw_eccentricity import measure_eccentricity
    return measure_eccentricity(**kw)


def check(case, R):
    globals()["do_" + case[0]](R, *case[1:])


def start(k):
    w = wave(**WK[k])
    return (w, *(list(map(int, x)) for x in w.extrema()))


def do_D(R, k, who, hi):
    w, P, A = start(k)
    X = (P, A)[who]
    for low in range(16):
        mask = hi << 4 | low
        Y = [x for i, x in enumerate(X) if not mask >> i & 1]
        one(R, w, A if who and 0 else (P if who else Y), Y if who else A,
            f"D:{k}:{who}:{mask}")


def do_B(R, k, i, th):
    w, P, A = start(k)
    hp = patterns(len(P))[i]
    for ha in patterns(len(A))[::1 if th else 3]:
        one(R, w, [x for i, x in enumerate(P) if i not in hp],
            [x for i, x in enumerate(A) if i not in ha],
            f"B:{k}:{hp}:{ha}".replace(" ", ""))


def do_I(R, k, who, i):
    w, P, A = start(k)
    X = (P, A)[who]
    for v in (X[i] + 7, X[i] - 7,
              (X[i] + X[i + 1]) // 2 if i + 1 < len(X) else X[i] + 21):
        for miss in (None, 0, 1, len(X) // 2, len(X) - 2, len(X) - 1):
            Y = sorted({x for j, x in enumerate(X) if j != miss} | {v})
            one(R, w, P if who else Y, Y if who else A,
                f"I:{k}:{who}:{v}:{miss}")


def do_V(R, k, who, i):
    w, P, A = start(k)
    base = deriv4(w.phase, w.t[1] - w.t[0])
    for f in (.7, .9, .99, .999, 1.001, 1.01, 1.1, 1.4):
        om = base.copy()
        om[(P, A)[who][i]] *= f
        one(R, w, P, A, f"V:{k}:{who}:{i}:{f}", om)


def do_zero(R, m):
    for n_orb in (3, 6, 9.5, 14):
        w = wave(e0=0., l0=0., n_orb=n_orb, dt=2.)
        d = data(w, m)
        end = int(np.argmin(abs(w.phase - (w.phase[w.merger_index]
                                           - 8 * np.pi))))
        n = (w.phase[end - 1] - w.phase[0]) / (4 * np.pi)
        for level in (0, 1):
            for ask in (True, False):
                st, r, msgs = messages(
                    level, method=m, dataDict=d, tref_in=w.t[end // 2],
                    extra_kwargs=spline_kw(
                        return_zero_if_small_ecc_failure=ask))
                R.ev()
                R.trans()
                R.state((m, n_orb, level, ask, st))
                tag = f"zero:{m}:{n_orb}:{level}:{ask}"
                if st != "ok":
                    x = re.search(r"Number of (\w+) found = (\d+)", str(r))
                    if not x or int(x[2]) > 1 or (ask and n > 5.2):
                        R.bad(tag, f"{str(r)[:150]} ({n} orbits)")
                    continue
                hit = [q for q in msgs if "set to zero" in " ".join(q.split())]
                if not hit or not all(has(q, [round(n, 2)], 0, .02)
                                      for q in hit):
                    R.bad(tag, f"zeros for {n} orbits: said {msgs}")


def do_long(R, m, i):
    w = wave(**[dict(e0=.2, l0=.6, n_orb=16), dict(e0=.1, l0=2., n_orb=20,
             k=.08), dict(e0=.3, l0=4., n_orb=12.7)][i])
    d = data(w, m)
    end = int(np.argmin(abs(w.phase - (w.phase[w.merger_index] - 8 * np.pi))))
    n = (w.phase[end - 1] - w.phase[0]) / (4 * np.pi)
    words = ("less than", "full\\s+waveform")
    for N in (None, 5, np.floor(n), n - .01, n + .01, np.ceil(n) + 1, 50):
        for level in (0, 1):
            st, r, msgs = messages(level, method=m, dataDict=d,
                                   tref_in=w.t[end // 2], extra_kwargs=
                                   spline_kw(use_only_these_many_orbits=N))
            R.ev()
            R.trans()
            R.state((m, i, N, level, st))
            ev = [(words, [int(n), N])] if N and N > n else []
            match(R, f"long:{m}:{i}:{N}:{level}", ev, [
                ("nonmonotonic",), ("extra",)], msgs)


def do_key(R, m):
    w = wave(e0=.2, l0=.6, n_orb=12)
    d = data(w, m)
    known = sorted(d) + ["hlm", "t"]
    for keys in itertools.chain.from_iterable(
            itertools.combinations(["foo", "ampl", "t_ref", "hlm_ecc"], q)
            for q in range(5)):
        for level in (0, 1):
            st, r, msgs = messages(
                level, method=m, dataDict={**d, **{k: 1 for k in keys}},
                tref_in=w.t[len(w.t) // 3], extra_kwargs=spline_kw())
            R.ev()
            R.trans()
            R.state((m, keys, level, st))
            match(R, f"key:{m}:{keys}:{level}", [
                ((rf"\b{k}\b", "not", "recogni"), []) for k in keys],
                [("nonmonotonic",), ("extra",)], msgs)
    del known


def do_range(R, m, i):
    w = wave(**[dict(e0=.2, l0=.6, n_orb=16), dict(e0=.1, l0=2., n_orb=20,
             t0=500.), dict(e0=.3, l0=4., n_orb=12, k=.05),
             dict(e0=.05, l0=5., n_orb=14, t0=-1e5)][i])
    d = data(w, m)
    ok = run(method=m, dataDict=d, tref_in=w.t[len(w.t) // 3],
             extra_kwargs=spline_kw())
    ref = ref_from(ok["gwecc_object"], w)
    flo, fhi = ref.fbounds()
    end = w.t[w.merger_index]
    below = [[ref.tmin - 3], [w.t[0] - 10, ref.tmin - 5]]
    above = [[ref.tmax + 3], [ref.tmax + 40, end + 1e3]]
    jobs = [("tref_in", x, "earlier", [ref.tmin, ref.tmax], 0)
            for x in below]
    jobs += [("tref_in", x, "later", [ref.tmin, ref.tmax], 0) for x in above]
    jobs += [("fref_in", x, "earlier", [flo, fhi], 1e-6)
             for x in ([flo * .9], [flo * .5, flo * .8])]
    jobs += [("fref_in", x, "later", [flo, fhi], 1e-6)
             for x in ([fhi * 1.1], [fhi * 1.2, fhi * 1.5])]
    for name, x, word, numbers, tol in jobs:
        for req in (x, x[::-1], x[0]):
            st, r, msgs = messages(0, method=m, dataDict=d,
                                   extra_kwargs=spline_kw(), **{name: req})
            R.ev()
            R.trans()
            R.state((m, i, name, word, st))
            if st == "ok" or word not in str(r) or "outside" not in str(r) \
                    or not has(str(r), numbers, tol, 1e-9):
                R.bad(f"range:{m}:{i}:{name}:{word}", f"{req}: {st} "
                      f"{str(r)[:250]}; range {numbers}")


def do_order(R, m):
    w = wave(e0=.2, l0=.6, n_orb=16)
    d = data(w, m)
    ok = run(method=m, dataDict=d, tref_in=w.t[len(w.t) // 3],
             extra_kwargs=spline_kw())
    flo, fhi = ref_from(ok["gwecc_object"], w).fbounds()
    pool = flo + np.array([.1, .3, .6, .9]) * (fhi - flo)
    for q in range(1, 5):
        for sel in itertools.permutations(range(4), q):
            st, r, msgs = messages(method=m, dataDict=d, fref_in=pool[
                list(sel)], extra_kwargs=spline_kw())
            R.ev()
            R.trans()
            R.state((m, sel, st))
            ev = [(("tref_in", "not", "monoton"), [])] \
                if list(sel) != sorted(sel) else []
            match(R, f"order:{m}:{sel}", ev, [("egw",), ("extra",), (
                "nonmonotonic time",)], msgs)


def do_bounds(R, m):
    w = wave(e0=.2, l0=.6, n_orb=20)
    d = data(w, m)
    for N in (None, 6, 9.5, 1000):
        for level in (0, 1):
            st, r, _ = messages(level, method=m, dataDict=d, tref_in=w.t[
                len(w.t) // 3], extra_kwargs=spline_kw(
                    use_only_these_many_orbits=N))
            for _ in range(2):
                with captured() as (out, err, c):
                    r["gwecc_object"].get_fref_bounds()
                msgs = [str(x.message) for x in c
                        if x.category is UserWarning]
                R.ev()
                R.trans()
                R.state((m, N, level, len(msgs)))
                ev = [(("short segment", "use_only_these"), [N])] \
                    if N and level else []
                match(R, f"bounds:{m}:{N}:{level}", ev, [], msgs)


def do_filter(R, a, thr):
    """Precessing signals: skipping a necessary filter is announced, for the
    quantity concerned, and nothing else is."""
    w, modes = p26.make(.03, a, .002 if a else 0, 1.25)
    for skip in (True, False):
        for level in (0, 1):
            fk = {"filter_threshold": thr, "do_not_filter": skip}
            st, r, msgs = messages(
                level, method="Amplitude", precessing=True,
                frame="coprecessing", tref_in=p26.times(w), dataDict={
                    "t": w.t.copy(), "hlm": fresh(modes)},
                extra_kwargs=spline_kw(filter_kwargs=fk))
            R.ev()
            R.trans()
            tag = f"filter:{a}:{thr}:{skip}:{level}"
            if st != "ok":
                R.bad(tag, str(r)[:200])
                continue
            if not skip:
                flags = p26.flags(r["gwecc_object"])
            said = tuple(any("skipped" in m and re.search(rf"\b{q}\b", m)
                             for m in msgs) for q in ("amp", "omega"))
            R.state((a, thr, skip, level, said))
            R.memo = getattr(R, "memo", {})
            if skip:
                R.memo[level] = said
            elif any(said):
                R.bad(tag, f"said to be skipped: {msgs}")
            elif flags != R.memo[level]:
                R.bad(tag, f"filtered {flags}, skipping announced "
                      f"{R.memo[level]}")


def do_frame(R, frame, enc):
    """Which representation is replaced by its coprecessing counterpart."""
    w, modes = p26.make(.05, 0, 0, 1.25)
    modes = {**modes, **{k: 0 * modes[2, 2] for k in ((2, 1), (2, 0),
                                                      (2, -1))}}
    d = {"t": w.t.copy()}
    if enc == 0:
        d["hlm"] = modes
    else:
        d["amplm"] = {k: abs(v) for k, v in modes.items()}
        d["phaselm"] = {k: -np.unwrap(np.angle(v)) for k, v in modes.items()}
    if enc >= 2:
        d["omegalm"] = {k: deriv4(v, w.t[1] - w.t[0])
                        for k, v in d["phaselm"].items()}
    if enc == 3:
        z = wave(e0=0., l0=0., n_orb=40)
        d["t_zeroecc"] = z.t.copy()
        d["hlm_zeroecc"] = {k: np.zeros(len(z.t), complex) for k in modes}
        d["hlm_zeroecc"][2, 2] = z.hlm[2, 2].copy()
        d["hlm_zeroecc"][2, -2] = np.conj(z.hlm[2, 2])
    for level in (0, 1):
        st, r, msgs = messages(level, method="Amplitude", precessing=True,
                               frame=frame, tref_in=p26.times(w)[2:5],
                               dataDict=fresh(d), extra_kwargs=spline_kw())
        R.ev()
        R.trans()
        R.state((frame, enc, level, st))
        tag = f"frame:{frame}:{enc}:{level}"
        if st != "ok":
            R.bad(tag, str(r)[:200])
            continue
        ev = []
        if frame == "inertial" and level:
            ev.append((("precessing", "inertial", "transform"), []))
            if enc:
                ev.append((("removing", "amplm", "phaselm"), []))
            if enc >= 2:
                ev.append((("removing", "omegalm"), []))
        match(R, tag, ev, [("nonmonotonic",), ("extra",), ("too close",)], msgs)
