"""P09: missing, spurious and surplus extrema.  Detection is scripted (the
documented extension point `find_extrema`), and every fault pattern up to the
bound is imposed on the true extrema; the extrema that the measurement then
uses are compared with a reference model of the documented cleaning rules."""
import itertools

import numpy as np

from mc.common import *          # noqa

META = dict(
    level="model_checking",
    rule="state = (pericentre fault pattern, apocentre fault pattern); "
         "transition = one run of the measurement on it; family D: all "
         "subsets of missing extrema of one kind; family B: all pairs of "
         "missing prefixes/suffixes/single holes of both kinds; family I: all "
         "insertions of up to 2 spurious extrema; the run's extrema, supported "
         "range, eccentricity and mean anomaly are compared with the model",
    assumptions=["a jump is a phase step more than 1.5 times its neighbour, a "
                 "too-close pair is less than one orbit (4 pi) apart, as "
                 "documented"],
)
WK = [dict(e0=.25, l0=1.2, n_orb=15), dict(e0=.15, l0=3.6, n_orb=11, k=.05)]


def clean_one(x, phase):
    x = list(x)
    d = [phase[b] - phase[a] for a, b in zip(x, x[1:])]
    r = [b / a for a, b in zip(d, d[1:])]
    mid = len(r) // 2
    grow = [i for i, q in enumerate(r) if q > 1.5]
    shrink = [i for i, q in enumerate(r) if q < 1 / 1.5]
    hi = len(x)
    lo = 0
    if grow and grow[0] > mid:          # gap in the second half
        hi = grow[0] + 2
    if shrink and shrink[-1] < mid:     # gap in the first half
        lo = shrink[-1] + 1
    x = x[lo:hi]
    d = [phase[b] - phase[a] for a, b in zip(x, x[1:])]
    mid = len(d) // 2
    close = [i for i, q in enumerate(d) if q < 4 * np.pi]
    lo, hi = 0, len(x)
    if close and close[0] > mid:
        hi = close[0] + 1
    if close and close[-1] < mid:
        lo = close[-1] + 1
    return x[lo:hi]


def clean(P, A, phase):
    P, A = clean_one(P, phase), clean_one(A, phase)
    if not P or not A:
        return P, A

    def ends(x, y):
        after = [v for v in x if v > y[-1]]
        return [v for v in x if v <= after[0]] if len(after) > 1 else x

    def starts(x, y):
        before = [v for v in x if v < y[0]]
        return [v for v in x if v >= before[-1]] if len(before) > 1 else x
    P = ends(P, A)
    A = ends(A, P)
    P = starts(P, A)
    A = starts(A, P)
    return P, A


def cases(tier):
    out = []
    wks = range(1 if tier == "quick" else 2)
    for k in wks:
        w = wave(**WK[k])
        P, A = w.extrema()
        for who, n in ((0, len(P)), (1, len(A))):
            for hi in range(2 ** max(0, n - 4)):
                out.append(["D", k, who, hi])
        holes = patterns(len(P))
        for i in range(len(holes)):
            out.append(["B", k, i])
        for who in (0, 1):
            for i in range(-1, (len(P), len(A))[who]):
                out.append(["I", k, who, i, tier])
    return out


def patterns(n):
    """missing prefix / suffix / single hole, as tuples of removed indices"""
    out = [()]
    for m in range(1, n - 1):
        out.append(tuple(range(m)))
        out.append(tuple(range(n - m, n)))
    out += [(i,) for i in range(1, n - 1)]
    return list(dict.fromkeys(out))


def one(w, P, A, tag, R, dom="t"):
    cls = scripted("Amplitude")
    cls.script = {"pericenters": P, "apocenters": A}
    kw = dict(spline_kw(), return_zero_if_small_ecc_failure=False)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        st, obj = attempt(cls, w.data(), tref_in=w.t.copy(), extra_kwargs=kw)
        if st == "ok":
            st, r = attempt(obj.measure_ecc)
        else:
            r = obj
    R.ev()
    R.trans()
    enough = len(P) >= 2 and len(A) >= 2
    gp, ga = clean(P, A, w.phase) if enough else ([], [])
    ok = len(gp) >= 2 and len(ga) >= 2
    R.state((tag, st))
    if ok:
        tp, ta = w.t[gp], w.t[ga]
        lo, hi = max(tp[0], ta[0]), min(tp[-1], ta[-1])
        sup = w.t[(w.t >= lo) & (w.t <= hi)]
        ok = len(sup) > 0
    if not ok:
        if st == "ok":
            R.bad(tag, f"too few usable extrema ({gp}, {ga}) but numbers were "
                  "returned")
        return
    if st == "err":
        R.bad(tag, f"refused although {len(gp)} pericentres and {len(ga)} "
              f"apocentres are usable: {type(r).__name__} {str(r)[:150]}")
        return
    if not (same(obj.t_pericenters, tp) and same(obj.t_apocenters, ta)):
        R.bad(tag, f"extrema used {np.searchsorted(w.t, obj.t_pericenters)}, "
              f"{np.searchsorted(w.t, obj.t_apocenters)}; expected {gp}, {ga}")
        return
    if not same(r["tref_out"], sup):
        R.bad(tag, f"supported range {r['tref_out'][[0,-1]]} expected "
              f"{sup[[0,-1]]}")
        return
    ref = Ref(w.t, w.phase, tp, ta)
    j = np.linspace(0, len(sup) - 1, 9).astype(int)
    if not same(r["eccentricity"][j], ref.ecc(sup[j]), atol=1e-8) or \
            np.max(angdiff(r["mean_anomaly"][j], ref.mean_ano(sup[j]))) > 1e-8:
        R.bad(tag, "eccentricity or mean anomaly not from the extrema used")


def check(case, R):
    fam, k = case[:2]
    w = wave(**WK[k])
    P, A = (list(map(int, x)) for x in w.extrema())
    if fam == "D":
        who, hi = case[2:]
        X = (P, A)[who]
        nl = min(4, len(X))
        for low in range(2 ** nl):
            mask = hi << nl | low
            Y = [x for i, x in enumerate(X) if not mask >> i & 1]
            one(w, Y if who == 0 else P, Y if who else A,
                f"D:{k}:{who}:{mask}", R)
    elif fam == "B":
        hp = patterns(len(P))[case[2]]
        for ha in patterns(len(A)):
            one(w, [x for i, x in enumerate(P) if i not in hp],
                [x for i, x in enumerate(A) if i not in ha],
                f"B:{k}:{hp}:{ha}".replace(" ", ""), R)
    else:
        who, i, tier = case[2:]
        X = (P, A)[who]
        n = len(X)
        # candidate spurious positions: just after / before a true one, or
        # in the middle of a period
        def spur(j, kind):
            if kind == 0:
                return X[j] + 7
            if kind == 1:
                return X[j] - 7
            return (X[j] + X[j + 1]) // 2 if j + 1 < n else X[j] + 21
        first = [] if i < 0 else [spur(i, q) for q in range(3)]
        seconds = [None] + [spur(j, q) for j in range(n) for q in range(3)]
        if i < 0:
            firsts = [None]
        else:
            firsts = first
        for a in firsts:
            for b in seconds:
                if a is None and b is None:
                    extra = []
                else:
                    extra = [v for v in (a, b) if v is not None]
                # a spurious and a missing one together
                for miss in ([None] if tier == "quick" and b is not None
                             else [None, 0, 1, n // 2, n - 2, n - 1]):
                    Y = sorted({x for j, x in enumerate(X) if j != miss}
                               | set(extra))
                    one(w, Y if who == 0 else P, Y if who else A,
                        f"I:{k}:{who}:{extra}:{miss}".replace(" ", ""), R)
