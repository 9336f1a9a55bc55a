"""P15: the adaptive rational fit through the extrema.

The controller that raises and lowers the degrees is modelled as a small
nondeterministic transition system over (numerator, denominator) degrees; its
only nondeterminism is a monotonicity decision within round-off of the
threshold. Every number of extrema, every user-given degree and every data
shape of the bound is run through the real measurement, whose final fits must be
reachable final states of the model."""
import itertools

import numpy as np
from gw_eccentricity.rational_fit import (RationalFit, get_reduced_degrees,
                                          is_underdetermined)

from mc.common import *          # noqa

META = dict(
    level="model_checking",
    rule="C = number of extrema 2..68 x data shape x default degrees and "
         "every user degree 0..6 x 0..6 for few extrema, scripted detection "
         "and frequencies: final fits of the measurement must be final states "
         "of the controller model (states = degrees, transitions = fits); "
         "G = the degree reduction for all degrees 0..9 and 0..24 points; "
         "F = rational functions of all degrees, scales and sizes are "
         "reproduced; H = iteration counts 1..12: the best iterate is kept; "
         "E = argument errors, shapes and range warnings",
    assumptions=["a fit is monotonic when its sampled time derivative never "
                 "changes sign (the documented check, tolerance 1)",
                 "apocentres may start from their own or from the "
                 "pericentres' degrees"],
)
WK = dict(e0=.3, l0=1.2, n_orb=75, n0=.02, dt=2.0)
SHAPES = ["real", "linear", "flat", "noise3", "noise2", "noise1", "down",
          "bump", "spike", "chirp", "const"]


def cases(tier):
    th = tier == "thorough"
    out = []
    ks = list(range(2, 69)) if th else \
        [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 19, 20, 21, 25, 31, 39, 40, 41,
         47, 59, 60, 61, 66, 68]
    for k in ks:
        for s in SHAPES:
            out.append(["C", k, s, None, 0])
            if k in (3, 8, 20, 21, 40, 41, 60, 61) or th:
                out.append(["C", k, s, None, 1])
                out.append(["C", k, s, None, -1])
    for k in ([4, 7, 10] if not th else [2, 3, 4, 5, 7, 10, 14, 30]):
        for s in SHAPES:
            for m in range(7):
                out.append(["D", k, s, m])
    out.append(["G"])
    for m, n in itertools.product(range(5), range(5)):
        out.append(["F", m, n])
    for s in SHAPES:
        out.append(["H", s])
    out.append(["E"])
    out.append(["U"])
    return out


def shape(s, x):
    """Values at the extrema (positions x scaled to 0..1)."""
    i = np.arange(len(x))
    if s == "linear":
        return .02 + .01 * x
    if s == "flat":
        return .02 + 1e-6 * x
    if s == "const":
        return .02 + 0 * x
    if s.startswith("noise"):
        return .02 + .01 * x ** 2 + 10.0 ** -(int(s[5]) + 1) * np.sin(3.7 * i * i)
    if s == "down":
        return .03 - .008 * x ** 2
    if s == "bump":
        return .02 + .01 * x + .01 * np.exp(-((x - .5) / .1) ** 2)
    if s == "spike":
        y = .02 + .01 * x
        y[len(y) // 2] += .01
        return y
    if s == "chirp":
        return .02 * (1.02 - x) ** (-3. / 8)
    raise ValueError(s)


def build(k, dk, s):
    """wave, scripted extrema (k pericentres, k+dk apocentres), frequencies"""
    w = wave(**WK)
    P, A = w.extrema()
    n = max(k, k + dk)
    j = max(0, len(P) - n - 1) if s == "real" else 1
    P = P[j:j + k]
    A = A[A > P[0]] if dk <= 0 else A[np.argmax(A > P[0]) - 1:]
    A = A[:k + dk]
    om = deriv4(w.phase, w.t[1] - w.t[0])
    if s == "real":
        return w, P, A, om
    for ix, f in ((P, 1.0), (A, .6)):
        x = (w.t[ix] - w.t[ix[0]]) / max(w.t[ix[-1]] - w.t[ix[0]], 1)
        om[ix] = f * shape(s, x)
    return w, P, A, om


def under(d, n):
    return d[0] + d[1] + 1 >= n


def reduce_model(d, n):
    m, k = d
    turn = 0
    while under((m, k), n):
        if turn == 0 and k > 0:
            k -= 1
        elif m > 0:
            m -= 1
        elif k == 0:
            return None
        turn ^= 1
    return m, k


class Model:
    """The controller. verdict(d) in {True, False, None}: nonmonotonic,
    monotonic, undecided within round-off."""

    def __init__(self, x, y, dt, opts=None):
        self.x, self.y = x, y
        self.grid = np.arange(x[0], x[-1], dt)
        self.cache = {}
        self.opts = opts or {}
        self.transitions = 0

    def fit(self, d):
        if d not in self.cache:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = RationalFit(self.x, self.y, d)
                r.fit(max_iterations=self.opts.get("max_iterations", 20),
                      tol=self.opts.get("tol", 1e-7))
                v = r(self.grid)
                g = np.gradient(v, self.grid[1] - self.grid[0])
            scale = np.nanmax(np.abs(v)) * 1e-9 / (self.grid[1] - self.grid[0])
            if not np.all(np.isfinite(g)):
                verdict = None
            else:
                with np.errstate(all="ignore"):
                    q = g[1:] / g[:-1]
                strict = bool(np.any(q <= 0))
                clear = np.abs(g) > scale
                sg = np.sign(g[clear])
                robust = bool(np.any(sg[1:] != sg[:-1]))
                verdict = strict if strict == robust else None
            self.cache[d] = (r, verdict)
        self.transitions += 1
        return self.cache[d]

    def finals(self, start):
        """All possible final degrees; 'spline' for the fallback."""
        start = reduce_model(start, len(self.x))
        if start is None:
            return {"error"}
        out = set()
        for bad in self.both(start):
            out |= self.lower(start) if bad else self.higher(start)
        return out

    def both(self, d):
        v = self.fit(d)[1]
        return (True, False) if v is None else (v,)

    def lower(self, d):
        if d[0] <= 1 and d[1] <= 1:
            return {"spline"}
        nd = (max(d[0] - 1, 1), max(d[1] - 1, 1))
        out = set()
        for bad in self.both(nd):
            out |= self.lower(nd) if bad else {nd}
        return out

    def higher(self, d):
        nd = (d[0] + 1, d[1] + 1)
        if under(nd, len(self.x)):
            return {d}
        out = set()
        for bad in self.both(nd):
            out |= {d} if bad else self.higher(nd)
        return out


def default_start(nx):
    return (3, 3) if nx <= 20 else (4, 4) if nx <= 40 else (5, 5) \
        if nx <= 60 else (6, 6)


def explore_one(k, dk, s, deg, R, special=None):
    w, P, A, om = build(k, dk, s)
    if len(A) < 2 or len(P) < 2:
        return
    cls = scripted("Amplitude")
    cls.script = {"pericenters": P, "apocenters": A}
    d = w.data()
    d["omegalm"] = {(2, 2): om}
    sp = dict(special or {})
    if deg is not None:
        sp["degrees"] = deg
    kw = {"return_zero_if_small_ecc_failure": False}
    if sp:
        kw["special_interp_kwargs_for_omega_gw_extrema"] = sp
    key = f"{k}:{dk}:{s}:{deg}:{special}"
    lo, hi = max(P[0], A[0]), min(P[-1], A[-1])
    tr = w.t[np.linspace(lo, hi, 7).astype(int)]
    with captured() as (_, _, wn):
        st, obj = attempt_raw(cls, d, tref_in=tr, extra_kwargs=kw)
        if st == "ok":
            st, r = attempt_raw(obj.measure_ecc)
        else:
            r = obj
    R.ev()
    mp = Model(w.t[P], om[P], w.t[1] - w.t[0], sp)
    ma = Model(w.t[A], om[A], w.t[1] - w.t[0], sp)
    start = deg or default_start(max(len(P), len(A)))
    fp = mp.finals(tuple(start))
    if st != "ok":
        R.state((k, s, deg, "err"))
        R.bad("err:" + key, f"{type(r).__name__}: {str(r)[:200]}")
        return
    starts = {tuple(start)}
    starts |= {f for f in fp if f not in ("spline", "error")}
    if "spline" in fp:          # the initial degrees are then estimated anew
        starts.add(default_start(max(len(P), len(A))))
    fa = set().union(*[ma.finals(q) for q in starts])
    R.trans(mp.transitions + ma.transitions)
    fell = False
    for name, m, fin, got, x, y in (
            ("pericentres", mp, fp, obj.omega_gw_pericenters_interp, w.t[P],
             om[P]),
            ("apocentres", ma, fa, obj.omega_gw_apocenters_interp, w.t[A],
             om[A])):
        grid = m.grid
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = np.array(got(grid))
        hit = None
        for f in sorted(fin, key=str):
            if f == "error":
                continue
            if f == "spline":
                ref = InterpolatedUnivariateSpline(
                    x, y, k=min(3, len(x) - 1))(grid)
            else:
                ref = m.fit(f)[0](grid)
            if np.allclose(v, ref, rtol=1e-7, atol=1e-12, equal_nan=True):
                hit = f
                break
        R.state((k, dk, s, deg, name, hit))
        if hit is None:
            R.bad(f"final:{name}:{key}",
                  f"{len(x)} {name}, shape {s}, degrees {deg}: the interpolant "
                  f"(reported {getattr(got, 'degrees', 'spline')}) is none of "
                  f"the reachable final fits {sorted(fin, key=str)}")
            return
        fell |= hit == "spline"
    # the reported eccentricity is that of these interpolants
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = obj.omega_gw_pericenters_interp(r["tref_out"])
        a = obj.omega_gw_apocenters_interp(r["tref_out"])
    if np.all(p > a) and np.all(a > 0):
        e = ecc_map((np.sqrt(p) - np.sqrt(a)) / (np.sqrt(p) + np.sqrt(a)))
        if not same(e, r["eccentricity"], 1e-8, 1e-10):
            R.bad("ecc:" + key, "eccentricity is not that of the interpolants")
    if fell and not wn:
        R.bad("silent:" + key, "fell back to a spline without any warning")


def attempt_raw(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err", e


def check(case, R):
    kind = case[0]
    if kind == "C":
        explore_one(case[1], case[4], case[2], case[3], R)
    elif kind == "D":
        for n in range(7):
            explore_one(case[1], 0, case[2], (case[3], n), R)
    elif kind == "U":
        for special in (dict(max_iterations=1), dict(max_iterations=3),
                        dict(tol=1e-2), dict(max_iterations=40, tol=1e-12)):
            for k in (5, 9, 30):
                for s in ("real", "noise2", "chirp"):
                    explore_one(k, 0, s, None, R, special)
                    explore_one(k, 0, s, (2, 2), R, special)
    elif kind == "G":
        for m, n, pts in itertools.product(range(10), range(10), range(25)):
            R.ev()
            if bool(is_underdetermined((m, n), pts)) != under((m, n), pts):
                R.bad(f"under:{m}:{n}:{pts}", "underdetermined decision")
            want = reduce_model((m, n), pts)
            st, got = attempt(get_reduced_degrees, (m, n), pts)
            R.state((m, n, pts, st))
            if (st == "err") != (want is None):
                R.bad(f"red:{m}:{n}:{pts}", f"{st} {got}, expected {want}")
            elif want is not None and tuple(got) != want:
                R.bad(f"red:{m}:{n}:{pts}", f"{got}, expected {want}")
            elif want is None and not isinstance(got, ValueError):
                R.bad(f"red:{m}:{n}:{pts}", f"{type(got).__name__}")
    elif kind == "F":
        recover(case[1], case[2], R)
    elif kind == "H":
        best(case[1], R)
    elif kind == "E":
        errors(R)


def recover(m, n, R):
    """Samples of a rational function of these degrees are reproduced."""
    roots = [1.7, -2.1, 2.6, -3.2]
    zeros = [-1.5, 1.9, -2.4, 3.1]

    def f(u):
        p = np.ones_like(u)
        for z in zeros[:m]:
            p = p * (u - z)
        q = np.ones_like(u)
        for z in roots[:n]:
            q = q * (u - z)
        return p / q
    for pts in (m + n + 2, m + n + 3, m + n + 6, 30):
        for a, b in ((1., 0.), (1e4, -3e4), (1e-3, 5.), (250., 1e5)):
            for irregular in (False, True):
                u = np.linspace(-1, 1, pts)
                if irregular:
                    u = np.sign(u) * np.abs(u) ** 1.3
                x = a * u + b
                with warnings.catch_warnings(record=True) as wn:
                    warnings.simplefilter("always")
                    r = RationalFit(x, f(u), (m, n))
                    r.fit(max_iterations=20, tol=1e-7)
                    new = np.linspace(-.97, .97, 41)
                    v = r(a * new + b)
                R.ev()
                err = np.max(np.abs(v - f(new)) / np.max(np.abs(f(new))))
                R.state((m, n, pts, a, irregular, int(np.log10(err + 1e-16))))
                key = f"fit:{m}:{n}:{pts}:{a}:{int(irregular)}"
                if not err < 1e-6:
                    R.bad(key, f"a rational function of degrees {(m, n)} from "
                               f"{pts} points is reproduced only to {err:.1e}")
                if [q for q in wn if "range" in str(q.message)
                        or "data points" in str(q.message)]:
                    R.bad("warn:" + key, str(wn[0].message)[:100])
                s = r(float(a * new[3] + b))
                if not np.isscalar(s) and np.ndim(s) != 0 or \
                        not np.isclose(s, v[3], rtol=1e-12):
                    R.bad("scalar:" + key, f"{s!r} vs {v[3]!r}")
                for q in (r(list(a * new + b)),
                          np.concatenate([r(a * new[:7] + b),
                                          r(a * new[7:] + b)])):
                    if not same(q, v, 1e-12, 1e-14):
                        R.bad("eval:" + key, "evaluation depends on the batch")


def best(s, R):
    for k in (6, 9, 15, 30):
        w, P, A, om = build(k, 0, s)
        for d in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 3), (4, 4)):
            if under(d, k):
                continue
            last = np.inf
            for it in range(1, 13):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    r = RationalFit(w.t[P], om[P], d)
                    r.fit(max_iterations=it, tol=0)
                    res = np.linalg.norm(r(w.t[P]) - om[P])
                R.ev()
                R.state((s, k, d, it, float(res)))
                if not res <= last * (1 + 1e-6) + 1e-12:
                    R.bad(f"best:{s}:{k}:{d}:{it}",
                          f"residual grew from {last:.3e} to {res:.3e} with "
                          f"one more iteration (degrees {d}, {k} points)")
                    break
                last = min(res, last)


def errors(R):
    x = np.arange(10.)
    y = 1 / (x + 3)
    bad = [((x, y[:-1], (1, 1)), "lengths"), ((x, y, 3), "degrees"),
           ((x, y, (1, 2, 3)), "degrees3"), ((x, y, (-1, 2)), "negative"),
           ((x, y, (2, -1)), "negative2")]
    for a, tag in bad:
        st, r = attempt(RationalFit, *a)
        R.ev()
        R.state((tag, st))
        if st == "ok" or not isinstance(r, ValueError):
            R.bad("arg:" + tag, f"accepted or {type(r).__name__}")
    r = RationalFit(x, y, (1, 1))
    st, q = attempt(r, 1.0)
    if st == "ok":
        R.bad("arg:unfitted", "evaluated before fitting")
    r.fit()
    for x0, out in ((0., 0), (9., 0), (4.5, 0), (-.01, 1), (9.01, 1),
                    ([1., 9.5], 1), ([-1., 3.], 1)):
        with warnings.catch_warnings(record=True) as wn:
            warnings.simplefilter("always")
            v = r(x0)
        R.ev()
        R.state(("range", str(x0), len(wn)))
        if bool(wn) != bool(out):
            R.bad(f"range:{x0}", f"{len(wn)} warning(s) for {x0}")
        if not np.allclose(v, 1 / (np.asarray(x0) + 3), rtol=1e-8):
            R.bad(f"extra:{x0}", "wrong value")
