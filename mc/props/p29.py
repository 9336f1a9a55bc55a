"""P29: the numerical building blocks, on all small inputs of a basis."""
import itertools

import numpy as np

from mc.common import *          # noqa
from gw_eccentricity import utils as U

META = dict(
    level="exploration",
    rule="D = derivative of every monomial of degree 0-4 (the operator is "
         "linear: a basis decides all quartics) at every sample, for every "
         "length 5-14, step, origin and data type; Q = peak of every parabola "
         "of a grid for every length 5-10 and peak position; S = interpolants "
         "for every number of nodes 1-8, order 1-5, polynomial of degree <= "
         "order, data type, extrapolation choice and request position; K = "
         "option validation for all subsets of keys; A = combined amplitude "
         "for all mode subsets. State = (case, outcome)",
    assumptions=["spacing of the nodes from a fixed list"],
)
DTS = [1.0, 0.1, 2.5e-4, 3.0, -0.5]
EXC = (Exception,)


def cases(tier):
    out = [["D", n] for n in range(1, 15 if tier == "quick" else 40)]
    out += [["Q", n] for n in range(5, 11 if tier == "quick" else 25)]
    out += [["S", n, k] for n in range(0, 9 if tier == "quick" else 14)
            for k in range(1, 6)]
    out += [["M", n] for n in range(2, 8)] + [["K"], ["A"]]
    return out


def check(case, R):
    globals()["do_" + case[0]](R, *case[1:])


def do_D(R, n):
    for deg, dt, off, kind in itertools.product(
            range(5), DTS, (0, -3, 7), ("float", "int", "complex", "strided",
                                        "single")):
        x = np.arange(n, dtype=float) + off
        y = x ** deg
        want = (deg * x ** (deg - 1) if deg else 0 * x) / dt
        tol = 1e-11
        if kind == "int":
            y = y.astype(int)
        elif kind == "single":
            y, tol = y.astype(np.float32), 2e-5
        elif kind == "complex":
            y, want = y * (2 - 3j), want * (2 - 3j)
        elif kind == "strided":
            y = np.repeat(y, 2)[::2]
        y0 = y.copy()
        st, r = attempt(U.time_deriv_4thOrder, y, dt)
        tag = f"D:{n}:{deg}:{dt}:{off}:{kind}"
        R.ev()
        R.state((tag, st))
        if n < 5:
            if st == "ok" and not np.allclose(r, want):
                R.bad(tag, f"wrong derivative of {n} samples returned: {r}")
            continue
        if st != "ok":
            R.bad(tag, f"{type(r).__name__}: {r}")
            continue
        scale = max(1, np.max(np.abs(y0)) / abs(dt))
        if np.shape(r) != np.shape(y) or np.any(
                np.abs(r - want) > tol * scale):
            R.bad(tag, f"derivative {r}, expected {want}")
        if not np.array_equal(y, y0):
            R.bad(tag, "the data were modified")


def do_Q(R, n):
    for i, fr, dt, t0, curv, h in itertools.product(
            range(n), (-.45, -.1, 0., .2, .49), (1., .25, 3e-4),
            (0., -1234.5, 1e4), (-1., -1e-3), (1., 5e-3)):
        t = t0 + dt * np.arange(n)
        u = np.arange(n) - (i + fr)
        f = h * (1 + curv * u ** 2)
        tag = f"Q:{n}:{i}:{fr}:{dt}:{t0}:{curv}:{h}"
        f0, tt = f.copy(), t.copy()
        st, r = attempt(U.peak_time_via_quadratic_fit, t, f)
        R.ev()
        R.state((tag, st))
        if st != "ok":
            R.bad(tag, f"{type(r).__name__}: {r}")
            continue
        want = t0 + dt * (i + fr)
        if abs(r[0] - want) > 1e-6 * dt + 1e-10 * abs(t0) \
                or abs(r[1] - h) > 1e-6 * h:
            R.bad(tag, f"peak at {r}, expected {(want, h)}")
        if not (np.array_equal(f, f0) and np.array_equal(t, tt)):
            R.bad(tag, "the data were modified")


def nodes(n):
    yield np.arange(n, dtype=float)
    yield -50. + 7.5 * np.arange(n)
    yield np.cumsum(np.array([1., .3, 2.2, .7, 1.6] * 3)[:n]) - 4


def do_S(R, n, k):
    for (j, x), ext, extra, mode, deg in itertools.product(
            enumerate(nodes(n)), (None, 0, 1, 2), (False, True),
            ("interpolate", "get_interpolant"), range(k + 1)):
        # extrapolation with ext=1 means zeros, documented by scipy
        if extra and ext == 1:
            continue
        y = np.polyval(np.arange(1, deg + 2), x) if n else x.copy()
        kw = {"k": k} if ext is None else {"k": k, "ext": ext}
        snap = snapshot((x, y, kw))
        tag = f"S:{n}:{k}:{j}:{ext}:{extra}:{mode}:{deg}"
        if n < 2:
            st, r = attempt(U.get_interpolant, x, y, extra,
                            spline_kwargs=kw)
            R.ev()
            R.state((tag, st))
            if st == "ok":
                R.bad(tag, f"an interpolant of {n} points was returned")
            continue
        span = x[-1] - x[0]
        inside = np.unique(np.concatenate([x, x[0] + span * np.array(
            [.013, .31, .5, .77, .991])]))
        outs = [x[0] - .01 * span, x[-1] + .01 * span]
        kk = min(k, n - 1)

        def call(q):
            if mode == "interpolate":
                return attempt(U.interpolate, q, x, y, extra,
                               spline_kwargs=kw)
            s, f = attempt(U.get_interpolant, x, y, extra, spline_kwargs=kw)
            return attempt(f, q) if s == "ok" else (s, f)

        st, r = call(inside)
        R.ev()
        R.state((tag, st))
        scale = np.max(np.abs(y)) + 1
        if st != "ok":
            R.bad(tag, f"{type(r).__name__}: {r}")
            continue
        at = np.searchsorted(inside, x)
        if np.any(np.abs(r[at] - y) > 1e-9 * scale):
            R.bad(tag, "the interpolant misses its own points")
        if deg <= kk:
            want = np.polyval(np.arange(1, deg + 2), inside)
            if np.any(np.abs(r - want) > 1e-8 * scale):
                R.bad(tag, f"degree {deg} not reproduced by order {kk}")
        for q in outs:
            for req in (q, np.array([x[0], q]), np.array([q, x[-1], x[0]])):
                st, r = call(req)
                R.ev()
                if extra:
                    if st != "ok":
                        R.bad(tag, f"extrapolation to {req} was allowed: {r}")
                    elif deg <= kk and np.any(
                            np.abs(r - np.polyval(np.arange(1, deg + 2), req))
                            > 1e-7 * scale):
                        R.bad(tag, f"extrapolated to {req}: {r}")
                elif st == "ok":
                    R.bad(tag, f"extrapolated to {req} without permission")
        if snapshot((x, y, kw)) != snap:
            R.bad(tag, f"the caller's data or options were modified: {kw}")
    if n < 2:
        return
    # nodes that are not increasing, lengths that differ
    for p in itertools.permutations(range(min(n, 4))):
        x = np.array(p + tuple(range(min(n, 4), n)), dtype=float)
        st, r = attempt(U.get_interpolant, x, x ** 2, spline_kwargs={"k": k})
        R.ev()
        R.state((n, k, p, st))
        if (st == "ok") != (list(x) == sorted(x)):
            R.bad(f"S:{n}:{k}:order:{p}", f"nodes {x}: {st}")
    for i in range(n - 1):
        x = np.arange(n, dtype=float)
        x[i + 1] = x[i]
        st, r = attempt(U.interpolate, x[0], x, x, spline_kwargs={"k": k})
        R.ev()
        if st == "ok":
            R.bad(f"S:{n}:{k}:tie:{i}", "repeated nodes were accepted")
    for a in (-1, 1):
        x = np.arange(n + 3, dtype=float)
        y = np.arange(n + 3 + a, dtype=float)
        st, r = attempt(U.interpolate, 1., x, y, spline_kwargs={"k": k})
        R.ev()
        if st == "ok":
            R.bad(f"S:{n}:{k}:len:{a}", "lengths differ and were accepted")


def do_M(R, n):
    """Monotonic interpolation: all up/down patterns of n nodes."""
    for j, x in enumerate(nodes(n)):
        for pat in itertools.product((-1, 0, 2), repeat=n - 1):
            y = np.cumsum((3,) + pat).astype(float)
            g = np.linspace(x[0], x[-1], 10 * n + 1)
            st, r = attempt(U.interpolate, g, x, y, False, "monotonic_spline")
            tag = f"M:{n}:{j}:{pat}"
            R.ev()
            R.state((tag, st))
            if st != "ok":
                R.bad(tag, f"{type(r).__name__}: {r}")
                continue
            i = np.clip(np.searchsorted(x, g) - 1, 0, n - 2)
            lo, hi = np.minimum(y[i], y[i + 1]), np.maximum(y[i], y[i + 1])
            if np.any(r < lo - 1e-9) or np.any(r > hi + 1e-9):
                R.bad(tag, "overshoots the points it interpolates")
    for bad in ("linear", "", "Spline", None):
        st, r = attempt(U.get_interpolant, np.arange(5.), np.arange(5.),
                        interpolator=bad)
        if st == "ok":
            R.bad(f"M:{bad}", "an unknown interpolator was accepted")
    st, r = attempt(U.interpolate, 9., np.arange(5.), np.arange(5.), False,
                    "monotonic_spline")
    if st == "ok" and not np.all(np.isnan(r)):
        R.bad("M:extra", "extrapolated without permission")


def do_K(R):
    default = {"a": 1, "b": None, "c": {"x": 0}}
    pool = ["a", "b", "c", "A", "d", ""]
    for n in range(len(pool) + 1):
        for keys in itertools.combinations(pool, n):
            user = {k: ("given", k) for k in keys}
            st, r = attempt(U.check_kwargs_and_set_defaults, dict(user),
                            default, "options", "here")
            R.ev()
            R.state((keys, st))
            legal = set(keys) <= set(default)
            if (st == "ok") != legal or (not legal
                                         and not isinstance(r, ValueError)):
                R.bad(f"K:{keys}", f"options {keys}: {st} {r}")
            elif legal and r != {**default, **user}:
                R.bad(f"K:{keys}", f"options {user} became {r}")
    if U.check_kwargs_and_set_defaults(None, default) != default:
        R.bad("K:None", "no options do not mean the defaults")
    if default != {"a": 1, "b": None, "c": {"x": 0}}:
        R.bad("K:default", "the defaults were modified")


def do_A(R):
    x = np.linspace(0, 3, 7)
    modes = {(2, 2): 3 * np.exp(1j * x), (2, -2): x * np.exp(-2j * x),
             (2, 1): 0 * x + 0j, (3, 3): -2 + 0j * x, (4, 0): 1j * x ** 2}
    for n in range(1, 6):
        for ks in itertools.permutations(modes, n):
            want = np.sqrt(sum(np.abs(modes[k]) ** 2 for k in ks))
            for dt, f in (("hlm", lambda v: v), ("amplm", np.abs)):
                st, r = attempt(U.amplitude_using_all_modes,
                                {k: f(modes[k]) for k in ks}, dt)
                R.ev()
                R.state((ks, dt, st))
                if st != "ok" or not np.allclose(r, want, rtol=1e-12):
                    R.bad(f"A:{ks}:{dt}", f"{r} instead of {want}")
    st, r = attempt(U.amplitude_using_all_modes, modes, "phaselm")
    if st == "ok":
        R.bad("A:type", "unknown data type accepted")
