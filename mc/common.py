"""Shared drivers around the real package in /repo (imported, never copied)."""
import contextlib
import copy
import io
import os
import warnings

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline

from gw_eccentricity.gw_eccentricity import (measure_eccentricity,
                                             get_available_methods)
from gw_eccentricity.eccDefinition import eccDefinition

from mc.wf import Wave

METHODS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency",
           "AmplitudeFits", "FrequencyFits"]
FAST = METHODS[:4]
RESIDUAL = ["ResidualAmplitude", "ResidualFrequency"]

_waves = {}


def wave(**kw):
    """Cached analytic waveform (treat as read only)."""
    key = tuple(sorted(kw.items()))
    if key not in _waves:
        if len(_waves) > 64:
            _waves.clear()
        _waves[key] = Wave(**kw)
    return _waves[key]


def data_for(w, method=None, zero=None, zkw=None):
    """Fresh dataDict for wave w, with a quasicircular partner if needed."""
    d = w.data()
    if zero or (zero is None and method in RESIDUAL):
        n = (w.t[-1] - w.t[0]) / 6000
        z = wave(e0=0.0, l0=0.0, **(zkw or dict(
            n_orb=16 if n < 1 else 60 * int(n + 1))))
        d["t_zeroecc"] = z.t.copy()
        d["hlm_zeroecc"] = {k: v.copy() for k, v in z.hlm.items()}
    return d


def run(**kw):
    """measure_eccentricity, quietly. Returns the result dictionary."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return measure_eccentricity(**kw)


def attempt(f, *a, **k):
    """('ok', value) or ('err', exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", f(*a, **k)
    except Exception as e:
        return "err", e


def spline_kw(**more):
    d = {"omega_gw_extrema_interpolation_method": "spline"}
    d.update(more)
    return d


def ecc_map(ew):
    """e_gw from e_omega22 (Eq. 8 of arXiv:2302.11257), written independently:
    the root of the Newtonian relation via complex cube roots."""
    ew = np.asarray(ew, dtype=float)
    # psi = atan2(1-ew^2, 2 ew);  e = cos(psi/3) - sqrt(3) sin(psi/3)
    #     = 2 cos(psi/3 + pi/3) = 2 Re[(exp(i psi))^(1/3) exp(i pi/3)]
    z = (2 * ew + 1j * (1 - ew ** 2))
    z = z / np.abs(z)
    return 2 * (z ** (1. / 3) * np.exp(1j * np.pi / 3)).real


def deriv4(f, dt):
    """4th order finite differences as documented for the frequency."""
    d = np.empty_like(f)
    d[2:-2] = (f[:-4] - 8 * f[1:-3] + 8 * f[3:-1] - f[4:]) / (12 * dt)
    d[0] = (-25 * f[0] + 48 * f[1] - 36 * f[2] + 16 * f[3] - 3 * f[4]) / (12 * dt)
    d[1] = (-3 * f[0] - 10 * f[1] + 18 * f[2] - 6 * f[3] + f[4]) / (12 * dt)
    d[-1] = (25 * f[-1] - 48 * f[-2] + 36 * f[-3] - 16 * f[-4] + 3 * f[-5]) / (12 * dt)
    d[-2] = (3 * f[-1] + 10 * f[-2] - 18 * f[-3] + 6 * f[-4] - f[-5]) / (12 * dt)
    return d


class Ref:
    """Reference model of the measurement, given the extrema used.

    t, phase: full input samples.  tp/ta: pericentre / apocentre times used.
    Interpolants are cubic splines through the samples of omega at the extrema.
    """

    def __init__(self, t, phase, tp, ta, omega=None, averaging="orbit_averaged_omega_gw"):
        self.t = np.asarray(t, float)
        dt = self.t[1] - self.t[0]
        self.phase = np.asarray(phase, float)
        self.omega = deriv4(self.phase, dt) if omega is None else omega
        ip = np.rint((np.asarray(tp) - self.t[0]) / dt).astype(int)
        ia = np.rint((np.asarray(ta) - self.t[0]) / dt).astype(int)
        self.ip, self.ia = ip, ia
        self.tp, self.ta = self.t[ip], self.t[ia]
        self.tmin = max(self.tp[0], self.ta[0])
        self.tmax = min(self.tp[-1], self.ta[-1])
        self.wp = self._spl(self.tp, self.omega[ip])
        self.wa = self._spl(self.ta, self.omega[ia])
        self.averaging = averaging

    @staticmethod
    def _spl(x, y):
        return InterpolatedUnivariateSpline(x, y, k=min(3, len(x) - 1))

    def e_omega(self, t):
        p, a = np.sqrt(self.wp(t)), np.sqrt(self.wa(t))
        return (p - a) / (p + a)

    def ecc(self, t):
        return ecc_map(self.e_omega(t))

    def mean_ano(self, t):
        t = np.atleast_1d(t)
        out = np.empty(len(t))
        for i, x in enumerate(t):
            j = np.searchsorted(self.tp, x, side="right") - 1
            j = min(max(j, 0), len(self.tp) - 2)
            out[i] = 2 * np.pi * (x - self.tp[j]) / (self.tp[j + 1] - self.tp[j])
        return out % (2 * np.pi)

    # -- average frequency ------------------------------------------------
    def orbit_average_points(self):
        pts = []
        for ix in (self.ip, self.ia):
            for a, b in zip(ix[:-1], ix[1:]):
                pts.append((0.5 * (self.t[a] + self.t[b]),
                            (self.phase[b] - self.phase[a])
                            / (self.t[b] - self.t[a])))
        pts.sort()
        return np.array(pts)

    def average(self, t):
        if self.averaging == "mean_of_extrema_interpolants":
            return 0.5 * (self.wp(t) + self.wa(t))
        p = self.orbit_average_points()
        return self._spl(p[:, 0], p[:, 1])(t)

    def fref_window(self):
        """(tmin_for_fref, tmax_for_fref, samples)"""
        lo, hi = self.tmin, self.tmax
        if self.averaging == "orbit_averaged_omega_gw":
            p = self.orbit_average_points()
            lo, hi = max(lo, p[0, 0]), min(hi, p[-1, 0])
        s = self.t[(self.t >= lo) & (self.t <= hi)]
        return lo, hi, s

    def fbounds(self):
        _, _, s = self.fref_window()
        w = self.average(s) / (2 * np.pi)
        return w.min(), w.max()


def angdiff(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b)) % (2 * np.pi)
    return np.minimum(d, 2 * np.pi - d)


def extrema_times(obj):
    """(pericentre, apocentre) times used by the measurement."""
    return np.array(obj.t_pericenters), np.array(obj.t_apocenters)


def ref_from(obj, w, averaging="orbit_averaged_omega_gw", t=None, phase=None):
    tp, ta = extrema_times(obj)
    return Ref(w.t if t is None else t, w.phase if phase is None else phase,
               tp, ta, averaging=averaging)


def scripted(base="Amplitude"):
    """A user-defined definition: extrema come from a script of sample indices.
    `find_extrema` is the documented extension point of eccDefinition."""
    cls = get_available_methods(return_dict=True)[base]

    class Scripted(cls):
        script = {}

        def find_extrema(self, extrema_type="pericenters"):
            return np.array(self.script[extrema_type], dtype=int)

    return Scripted


@contextlib.contextmanager
def captured():
    """Capture prints and warnings."""
    out, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err, w


def same(a, b, rtol=0, atol=0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


def snapshot(x):
    """Deep, hashable-ish picture of a user input, bit exact."""
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), snapshot(v)) for k, v in x.items()))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    return (type(x).__name__, repr(x))


def fresh(x):
    return copy.deepcopy(x)


def quad_peak(t, a):
    """Peak time from a parabola through the 5 samples around the maximum."""
    i = int(np.argmax(a))
    i = max(2, min(len(t) - 3, i))
    c = np.polyfit(t[i - 2:i + 3] - t[i], a[i - 2:i + 3], 2)
    return t[i] - c[1] / (2 * c[0])


def zero_average(w, z):
    """Average frequency 'of the quasicircular counterpart', mergers aligned.
    Returns (callable of t, shifted times)."""
    tz = z.t - quad_peak(z.t, z.amp) + quad_peak(w.t, w.amp)
    om = deriv4(z.phase, z.t[1] - z.t[0])
    return InterpolatedUnivariateSpline(tz, om, k=3), tz


# --------------------------------------------------------------------------
# modes for precessing runs
def ell2_generators():
    """Angular momentum matrices Jx, Jy, Jz for l=2, basis m = -2..2."""
    m = np.arange(-2, 3)
    jp = np.zeros((5, 5), complex)
    for i in range(4):
        jp[i + 1, i] = np.sqrt(6 - m[i] * (m[i] + 1))
    jx, jy = (jp + jp.T) / 2, (jp - jp.T) / 2j
    return jx, jy, np.diag(m).astype(complex)


def rot2(alpha, beta, gamma):
    """5x5 unitary exp(-i alpha Jz) exp(-i beta Jy) exp(-i gamma Jz); arrays
    broadcast over the leading axis."""
    _, jy, _ = ell2_generators()
    val, vec = np.linalg.eigh(jy)
    m = np.arange(-2, 3)
    al, be, ga = np.broadcast_arrays(*map(np.atleast_1d, (alpha, beta, gamma)))
    D = np.einsum("ij,tj,kj->tik", vec, np.exp(-1j * be[:, None] * val),
                  vec.conj())
    return (np.exp(-1j * al[:, None, None] * m[None, :, None]) * D
            * np.exp(-1j * ga[:, None, None] * m[None, None, :]))


def ell2_modes(w, asym=0.0, pasym=0.0, ratio=2.5, h21=0.0):
    """Coprecessing-frame l=2 modes for wave w. asym: relative amplitude
    asymmetry between m=+2 and m=-2 oscillating at `ratio` times the radial
    frequency; pasym: the same for the phase; h21: relative m=+-1 content."""
    psi = w.phase / 2 * ratio / (1 + w.k)
    a = asym * np.cos(psi)
    p = pasym * np.cos(psi + .4)
    h22 = w.amp * (1 + a) * np.exp(-1j * (w.phase + p))
    h2m2 = w.amp * (1 - a) * np.exp(+1j * (w.phase - p))
    h21_ = h21 * w.amp * np.exp(-1j * w.phase / 2)
    return {(2, -2): h2m2, (2, -1): np.conj(h21_), (2, 0): 0 * h22,
            (2, 1): h21_, (2, 2): h22}


def rotate_modes(modes, D):
    """h'_m = sum_m' D[t, m, m'] h_m'"""
    v = np.array([modes[(2, m)] for m in range(-2, 3)]).T
    v = np.einsum("tij,tj->ti", np.broadcast_to(D, (len(v), 5, 5)), v)
    return {(2, m): v[:, m + 2].copy() for m in range(-2, 3)}
