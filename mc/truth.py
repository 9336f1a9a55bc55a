"""Analytic answers for mc.wf.Wave (no code under test)."""
import numpy as np


def _params(w, t):
    s = (np.asarray(t) - w.t[0]) / w.tscale
    tau = w.T - s
    n = w.n0 * (tau / w.T) ** (-3. / 8)
    e = w.e0 * (n / w.n0) ** (-19. / 18 * w.decay)
    return n, e


def true_e_omega(w, t):
    n, e = _params(w, t)
    wp = (1 + e) ** 2 / (1 - e * e) ** 1.5 + w.k
    wa = (1 - e) ** 2 / (1 - e * e) ** 1.5 + w.k
    p, a = np.sqrt(wp), np.sqrt(wa)
    return (p - a) / (p + a)


def true_e_gw(w, t):
    from mc.common import ecc_map
    return ecc_map(true_e_omega(w, t))


def true_l(w, t):
    s = (np.asarray(t) - w.t[0]) / w.tscale
    x = (w.T - s) / w.T
    return w.l0 + 1.6 * w.n0 * w.T * (1 - x ** (5. / 8))
