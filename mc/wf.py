"""Analytic eccentric-inspiral waveforms with known pericentres/apocentres.

Nothing here imports the code under test.

The orbit is Keplerian with a slow Newtonian chirp:
    n(t)   = n0 * ((tc - t)/T)**(-3/8)             radial frequency
    l(t)   = l0 + (8/5) n0 T (1 - ((tc-t)/T)**(5/8))  mean anomaly
    e(t)   = e0 * (n/n0)**(-19/18)
    u - e sin u = l ;  f = true anomaly
    phase22 = 2 * (f + k*l)  (k = constant pericentre advance)
    amp22   = n^(2/3) / (1 - e cos u)
until tau = tc - t reaches TAU_MIN, after which the signal rings down with a
decaying amplitude and a constant frequency, so that the global maximum of the
amplitude (the "merger") is at that point.
Pericentres are at l = 2 pi j, apocentres at l = pi + 2 pi j (up to the small
secular shift of the extremum of omega/amp).
"""
import numpy as np


def kepler(l, e):
    u = l + e * np.sin(l)
    for _ in range(60):
        du = (u - e * np.sin(u) - l) / (1 - e * np.cos(u))
        u = u - du
        if np.max(np.abs(du)) < 1e-14:
            break
    return u


class Wave:
    """An analytic waveform; see the module docstring."""

    def __init__(self, e0=0.2, l0=0.5, n_orb=12, n0=0.02, dt=1.0, k=0.03,
                 phi0=0.3, tau_min=60.0, ring=120.0, t0=None, tscale=1.0,
                 ascale=1.0, decay=1.0):
        # total radial phase over the inspiral ~ 1.6 n0 T  => T
        T = 2 * np.pi * n_orb / (1.6 * n0)
        self.T, self.n0, self.e0, self.l0, self.k = T, n0, e0, l0, k
        ninsp = int(round((T - tau_min) / dt))
        ntot = ninsp + int(round(ring / dt))
        s = dt * np.arange(ntot + 1)          # s = 0 at start
        tau = np.maximum(T - s, tau_min)
        x = tau / T
        n = n0 * x ** (-3. / 8)
        l = l0 + 1.6 * n0 * T * (1 - x ** (5. / 8))
        e = e0 * (n / n0) ** (-19. / 18 * decay)
        u = kepler(l, e)
        beta = e / (1 + np.sqrt(1 - e * e))
        f = u + 2 * np.arctan(beta * np.sin(u) / (1 - beta * np.cos(u)))
        phase = 2 * (f + k * l)
        amp = n ** (2. / 3) / (1 - e * np.cos(u))
        im = ninsp
        # ringdown
        w_end = 2 * (1 + k) * n[im]
        post = s > s[im]
        ds = s[post] - s[im]
        phase[post] = phase[im] + w_end * ds
        amp[post] = amp[im] * np.exp(-(ds / 25.0) ** 2)
        self.merger_index = im
        tm = s[im]
        self.l = l
        self.t = (s - (tm if t0 is None else t0)) * tscale
        self.phase = phase + phi0
        self.amp = amp * ascale
        self.n_insp = im
        self.tscale, self.decay, self.dt = tscale, decay, dt

    def extrema(self, cut=2.0):
        """Sample indices of pericentres and apocentres (local extrema of the
        amplitude) more than `cut` orbits (phase 4 pi each) before merger."""
        a = self.amp
        end = int(np.argmin(np.abs(self.phase - (self.phase[self.merger_index]
                                                 - cut * 4 * np.pi))))
        i = np.arange(1, end - 1)
        P = i[(a[i] > a[i - 1]) & (a[i] >= a[i + 1])]
        A = i[(a[i] < a[i - 1]) & (a[i] <= a[i + 1])]
        return P, A

    @property
    def hlm(self):
        return {(2, 2): self.amp * np.exp(-1j * self.phase)}

    def data(self):
        return {"t": self.t.copy(), "hlm": {k: v.copy() for k, v in self.hlm.items()}}
