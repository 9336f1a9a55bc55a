"""P28: data files are loaded as what they contain.

Synthetic files with known content are written in every supported format, and
every combination of the loading options is applied to them: the returned modes
are the file's signal on the requested uniform times, shifted so that the merger is
at t = 0 where documented, without the first orbits; parameters and quasicircular
partners are those of the same binary; every subset of present files is enumerated
to decide which loads are refused.
"""
import itertools
import json
import os
import shutil
import tempfile

import h5py
import numpy as np
from scipy.interpolate import CubicSpline

import lalsimulation as lalsim

from gw_eccentricity import load_data as LD

from mc.common import attempt, captured, quad_peak, snapshot, wave

META = dict(
    level="exploration", limit=400, chunk=2,
    rule="distinct = (format, option combination, outcome). Full product of "
         "options per format; all subsets of files of a directory.",
    assumptions=["files are synthetic: the real catalogs are not available "
                 "offline; layout as documented and as read by the loaders",
                 "the frequency-for-duration estimate of the library (needs a "
                 "data file) is replaced by a stand-in returning scripted "
                 "values"])
# file signal: known analytic wave, file times irregular
DT = [.5, 1., 3.]
JUNK = [0, .5, 1, 2, 2.37]
MODESETS = [[(2, 2)], [(2, 2), (3, 3)], [(2, 1), (2, 2), (2, -2)]]
PEAK = {.5: .15, 1.: .25, 3.: 1.3}    # of a quadratic through the samples
DQ = [-1., -1e-3, 0., 1e-9, 1e-7, 1e-4, 4.9e-4, 5.1e-4, 1e-3, .01, .5]
SCRIPT = ["good", "double", "half", "quarter"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for fmt in ("old", "new", "newmem"):
        for dt in DT:
            for hz in (False, True):
                for ms in range(len(MODESETS)):
                    if not th and (dt == .5 or ms == 1 and hz):
                        continue
                    out.append(dict(k="sxs", fmt=fmt, dt=dt, hz=hz, ms=ms))
    out += [dict(k="hack", dt=dt) for dt in DT]
    out += [dict(k="eob", zero=z) for z in (False, True)]
    for z, g in itertools.product((False, True), (False, True)):
        out.append(dict(k="emri", zero=z, geo=g))
    for fmt in ("old", "new"):
        out.append(dict(k="files", fmt=fmt))
        out.append(dict(k="meta", fmt=fmt))
    for s in SCRIPT:
        out.append(dict(k="partner", s=s))
    out += [dict(k="lvcnr", dt=dt, q=q) for dt in DT for q in (1., 1.5, 4.)]
    out += [dict(k="download", order=o) for o in (2, 3, 4)]
    out += [dict(k="memory", scale=s) for s in (.5, 1, 2)]
    out.append(dict(k="short"))
    out.append(dict(k="pathname"))
    return out


def signal():
    """Times and modes of the file; (3,3) peaks later than (2,2)."""
    w = wave(n_orb=8, dt=.5, e0=.2, k=.03)
    i = np.arange(0, len(w.t), 2)
    i = np.delete(i, np.arange(5, len(i) - 1, 7))        # irregular
    t = w.t - w.t[0] - 107.25                            # file starts < 0
    h = {(2, 2): w.amp * np.exp(-1j * w.phase)}
    late = np.exp(-((w.t - 6.) / 9.) ** 2)
    h[(3, 3)] = w.amp.max() * (.05 + .9 * late) * np.exp(-1.5j * w.phase)
    h[(2, 1)] = .1 * w.amp * np.exp(-.5j * w.phase - .4j)
    h[(2, -2)] = np.conj(h[(2, 2)])
    h[(2, 0)] = (.02 * w.amp) + 0j
    h[(2, -1)] = .07 * w.amp * np.exp(.5j * w.phase)
    return w, i, t, h


def horizons(path, T, rate):
    """Black holes on an orbit with angular velocity `rate`."""
    t = np.linspace(0, T, 4000)
    x = np.array([t, 3 * np.cos(rate * t + .4), 3 * np.sin(rate * t + .4),
                  .1 * t / T]).T
    y = x.copy()
    y[:, 1:] *= -.5
    with h5py.File(path, "w") as f:
        f["AhA.dir/CoordCenterInertial.dat"] = x
        f["AhB.dir/CoordCenterInertial.dat"] = y


PAR = dict(q=1.5, chi1=[.0, 0., .3], chi2=[0., 0., -.2], t_relax=200.)


def metadata(d, m1=.6, m2=.4, js=True, txt=True):
    if js:
        with open(os.path.join(d, "metadata.json"), "w") as f:
            json.dump({"reference_dimensionless_spin1": PAR["chi1"],
                       "reference_dimensionless_spin2": PAR["chi2"],
                       "reference_mass1": m1, "reference_mass2": m2,
                       "relaxation_time": PAR["t_relax"],
                       "reference_time": 1.}, f)
    if txt:
        with open(os.path.join(d, "metadata.txt"), "w") as f:
            f.write("# made up\nsimulation-name = x\n"
                    "initial-mass1 = 17.0\n"
                    f"relaxation-time = {PAR['t_relax']}\n"
                    "reference-time = 1.0\n"
                    f"reference-mass1 = {m1!r}\n"
                    f"reference-mass2  =  {m2!r}\n"
                    "reference-dimensionless-spin1 = "
                    f"{','.join(map(str, PAR['chi1']))}\n"
                    "reference-dimensionless-spin2 = "
                    f"{', '.join(map(str, PAR['chi2']))}\n")


def write_old(d, t, i, h):
    with h5py.File(os.path.join(
            d, "rhOverM_Asymptotic_GeometricUnits_CoM.h5"), "w") as f:
        for n in (2, 3, 4):
            for (ell, m), v in h.items():
                f[f"Extrapolated_N{n}.dir/Y_l{ell}_m{m}.dat"] = np.array(
                    [t[i], v[i].real * (n - 1), v[i].imag * (n - 1)]).T


def write_new(d, t, i, h, mem=None, orders=(2, 3)):
    import sxs
    from sxs.waveforms.format_handlers import (
        rotating_paired_xor_multishuffle_bzip2 as rpxmb)
    lm = [(ell, m) for ell in (2, 3) for m in range(-ell, ell + 1)]
    data = np.zeros((len(i), len(lm)), complex)
    for j, k in enumerate(lm):
        if k in h:
            data[:, j] = h[k][i]
    kw = dict(time=t[i], time_axis=0, modes_axis=1, ell_min=2, ell_max=3,
              spin_weight=-2, frame_type="inertial", data_type="h",
              m_is_scaled_out=True, r_is_scaled_out=True)
    w = sxs.WaveformModes(data, **kw)
    if mem:
        # a signal whose memory has been added
        m = sxs.waveforms.memory.J_E(w, integration_start_time=PAR["t_relax"])
        first = [tuple(x) for x in m.LM].index((2, -2))
        mem = np.asarray(m.data)[:, first:first + len(lm)]
        data = data + mem
    with captured():
        for n in orders:
            rpxmb.save(sxs.WaveformModes(data * (n - 1), **kw),
                       os.path.join(d, f"Strain_N{n}"))
    return data, mem, lm


def memory_case(case, R):
    """Strain with a known memory: kept or removed as requested."""
    w, i, t, h = signal()
    h = {k: v * case["scale"] for k, v in h.items()}
    h[(2, 0)] = 0 * h[(2, 0)]
    with scratch() as d:
        metadata(d, txt=False)
        data, mem, lm = write_new(d, t, i, h, mem=True, orders=(2,))
        big = np.abs(mem[:, lm.index((2, 0))]).max()
        for keep, ms in itertools.product(
                (True, False, None), ([(2, 2)], [(2, 2), (2, 0)],
                                      [(2, 0), (3, 1), (2, 2), (3, 3)])):
            kw = dict(data_dir=d, deltaTOverM=.5, mode_array=ms,
                      num_orbits_to_remove_as_junk=0)
            if keep is not None:
                kw["keep_memory"] = keep
            s, r, _ = attempt_w(LD.load_waveform, origin="SXSCatalog", **kw)
            key = f"memory:{case['scale']}:{keep}:{ms}"
            R.ev()
            R.state((key, s))
            if s != "ok":
                R.bad(key, f"failed: {r!r}"[:300])
                continue
            x = r["t"] - r["t"][-1] + t[i][-1]
            for m, v in r["hlm"].items():
                j = lm.index(m)
                want = data[:, j] if keep else data[:, j] - mem[:, j]
                f = CubicSpline(t[i], want)
                # the last sample of the file is not always reached
                sel = np.abs(x - t[i][np.argmax(np.abs(h[(2, 2)][i]))]) > 25
                err = min(np.abs(v - f(x - o))[sel][9:].max()
                          for o in np.arange(0, .6, .05))
                tol = .03 * big if m == (2, 0) or keep is None else \
                    .1 * np.abs(h[(2, 2)]).max()
                if m == (2, 0) and err > tol:
                    R.bad(key, f"mode {m} is {err:.2g} from that "
                               f"{'with' if keep else 'without'} memory, the "
                               f"memory is {big:.2g}")


def attempt_w(f, *a, **k):
    """Result and warnings."""
    with captured() as (_, _, ws):
        try:
            return "ok", f(*a, **k), list(ws)
        except Exception as x:
            return "err", x, list(ws)


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="gwecc_p28_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Stub:
    """Stand-in for the library's estimate of the starting frequency."""

    def __init__(self, *values):
        self.values, self.n = values, 0

    def __enter__(self):
        self.f = getattr(lalsim, "SimIMRSEOBNRv4ROMFrequencyOfTime")

        def g(T, m1, m2, s1, s2):
            self.n += 1
            self.args = (T, m1, m2, s1, s2)
            v = self.values[0]
            MT = (m1 + m2) / 1.988409902147041637325262574352366540e30 \
                * 4.925490947641266978197229498498379006e-6
            # Newtonian duration of a circular inspiral, times v
            nu = m1 * m2 / (m1 + m2) ** 2
            om = (5 / 256 / nu / (T / MT)) ** .375
            return v * om / np.pi / MT
        lalsim.SimIMRSEOBNRv4ROMFrequencyOfTime = g
        return self

    def __exit__(self, *a):
        lalsim.SimIMRSEOBNRv4ROMFrequencyOfTime = self.f


def compare(R, key, t, h, ft, fh, dt, shift, tol, span=None):
    """h at t against the file's modes fh at ft moved by -shift."""
    if len(t) < 10 or np.abs(np.diff(t) - dt).max() > 1e-6 * dt:
        return R.bad(key, "times not uniform with the requested step")
    if any(len(v) != len(t) for v in h.values()):
        return R.bad(key, "modes and times differ in length")
    x = t + shift
    if x[0] < ft[0] - 1e-6 or x[-1] > ft[-1] + 1e-6:
        return R.bad(key, f"times {x[0]}..{x[-1]} outside the file")
    if x[-1] < ft[-1] - 2 * dt - (span or 0):
        R.bad(key, f"ends at {x[-1]}, file at {ft[-1]}")
    # the synthetic signal is not smooth at its merger
    sel = np.abs(x - ft[np.argmax(np.abs(fh[(2, 2)]))]) > 25
    for m, v in h.items():
        ref = CubicSpline(ft, fh[m])(x)
        err = np.abs(v - ref)[sel].max() / np.abs(fh[(2, 2)]).max()
        if err > tol:
            return R.bad(key, f"mode {m} differs from the file by {err:.2g}")


def orbits(h22):
    return -np.unwrap(np.angle(h22)) / 4 / np.pi


def partner_ok(R, key, d, dt):
    tz, hz = d["t_zeroecc"], d["hlm_zeroecc"]
    if list(hz) != [(2, 2)] or len(hz[(2, 2)]) != len(tz):
        return R.bad(key, f"partner modes {list(hz)}")
    if np.abs(np.diff(tz) - .1).max() > 1e-6:
        # the step of the partner is free but must be uniform
        if np.ptp(np.diff(tz)) > 1e-6:
            return R.bad(key, "partner's times not uniform")
    if tz[0] > d["t"][0]:
        R.bad(key, f"partner starts at {tz[0]}, data at {d['t'][0]}")
    if abs(quad_peak(tz, np.abs(hz[(2, 2)]))) > .1:
        R.bad(key, "partner's merger not at 0")
    a = np.abs(hz[(2, 2)])[tz < -300]
    if len(a) and np.abs(np.diff(a, 2)).max() > 1e-3 * a.max():
        R.bad(key, "partner not circular")


def sxs_case(case, R):
    w, i, t, h = signal()
    ms = MODESETS[case["ms"]]
    fmt, dt, hz = case["fmt"], case["dt"], case["hz"]
    rate = .9 * (w.phase[600] - w.phase[0]) / (w.t[600] - w.t[0]) / 2
    with scratch() as d:
        metadata(d, js=fmt != "old", txt=fmt == "old")
        if fmt == "old":
            write_old(d, t, i, h)
        else:
            write_new(d, t, i, h, mem=fmt == "newmem")
        if hz:
            horizons(os.path.join(d, "Horizons.h5"), 4000., rate)
        org = "SXSCatalog_old" if fmt == "old" else "SXSCatalog"
        base = dict(data_dir=d, deltaTOverM=dt, mode_array=list(ms))
        if fmt == "new":
            base["keep_memory"] = True
        for junk, par, zero, order in itertools.product(
                JUNK, (False, True), (False, True), (2, 3)):
            if zero and (junk != 2 or order != 2):
                continue
            kw = dict(base, num_orbits_to_remove_as_junk=junk,
                      include_params_dict=par, include_zero_ecc=zero,
                      extrap_order=order)
            if zero:
                kw["zero_ecc_approximant"] = "IMRPhenomT"
            snap = snapshot(kw)
            key = f"{fmt}:{dt}:{hz}:{ms}:{junk}:{par}:{zero}:{order}"
            with captured(), Stub(.95) as stub:
                s, r = attempt(LD.load_waveform, origin=org, **kw)
            R.ev()
            R.state((key, s))
            if s != "ok":
                R.bad(key, f"failed: {r!r}"[:300])
                continue
            if snapshot(kw) != snap:
                R.bad(key, "the request changed")
            want = ["hlm", "t"] + ["params_dict"] * par + \
                ["t_zeroecc", "hlm_zeroecc"] * zero
            if sorted(r) != sorted(want) or sorted(r["hlm"]) != sorted(ms):
                R.bad(key, f"returned {sorted(r)} {sorted(r['hlm'])}")
                continue
            # where in the file? the last sample before the end
            full = np.arange(t[i][0], t[i][-1], dt)
            n = len(r["t"])
            if n > len(full):
                R.bad(key, "more samples than the file has")
                continue
            raw = full[len(full) - n:]
            shift = np.median(raw - r["t"])
            fh = {k: v[i] * (order - 1) for k, v in h.items()}
            # removing the memory of a signal without any changes it a little
            tol = {.5: 3e-3, 1.: 3e-3, 3.: 3e-3}[dt] + \
                (8e-3 * order if fmt == "newmem" else 0)
            compare(R, key, r["t"], r["hlm"], t[i], fh, dt, shift, tol)
            # merger at 0, from all requested modes together
            tot = np.sqrt(sum(np.abs(h[m][i]) ** 2 for m in ms))
            tt = np.arange(t[i][0], t[i][-1], .05)
            tp = quad_peak(tt, CubicSpline(t[i], tot)(tt))
            if abs(tp - shift) > PEAK[dt]:
                R.bad(key, f"t = 0 is {shift - tp:.2f} after the peak of all "
                           "modes")
            # first orbits removed
            if hz:
                start = 2 * np.pi * junk / rate
                if abs(raw[0] - start) > dt / 2 + 2:
                    R.bad(key, f"starts at {raw[0]} of the file, {junk} orbits "
                               f"end at {start}")
            else:
                got = np.interp(raw[0], t, orbits(h[(2, 2)])) - \
                    orbits(h[(2, 2)])[0]
                step = np.gradient(orbits(h[(2, 2)]), t).max() * dt
                if abs(got - junk) > step:
                    R.bad(key, f"{got:.3f} orbits removed, not {junk}")
            if par:
                p = r["params_dict"]
                if abs(p["q"] - 1.5) > 1e-12 or \
                        list(p["chi1"]) != PAR["chi1"] or \
                        list(p["chi2"]) != PAR["chi2"] or \
                        p.get("t_relax") != PAR["t_relax"]:
                    R.bad(key, f"parameters {p}")
            if zero:
                partner_ok(R, key, r, dt)
                if stub.n:
                    T, m1, m2, s1, s2 = stub.args
                    if abs(m1 / m2 - 1.5) > 1e-9 or (s1, s2) != (.3, -.2):
                        R.bad(key, f"partner of another binary {stub.args}")


def hack(case, R):
    w, i, t, h = signal()
    t = w.t                               # merger at 0 in these files
    dt = case["dt"]
    ia, ip = i, np.delete(i, np.arange(3, len(i) - 1, 5))
    ia = ia[:-3]
    ip = ip[2:]
    with scratch() as d:
        fn = os.path.join(d, "x.h5")
        with h5py.File(fn, "w") as f:
            for n, x, y in (("amp", ia, w.amp), ("phase", ip, -w.phase)):
                f[f"{n}_l2_m2/X"] = t[x]
                f[f"{n}_l2_m2/Y"] = y[x]
            for k, v in dict(spin1x=0., spin1y=0., spin1z=.3, spin2x=0.,
                             spin2y=0., spin2z=-.2, mass1=.6, mass2=.4,
                             eccentricity=.21, mean_anomaly=5.5).items():
                f.attrs[k] = v
        lo, hi = max(t[ia[0]], t[ip[0]]), min(t[ia[-1]], t[ip[-1]])
        for junk, par, zero in itertools.product(JUNK, (False, True),
                                                 (False, True)):
            if zero and junk != 2:
                continue
            key = f"hack:{dt}:{junk}:{par}:{zero}"
            with captured(), Stub(.95) as stub:
                s, r = attempt(LD.load_waveform, origin="LVCNR_hack",
                               filepath=fn, deltaTOverM=dt,
                               num_orbits_to_remove_as_junk=junk,
                               include_params_dict=par, include_zero_ecc=zero)
            R.ev()
            R.state((key, s))
            if s != "ok":
                R.bad(key, f"failed: {r!r}"[:300])
                continue
            want = ["hlm", "t"] + ["params_dict"] * par + \
                ["t_zeroecc", "hlm_zeroecc"] * zero
            if sorted(r) != sorted(want):
                R.bad(key, f"returned {sorted(r)}")
                continue
            x = (t >= lo - 1e-9) & (t <= hi + 1e-9)
            compare(R, key, r["t"], r["hlm"], t[x],
                    {(2, 2): h[(2, 2)][x]}, dt, 0., 4e-3, span=30)
            got = np.interp(r["t"][0], t, orbits(h[(2, 2)])) - \
                np.interp(lo, t, orbits(h[(2, 2)]))
            if abs(got - junk) > .02 * dt + .01:
                R.bad(key, f"{got:.3f} orbits removed, not {junk}")
            if par:
                p = r["params_dict"]
                if abs(p["q"] - 1.5) > 1e-12 or p["ecc"] != .21 or \
                        p["mean_ano"] != 5.5 or list(p["chi1"]) != [0, 0, .3] \
                        or list(p["chi2"]) != [0, 0, -.2]:
                    R.bad(key, f"parameters {p}")
            if zero:
                partner_ok(R, key, r, dt)
                if stub.n and (abs(stub.args[1] / stub.args[2] - 1.5) > 1e-9
                               or stub.args[3:] != (.3, -.2)):
                    R.bad(key, f"partner of another binary {stub.args}")


class Mode:
    """Element of the library's list of modes."""

    def __init__(self, ell, m, x, nxt):
        self.l, self.m, self.next = ell, m, nxt
        self.mode = type("", (), {})()
        self.mode.data = type("", (), {})()
        self.mode.data.data = x


def lvcnr(case, R):
    """The library's reader is replaced by one that evaluates the known signal
    at the requested step and scale, from the requested frequency on."""
    MSUN, MTS = 1.988409902147041637325262574352366540e30, \
        4.925490947641266978197229498498379006e-6
    PC, C = 3.085677581491367278913937957796471611e16, 299792458.
    w, i, t, h = signal()
    t = w.t
    dt, q = case["dt"], case["q"]
    om = np.gradient(orbits(h[(2, 2)]) * 2 * np.pi, t)
    order = [(2, 2), (2, 1), (3, 3), (2, -2)]
    fmin = .007                    # M f at the start of the file, as recorded
    with scratch() as d:
        for attrs in ((.21, 4.5), ("x", .5), (.21, "nan-like"), ("-", "")):
            fn = os.path.join(d, "x.h5")
            with h5py.File(fn, "w") as f:
                for k, v in dict(mass1=.7 * q, mass2=.7,
                                 f_lower_at_1MSUN=fmin / MTS,
                                 eccentricity=attrs[0],
                                 mean_anomaly=attrs[1]).items():
                    f.attrs[k] = v
            for junk, par, zero, Om0 in itertools.product(
                    JUNK, (False, True), (False, True), (0., .02, .026)):
                if (zero or Om0 or attrs != (.21, 4.5)) and junk not in (0, 2):
                    continue
                if zero and (Om0 or dt < 1):
                    continue
                key = f"lvcnr:{dt}:{q}:{attrs}:{junk}:{par}:{zero}:{Om0}"
                seen = []

                def spins(fref, M, path):
                    seen.append(("spins", path))
                    return (0., 0., .3, 0., 0., -.2) if zero else \
                        (.01, .02, .3, .04, .05, -.2)

                def reader(dT, m1, m2, D, f_low, f_ref, *sp):
                    M = (m1 + m2) / MSUN
                    start = np.argmax(om >= .98 * f_low * np.pi * MTS * M) \
                        if f_low > 1.01 * fmin / MTS / M else 0
                    seen.append((m1 / m2, f_low * M * MTS, f_ref, sp[:7]))
                    x = np.arange(t[start], t[-1], dT / MTS / M)
                    sc = M * MTS * C / D
                    seen.append(x[0])
                    m = None
                    for k in reversed(order):
                        m = Mode(*k, sc * CubicSpline(t, h[k])(x), m)
                    return None, m
                old = (lalsim.SimInspiralNRWaveformGetSpinsFromHDF5File,
                       lalsim.SimInspiralNRWaveformGetHlms)
                lalsim.SimInspiralNRWaveformGetSpinsFromHDF5File = spins
                lalsim.SimInspiralNRWaveformGetHlms = reader
                try:
                    with captured(), Stub(.95) as stub:
                        s, r = attempt(
                            LD.load_waveform, origin="LVCNR", filepath=fn,
                            deltaTOverM=dt, Momega0=Om0,
                            num_orbits_to_remove_as_junk=junk,
                            include_params_dict=par, include_zero_ecc=zero)
                finally:
                    (lalsim.SimInspiralNRWaveformGetSpinsFromHDF5File,
                     lalsim.SimInspiralNRWaveformGetHlms) = old
                R.ev()
                R.state((key, s))
                if s != "ok":
                    R.bad(key, f"failed: {r!r}"[:300])
                    continue
                want = ["hlm", "t"] + ["params_dict"] * par + \
                    ["t_zeroecc", "hlm_zeroecc"] * zero
                if sorted(r) != sorted(want) or \
                        sorted(r["hlm"]) != sorted(order):
                    R.bad(key, f"returned {sorted(r)} {sorted(r['hlm'])}")
                    continue
                call = [x for x in seen if isinstance(x, tuple)
                        and x[0] != "spins"][-1]
                S = spins(0, 0, fn)
                if abs(call[0] / q - 1) > 1e-9 or call[3][:6] != S or \
                        call[3][6] != fn:
                    R.bad(key, f"asked the library for {call}")
                f0 = Om0 / np.pi if Om0 else fmin
                if abs(call[1] / f0 - 1) > 1e-5:
                    R.bad(key, f"starting frequency {call[1]}, wanted {f0}")
                # merger from all modes together
                tot = np.sqrt(sum(np.abs(h[m]) ** 2 for m in order))
                tp = quad_peak(t, tot)
                x0 = [x for x in seen if not isinstance(x, tuple)][-1]
                full = np.arange(x0, t[-1], dt)
                n = len(r["t"])
                if n > len(full):
                    R.bad(key, "more samples than the file has")
                    continue
                raw = full[len(full) - n:]
                shift = np.median(raw - r["t"])
                compare(R, key, r["t"], r["hlm"], t, {k: h[k] for k in order},
                        dt, shift, 4e-3)
                if abs(shift - tp) > PEAK[dt]:
                    R.bad(key, f"t = 0 is {shift - tp:.2f} after the peak")
                orb = orbits(h[(2, 2)])
                got = np.interp(raw[0], t, orb) - np.interp(x0, t, orb)
                if abs(got - junk) > np.gradient(orb, t).max() * dt:
                    R.bad(key, f"{got:.3f} orbits removed, not {junk}")
                if par:
                    p = r["params_dict"]
                    e = [a if isinstance(a, float) else None for a in attrs]
                    if abs(p["q"] / q - 1) > 1e-12 or p["ecc"] != e[0] or \
                            p["mean_ano"] != e[1] or \
                            tuple(p["chi1"]) + tuple(p["chi2"]) != S:
                        R.bad(key, f"parameters {p}")
                if zero:
                    partner_ok(R, key, r, dt)
                    if stub.n and (abs(stub.args[1] / stub.args[2] / q - 1)
                                   > 1e-9 or stub.args[3:] != (.3, -.2)):
                        R.bad(key, f"partner of another binary {stub.args}")


def download(case, R):
    """The catalogue and the network are replaced by stand-ins: exactly the
    missing files of that simulation and level are fetched."""
    import sxs
    import sxs.utilities as SU
    order = case["order"]
    names = [f"Strain_N{order}.h5", f"Strain_N{order}.json", "metadata.json",
             "Horizons.h5"]
    ids = ["SXS:BBH:0001", "SXS:BHNS:3726"]
    cat = {x: {"files": {f"Lev{v}:{n.replace(str(order), str(o))}":
                         {"link": f"http://{x}/{v}/{n.replace(str(order), str(o))}"}
                         for v in (1, 3, 5) for o in (2, 3, 4)
                         for n in names}} for x in ids}
    log, tags = [], []

    def fetch(url, dest, **kw):
        log.append((url, str(dest)))
        with open(dest, "w") as f:
            f.write(url)

    def load(*a, tag="", **kw):
        tags.append(tag)
        return cat
    old = SU.download_file, sxs.Simulations.load
    SU.download_file, sxs.Simulations.load = fetch, load
    try:
        for x, lev, have, tag in itertools.product(
                ids + ["SXS:BBH:9999"], (1, 3, 5),
                itertools.product((0, 1), repeat=4), ("", "v3.0.0")):
            with scratch() as d:
                tgt = os.path.join(d, x.replace(":", "_"), f"Lev{lev}")
                if any(have):
                    os.makedirs(tgt)
                for n, y in zip(names, have):
                    if y:
                        with open(os.path.join(tgt, n), "w") as f:
                            f.write("mine")
                log.clear(), tags.clear()
                with captured():
                    s, r = attempt(LD.download_sxs_waveform, x, lev, d,
                                   extrap_order=order, catalog_tag=tag)
                R.ev()
                key = f"download:{x}:{lev}:{have}:{order}:{tag}"
                R.state((key, s))
                if x not in cat:
                    if s == "ok" or x not in str(r) or log:
                        R.bad(key, f"unknown simulation: {s} {r} {log}")
                    continue
                if s != "ok":
                    R.bad(key, f"failed {r!r}")
                    continue
                want = [(f"http://{x}/{lev}/{n}", os.path.join(tgt, n))
                        for n, y in zip(names, have) if not y]
                if r != tgt or sorted(log) != sorted(want):
                    R.bad(key, f"returned {r}, fetched {log}"[:300])
                if tags and tags[-1] != tag:
                    R.bad(key, f"catalogue release {tags[-1]}")
    finally:
        SU.download_file, sxs.Simulations.load = old


def eob(case, R):
    w, i, t, h = signal()
    z = wave(n_orb=9, dt=.5, e0=0., k=.03)
    for name, off, missing in itertools.product(
            ("EccTest_e.h5", "a/EccTest/x.h5", "other.h5"), (0., -500., 33.3),
            (False, True)):
        key = f"eob:{case['zero']}:{name}:{off}:{missing}"
        with scratch() as d:
            fn, fz = os.path.join(d, name), os.path.join(d, "EccTest_z.h5")
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            for f, x in ((fn, w), (fz, z)):
                with h5py.File(f, "w") as g:
                    g["t"] = x.t + off
                    g["(2, 2)"] = x.hlm[(2, 2)]
            kw = dict(filepath=fn)
            if case["zero"]:
                kw.update(include_zero_ecc=True)
                if not missing:
                    kw.update(filepath_zero_ecc=fz)
            s, r = attempt(LD.load_waveform, origin="EOB", **kw)
        R.ev()
        R.state((key, s))
        bad = name == "other.h5" or (case["zero"] and missing)
        if (s == "ok") == bad:
            R.bad(key, f"{s}: {r!r}"[:200])
        if s != "ok":
            continue
        todo = [("t", "hlm", w)] + [("t_zeroecc", "hlm_zeroecc", z)] * \
            case["zero"]
        if sorted(r) != sorted(sum(([a, b] for a, b, _ in todo), [])):
            R.bad(key, f"returned {sorted(r)}")
            continue
        for a, b, x in todo:
            if np.abs(r[b][(2, 2)] - x.hlm[(2, 2)]).max() > 0 or \
                    np.abs(r[a] - x.t + quad_peak(x.t, x.amp)).max() > .3:
                R.bad(key, f"{b} is not the content of the file")


def emri(case, R):
    w, i, t, h = signal()
    # an inspiral ending shortly after its maximum
    im = int(np.argmax(w.amp)) + 60
    T, H = w.t[:im + 1] + 777., h[(2, 2)][:im + 1]
    e = np.linspace(.3, .1, im + 1)
    zt = wave(n_orb=9, dt=.5, e0=0., k=.03)
    zm = int(np.argmax(zt.amp)) + 40
    with scratch() as d:
        fn = os.path.join(d, "emri_e0.200_x.h5")
        fz = os.path.join(d, "emri_e0.000.h5")
        for f, a, b in ((fn, T, H),
                        (fz, zt.t[:zm + 1], zt.hlm[(2, 2)][:zm + 1])):
            with h5py.File(f, "w") as g:
                g["Dataset1"] = np.array([a, b.real, b.imag]).T
        with h5py.File(fn[:-3] + "_ecc.h5", "w") as g:
            g["Dataset1"] = np.array([T, e]).T
            t0 = T - T[-61]
        for st, en, dt, fzn in itertools.product(
                (None, t0[0] + 100.2, -1500.), (None, -700.3, -40.),
                (None, .25, 1., 3.), (None, fz)):
            if fzn and not case["zero"]:
                continue
            key = f"emri:{case['zero']}:{case['geo']}:{st}:{en}:{dt}:" \
                  f"{bool(fzn)}"
            with captured():
                s, r = attempt(LD.load_waveform, origin="EMRI", filepath=fn,
                               start_time=st, end_time=en, deltaT=dt,
                               include_zero_ecc=case["zero"],
                               filepath_zero_ecc=fzn,
                               include_geodesic_ecc=case["geo"])
            R.ev()
            R.state((key, s))
            if s != "ok":
                R.bad(key, f"failed: {r!r}"[:200])
                continue
            want = ["t", "hlm"] + ["t_zeroecc", "hlm_zeroecc"] * case["zero"] \
                + ["e_geodesic"] * case["geo"]
            if sorted(r) != sorted(want):
                R.bad(key, f"returned {sorted(r)}")
                continue
            lo = t0[0] if st is None else st
            hi = t0[-1] if en is None else en
            t_, h_ = r["t"], r["hlm"][(2, 2)]
            step = dt or .5
            if len(t_) != len(h_) or np.ptp(np.diff(t_)) > 1e-6 or \
                    abs(np.mean(np.diff(t_)) - step) > 1e-6:
                R.bad(key, "times not uniform with the expected step")
                continue
            if abs(t_[0] - lo) > .8 or not -.5 - .8 - step < t_[-1] - hi < .8:
                R.bad(key, f"covers {t_[0]}..{t_[-1]}, asked {lo}..{hi}")
            sel = t_ < -10
            # time shift by the sub-sample peak position: at most one sample
            errs = []
            for o in np.linspace(-1, 1, 81):
                ref = CubicSpline(t0, H)(t_[sel] + o)
                errs.append(np.abs(ref - h_[sel]).max() / np.abs(H).max())
            if min(errs) > 5e-3:
                R.bad(key, f"differs from the file by {min(errs):.2g}")
            if case["geo"]:
                ge = np.interp(t_, t0, e)
                if len(r["e_geodesic"]) != len(t_) or \
                        np.abs(r["e_geodesic"] - ge).max() > 1e-3:
                    R.bad(key, "geodesic eccentricity is not that of the file")
            if case["zero"]:
                hz, tz = r["hlm_zeroecc"][(2, 2)], r["t_zeroecc"]
                ref = zt.hlm[(2, 2)][:len(hz)] / np.sqrt(2 * np.pi)
                if len(hz) < zm - 1 or len(tz) != len(hz) or \
                        np.abs(hz - ref).max() > 1e-12:
                    R.bad(key, "circular data is not that of its file")
                elif np.abs(tz - zt.t[:len(tz)]).max() > .8:
                    R.bad(key, "circular data: merger not at 0")


def pathname(case, R):
    """The circular EMRI file is found next to the eccentric one."""
    w, i, t, h = signal()
    im = int(np.argmax(w.amp))
    for sub, name, zname in itertools.product(
            ("", "plain", "runs_e0", "case0", "e0.100", "x/e0/y"),
            ("emri_e0.200.h5", "e0.3_q1e-4.h5", "q_e0.05_p.h5"), (None,)):
        key = f"path:{sub}:{name}"
        with scratch() as d:
            fn = os.path.join(d, sub, name)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            fz = os.path.join(d, sub, name[:name.index("e0")] + "e0.000.h5")
            for f, s in ((fn, 1.), (fz, 2.)):
                with h5py.File(f, "w") as g:
                    v = s * h[(2, 2)][:im + 1]
                    g["Dataset1"] = np.array([w.t[:im + 1], v.real, v.imag]).T
            s, r = attempt(LD.load_waveform, origin="EMRI", filepath=fn,
                           include_zero_ecc=True)
        R.ev()
        R.state((key, s))
        if s != "ok":
            R.bad(key, f"failed: {r!r}"[:200])
        elif np.abs(r["hlm_zeroecc"][(2, 2)] * np.sqrt(2 * np.pi)
                    / r["hlm"][(2, 2)] - 2).max() > 1e-9:
            R.bad(key, "another file was used")


def files(case, R):
    """Every subset of the files of a directory x options."""
    w, i, t, h = signal()
    i = i[::3]
    old = case["fmt"] == "old"
    org = "SXSCatalog_old" if old else "SXSCatalog"
    names = ["rhOverM_Asymptotic_GeometricUnits_CoM.h5", "metadata.txt"] \
        if old else ["Strain_N2.h5", "Strain_N2.json", "metadata.json"]
    names.append("Horizons.h5")
    with scratch() as src, scratch() as d:
        metadata(src)
        write_old(src, t, i, h) if old else write_new(src, t, i, h,
                                                      orders=(2,))
        horizons(os.path.join(src, "Horizons.h5"), 4000., .02)
        for have in itertools.product((0, 1), repeat=len(names)):
            sub = os.path.join(d, "".join(map(str, have)))
            os.mkdir(sub)
            for n, x in zip(names, have):
                if x:
                    shutil.copy(os.path.join(src, n), sub)
            H = dict(zip(names, have))
            for par, zero, mem in itertools.product((0, 1), (0, 1),
                                                    (0, 1)[:1 + (not old)]):
                kw = dict(data_dir=sub, deltaTOverM=3.,
                          include_params_dict=bool(par),
                          include_zero_ecc=bool(zero))
                if not old:
                    kw["keep_memory"] = bool(mem)
                key = f"files:{org}:{have}:{par}:{zero}:{mem}"
                need = ([names[0]] if old else names[:2]) + \
                    ([names[-2]] if par or zero or not (old or mem) else [])
                with Stub(.95):
                    s, r, ws = attempt_w(LD.load_waveform, origin=org, **kw)
                R.ev()
                R.state((key, s))
                missing = [n for n in need if not H[n]]
                if missing and (s == "ok" or
                                not isinstance(r, FileNotFoundError)):
                    R.bad(key, f"{missing} missing: {s} {r!r}"[:200])
                elif missing and not any(n in str(r) for n in missing):
                    R.bad(key, f"the missing file is not named: {r}"[:200])
                elif not missing and s != "ok":
                    R.bad(key, f"failed: {r!r}"[:200])
                if s == "ok" and any("Horizons" in str(x.message)
                                     for x in ws) == bool(H["Horizons.h5"]):
                    R.bad(key, "warning about the missing Horizons.h5")
        for bad in (None, os.path.join(d, "nowhere")):
            s, r = attempt(LD.load_waveform, origin=org, data_dir=bad)
            R.ev()
            if s == "ok":
                R.bad(f"files:{org}:{bad}", "loaded")


def meta(case, R):
    """Mass ratio of the metadata: swapped labels within rounding are 1."""
    with scratch() as d:
        for dq, m2 in itertools.product(DQ, (.5, .25, 1.)):
            m1 = m2 * (1 - dq)
            metadata(d, m1, m2)
            fn = os.path.join(d, "metadata." + ("txt" if case["fmt"] == "old"
                                                else "json"))
            s, p, ws = attempt_w(LD.get_params_dict_from_sxs_metadata, fn)
            R.ev()
            key = f"meta:{case['fmt']}:{dq}:{m2}"
            R.state((key, s))
            if dq > 5e-4:
                if s == "ok":
                    R.bad(key, f"accepted m1 < m2: {p}")
            elif s != "ok":
                R.bad(key, f"refused: {p}")
            elif abs(p["q"] - (1. if dq > 0 else m1 / m2)) > 1e-12:
                R.bad(key, f"q = {p['q']}")
            elif bool(ws) != (m1 < m2):
                R.bad(key, f"{len(ws)} warnings")


def partner(case, R):
    """Quasicircular partner for NR data, for every starting frequency estimate
    and signal length: always covers the data."""
    v = dict(good=.95, double=2., half=.5, quarter=3.5)[case["s"]]
    for q, s1, n in itertools.product((1., 3.), (0., .4), (4, 6, 8)):
        w = wave(n_orb=n, dt=1., e0=.2)
        nr = w.data()
        par = dict(q=q, chi1=[0, 0, s1], chi2=[0, 0, 0.], mean_ano=None,
                   approximant="IMRPhenomT")
        snap, psnap = snapshot(nr), snapshot(par)
        key = f"partner:{case['s']}:{q}:{s1}:{n}"
        with captured(), Stub(v):
            s, r = attempt(LD.get_zeroecc_dataDict_for_nr, nr, par)
        R.ev()
        R.state((key, s))
        if s != "ok":
            R.bad(key, f"failed: {r!r}"[:200])
            continue
        if snapshot(nr) != snap or snapshot(par) != psnap:
            R.bad(key, "the inputs changed")
        partner_ok(R, key, dict(r, t=nr["t"]), 1.)
        dtz = r["t_zeroecc"][1] - r["t_zeroecc"][0]
        if nr["t"][0] - r["t_zeroecc"][0] > 40 * dtz:
            R.bad(key, "partner not cut to the length of the data")
        # same mass ratio and spin: against a direct request
        om = -np.gradient(np.unwrap(np.angle(r["hlm_zeroecc"][(2, 2)])),
                          r["t_zeroecc"])[3] / 2
        ref = LD.load_waveform(origin="LAL", approximant="IMRPhenomT", q=q,
                               chi1=[0, 0, s1], chi2=[0, 0, 0], ecc=0.,
                               mean_ano=0., Momega0=om * .8,
                               deltaTOverM=dtz)
        sel = (ref["t"] > r["t_zeroecc"][0] + 1) & (ref["t"] < 50)
        a = np.interp(ref["t"][sel], r["t_zeroecc"],
                      np.abs(r["hlm_zeroecc"][(2, 2)]))
        if np.abs(a - np.abs(ref["hlm"][(2, 2)][sel])).max() > 5e-3 * a.max():
            R.bad(key, "not the circular waveform of this binary")


def short(case, R):
    """Counterparts barely longer than the data: every offset of the start."""
    with captured(), Stub(.95):
        w = wave(n_orb=6, dt=1., e0=.2)
        nr = w.data()
        par = dict(q=1.5, chi1=[0, 0, 0.], chi2=[0, 0, 0.], mean_ano=0.,
                   approximant="IMRPhenomT")
        # find out where the counterpart of one fixed frequency starts
        f = lalsim.SimIMRSEOBNRv4ROMFrequencyOfTime
        hold = {}
        lalsim.SimIMRSEOBNRv4ROMFrequencyOfTime = \
            lambda *a: hold.setdefault("f", f(*a))
        LD.get_zeroecc_dataDict_for_nr(nr, par)
        MT = 10 * 4.925490947641266978197229498498379006e-6
        full = LD.load_waveform(
            origin="LAL", approximant="IMRPhenomT", q=1.5, chi1=[0, 0, 0.],
            chi2=[0, 0, 0.], ecc=0., mean_ano=0.,
            Momega0=hold["f"] * np.pi * MT)
        start = full["t"][0]
        for off in np.concatenate([np.arange(-3, 30) * .1 + .05, [5., 20.]]):
            # an NR signal starting `off` after that
            x = {"t": w.t - w.t[0] + start + off, "hlm": {}}
            scale = -(start + off)
            tt = (w.t / -w.t[0]) * scale
            x = {"t": tt, "hlm": w.data()["hlm"]}
            x["t"] = tt - tt[0] + start + off
            s, r = attempt(LD.get_zeroecc_dataDict_for_nr, x, par)
            R.ev()
            key = f"short:{off:.2f}"
            R.state((key, s))
            if s != "ok":
                R.bad(key, f"failed: {r!r}"[:200])
            elif len(r["t_zeroecc"]) < 1000 or r["t_zeroecc"][0] > x["t"][0]:
                R.bad(key, f"{len(r['t_zeroecc'])} samples, starting at "
                           f"{r['t_zeroecc'][0]}, data at {x['t'][0]}")


def check(case, R):
    dict(sxs=sxs_case, hack=hack, eob=eob, emri=emri, files=files, meta=meta,
         partner=partner, short=short, pathname=pathname,
         lvcnr=lvcnr, download=download, memory=memory_case)[case["k"]](case, R)
