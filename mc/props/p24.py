"""P24: signals generated by the LAL loader mean what they say.

For every configuration of the grid approximant x mass ratio x spins x
eccentricity x start frequency x time step x units: uniform times with the merger
at t = 0, the (2, 2) mode of that binary (against a direct library call and against
leading order PN), physical units are the exact scaling of the dimensionless ones,
the quasicircular partner is the same binary at (near) zero eccentricity and long
enough; each request that lacks or violates something is refused; the caller's
objects are untouched.
"""
import itertools
import re

import lal
import lalsimulation as lalsim
import numpy as np

from gw_eccentricity import load_data as LD

from mc.common import attempt, captured, quad_peak, run, snapshot, spline_kw

META = dict(
    level="exploration", limit=300, chunk=2,
    rule="distinct = (configuration, clause, outcome). Full grid of "
         "configurations, all single-omission and single-violation requests.",
    assumptions=["EccentricTD and IMRPhenomT as generated by the installed "
                 "library", "leading order PN amplitude within 15%"])
NAMES = ("approximant", "q", "chi", "ecc", "Momega0", "deltaTOverM", "phys")
PHYS = [None, (10., 1.), (35., 250.)]
ORIGINS = ["LAL", "SXSCatalog", "SXSCatalog_old", "LVCNR", "LVCNR_hack", "EOB",
           "EMRI"]


def cases(tier):
    th = tier == "thorough"
    out = []
    q = [1., 2.5, 6.] if th else [1., 3.]
    chis = [(0., 0.), (.4, -.3), (-.5, .2)] if th else [(0., 0.), (.4, -.3)]
    for ap in ("EccentricTD", "IMRPhenomT"):
        es = ((.02, .1, .3) if th else (.1, .3)) if ap == "EccentricTD" else (0.,)
        for x in itertools.product([ap], q, chis[:1] if ap == "EccentricTD"
                                   else chis, es,
                                   (.016, .02, .024) if th else (.018,),
                                   (.5, 1., 2.) if th else (1.,), PHYS):
            out.append(dict(k="lal", **dict(zip(NAMES, x))))
    for ap, e in (("EccentricTD", .1), ("EccentricTD", .2),
                  ("EccentricTD", .35), ("IMRPhenomT", 0.)):
        for qq in q:
            for p in PHYS[:3:2]:
                out.append(dict(k="zero", approximant=ap, ecc=e, q=qq, phys=p,
                                M0=.018))
                if th:
                    out.append(dict(k="zero", approximant=ap, ecc=e, q=qq,
                                    phys=p, M0=.022))
    out.append(dict(k="length"))
    out.append(dict(k="args"))
    out.append(dict(k="refuse"))
    out += [dict(k="origin", o=o) for o in ORIGINS]
    return out


def request(case, **more):
    r = dict(approximant=case["approximant"], q=case["q"],
             chi1=[0., 0., case["chi"][0]], chi2=[0., 0., case["chi"][1]],
             ecc=case["ecc"], mean_ano=0., Momega0=case["Momega0"],
             deltaTOverM=case["deltaTOverM"])
    if case["phys"]:
        r.update(physicalUnits=True, M=case["phys"][0], D=case["phys"][1])
    r.update(more)
    return r


def direct(case, ecc, M0, M=10., D=1.):
    """(2, 2) mode per unit (G M / c^2 D), from the library's two
    polarisations seen face on (M = 10, D = 1 Mpc: rounding as the loader)."""
    q, dt = case["q"], case["deltaTOverM"]
    MT = M * lal.MTSUN_SI
    dist = D * 1e6 * lal.PC_SI
    hp, hc = lalsim.SimInspiralChooseTDWaveform(
        M * lal.MSUN_SI * q / (1 + q), M * lal.MSUN_SI / (1 + q),
        0., 0., case["chi"][0], 0., 0., case["chi"][1], dist, 0., 0., 0., ecc,
        0., dt * MT, M0 / np.pi / MT, M0 / np.pi / MT, None,
        lalsim.GetApproximantFromString(case["approximant"]))
    h = hp.data.data - 1j * hc.data.data
    return h * dist / (MT * lal.C_SI) / np.sqrt(5 / 4 / np.pi)


def units(p):
    if not p:
        return 1., 1.
    M, D = p
    return (M * lal.MTSUN_SI,
            lal.G_SI * M * lal.MSUN_SI / lal.C_SI ** 2 / (D * 1e6 * lal.PC_SI))


def one(case, R):
    key = ":".join(map(str, case.values()))
    r = request(case)
    snap = snapshot(r)
    s, d = attempt(LD.load_waveform, origin="LAL", **r)
    R.ev()
    R.state((key, s))
    if s != "ok":
        return R.bad(key, f"failed: {d}")
    if snapshot(r) != snap:
        R.bad(key, "the request changed")
    if sorted(d) != ["hlm", "t"] or list(d["hlm"]) != [(2, 2)]:
        return R.bad(key, f"returned {sorted(d)} {list(d['hlm'])}")
    tu, au = units(case["phys"])
    t, h = d["t"] / tu, d["hlm"][(2, 2)] / au
    dt = case["deltaTOverM"]
    if len(t) != len(h) or np.abs(np.diff(t) - dt).max() > 1e-6 * dt:
        return R.bad(key, "times not uniform with the requested step")
    if abs(quad_peak(t, np.abs(h))) > .05 * dt:
        R.bad(key, f"merger at {quad_peak(t, np.abs(h))}")
    s2, d2 = attempt(LD.load_LAL_waveform, **request(case))
    if s2 != "ok" or snapshot(d2) != snapshot(d):
        R.bad(key, "the loader called directly gives another result")
    if not case["phys"] or case["phys"] == PHYS[1]:
        ref = direct(case, case["ecc"], case["Momega0"])
        if len(ref) != len(h) or np.abs(ref - h).max() > 1e-9 * abs(ref).max():
            R.bad(key, "not the (2, 2) mode of this binary")
    else:
        # rounding differs between total masses: compare amplitudes and
        # frequencies at equal distance from merger
        s3, u = attempt(LD.load_waveform, origin="LAL",
                        **request(dict(case, phys=None)))
        sel = (u["t"] > max(t[0], u["t"][0]) + 5) & (u["t"] < -200)
        for f in (lambda t, h: np.abs(h),
                  lambda t, h: -np.gradient(np.unwrap(np.angle(h)), t)):
            a = np.interp(u["t"], t, f(t, h))[sel]
            b = f(u["t"], u["hlm"][(2, 2)])[sel]
            if np.abs(a / b - 1).max() > 2e-3 * dt ** 2 + 1e-3:
                R.bad(key, "physical units are not the scaled dimensionless "
                           f"ones ({np.abs(a / b - 1).max():.2g})")
                break
    # leading order PN and the requested starting frequency
    ph = -np.unwrap(np.angle(h))
    if not np.all(np.diff(ph[t < -50]) > 0):
        return R.bad(key, "the phase of the (2, 2) mode is not decreasing")
    if case["ecc"] == 0:
        om = np.gradient(ph, t)[5] / 2
        if abs(om / case["Momega0"] - 1) > .02:
            R.bad(key, f"starts at {om}, requested {case['Momega0']}")
        nu = case["q"] / (1 + case["q"]) ** 2
        pn = 8 * np.sqrt(np.pi / 5) * nu * om ** (2 / 3)
        if abs(abs(h[5]) / pn - 1) > .15:
            R.bad(key, f"amplitude {abs(h[5])}, leading order {pn}")


def zero(case, R):
    key = ":".join(map(str, case.values()))
    c = dict(case, chi=(0., 0.), Momega0=case["M0"], deltaTOverM=1.)
    s, d = attempt(LD.load_waveform, origin="LAL",
                   **request(c, include_zero_ecc=True))
    s1, d1 = attempt(LD.load_waveform, origin="LAL", **request(c))
    R.ev()
    R.state((key, s))
    if s != "ok" or s1 != "ok":
        return R.bad(key, f"failed: {d} {d1}")
    if sorted(d) != ["hlm", "hlm_zeroecc", "t", "t_zeroecc"] or \
            list(d["hlm_zeroecc"]) != [(2, 2)]:
        return R.bad(key, f"returned {sorted(d)}")
    if snapshot({k: d[k] for k in ("t", "hlm")}) != snapshot(d1):
        R.bad(key, "asking for the partner changes the signal")
    tz, hz = d["t_zeroecc"], d["hlm_zeroecc"][(2, 2)]
    tu, au = units(case["phys"])
    if len(tz) != len(hz):
        return R.bad(key, "partner's times and modes differ in length")
    if tz[0] > d["t"][0]:
        R.bad(key, f"partner starts at {tz[0]}, signal at {d['t'][0]}")
    if d["t"][0] / tu < -1000 and tz[0] < 6 * d["t"][0]:
        R.bad(key, "partner needlessly long")
    if abs(quad_peak(tz, np.abs(hz))) > .05 * tu:
        R.bad(key, "partner's merger is not at 0")
    # the same binary, circular: amplitude and frequency against a direct call
    e0 = 1e-5 if c["approximant"] == "EccentricTD" else 0.
    ref = direct(c, e0, c["Momega0"])
    tr = np.arange(len(ref)) * 1.
    tr -= quad_peak(tr, np.abs(ref))
    sel = (tr > max(tr[0] + 5, tz[0] / tu + 5)) & (tr < -150)
    a = np.interp(tr, tz / tu, np.abs(hz) / au)[sel]
    if np.abs(a / np.abs(ref[sel]) - 1).max() > 5e-3:
        R.bad(key, "partner's amplitude is not that of the circular binary")
    pz = -np.unwrap(np.angle(hz))
    a = np.interp(tr, tz / tu, np.gradient(pz, tz / tu))[sel]
    b = np.gradient(-np.unwrap(np.angle(ref)), tr)[sel]
    if np.abs(a / b - 1).max() > 5e-3:
        R.bad(key, "partner's frequency is not that of the circular binary")
    if case["ecc"]:
        R.ev()
        tref = d["t"][0] * .5
        v = [attempt(run, dataDict=dict(d, t=d["t"].copy()), tref_in=tref,
                     method=m, extra_kwargs=spline_kw())
             for m in ("ResidualAmplitude", "Amplitude")]
        if v[0][0] != v[1][0]:
            R.bad(key, f"cannot be measured: {v}"[:200])
        elif v[0][0] == "ok":
            e = [float(x["eccentricity"]) for _, x in v]
            R.state((key, [round(x, 3) for x in e]))
            if abs(e[0] - e[1]) > .01:
                R.bad(key, f"eccentricity {e} with and without the partner")


class Recorder:
    """Replace the library entry point, keep the arguments of each call."""

    def __enter__(self):
        self.calls, self.f = [], lalsim.SimInspiralChooseTDWaveform

        def g(*a):
            self.calls.append(a)
            return self.f(*a)
        lalsim.SimInspiralChooseTDWaveform = g
        return self

    def __exit__(self, *a):
        lalsim.SimInspiralChooseTDWaveform = self.f


class Fake:
    """Stands in for the library: inspirals whose duration depends on the
    eccentricity and starting frequency as chosen."""

    def __init__(self, ratio):
        self.ratio, self.n = ratio, 0

    def __enter__(self):
        self.f = lalsim.SimInspiralChooseTDWaveform

        def g(*a):
            self.n += 1
            if self.n > 60:
                raise RuntimeError("too many signals requested")
            MT = (a[0] + a[1]) / lal.MSUN_SI * lal.MTSUN_SI
            M0, ecc, dt = a[15] * np.pi * MT, a[12], a[14] / MT
            T = 2000. * (M0 / .02) ** (-8 / 3) * (
                self.ratio if ecc < 1e-3 else 1.)
            m = int(T / dt)
            t = dt * np.arange(m + int(60 / dt)) - m * dt
            amp = np.where(t < 0, (1 + np.abs(t) / 50) ** -.25,
                           np.exp(-(t / 30) ** 2))
            h = amp * np.exp(-1j * np.minimum(t, 0) * .1) * 1e-20

            class S:
                pass
            hp, hc = S(), S()
            hp.data, hc.data = S(), S()
            hp.data.data, hc.data.data = h.real.copy(), -h.imag.copy()
            return hp, hc
        lalsim.SimInspiralChooseTDWaveform = g
        return self

    def __exit__(self, *a):
        lalsim.SimInspiralChooseTDWaveform = self.f


def length(case, R):
    """The partner covers the signal however short it is at first."""
    for ratio in (.02, .1, .25, .4, .55, .7, .75, .76, .8, .9, .95, .99, .999,
                  1., 1.001, 1.01, 1.2, 2.):
        for dt in (.5, 1.):
            for p in PHYS[:2]:
                c = dict(approximant="EccentricTD", q=2., chi=(0., 0.), ecc=.2,
                         Momega0=.02, deltaTOverM=dt, phys=p)
                with Fake(ratio):
                    s, d = attempt(LD.load_waveform, origin="LAL",
                                   **request(c, include_zero_ecc=True))
                R.ev()
                key = f"length:{ratio}:{dt}:{p}"
                R.state((key, s))
                if s != "ok":
                    R.bad(key, f"failed: {d!r}")
                    continue
                a, b = d["t"][0], d["t_zeroecc"][0]
                if b > a:
                    R.bad(key, f"partner starts at {b}, signal at {a}")
                elif b < 6 * a * max(1, ratio):
                    R.bad(key, f"partner needlessly long ({b}, signal {a})")


def args(case, R):
    """Every requested parameter reaches the library, in SI units."""
    for q, e, l, dt, p, zecc in itertools.product(
            (1., 4.), (.1, .25), (0., 1.3, 4.), (.5, 1.), PHYS, (False, True)):
        c = dict(approximant="EccentricTD", q=q, chi=(0., 0.), ecc=e,
                 Momega0=.021, deltaTOverM=dt, phys=p)
        with Recorder() as rec:
            s, d = attempt(LD.load_waveform, origin="LAL",
                           **request(c, mean_ano=l, include_zero_ecc=zecc))
        R.ev()
        key = f"args:{q}:{e}:{l}:{dt}:{p}:{zecc}"
        R.state((key, s, len(rec.calls)))
        if s != "ok" or not rec.calls:
            R.bad(key, f"{s} {len(rec.calls)} calls")
            continue
        for i, a in enumerate(rec.calls):
            m1, m2 = a[:2]
            ecc, ano, step, f = a[12], a[13], a[14], a[15]
            MT = (m1 + m2) / lal.MSUN_SI * lal.MTSUN_SI
            want = e if i == 0 else 1e-5
            bad = []
            if abs(m1 / m2 / q - 1) > 1e-9:
                bad.append(f"mass ratio {m1 / m2}")
            if p and abs((m1 + m2) / lal.MSUN_SI / p[0] - 1) > 1e-9:
                bad.append(f"total mass {(m1 + m2) / lal.MSUN_SI}")
            if p and abs(a[8] / (p[1] * 1e6 * lal.PC_SI) - 1) > 1e-9:
                bad.append(f"distance {a[8]}")
            if abs(ecc - want) > 1e-12:
                bad.append(f"eccentricity {ecc}")
            if i == 0 and abs(ano - l) > 1e-12:
                bad.append(f"mean anomaly {ano}")
            if abs(step / MT / dt - 1) > 1e-9:
                bad.append(f"step {step / MT}")
            f0 = f * np.pi * MT
            if (i == 0 and abs(f0 / .021 - 1) > 1e-9) or f0 > .0210001:
                bad.append(f"starting frequency {f0}")
            if bad:
                R.bad(key, f"call {i}: {bad}")
                break


def refuse(case, R):
    c = dict(approximant="IMRPhenomT", q=2., chi=(.1, 0.), ecc=0.,
             Momega0=.02, deltaTOverM=1., phys=None)
    ok = request(c)
    bad = []
    for k in ("approximant", "q", "chi1", "chi2", "ecc", "mean_ano", "Momega0"):
        x = dict(ok)
        del x[k]
        bad.append((f"no {k}", x))
        bad.append((f"{k} None", dict(ok, **{k: None})))
    for k in ("Q", "mass_ratio", "deltaT", "M0"):
        bad.append((f"unknown {k}", dict(ok, **{k: 1.})))
    for k in ("chi1", "chi2"):
        for v in ([0, 0, 1.2], [0, 0, -1.01], [.3, 0, 0], [0, -.3, 0],
                  [.1, .1, .1], [0, 0], [0, 0, 0, 0]):
            bad.append((f"{k}={v}", dict(ok, **{k: v})))
    bad.append(("no M", dict(ok, physicalUnits=True, D=1.)))
    bad.append(("no D", dict(ok, physicalUnits=True, M=1.)))
    bad.append(("neither", dict(ok, physicalUnits=True)))
    bad.append(("approximant", dict(ok, approximant="NoSuchModel")))
    for name, x in bad:
        s, v = attempt(LD.load_waveform, origin="LAL", **x)
        R.ev()
        R.state((name, s))
        if s == "ok":
            R.bad(f"refuse:{name}", "accepted")
    ref = LD.load_waveform(origin="LAL", **ok)
    for name, x in (("unit spin", dict(ok, chi1=[0, 0, .99])),
                    ("array", dict(ok, chi1=np.array([0, 0, .1]))),
                    ("tiny in-plane", dict(ok, chi1=[1e-6, 1e-7, .1])),
                    ("M given", dict(ok, M=50., D=3.)),
                    ("tuple", dict(ok, chi1=(0, 0, .1)))):
        snap = snapshot(x)
        s, v = attempt(LD.load_waveform, origin="LAL", **x)
        R.ev()
        R.state((name, s))
        if s != "ok":
            R.bad(f"accept:{name}", f"refused: {v}")
        elif name != "unit spin" and snapshot(v) != snapshot(ref):
            R.bad(f"accept:{name}", "another result")
        if snapshot(x) != snap:
            R.bad(f"accept:{name}", "the request changed")
    s, v = attempt(LD.load_waveform, **ok)
    if s != "ok" or snapshot(v) != snapshot(ref):
        R.bad("accept:default origin", f"{v}"[:100])


def origin(case, R):
    o = case["o"]
    av = LD.get_available_waveform_origins()
    R.ev()
    if sorted(av) != sorted(ORIGINS):
        R.bad("origins", str(av))
    d = LD.get_load_waveform_defaults(o)
    snap = snapshot(d)
    R.state((o, len(d)))
    for k in d:
        x = LD.get_load_waveform_defaults(o)
        if isinstance(x[k], list):
            x[k].append((9, 9))
        x[k] = "changed"
        if snapshot(LD.get_load_waveform_defaults(o)) != snap:
            R.bad(f"defaults:{o}:{k}", "defaults can be changed by the caller")
            break
    # a misspelt option is named in the error, a documented one is not
    for k in list(d) + ["no_such_option", "q_", ""]:
        with captured():
            s, v = attempt(LD.load_waveform, origin=o, **{k: None})
        R.ev()
        R.state((o, k, s))
        if s == "ok":
            R.bad(f"origin:{o}:{k}", "loaded without any input")
        elif ("Invalid key" in str(v)) != (k not in d):
            R.bad(f"origin:{o}:{k}", f"{v}")
    # the documentation shown is that of the loader, every option explained
    with captured() as (out, err, c):
        s, v = attempt(LD.get_load_waveform_docs, o)
    R.ev()
    text = re.sub(".\b", "", out.getvalue())
    f = LD.get_available_waveform_origins(return_dict=True)[o]
    if s != "ok" or f.__name__ not in text:
        R.bad(f"docs:{o}", f"{s} {v} {text[:80]}")
    if list(LD.get_available_waveform_origins(return_dict=True)) != av:
        R.bad("origins:dict", str(av))
    for bad in ("lal", "LAL ", "", None, "SXS"):
        for f in (lambda: LD.load_waveform(origin=bad),
                  lambda: LD.get_load_waveform_docs(bad),
                  lambda: LD.get_load_waveform_defaults(bad)):
            s, v = attempt(f)
            R.ev()
            if s == "ok":
                R.bad(f"origin:{bad}", "accepted")


def check(case, R):
    dict(lal=one, zero=zero, length=length, args=args, refuse=refuse, origin=origin)[
        case["k"]](case, R)
