"""P19: postprocessing measures every sample as if it were the only one.

Families
 S  all sequences (length <= 3) over the sample behaviours of mc/ppgen.py
    (three good waveforms, generator raising / returning rubbish / changing its
    arguments, incomplete data, waveform too short), one process
 J  selected longer sequences x number of jobs x every completion order of the
    jobs (controlled joblib backend), shared or isolated memory
 O  options: reference (time / frequency), method, nested keyword arguments,
    generator arguments, sample selections in every order, repeated calls
 E  misuse: both / no reference, wrong generator, empty selection
 I  injection: same values as a direct measurement, failures not hidden
Oracle: direct measurements of the same data, without postprocessing code.
"""
import copy
import itertools
import os

import numpy as np
import pandas as pd

from mc import jobs, pp, ppgen
from mc.common import attempt

META = dict(
    level="model_checking", limit=300, chunk=2,
    rule="state = (per-sample statuses, completion order, configuration); "
         "transition = one executed job. All sequences up to length 3, all "
         "completion orders of up to 5 jobs.",
    assumptions=["jobs are atomic; two jobs interact only through shared "
                 "Python objects (shared mode) or not at all (isolated mode)"])
ALL = [0, 1, 2, 3, 4, 5, 6, 7]
FREF = 0.0085


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in (1, 2, 3):
        for seq in itertools.product(ALL, repeat=n):
            out.append(dict(f="S", seq=list(seq)))
    seqs = [[0, 3, 1], [6, 0, 4, 2], [7, 0, 7, 1], [0, 1, 3, 2, 5]]
    if th:
        seqs += [[7, 3, 7, 0, 1], [0, 0, 0, 0], [3, 4, 5, 6], [2, 1, 0, 6, 3],
                 [0, 1, 2, 3, 4, 7]]
        for n in (4,):
            for seq in itertools.product([0, 1, 3, 6, 7], repeat=n):
                out.append(dict(f="S", seq=list(seq)))
    for seq in seqs:
        for nj in (2, 3, -1):
            for iso in (0, 1):
                if len(seq) > 5 and nj != 2:
                    continue
                out.append(dict(f="J", seq=seq, nj=nj, iso=iso))
    for method in ("Amplitude", "Frequency", "AmplitudeFits"):
        for ref in ("t", "f"):
            for kw in range(6):
                out.append(dict(f="O", method=method, ref=ref, kw=kw))
    for sel in itertools.chain(*(itertools.permutations(range(4), k)
                                 for k in (1, 2, 3, 4))):
        out.append(dict(f="SEL", sel=list(sel)))
    for sel in ([0, 0], [1, 3, 1]):
        out.append(dict(f="SEL", sel=sel))
    # row labels are not positions: a filtered or reordered posterior
    for lab in ([3, 2, 1, 0], [1, 0, 3, 2], [10, 20, 5, 7], [0, 1, 3, 9]):
        out.append(dict(f="LAB", lab=lab, sel=None))
        for n in (1, 2, 4):
            for sel in itertools.permutations(lab, n):
                out.append(dict(f="LAB", lab=lab, sel=list(sel)))
    # labels that name several rows: refused, or each row once and in order
    for lab in itertools.product(range(3), repeat=3):
        if len(set(lab)) < 3:
            out.append(dict(f="DUP", lab=list(lab)))
    for w in ("both", "none", "notcallable", "nondf", "empty", "columns",
              "nopost", "range"):
        out.append(dict(f="E", what=w))
    for k in ALL:
        for ref in ("t", "f", "both", "none"):
            out.append(dict(f="I", kind=k, ref=ref))
    out.append(dict(f="B"))
    for w in ("egw", "lgw", "eccentricity", "mean_per_ano"):
        for ax in range(3):
            out.append(dict(f="PLOT", what=w, ax=ax))
    return out


class FramePost(pp.PPK.PostProcess):
    FRAME = None

    def get_posterior(self, parameter_columns=None):
        if parameter_columns is None:
            return self.FRAME
        return pp.PPK.filter_posterior_columns(self.FRAME, parameter_columns)

    def get_injection_params(self):
        return dict(kind=self.INJ, sid=7)


def make(kinds, labels=None, **kw):
    cls = type("FP", (FramePost,), dict(
        FRAME=pp.posterior_frame(kinds, labels)))
    return cls("nowhere", ppgen.generate, **kw)


KW = [None,
      {"num_orbits_to_exclude_before_merger": 1},
      {"extra_kwargs": {"omega_gw_averaging_method": "mean_of_extrema_interpolants"}},
      {"extra_kwargs": {"extrema_finding_kwargs": {"width": 10}},
       "num_orbits_to_exclude_before_merger": 3},
      {"extra_kwargs": {"nonexistent": 3}},
      {"extra_kwargs": {"return_zero_if_small_ecc_failure": True}}]


def judge(R, key, res, kinds, samples, **ekw):
    rs = res.results
    if len(rs) != len(samples):
        R.bad(key, f"{len(rs)} results for {len(samples)} samples")
        return False
    ok_e, ok_l = [], []
    for i, (r, s) in enumerate(zip(rs, samples)):
        st, e, l = pp.expected(kinds[s], **ekw)
        if int(r.sample_index) != s:
            R.bad(key, f"result {i} is for sample {r.sample_index}, not {s}")
            return False
        if r.status != st:
            R.bad(key, f"sample {s} (kind {kinds[s]}) in {kinds}: {r.status} "
                  f"({r.error_message}) instead of {st}")
            return False
        if st == "success":
            ok_e.append(e)
            ok_l.append(l)
            if not (abs(r.egw - e) <= 1e-14 and abs(r.lgw - l) <= 1e-13):
                R.bad(key, f"sample {s} in {kinds}: {r.egw}, {r.lgw} instead "
                      f"of {e}, {l}")
                return False
        elif r.egw is not None or r.lgw is not None or not r.error_message:
            R.bad(key, f"failed sample {s}: {r.egw}, {r.lgw}, "
                  f"{r.error_message!r}")
            return False
    sm = res.get_summary()
    if sm["total_samples"] != len(samples) or (samples and abs(
            sm["success_percentage"] - 100 * len(ok_e) / len(samples)) > 1e-9) \
            or len(sm["egw"]) != len(ok_e) \
            or not np.allclose(sm["egw"], ok_e, rtol=1e-13, atol=0) \
            or not np.allclose(sm["lgw"], ok_l, rtol=1e-13, atol=1e-13):
        R.bad(key, f"summary {sm} for {kinds}")
        return False
    df = res.to_dataframe()
    if [int(x) for x in df["sample_index"]] != samples or \
            list(df["status"]) != [r.status for r in rs] or \
            [r.egw for r in res.success_only()] != sm["egw"]:
        R.bad(key, "table or successful results differ from the results")
        return False
    return True


def check(case, R):
    f = case["f"]
    key = "p19:" + ":".join(f"{k}={case[k]}" for k in sorted(case))
    if f == "S":
        kinds = case["seq"]
        p = make(kinds)
        frame = p.posterior.copy(deep=True)
        ppgen.CALLS.clear()
        res = p.postprocess(tref=pp.TREF, n_jobs=1)
        R.ev()
        R.trans(len(kinds))
        R.state(("S", tuple(r.status for r in res.results), tuple(kinds)))
        if not judge(R, key, res, kinds, list(range(len(kinds)))):
            return
        if ppgen.CALLS != [100 + i for i in range(len(kinds))]:
            R.bad(key, f"evaluated {ppgen.CALLS}")
        if not frame.equals(p.posterior):
            R.bad(key, "the posterior was changed")
        if p.get_gw_eccentricity_posterior() != {
                "egw": [r.egw for r in res.success_only()],
                "lgw": [r.lgw for r in res.success_only()]}:
            R.bad(key, "stored posterior differs from the results")
    elif f == "J":
        kinds = case["seq"]
        p = make(kinds)
        idx = list(range(len(kinds)))
        for b, res in jobs.explore(
                lambda: (ppgen.CALLS.clear(), p.postprocess(
                    tref=pp.TREF, n_jobs=case["nj"]))[1],
                isolate=bool(case["iso"]), cap=800):
            R.ev()
            R.trans(len(kinds))
            R.state((key, tuple(b.order)))
            if not judge(R, key, res, kinds, idx):
                return
            if sorted(ppgen.CALLS) != [100 + i for i in idx]:
                R.bad(key, f"evaluated {ppgen.CALLS} in order {b.order}")
                return
    elif f == "O":
        kinds = [0, 3, 1, 2] if case["kw"] < 5 else [10, 0, 10, 6]
        p = make(kinds, data_dict_generator_extra_kwargs={"scale": 1.0})
        kw = copy.deepcopy(KW[case["kw"]])
        ref = dict(tref=pp.TREF) if case["ref"] == "t" else dict(fref=FREF)
        ekw = dict(tref=None, fref=None, method=case["method"],
                   kwargs=KW[case["kw"]])
        ekw.update(ref)
        for rep in range(2):
            res = p.postprocess(method=case["method"], n_jobs=1,
                                gw_eccentricity_kwargs=kw, **ref)
            R.ev()
            R.trans(4)
            R.state((key, rep, tuple(r.status for r in res.results)))
            if not judge(R, key, res, kinds, [0, 1, 2, 3], **ekw):
                return
            if kw != KW[case["kw"]]:
                R.bad(key, f"the caller's options became {kw}")
                return
        # the generator's own options reach it
        p = make(kinds, data_dict_generator_extra_kwargs={"scale": 2.0})
        ref2 = dict(tref=2 * pp.TREF) if case["ref"] == "t" else dict(
            fref=FREF / 2)
        ekw.update(ref2)
        res = p.postprocess(method=case["method"], n_jobs=1,
                            gw_eccentricity_kwargs=kw, **ref2)
        R.ev()
        if not judge(R, key, res, kinds, [0, 1, 2, 3], scale=2.0, **ekw):
            return
        if case["ref"] == "t":
            # a reference time of zero is a reference time
            p = make(kinds, data_dict_generator_extra_kwargs={
                "shift": -pp.TREF}, injection_file="inj")
            ekw.update(tref=0.0, shift=-pp.TREF)
            res = p.postprocess(method=case["method"], n_jobs=1,
                                gw_eccentricity_kwargs=kw, tref=0.0)
            R.ev()
            judge(R, key, res, kinds, [0, 1, 2, 3], **ekw)
            type(p).INJ = kinds[0]
            s, v = attempt(lambda: p.get_injection_egw_and_lgw(
                tref=0.0, method=case["method"], gw_eccentricity_kwargs=kw))
            st, e, l = pp.expected(kinds[0], **ekw)
            if (s == "ok") != (st == "success") or s == "ok" and not (
                    abs(v[0] - e) <= 1e-14 and abs(v[1] - l) <= 1e-13):
                R.bad(key, f"injection at time 0: {s} {v}, not {st} {e} {l}")
    elif f == "SEL":
        kinds = [0, 3, 1, 7]
        p = make(kinds)
        res = p.postprocess(tref=pp.TREF, samples=case["sel"], n_jobs=1)
        R.ev()
        R.trans(len(case["sel"]))
        R.state((key,))
        judge(R, key, res, kinds, case["sel"])
    elif f == "LAB":
        kinds = [0, 3, 1, 2]
        p = make(kinds, labels=case["lab"])
        res = p.postprocess(tref=pp.TREF, samples=case["sel"], n_jobs=1)
        R.ev()
        R.trans(len(res.results))
        R.state((key,))
        judge(R, key, res, dict(zip(case["lab"], kinds)),
              case["lab"] if case["sel"] is None else case["sel"])
    elif f == "DUP":
        kinds = [0, 3, 1]
        s, p = attempt(make, kinds, labels=case["lab"])
        s, res = (s, p) if s == "err" else attempt(
            p.postprocess, tref=pp.TREF, n_jobs=1)
        R.ev()
        R.state((key, s))
        if s == "err":
            if not isinstance(res, ValueError):
                R.bad(key, f"repeated labels: {type(res).__name__}: {res}")
            return
        one = [make([k]).postprocess(tref=pp.TREF, n_jobs=1).results[0]
               for k in kinds]
        got = [(x.sample_index, x.status, x.egw) for x in res.results]
        want = [(lb, x.status, x.egw) for lb, x in zip(case["lab"], one)]
        if got != want:
            R.bad(key, f"rows labelled {case['lab']} give {got}, "
                       f"not {want}")
    elif f == "I":
        p = make([0], injection_file="inj")
        type(p).INJ = case["kind"]
        ref = {"t": dict(tref=pp.TREF), "f": dict(fref=FREF),
               "both": dict(tref=pp.TREF, fref=FREF), "none": {}}[case["ref"]]
        s, v = attempt(lambda: p.get_injection_egw_and_lgw(**ref))
        R.ev()
        R.state((key, s))
        if case["ref"] in ("both", "none"):
            if s == "ok" or not isinstance(v, ValueError):
                R.bad(key, f"accepted: {s} {v!r}")
            return
        st, e, l = pp.expected(case["kind"], tref=ref.get("tref"),
                               fref=ref.get("fref"))
        if (s == "ok") != (st == "success"):
            R.bad(key, f"{s} {v!r} instead of {st}")
        elif s == "ok" and not (abs(v[0] - e) <= 1e-14
                                and abs(v[1] - l) <= 1e-13):
            R.bad(key, f"{v} instead of {e}, {l}")
    elif f == "E":
        misuse(case["what"], R, key)
    elif f == "B":
        bilby_class(R, key)
    elif f == "PLOT":
        plots(case, R, key)


def plots(case, R, key):
    """The histograms show the values they are named after, wherever they are
    drawn."""
    import matplotlib.pyplot as plt
    w = case["what"]
    kinds = [0, 1, 3, 2, 0]
    p = make(kinds)
    p.posterior["eccentricity"] = [.11, .12, .33, .4, .48]
    p.posterior["mean_per_ano"] = [.1, 5., 2., 2.1, 3.]
    frame = p.posterior.copy(deep=True)
    p.postprocess(tref=pp.TREF, n_jobs=1)
    ex = [pp.expected(k) for k in kinds]
    want = (list(p.posterior[w]) if w in p.posterior else
            [x[1 if w == "egw" else 2] for x in ex if x[0] == "success"])
    fn = getattr(p, f"plot_{w}_posterior")
    f0, a0 = plt.subplots(1, 2)
    a0 = list(a0)
    kw = [{}, dict(fig=f0, ax=a0[1]), dict(ax=a0[1])][case["ax"]]
    bins = np.linspace(0, 7, 71)
    s, v = attempt(lambda: fn(bins=bins, **kw))
    R.ev()
    R.state((key, s))
    if s != "ok":
        R.bad(key, f"{v!r}")
        plt.close("all")
        return
    fig, ax = v if isinstance(v, tuple) else (f0, v)
    heights = [q.get_height() for q in ax.patches]
    if not np.array_equal(heights, np.histogram(want, bins=bins)[0]):
        R.bad(key, f"the histogram is not that of {want}")
    if case["ax"] == 1 and (ax is not a0[1] or fig is not f0):
        R.bad(key, "not drawn where asked")
    if a0[0].patches or not frame.equals(p.posterior):
        R.bad(key, "another plot or the posterior was changed")
    plt.close("all")


def misuse(w, R, key):
    R.ev()
    R.state((key,))
    p = make([0, 1])
    if w in ("both", "none"):
        kw = dict(tref=1.0, fref=2.0) if w == "both" else {}
        s, v = attempt(lambda: p.postprocess(n_jobs=1, **kw))
        if s == "ok" or not isinstance(v, ValueError):
            R.bad(key, f"{s} {v!r}")
        s, v = attempt(lambda: pp.PPCORE.postprocess_sample(
            0, {"kind": 0, "sid": 0}, kw.get("tref"), kw.get("fref"),
            ppgen.generate))
        if s == "ok" or not isinstance(v, ValueError):
            R.bad(key, f"a single sample: {s} {v!r}")
    elif w == "notcallable":
        s, v = attempt(lambda: type(p)("x", 7))
        if s == "ok" or not isinstance(v, TypeError):
            R.bad(key, f"{s} {v!r}")
    elif w == "nondf":
        cls = type("Q", (FramePost,), dict(
            get_posterior=lambda self, parameter_columns=None: [1]))
        s, v = attempt(lambda: cls("x", ppgen.generate))
        if s == "ok" or not isinstance(v, TypeError):
            R.bad(key, f"{s} {v!r}")
    elif w == "empty":
        res = p.postprocess(tref=pp.TREF, samples=[], n_jobs=1)
        if res.results or p.postprocess_summary()["total_samples"] != 0 \
                or len(res.to_dataframe()):
            R.bad(key, f"{res}")
    elif w == "columns":
        q = type(p)("x", ppgen.generate, parameter_columns=["kind", "sid"])
        if list(q.posterior.columns) != ["kind", "sid"]:
            R.bad(key, f"columns {list(q.posterior.columns)}")
        judge(R, key, q.postprocess(tref=pp.TREF, n_jobs=1), [0, 1], [0, 1])
        s, v = attempt(lambda: type(p)("x", ppgen.generate,
                                       parameter_columns=["nope"]))
        if s == "ok" or "nope" not in str(v):
            R.bad(key, f"missing column: {s} {v!r}")
    elif w == "nopost":
        for fn in (p.postprocess_summary, p.get_gw_eccentricity_posterior):
            s, v = attempt(fn)
            if s == "ok" or not isinstance(v, ValueError):
                R.bad(key, f"result without postprocessing: {s} {v!r}")
        s, v = attempt(p.get_injection_data_dict)
        if s == "ok" or not isinstance(v, ValueError):
            R.bad(key, f"injection without file: {s} {v!r}")
    elif w == "range":
        s, v = attempt(lambda: p.postprocess(tref=pp.TREF, samples=[0, 5],
                                             n_jobs=1))
        if s == "ok":
            R.bad(key, "a sample that does not exist was accepted")


def bilby_class(R, key):
    """The bilby flavour: posterior and injection from files."""
    d = pp.fresh(os.path.join(os.getcwd(), "gwmc_b"))
    kinds = [0, 3, 1]
    f = os.path.join(d, "post.json")
    pp.write_posterior(f, kinds)
    for inj in ("with", "without"):
        row = dict(kind=2, sid=5, mass=31.0)
        if inj == "with":
            row["minimum_frequency"] = 11.0
        g = os.path.join(d, f"{inj}.dat")
        pd.DataFrame([row]).to_csv(g, sep=" ", index=False)
        for cols in (None, ["kind", "sid", "minimum_frequency"]):
            p = pp.PPK.PostProcessForBilby(f, ppgen.generate, injection_file=g,
                                           parameter_columns=cols)
            R.ev()
            R.state((key, inj, cols is None))
            want = pp.posterior_frame(kinds)
            if cols:
                want = want[cols]
            if list(p.posterior.columns) != list(want.columns) or \
                    not np.allclose(p.posterior.to_numpy(float),
                                    want.to_numpy(float)):
                R.bad(key, f"posterior {p.posterior}")
            judge(R, key, p.postprocess(tref=pp.TREF, n_jobs=1), kinds,
                  [0, 1, 2])
            ip = p.get_injection_params()
            w = 11.0 if inj == "with" else 20.0
            if ip["kind"] != 2 or ip["minimum_frequency"] != w:
                R.bad(key, f"injection {ip}")
            st, e, l = pp.expected(2)
            v = p.get_injection_egw_and_lgw(tref=pp.TREF)
            if abs(v[0] - e) > 1e-14 or abs(v[1] - l) > 1e-13:
                R.bad(key, f"injection measured {v}")
    s, v = attempt(lambda: pp.PPK.PostProcessForBilby(
        os.path.join(d, "absent.json"), ppgen.generate))
    if s == "ok":
        R.bad(key, "absent file accepted")
