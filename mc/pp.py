"""Helpers for the postprocessing properties."""
import contextlib
import io
import json
import logging
import os
import shutil
import sys

import numpy as np
import pandas as pd

from mc import mpi, ppgen
from mc.common import attempt, run

mpi.install()
import bilby                                               # noqa: E402
import gw_eccentricity.postprocess as PPK                  # noqa: E402,F401
import gw_eccentricity.postprocess.core as PPCORE          # noqa: E402,F401

logging.disable(logging.WARNING)
GEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ppgen.py")
TREF = -703.0
_exp = {}


def posterior_frame(kinds, labels=None):
    return pd.DataFrame(index=labels, data={
        "sid": np.arange(len(kinds)) + 100,
        "kind": list(kinds),
        "mass": 30.0 + 0.1 * np.arange(len(kinds)),
        "minimum_frequency": [20.0] * len(kinds)})


def write_posterior(path, kinds):
    """A real bilby result file."""
    with contextlib.redirect_stdout(io.StringIO()):
        pr = bilby.core.prior.PriorDict(
            {"mass": bilby.core.prior.Uniform(10, 90)})
        r = bilby.result.Result(
            label="x", outdir=os.path.dirname(path),
            posterior=posterior_frame(kinds), search_parameter_keys=["mass"],
            priors=pr, meta_data={})
        r.save_to_file(path, extension="json", overwrite=True)


def expected(kind, tref=TREF, fref=None, method="Amplitude", kwargs=None,
             scale=1.0, shift=0.0):
    """(status, egw, lgw, exception type name) of one sample, measured
    directly, without any postprocessing code."""
    key = (kind, tref, fref, method, json.dumps(kwargs, sort_keys=True), scale,
           shift)
    if key not in _exp:
        if kind in (3, 4):
            _exp[key] = ("fail", None, None)
        else:
            s, v = attempt(lambda: run(
                dataDict=ppgen.data(kind, scale, shift), method=method,
                tref_in=tref, fref_in=fref, **json.loads(json.dumps(kwargs or {}))))
            _exp[key] = (("success", float(v["eccentricity"]),
                          float(v["mean_anomaly"])) if s == "ok"
                         else ("fail", None, None))
    return _exp[key]


def read_output(outdir, fmt):
    p = os.path.join(outdir, f"eccentricity_results.{fmt}")
    if not os.path.exists(p):
        return None
    if fmt == "csv":
        return pd.read_csv(p, float_precision="round_trip")
    if fmt == "json":
        return pd.read_json(p, precise_float=True)
    return pd.read_parquet(p)


def isnull(x):
    return x is None or (isinstance(x, float) and np.isnan(x)) or x is pd.NaT


def same(x, y, tol):
    if isnull(x) or isnull(y):
        return isnull(x) and isnull(y)
    return abs(float(x) - float(y)) <= tol * max(1.0, abs(float(y)))


def check_output(df, kinds, samples, fmt="csv", exp=expected, columns=None,
                 **ekw):
    """Compare a result table with direct measurements; list of problems."""
    if df is None:
        return ["no result file"]
    tol = 1e-9 if fmt == "json" else 1e-13
    post = posterior_frame(kinds)
    if columns is not None:
        post = post[columns]
    if len(df) != len(samples):
        return [f"{len(df)} result rows for {len(samples)} samples"]
    for c in list(post.columns) + ["sample_index", "status", "egw", "lgw"]:
        if c not in df.columns:
            return [f"column {c} missing"]
    bad = []
    for i, s in enumerate(samples):
        row = df.iloc[i]
        if int(row["sample_index"]) != s:
            bad.append(f"row {i} is sample {row['sample_index']}, not {s}")
            continue
        for c in post.columns:
            if not same(row[c], post.loc[s, c], 1e-9):
                bad.append(f"row {i}: {c} = {row[c]} not {post.loc[s, c]}")
        st, e, l = exp(kinds[s], **ekw)
        if row["status"] != st:
            bad.append(f"sample {s} (kind {kinds[s]}): status {row['status']}"
                       f" instead of {st}")
        elif not (same(row["egw"], e, tol) and same(row["lgw"], l, tol)):
            bad.append(f"sample {s}: {row['egw']}, {row['lgw']} instead of "
                       f"{e}, {l}")
        elif st == "fail" and "error_message" in df.columns \
                and isnull(row["error_message"]):
            bad.append(f"sample {s} failed without a message")
    return bad


def fresh(path):
    assert "gwmc_" in path
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def cli(argv, size=1, **kw):
    """Body factory for mpi.explore / mpi.Run: main() of every rank."""
    def factory():
        sys.argv = ["gw-eccentricity-postprocess"] + list(argv)
        logging.getLogger().handlers[:] = []

        def body(r):
            mpi.load_program(r, size).main()
        return body
    return factory


def run_single(argv):
    """Run the program in one process; (exit code or exception or None)."""
    with contextlib.redirect_stderr(io.StringIO()), \
            contextlib.redirect_stdout(io.StringIO()):
        o = mpi.Run(1, cli(argv)(), ()).run()
    return o
