"""P23: the command line does what was asked, or refuses.

 G  every --samples string up to a length over an alphabet, against an
    independent reading of the documented grammar (real program, 4 samples)
 O  products of output format x reference x method x nested options x columns x
    generator specification x checkpointing: the result table equals direct
    measurements with exactly these options, row by row
 M  misuse: the program fails, evaluates nothing and writes no result
 R  all ordered pairs of option settings used one after the other in the same
    output directory
"""
import contextlib
import io
import itertools
import json
import os
import re

from mc import mpi, pp, ppgen

META = dict(
    level="exploration", limit=300, chunk=4,
    rule="distinct = command line x outcome. All --samples strings up to the "
         "stated length over {0,1,3,':',',',' '}; all option products.",
    assumptions=["posterior files are bilby JSON results"])
ALPHA = "013:, "
N = 4
FREF = 0.0085
KWS = [None, '{}', '{"num_orbits_to_exclude_before_merger": 1}',
       '{"extra_kwargs": {"omega_gw_averaging_method": '
       '"orbit_averaged_omega_gw"}}',
       '{"extra_kwargs": {"return_zero_if_small_ecc_failure": true}}']


def cases(tier):
    th = tier == "thorough"
    out = []
    for n in range(1, 7 if th else 5):
        for t in itertools.product(ALPHA, repeat=n):
            out.append(dict(f="G", s="".join(t)))
    for s in ("all", "none", "ALL", "None", " all ", "0:4:2", "1:4:2", "0:4:3",
              "3:0:-1", "3:1:-1", "2:0:-2", "3::-1", ":2", ":3:2", "2:", "0,1,3", "3,1,0,2", "2:2", "-1", "0:5", "4", "1,9",
              "-2:3", "-3:-1", "-1:", ":-1", "-2:4:2", "0:-1", "-1,0", "-4",
              "a", "0:a", "0:1:2:3", "1;2", "0.5", "1e0", "0-3", ""):
        out.append(dict(f="G", s=s))
    for fmt in ("csv", "json", "parquet"):
        for ref in ("t", "f", "tn", "fn", "nt", "t0"):
            for m in (None, "Amplitude", "Frequency"):
                for kw in range(5):
                    for col in (0, 1, 2):
                        if not th and (col == 2) != (kw == 3):
                            continue
                        out.append(dict(f="O", fmt=fmt, ref=ref, m=m, kw=kw,
                                        col=col, gen=(kw + col) % 3,
                                        se=["none", None, "2", "None"][
                                            (kw + len(ref)) % 4]))
    for w in MISUSE:
        out.append(dict(f="M", w=w))
    for a in range(len(SET)):
        for b in range(len(SET)):
            for sel in ("0:3", "all"):
                out.append(dict(f="R", a=a, b=b, sel=sel))
    return out


# settings of two runs in the same directory: arguments, how to measure
SET = [
    (["--tref", "-703"], dict(tref=-703., fref=None)),
    (["--tref", "-903"], dict(tref=-903., fref=None)),
    (["--fref", str(FREF)], dict(tref=None, fref=FREF)),
    (["--fref", str(FREF * .9)], dict(tref=None, fref=FREF * .9)),
    (["--tref=-703.0", "--method", "Frequency"],
     dict(tref=-703., fref=None, method="Frequency")),
    (["--tref", "-703", "--gw-eccentricity-kwargs",
      '{"num_orbits_to_exclude_before_merger": 3}'],
     dict(tref=-703., fref=None,
          kwargs={"num_orbits_to_exclude_before_merger": 3})),
    (["--tref", "-703", "--data-dict-generator-extra-kwargs",
      '{"scale": 1.25}'], dict(tref=-703., fref=None, scale=1.25)),
]


def r(case, R):
    """A run with other options in a directory that has a checkpoint: these
    options count, or the run is refused; nothing recorded is lost."""
    b, out = base_dir()
    kinds = [0, 3, 1, 2, 6]
    key = f"p23:rerun={case['a']}:{case['b']}:{case['sel']}"

    def go(i, sel):
        return execute(["--posterior-path", post(b, kinds, "r"),
                        "--output-dir", out, "--save-every", "1",
                        f"--samples={sel}", "--data-dict-generator",
                        "mc.ppgen:generate", "--method", "Amplitude"]
                       + SET[i][0]).finished[0]
    e1 = go(case["a"], case["sel"])
    first = dict(files(out))
    n1 = len(ppgen.CALLS)
    e2 = go(case["b"], "all")
    R.ev(2)
    R.state((key, str(e1)[:40], str(e2)[:40]))
    if e1 is not None:
        return R.bad(key, f"first run failed: {e1!r}")
    if e2 is not None:
        if case["a"] == case["b"]:
            R.bad(key, f"the same options were refused: {e2!r}")
        if ppgen.CALLS or files(out) != first:
            R.bad(key, "refused, but evaluated samples or changed files")
        return
    kw = dict(SET[case["b"]][1])
    bad = pp.check_output(pp.read_output(out, "csv"), kinds, list(range(5)),
                          **dict(dict(method="Amplitude"), **kw))
    if bad:
        R.bad(key, bad[0])
    if case["a"] == case["b"] and len(ppgen.CALLS) != 5 - n1:
        R.bad(key, f"evaluated again: {ppgen.CALLS}")


def files(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}


def grammar(s):
    """documented sample selections -> list, None (= not documented)"""
    t = s.strip().lower()
    if t in ("all", "none"):
        return list(range(N))
    if re.fullmatch(r"\d+", t):
        return [int(t)]
    if re.fullmatch(r"\d+(,\d+)+", t):
        return [int(x) for x in t.split(",")]
    m = re.fullmatch(r"(\d+):(\d+)(?::(\d+))?", t)
    if m and m.group(3) != "0" and (m.group(3) is None or int(m.group(3))):
        return list(range(int(m.group(1)), int(m.group(2)),
                          int(m.group(3) or 1)))
    return None


def shorthand(s):
    """what an undocumented selection can only mean, if it is accepted"""
    t = s.strip().lower()
    m = re.fullmatch(r"(-\d+|\d*):(-\d+|\d*)(?::(-?\d*))?", t)
    if m and m.group(3) != "-" and int(m.group(3) or 1):
        c = int(m.group(3) or 1)
        if "-" in m.group(1) + m.group(2):     # counted from the end
            a, b = (int(x) if x else None for x in m.groups()[:2])
            return list(range(N))[a:b:c]
        a, b = (int(x) if x else None for x in m.groups()[:2])
        if None in (a, b) or c > 0:
            return list(range(N))[a:b:c]
        return list(range(a, b, c))
    if re.fullmatch(r"[\d, ]*,[\d, ]*", t) and not re.search(r"\d +\d", t):
        return [int(x) for x in t.split(",") if x.strip()]
    return None


def check(case, R):
    with contextlib.redirect_stderr(io.StringIO()):
        {"G": g, "O": o, "M": m, "R": r}[case["f"]](case, R)


def base_dir():
    b = os.path.join(os.getcwd(), "gwmc_p23")
    if not os.path.isdir(b):
        os.makedirs(b)
    out = pp.fresh(os.path.join(b, "out"))
    return b, out


_posts = {}


def post(b, kinds, tag):
    p = os.path.join(b, f"post-{tag}.json")
    if p not in _posts or not os.path.exists(p):
        pp.write_posterior(p, kinds)
        _posts[p] = 1
    return p


def execute(argv):
    ppgen.CALLS.clear()
    return mpi.Run(1, pp.cli(argv)(), ()).run()


def g(case, R):
    b, out = base_dir()
    kinds = [3] * N
    argv = ["--posterior-path", post(b, kinds, "g"), "--output-dir", out,
            "--tref", "-703", f"--samples={case['s']}",
            "--data-dict-generator", "mc.ppgen:generate"]
    o = execute(argv)
    R.ev()
    err = o.finished[0]
    want = grammar(case["s"])
    soft = shorthand(case["s"])
    key = f"p23:samples={case['s']!r}"
    df = pp.read_output(out, "csv")
    R.state((case["s"], str(err)[:20], tuple(ppgen.CALLS)))
    if want is None:
        # not documented: refused, or read as something sensible (an existing
        # selection); never a result for something else
        if err is None and (df is None or len(df) != len(ppgen.CALLS)):
            R.bad(key, "accepted without a complete result")
        elif err is not None and df is not None:
            R.bad(key, "a result file was written although the run failed")
        if err is None and soft is not None and df is not None and \
                list(df["sample_index"]) != soft and not (
                    ":-" in case["s"] and df.empty):  # labels: an empty range
            R.bad(key, f"gives the samples {list(df['sample_index'])}")
        if err is None and not re.search(r"\d", case["s"]) and ppgen.CALLS:
            R.bad(key, f"evaluated {ppgen.CALLS}")
        return
    if any(i >= N for i in want):
        if err is None:
            R.bad(key, "samples that do not exist were accepted")
        elif df is not None:
            R.bad(key, "result written for samples that do not exist")
        return
    if err is not None:
        R.bad(key, f"failed: {err!r}")
        return
    bad = pp.check_output(df, kinds, want)
    if bad:
        R.bad(key, bad[0])


def o(case, R):
    b, out = base_dir()
    kinds = [0, 3, 1, 2, 6] if case["kw"] < 4 else [0, 10, 1, 6, 10]
    key = "p23:" + ":".join(f"{k}={case[k]}" for k in sorted(case))
    cols = [None, ["kind", "sid"], ["sid", "mass", "kind"]][case["col"]]
    gen = ["mc.ppgen:generate", pp.GEN + ":generate",
           os.path.relpath(pp.GEN) + ":generate"][case["gen"]]
    argv = ["--posterior-path", post(b, kinds, f"o{kinds[1]}"), "--output-dir",
            os.path.join(out, "new", "dir"),
            "--output-format", case["fmt"], "--data-dict-generator", gen]
    argv += {"t": ["--tref", "-703"], "f": ["--fref", str(FREF)],
             "tn": ["--tref", "-703", "--fref", "none"],
             "fn": ["--fref", str(FREF), "--tref", "none"],
             "t0": ["--tref", "0"],
             "nt": ["--fref", "None", "--tref=-703.0"]}[case["ref"]]
    if case["m"]:
        argv += ["--method", case["m"]]
    if KWS[case["kw"]] is not None:
        argv += ["--gw-eccentricity-kwargs", KWS[case["kw"]]]
    if case["se"]:
        argv += ["--save-every", case["se"]]
    if cols:
        argv += ["--parameter-columns",
                 (", " if case["col"] == 2 else ",").join(cols)]
    scale, shift = 1.0, 0.0
    ref = dict(tref=None, fref=FREF) if "f" == case["ref"][0] else dict(
        tref=-703.0, fref=None)
    gkw = {}
    if case["ref"] == "t0":
        shift = gkw["shift"] = 1406.0 if case["kw"] == 2 else 703.0
        ref["tref"] = 0.0
    if case["kw"] == 2:
        scale = gkw["scale"] = 2.0
        ref = {k: None if v is None else (v * 2 if k == "tref" else v / 2)
               for k, v in ref.items()}
        argv = [("-1406" if a == "-703" else "--tref=-1406" if
                 a == "--tref=-703.0" else str(FREF / 2) if a == str(FREF)
                 else a) for a in argv]
    if gkw:
        argv += ["--data-dict-generator-extra-kwargs", json.dumps(gkw)]
    r = execute(argv)
    R.ev()
    err = r.finished[0]
    R.state((key, str(err)[:20]))
    if err is not None:
        R.bad(key, f"failed: {err!r}")
        return
    df = pp.read_output(os.path.join(out, "new", "dir"), case["fmt"])
    bad = pp.check_output(df, kinds, list(range(5)), case["fmt"], columns=cols,
                          method=case["m"] or "AmplitudeFits",
                          kwargs=json.loads(KWS[case["kw"]] or "null"),
                          scale=scale, shift=shift, **ref)
    if bad:
        R.bad(key, bad[0])
    elif cols and set(df.columns) - set(cols) - {
            "sample_index", "status", "egw", "lgw", "error_message"}:
        R.bad(key, f"columns {list(df.columns)} although only {cols} wanted")
    ck = os.path.join(out, "new", "dir", "checkpoint.parquet")
    if case["se"] == "2" and not os.path.exists(ck):
        R.bad(key, "no checkpoint was written")
    if case["se"] in (None, "none", "None") and os.path.exists(ck):
        R.bad(key, "a checkpoint was written although none was asked for")


MISUSE = {
    "noref": (["--tref"], []), "bothref": ([], ["--fref", "0.01"]),
    "nonenone": (["--tref"], ["--tref", "none", "--fref", "none"]),
    "json": ([], ["--gw-eccentricity-kwargs", "{bad"]),
    "jsonlist": ([], ["--gw-eccentricity-kwargs", "[1]"]),
    "json2": ([], ["--data-dict-generator-extra-kwargs", "{bad"]),
    "jsonnum": ([], ["--data-dict-generator-extra-kwargs", "3"]),
    "nogen": (["--data-dict-generator"], []),
    "gencolon": (["--data-dict-generator"], ["--data-dict-generator",
                                             "mc.ppgen.generate"]),
    "genmod": (["--data-dict-generator"], ["--data-dict-generator",
                                           "mc.absent:generate"]),
    "genattr": (["--data-dict-generator"], ["--data-dict-generator",
                                            "mc.ppgen:absent"]),
    "gencall": (["--data-dict-generator"], ["--data-dict-generator",
                                            "mc.ppgen:not_callable"]),
    "genfile": (["--data-dict-generator"], ["--data-dict-generator",
                                            "/absent/x.py:f"]),
    "fmt": ([], ["--output-format", "xml"]),
    "ptype": ([], ["--posterior-type", "other"]),
    "nopost": (["--posterior-path"], []),
    "abspost": (["--posterior-path"], ["--posterior-path", "/absent/p.json"]),
    "column": ([], ["--parameter-columns", "kind,absent"]),
    "batch": ([], ["--batch-size", "many"]),
    "save": ([], ["--save-every", "x"]),
    "tref": (["--tref"], ["--tref", "early"]),
    "unknown": ([], ["--sampels", "1"]),
}


def m(case, R):
    b, out = base_dir()
    drop, add = MISUSE[case["w"]]
    argv = []
    for k, v in (("--posterior-path", post(b, [0, 1], "m")),
                 ("--output-dir", out), ("--tref", "-703"),
                 ("--data-dict-generator", "mc.ppgen:generate")):
        if k not in drop:
            argv += [k, v]
    r = execute(argv + add)
    R.ev()
    err = r.finished[0]
    R.state((case["w"], str(err)[:40]))
    key = f"p23:misuse={case['w']}"
    if err is None:
        R.bad(key, "accepted")
    if ppgen.CALLS:
        R.bad(key, f"samples evaluated: {ppgen.CALLS}")
    if any(x.startswith("eccentricity_results") for x in os.listdir(out)):
        R.bad(key, "a result file was written")
    # and the same command without the mistake works
    if case["w"] == "noref":
        argv += ["--tref", "-703"]
        r = execute(argv)
        if r.finished[0] is not None:
            R.bad(key, f"correct command failed: {r.finished[0]!r}")
