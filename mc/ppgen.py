"""The user side of postprocessing: a data_dict_generator with scripted faults.

params["kind"] selects what happens for the sample:
 0-2 three different good waveforms   5 data without "hlm"
 3   the generator raises             6 waveform too short to measure
 4   it does not return a dictionary  7 good, but the generator changes params
  9 good, later and higher in frequency
 10 good, but circular (no extrema)
 8   good, but the output directory is lost meanwhile
"""
import copy
import os

CALLS = []            # kinds / ids evaluated in this process, in order
LOG = None            # file to append the evaluated ids to (crash tests)
MOVE = None           # output directory lost by kind 8 (inside the scratch)
_cache = {}


def wave(kind):
    from mc.wf import Wave
    if kind not in _cache:
        e0, l0, n = {0: (.3, .5, 8), 1: (.2, 2.0, 9), 2: (.4, 4.0, 7),
                     6: (.3, .5, 3), 7: (.25, 1.0, 8), 5: (.3, .5, 8),
                     8: (.3, .5, 8), 9: (.35, 3.0, 9), 10: (0., 0., 9)}[kind]
        _cache[kind] = Wave(e0=e0, l0=l0, n_orb=n, dt=2.5,
                            n0=.022 if kind == 9 else .02)
    return _cache[kind]


def data(kind, scale=1.0, shift=0.0):
    w = wave(kind)
    d = w.data()
    d["t"] = d["t"] * scale + shift
    if kind == 5:
        del d["hlm"]
    return d


def generate(params, kwargs=None):
    kwargs = {} if kwargs is None else kwargs
    kind, sid = int(params["kind"]), params.get("sid")
    CALLS.append(sid)
    if LOG:
        fd = os.open(LOG, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        os.write(fd, f"{int(sid)}\n".encode())
        os.close(fd)
    if kind == 3:
        raise RuntimeError(f"no waveform for sample {int(sid)}")
    if kind == 4:
        return [1, 2, 3]
    if kind == 8 and MOVE and "gwmc_" in MOVE and os.path.isdir(MOVE):
        os.rename(MOVE, MOVE + ".gone")
        open(MOVE, "w").close()
    if kind == 7:
        params["kind"] = 3
        params.clear()
    return data(kind, kwargs.get("scale", 1.0), kwargs.get("shift", 0.0))


not_callable = 7
