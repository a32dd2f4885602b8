"""A fuzzing dictionary: the short numeric literals of the sources that belong to a property.

They only steer the generators (values and lengths at and next to a constant of the code are tried more often);
no verdict depends on them.  Sources that are not found, or moved, just leave the dictionary smaller.
"""
import os
import re

ROOT = os.environ.get("VERIF_REPO", "/repo")
DIRS = {"P07": "logfactorial loggamma1p multivariate_logbeta", "P08": "expint1", "P09": "debye1", "P10": "log1p", "P11": "abs_squared abssq hypot3 pow1pm1",
        "P12": "normal erfcx", "P13": "logistic ramp swish", "P14": "yeo_johnson", "P15": "step deadzone trapezoid_pulse", "P16": "semivar", "P17": "issnan nan_to_num next nextn",
        "P18": "first", "P19": "minmax peaktopeak", "P20": "searchsorted", "P21": "all_same ordered", "P22": "percentileofscore", "P23": "kbnsum", "P24": "means",
        "P25": "corr meanvar", "P26": "mad", "P27": "vnorm", "P28": "wjaccard", "P29": "backlash hysteresis_relay", "P30": "sosfilter", "P31": "unwrap fillnan1d",
        "P32": "linear_interp1d", "P33": "softmax", "P34": "tri_area cross", "P35": "bincount", "P36": "convert_to_base one_hot", "P37": "gendot"}
NUM = re.compile(r"(?<![\w.])(?:(\d+)\s*<<\s*(\d+)|(0[xX][0-9a-fA-F]+)|(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?))[fFlLuU]{0,3}(?![\w.])")
STRIP = re.compile(r"\"\"\".*?\"\"\"|//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|#[^\n]*", re.S)


def _files(prop):
    src = os.path.join(ROOT, "src")
    dirs = DIRS.get(prop, "").split()
    try:
        have = sorted(os.listdir(src))
    except OSError:
        return
    mine = [d for d in have if d in dirs]
    for d in mine or have:
        p = os.path.join(src, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith((".h", ".hpp", ".c", ".cpp", ".cxx", ".src")):
                    yield os.path.join(p, f)
    p = os.path.join(ROOT, "ufunclab")
    if mine:
        return
    for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
        if f.endswith(".py") and not f.startswith("test"):
            yield os.path.join(p, f)


def literals(prop, most=400):
    """-> sorted list of floats, sorted list of ints (2 and above)"""
    fl, it = set(), set()
    for f in _files(prop):
        try:
            t = open(f, errors="replace").read()
        except OSError:
            continue
        for a, b, x, d in NUM.findall(STRIP.sub(" ", t)):
            if a:
                v = float(int(a) << min(int(b), 70))
            elif x:
                v = float(int(x, 16))
            else:
                if len(re.sub(r"[eE].*|\.", "", d).strip("0")) > 5:     # coefficients
                    continue
                v = float(d)
            if v > 1 and v == int(v) and v < 2 ** 63:
                it.add(int(v))
            if v not in (0.0, 1.0) and v < 1e300:
                fl.add(v)
    return sorted(fl)[:most], sorted(it)[:most]
