"""The code generators: extension modules made from generated declarations do what was declared."""
import ctypes
import importlib.util
import itertools
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import numpy as np
from core import Facet, Violation
from arr import poison, pl, lay
from gen import src

BUDGET = (200, 600)
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = os.path.join(REPO, "tools")
TECHNIQUE = "generated declarations and kernels are compiled with the generators of tools/cxxgen and called on generated arrays; oracle: an interpreter of the declaration in Python"
NOTE = ("A case is a module of up to five generated gufuncs (shape signatures with named and constant core dimensions, several sources, all type codes, nonzero_coredims, process_core_dims_func, "
        "extra_module_funcs) or ufuncs (several headers, functions and modules); the kernels weigh every element, core dimension, type and source differently, so that a wrong pointer, stride, "
        "dimension, loop or order shows. Templates for conv_template.py (nested loops, repeated values, exclusions) are expanded and compared with a small expander.")

CT = {"?": "npy_bool", "b": "npy_byte", "h": "npy_short", "i": "npy_int", "l": "npy_long", "q": "npy_longlong", "p": "npy_intp", "B": "npy_ubyte", "H": "npy_ushort", "I": "npy_uint",
      "L": "npy_ulong", "Q": "npy_ulonglong", "P": "npy_uintp", "f": "npy_float", "d": "npy_double", "g": "npy_longdouble", "F": "npy_cfloat", "D": "npy_cdouble", "G": "npy_clongdouble", "O": "PyObject *"}
CODE = {c: i + 1 for i, c in enumerate("bBhHiIlLqQfdgFDGO")}
CODE["?"] = CODE["B"]
CODE["p"], CODE["P"] = CODE["l"], CODE["L"]
KEY = {"p": "l", "P": "L"}
DIMS = ["n", "m", "k", "i", "j", "d1", "_r", "len_x", "p", "args", "data", "nloops"]
PARAMS = ["x", "y", "a", "n1", "window", "p", "x_", "out_x", "q2"]
MOD = 61

HELP = '''
#ifndef VERIF_HELP_H
#define VERIF_HELP_H
extern "C" { __attribute__((visibility("default"))) int verif_late = 0; }
static inline npy_intp cd(npy_byte) { return 1; }
static inline npy_intp cd(npy_ubyte) { return 2; }
static inline npy_intp cd(npy_short) { return 3; }
static inline npy_intp cd(npy_ushort) { return 4; }
static inline npy_intp cd(npy_int) { return 5; }
static inline npy_intp cd(npy_uint) { return 6; }
static inline npy_intp cd(npy_long) { return 7; }
static inline npy_intp cd(npy_ulong) { return 8; }
static inline npy_intp cd(npy_longlong) { return 9; }
static inline npy_intp cd(npy_ulonglong) { return 10; }
static inline npy_intp cd(npy_float) { return 11; }
static inline npy_intp cd(npy_double) { return 12; }
static inline npy_intp cd(npy_longdouble) { return 13; }
static inline npy_intp cd(npy_cfloat) { return 14; }
static inline npy_intp cd(npy_cdouble) { return 15; }
static inline npy_intp cd(npy_clongdouble) { return 16; }
static inline npy_intp cd(PyObject *) { return 17; }
template<typename T> static npy_intp ld(const T *p) { return (npy_intp) *p; }
static npy_intp ld(const npy_cfloat *p) { const float *q = (const float *) p; return (npy_intp) q[0] + 3 * (npy_intp) q[1]; }
static npy_intp ld(const npy_cdouble *p) { const double *q = (const double *) p; return (npy_intp) q[0] + 3 * (npy_intp) q[1]; }
static npy_intp ld(const npy_clongdouble *p) { const npy_longdouble *q = (const npy_longdouble *) p; return (npy_intp) q[0] + 3 * (npy_intp) q[1]; }
static npy_intp ld(PyObject *const *p) { return *p ? PyLong_AsLong(*p) : 0; }
template<typename T> static void wr(T *p, npy_intp v) { *p = (T) v; }
static void wr(npy_ubyte *p, npy_intp v) { *p = (npy_ubyte) (v & 1); }
static void wr(npy_cfloat *p, npy_intp v) { float *q = (float *) p; q[0] = v; q[1] = v % 7; }
static void wr(npy_cdouble *p, npy_intp v) { double *q = (double *) p; q[0] = v; q[1] = v % 7; }
static void wr(npy_clongdouble *p, npy_intp v) { npy_longdouble *q = (npy_longdouble *) p; q[0] = v; q[1] = v % 7; }
static void wr(PyObject **p, npy_intp v) { PyObject *o = *p; *p = PyLong_FromLong(v); Py_XDECREF(o); }
#endif
'''


# ---------------------------------------------------------------- declarations
def gdecl(s, idx):
    """a gufunc"""
    pool = [s.pick(DIMS) for _ in range(s.rng(1, 3))]
    pool = list(dict.fromkeys(pool))

    def shape():
        r = []
        for _ in range(s.pick([1, 0, 1, 2, 3])):
            r.append(s.pick(pool) if not s.chance(1, 4) else s.rng(1, 3))
        return r
    ins = [shape() for _ in range(s.rng(1, 3))]
    known = [d for p in ins for d in p]
    outs = []
    for _ in range(s.pick([1, 1, 2, 3])):
        q = [d for d in shape() if isinstance(d, int) or d in known or s.chance(1, 4)]
        outs.append(q)
    if not any(ins) and not any(outs):
        ins[0] = [pool[0]]
    params = []
    while len(params) < len(ins):
        q = s.pick(PARAMS)
        params.append(q if q not in params else q + str(len(params)))
    nio = len(ins) + len(outs)
    sources = []
    seen = set()
    for k in range(s.pick([1, 1, 2, 3])):
        types = []
        # groups of columns with the same sequence of types, constant columns
        grp = [s.rng(0, 2) for _ in range(nio)]
        const = [s.chance(1, 4) for _ in range(nio)]
        base = [s.pick("dfgilqbBhHIL?QFDGOpP") for _ in range(nio)]
        for r in range(s.pick([1, 2, 3])):
            pick = [s.pick("dfilgbhqBHILQ?FDGOpP") for _ in range(3)]
            t = "".join(base[i] if const[i] else pick[grp[i]] for i in range(nio))
            key = "".join(KEY.get(c, c) for c in t)
            if key not in seen:
                seen.add(key)
                types.append(t)
        if types:
            sources.append({"fn": f"core_{idx}_{k}", "types": [t[:len(ins)] + "->" + t[len(ins):] for t in types]})
    order = list(dict.fromkeys(d for p in ins + outs for d in p))
    only = [d for d in order if not isinstance(d, int) and d not in known]
    nz, pcd = None, None
    how = s.rng(0, 3)
    names = [d for d in order if not isinstance(d, int) and d in known]
    if how == 1 and names:
        nz = [d for d in names if s.chance(2, 3)] or names[:1]
        if s.chance(1, 3):
            nz = nz[::-1]
    elif how >= 2 and only:
        pcd = {d: [order.index(s.pick(known)) if known else -1, s.rng(0, 2)] for d in only}
        if not known:
            pcd = {d: [-1, s.rng(0, 3)] for d in only}
    calls = [{"t": s.byte(), "dims": [s.pick([2, 1, 3, 0, 4]) for _ in range(len(order))], "loop": [s.pick([2, 1, 3, 0]) for _ in range(s.pick([1, 0, 2]))],
              "mask": [s.rng(0, 3) for _ in ins], "lay": [s.pick([0, 1, 2, 3, 4, 5, 7, 8]) for _ in range(nio)], "v": [s.rng(0, 40) for _ in range(24)], "out": s.chance(1, 2),
              "bad": s.chance(1, 6)} for _ in range(6)]
    return {"name": s.pick(["f", "g_long_name", "h2"]) + f"_{idx}", "ins": ins, "outs": outs, "sp": s.byte() % 3, "params": params, "src": sources, "nz": nz, "pcd": pcd,
            "doc": [s.pick(["text", "100 % of {n} [x]", "", "    >>> f(1)", "é ü"]) for _ in range(s.rng(0, 4))], "calls": calls}


def gcase(s):
    return {"funcs": [gdecl(s, i) for i in range(s.rng(1, 5))], "extra": s.chance(1, 3)}


def sigstr(d):
    sep = [",", ", ", ","][d["sp"]]
    gap = ["", "", " "][d["sp"]]

    def part(p):
        return "(" + sep.join(str(q) for q in p) + ")"
    return sep.join(part(p) for p in d["ins"]) + gap + "->" + gap + sep.join(part(p) for p in d["outs"])


def order_of(d):
    return list(dict.fromkeys(q for p in d["ins"] + d["outs"] for q in p))


def header(d):
    """the core functions, from the rules of the generator's documentation"""
    order = order_of(d)
    txt = []
    for k, so in enumerate(d["src"]):
        rows = [t.replace("->", "") for t in so["types"]]
        cols = ["".join(c) for c in zip(*rows)]
        uniq = []
        tn = []
        for c in cols:
            if len(set(c)) == 1:
                tn.append(CT[c[0]])
            else:
                if c not in uniq:
                    uniq.append(c)
                tn.append("TUVWXYZ"[uniq.index(c)])
        if uniq:
            txt.append("template<" + ", ".join("typename " + "TUVWXYZ"[j] for j in range(len(uniq))) + ">")
        args = [f"npy_intp D{order.index(q)}" for q in order if not isinstance(q, int)]
        body = ["if (PyGILState_Check() && PyErr_Occurred()) { verif_late = 1; return; }" if any("O" in t for t in rows) else "", f"npy_intp acc = {7 * (k + 1)};"]
        shapes = d["ins"] + d["outs"]
        for i, q in enumerate(order):
            body.append(f"acc += {i + 5} * " + (str(q) if isinstance(q, int) else f"D{i}") + ";")
        for a, p in enumerate(shapes):
            args.append(f"{tn[a]} *p{a}" if not tn[a].endswith("*") else f"PyObject **p{a}")
            if len(p) == 1:
                args.append(f"npy_intp s{a}")
            elif p:
                args.append(f"const npy_intp s{a}[{len(p)}]")
            body.append(f"acc += {a + 3} * cd(" + (f"*({tn[a]} *) 0" if 0 else f"({tn[a]}) {{}}") + ");")
        late = []
        for a, p in enumerate(shapes):
            loops, off = "", "0"
            for r, q in enumerate(p):
                loops += f"for (npy_intp i{r} = 0; i{r} < " + (str(q) if isinstance(q, int) else f"D{order.index(q)}") + f"; ++i{r}) "
                off += f" + i{r} * s{a}" + (f"[{r}]" if len(p) > 1 else "")
            ptr = f"({tn[a]} *) ((char *) p{a} + {off})"
            if a < len(d["ins"]):
                stop = 'if (v == -99) { PyErr_SetString(PyExc_KeyError, "core"); return; } ' if rows[0][a] == "O" or "O" in cols[a] else ""
                body.append(f"{{ npy_intp z = 2; {loops}{{ npy_intp v = ld({ptr}); {stop}acc += {a + 1} * z * v; ++z; }} }}")
            else:
                o = a - len(d["ins"])
                late.append(f"{{ npy_intp z = 0; {loops}{{ wr({ptr}, ((acc * {o + 1} + 13 * z) % {MOD} + {MOD}) % {MOD}); ++z; }} }}")
        txt.append(f"static void {so['fn']}(" + ", ".join(args) + ")\n{\n    " + "\n    ".join(body + late) + "\n}\n")
    if d["pcd"] is not None:
        lines = []
        for q, (j, c) in d["pcd"].items():
            i = order.index(q)
            want = f"{c}" if j < 0 else f"core_dim_sizes[{j}] + {c}"
            lines.append(f'    if (core_dim_sizes[{i}] == -1) core_dim_sizes[{i}] = {want};\n    else if (core_dim_sizes[{i}] != {want}) {{ PyErr_SetString(PyExc_ValueError, "size"); return -1; }}')
        txt.append(f'extern "C" int pcd_{d["name"]}(PyUFuncObject *ufunc, npy_intp *core_dim_sizes)\n{{\n' + "\n".join(lines) + "\n    return 0;\n}\n")
    return "\n".join(txt)


def run(cmd, cwd, what):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.pathsep.join(p for p in sys.path if p and "checks" not in p))
    for k in ("CPATH", "CFLAGS", "CXXFLAGS"):
        env.pop(k, None)
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240, errors="replace")
    if p.returncode:
        lines = [q for q in p.stdout.splitlines() if "error" in q.lower()] or p.stdout.splitlines()[-2:]
        raise Violation(f"{what}: {' | '.join(q.strip() for q in lines[:3])}")


_n = [0]


def compile_(d, out, sources, name):
    inc = [sysconfig.get_paths()["include"], np.get_include()]
    run(["g++", "-shared", "-fPIC", "-O0", "-w", "-std=c++17", *["-I" + i for i in inc], *sources, "-o", out], d, f"{name}: the generated code does not compile")


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    try:
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    except Exception as e:
        raise Violation(f"the generated module cannot be imported: {e!r}")
    return m


def tree():
    d = tempfile.mkdtemp(prefix="verif-p45-")
    for q in ("gen", "gen/out", "gen/defs"):
        os.mkdir(os.path.join(d, q))
    os.symlink(os.path.join(REPO, "src"), os.path.join(d, "gen", "src"))
    return d


def docof(d):
    return d["name"] + "(" + ", ".join(d["params"]) + ", /, ...)\n\n" + "\n".join(d["doc"]) + "\nend of the documentation"


def build_gufuncs(c):
    _n[0] += 1
    mod = f"_verif{os.getpid()}_{_n[0]}"
    d = tree()
    try:
        defs = os.path.join(d, "gen", "defs")
        with open(os.path.join(defs, "all_gufunc.h"), "w") as f:
            f.write(HELP + "\n".join(header(q) for q in c["funcs"]))
            if c["extra"]:
                f.write('\nstatic int add_extra(PyObject *module) { return PyModule_AddIntConstant(module, "EXTRA", 42); }\n')
        with open(os.path.join(defs, "define_cxx_gufunc_extmod.py"), "w") as f:
            f.write("from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource\nufuncs = []\n")
            for q in c["funcs"]:
                f.write(f"ufuncs.append(UFunc(name={q['name']!r}, header='all_gufunc.h', docstring={docof(q)!r}, signature={sigstr(q)!r}, sources=["
                        + ", ".join(f"UFuncSource(funcname={so['fn']!r}, typesignatures={so['types']!r})" for so in q["src"]) + "]"
                        + (f", nonzero_coredims={q['nz']!r}" if q["nz"] else "") + (f", process_core_dims_func='pcd_{q['name']}'" if q["pcd"] is not None else "") + "))\n")
            f.write(f"extmod = UFuncExtMod(module={mod!r}, docstring='The module.', ufuncs=ufuncs" + (", extra_module_funcs=['add_extra']" if c["extra"] else "") + ")\n")
        what = "gufuncs " + ", ".join(q["name"] + " " + sigstr(q) + " " + str([so["types"] for so in q["src"]]) for q in c["funcs"])
        # the destination is parallel to src, as in the build of the package
        run([sys.executable, os.path.join(TOOLS, "cxxgen", "generate_gufunc.py"), "defs", "out"], os.path.join(d, "gen"), what + ": generate_gufunc.py fails")
        so = os.path.join(d, mod + ".so")
        compile_(os.path.join(d, "gen"), so, [os.path.join("out", mod + ".cxx")], what)
        return load(so, mod), ctypes.CDLL(so)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def norm(t):
    return "".join(KEY.get(q, q) for q in t)


def val(x):
    """what ld() reads"""
    if isinstance(x, (complex, np.complexfloating)):
        return int(x.real) + 3 * int(x.imag)
    return int(x)


def put(v, t):
    if t in "?B":
        return v & 1
    if t in "FDG":
        return complex(v, v % 7)
    return v


def mk(c, shape, t, a):
    n = int(np.prod(shape))
    v = [c["v"][(i * 5 + a * 3) % 24] for i in range(n)]
    if t in "bhilqp":
        v = [q - 20 for q in v]
    elif t == "?":
        v = [q & 1 for q in v]
    elif t in "fdgO":
        v = [q - 20 for q in v]
    elif t in "FDG":
        v = [complex(q - 20, q % 5 - 2) for q in v]
    x = np.empty(n, dtype=t)
    for i, q in enumerate(v):
        x[i] = q
    return x.reshape(shape)


def model(d, loops, k, xs, t, sizes):
    """loops: broadcast loop shape; xs: operands; -> list of outputs as arrays of python values"""
    order = order_of(d)
    nin = len(d["ins"])
    base = 7 * (k + 1) + sum((i + 5) * sizes[q] for i, q in enumerate(order)) + sum((a + 3) * CODE[q] for a, q in enumerate(t.replace("->", "")))
    outs = [np.empty(loops + tuple(sizes[q] for q in p), dtype=object) for p in d["outs"]]
    xb = []
    for x, p in zip(xs, d["ins"]):
        core = x.shape[x.ndim - len(p):]
        xb.append(np.broadcast_to(x, loops + core))
    for idx in np.ndindex(*loops):
        acc = base
        for a, x in enumerate(xb):
            z = 2
            e = np.asarray(x[idx], dtype=x.dtype)
            for q in (e.ravel().tolist() if e.dtype.char not in "gG" else list(e.ravel())):
                acc += (a + 1) * z * val(q)
                z += 1
        for o, y in enumerate(outs):
            e = [((acc * (o + 1) + 13 * z) % MOD) for z in range(int(np.prod(y.shape[len(loops):])))]
            w = np.empty(len(e), dtype=object)
            w[:] = [put(q, t.split("->")[1][o]) for q in e]
            y[idx] = w.reshape(y.shape[len(loops):]) if y.ndim > len(loops) else w[0]
    return outs


def gcheck(d, m, lib, c):
    name = d["name"]
    f = getattr(m, name, None)
    what = f"{name} {sigstr(d)} {[so['types'] for so in d['src']]}"
    if not isinstance(f, np.ufunc):
        raise Violation(f"the module has no ufunc {what}")
    loops = [(k, t) for k, so in enumerate(d["src"]) for t in so["types"]]
    got = [f.__name__, f.nin, f.nout, (f.signature or "").replace(" ", ""), f.types]
    want = [name, len(d["ins"]), len(d["outs"]), sigstr(d).replace(" ", ""), [norm(t) for _, t in loops]]
    if got != want:
        raise Violation(f"{what}: name, nin, nout, signature, types are {got}, declared {want}")
    if docof(d).split("\n") != [q for q in f.__doc__.split("\n")][2:2 + len(docof(d).split("\n"))]:
        raise Violation(f"{what}: the documentation is {f.__doc__!r}, declared {docof(d)!r}")
    order = order_of(d)
    known = {q for p in d["ins"] for q in p}
    done = 0
    for cc in d["calls"]:
        k, t = loops[cc["t"] % len(loops)]
        ti, to = t.split("->")
        sizes = {q: (q if isinstance(q, int) else cc["dims"][i]) for i, q in enumerate(order)}
        full = tuple(cc["loop"])
        # sizes of dimensions of the outputs alone
        need = [q for q in order if q not in known]
        given = cc["out"]
        if d["pcd"] is not None:
            for q, (j, e) in d["pcd"].items():
                sizes[q] = e if j < 0 else sizes[order[j]] + e
        elif any(not isinstance(q, int) for q in need):
            given = True
        xs = []
        for a, (p, q, mask) in enumerate(zip(d["ins"], ti, cc["mask"])):
            lp = full if mask == 0 else (() if mask == 1 else tuple(1 if mask == 2 else v for v in full))
            xs.append(lay(mk(cc, lp + tuple(sizes[r] for r in p), q, a), cc["lay"][a]))
        loop = np.broadcast_shapes(*[x.shape[:x.ndim - len(p)] for x, p in zip(xs, d["ins"])])
        bad = False
        if cc["bad"] and "O" in ti:
            a = ti.index("O")
            if xs[a].size and 0 not in loop:
                xs[a] = xs[a].copy()
                xs[a].flat[cc["v"][0] % xs[a].size] = -99
                bad = True
        kw = {"signature": norm(t)}
        outs = None
        if given:
            outs = [lay(np.zeros(loop + tuple(sizes[q] for q in p), dtype=norm(q2)), cc["lay"][len(xs) + o] % 8) for o, (p, q2) in enumerate(zip(d["outs"], to))]
            kw["out"] = tuple(outs)
        call = f"{what}, loop {t}, called with shapes {[x.shape for x in xs]}" + (f", out {[y.shape for y in outs]}" if given else "") + f" (layouts {cc['lay']})"
        zero = d["nz"] is not None and any(sizes[q] == 0 for q in d["nz"])
        lib_late = ctypes.c_int.in_dll(lib, "verif_late")
        lib_late.value = 0
        try:
            r, err = f(*xs, **kw), None
        except Exception as e:
            r, err = None, e
        if zero:
            if not isinstance(err, ValueError) or not any(q in str(err) for q in d["nz"] if sizes[q] == 0):
                raise Violation(f"{call}: the core dimensions {d['nz']} must not be 0, but {err!r}, {pl(r)}")
            done += 1
            continue
        if bad:
            if not isinstance(err, KeyError):
                raise Violation(f"{call}: the core function raises KeyError, but the result is {err!r}, {pl(r)}")
            if lib_late.value:
                raise Violation(f"{call}: the core function is called again after it has raised an exception")
            done += 1
            continue
        if err is not None:
            raise Violation(f"{call}: {err!r}")
        r = r if isinstance(r, tuple) else (r,)
        w = model(d, loop, k, xs, t, sizes)
        for o, (y, z) in enumerate(zip(r, w)):
            y = np.asarray(y, dtype=object if to[o] == "O" else None)
            if y.dtype != np.dtype(norm(to[o])) or y.shape != z.shape or not all(p == q for p, q in zip(y.ravel().tolist() if y.dtype.char not in "gG" else list(y.ravel()), z.ravel())):
                raise Violation(f"{call}: output {o} is {pl(y)} {y.dtype}{y.shape}, the declaration gives {z.tolist()}; inputs {[pl(x) for x in xs]}")
            if given and r[o] is not outs[o]:
                raise Violation(f"{call}: does not return out")
        done += 1
    return done


def gbody(c):
    c = dict(c, funcs=[d for d in c["funcs"] if d["src"]])
    if not c["funcs"]:
        return ""
    m, lib = build_gufuncs(c)
    if m.__doc__ is None or m.__doc__.strip() != "The module.":
        raise Violation(f"the documentation of the module is {m.__doc__!r}")
    if c["extra"] and getattr(m, "EXTRA", None) != 42:
        raise Violation("extra_module_funcs are not called")
    n = 0
    for d in c["funcs"]:
        n += gcheck(d, m, lib, c)
    return f"{len(c['funcs'])} gufuncs" if n else ""


# ---------------------------------------------------------------- ufuncs
def ucase(s):
    mods = []
    for m in range(s.pick([1, 2])):
        headers = []
        for h in range(s.pick([1, 2])):
            funcs = []
            for k in range(s.rng(1, 3)):
                nin = s.rng(1, 4)
                seen = []
                for _ in range(s.rng(1, 4)):
                    t = "".join(s.pick("dfgDFG") for _ in range(nin)) + "->" + s.pick("dfgDFG")
                    if t.split("->")[0] not in [q.split("->")[0] for q in seen]:
                        seen.append(t)
                funcs.append({"name": s.pick(["u", "v_w", "Fn3"]) + f"_{m}{h}{k}", "types": seen, "nin": nin, "doc": [s.pick(["text", "", "100 % {n}", "é"]) for _ in range(s.rng(0, 3))], "over": s.chance(1, 3)})
            headers.append({"file": f"hdr{m}{h}." + s.pick(["h", "hh", "hpp", "h++"]), "funcs": funcs})
        mods.append({"headers": headers, "extra": s.chance(1, 3)})
    return {"mods": mods, "calls": [{"t": s.byte(), "shape": [s.pick([2, 1, 3, 0, 20]) for _ in range(s.rng(0, 2))], "sc": [s.chance(1, 4) for _ in range(4)], "lay": [s.pick([0, 1, 2, 3, 4, 5, 7, 8]) for _ in range(5)],
                                     "v": [s.rng(0, 40) for _ in range(24)], "out": s.chance(1, 2)} for _ in range(4)]}


UC = {"f": "float", "d": "double", "g": "long double", "F": "std::complex<float>", "D": "std::complex<double>", "G": "std::complex<long double>"}


def uheader(h, extra):
    guard = h["file"].split(".")[0].upper() + "_SRC"
    txt = [f"#ifndef {guard}\n#define {guard}\n#include <complex>\n"
           "template<typename T> static inline double rd(T x) { return (double) x; }\n"
           "template<typename T> static inline double rd(std::complex<T> x) { return (double) x.real() + 3.0 * (double) x.imag(); }\n"]
    txt[0] = txt[0].replace(" rd(", f" rd_{guard}(")
    if extra:
        txt.append("double verif_extra(double x);\n")
    for k, fn in enumerate(h["funcs"]):
        for j, t in enumerate(fn["types"]):
            a, b = t.split("->")
            args = ", ".join(f"{UC[q]} a{i}" for i, q in enumerate(a))
            expr = " + ".join([str(k * 5 + j)] + [f"{i + 2} * rd_{guard}(a{i})" for i in range(len(a))])
            if extra:
                expr = f"verif_extra({expr})"
            ov = "volatile double big = 1e308; big = big * 10; volatile double zero = 0; zero = zero / zero; " if fn["over"] else ""
            txt.append(f"static inline {UC[b]} core_{fn['name']}({args})\n{{\n    {ov}double r = {expr};\n    return ({UC[b]}) r;\n}}\n")
    txt.append("#endif\n")
    return "\n".join(txt)


def ubody(c):
    _n[0] += 1
    d = tree()
    try:
        defs, out = os.path.join(d, "gen", "defs"), os.path.join(d, "gen", "out")
        names = [f"_verifu{os.getpid()}_{_n[0]}_{i}" for i in range(len(c["mods"]))]
        L = ["from ufunc_config_types import ExtMod, Func", "extmods = []"]
        for nm, m in zip(names, c["mods"]):
            dic = []
            for h in m["headers"]:
                for at in (defs, os.path.join(d, "gen")):
                    with open(os.path.join(at, h["file"]), "w") as f:
                        f.write(uheader(h, m["extra"]))
                dic.append(f"{h['file']!r}: [" + ", ".join(f"Func(cxxname='core_{q['name']}', ufuncname={q['name']!r}, types={q['types']!r}, docstring={udoc(q)!r})" for q in h["funcs"]) + "]")
            ex = ""
            if m["extra"]:
                ex = f", extra_sources=['extra{nm}.cxx']"
                with open(os.path.join(defs, f"extra{nm}.cxx"), "w") as f:
                    f.write("double verif_extra(double x) { return x + 1; }\n")
            L.append(f"extmods.append(ExtMod(modulename={nm!r}, funcs={{" + ", ".join(dic) + "}" + ex + "))")
        with open(os.path.join(defs, "define_cxxgen_extmods.py"), "w") as f:
            f.write("\n".join(L) + "\n")
        what = "ufuncs " + ", ".join(q["name"] + " " + str(q["types"]) for m in c["mods"] for h in m["headers"] for q in h["funcs"])
        run([sys.executable, os.path.join(TOOLS, "cxxgen", "generate_ufuncs.py"), "defs", "out"], os.path.join(d, "gen"), what + ": generate_ufuncs.py fails")
        ms = []
        for nm, m in zip(names, c["mods"]):
            so = os.path.join(d, nm + ".so")
            ss = [os.path.join("out", nm + ".cxx")] + [os.path.join("out", h["file"].rsplit(".", 1)[0] + "_concrete.cxx") for h in m["headers"]]
            if m["extra"]:
                ss.append(os.path.join("out", f"extra{nm}.cxx"))
            compile_(os.path.join(d, "gen"), so, ss, what)
            ms.append(load(so, nm))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for m, mod in zip(c["mods"], ms):
        for h in m["headers"]:
            for k, fn in enumerate(h["funcs"]):
                ucheck(c, mod, m, k, fn)
    return f"{sum(len(h['funcs']) for m in c['mods'] for h in m['headers'])} ufuncs"


def udoc(q):
    return q["name"] + "(x, /, ...)\n\n" + "\n".join(q["doc"]) + "\nend"


def ucheck(c, mod, m, k, fn):
    f = getattr(mod, fn["name"], None)
    what = f"{fn['name']} {fn['types']}"
    if not isinstance(f, np.ufunc):
        raise Violation(f"the module has no ufunc {what}")
    if [f.__name__, f.nin, f.nout, f.signature, f.types] != [fn["name"], fn["nin"], 1, None, fn["types"]]:
        raise Violation(f"{what}: name, nin, nout, signature, types are {[f.__name__, f.nin, f.nout, f.signature, f.types]}")
    if not f.__doc__.endswith(udoc(fn)):
        raise Violation(f"{what}: the documentation is {f.__doc__!r}, declared {udoc(fn)!r}")
    for cc in c["calls"]:
        j = cc["t"] % len(fn["types"])
        a, b = fn["types"][j].split("->")
        xs = [lay(mk(cc, () if cc["sc"][i] else tuple(cc["shape"]), q, i), cc["lay"][i]) for i, q in enumerate(a)]
        shape = np.broadcast_shapes(*[x.shape for x in xs])
        kw = {"out": lay(np.zeros(shape, dtype=b), cc["lay"][4] % 8)} if cc["out"] else {}
        call = f"{what}, loop {a}->{b}, called with {[pl(x) for x in xs]} (layouts {cc['lay']})"
        try:
            with np.errstate(all="raise"):
                y = f(*xs, signature=f"{a}->{b}", **kw)
        except Exception as e:
            raise Violation(f"{call} raises {e!r}")
        y = np.asarray(y)
        acc = np.full(shape, k * 5 + j + (1 if m["extra"] else 0), dtype=float)
        for i, x in enumerate(xs):
            acc = acc + (i + 2) * (x.real.astype(float) + 3 * x.imag.astype(float))
        if y.dtype != np.dtype(b) or y.shape != acc.shape or not (y == acc).all():
            raise Violation(f"{call} is {pl(y)} {y.dtype}, the declaration gives {pl(acc)}")


# ---------------------------------------------------------------- templates
def tcase(s):
    cnt = [0]

    def block(level, outer=()):
        k = s.rng(1, 3) if level or s.chance(3, 4) else s.rng(4, 13)
        vs = []
        for _ in range(s.rng(1, 3)):
            cnt[0] += 1
            how = s.rng(0, 3) if k > 1 else 0
            if how == 1:
                w = s.pick(["1", "xy", "npy_int", ""])
                vs.append([f"v{cnt[0]}", f"({w})*{k}" if w == "" or s.chance(1, 2) else f"{w}*{k}", [w] * k])
            else:
                w = [s.pick(["0", "a", "npy_byte", "unsigned long", "-1", "x->y", "A"]) for _ in range(k)]
                vs.append([f"v{cnt[0]}", (", " if how == 2 else ",").join(w), w])
        scope = [*outer, *((n, w) for n, _, w in vs)]
        body = []
        for _ in range(s.rng(1, 4)):
            if level < 2 and s.chance(1, 3):
                body.append(block(level + 1, scope))
            else:
                body.append(["".join(s.pick(["x", "@", " = ", "a * b;", "@", "*", "/", "if (n) {"]) for _ in range(s.rng(1, 4)))])
        ex = []                # :exclude: lines of the inner loops (word values only: that is the documented form)
        if level and s.chance(2, 3):
            for _ in range(s.rng(1, 2)):
                q = {}
                for _ in range(s.rng(1, 2)):
                    n, w = s.pick(scope)
                    w = [x for x in w if re.fullmatch(r"\w+", x)]
                    if w:
                        q[n] = s.pick(w)
                if q:
                    ex.append(q)
        return {"v": vs, "b": body, "st": s.byte() % 2, "ex": ex}
    r = []
    for _ in range(s.rng(1, 4)):
        r.append(block(0) if s.chance(3, 4) else ["int y;"])
    return {"t": r, "seed": [s.byte() for _ in range(40)]}


def expand(c):
    """-> template text, expected lines"""
    it = itertools.cycle(c["seed"])

    def text(line, names):
        """replaces each @ of a generated line by a reference to one of the names in scope"""
        q = ""
        for ch in line:
            q += ("@" + names[next(it) % len(names)] + "@" if names else "") if ch == "@" else ch
        return q

    def walk(node, level, names):
        if isinstance(node, list):
            return [text(node[0], names)]
        tag = "" if level == 0 else str(level)
        star = " * " if node["st"] == 0 else " *"
        L = [f"/**begin repeat{tag}"] + [f"{star}#{n} = {v}#" for n, v, _ in node["v"]]
        X = [star + ":exclude: " + ", ".join(f"{n}={w}" for n, w in q.items()) for q in node.get("ex", [])]
        L[1:1] = X[1:]
        L += X[:1] + [" */"]
        inner = []
        for b in node["b"]:
            inner.append(walk(b, level + 1, names + [n for n, _, _ in node["v"]]))
        node["_t"] = inner
        return L + [q for p in inner for q in p] + [f"/**end repeat{tag}**/"]

    T = []
    for node in c["t"]:
        T.append(walk(node, 0, []))

    def out(node, lines, env):
        if isinstance(node, list):
            q = lines[0]
            for n, v in env.items():
                q = q.replace("@" + n + "@", v)
            return [q]
        r = []
        for k in range(len(node["v"][0][2])):
            e = dict(env, **{n: w[k] for n, _, w in node["v"]})
            if any(all(e[n] == w for n, w in q.items()) for q in node.get("ex", [])):
                continue
            for b, tl in zip(node["b"], node["_t"]):
                r += out(b, tl, e)
        return r
    E = []
    for node, lines in zip(c["t"], T):
        E += out(node, lines, {})
    return "\n".join(q for p in T for q in p) + "\n", E


_conv = []


def tbody(c):
    import copy
    if not _conv:
        spec = importlib.util.spec_from_file_location("verif_conv_template", os.path.join(TOOLS, "conv_template.py"))
        m = importlib.util.module_from_spec(spec)
        old, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            spec.loader.exec_module(m)
        finally:
            sys.dont_write_bytecode = old
        _conv.append(m)
    t, want = expand(copy.deepcopy(c))
    try:
        got = _conv[0].process_str(t)
    except Exception as e:
        raise Violation(f"template {t!r}: {e!r}")
    got = [q.strip() for q in got[len(_conv[0].header):].split("\n") if q.strip() and not q.startswith("#line")]
    want = [q.strip() for q in want if q.strip()]
    if got != want:
        raise Violation(f"template {t!r} expands to {got}, expected {want}")
    return "exclusions" if ":exclude:" in t and "@" in t else ("expanded" if "repeat1" in t else ("flat" if "repeat" in t else ""))


# ---------------------------------------------------------------- rejected declarations
def rcase(s):
    d = gdecl(s, 0)
    return {"f": d, "how": s.rng(0, 1), "n": s.rng(1, 3)}


def rbody(c):
    d = c["f"]
    names = [q for p in d["ins"] for q in p if not isinstance(q, int)]
    if not d["src"]:
        return ""
    doc, kw = docof(d), {}
    if c["how"] == 0 and names:
        kw = {"nonzero_coredims": names[:1], "process_core_dims_func": "some_function"}
        what = "nonzero_coredims and process_core_dims_func"
    else:
        more = [q + "_more" for q in PARAMS[:c["n"]]]
        doc = docof(dict(d, params=d["params"] + more))
        what = f"{len(d['params']) + len(more)} parameters in the documentation"
    t = tree()
    try:
        g = os.path.join(t, "gen")
        with open(os.path.join(g, "defs", "all_gufunc.h"), "w") as f:
            f.write("\n")
        with open(os.path.join(g, "defs", "define_cxx_gufunc_extmod.py"), "w") as f:
            f.write("from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource\n"
                    f"f = UFunc(name={d['name']!r}, header='all_gufunc.h', docstring={doc!r}, signature={sigstr(d)!r}, sources=[UFuncSource(funcname='core', typesignatures={d['src'][0]['types']!r})], **{kw!r})\n"
                    "extmod = UFuncExtMod(module='_bad', docstring='x', ufuncs=[f])\n")
        try:
            run([sys.executable, os.path.join(TOOLS, "cxxgen", "generate_gufunc.py"), "defs", "out"], g, "x")
        except Violation:
            return "rejected"
        raise Violation(f"generate_gufunc.py accepts {sigstr(d)} with {what}")
    finally:
        shutil.rmtree(t, ignore_errors=True)


def facets(tier):
    return [Facet("reject", src(rcase, 900), rbody, 64, 1000, rule="an invalid declaration is rejected"),
            Facet("gufunc", src(gcase, 2500), gbody, 160, 6000, rule="a module is compiled and its functions called"),
            Facet("ufunc", src(ucase, 900), ubody, 40, 1200, rule="a module is compiled and its functions called"),
            Facet("template", src(tcase, 600), tbody, 2000, 50000, rule="has a repeat block; labelled by nesting")]
