"""One shard of a check, in its own process.

argv: spec.json.  The spec names the property, the tier, the seed, the shard,
the site directory of the fresh build and the output files.
"""
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def setup_paths(site):
    sys.path[:] = [p for p in sys.path if p not in ("", HERE)]
    sys.path.insert(0, site)
    sys.path.insert(1, HERE)
    sys.path.insert(2, os.path.join(VERIF, "checks"))
    # Hypothesis, mpmath and SciPy; at the end, so that NumPy stays the one
    # that ufunclab was built against.
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


class StopShrink(BaseException):
    pass


def main():
    spec = json.load(open(sys.argv[1]))
    setup_paths(spec["site"])
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import ufunclab
    assert os.path.realpath(ufunclab.__file__).startswith(os.path.realpath(spec["site"])), \
        ufunclab.__file__
    import core
    mod = importlib.import_module(spec["property"].lower())
    import gen
    gen.dictionary(spec["property"])

    if spec.get("replay"):
        r = spec["replay"]
        out = {"status": "ok"}
        try:
            if "probe" in r:
                for pr in mod.PROBES:
                    if pr.name == r["probe"]:
                        pr.fn()
            else:
                cases = r.get("cases") or [r["case"]]
                for f in mod.facets(spec["tier"]):
                    if f.name == r["facet"]:
                        for c in cases:
                            core.run_body(f, c)
        except core.Violation as v:
            out = {"status": "violation", "msg": v.msg}
        json.dump(out, open(spec["out"], "w"))
        return

    jf = os.open(spec["journal"], os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    t_start = time.monotonic()
    deadline = t_start + spec["budget"]
    nsh, sh = spec["nshards"], spec["shard"]
    res = {"status": "ok", "facets": {}, "samples": [], "hashes": [], "skipped": 0}
    hashes = set()

    def journal(fname, case):
        b = json.dumps({"facet": fname, "case": case}).encode()
        os.pwrite(jf, b"%010d" % len(b) + b, 0)

    def run_case(f, st, case):
        journal(f.name, case)
        lab = core.run_body(f, case)
        k = f.evals(case) if f.evals else 1
        st["cases"] += 1
        st["evaluations"] += k
        if lab:
            st["labels"][lab] = st["labels"].get(lab, 0) + 1
            h = core.case_hash(f.name, case)
            if h not in hashes:
                hashes.add(h)
                st["nontrivial"] += 1
                n = st["nontrivial"]
                if n in (1, 40, 400) and len(res["samples"]) < 60:
                    s = core.canon(case)
                    res["samples"].append({"facet": f.name, "label": lab,
                                           "case": case if len(s) < 1500 else s[:1500] + "..."})

    def fail(f, case, v):
        res["status"] = "violation"
        res["facet"] = f.name
        res["case"] = v.case if v.case is not None else case
        res["msg"] = v.msg

    def make_body(f, st, best, f_deadline):
        def body(case):
            if not best and time.monotonic() > f_deadline:
                st["out_of_time"] += 1
                return
            if best and time.monotonic() > best["t0"] + 40:
                raise StopShrink()
            try:
                run_case(f, st, case)
            except core.Violation as v:
                c = v.case if v.case is not None else case
                size = len(core.canon(c))
                if not best:
                    best["t0"] = time.monotonic()
                    best["size"] = 10 ** 9
                if size <= best["size"]:
                    best.update(size=size, case=c, msg=v.msg)
                raise
        return body

    facets = mod.facets(spec["tier"])
    if spec.get("only"):
        facets = [f for f in facets if f.name in spec["only"]]
    # give every facet a fair share of the remaining budget
    for fi, f in enumerate(facets):
        st = res["facets"].setdefault(f.name, {"cases": 0, "evaluations": 0, "nontrivial": 0,
                                               "labels": {}, "rule": f.rule, "out_of_time": 0})
        now = time.monotonic()
        f_deadline = now + max(0.5, (deadline - now) / max(1, len(facets) - fi)) * 2.0
        f_deadline = min(f_deadline, deadline)
        total = f.quick if spec["tier"] == "quick" else f.thorough
        if f.enum:
            for case in f.strat[sh::nsh]:
                if time.monotonic() > f_deadline:
                    st["out_of_time"] += 1
                    continue
                try:
                    run_case(f, st, case)
                except core.Violation as v:
                    fail(f, case, v)
                    break
            if res["status"] != "ok":
                break
            continue
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        strats = f.strat if isinstance(f.strat, list) else [f.strat]
        idx = list(range(len(strats)))
        if len(strats) >= nsh:
            mine, div = idx[sh::nsh], 1
        else:
            mine, div = idx, nsh
        for si in mine:
            n = max(1, -(-total // (len(strats) * div)))
            best = {}

            test = given(strats[si])(make_body(f, st, best, f_deadline))
            test = settings(max_examples=n, database=None, deadline=None,
                            suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink),
                            report_multiple_bugs=False, print_blob=False,
                            verbosity=hypothesis.Verbosity.quiet)(test)
            test = hypothesis.seed((spec["seed"] * 1009 + sh) * 10007 + fi * 101 + si)(test)
            try:
                test()
            except (core.Violation, StopShrink):
                pass
            except BaseException:
                if not best:
                    raise
            if best:
                res.update(status="violation", facet=f.name, case=best["case"], msg=best["msg"])
                break
        if res["status"] != "ok":
            break
    res["hashes"] = sorted(hashes)
    res["wall"] = time.monotonic() - t_start
    tmp = spec["out"] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(res, fh)
    os.rename(tmp, spec["out"])


if __name__ == "__main__":
    faulthandler.enable()
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(70)
    sys.stdout.flush()
    os._exit(0)
