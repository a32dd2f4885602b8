"""Facets: one executable statement about generated cases.

A facet has a Hypothesis strategy that yields a JSON-able *case* and a body
that runs the case against the code under test and an oracle.  The body raises
Violation when the property is broken, and otherwise returns a label: a
non-empty string when the case was non-trivial, '' when it was trivial.
Because cases are plain data, a replay file bypasses Hypothesis altogether.
"""
import hashlib
import json
import traceback


class Violation(Exception):
    """The property does not hold.  `case` optionally is a smaller case."""

    def __init__(self, msg, case=None):
        super().__init__(msg)
        self.msg = msg
        self.case = case


class Facet:
    def __init__(self, name, strat, body, quick, thorough=None, rule="", evals=None,
                 enum=False):
        self.name = name
        self.strat = strat          # strategy, or list of strategies (run one after another)
        self.body = body
        self.quick = quick          # examples in total, over all shards
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.evals = evals          # case -> number of oracle evaluations inside one case
        self.enum = enum            # strat is a list of concrete cases to enumerate


class Probe:
    """A specific input, listed in known_findings.txt, that breaks the property."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


def run_body(f, case):
    """Runs a case.  The bodies never raise anything but Violation as long as
    results have the documented shapes and types, so any other exception is
    reported as a violation too."""
    try:
        return f.body(case)
    except (Violation, MemoryError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = [x for x in tb if "/checks/" in x.filename or "/vf/" in x.filename]
        x = at[-1] if at else tb[-1]
        raise Violation(f"unexpected {type(e).__name__}: {e} (at {x.filename.rsplit('/', 1)[-1]}:{x.lineno}: {x.line})") from e


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(facet, case):
    return hashlib.blake2b((facet + canon(case)).encode(), digest_size=8).hexdigest()


def call(fn, *args, **kwargs):
    """Calls the code under test; any exception is a violation."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        nm = getattr(fn, "__name__", repr(fn))
        raise Violation(f"{nm} raised {type(e).__name__}: {e}") from e


def check(cond, msg, case=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, case)
