"""Small harness around Hypothesis.

A property check is a list of sub-checks.  A sub-check is a Hypothesis strategy which generates a JSON-able *case*
(every random choice is in it, including the integers that seed tensors) and a function that runs the case against
the code in /repo and raises when the oracle disagrees.  The function is a pure function of the case and the code, so
a (shrunk) failing case is replayed without Hypothesis by calling the function on the JSON file.
"""
import contextlib
import hashlib
import io
import json
import os
import sys
import time
import traceback

HYP_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def import_hypothesis():
    try:
        import hypothesis  # noqa
    except ImportError:
        # appended at the end: torch, numpy, ... still come from the interpreter of the repository
        sys.path.append(HYP_SITE)
        import hypothesis  # noqa
    return hypothesis


import_hypothesis()
import hypothesis
from hypothesis import strategies as st, settings, given, HealthCheck, Phase


try:
    # no mutation of earlier examples: independent cases cover the configurations much more evenly
    from hypothesis.internal.conjecture import engine as _engine
    _engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
except Exception:
    pass


class Violation(AssertionError):
    """The oracle disagrees with the code under test"""


class Skip(Exception):
    """The case cannot be decided (e.g. a private helper which the check looks at no longer exists)"""


class _Stop(BaseException):
    pass


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards=1):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def need(obj, name):
    """Accesses a private helper; if it does not exist (any more) the case is skipped, this is no violation"""
    if not hasattr(obj, name):
        raise Skip('no {}'.format(name))
    return getattr(obj, name)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()


@contextlib.contextmanager
def quiet():
    """The library prints a lot"""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def derive_seed(seed, *parts):
    h = hashlib.sha256(('%d|' % seed + '|'.join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def run_case(sub, case):
    import torch
    torch.manual_seed(12345)
    torch.set_default_dtype(torch.float64)
    with quiet():
        try:
            return sub.fn(case)
        except AssertionError as e:
            if 'max_num_steps exceeded' in str(e) or 'underflow in dt' in str(e):
                # an adaptive solver at a singularity of the solution: nothing to compare
                return None
            raise


def run_shard(sub, shard, nr_of_examples, seed, soft_deadline, shrink_budget=40.0, max_samples=3, progress_file=None):
    """Generates the cases of one shard. Returns a dictionary of results."""
    out = dict(sub=sub.name, shard=shard, evaluations=0, nontrivial=[], skipped=0, skip_reasons=[], samples=[],
               failure=None, timed_out=False, labels={})
    keys = set()
    fails = dict(first=None, case=None, msg=None, tb=None)

    first = dict(skip=shard > 0)     # hypothesis starts with the simplest case; one shard with it is enough

    def body(case):
        if first['skip']:
            first['skip'] = False
            return
        if fails['first'] is not None:
            if time.time() - fails['first'] > shrink_budget:
                raise _Stop()
        elif time.time() > soft_deadline:
            out['timed_out'] = True
            return
        if progress_file is not None:
            # the parent looks at it to find out if a single case does not terminate
            with open(progress_file, 'w') as f:
                json.dump(case, f, default=str)
        try:
            res = run_case(sub, case)
        except Skip as e:
            out['skipped'] += 1
            if str(e) not in out['skip_reasons']:
                out['skip_reasons'].append(str(e))
            return
        except Exception as e:
            if fails['first'] is None:
                fails['first'] = time.time()
            fails['case'] = case
            fails['msg'] = '{}: {}'.format(type(e).__name__, e)
            fails['tb'] = traceback.format_exc()
            if os.environ.get('VERIF_FAST'):
                raise _Stop()
            raise
        if fails['first'] is not None:
            return
        out['evaluations'] += 1
        if res:
            k = case_key(case)
            if k not in keys:
                keys.add(k)
                if len(out['samples']) < max_samples:
                    out['samples'].append(case)
            labels = res if isinstance(res, (list, tuple, set)) else []
            for l in labels:
                out['labels'][l] = out['labels'].get(l, 0) + 1

    test = given(sub.strategy)(body)
    test = settings(max_examples=nr_of_examples + (1 if shard > 0 else 0), deadline=None, database=None, derandomize=False,
                    phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(derive_seed(seed, sub.name, shard))(test)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            with quiet():
                test()
    except _Stop:
        pass
    except Exception as e:
        if fails['case'] is None:
            raise
    if fails['case'] is not None:
        out['failure'] = dict(case=fails['case'], message=fails['msg'], traceback=fails['tb'])
    out['nontrivial'] = sorted(keys)
    return out
