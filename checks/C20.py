"""Sweeps over parameters: all combinations, merged with the template, run once each, finished ones are skipped."""
import argparse
import copy
import itertools
import os
import shutil
import stat
import tempfile
import time
from collections import OrderedDict
from pbt import Sub, st, fail
import ns
import neuro_shooting.command_line_execution_tools as ce
import neuro_shooting.experiment_utils as eu

VALUES = [True, False, None, 0, 1, 2, 15, 0.5, 0.123451, 0.123452, 1e-3, -1, 'tanh', 'relu', 'a_b', 'x.y', '1']
NAMES = ['nonlinearity', 'lr', 'inflation_factor', 'viz', 'niters', 'adjoint', 'pw', 'b', 'a']


@st.composite
def pars(draw, min_keys=0, max_keys=4, max_vals=3, values=VALUES, empty=True):
    keys = draw(st.lists(st.sampled_from(NAMES), min_size=min_keys, max_size=max_keys, unique=True))
    return [[k, draw(st.lists(st.sampled_from(values), min_size=0 if (empty and draw(st.integers(0, 9)) == 0) else 1, max_size=max_vals))] for k in keys]


@st.composite
def sweep_case(draw):
    return dict(sweeps=draw(st.lists(pars(), min_size=1, max_size=3)), cls=draw(st.sampled_from(['dict', 'ordered'])), mutate=draw(st.booleans()), nested=draw(st.booleans()))


def same(a, b):
    return type(a) is type(b) and a == b


def sweeps(c):
    """all the combinations, the first parameter varies slowest; sweeps do not influence each other"""
    results = []
    big = False
    for p in c['sweeps']:
        d = (OrderedDict if c['cls'] == 'ordered' else dict)([(k, list(v)) for k, v in p])
        if c['nested'] and p:
            d[p[0][0]] = [[1, 2], [3]]
        before = copy.deepcopy(d)
        got = ce.recursively_sweep_parameters(pars_to_sweep=d)
        if not (list(d) == list(before) and all(all(same(x, y) for x, y in zip(d[k], before[k])) and len(d[k]) == len(before[k]) for k in d)):
            fail('the given parameters were changed from {} to {}', before, d)
        exp = [OrderedDict(zip(before, vals)) for vals in itertools.product(*[before[k] for k in before])]
        results.append((got, exp))
        big = big or len(exp) > 1
        # results can be changed without changing the other ones
        if c['mutate'] and len(got) > 1:
            got[0]['new'] = 1
            for k in before:
                if isinstance(got[0][k], list):
                    got[0][k].append(9)
            exp[0] = None
    for got, exp in results:
        if len(got) != len(exp):
            fail('{} combinations instead of {}: {}', len(got), len(exp), got)
        for g, e in zip(got, exp):
            if e is None:
                continue
            if list(g) != list(e) or not all(same(g[k], e[k]) for k in e):
                fail('combination {} instead of {}', dict(g), dict(e))
    return ['n%d' % len(c['sweeps'])] if big else None


@st.composite
def merge_case(draw):
    t = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(VALUES)), max_size=5, unique_by=lambda x: x[0]))
    a = draw(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(VALUES)), max_size=5, unique_by=lambda x: x[0]))
    return dict(template=[list(x) for x in t], add=[list(x) for x in a], base=draw(st.sampled_from(['', 'run_00', 'x'])), nested=draw(st.booleans()))


def merge(c):
    t = dict((k, v) for k, v in c['template'])
    if c['nested']:
        t['nested'] = [1, 2]
    a = OrderedDict((k, v) for k, v in c['add'])
    t0, a0 = copy.deepcopy(t), copy.deepcopy(a)
    got = eu.merge_args(run_args_template=t, add_args=a)
    exp = dict(t0)
    for k, v in a0.items():
        if isinstance(v, bool):
            if v:
                exp[k] = None
        else:
            exp[k] = v
    if set(got) != set(exp) or not all(same(got[k], exp[k]) for k in exp):
        fail('merged arguments {} instead of {}', dict(got), exp)
    # the template can be used again
    got['output_directory'] = 'x'
    if c['nested']:
        got['nested'].append(3)
    if t != t0 or a != a0 or list(t) != list(t0):
        fail('template or swept parameters were changed')
    name = eu.create_experiment_name(c['base'], a)
    exp = c['base'] + ''.join('_{}_{}'.format(k, v) for k, v in a0.items())
    if name != exp:
        fail('experiment {} instead of {}', name, exp)
    return ['both'] if c['template'] and c['add'] else None


RUN_VALUES = [True, False, 0, 1, 15, 0.5, 0.123451, 0.123452, 1e-05, 'tanh', 'a_b', '[x]', 'y*']

RECORDER = """#!/bin/bash
D={d}
i=$(cat $D/count); echo $((i+1)) > $D/count
out=''; prev=''
: > $D/call_$i
for a in "$@"; do
  printf '%s\\n' "$a" >> $D/call_$i
  if [ "$prev" = "--output_directory" ]; then out="$a"; fi
  prev="$a"
done
printf '%s' "$CUDA_VISIBLE_DEVICES" > $D/env_$i
if [ -f $D/finish_$i ]; then : > "$out/$(cat $D/finish_$i)"; fi
echo "stdout of call $i"
echo "stderr of call $i" >&2
"""


@st.composite
def run_case(draw):
    # experiments with the same name share their directory: only distinct values
    keys = draw(st.lists(st.sampled_from(NAMES + ['shooting_model', 'fcn']), max_size=3, unique=True))
    sweep = [[k, draw(st.lists(st.sampled_from(RUN_VALUES), min_size=1, max_size=2, unique_by=str))] for k in keys]
    template = draw(st.lists(st.tuples(st.sampled_from(NAMES + ['shooting_model', 'fcn', 'seed', 'output_directory']), st.sampled_from([None, 1, 'relu'])), max_size=4, unique_by=lambda x: x[0]))
    rounds = draw(st.integers(1, 3))
    return dict(sweep=sweep, template=[list(x) for x in template], gpu=draw(st.sampled_from([0, 1, 3])), seeds=draw(st.integers(1, 2)), start=draw(st.sampled_from([0, 1, 7, 12, 100])),
                fcn=draw(st.sampled_from([None, 'cubic'])), prefix=draw(st.sampled_from(['', 'pre_'])), base=draw(st.sampled_from(['results', 'res[1]', 'r*'])),
                rounds=[dict(finish=[draw(st.sampled_from(['no', 'model.pt', 'txt', 'model.txt', 'run.pt', 'a b.pt', 'x.pt.txt', 'pt', 'm_00.pt', 'a.b.pt', 'M.pt', 'results-0.5.pt'])) for _ in range(16)], recompute=draw(st.sampled_from([False, False, True]))) for _ in range(rounds)],
                exists=draw(st.booleans()))


def runs(c):
    d = tempfile.mkdtemp(prefix='sweep_', dir=os.environ.get('VERIF_SCRATCH'))
    try:
        return _runs(c, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _runs(c, d):
    rec = os.path.join(d, 'recorder')
    with open(rec, 'w') as f:
        f.write(RECORDER.format(d=d))
    os.chmod(rec, 0o755)
    args = argparse.Namespace(gpu=c['gpu'], path_to_python=rec, nr_of_seeds=c['seeds'], starting_seed_id=c['start'], shooting_model='universal', output_base_directory='/' + c['base'])
    # the prefix is put in front of the directory
    prefix = os.path.join(d, c['prefix'] + 'x')
    args.output_base_directory = c['base']
    if c['fcn'] is not None:
        args.fcn = c['fcn']
    base = prefix + c['base']
    if c['exists']:
        os.mkdir(base)
    sweep = OrderedDict((k, list(v)) for k, v in c['sweep'])
    template = dict((k, v) for k, v in c['template'])
    t0, s0 = copy.deepcopy(template), copy.deepcopy(sweep)
    done = set()
    skipped = 0
    for rnd in c['rounds']:
        for n in os.listdir(d):
            if n.startswith(('call_', 'env_', 'finish_')):
                os.remove(os.path.join(d, n))
        with open(os.path.join(d, 'count'), 'w') as f:
            f.write('0')
        for i, v in enumerate(rnd['finish']):
            if v != 'no':
                with open(os.path.join(d, 'finish_%d' % i), 'w') as f:
                    f.write(v)
        eu.sweep_parameters(args, run_args_to_sweep=sweep, run_args_template=template, python_script='script.py', output_dir_prefix=prefix, **({'do_not_recompute': False} if rnd['recompute'] else {}))
        if template != t0 or sweep != s0:
            fail('template or swept parameters were changed')
        exp = []
        for seed in range(c['start'], c['start'] + c['seeds']):
            for vals in itertools.product(*[s0[k] for k in s0]):
                comb = OrderedDict(zip(s0, vals))
                model = comb.get('shooting_model', t0.get('shooting_model', 'universal')) if 'shooting_model' in comb or 'shooting_model' in t0 else 'universal'
                fcn = comb['fcn'] if 'fcn' in comb else (t0['fcn'] if 'fcn' in t0 else (c['fcn'] or ''))
                name = 'run_{:02d}_{}_{}'.format(seed, fcn, model) + ''.join('_{}_{}'.format(k, v) for k, v in comb.items())
                out = os.path.join(base, name)
                if out in done and not rnd['recompute']:
                    skipped += 1
                    continue
                a = dict(t0)
                for k, v in comb.items():
                    if v is True:
                        a[k] = None
                    elif v is not False:
                        a[k] = v
                a['output_directory'] = out
                a['seed'] = seed
                exp.append((out, a))
        got = int(open(os.path.join(d, 'count')).read())
        if got != len(exp):
            fail('{} experiments were run, expected {}', got, len(exp))
        for i, (out, a) in enumerate(exp):
            call = open(os.path.join(d, 'call_%d' % i)).read().split('\n')[:-1]
            if call[:1] != ['script.py']:
                fail('called with {}', call)
            seen = {}
            j = 1
            while j < len(call):
                if not call[j].startswith('--'):
                    fail('unexpected argument {} in {}', call[j], call)
                k = call[j][2:]
                if k in seen:
                    fail('argument {} was given twice', k)
                if j + 1 < len(call) and not call[j + 1].startswith('--'):
                    seen[k] = call[j + 1]
                    j += 2
                else:
                    seen[k] = None
                    j += 1
            want = {k: (None if v is None else str(v)) for k, v in a.items()}
            if seen != want:
                fail('experiment {} was called with {} instead of {}', i, seen, want)
            env = open(os.path.join(d, 'env_%d' % i)).read()
            if env != str(c['gpu']):
                fail('visible device {} instead of {}', env, c['gpu'])
            if not os.path.isdir(out):
                fail('there is no directory {}', out)
            # the output of the run is logged (the log is written by another process)
            want = ['stderr of call %d' % i, 'stdout of call %d' % i]
            for _ in range(200):
                log = open(os.path.join(out, 'runlog.log')).read() if os.path.exists(os.path.join(out, 'runlog.log')) else ''
                if sorted(log.split('\n')[:-1]) == want:
                    break
                time.sleep(0.02)
            else:
                fail('the log of experiment {} contains {!r}', i, log)
            if rnd['finish'][i].endswith('.pt'):
                done.add(out)
    return ['skipped' if skipped else 'all', 'rounds%d' % len(c['rounds'])]


QUICK_SCALE = 3

SUBS = [
    Sub('sweeps', sweep_case(), sweeps, 600, 10000, 'sequences of sweeps; non-trivial: more than one combination', shards=2),
    Sub('merge', merge_case(), merge, 500, 8000, 'random templates and parameters (flags, zero, one, none, numbers, texts); non-trivial: both are there', shards=1),
    Sub('runs', run_case(), runs, 240, 2500, 'sweeps which are started several times, with a recording interpreter which finishes some of the experiments; every case counts', shards=4),
]
