"""Execution of scripts from Python: arguments, flags, devices, logs, configuration strings, command line parsing."""
import contextlib
import io
import os
import shutil
import string
import sys
import tempfile
import time
from collections import OrderedDict
from pbt import Sub, st, fail
import ns
import neuro_shooting.command_line_execution_tools as ce
import neuro_shooting.experiment_utils as eu

RECORDER = """#!/bin/bash
D={d}
: > $D/call
for a in "$@"; do printf '%s\\0' "$a" >> $D/call; done
printf '%s' "$CUDA_VISIBLE_DEVICES" > $D/env
printf '%s' "$FOO" > $D/foo
pwd > $D/cwd
echo "stdout {name}"
echo "stderr {name}" >&2
echo {name} > $D/who
exit {rc}
"""

WORD = st.text(alphabet=string.ascii_letters + string.digits + '_-.=/:,+', min_size=1, max_size=8).filter(lambda s: not s.startswith('-') and not s.startswith('='))
ANY = st.text(alphabet=string.ascii_letters + ' ;$"\'*&|<>()#!\\~`{}[]?', min_size=0, max_size=8)


class Scratch(object):
    def __init__(self, rc=0):
        self.d = tempfile.mkdtemp(prefix='cmd_', dir=os.environ.get('VERIF_SCRATCH'))
        os.mkdir(os.path.join(self.d, 'bin'))
        for n, p in [('given', os.path.join(self.d, 'given')), ('path', os.path.join(self.d, 'bin', 'python'))]:
            with open(p, 'w') as f:
                f.write(RECORDER.format(d=self.d, name=n, rc=rc))
            os.chmod(p, 0o755)
        self.given = os.path.join(self.d, 'given')
        self.old = dict(os.environ)

    def __enter__(self):
        os.environ['PATH'] = os.path.join(self.d, 'bin') + ':' + os.environ['PATH']
        os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        os.environ.pop('FOO', None)
        return self

    def __exit__(self, *a):
        os.environ.clear()
        os.environ.update(self.old)
        shutil.rmtree(self.d, ignore_errors=True)

    def read(self, n):
        p = os.path.join(self.d, n)
        if not os.path.exists(p):
            fail('nothing was executed')
        return open(p).read()

    def call(self):
        return self.read('call').split('\0')[:-1]

    def check_log(self, log, who):
        want = ['stderr ' + who, 'stdout ' + who]
        cur = None
        for _ in range(250):
            if os.path.exists(log):
                cur = open(log).read()
                if sorted(cur.split('\n')[:-1]) == want:
                    return
            time.sleep(0.02)
        fail('the log contains {!r}', cur)


@st.composite
def run_case(draw):
    keys = draw(st.lists(st.sampled_from(['lr', 'niters', 'viz', 'seed', 'a', 'output_directory', 'nr_of_particles']), max_size=5, unique=True))
    return dict(args=[[k, draw(st.one_of(st.none(), st.integers(-5, 1000), st.sampled_from([0.1, 1e-5, 2.0, True, False, 0]), WORD))] for k in keys],
                gpu=draw(st.sampled_from([None, 0, 1, 7, 'default'])), log=draw(st.booleans()), script=draw(st.sampled_from(['script.py', 'a/b.py'])), rc=draw(st.sampled_from([0, 0, 1])))


def run_args(c):
    """a dictionary of arguments is passed on as --key value, or as --key for None"""
    with Scratch(c['rc']) as s:
        args = OrderedDict((k, v) for k, v in c['args'])
        log = os.path.join(s.d, 'log.txt') if c['log'] else None
        kw = {} if c['gpu'] == 'default' else dict(cuda_visible_devices=c['gpu'])
        if c['log'] or len(c['args']) % 2:
            kw['log_file'] = log
        ce.run_command_with_args(python_script=c['script'], run_args=args, path_to_python=s.given, **kw)
        exp = [c['script']]
        for k, v in c['args']:
            exp.append('--' + k)
            if v is not None:
                exp.append(str(v))
        if s.call() != exp:
            fail('called with {} instead of {}', s.call(), exp)
        if s.read('who').strip() != 'given':
            fail('not called with the given python')
        dev = '0' if c['gpu'] == 'default' else ('' if c['gpu'] is None else str(c['gpu']))
        if s.read('env') != dev:
            fail('visible devices {} instead of {}', s.read('env'), dev)
        if c['log']:
            s.check_log(log, 'given')
        if args != OrderedDict((k, v) for k, v in c['args']):
            fail('the arguments were changed')
        return ['log' if c['log'] else 'nolog'] if c['args'] else None


@st.composite
def bash_case(draw):
    return dict(args=draw(st.lists(WORD, max_size=5)), pre=draw(st.sampled_from([None, 'export FOO=bar', 'cd sub', 'true'])), gpu=draw(st.sampled_from([None, 0, 3])), log=draw(st.booleans()))


def via_bash(c):
    """optional preparation, optional device, optional log; in all combinations"""
    with Scratch() as s:
        os.mkdir(os.path.join(s.d, 'sub'))
        old = os.getcwd()
        os.chdir(s.d)
        try:
            pre = ce.get_bash_precommand(cuda_visible_devices=c['gpu'], pre_command=c['pre'])
            log = os.path.join(s.d, 'log.txt') if c['log'] else None
            if c['gpu'] is None and c['pre'] is None and len(c['args']) % 2:
                pre = None
            ce.execute_python_script_via_bash('script.py', list(c['args']), pre_command=pre, log_file=log)
        finally:
            os.chdir(old)
        if s.call() != ['script.py'] + c['args']:
            fail('called with {} instead of {}', s.call(), ['script.py'] + c['args'])
        if s.read('env') != ('' if c['gpu'] is None else str(c['gpu'])):
            fail('visible devices {} instead of {}', s.read('env'), c['gpu'])
        if s.read('foo') != ('bar' if c['pre'] == 'export FOO=bar' else ''):
            fail('preparation was not done')
        where = os.path.join(s.d, 'sub') if c['pre'] == 'cd sub' else s.d
        if os.path.realpath(s.read('cwd').strip()) != os.path.realpath(where):
            fail('executed in {}', s.read('cwd'))
        if c['log']:
            s.check_log(log, 'path')
        elif os.path.exists(os.path.join(s.d, 'log.txt')):
            fail('a log was written')
    return [str(c['pre']), 'gpu' if c['gpu'] is not None else 'nogpu', 'log' if c['log'] else 'nolog']


@st.composite
def exec_case(draw):
    return dict(args=draw(st.lists(st.one_of(WORD, ANY), max_size=5)), verbose=draw(st.booleans()))


def execute(c):
    """commands which are executed directly get exactly the given arguments, whatever characters they contain"""
    with Scratch() as s:
        args = list(c['args'])
        ce.execute_command(s.given, args, verbose=c['verbose'])
        if s.call() != c['args']:
            fail('called with {} instead of {}', s.call(), c['args'])
        if args != c['args']:
            fail('the arguments were changed')
    joined = ce.get_string_argument_from_list(list(c['args']))
    if joined.rstrip(' ') != ' '.join(c['args']).rstrip(' '):
        fail('arguments {!r} instead of {!r}', joined, ' '.join(c['args']))
    return True if c['args'] else None


LINE = st.text(alphabet=string.ascii_letters + string.digits + ' #:.äß', min_size=0, max_size=8)


@st.composite
def called_case(draw):
    return dict(words=draw(st.lists(WORD, min_size=1, max_size=4)), lines=draw(st.lists(LINE, max_size=6)))


def called(c):
    """scripts called for their output: all of it is shown apart from comment lines"""
    with Scratch() as s:
        with open(os.path.join(s.d, 'text'), 'w', encoding='utf-8') as f:
            f.write(''.join(l + '\n' for l in c['lines']))
        with open(os.path.join(s.d, 'bin', 'python'), 'w') as f:
            f.write('#!/bin/bash\n: > {d}/call\nfor a in "$@"; do printf \'%s\\0\' "$a" >> {d}/call; done\ncat {d}/text\n'.format(d=s.d))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ce.call_python_script(' '.join(c['words']))
        if s.call() != c['words']:
            fail('called with {} instead of {}', s.call(), c['words'])
    got = [l for l in buf.getvalue().split('\n') if l.strip()]
    exp = [l for l in c['lines'] if l.strip() and not l.startswith('#')]
    if got != exp:
        fail('shows {} instead of {}', got, exp)
    return True if exp and len(exp) < len(c['lines']) else None


KEY = st.text(alphabet=string.ascii_letters + '_', min_size=1, max_size=5)


@st.composite
def conf_case(draw):
    return dict(kvs=[list(x) for x in draw(st.lists(st.tuples(KEY, st.one_of(st.integers(-3, 30), WORD, st.booleans(), st.none())), max_size=4, unique_by=lambda x: x[0]))],
                parts=draw(st.lists(st.one_of(st.none(), st.lists(WORD, min_size=1, max_size=3), st.lists(st.one_of(WORD, st.just('')), min_size=2, max_size=4).filter(lambda p: p[0])), min_size=1, max_size=4)), start=draw(st.sampled_from([None, '', 'kvs'])),
                shell=draw(st.sampled_from([False, False, True])))


def config(c):
    """key/value strings: what arrives after the shell is k=v;k=v; ...; parts are appended in order"""
    kvs = OrderedDict((k, v) for k, v in c['kvs'])
    s = ce.create_kv_string(kvs)
    plain = ';'.join('{}={}'.format(k, v) for k, v in c['kvs'])
    if s != plain.replace(';', '\\;'):
        fail('{!r} instead of {!r}', s, plain.replace(';', '\\;'))
    cs = s if c['start'] == 'kvs' else c['start']
    exp = plain if c['start'] == 'kvs' else ''
    for p in c['parts']:
        if p is None:
            if not cs:
                continue
            new = ce.add_to_config_string(cs, None)
        else:
            new = ce.add_to_config_string(cs, ';'.join(p))
            exp = ';'.join(([exp] if exp else []) + p)
        cs = new
        if (cs or '') != exp.replace(';', '\\;'):
            fail('configuration {!r} instead of {!r}', cs, exp.replace(';', '\\;'))
    if c['shell'] and exp:
        with Scratch() as sc:
            ce.execute_python_script_via_bash('script.py', ['--config', cs])
            if sc.call() != ['script.py', '--config', exp]:
                fail('configuration arrives as {}', sc.call())
    return True if exp else None


NAME = st.text(alphabet='ab01._- ', min_size=1, max_size=4)


@st.composite
def name_case(draw):
    return dict(d=draw(st.sampled_from(['out', '/tmp/x', 'a/b/', ''])), stage=draw(st.integers(0, 12)), stage2=draw(st.integers(0, 12)), name=draw(st.one_of(st.none(), KEY, NAME)), name2=draw(st.one_of(st.none(), KEY, NAME)))


def log_names(c):
    def expected(stage, name):
        return os.path.join(c['d'], 'log_stage_{}'.format(stage) + ('' if name is None else '_' + name) + '.txt')
    a = ce.get_stage_log_filename(c['d'], c['stage'], c['name'])
    b = ce.get_stage_log_filename(c['d'], c['stage2'], process_name=c['name2'])
    if a != expected(c['stage'], c['name']) or b != expected(c['stage2'], c['name2']):
        fail('log files {} and {}', a, b)
    if (a == b) != ((c['stage'], c['name']) == (c['stage2'], c['name2'])):
        fail('log files {} and {}', a, b)
    return True


FLAGS = dict(simple_functional_mapping=['force_recompute'], spiral=['force_recompute'], simple_functional_weighting=['force_recompute', 'sweep_updown', 'sweep_updown_universal'])
MODELS = ['updown_universal', 'universal', 'periodic', 'dampened_updown', 'simple', '2nd_order', 'updown', 'general_updown']


@st.composite
def parse_case(draw):
    t = draw(st.sampled_from(list(FLAGS) + ['other']))
    opts = ['gpu', 'path_to_python', 'nr_of_seeds', 'starting_seed_id', 'output_base_directory']
    if t in ['simple_functional_mapping', 'simple_functional_weighting']:
        opts.append('fcn')
    if t in ['simple_functional_mapping', 'spiral']:
        opts.append('shooting_model')
    chosen = draw(st.lists(st.sampled_from(opts), unique=True, max_size=4))
    vals = {}
    for o in chosen:
        if o in ['gpu', 'nr_of_seeds', 'starting_seed_id']:
            vals[o] = draw(st.integers(0, 20))
        elif o == 'fcn':
            vals[o] = draw(st.sampled_from(['cubic', 'quadratic', 'linear']))
        elif o == 'shooting_model':
            vals[o] = draw(st.sampled_from(MODELS + ['unknown']))
        else:
            vals[o] = draw(WORD)
    return dict(type=t, vals=vals, flags=draw(st.lists(st.sampled_from(FLAGS.get(t, ['force_recompute'])), unique=True)), title=draw(st.sampled_from([None, 'title'])), bad=draw(st.integers(0, 9)) == 0)


def parsing(c):
    argv = ['prog']
    for k, v in c['vals'].items():
        argv += ['--' + k, str(v)]
    for f in c['flags']:
        argv.append('--' + f)
    if c['bad']:
        argv += ['--no_such_option', '3']
    wrong = c['bad'] or c['vals'].get('fcn') == 'linear' or c['vals'].get('shooting_model') == 'unknown'
    old, sys.argv = sys.argv, argv
    try:
        try:
            a = eu.setup_cmdline_parsing(cmdline_type=c['type'], cmdline_title=c['title'])
        except ValueError:
            if c['type'] != 'other':
                raise
            return ['unsupported']
        except SystemExit:
            if not wrong:
                fail('arguments {} are rejected', argv)
            return ['rejected']
    finally:
        sys.argv = old
    if c['type'] == 'other' or wrong:
        fail('arguments {} of type {} are accepted', argv, c['type'])
    exp = dict(gpu=0, nr_of_seeds=1, starting_seed_id=0, output_base_directory='sfm_results')
    for f in FLAGS[c['type']]:
        exp[f] = False
    if c['type'] != 'spiral':
        exp['fcn'] = 'cubic'
    if c['type'] != 'simple_functional_weighting':
        exp['shooting_model'] = 'updown_universal'
    exp.update(c['vals'])
    for f in c['flags']:
        exp[f] = True
    got = vars(a)
    for k in exp:
        if k not in got or got[k] != exp[k] or type(got[k]) is not type(exp[k]):
            fail('{} is {!r} instead of {!r}', k, got.get(k), exp[k])
    if set(got) - set(exp) - set(['path_to_python']):
        fail('unexpected settings {}', set(got) - set(exp))
    return ['parsed']


QUICK_SCALE = 3

SUBS = [
    Sub('run_args', run_case(), run_args, 150, 2000, 'random arguments, devices and logs, executed with a recording interpreter; non-trivial: there are arguments', shards=3),
    Sub('via_bash', bash_case(), via_bash, 120, 2000, 'random arguments, preparations, devices and logs; every case counts', shards=3),
    Sub('execute', exec_case(), execute, 200, 3000, 'random arguments with special characters; non-trivial: there are arguments', shards=2),
    Sub('called', called_case(), called, 100, 1500, 'random arguments and outputs; non-trivial: comments and other lines'),
    Sub('config', conf_case(), config, 400, 6000, 'random keys, values and parts; non-trivial: the result is not empty', shards=2),
    Sub('log_names', name_case(), log_names, 400, 4000, 'pairs of stages and names; every case counts'),
    Sub('parsing', parse_case(), parsing, 150, 2000, 'random command lines; every case counts', shards=2),
]
