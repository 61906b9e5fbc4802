"""Mutation testing of the checks: systematically changes one expression or statement of the code and looks which
changes no check notices.  Survivors are either equivalent or show a gap.

   mutate.py cover                      records which lines each check executes      -> /tmp/mut/cover.json
   mutate.py list FILE...               number of mutants
   mutate.py run [-j N] [-s SCALE] [-n MAX] [-r SEED] FILE...   -> /tmp/mut/results.jsonl (appends; done ones are skipped)
   mutate.py again [-j N]               survivors with full scale
"""
import ast
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter("ignore")
OUT = '/tmp/mut'
REPO = '/repo'
VERIF = '/verif'
CHECKS = ['C%02d' % i for i in range(1, 32)]
SITE = '''
import os, sys
_d = os.environ.get('MUT_COVER')
if _d:
    _r = os.environ['VERIF_REPO'] + '/'
    m = sys.monitoring
    m.use_tool_id(5, 'mutcov')
    def _line(code, line):
        if code.co_filename.startswith(_r):
            with open(os.path.join(_d, str(os.getpid())), 'a') as f:
                f.write('%s:%d\\n' % (code.co_filename[len(_r):], line))
        return m.DISABLE
    m.register_callback(5, m.events.LINE, _line)
    m.set_events(5, m.events.LINE)
'''


def copy_verif():
    v = OUT + '/verif'
    shutil.rmtree(v, ignore_errors=True)
    shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', '__pycache__'))
    return v


def copy_repo(d):
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__', '*.ipynb', '*.gif', 'docs', '*.png', '*.pdf'))


def cover():
    os.makedirs(OUT, exist_ok=True)
    v = copy_verif()
    r = OUT + '/cov_repo'
    shutil.rmtree(r, ignore_errors=True)
    copy_repo(r)
    with open(r + '/sitecustomize.py', 'w') as f:
        f.write(SITE)
    res = {}
    for c in CHECKS:
        d = tempfile.mkdtemp(dir=OUT)
        subprocess.run(['bash', v + '/check.sh', c, 'quick'], env=dict(os.environ, VERIF_REPO=r, MUT_COVER=d, VERIF_SCALE='0.5'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        lines = set()
        for f in os.listdir(d):
            lines.update(open(os.path.join(d, f)).read().split())
        shutil.rmtree(d)
        res[c] = sorted(lines)
        print(c, len(lines), flush=True)
    json.dump(res, open(OUT + '/cover.json', 'w'))


CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: None}
STRIP = ('detach', 'clone', 'contiguous', 'copy', 'squeeze', 'unsqueeze', 'lower', 'to', 'deepcopy', 'eval', 'abs', 'sum', 'mean', 't', 'transpose', 'item', 'strip')


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    off = lambda ln, col: starts[ln - 1] + col
    out = []

    def add(node, new, kind):
        a, b = off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)
        old = raw[a:b].decode()
        if old != new:
            out.append(dict(file=path, line=node.lineno, a=a, b=b, old=old, new=new, kind=kind))

    def text(n):
        return raw[off(n.lineno, n.col_offset):off(n.end_lineno, n.end_col_offset)].decode()

    def uninteresting(n):
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, ast.Expr):
            v = n.value
            if isinstance(v, ast.Constant):
                return True
            if isinstance(v, ast.Call):
                f = v.func
                if isinstance(f, ast.Name) and f.id == 'print':
                    return True
                if isinstance(f, ast.Attribute) and f.attr in ('warn', 'add_argument', 'warning', 'info'):
                    return True
        return False

    def visit(n):
        if uninteresting(n):
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, '(' + ast.unparse(ast.Compare(n.left, [o()], n.comparators)) + ')', 'cmp')
        if isinstance(n, ast.BinOp):
            o = BIN.get(type(n.op))
            if o is not None and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(n, '(' + ast.unparse(ast.BinOp(n.left, o(), n.right)) + ')', 'bin')
            if isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
                add(n, '(' + text(n.left) + ')', 'left')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, '(' + text(n.operand) + ')', 'unary')
        if isinstance(n, ast.BoolOp):
            o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, '(' + ast.unparse(ast.BoolOp(o, n.values)) + ')', 'bool')
            for k in range(len(n.values)):
                r = n.values[:k] + n.values[k + 1:]
                add(n, '(' + ast.unparse(r[0] if len(r) == 1 else ast.BoolOp(n.op, r)) + ')', 'dropcond')
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), 'const')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                add(n.test, 'True', 'cond')
            add(n.test, 'False', 'cond')
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    m = ast.Call(n.func, n.args, n.keywords[:k] + n.keywords[k + 1:])
                    add(n, ast.unparse(m), 'dropkw')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                m = ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords)
                add(n, ast.unparse(m), 'swap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in STRIP and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('torch', 'np', 'copy')):
                add(n, '(' + text(n.func.value) + ')', 'strip')
        if isinstance(n, ast.stmt) and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'delete')
        if isinstance(n, ast.For):
            add(n.iter, 'list(' + text(n.iter) + ')[1:]', 'iter')
            add(n.iter, 'list(' + text(n.iter) + ')[:-1]', 'iter')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            s = n.slice
            if s.lower is not None:
                add(n, ast.unparse(ast.Subscript(n.value, ast.Slice(None, s.upper, s.step), n.ctx)), 'slice')
            if s.upper is not None:
                add(n, ast.unparse(ast.Subscript(n.value, ast.Slice(s.lower, None, s.step), n.ctx)), 'slice')
        for ch in ast.iter_child_nodes(n):
            visit(ch)

    visit(tree)
    seen, ret = set(), []
    for m in out:
        t = (raw[:m['a']] + m['new'].encode() + raw[m['b']:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        k = hashlib.sha1(t.encode()).hexdigest()[:12]
        if k in seen:
            continue
        seen.add(k)
        m['id'] = k
        m['end'] = src[:0] or raw[:m['b']].decode().count('\n') + 1
        ret.append(m)
    return ret


_cover = {}


def covering(m):
    if not _cover:
        for c, ls in json.load(open(OUT + '/cover.json')).items():
            _cover[c] = set(ls)
    ls = ['{}:{}'.format(m['file'], k) for k in range(m['line'], m['end'] + 1)]
    return [c for c in CHECKS if any(l in _cover[c] for l in ls)]


COST = {}


def run_one(m, v, scale, timeout, order):
    d = tempfile.mkdtemp(prefix='m_', dir=OUT)
    try:
        r = d + '/repo'
        copy_repo(r)
        p = os.path.join(r, m['file'])
        raw = open(p, 'rb').read()
        with open(p, 'wb') as f:
            f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
        h = d + '/verif'
        os.makedirs(h)
        for x in ('lib', 'checks', 'check.sh', 'KNOWN_FINDINGS.txt'):
            os.symlink(os.path.join(v, x), os.path.join(h, x))
        m = dict(m, killed=None, tried=[])
        for c in order:
            try:
                q = subprocess.run(['timeout', '-k', '5', str(timeout), 'bash', h + '/check.sh', c, 'quick'], env=dict(os.environ, VERIF_REPO=r, VERIF_SCALE=str(scale), VERIF_FAST='1', VERIF_JOBS='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
            except subprocess.TimeoutExpired:
                m['tried'].append(c + ':timeout')
                continue
            m['tried'].append('{}:{}'.format(c, q.returncode))
            if q.returncode == 1:
                m['killed'] = c
                m['msg'] = q.stdout.decode(errors='replace')[:200]
                break
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


# checks which should notice changes of a file, with full scale
MAIN = {'activation': 'C09', 'command_line': 'C20 C21', 'custom_lr': 'C19', 'data_loaders': 'C29', 'experiment_utils': 'C20 C21', 'generic_integrator': 'C05 C06 C07', 'overwrite': 'C10 C24 C28', 'parameter_init': 'C22 C14',
        'res_net': 'C16', 'shooting_hooks': 'C17 C18', 'state_costate': 'C08 C13', 'striding': 'C15', 'tensorboard': 'C17', 'neuro_shooting/utils': 'C25 C10', 'validation': 'C18', 'vector_vis': 'C27', 'figure': 'C27',
        'shooting_blocks': 'C05 C13 C14 C23 C11', 'shooting_integrands': 'C12 C17 C13 C23 C01', 'shooting_models': 'C01 C02 C23 C22', 'demos': 'C29 C30 C31'}
# cheap and general ones first
FIRST = ['C11', 'C05', 'C13', 'C01', 'C03', 'C10', 'C09', 'C22', 'C08', 'C12', 'C19', 'C18', 'C20', 'C21', 'C25']


def main():
    args = sys.argv[2:]
    opt = {'-j': '8', '-s': '0.15', '-n': '0', '-r': '0', '-t': '300'}
    files = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            files.append(a)
    if sys.argv[1] == 'cover':
        return cover()
    if sys.argv[1] == 'list':
        for f in files:
            ms = mutants(f)
            un = [m for m in ms if not covering(m)]
            print(f, len(ms), 'not covered', len(un), sorted({m['line'] for m in un}))
        return
    covering(dict(file='', line=1, end=1))
    v = copy_verif()
    res = OUT + '/results.jsonl'
    done = {}
    if os.path.exists(res):
        for l in open(res):
            x = json.loads(l)
            done[x['id']] = x
    if sys.argv[1] == 'run':
        ms = [m for f in files for m in mutants(f) if m['id'] not in done]
        random.Random(int(opt['-r'])).shuffle(ms)
        if int(opt['-n']):
            ms = ms[:int(opt['-n'])]
    else:
        ms = [x for x in done.values() if not x['killed'] and x['scale'] < 1 and (not files or x['file'] in files)]
    scale = float(opt['-s']) if sys.argv[1] == 'run' else 1.0

    def work(m):
        cs = covering(m)
        cs = [c for c in FIRST if c in cs] + [c for c in cs if c not in FIRST]
        if 'demos' not in m['file']:
            cs = [c for c in cs if c not in ('C31', 'C29')] + [c for c in cs if c in ('C29',)]
        if sys.argv[1] == 'again':
            cs = [v for k, v in MAIN.items() if k in m['file']][0].split()
        x = run_one(m, v, scale, int(opt['-t']), cs)
        x['scale'] = scale
        with open(res, 'a') as f:
            f.write(json.dumps(x) + '\n')
        print('{:5} {}:{} [{}] {!r} -> {!r}'.format(x['killed'] or 'LIVE', x['file'], x['line'], x['kind'], x['old'][:80], x['new'][:80]), flush=True)
        return x
    with ThreadPoolExecutor(int(opt['-j'])) as ex:
        xs = list(ex.map(work, ms))
    print('killed {} of {}'.format(sum(bool(x['killed']) for x in xs), len(xs)))


main()
