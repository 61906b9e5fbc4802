"""Creates and verifies planted changes.  usage: tools/plant.py [-j N] [--no-check] [--redo] [ID-prefix ...]

tools/plants/*.py define PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
For each of them, in a scratch copy of /repo: the patch is created, must touch only original lines, has to keep the tests
passing, its demonstration has to pass without and fail with it; then the check of its property is run against the copy.
Writes seeded/<id>/ and tools/plants/RESULTS.json (which check caught what)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
BASE = '7c992b4'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg')
RES = os.path.join(HERE, 'plants', 'RESULTS.json')

DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; run with the repository as current directory
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
S="$(mktemp -d)"
cd "$S" || exit 2
PYTHONPATH="$R" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 /opt/venv/bin/python -W ignore "$D/demo.py"
rc=$?
cd / && rm -rf "$S"
exit $rc
'''


def load():
    ret = []
    for f in sorted(glob.glob(os.path.join(HERE, 'plants', 'p*.py'))):
        spec = importlib.util.spec_from_file_location('plants', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        ret += m.PLANTS
    ids = [p['id'] for p in ret]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return ret


def sh(cmd, cwd=None, timeout=900, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env or ENV)
    return r.returncode, r.stdout


def tests(copy, work):
    src = open('/opt/vp/run_tests.py').read().replace('"/repo/tests"', repr(os.path.join(copy, 'tests'))).replace('"/opt/vp/work"', repr(work))
    s = os.path.join(work, 'rt.py')
    open(s, 'w').write(src)
    rc, out = sh([PY, s], cwd=work, env=dict(ENV, PYTHONPATH=copy))
    return set(re.findall(r'^PASS (.*)$', out, re.M)), out


def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'passing', 'stable', 'tests'):
        if k in b and isinstance(b[k], list):
            return set(b[k])
    raise SystemExit('baseline format: %s' % list(b))


def one(p, check=True):
    top = tempfile.mkdtemp(prefix='plant_')
    try:
        copy, work = os.path.join(top, 'repo'), os.path.join(top, 'work')
        os.makedirs(work)
        sh(['cp', '-a', '/repo', copy])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=copy)
        D = os.path.join(top, 'demo')
        os.makedirs(D)
        open(os.path.join(D, 'demo.py'), 'w').write(p['demo'].lstrip('\n'))
        open(os.path.join(D, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(D, 'demo.sh'), 0o755)
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(os.path.join(D, 'meta.json'), 'w'), indent=1)
        rc, out = sh(['bash', os.path.join(D, 'demo.sh')], cwd=copy, timeout=300)
        if rc != 0:
            return dict(ok=False, why='demo fails on the clean tree', out=out[-1500:])
        for f, old, new in p['edits']:
            fn = os.path.join(copy, f)
            s = open(fn).read()
            if s.count(old) != 1:
                return dict(ok=False, why='%d matches in %s for %r' % (s.count(old), f, old[:80]))
            open(fn, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff', '-U3'], cwd=copy)
        # only original lines
        n_del = 0
        for f in set(e[0] for e in p['edits']):
            _, d0 = sh(['git', 'diff', '-U0', '--', f], cwd=copy)
            _, bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], cwd=copy)
            _, anc = sh(['git', 'rev-list', BASE], cwd=copy)
            anc = set(x[:39] for x in anc.split())
            bl = [l.split()[0].lstrip('^')[:39] for l in bl.splitlines()]
            for a, b in re.findall(r'^@@ -(\d+)(?:,(\d+))? ', d0, re.M):
                for i in range(int(a), int(a) + (int(b) if b else 1)):
                    n_del += 1
                    if bl[i - 1] not in anc:
                        return dict(ok=False, why='changes line %d of %s, which was added by a fix' % (i, f))
        if n_del == 0:
            return dict(ok=False, why='changes no original line')
        open(os.path.join(D, 'patch.diff'), 'w').write(diff)
        rc, out = sh(['bash', os.path.join(D, 'demo.sh')], cwd=copy, timeout=300)
        if rc == 0:
            return dict(ok=False, why='demo passes with the change', out=out[-1500:])
        demo_out = out[-300:]
        ok, out = tests(copy, work)
        missing = sorted(baseline() - ok)
        if missing:
            return dict(ok=False, why='tests fail: %s' % missing[:4], out=demo_out)
        T = os.path.join(V, 'seeded', p['id'])
        shutil.rmtree(T, ignore_errors=True)
        shutil.copytree(D, T)
        ret = dict(ok=True, property=p['property'], demo=demo_out)
        if check:
            c = os.path.join(top, 'verif')
            sh(['git', 'clone', '-q', V, c])
            for x in ('lib', 'checks', 'check.sh', 'tools', 'KNOWN_FINDINGS.txt', 'MANIFEST.json', 'properties.jsonl'):
                sh(['cp', '-a', '-T', os.path.join(V, x), os.path.join(c, x)])
            rc, out = sh(['bash', os.path.join(c, 'check.sh'), p['property'], 'quick'], cwd=c, env=dict(ENV, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick'))
            ret['caught'] = rc == 1 and 'VIOLATION property=%s' % p['property'] in out
            ret['rc'] = rc
            ret['check'] = out[-700:]
        return ret
    except subprocess.TimeoutExpired as e:
        return dict(ok=False, why='timeout %s' % e)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs = 3
    if '-j' in args:
        i = args.index('-j')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    flags = [a for a in args if a.startswith('--')]
    sel = [a for a in args if not a.startswith('--')]
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    todo = [p for p in load() if (not sel and ('--redo' in flags or not res.get(p['id'], {}).get('ok'))) or any(p['id'].startswith(s) for s in sel)]
    with ThreadPoolExecutor(jobs) as ex:
        for p, r in zip(todo, ex.map(lambda p: one(p, '--no-check' not in flags), todo)):
            print('%-34s %s' % (p['id'], ('CAUGHT' if r.get('caught') else 'MISSED rc=%s' % r.get('rc')) if r['ok'] else 'INVALID: ' + r['why']))
            if not r['ok'] or not r.get('caught'):
                print('    ' + (r.get('out') or r.get('check') or r.get('demo') or '').replace('\n', '\n    '))
            sys.stdout.flush()
            res[p['id']] = {k: r.get(k) for k in ('ok', 'property', 'caught', 'why')}
            if r.get('check'):
                m = re.search(r'sub=(\S+)|\[(\w+)\].*VIOLATION|VIOLATION.*replay=\S*/(\S+)', r['check'])
                res[p['id']]['by'] = m.group(0)[:120] if m else None
            json.dump(res, open(RES, 'w'), indent=1, sort_keys=True)


main()
