import importlib
import json
import multiprocessing as mp
import os
import queue as queue_module
import sys
import time
import traceback

HOME = os.environ.get('VERIF_HOME', '/verif')
sys.path.insert(0, os.path.join(HOME, 'lib'))
sys.path.insert(0, os.path.join(HOME, 'checks'))

import pbt


def known_findings(prop):
    """Lines of /verif/KNOWN_FINDINGS.txt:
         known: property=<id> sub=<sub-check> match=<text in the failure message> -- <what fails>
         fixed: property=<id> <commit> <what failed>             (suppresses nothing)
    """
    ret = []
    fn = os.path.join(HOME, 'KNOWN_FINDINGS.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known:'):
                head, what = line[len('known:'):].split(' -- ', 1)
                head, match = head.split(' match=', 1)
                d = dict(x.split('=', 1) for x in head.split())
                if d['property'] == prop:
                    ret.append(dict(sub=d['sub'], match=match.strip(), what=what))
    return ret


HANG_SECONDS = 240.0


def progress_file(sub, shard):
    return os.path.join(os.environ['VERIF_SCRATCH'], 'progress_{}_{}.json'.format(sub, shard))


def hanging_case(sub, shard):
    """the case a worker has been working on for too long (cases take about a second at most), otherwise None"""
    fn = progress_file(sub, shard)
    try:
        if time.time() - os.path.getmtime(fn) > HANG_SECONDS:
            return json.load(open(fn))
    except (OSError, ValueError):
        pass
    return None


def _worker(module_name, sub_name, shard, n, seed, soft_deadline, q):
    # output of processes which the code under test starts
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        import torch
        torch.set_num_threads(1)
        mod = importlib.import_module(module_name)
        sub = [s for s in mod.SUBS if s.name == sub_name][0]
        scratch = os.path.join(os.environ['VERIF_SCRATCH'], 'w_{}_{}'.format(sub_name, shard))
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        res = pbt.run_shard(sub, shard, n, seed, soft_deadline, progress_file=progress_file(sub_name, shard))
        q.put(res)
    except BaseException:
        q.put(dict(sub=sub_name, shard=shard, error=traceback.format_exc()))


def main():
    if sys.argv[1] == '--selftest':
        import ns
        print('ok: {} models, hypothesis {}'.format(len(ns.MODELS), pbt.hypothesis.__version__))
        return 0
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    only = os.environ.get('VERIF_SUB')  # debugging aid: only run these sub-checks
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '6000'))
    soft_deadline = t0 + budget

    import torch  # before forking
    torch.set_num_threads(1)
    try:
        mod = importlib.import_module(prop)
    except ModuleNotFoundError as e:
        if e.name == prop:
            raise
        return report_import_failure(prop, tier, seed, t0)
    except Exception:
        return report_import_failure(prop, tier, seed, t0)

    # cheap checks explore more (times are only a few seconds otherwise)
    more = float(getattr(mod, 'QUICK_SCALE', 1)) if tier == 'quick' else 1.0
    tasks = []
    for sub in mod.SUBS:
        if only and sub.name not in only.split(','):
            continue
        total = max(1, int((sub.quick if tier == 'quick' else sub.thorough) * scale * more))
        shards = int(min(8, sub.shards * max(1.0, more))) if tier == 'quick' else max(sub.shards, 4)
        shards = max(1, min(shards, total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            tasks.append((sub.name, i, n))

    ctx = mp.get_context('fork')
    q = ctx.Queue()
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    running = {}
    pending = list(tasks)
    results = []
    errors = []
    hard_deadline = soft_deadline + 120
    while pending or running:
        while pending and len(running) < nproc:
            s, i, n = pending.pop(0)
            p = ctx.Process(target=_worker, args=(prop, s, i, n, seed, soft_deadline, q))
            p.start()
            running[(s, i)] = p
        try:
            r = q.get(timeout=1.0)
            key = (r['sub'], r['shard'])
            p = running.pop(key, None)
            if p is not None:
                p.join(timeout=20)
            if 'error' in r:
                errors.append(r)
            else:
                results.append(r)
                if r['failure'] is not None and os.environ.get('VERIF_FAST') and not any(f['sub'] == r['sub'] for f in known_findings(prop)):
                    pending = []     # debugging aid: the first failure is enough
                    break
            continue
        except queue_module.Empty:
            pass
        for key, p in list(running.items()):
            if not p.is_alive():
                # give a last chance to the queue
                try:
                    r = q.get(timeout=2.0)
                    k2 = (r['sub'], r['shard'])
                    running.pop(k2, None)
                    (errors if 'error' in r else results).append(r)
                    continue
                except queue_module.Empty:
                    pass
                if key in running:
                    running.pop(key)
                    errors.append(dict(sub=key[0], shard=key[1], error='worker died with exit code {}'.format(p.exitcode)))
        for key, p in list(running.items()):
            case = hanging_case(*key)
            if case is not None and p.is_alive():
                p.terminate()
                running.pop(key)
                results.append(dict(sub=key[0], shard=key[1], evaluations=0, nontrivial=[], skipped=0, skip_reasons=[],
                                    samples=[], timed_out=True, labels={},
                                    failure=dict(case=case, message='no result after {} seconds'.format(HANG_SECONDS), traceback='')))
        if time.time() > hard_deadline:
            for key, p in running.items():
                p.terminate()
                results.append(dict(sub=key[0], shard=key[1], evaluations=0, nontrivial=[], skipped=0, skip_reasons=[],
                                    samples=[], failure=None, timed_out=True, labels={}))
            running = {}
            pending = []

    for key, p in running.items():
        p.terminate()
    return finish(prop, mod, tier, seed, t0, results, errors)


def write_evidence(prop, tier, seed, t0, coverage, violations, assumptions=None):
    d = os.path.join(HOME, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=coverage,
              wall_s=round(time.time() - t0, 2), violations=violations)
    if assumptions:
        ev['assumptions'] = assumptions
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


def report_import_failure(prop, tier, seed, t0):
    tb = traceback.format_exc()
    repo = os.environ.get('VERIF_REPO', '/repo')
    if (repo + '/') not in tb:
        sys.stderr.write(tb)
        return 3
    # the code under test can no longer be imported
    path = write_replay(prop, 'import', dict(), 'the code under test cannot be imported', tb)
    write_evidence(prop, tier, seed, t0, dict(evaluations=1, distinct_nontrivial=0, rule='importing the code', samples=[tb[-800:]]), 1)
    print(tb)
    print('VIOLATION property={} replay={}'.format(prop, path))
    return 1


def write_replay(prop, sub, case, message, tb):
    d = os.path.join(HOME, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}_{}.json'.format(prop, sub))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=message, traceback=tb), f, indent=1, default=str)
    return path


def finish(prop, mod, tier, seed, t0, results, errors):
    per_sub = {}
    keys = set()
    evaluations = 0
    samples = []
    violations = []
    known = []
    findings = known_findings(prop)
    for r in sorted(results, key=lambda x: (x['sub'], x['shard'])):
        e = per_sub.setdefault(r['sub'], dict(evaluations=0, distinct_nontrivial=0, skipped=0, labels={}))
        e['evaluations'] += r['evaluations']
        e['distinct_nontrivial'] += len(r['nontrivial'])
        e['skipped'] += r['skipped']
        if r['skip_reasons']:
            e['skip_reasons'] = sorted(set(e.get('skip_reasons', []) + r['skip_reasons']))
        if r['timed_out']:
            e['stopped_by_time_budget'] = True
        for l in r['labels']:
            e['labels'][l] = e['labels'].get(l, 0) + r['labels'][l]
        evaluations += r['evaluations']
        keys.update((r['sub'], k) for k in r['nontrivial'])
        if r['shard'] == 0:
            for s in r['samples'][:2]:
                samples.append(dict(sub=r['sub'], case=s))
        if r['failure'] is not None:
            f = r['failure']
            hit = [k for k in findings if k['sub'] == r['sub'] and k['match'] in f['message']]
            if hit:
                known.append((r['sub'], hit[0]['what']))
            else:
                violations.append((r['sub'], f))
    rule = '; '.join('{}: {}'.format(s.name, s.rule) for s in mod.SUBS)
    coverage = dict(evaluations=evaluations, distinct_nontrivial=len(keys), rule=rule, samples=samples, per_sub_check=per_sub)
    write_evidence(prop, tier, seed, t0, coverage, len(violations), getattr(mod, 'ASSUMPTIONS', None))

    for s, what in sorted(set(known)):
        print('KNOWN-FINDING: property={} {}'.format(prop, what))
    if violations:
        done = set()
        for s, f in violations:
            if s in done:
                continue
            done.add(s)
            path = write_replay(prop, s, f['case'], f['message'], f['traceback'])
            print('sub-check {}: {}'.format(s, f['message'][:2000]))
            print('  case: {}'.format(json.dumps(f['case'], default=str)[:2000]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors:
        for r in errors:
            sys.stderr.write('ERROR in sub-check {} shard {}:\n{}\n'.format(r['sub'], r['shard'], r['error']))
        return 3
    print('OK property={} evaluations={} distinct_nontrivial={} wall_s={:.1f}'.format(prop, evaluations, len(keys), time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for s in per_sub:
            print('   ', s, per_sub[s])
    return 0


def replay(path):
    if not os.path.exists(path):
        path = os.path.join(HOME, path)
    r = json.load(open(path))
    import torch
    torch.set_num_threads(1)
    if r['sub'] == 'import':
        importlib.import_module(r['property'])
        print('import works')
        return 0
    mod = importlib.import_module(r['property'])
    sub = [s for s in mod.SUBS if s.name == r['sub']][0]
    try:
        pbt.run_case(sub, r['case'])
    except pbt.Skip as e:
        print('case is skipped: {}'.format(e))
        return 0
    except Exception:
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        return 1
    print('case passes')
    return 0


if __name__ == '__main__':
    sys.exit(main())
