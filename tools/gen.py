import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
from props import P
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        files = []
        for x in p['files']:
            if x not in files:
                files.append(x)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
         technique='property-based testing (Hypothesis): ' + p['how'], level='exploration',
         level_note='Random search over generated inputs with an explicit oracle; bounds: ' + p['bound'] + '. Trusts torch/torchdiffeq/numpy and the reference in lib/ns.py.') for p in P],
         not_applicable=[], notes='No hooks in /repo. Checks import /repo directly (pure Python); VERIF_SEED seeds everything. check.sh --replay <file> re-runs a saved failing case.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
# the table of DESIGN.md between markers
d = os.path.join(here, 'DESIGN.md')
if os.path.exists(d):
    s = open(d).read()
    a, b = '<!-- properties -->', '<!-- /properties -->'
    t = '\n'.join('### %s %s\n\n- Specified: %s\n- Decided by: %s.\n- Bounds: %s.\n- Beyond the tests: %s.\n- Evidence of the deciding search: `evidence/%s.json` (cases generated, non-trivial by the stated rule, samples).\n' % (p['id'], p['title'], p['statement'], p['how'], p['bound'], p['why'], p['id']) for p in P)
    s = s[:s.index(a) + len(a)] + '\n' + t + s[s.index(b):]
    open(d, 'w').write(s)
    # which check caught which planted change
    sys.path.insert(0, os.path.join(here, 'tools', 'plants'))
    rows = []
    res = json.load(open(os.path.join(here, 'tools', 'plants', 'RESULTS.json')))
    for k in sorted(res):
        m = os.path.join(here, 'seeded', k, 'meta.json')
        if not res[k].get('ok') or not os.path.exists(m):
            continue
        m = json.load(open(m))
        by = (res[k].get('by') or '').split('/')[-1].replace('.json', '').replace('_', '/', 1)
        rows.append('| %s | %s | %s | %s |' % (k, m['what_it_breaks'], m['needs'], by if res[k]['caught'] else 'missed'))
    a = '<!-- seeded -->'
    intro = '\nEvery change below was confirmed in a scratch copy (applies, builds, the stable tests pass, its demonstration fails with it and passes without it) with tools/plant.py, which also runs the quick check of its property. "Caught by" names the property and the sub-check that reported it first.\n\n| id | breaks | needs | caught by |\n|---|---|---|---|\n'
    s = s[:s.index(a) + len(a)] + '\n' + intro + '\n'.join(rows) + '\n'
    open(d, 'w').write(s)
