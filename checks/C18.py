"""Norms of layers and the complexity measures which are computed from recorded norms."""
from collections import defaultdict
import numpy as np
import torch
from pbt import Sub, st, fail
import ns
import neuro_shooting.shooting_hooks as hooks
import neuro_shooting.validation_measures as vm
import neuro_shooting.overwrite_classes as oc


@st.composite
def norm_case(draw):
    return dict(layers=draw(st.lists(st.tuples(st.integers(1, 5), st.integers(1, 5), st.booleans(), st.sampled_from(['full', 'full', 'rank1', 'zero', 'ortho'])), min_size=1, max_size=4)),
                scale=draw(st.sampled_from([1.0, 1e-4, 1e3])), damp=draw(st.booleans()), dseed=draw(ns.seeds))


def norms(c):
    g = ns.gen(c['dseed'])
    objs = {}
    exp = {}
    tot = dict(frobenius=0., nuclear=0., spectral=0.)
    for i, (a, b, bias, kind) in enumerate(c['layers']):
        l = oc.SNN_Linear(a, b, bias=bias)
        pd = l.get_parameter_dict()
        w = ns.randn(g, [b, a], c['scale'])
        if kind == 'rank1':
            w = ns.randn(g, [b, 1]) @ ns.randn(g, [1, a]) * c['scale']
        elif kind == 'zero':
            w = torch.zeros(b, a)
        elif kind == 'ortho':
            u, s, v = torch.linalg.svd(w, full_matrices=False)
            w = u @ v * c['scale']
        pd['weight'] = w.clone().requires_grad_(True)
        if bias:
            pd['bias'] = ns.randn(g, [b], 100.0)
        objs['l%d' % i] = l
        s = np.sqrt(np.maximum(np.linalg.eigvalsh((w.t() @ w).numpy() if a < b else (w @ w.t()).numpy()), 0))
        one = dict(frobenius=float((w ** 2).sum()), nuclear=float(s.sum() ** 2), spectral=float(s.max() ** 2))
        for n in one:
            exp['sqr_{}_norm_l{}.weight'.format(n, i)] = one[n]
            tot[n] += one[n]
    for n in tot:
        exp['sum_sqr_{}_norm'.format(n)] = tot[n]
    got = hooks.compute_parameter_norms(objs)
    if sorted(got) != sorted(exp):
        fail('norms {} instead of {}', sorted(got), sorted(exp))
    for k in exp:
        ns.close(torch.as_tensor(np.asarray(got[k], dtype=float)), torch.tensor(exp[k]), k, rtol=1e-5, atol=1e-9 * c['scale'] ** 2)
    # order of the norms: spectral <= frobenius <= nuclear
    for i in range(len(c['layers'])):
        a, b, d = [float(got['sqr_{}_norm_l{}.weight'.format(n, i)]) for n in ['spectral', 'frobenius', 'nuclear']]
        if not (a <= b * (1 + 1e-6) + 1e-300 and b <= d * (1 + 1e-6) + 1e-300):
            fail('norms are not ordered: {} {} {}', a, b, d)
    return True


pos = st.floats(min_value=1e-6, max_value=1e6, allow_nan=False)


@st.composite
def series_case(draw):
    n = draw(st.integers(2, 12))
    t = [draw(st.sampled_from([0.0, 0.5, -1.0]))]
    for _ in range(n - 1):
        k = draw(st.sampled_from(['up', 'up', 'up', 'up', 'same', 'restart']))
        t.append(t[-1] + draw(st.sampled_from([0.1, 0.25, 0.01, 1.0])) if k == 'up' else (t[-1] if k == 'same' else t[0]))
    return dict(t=t, fro=[draw(pos) for _ in range(n)], nuc=[draw(pos) for _ in range(n)], spe=[draw(pos) for _ in range(n)],
                form=draw(st.sampled_from(['list', 'array', 'arrays'])), extra=draw(st.booleans()))


def complexity(c):
    names = dict(fro='frobenius', nuc='nuclear', spe='spectral')

    def conv(x):
        if c['form'] == 'list':
            return list(x)
        if c['form'] == 'arrays':
            return [np.array(v) for v in x]
        return np.array(x)
    data = defaultdict(list)
    data['t'] = conv(c['t'])
    for k in names:
        data['sum_sqr_{}_norm'.format(names[k])] = conv(c[k])
    if c['extra']:
        data['energy'] = [1.0]
        data['l1.weight'] = [np.zeros((2, 2))]
    copies = {k: np.array(v).copy() for k, v in data.items()}
    got = vm.compute_complexity_measures(data)
    if sorted(got) != ['log2_frobenius', 'log2_nuclear', 'log2_spectral']:
        fail('measures {}', sorted(got))
    for k in names:
        e = 0.0
        for i in range(len(c['t']) - 1):
            dt = c['t'][i + 1] - c['t'][i]
            if dt > 0:
                e += dt * np.log2((c[k][i] + c[k][i + 1]) / 2.0)
        ns.close(torch.as_tensor(float(got['log2_' + names[k]])), torch.tensor(float(e)), names[k], rtol=1e-9, atol=1e-9)
    for k in copies:
        if not np.array_equal(copies[k], np.array(data[k])):
            fail('the recorded {} was changed', k)
    return ['restart'] if any(b < a for a, b in zip(c['t'][:-1], c['t'][1:])) else ['forward']


@st.composite
def run_case(draw):
    c = draw(ns.model_cfg(models=ns.VECTOR_MODELS, nls=ns.SMOOTH_NL, max_particles=3))
    c['k'] = draw(st.integers(2, 4))
    c['runs'] = draw(st.integers(1, 2))
    c['dseed'] = draw(ns.seeds)
    return c


def recorded(c):
    """measures of recorded evolutions; an evolution which is recorded twice counts twice (time restarts)"""
    H = 0.25
    b = ns.make_block(c, integrator=ns.make_integrator('euler', step_size=H))
    ns.set_state(b, c, ns.gen(c['dseed']), 0.5)
    b.set_integration_time_vector(torch.tensor([H * i for i in range(c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    x = ns.randn(ns.gen(c['dseed'] + 1), ns.data_shape(c, 2))
    rec = defaultdict(list)
    b.shooting_integrand.set_custom_hook_data(data=rec)
    b.shooting_integrand.register_lagrangian_gradient_hook(hooks.parameter_evolution_hook)
    for _ in range(c['runs']):
        out = b(x=x)
    got = vm.compute_complexity_measures(rec)
    ref = ns.Ref(c)
    ss = dict(frobenius=[], nuclear=[], spectral=[])
    for i in range(c['k']):
        s = {q: ns.single(out[1])[q][i].detach() for q in ref.spec['states']}
        p = {q: ns.single(out[2])['p_' + q][i].detach() for q in ref.spec['states']}
        th = ref.theta(s, p)
        tot = dict(frobenius=0., nuclear=0., spectral=0.)
        for (l, n), v in th.items():
            if n == 'bias':
                continue
            if not torch.isfinite(v).all() or float(v.abs().max()) > 1e8:
                return None
            sv = np.linalg.svd(v.numpy(), compute_uv=False)
            tot['frobenius'] += float((sv ** 2).sum())
            tot['nuclear'] += float(sv.sum() ** 2)
            tot['spectral'] += float(sv.max() ** 2)
        for n in tot:
            ss[n].append(tot[n])
    for n in ss:
        if min(ss[n]) < 1e-12:
            return None
        e = c['runs'] * sum(H * np.log2(0.5 * (a + b2)) for a, b2 in zip(ss[n][:-1], ss[n][1:]))
        ns.close(torch.as_tensor(float(got['log2_' + n])), torch.tensor(float(e)), n, rtol=1e-6, atol=1e-6)
    return [c['model']]


QUICK_SCALE = 3

SUBS = [
    Sub('norms', norm_case(), norms, 500, 8000, 'random layers (full rank, rank one, orthogonal, zero); every case counts', shards=2),
    Sub('complexity', series_case(), complexity, 800, 15000, 'random series of times (increasing, repeated, restarting) and norms; every case counts', shards=2),
    Sub('recorded', run_case(), recorded, 100, 1500, 'random models recorded once or twice; non-trivial: norms are not zero', shards=2),
]
