"""Shooting equations of every model against the independent reference (lib/ns.py: Ref)."""
import torch
from pbt import Sub, st, fail
import ns
import others


@st.composite
def grad_case(draw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL, weights_=ns.wide_weights))
    nb = draw(st.sampled_from([1, 1, 2, 3]))
    c['feats'] = [draw(st.integers(1, 3)) for _ in range(nb)]
    c['batch'] = draw(st.sampled_from([1, 2, 3, 4, 9, 13]))
    c['pt'] = draw(st.sampled_from([False, False, True]))
    c['t'] = draw(st.sampled_from([0.0, 0.0, 0.3, 1.0, 2.5]))
    c['dseed'] = draw(ns.seeds)
    c['scale'] = draw(st.sampled_from([0.3, 1.0, 2.0]))
    return c


def vals(d):
    return [d[k] for k in sorted(d)]


def gradients(c):
    g = ns.gen(c['dseed'])
    total = sum(c['feats'])
    torch.manual_seed(c['seed'])
    # being a block that continues the particles of other blocks does not change the equations, nor does evaluation mode
    model = ns.make_model(c, total_feat=total, **(dict(is_pass_through=True) if c['pt'] else {}))
    if c['seed'] % 3 == 0:
        model.eval()
    s, p, d = ns.random_dicts(c, g, c['batch'], feats=c['feats'], scale=c['scale'])
    ds, dp, dd, po = model.compute_gradients(t=torch.tensor(c['t']), state_dict_of_dicts=s, costate_dict_of_dicts=p, data_dict_of_dicts=d)
    ref = ns.Ref(c, total)
    qs = sorted(ns.MODELS[c['model']]['states'])
    S = {q: ns.cat_blocks(c, s, q) for q in qs}
    P = {q: ns.cat_blocks(c, p, 'p_' + q) for q in qs}
    D = {q: ns.cat_blocks(c, d, q) for q in qs}
    rs, rp, rd, th = ref.rhs(S, P, D)
    # the parameters
    if sorted(po) != sorted(set(k[0] for k in th)):
        fail('layers {} instead of {}', sorted(po), sorted(set(k[0] for k in th)))
    for l in po:
        pars = po[l].get_parameter_dict()
        if sorted(pars) != sorted(k[1] for k in th if k[0] == l):
            fail('parameters of {}: {}', l, sorted(pars))
        for k in pars:
            ns.close(pars[k], th[(l, k)], 'parameter {}.{}'.format(l, k))
    # the derivatives
    for got, expected, like, prefix, what in [(ds, rs, s, '', 'state'), (dp, rp, p, 'p_', 'costate'), (dd, rd, d, '', 'data')]:
        if sorted(got) != sorted(like):
            fail('blocks {} instead of {} ({})', sorted(got), sorted(like), what)
        for q in qs:
            parts = ns.split_like(c, expected[q], like, prefix + q)
            for b in sorted(like):
                if len(got[b]) != len(qs):
                    fail('derivative of the {} has keys {}', what, list(got[b]))
                ns.close(vals(got[b])[qs.index(q)], parts[b], 'derivative of {} {} of block {}'.format(what, q, b))
    nontrivial = c['n'] > 1 and any(float(x.abs().max()) > 1e-3 for x in rs.values())
    return [c['model'], 'blocks%d' % len(c['feats'])] if nontrivial else None


@st.composite
def flow_case(draw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL, weights_=ns.weights))
    c['batch'] = draw(st.sampled_from([1, 2, 3, 3, 9]))
    c['steps'] = draw(st.integers(1, 4))
    c['h'] = draw(st.sampled_from([0.125, 0.25, 0.5]))
    c['dseed'] = draw(ns.seeds)
    return c


def flow(c):
    """A block integrated with explicit Euler steps follows the Euler steps of the reference equations"""
    g = ns.gen(c['dseed'])
    block = ns.make_block(c, integrator=ns.make_integrator('euler', step_size=c['h']))
    ns.set_state(block, c, g)
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    T = c['h'] * c['steps']
    block.set_integration_time(T)
    res, so, po, do = block(x=x)
    ref = ns.Ref(c)
    s0, p0 = ns.own_particles(block, c)
    d0 = initial_data(c, x)
    fs, fp, fd = ref.flow(s0, p0, d0, [0.0, T], method='euler', step=c['h'])[-1]
    for q in s0:
        ns.close(ns.single(so)[q], fs[q], 'state {} at the end'.format(q), rtol=1e-6, atol=1e-7)
        ns.close(ns.single(po)['p_' + q], fp[q], 'costate {} at the end'.format(q), rtol=1e-6, atol=1e-7)
        ns.close(ns.single(do)[q], fd[q], 'data {} at the end'.format(q), rtol=1e-6, atol=1e-7)
    ns.close(res, fd['q1'], 'returned value', rtol=1e-6, atol=1e-7)
    return [c['model']] if c['n'] > 1 else None


def initial_data(c, x):
    """default initial condition of the data"""
    spec = ns.MODELS[c['model']]
    d = {}
    for q in spec['states']:
        shp = list(x.shape)
        if spec['states'][q] == 'infl':
            shp[-1 if spec['kind'] == 'vector' else 1] *= c['infl']
        d[q] = torch.zeros(shp, dtype=x.dtype)
    d['q1'] = x
    if c['model'] == 'symmetrized':
        d['q2'] = torch.cat([x] * c['infl'], dim=-1)
        d['q3'] = x
    return d


QUICK_SCALE = 4

SUBS = [
    Sub('gradients', grad_case(), gradients, 700, 12000,
        'random model, sizes, weights, nonlinearity, 1-3 concatenated blocks, random particles/costates/data; non-trivial: more than one particle and a non-zero velocity', shards=4),
    Sub('flow', flow_case(), flow, 300, 5000,
        'random block integrated over 1-4 Euler steps; non-trivial: more than one particle', shards=4),
    Sub('other_models', others.case(), others.equations, 100, 1500, others.WHAT),
]
