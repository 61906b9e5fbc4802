"""Hand-derived ("analytic") shooting equations against the automatically derived ones."""
import copy
import torch
from pbt import Sub, st, fail
import ns
from C01 import vals


@st.composite
def case(draw, weights=ns.wide_weights):
    c = draw(ns.model_cfg(models=ns.ANALYTIC_MODELS, nls=ns.ALL_NL + [None], max_dim=1, weights_=weights))
    c['batch'] = draw(st.integers(1, 3))
    c['dseed'] = draw(ns.seeds)
    c['scale'] = draw(st.sampled_from([0.3, 1.0, 2.0]))
    c['t'] = draw(st.sampled_from([0.0, 0.0, 0.5, 1.0]))
    return c


def gradients(c):
    out = {}
    for analytic in [False, True]:
        g = ns.gen(c['dseed'])
        model = ns.make_model(c, use_analytic_solution=analytic)
        s, p, d = ns.random_dicts(c, g, c['batch'], scale=c['scale'])
        out[analytic] = model.compute_gradients(t=torch.tensor(c['t']), state_dict_of_dicts=s, costate_dict_of_dicts=p, data_dict_of_dicts=d)
        out[analytic] = out[analytic] + (model.get_current_norm_penalty(),)
    a, b = out[True], out[False]
    for i, what in enumerate(['state', 'costate', 'data']):
        for x, y, k in zip(vals(ns.single(a[i])), vals(ns.single(b[i])), sorted(ns.single(b[i]))):
            ns.close(x, y, 'analytic derivative {} ({})'.format(k, what))
        if len(ns.single(a[i])) != len(ns.single(b[i])):
            fail('different number of entries')
    for l in b[3]:
        pa, pb = a[3][l].get_parameter_dict(), b[3][l].get_parameter_dict()
        if sorted(pa) != sorted(pb):
            fail('different parameters for {}', l)
        for k in pb:
            ns.close(pa[k].reshape(-1), pb[k].reshape(-1), 'analytic parameter {}.{}'.format(l, k))
    if c['t'] == 0.0:
        ns.close(a[4].reshape(-1), b[4].reshape(-1), 'norm penalty')
    return [c['model'], str(c['nl'])] if c['n'] > 1 else None


@st.composite
def flow_case(draw):
    c = draw(case(weights=ns.weights))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['T'] = draw(st.sampled_from([0.5, 1.0, 1.5]))
    c['vec'] = draw(st.booleans())
    c['rnn'] = draw(st.sampled_from([False, False, True]))
    return c


def flow(c):
    """whole blocks: outputs, norm penalty and the gradient of a loss"""
    out = {}
    for analytic in [False, True]:
        g = ns.gen(c['dseed'])
        block = ns.make_block(c, integrator=ns.make_integrator(c['method']), model_kwargs=dict(use_analytic_solution=analytic, use_rnn_mode=c['rnn']))
        ns.set_state(block, c, g, 0.5)
        x = ns.randn(g, ns.data_shape(c, c['batch'])).requires_grad_(True)
        if c['vec']:
            block.set_integration_time_vector(torch.tensor([0.0, 0.5 * c['T'], c['T']]), suppress_warning=bool(c['seed'] % 2))
        else:
            block.set_integration_time(c['T'])
        res, so, po, do = block(x=x)
        pen = block.get_norm_penalty()
        loss = (res * ns.randn(g, res.shape)).sum() + sum((v * ns.randn(g, v.shape)).sum() for v in ns.single(po).values()) + 0.7 * pen.sum()
        pars = sorted(block.named_parameters())
        gr = torch.autograd.grad(loss, [x] + [v for _, v in pars], allow_unused=True)
        o = dict(res=res, pen=pen.reshape(-1))
        for nm, dd in [('state', so), ('costate', po), ('data', do)]:
            for k in ns.single(dd):
                o[nm + k] = ns.single(dd)[k]
        for nm, gg, like in zip(['x'] + [k for k, _ in pars], gr, [x] + [v for _, v in pars]):
            o['grad of ' + nm] = gg if gg is not None else torch.zeros_like(like)
        out[analytic] = o
    if sorted(out[True]) != sorted(out[False]):
        fail('different results {} {}', sorted(out[True]), sorted(out[False]))
    for k in sorted(out[False]):
        ns.close(out[True][k], out[False][k], 'analytic block: ' + k, rtol=1e-7, atol=1e-8)
    return [c['model'], str(c['nl'])] if c['n'] > 1 else None


QUICK_SCALE = 2

SUBS = [
    Sub('gradients', case(), gradients, 1200, 20000,
        'random model with analytic equations, sizes, weights and nonlinearity; non-trivial: more than one particle', shards=3),
    Sub('flow', flow_case(), flow, 480, 8000,
        'as before, integrated; compares outputs, norm penalty and loss gradients; non-trivial: more than one particle', shards=5),
]
ASSUMPTIONS = ['the analytic equations are written for particles with one channel (particle_dimension 1) and one block, as in the repository tests']
