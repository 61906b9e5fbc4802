"""Transport of data: every sample is moved independently by the field of the particles."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
import others


@st.composite
def case(draw, **kw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL, **kw))
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'particles', 'rnn', 'pf_static', 'pf_time']))
    c['analytic'] = bool(draw(st.sampled_from([False, False, True])) and c['model'] in ns.ANALYTIC_MODELS and c['dim'] == 1)
    c['batch'] = draw(st.integers(1, 5))
    c['dseed'] = draw(ns.seeds)
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['T'] = draw(st.sampled_from([0.5, 1.0]))
    c['vec'] = draw(st.sampled_from([False, False, True]))
    return c


def make(c, pass_through=False, name='block', **more):
    kw = {}
    mk = dict(use_rnn_mode=(c['mode'] == 'rnn'))
    if c['analytic']:
        mk['use_analytic_solution'] = True
    if pass_through:
        mk['is_pass_through'] = True
    if c['mode'] == 'pf_static':
        kw['use_particle_free_rnn_mode'] = True
    if c['mode'] == 'pf_time':
        kw['use_particle_free_time_dependent_mode'] = True
        kw['nr_of_particle_free_time_dependent_steps'] = 3
    kw.update(more)
    block = ns.make_block(c, name=name, integrator=ns.make_integrator(c['method'], step_size=0.25), model_kwargs=mk, **kw)
    ns.set_state(block, c, ns.gen(c['dseed'] + 1), 0.5)
    if c['vec']:
        block.set_integration_time_vector(torch.tensor([0.0, 0.5 * c['T'], c['T']]), suppress_warning=bool(c['seed'] % 2))
    else:
        block.set_integration_time(c['T'])
    return block


def bdim(c):
    return 1 if c['vec'] else 0


@st.composite
def indep_case(draw):
    c = draw(case())
    c['batch'] = draw(st.integers(2, 5))
    c['perm'] = draw(st.permutations(list(range(c['batch']))))
    k = draw(st.integers(1, c['batch']))
    c['keep'] = c['perm'][:k]
    return c


def independence(c):
    """moving a selection of samples (in any order) gives the selection of the moved samples"""
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    keep = list(c['keep'])
    block = make(c)
    with torch.no_grad():
        r1, s1, p1, d1 = block(x=x)
        pen1 = block.get_norm_penalty().clone()
        r2, s2, p2, d2 = block(x=x[keep])
        pen2 = block.get_norm_penalty().clone()
    ns.close(r2, r1.index_select(bdim(c), torch.tensor(keep)), 'moved selection of samples')
    for q in ns.single(d1):
        ns.close(ns.single(d2)[q], ns.single(d1)[q].index_select(bdim(c), torch.tensor(keep)), 'data state {} of the selected samples'.format(q))
    for a, b, what in [(s1, s2, 'state'), (p1, p2, 'costate')]:
        for k in ns.single(a):
            ns.close(ns.single(b)[k], ns.single(a)[k], '{} {} depends on the data'.format(what, k), rtol=1e-12, atol=1e-12)
    ns.close(pen2, pen1, 'norm penalty depends on the data', rtol=1e-12, atol=1e-12)
    return [c['mode'], c['model']] if keep != list(range(c['batch'])) else None


@st.composite
def dup_case(draw):
    c = draw(case())
    c['other'] = draw(ns.seeds)
    c['victim'] = draw(st.integers(0, c['batch'] - 1))
    return c


def no_crosstalk(c):
    """changing one sample does not change the result (or the gradient) of the other ones"""
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch'])).requires_grad_(True)
    y = x.detach().clone()
    y[c['victim']] = ns.randn(ns.gen(c['other']), y[c['victim']].shape, 2.0)
    block = make(c)
    r1 = block(x=x)[0]
    with torch.no_grad():
        r2 = block(x=y)[0]
    others = [i for i in range(c['batch']) if i != c['victim']]
    ns.close(r2.index_select(bdim(c), torch.tensor(others, dtype=torch.long)), r1.index_select(bdim(c), torch.tensor(others, dtype=torch.long)), 'samples that did not change')
    sel = r1.index_select(bdim(c), torch.tensor([c['victim']]))
    gr = torch.autograd.grad(sel.sum(), x, allow_unused=True)[0]
    if gr is None:
        fail('result does not depend on the data')
    if others and float(gr[others].abs().max()) > 1e-10:
        fail('result of one sample depends on another sample: {}', float(gr[others].abs().max()))
    return [c['mode'], c['model']] if others else None


@st.composite
def perm_case(draw):
    c = draw(case())
    c['n'] = draw(st.integers(2, 5))
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn']))
    c['perm'] = draw(st.permutations(list(range(c['n']))))
    return c


def particle_symmetry(c):
    """relabelling the particles relabels their trajectories and changes nothing else"""
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    perm = torch.tensor(list(c['perm']))
    b1, b2 = make(c), make(c)
    with torch.no_grad():
        for (k, v), (_, w) in zip(sorted(b1.named_parameters()), sorted(b2.named_parameters())):
            w.copy_(v[perm])
        r1, s1, p1, d1 = b1(x=x)
        r2, s2, p2, d2 = b2(x=x)
    ns.close(r2, r1, 'moved data')
    for a, b, what in [(s1, s2, 'state'), (p1, p2, 'costate')]:
        for k in ns.single(a):
            ns.close(ns.single(b)[k], ns.single(a)[k].index_select(bdim(c), perm), '{} {} of relabelled particles'.format(what, k))
    ns.close(b2.get_norm_penalty(), b1.get_norm_penalty(), 'norm penalty')
    return [c['model']] if list(c['perm']) != sorted(c['perm']) else None


@st.composite
def ride_case(draw):
    c = draw(case())
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn']))
    return c


def on_particles(c):
    """data placed exactly on the particles stays on them"""
    g = ns.gen(c['dseed'])
    block = make(c, pass_through=True, name='second')
    s, p, d = ns.random_dicts(c, g, c['batch'], names=['first'], scale=0.5)
    data = SortedDict({'first': SortedDict({q: torch.cat((s['first'][q].detach(), d['first'][q])) for q in s['first']})})
    with torch.no_grad():
        r, so, po, do = block(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=data)
    for q in ns.single(so):
        ns.close(ns.single(do)[q].narrow(bdim(c), 0, c['n']), ns.single(so)[q], 'data state {} that started on the particles'.format(q), rtol=1e-9, atol=1e-10)
    ns.close(r, ns.single(do)['q1'], 'returned value is the transformed data')
    moved = float((ns.single(so)['q1'].select(0, -1) - s['first']['q1'].detach()).abs().max()) if c['vec'] else 1.0
    return [c['model']] if moved > 0 and c['n'] > 1 else None


@st.composite
def lead_case(draw):
    c = draw(case(models=ns.VECTOR_MODELS))
    c['lead'] = draw(st.integers(1, 3))
    return c


def leading_dimensions(c):
    """vector-valued data may have an additional leading (sample) dimension"""
    g = ns.gen(c['dseed'])
    x = ns.randn(g, [c['lead']] + ns.data_shape(c, c['batch']))
    block = make(c)
    with torch.no_grad():
        r = block(x=x)[0]
        for i in range(c['lead']):
            ri = block(x=x[i])[0]
            ns.close(r.select(bdim(c), i), ri, 'slice {} of the data'.format(i))
    return [c['mode'], c['model']] if c['lead'] > 1 else None


SUBS = [
    Sub('independence', indep_case(), independence, 500, 8000, 'random block, batch and selection of samples; non-trivial: the selection is not the identity', shards=3),
    Sub('no_crosstalk', dup_case(), no_crosstalk, 300, 5000, 'one sample replaced; non-trivial: there are other samples', shards=2),
    Sub('particle_symmetry', perm_case(), particle_symmetry, 250, 4000, 'random permutation of the particles; non-trivial: not the identity', shards=1),
    Sub('on_particles', ride_case(), on_particles, 300, 5000, 'data contains the particles; non-trivial: several particles', shards=1),
    Sub('leading_dimensions', lead_case(), leading_dimensions, 200, 3000, 'data with one more dimension; non-trivial: more than one slice', shards=1),
    Sub('other_models', others.case(), others.independence, 100, 1500, others.WHAT),
]
