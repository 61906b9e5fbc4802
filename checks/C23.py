"""Initial conditions of the data: first state is the data, the other ones are zero or given/predicted by trained parameters."""
import torch
from pbt import Sub, st, fail
import ns
import others

H = 0.25
# models whose higher states start with copies of the data
REPLICATED = ['symmetrized']


@st.composite
def case(draw, types=('none', 'direct', 'linear', 'mini_nn')):
    t = draw(st.sampled_from(types))
    models = list(ns.MODELS) if t == 'none' else [m for m in ns.DATAOPT_MODELS if t in ns.MODELS[m]['dataopt']]
    c = draw(ns.model_cfg(models=models, nls=ns.ALL_NL, max_particles=3))
    c['type'] = t
    c['spell'] = draw(st.sampled_from(['lower', 'upper', 'title']))
    c['batch'] = draw(st.integers(1, 4))
    c['lead'] = draw(st.sampled_from([0, 0, 1])) if ns.MODELS[c['model']]['kind'] == 'vector' else 0
    c['k'] = draw(st.integers(1, 2))
    c['dseed'] = draw(ns.seeds)
    c['analytic'] = draw(st.booleans()) and c['model'] in ns.ANALYTIC_MODELS and c['dim'] == 1
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn', 'pf_static', 'pf_time']))
    return c


def make(c):
    mk = {}
    if c['type'] != 'none':
        s = c['type']
        mk = dict(optimize_over_data_initial_conditions=True,
                  optimize_over_data_initial_conditions_type=dict(lower=s, upper=s.upper(), title=s.title())[c['spell']])
    else:
        # the type has no meaning when there is no optimization
        mk = dict(optimize_over_data_initial_conditions=False, optimize_over_data_initial_conditions_type='mini_nn') if c['dseed'] % 2 else {}
    b = ns.mode_block(dict(c, pfsteps=2), integrator=ns.make_integrator('euler', step_size=H), fill=None, model_kwargs=mk, max_integration_time=1.0)
    b.set_integration_time_vector(torch.tensor([H * i for i in range(c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    return b


def pick(b, suffix):
    for k, v in b.named_parameters():
        if k.replace('.', '__').endswith(suffix):
            return v
    fail('there is no parameter {} (only {})', suffix, sorted(k for k, _ in b.named_parameters()))


def layer(c, x, w, bias):
    if ns.MODELS[c['model']]['kind'] == 'vector':
        return torch.einsum('...i,oi->...o', x, w) + bias
    return torch.einsum('nihw,oi->nohw', x, w[:, :, 0, 0]) + bias.view(1, -1, 1, 1)


def expected(c, b, x):
    spec = ns.MODELS[c['model']]
    ret = dict(q1=x)
    for q in spec['states']:
        if q == 'q1':
            continue
        f = c.get('infl', 1) if spec['states'][q] == 'infl' else 1
        sh = list(x.shape)
        ax = -1 if spec['kind'] == 'vector' else 1
        sh[ax] *= f
        if c['model'] in REPLICATED:
            ret[q] = torch.cat([x] * f, dim=ax)
        elif c['type'] == 'none' or q != 'q2':
            ret[q] = torch.zeros(sh)
        elif c['type'] == 'direct':
            ret[q] = pick(b, 'data_q20') + torch.zeros(sh)
        elif c['type'] == 'linear':
            ret[q] = layer(c, x, pick(b, 'simple_init__weight'), pick(b, 'simple_init__bias'))
        else:
            h = layer(c, x, pick(b, 'init_l1__weight'), pick(b, 'init_l1__bias'))
            ret[q] = layer(c, ns.ref_nl(c['nl'], h), pick(b, 'init_l2__weight'), pick(b, 'init_l2__bias'))
    return ret


def initial(c):
    b = make(c)
    g = ns.gen(c['dseed'])
    sh = ns.data_shape(c, c['batch'])
    if c['lead']:
        sh = [2] + sh
    x = ns.randn(g, sh)
    x0 = x.clone()
    if c['type'] == 'direct':
        # not trained yet: as if nothing was optimized
        out = b(x=x)
        if float(ns.single(out[3])['q2'][0].abs().max()) != 0:
            fail('the initial condition does not start at zero')
    ns.set_state(b, c, g, 0.4)
    out = b(x=x)
    if not torch.equal(x, x0):
        fail('the given data was changed')
    exp = expected(c, b, x)
    d = ns.single(out[3])
    if sorted(d) != sorted(exp):
        fail('states {} instead of {}', sorted(d), sorted(exp))
    for q in exp:
        ns.close(d[q][0], exp[q], 'initial ' + q, rtol=1e-10, atol=1e-12)
    ns.close(out[0][0], x, 'returned value at the initial time', rtol=0, atol=0)
    # which parameters exist
    names = [k.replace('.', '__') for k, _ in b.named_parameters()]
    extra = dict(none=[], direct=['data_q20'], linear=['simple_init__weight', 'simple_init__bias'],
                 mini_nn=['init_l1__weight', 'init_l1__bias', 'init_l2__weight', 'init_l2__bias'])
    for t in extra:
        for n in extra[t]:
            k = sum(x.endswith(n) for x in names)
            if k != (1 if t == c['type'] else 0):
                fail('parameter {} exists {} times', n, k)
    # the evolution continues from there, and gradients reach the initial condition
    if c['type'] != 'none' and c['mode'] == 'particles' and not c['lead']:
        ref = ns.Ref(c)
        s, p = ns.own_particles(b, c)
        fl = ref.flow({k: v.detach() for k, v in s.items()}, {k: v.detach() for k, v in p.items()}, {k: v.detach() for k, v in exp.items()},
                      [H * i for i in range(c['k'] + 1)], method='euler', step=H)
        for i in range(c['k'] + 1):
            for q in exp:
                ns.close(d[q][i], fl[i][2][q], 'data {} at step {}'.format(q, i), rtol=1e-8)
    if c['type'] != 'none':
        pars = [pick(b, n) for n in extra[c['type']]]
        w = ns.randn(g, d['q2'][0].shape)
        ga = torch.autograd.grad((w * d['q2'][0]).sum(), pars, retain_graph=True)
        ge = torch.autograd.grad((w * exp['q2']).sum(), pars, retain_graph=True)
        for n, u, v in zip(extra[c['type']], ga, ge):
            ns.close(u, v, 'gradient of ' + n, rtol=1e-9)
        loss = (ns.randn(g, out[0][-1].shape) * out[0][-1]).sum()
        gl = torch.autograd.grad(loss, pars, allow_unused=True)
        if c['nl'] != 'relu' and any(u is None for u in gl):
            fail('the result does not depend on the initial condition')
    return [c['model'], c['type'], c['mode']]


@st.composite
def train_case(draw):
    c = draw(case(types=('direct', 'linear', 'mini_nn')))
    c['mode'] = 'particles'
    c['lead'] = 0
    c['nl'] = 'tanh'
    return c


def training(c):
    """optimizer steps change the initial condition which is used by the next evaluation"""
    b = make(c)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    b(x=x)
    ns.set_state(b, c, g, 0.4)
    opt = torch.optim.SGD(b.parameters(), lr=1e-2)
    n = 0
    for _ in range(3):
        out = b(x=x)
        loss = ((out[0][-1] - 1.0) ** 2).mean()
        if not float(loss.detach()) < 1e3:
            return None
        opt.zero_grad()
        loss.backward()
        torch.nn.utils.clip_grad_norm_(list(b.parameters()), 1.0)
        opt.step()
        before = ns.single(out[3])['q2'][0].detach().clone()
        now = b(x=x)
        ns.close(ns.single(now[3])['q2'][0], expected(c, b, x)['q2'], 'initial condition after a step', rtol=1e-10)
        if not torch.equal(before, ns.single(now[3])['q2'][0]):
            n += 1
    if n == 0:
        fail('the initial condition is not trained')
    return [c['model'], c['type']]


@st.composite
def bad_case(draw):
    c = draw(ns.model_cfg(models=ns.DATAOPT_MODELS))
    c['name'] = draw(st.sampled_from(['', 'unknown', 'lin', 'mini-nn', 'none', 'directly']))
    return c


def rejected(c):
    try:
        ns.make_model(c, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=c['name'])
    except ValueError:
        return True
    fail('unknown way {!r} to get an initial condition was accepted', c['name'])


QUICK_SCALE = 4

SUBS = [
    Sub('initial', case(), initial, 500, 8000, 'random models, modes, data and ways to get the initial condition; every case counts', shards=4),
    Sub('training', train_case(), training, 80, 1200, 'random models; non-trivial: nothing blows up', shards=2),
    Sub('rejected', bad_case(), rejected, 60, 300, 'unknown names; every case counts'),
    Sub('other_models', others.case(), others.initial, 60, 900, others.WHAT),
]
