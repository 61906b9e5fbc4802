"""Training: gradients of losses, reproducibility of forward passes, availability of parameters."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
import others


@st.composite
def grad_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=4, max_dim=2, max_size=3, conv_max=4, max_batch=3))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['k'] = draw(st.sampled_from([1, 2, 3, 4, 6, 9]))
    c['vec'] = draw(st.booleans())
    c['wseed'] = draw(ns.seeds)
    c['penalty'] = draw(st.sampled_from([0.0, 0.0, 1.5]))
    c['what'] = draw(st.sampled_from(['res', 'res', 'states', 'all']))
    c['opt'] = 'zero'
    opts = ns.MODELS[c['model']].get('dataopt')
    if opts:
        c['opt'] = draw(st.sampled_from(['zero'] + opts))
    return c


def build(c):
    mk = {}
    if c['opt'] != 'zero':
        mk['optimize_over_data_initial_conditions'] = True
        mk['optimize_over_data_initial_conditions_type'] = c['opt']
    b = ns.mode_block(c, integrator=ns.make_integrator(c['method'], step_size=0.25, **(dict(integrator_options=dict(max_num_steps=60)) if c['method'] == 'dopri5' else {})), model_kwargs=mk)
    if c['vec']:
        b.set_integration_time_vector(torch.tensor([0.0] + [0.25 * i for i in range(1, c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    else:
        b.set_integration_time(0.25 * c['k'])
    return b


def loss_of(c, b, x):
    g = ns.gen(c['wseed'])
    out = b(x=x)
    loss = 0.0
    if c['what'] in ['res', 'all']:
        loss = loss + (ns.randn(g, out[0].shape) * out[0]).sum() + 0.5 * (out[0] ** 2).sum()
    if c['what'] in ['states', 'all']:
        for d in out[1:]:
            for k in ns.single(d):
                v = ns.single(d)[k]
                loss = loss + (ns.randn(g, v.shape) * v).sum()
    if c['penalty']:
        loss = loss + c['penalty'] * b.get_norm_penalty().sum()
    return loss


def gradient(c):
    """derivative of a random loss in random directions of all parameters and the data, against finite differences"""
    b = build(c)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch'])).requires_grad_(True)
    loss = loss_of(c, b, x)
    if not abs(float(loss.detach())) < 1e3:
        return None  # blows up, finite differences are useless
    pars = sorted(b.named_parameters())
    leaves = [('data', x)] + pars
    grads = torch.autograd.grad(loss, [v for _, v in leaves], allow_unused=True)
    groups = [['data'], [k for k, _ in pars if not k.startswith('p_')], [k for k, _ in pars if k.startswith('p_')]]
    if len(pars) <= 6:
        groups = [[k] for k, _ in leaves]
    nonzero = 0
    for grp in groups:
        sel = [(k, v, gk) for (k, v), gk in zip(leaves, grads) if k in grp]
        if not sel:
            continue
        fd = ns.directional_check(lambda: loss_of(c, b, x), [v for _, v, _ in sel], [gk for _, _, gk in sel], g,
                                  'gradient of the loss wrt {}'.format(grp), float(loss.detach()))
        if abs(fd) > 1e-4:
            nonzero += 1
    return [c['mode'], c['model'], c['opt'], 'analytic' if c['analytic'] else 'auto'] if nonzero > 1 else None


ops = st.lists(st.sampled_from(['grad', 'nograd', 'eval', 'train', 'other', 'backward', 'nograd']), min_size=2, max_size=7)


@st.composite
def det_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint', 'dopri5']))
    c['ops'] = draw(ops)
    c['vec'] = draw(st.booleans())
    c['opt'] = 'zero'
    opts = ns.MODELS[c['model']].get('dataopt')
    if opts:
        c['opt'] = draw(st.sampled_from(['zero'] + opts))
    c['k'] = 3
    c['scale'] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 30.0, 300.0]))
    return c


def reproducible(c):
    """the same input gives the same output, however the block was used in between; nothing is changed by evaluating it"""
    b = build(c)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']), c.get('scale', 1.0))
    keepx = x.clone()
    pars = {k: v.detach().clone() for k, v in b.named_parameters()}
    first = None
    last = None
    n = 0
    for op in c['ops']:
        if op in ['grad', 'nograd']:
            with torch.set_grad_enabled(op == 'grad'):
                out = b(x=x)
            pen = b.get_norm_penalty().detach().clone()
            cur = (out[0].detach().clone(),) + tuple(ns.detached(o) for o in out[1:])
            if first is None:
                first, firstpen = cur, pen
            else:
                ns.cmp_outputs(cur, first, 'evaluated again:', rtol=1e-12, atol=1e-13)
                ns.close(pen, firstpen, 'norm penalty evaluated again', rtol=1e-12, atol=1e-13)
                n += 1
            last = out[0] if op == 'grad' else None
        elif op == 'other':
            y = ns.randn(g, ns.data_shape(c, c['batch'] + 1), 2.0)
            b(x=y)
            last = None
        elif op == 'backward' and last is not None:
            (last ** 2).sum().backward()
            last = None
        elif op == 'eval':
            b.eval()
        elif op == 'train':
            b.train()
        if not torch.equal(x, keepx):
            fail('the data of the caller was changed')
        now = dict(b.named_parameters())
        if sorted(now) != sorted(pars):
            fail('parameters {} instead of {}', sorted(now), sorted(pars))
        for k in pars:
            if not torch.equal(now[k].detach(), pars[k]):
                fail('evaluating the block changed its parameter {}', k)
    return [c['mode'], c['model']] if n else None


@st.composite
def par_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL))
    c['opt'] = 'zero'
    opts = ns.MODELS[c['model']].get('dataopt')
    if opts:
        c['opt'] = draw(st.sampled_from(['zero'] + opts))
    c['method'], c['k'], c['vec'] = 'euler', 1, False
    c['nested'] = draw(st.booleans())
    c['via'] = draw(st.sampled_from(['parameters', 'optimizer', 'recurse']))
    c['early'] = draw(st.booleans())
    c['nograd'] = draw(st.booleans())
    c['frozen'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


def parameters(c):
    """parameters are only handed out after the first evaluation, and then they are all of them"""
    b = build(c)
    m = b
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    if c['early']:
        try:
            list(m.parameters())
            fail('parameters are available before the first evaluation')
        except ValueError:
            pass
    if c['nograd']:
        with torch.no_grad():
            b(x=x)
    else:
        (b(x=x)[0] ** 2).sum().backward()
    # parameters which are not optimized at the moment are parameters nevertheless
    frozen = [k for i, k in enumerate(sorted(k for k, _ in b.named_parameters())) if c['frozen'] and i % c['frozen'] == 0]
    for k, v in b.named_parameters():
        if not v.requires_grad:
            fail('parameter {} is not optimized', k)
        if k in frozen:
            v.requires_grad_(False)
    if c['via'] == 'parameters':
        got = list(m.parameters())
    elif c['via'] == 'recurse':
        got = list(m.parameters(recurse=True))
    else:
        o = torch.optim.SGD(m.parameters(), lr=0.1)
        got = [p for gr in o.param_groups for p in gr['params']]
    named = dict(b.named_parameters())
    if sorted(id(p) for p in got) != sorted(id(p) for p in named.values()):
        fail('parameters() and named_parameters() differ')
    qs = sorted(ns.MODELS[c['model']]['states'])
    if c['mode'] in ['particles', 'rnn']:
        exp = set(qs) | set('p_' + q for q in qs)
        missing = exp - set(named)
        if missing:
            fail('parameters {} are missing', sorted(missing))
        for q in qs:
            shp = tuple(ns.state_shape(c, ns.MODELS[c['model']]['states'][q]))
            if tuple(named[q].shape) != shp or tuple(named['p_' + q].shape) != shp:
                fail('shape of {}: {} instead of {}', q, tuple(named[q].shape), shp)
        rest = set(named) - exp
    else:
        exp = set('pf_timestep{}_{}_{}'.format(i, l, k) for i in range(c['pfsteps']) for (l, k) in ns.Ref(c).zero_theta())
        if exp - set(named):
            fail('parameters {} are missing', sorted(exp - set(named)))
        rest = set(named) - exp
    if c['opt'] == 'zero' and rest:
        fail('unexpected parameters {}', sorted(rest))
    if c['opt'] != 'zero' and not rest:
        fail('no parameters for the initial condition of the data')
    return [c['mode'], c['opt']]


@st.composite
def train_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, models=ns.VECTOR_MODELS, max_particles=4, max_dim=1, max_size=2, max_batch=4))
    c['method'], c['k'], c['vec'], c['opt'] = 'rk4', 2, False, 'zero'
    c['seed2'] = draw(ns.seeds)
    return c


def training(c):
    """a small step along the negative gradient (with all of parameters()) decreases the loss"""
    b = build(c)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    y = ns.randn(ns.gen(c['seed2']), x.shape)

    def loss():
        return ((b(x=x)[0] - y) ** 2).mean() + 0.1 * b.get_norm_penalty().sum()
    l0 = loss()
    ps = list(b.parameters())
    gr = torch.autograd.grad(l0, ps, allow_unused=True)
    n2 = sum(float((q ** 2).sum()) for q in gr if q is not None)
    if n2 < 1e-10 or not n2 < 1e6:
        return None
    lr = 1e-6 / (n2 ** 0.5)
    with torch.no_grad():
        for p, q in zip(ps, gr):
            if q is not None:
                p.sub_(lr * q)
    l1 = float(loss().detach())
    dec = float(l0.detach()) - l1
    ns.close(dec, lr * n2, 'decrease of the loss after a small gradient step', rtol=1e-3, atol=1e-11)
    return [c['mode'], c['model']]


SUBS = [
    Sub('gradient', grad_case(), gradient, 300, 6000, 'random blocks and losses; non-trivial: at least two groups with a derivative which is not zero', shards=4),
    Sub('reproducible', det_case(), reproducible, 200, 3000, 'sequences of evaluations; non-trivial: at least two compared evaluations', shards=2),
    Sub('parameters', par_case(), parameters, 150, 2000, 'random blocks; every case counts', shards=1),
    Sub('training', train_case(), training, 120, 2000, 'random regression problems; non-trivial: non-zero gradient', shards=2),
    Sub('other_models', others.case(), others.gradient, 60, 900, others.WHAT),
]
