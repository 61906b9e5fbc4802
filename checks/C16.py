"""Residual network of shooting blocks: it is the composition of its parts."""
import torch
import torch.nn as nn
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
import neuro_shooting.res_net as rn
import neuro_shooting.shooting_models as sm
import neuro_shooting.parameter_initialization as pi


@st.composite
def case(draw, max_layers=3):
    L = draw(st.sampled_from([1, 2, 2, 3, 4])) if max_layers == 3 else draw(st.integers(1, max_layers))
    ch = [draw(st.integers(1, 2))]
    for _ in range(L - 1):
        ch.append(ch[-1] + draw(st.sampled_from([0, 1, 1, 2])))
    stride = draw(st.sampled_from([1, 2, 2, 3] if L < 3 else [1, 2, 2] if L == 3 else [1, 1, 2]))
    model = draw(st.sampled_from(['default', 'conv', 'conv_batch', 'conv_updown']))
    # the normalization needs more than one pixel
    least = 2 if model == 'conv_batch' else 1
    big = max(least * stride ** (L - 1), 3)
    ps = [[draw(st.integers(big, big + 2)), draw(st.integers(big, big + 2))]]
    # particles of later layers have the size of the strided ones
    for _ in range(L - 1):
        ps.append([x // stride for x in ps[-1]])
    c = dict(img=draw(st.integers(1, 3)), ch=ch, blocks=[draw(st.integers(1, {1: 4, 2: 3, 3: 2}.get(L, 1))) for _ in range(L)], stride=stride, ps=ps,
             n=draw(st.integers(1, 3)), classes=draw(st.integers(1, 4)), nl=draw(st.sampled_from(['relu', 'tanh', 'sigmoid'])),
             model=model, integ=draw(st.sampled_from(['rk4', 'euler', 'euler', 'euler', 'default'] if L == 1 else ['rk4', 'euler', 'euler', 'euler'])),
             pw=draw(st.sampled_from([None, None, 0.5, 2.0])), fs=draw(st.sampled_from([3, 3, 1, 5])), batch=draw(st.integers(1, 3)), hw=[draw(st.integers(big, big + 2)), draw(st.integers(big, big + 2))], seed=draw(ns.seeds), dseed=draw(ns.seeds))
    # settings which are left to their defaults
    c['omit'] = [k for k in OMIT if draw(st.integers(0, 5)) == 0 and (k != 'downsampling_stride' or stride == 2)]
    c.update({OMIT[k][0]: OMIT[k][1] for k in c['omit']})
    return c


OMIT = dict(nr_of_classes=('classes', 10), nr_of_particles=('n', 10), nonlinearity=('nl', 'relu'), downsampling_stride=('stride', 2))


def model_kwargs(c):
    k = dict(inflation_factor=2) if c['model'] == 'conv_updown' else {}
    if c['pw'] is not None:
        k['parameter_weight'] = c['pw']
    if c.get('fs', 3) != 3:
        k['filter_size'] = c['fs']
    return k


def own_blocks(c):
    """blocks as they are documented, created independently of the network"""
    cls = getattr(sm, ns.MODELS['conv' if c['model'] == 'default' else c['model']]['cls'])
    ret = {}
    for l in range(len(c['ch'])):
        for j in range(c['blocks'][l]):
            kw = dict(is_pass_through=True) if j else dict(particle_size=list(c['ps'][l]), particle_dimension=c['ch'][l] - (c['ch'][l - 1] if l else 0))
            m = cls(in_features=c['ch'][l], nonlinearity=c['nl'], nr_of_particles=c['n'], **dict(kw, **model_kwargs(c)))
            ig = ns.make_integrator('rk4', step_size=0.1) if c['integ'] == 'default' else ns.make_integrator(c['integ'], step_size=0.5)
            n = 'shooting_layer_{}_{}'.format(l, j)
            ret[n] = ns.sb.ShootingBlockBase(name=n, shooting_integrand=m, integrator=ig)
    return ret


def make(c):
    torch.manual_seed(c['seed'])
    kw = {}
    if c['model'] != 'default':
        kw['shooting_model'] = getattr(sm, ns.MODELS[c['model']]['cls'])
    if model_kwargs(c):
        kw['shooting_model_kwargs'] = model_kwargs(c)
    if c['integ'] != 'default':
        kw['integrator'] = ns.make_integrator(c['integ'], step_size=0.5)
    kw.update(nr_of_blocks_per_layer=list(c['blocks']), downsampling_stride=c['stride'], nonlinearity=c['nl'], nr_of_particles=c['n'], nr_of_classes=c['classes'])
    for k in c.get('omit', []):
        del kw[k]
    # given initializers are recognized by their magnitude
    for k, m in [('state', 1e-4), ('costate', 1e4)]:
        if c.get('init') in (k, 'both'):
            kw[k + '_initializer'] = pi.ConvolutionEvolutionParameterInitializer(random_initialization_magnitude=m)
    return rn.BasicResNet(nr_of_image_channels=c['img'], layer_channels=list(c['ch']), particle_sizes=[list(x) for x in c['ps']], **kw)


def stride_dd(dd, s):
    ret = SortedDict()
    for b in dd:
        ret[b] = SortedDict()
        for k in dd[b]:
            t = dd[b][k]
            for d in (2, 3):
                n = t.shape[d]
                t = t.index_select(d, torch.tensor([n % s + j * s for j in range(n // s)], dtype=torch.long))
            ret[b][k] = t
    return ret


def compose(net, c, x, own=None):
    mods = dict(net.named_children())
    names = ['shooting_layer_{}_{}'.format(l, j) for l in range(len(c['ch'])) for j in range(c['blocks'][l])]
    for n in names:
        if n not in mods:
            fail('there is no block {} (blocks: {})', n, sorted(mods))
    z = net.initial_conv(x)
    z = net.batch_norm(z)
    z = ns.ref_nl(c['nl'], z)
    out = None
    for l in range(len(c['ch'])):
        for j in range(c['blocks'][l]):
            blk = (own or mods)['shooting_layer_{}_{}'.format(l, j)]
            if out is None:
                out = blk(x=z)
            else:
                out = blk(data_dict_of_dicts=out[3], pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2])
        if l < len(c['ch']) - 1:
            out = (out[0],) + tuple(stride_dd(dd, c['stride']) for dd in out[1:])
    m = out[0].amax(dim=(2, 3))
    return m @ net.last_linear.weight.t() + net.last_linear.bias


def image(c, g, n=None):
    return ns.randn(g, [n or c['batch'], c['img']] + c['hw'])


def run(c, x, net):
    return net(x)


def fill(net, g):
    with torch.no_grad():
        for k, v in sorted(net.named_parameters()):
            v.copy_(ns.randn(g, v.shape, 0.2))
        net.batch_norm.running_mean.copy_(ns.randn(g, net.batch_norm.running_mean.shape, 0.3))
        net.batch_norm.running_var.copy_(ns.randn(g, net.batch_norm.running_var.shape).abs() + 0.3)


def composition(c):
    net = make(c)
    g = ns.gen(c['dseed'])
    x = image(c, g)
    net.eval()
    net(x)
    fill(net, g)
    got = net(x)
    if list(got.shape) != [c['batch'], c['classes']]:
        fail('the output has shape {}', tuple(got.shape))
    exp = compose(net, c, x)
    ns.close(got, exp, 'network', rtol=1e-9)
    if c['dseed'] % 3 == 0:
        own = own_blocks(c)
        compose(net, c, x, own)
        mods = dict(net.named_children())
        for k in own:
            own[k].load_state_dict(mods[k].state_dict())
        ns.close(got, compose(net, c, x, own), 'network with blocks of the documented settings', rtol=1e-9)
    # every sample is classified on its own
    i = c['dseed'] % c['batch']
    ns.close(net(x[i:i + 1]), got[i:i + 1], 'sample on its own', rtol=1e-7)
    net.train()
    if c['batch'] * c['hw'][0] * c['hw'][1] > 1:
        state = {k: v.clone() for k, v in net.state_dict().items()}
        got = net(x)
        net.load_state_dict(state)
        exp = compose(net, c, x)
        ns.close(got, exp, 'network while training', rtol=1e-9)
        # what the normalization has learned is used afterwards
        bn = nn.BatchNorm2d(c['ch'][0])
        bn.load_state_dict({k[len('batch_norm.'):]: v for k, v in state.items() if k.startswith('batch_norm.')})
        bn(net.initial_conv(x))
        net.eval()
        z = ns.randn(g, [2, c['ch'][0], 2, 2])
        ns.close(net.batch_norm(z), bn.eval()(z), 'normalization after training', rtol=1e-9)
    return [c['model'], 'layers%d' % len(c['ch']), 'blocks%d' % sum(c['blocks'])]


@st.composite
def par_case(draw):
    c = draw(case(max_layers=2))
    c['ops'] = draw(st.lists(st.sampled_from(['eval', 'train', 'step', 'step', 'nograd']), min_size=1, max_size=4))
    c['batch'] = draw(st.integers(2, 3))
    c['init'] = draw(st.sampled_from([None, 'state', 'costate', 'both']))
    return c


def training(c):
    """parameters are only available after an evaluation, are all trained, and stay the same objects"""
    net = make(c)
    g = ns.gen(c['dseed'])
    x = image(c, g)
    y = torch.tensor([i % c['classes'] for i in range(c['batch'])])
    try:
        list(net.parameters())
    except ValueError:
        pass
    else:
        fail('parameters are available before the first evaluation')
    net(x)
    pars = list(net.parameters())
    objs = dict(net.named_parameters())
    if sorted(id(v) for v in objs.values()) != sorted(id(v) for v in pars):
        fail('parameters() does not give all the parameters')
    # every particle state and costate of every layer is a parameter
    spec = ns.MODELS['conv' if c['model'] == 'default' else c['model']]
    for l in range(len(c['ch'])):
        for q in spec['states']:
            for k in [q, 'p_' + q]:
                n = 'shooting_layer_{}_0.{}'.format(l, k)
                if n not in objs:
                    fail('there is no parameter {}', n)
                f = 2 if (spec['states'][q] == 'infl') else 1
                add = c['ch'][l] - (c['ch'][l - 1] if l else 0)
                if list(objs[n].shape) != [c['n'], add * f] + c['ps'][l]:
                    fail('parameter {} has shape {}', n, tuple(objs[n].shape))
                if objs[n].numel() > 3:
                    m = float(objs[n].detach().abs().max())
                    exp = (0, 1e-3) if k == q and c['init'] in ('state', 'both') else ((1e2, 1e5) if k != q and c['init'] in ('costate', 'both') else (0, 10))
                    if not exp[0] <= m <= exp[1] or m == 0 or (exp[1] == 10 and m < 1e-3):
                        fail('parameter {} of magnitude {} is not from the {} initializer', n, m, 'given' if exp[1] != 10 else 'default')
    fill(net, g)
    opt = torch.optim.SGD(net.parameters(), lr=1e-3)
    for op in c['ops']:
        net.train(op != 'eval')
        if op == 'nograd':
            with torch.no_grad():
                net(x)
        else:
            out = net(x)
        now = dict(net.named_parameters())
        if sorted(now) != sorted(objs) or any(now[k] is not objs[k] for k in now):
            fail('parameters change from evaluation to evaluation')
        if op in ['eval', 'nograd']:
            continue
        opt.zero_grad()
        loss = (ns.randn(ns.gen(c['dseed'] + 7), out.shape) * out).sum()
        loss.backward()
        if not torch.isfinite(loss):
            return None
        for k, v in objs.items():
            if v.grad is None:
                fail('no gradient for {}', k)
        for l in range(len(c['ch'])):
            tot = sum(float(v.grad.abs().sum()) for k, v in objs.items() if k.startswith('shooting_layer_{}_'.format(l)))
            if c['nl'] != 'relu' and (l == 0 or c['ch'][l] > c['ch'][l - 1]) and not tot > 0:
                fail('no gradient for the blocks of layer {}', l)
        if op == 'step':
            torch.nn.utils.clip_grad_norm_(list(objs.values()), 1.0)
            opt.step()
    return [c['model']]


def gradient(c):
    net = make(c)
    g = ns.gen(c['dseed'])
    x = image(c, g).requires_grad_(True)
    net.eval()
    net(x)
    fill(net, g)
    names = [k for k, v in sorted(net.named_parameters())]
    objs = dict(net.named_parameters())
    leaves = [objs[k] for k in names] + [x]
    w = ns.randn(g, [c['batch'], c['classes']])
    res = []
    for f in [lambda: net(x), lambda: compose(net, c, x)]:
        loss = (w * f()).sum()
        res.append((float(loss.detach()), torch.autograd.grad(loss, leaves, allow_unused=True)))
    # strongly amplified rounding errors cannot be compared
    if not max([float(x.abs().max()) for x in res[1][1] if x is not None and x.numel()] + [abs(res[1][0])]) < 1e3:
        return None
    for n, a, b in zip(names + ['input'], res[0][1], res[1][1]):
        if (a is None) != (b is None):
            fail('gradient of {}: {} instead of {}', n, a, b)
        if a is not None:
            ns.close(a, b, 'gradient of ' + n, rtol=1e-8, atol=1e-8)
    return [c['model']]


@st.composite
def bad_case(draw):
    c = draw(case())
    c['more'] = draw(st.sampled_from([-1, 1]))
    return c


def rejected(c):
    c = dict(c)
    c['ps'] = c['ps'][:-1] if c['more'] < 0 else c['ps'] + [[2, 2]]
    try:
        make(c)
    except ValueError:
        return True
    fail('a different number of particle sizes and layers was accepted')


SUBS = [
    Sub('composition', case(), composition, 160, 4000, 'random networks and images, compared with the composition of the parts; every case counts', shards=6),
    Sub('gradient', case(max_layers=2), gradient, 30, 800, 'random networks; every case counts', shards=4),
    Sub('training', par_case(), training, 40, 1000, 'sequences of evaluations and optimizer steps; every case counts', shards=4),
    Sub('rejected', bad_case(), rejected, 20, 200, 'inconsistent settings; every case counts'),
]
