"""Saving, restoring, copying and casting of blocks."""
import copy
import io
import pickle
import torch
from pbt import Sub, st, fail
import ns
import others

H = 0.25


@st.composite
def case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=3, max_batch=2, conv_max=4))
    c['dataopt'] = draw(st.sampled_from(ns.MODELS[c['model']]['dataopt'])) if ns.MODELS[c['model']].get('dataopt') and draw(st.booleans()) else None
    c['vector'] = draw(st.booleans())
    c['how'] = draw(st.sampled_from(['state_dict', 'file', 'deepcopy', 'pickle', 'save']))
    c['before'] = draw(st.booleans())
    c['zero'] = draw(st.integers(0, 4)) == 0 and c['mode'] in ['particles', 'rnn']
    return c


def make(c, seed=0, fill=0.5):
    mk = {}
    if c['dataopt']:
        mk = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=c['dataopt'])
    kw = dict(max_integration_time=1.0)
    if c['zero']:
        kw['keep_initial_state_parameters_at_zero'] = True
    b = ns.mode_block(dict(c, seed=c['seed'] + seed), integrator=ns.make_integrator('rk4', step_size=H), fill=fill, model_kwargs=mk, **kw)
    if c['vector']:
        b.set_integration_time_vector(torch.tensor([0.0, 0.25, 1.0]), suppress_warning=bool(c['seed'] % 2))
    else:
        b.set_integration_time(0.75)
    return b


def cmp(c, got, exp, what, **tol):
    if c['mode'].startswith('pf'):
        # particles play no role, their values are not parameters
        ns.close(got[0], exp[0], what + ' returned value', **tol)
        ns.cmp_dicts(got[3], exp[3], what + ' data', **tol)
    else:
        ns.cmp_outputs(got, exp, what, **tol)


def through(obj, how):
    f = io.BytesIO()
    if how == 'pickle':
        f.write(pickle.dumps(obj))
        f.seek(0)
        return pickle.loads(f.read())
    torch.save(obj, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


def restore(c):
    """a restored or copied block is the same function; afterwards both are independent of each other"""
    b = make(c)
    x = ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']))
    if c['before'] and c['how'] != 'deepcopy':   # deepcopy of a block that holds the graph of its last evaluation is not supported by pytorch
        b(x=x)
    if c['how'] in ['state_dict', 'file']:
        sd = b.state_dict()
        if c['how'] == 'file':
            sd = through(sd, 'save')
        else:
            sd = copy.deepcopy(sd)
        missing = [k for k, _ in b.named_parameters() if k not in sd]
        if missing:
            fail('parameters {} are not saved', missing)
        r = make(c, seed=77, fill=0.3)
        if len(sd) % 2:
            r(x=x)
        res = r.load_state_dict(sd)
        if list(res.missing_keys) or list(res.unexpected_keys):
            fail('saved state does not fit: {}', res)
    elif c['how'] == 'deepcopy':
        r = copy.deepcopy(b)
    else:
        r = through(b, c['how'])
    e = b(x=x)
    g = r(x=x)
    cmp(c, g, e, c['how'], rtol=0, atol=0)
    ns.close(r.get_norm_penalty(), b.get_norm_penalty(), 'penalty', rtol=0, atol=0)
    pe, pg = dict(b.named_parameters()), dict(r.named_parameters())
    if sorted(pe) != sorted(pg):
        fail('parameters {} instead of {}', sorted(pg), sorted(pe))
    for k in pe:
        if pe[k] is pg[k] or pe[k].data_ptr() == pg[k].data_ptr():
            fail('parameter {} is shared', k)
        if pe[k].requires_grad != pg[k].requires_grad:
            fail('parameter {} is (not) optimized', k)
    # gradients reach the parameters of the restored block, not those of the original
    w = ns.randn(ns.gen(c['dseed'] + 5), e[0].shape)
    ((w * g[0]).sum() + r.get_norm_penalty()).backward()
    for k in pe:
        if pe[k].grad is not None:
            fail('the gradient of the restored block is at the original parameter {}', k)
    grads = {k: v.grad.clone() if v.grad is not None else None for k, v in pg.items()}
    ((w * e[0]).sum() + b.get_norm_penalty()).backward()
    for k in pe:
        if (pe[k].grad is None) != (grads[k] is None):
            fail('gradient of {} is missing', k)
        if grads[k] is not None:
            ns.close(grads[k], pe[k].grad, 'gradient of ' + k, rtol=1e-10, atol=1e-12)
    # change one of them: the other one stays the same; the changed one uses its new values
    with torch.no_grad():
        for k, v in sorted(pg.items()):
            v.copy_(ns.randn(ns.gen(c['dseed'] + 9), v.shape, 0.4))
    e2 = b(x=x)
    cmp(c, e2, e, 'original after the copy was changed', rtol=0, atol=0)
    g2 = r(x=x)
    fresh = make(c, seed=5)
    fresh.load_state_dict(r.state_dict())
    cmp(c, g2, fresh(x=x), 'changed copy', rtol=0, atol=0)
    return [c['how'], c['mode'], c['model']]


@st.composite
def cast_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=3, max_batch=2, conv_max=4))
    c['dataopt'] = draw(st.sampled_from(ns.MODELS[c['model']]['dataopt'])) if ns.MODELS[c['model']].get('dataopt') and draw(st.booleans()) else None
    c['vector'] = draw(st.booleans())
    c['zero'] = draw(st.integers(0, 4)) == 0 and c['mode'] in ['particles', 'rnn']
    c['ops'] = draw(st.lists(st.sampled_from(['float', 'double', 'to32', 'to64', 'cpu', 'half_model']), min_size=1, max_size=4))
    c['default'] = draw(st.booleans())
    return c


def types(out, dt):
    if out[0].dtype != dt:
        fail('the result has type {} instead of {}', out[0].dtype, dt)
    for d, what in zip(out[1:], ['state', 'costate', 'data']):
        for bl in d:
            for k in d[bl]:
                if d[bl][k].dtype != dt:
                    fail('{} {} has type {} instead of {}', what, k, d[bl][k].dtype, dt)


def cast(c):
    """after casts: results have the type of the block and are (up to precision) the same; parameters are still trained"""
    b = make(c)
    x = ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']))
    e = b(x=x)
    dt = torch.float64
    low = False
    # single precision parameters, compared in double precision
    ref = make(c)
    n = 0
    for op in c['ops']:
        if op == 'float':
            b.float()
            dt = torch.float32
        elif op == 'double':
            b.double()
            dt = torch.float64
        elif op == 'to32':
            b.to(torch.float32)
            dt = torch.float32
        elif op == 'to64':
            b.to(dtype=torch.float64)
            dt = torch.float64
        elif op == 'cpu':
            r = b.to('cpu')
            if r is not b:
                fail('to does not return the block')
        else:
            continue
        low = low or dt == torch.float32
        for k, v in b.named_parameters():
            if v.dtype != dt:
                fail('parameter {} has type {} instead of {}', k, v.dtype, dt)
        # with or without changing the default type accordingly
        if c['default']:
            torch.set_default_dtype(dt)
        try:
            g = b(x=x.to(dt))
        finally:
            torch.set_default_dtype(torch.float64)
        types(g, dt)
        if low:
            with torch.no_grad():
                p = dict(b.named_parameters())
                for k, v in ref.named_parameters():
                    v.copy_(p[k].double())
            exp = ref(x=x.to(dt).double())
        else:
            exp = e
        big = max(float(d[bl][k].detach().abs().max()) for d in exp[1:] for bl in d for k in d[bl])
        if not big < 50:
            return None
        if dt == torch.float32:
            cmp(c, g, exp, 'single precision', rtol=2e-3, atol=2e-4)
        else:
            cmp(c, g, exp, 'double precision', rtol=1e-9, atol=1e-10)
        gr = torch.autograd.grad(g[0].sum() + b.get_norm_penalty(), list(b.parameters()), allow_unused=True)
        if all(x is None for x in gr):
            fail('no gradients after a cast')
        n += 1
    return [c['mode']] if n else None


@st.composite
def chain_case(draw):
    c = draw(ns.model_cfg(nls=ns.SMOOTH_NL, max_particles=3, max_dim=2, max_size=2, conv_max=4))
    c['batch'] = draw(st.integers(1, 2))
    c['vector'] = draw(st.booleans())
    c['len'] = draw(st.sampled_from([2, 2, 3]))
    c['ops'] = draw(st.lists(st.sampled_from(['float', 'double', 'to32', 'to64', 'cpu']), min_size=1, max_size=3))
    c['default'] = draw(st.booleans())
    c['zero'] = draw(st.sampled_from([False, False, True]))
    c['dseed'] = draw(ns.seeds)
    c['before'] = draw(st.booleans())
    return c


def chain(c):
    """casts of all blocks of a chain"""
    f = ns.in_features(c)

    def blocks():
        ret = []
        for i in range(c['len']):
            b = ns.make_block(dict(c, seed=c['seed'] + i), name='b%d' % i, integrator=ns.make_integrator('rk4', step_size=H), total_feat=(i + 1) * f, keep_initial_state_parameters_at_zero=c['zero'])
            ns.set_state(b, c, ns.gen(c['dseed'] + i), 0.4)
            b.set_integration_time(0.5)
            if c['vector'] and i == c['len'] - 1:
                b.set_integration_time_vector(torch.tensor([0.0, 0.25, 0.5]), suppress_warning=bool(c['seed'] % 2))
            ret.append(b)
        return ret

    def run(bs, x):
        out = bs[0](x=x)
        for b in bs[1:]:
            out = b(pass_through_state_dict_of_dicts=out[1], pass_through_costate_dict_of_dicts=out[2], data_dict_of_dicts=out[3])
        return out
    bs, ref = blocks(), blocks()
    x = ns.randn(ns.gen(c['dseed'] + 50), ns.data_shape(c, c['batch']))
    if c['before']:
        run(bs, x)
    dt = torch.float64
    for op in c['ops']:
        for b in bs:
            dict(float=b.float, double=b.double, to32=lambda: b.to(torch.float32), to64=lambda: b.to(dtype=torch.float64), cpu=lambda: b.to('cpu'))[op]()
        dt = dict(float=torch.float32, double=torch.float64, to32=torch.float32, to64=torch.float64, cpu=dt)[op]
    if c['default']:
        torch.set_default_dtype(dt)
    try:
        g = run(bs, x.to(dt))
    finally:
        torch.set_default_dtype(torch.float64)
    types(g, dt)
    with torch.no_grad():
        for b, r in zip(bs, ref):
            p = dict(b.named_parameters())
            for k, v in r.named_parameters():
                v.copy_(p[k].double())
    e = run(ref, x.to(dt).double())
    big = max(float(d[bl][k].detach().abs().max()) for d in e[1:] for bl in d for k in d[bl])
    if not big < 20:
        return None
    tol = dict(rtol=3e-3, atol=1e-3) if dt == torch.float32 else dict(rtol=1e-9, atol=1e-10)
    ns.cmp_outputs(g, e, 'chain in the new type', **tol)
    (g[0].sum() + sum(b.get_norm_penalty() for b in bs)).backward()
    for i, b in enumerate(bs):
        for k, v in b.named_parameters():
            if v.grad is None and k.startswith('p_'):
                fail('no gradient for {} of block {}', k, i)
            if v.grad is not None and v.grad.dtype != dt:
                fail('gradient of {} has type {}', k, v.grad.dtype)
    return [c['model'], str(dt)]


@st.composite
def net_case(draw):
    L = draw(st.integers(1, 2))
    return dict(ch=[1, 2][:L], n=draw(st.integers(1, 2)), blocks=[draw(st.integers(1, 2)) for _ in range(L)], model=draw(st.sampled_from(['conv', 'conv_updown'])), how=draw(st.sampled_from(['state_dict', 'save'])), seed=draw(ns.seeds), dseed=draw(ns.seeds), before=draw(st.booleans()), cast=draw(st.booleans()))


def network(c):
    """the same for residual networks"""
    import neuro_shooting.res_net as rn

    def make(seed):
        torch.manual_seed(seed)
        return rn.BasicResNet(nr_of_image_channels=1, layer_channels=list(c['ch']), nr_of_blocks_per_layer=list(c['blocks']), downsampling_stride=2, nonlinearity='tanh',
                              particle_sizes=[[4, 4], [2, 2]][:len(c['ch'])], nr_of_particles=c['n'], nr_of_classes=3, shooting_model=getattr(ns.sm, ns.MODELS[c['model']]['cls']),
                              integrator=ns.make_integrator('euler', step_size=0.5))
    net = make(c['seed'])
    x = ns.randn(ns.gen(c['dseed']), [2, 1, 4, 5])
    net.train()
    net(x)   # changes the running statistics
    net.eval()
    if c['how'] == 'state_dict':
        r = make(c['seed'] + 1)
        r.load_state_dict(copy.deepcopy(net.state_dict()))
        r.eval()
    else:
        r = through(net, 'save')
    e = net(x)
    ns.close(r(x), e, c['how'], rtol=0, atol=0)
    pe, pg = dict(net.named_parameters()), dict(r.named_parameters())
    if sorted(pe) != sorted(pg):
        fail('parameters {} instead of {}', sorted(pg), sorted(pe))
    r(x).sum().backward()
    if any(v.grad is not None for v in pe.values()):
        fail('gradients at the original network')
    if any(v.grad is None for v in pg.values()):
        fail('missing gradients')
    with torch.no_grad():
        for k, v in pg.items():
            v.add_(0.1)
    ns.close(net(x), e, 'original after the copy was changed', rtol=0, atol=0)
    if torch.equal(r(x), e):
        fail('changed parameters have no effect')
    if c['cast']:
        e = net(x).detach()
        net.float()
        y = net(x.float())
        if y.dtype != torch.float32:
            fail('result of type {} after casting', y.dtype)
        y.sum().backward()
        if any(v.grad is None or v.grad.dtype != torch.float32 for v in net.parameters()):
            fail('missing gradients after casting')
        if float(e.abs().max()) < 50:
            ns.close(y.double(), e, 'network in single precision', rtol=2e-2, atol=2e-2)
    return [c['how']]


SUBS = [
    Sub('restore', case(), restore, 400, 6000, 'random blocks in all modes and ways to save and copy; every case counts', shards=4),
    Sub('cast', cast_case(), cast, 200, 3000, 'random blocks and sequences of casts; non-trivial: at least one cast and nothing blows up', shards=3),
    Sub('chain', chain_case(), chain, 150, 2500, 'random chains of blocks and casts of all of them; non-trivial: nothing blows up', shards=3),
    Sub('network', net_case(), network, 60, 800, 'random residual networks; every case counts', shards=3),
    Sub('other_models', others.case(), others.restored, 60, 900, others.WHAT),
]
