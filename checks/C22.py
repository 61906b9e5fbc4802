"""Initializers: sizes, zero, constants, magnitude, given batches; and how blocks use them."""
import math
import torch
import torch.nn as nn
from pbt import Sub, st, fail
import ns
import neuro_shooting.parameter_initialization as pi

KINDS = dict(vector='VectorEvolutionParameterInitializer', vector_batch='VectorEvolutionSampleBatchParameterInitializer',
             conv='ConvolutionEvolutionParameterInitializer', conv_batch='ConvolutionEvolutionSampleBatchParameterInitializer')


@st.composite
def case(draw):
    c = dict(kind=draw(st.sampled_from(sorted(KINDS))), n=draw(st.integers(1, 4)), dim=draw(st.integers(1, 3)), mag=draw(st.sampled_from([0.0, 0.5, 0.05, 3.0])),
             how=draw(st.sampled_from(['create', 'create', 'like', 'size'])), what=draw(st.sampled_from(['random', 'zero', 'constant', 'both', 'custom'])),
             const=draw(st.sampled_from([0.0, 0.1, -2.5, 1.0, 0])), seed=draw(ns.seeds), defdim=draw(st.booleans()), dtype=draw(st.sampled_from(['float64', 'float32'])),
             shape=draw(st.lists(st.integers(1, 4), min_size=1, max_size=4)))
    if c['kind'].startswith('vector'):
        c['size'] = draw(st.integers(1, 4))
    else:
        c['size'] = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    c['tuple'] = draw(st.booleans())
    return c


def call(ini, c, like=None):
    kw = {}
    if c['what'] in ['zero', 'both']:
        kw['set_to_zero'] = True
    if c['what'] in ['constant', 'both']:
        kw['set_to_constant'] = c['const']
    if c['how'] == 'create':
        size = c['size'] if not isinstance(c['size'], list) else (tuple(c['size']) if c['tuple'] else list(c['size']))
        if not (c['defdim'] and c['dim'] == 1):
            kw['particle_dimension'] = c['dim']
        return ini.create_parameters(nr_of_particles=c['n'], particle_size=size, **kw)
    if c['how'] == 'like':
        return ini.create_parameters_like(like, **kw)
    return ini.create_parameters_of_size(size=tuple(c['shape']), **kw)


def create(c):
    shape = [c['n'], c['dim']] + (c['size'] if isinstance(c['size'], list) else [c['size']])
    g = ns.gen(c['seed'])
    batch = ns.randn(g, shape) if c['kind'].endswith('batch') else None
    dtype = getattr(torch, c['dtype'])

    def ini(mag):
        return getattr(pi, KINDS[c['kind']])(only_random_initialization=(c['what'] != 'custom'), random_initialization_magnitude=mag, sample_batch=batch)
    like = torch.full(c['shape'], 7.0, dtype=dtype) if c['how'] == 'like' else None
    torch.manual_seed(c['seed'])
    if c['what'] in ['both', 'custom']:
        try:
            call(ini(c['mag']), c, like)
        except ValueError:
            return [c['what']]
        fail('contradicting or missing initialization was accepted')
    v = call(ini(c['mag']), c, like)
    exp_shape = shape if c['how'] == 'create' else c['shape']
    if not isinstance(v, nn.Parameter) or not v.requires_grad:
        fail('the result is not a parameter which can be optimized')
    if list(v.shape) != exp_shape:
        fail('shape {} instead of {}', tuple(v.shape), exp_shape)
    if c['how'] == 'like' and v.dtype != dtype:
        fail('type {} instead of {}', v.dtype, dtype)
    if like is not None and float((like - 7.0).abs().max()) != 0:
        fail('the given tensor was changed')
    if like is not None and v.data_ptr() == like.data_ptr():
        fail('the given tensor is used as parameter')
    if c['what'] == 'zero':
        if float(v.abs().max()) != 0:
            fail('values are not zero')
    elif c['what'] == 'constant':
        ns.close(v, torch.full(exp_shape, float(c['const']), dtype=v.dtype), 'constant', rtol=1e-6, atol=0)
    else:
        offset = batch if (batch is not None and c['how'] == 'create') else torch.zeros(exp_shape)
        # proportional to the magnitude, centered at the given batch (or zero)
        torch.manual_seed(c['seed'])
        u = call(ini(1.0), c, like)
        ns.close((v - offset), c['mag'] * (u - offset), 'random values', rtol=1e-5, atol=1e-6)
        # two parameters are different
        w = call(ini(1.0), c, like)
        if torch.equal(u, w):
            fail('the same values twice')
    return [c['kind'], c['how'], c['what']]


@st.composite
def stat_case(draw):
    return dict(kind=draw(st.sampled_from(sorted(KINDS))), how=draw(st.sampled_from(['create', 'like', 'size'])), mag=draw(st.sampled_from([0.05, 0.5, 2.0])), default=draw(st.booleans()), seed=draw(ns.seeds))


def statistics(c):
    """random values have mean zero (or the batch), the given standard deviation, and are normally distributed"""
    n = 40
    size = 50 if c['kind'].startswith('vector') else [10, 5]
    shape = [n, 10] + (size if isinstance(size, list) else [size])
    batch = 5.0 * torch.ones(shape) if c['kind'].endswith('batch') else None
    kw = {} if c['default'] else dict(random_initialization_magnitude=c['mag'])
    ini = getattr(pi, KINDS[c['kind']])(sample_batch=batch, **kw)
    mag = 0.5 if c['default'] else c['mag']
    torch.manual_seed(c['seed'])
    v = call(ini, dict(c, what='random', n=n, dim=10, size=size, defdim=False, tuple=False, shape=shape), torch.zeros(shape))
    off = 5.0 if (batch is not None and c['how'] == 'create') else 0.0
    z = (v.detach() - off).reshape(-1) / mag
    k = z.numel()
    if abs(float(z.mean())) > 6.0 / math.sqrt(k) or abs(float(z.std()) - 1) > 6.0 / math.sqrt(2 * k):
        fail('mean {} and standard deviation {} (in multiples of the magnitude)', float(z.mean()), float(z.std()))
    frac = float((z.abs() < 1).double().mean())
    if abs(frac - 0.6827) > 6 * 0.47 / math.sqrt(k):
        fail('not normally distributed')
    return [c['kind']]


@st.composite
def block_case(draw):
    c = draw(ns.model_cfg(nls=['tanh'], weights_=ns.wide_weights))
    c['smag'] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    c['pmag'] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    c['set'] = draw(st.sampled_from(['constructor', 'setter', 'default']))
    return c


def in_block(c):
    """states come from the state initializer, costates from the costate initializer, with the sizes of the model"""
    spec = ns.MODELS[c['model']]
    cls = pi.VectorEvolutionParameterInitializer if spec['kind'] == 'vector' else pi.ConvolutionEvolutionParameterInitializer
    log = []

    def recording(tag, mag):
        class R(cls):
            def create_parameters(self, *a, **k):
                r = super(R, self).create_parameters(*a, **k)
                log.append((tag, r))
                return r

            def create_parameters_like(self, *a, **k):
                r = super(R, self).create_parameters_like(*a, **k)
                log.append((tag, r))
                return r
        return R(random_initialization_magnitude=mag)
    si, ci = recording('state', c['smag']), recording('costate', c['pmag'])
    torch.manual_seed(c['seed'])
    if c['set'] == 'constructor':
        m = ns.make_model(c, state_initializer=si, costate_initializer=ci)
    else:
        m = ns.make_model(c, state_initializer=None, costate_initializer=None)
        if c['set'] == 'setter':
            m.set_state_initializer(si)
            m.set_costate_initializer(ci)
            if m.get_state_initializer() is not si or m.get_costate_initializer() is not ci:
                fail('another initializer is used')
    b = ns.sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator=ns.make_integrator())
    named = dict(b.named_parameters())
    exp = set()
    for q in spec['states']:
        for k in [q, 'p_' + q]:
            exp.add(k)
            if k not in named:
                fail('there is no parameter {}', k)
            if list(named[k].shape) != ns.state_shape(c, spec['states'][q]):
                fail('parameter {} has shape {}', k, tuple(named[k].shape))
            mag = c['smag'] if k == q else c['pmag']
            if c['set'] != 'default':
                if (float(named[k].detach().abs().max()) == 0) != (mag == 0.0):
                    fail('parameter {} was not initialized with magnitude {}', k, mag)
                if not any(t == ('state' if k == q else 'costate') and torch.equal(r, named[k]) for t, r in log):
                    fail('parameter {} is not what the initializer gave', k)
            elif float(named[k].detach().abs().max()) == 0:
                fail('parameter {} is zero', k)
    if set(named) != exp:
        fail('parameters {} instead of {}', sorted(named), sorted(exp))
    return [c['model'], c['set']]


@st.composite
def bad_case(draw):
    return dict(kind=draw(st.sampled_from(['conv', 'conv_batch'])), what=draw(st.sampled_from(['random', 'zero', 'constant'])), size=draw(st.integers(1, 5)), const=1.0)


def rejected(c):
    """particles of convolutional models need a size per dimension"""
    ini = getattr(pi, KINDS[c['kind']])(sample_batch=torch.zeros(1))
    try:
        call(ini, dict(c, how='create', n=2, dim=1, defdim=False))
    except ValueError:
        return True
    fail('a scalar size was accepted')


QUICK_SCALE = 4

SUBS = [
    Sub('create', case(), create, 800, 12000, 'random initializers, sizes, kinds of values; every case counts', shards=2),
    Sub('statistics', stat_case(), statistics, 100, 1000, 'random initializers and magnitudes with many values; every case counts'),
    Sub('in_block', block_case(), in_block, 250, 3000, 'random models; every case counts', shards=2),
    Sub('rejected', bad_case(), rejected, 20, 60, 'scalar sizes; every case counts'),
]
