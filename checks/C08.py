"""Containers of states, costates and data: vectorization, concatenation, merging, zero padding."""
import copy
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail, need
import ns
import neuro_shooting.state_costate_and_data_dictionary_utils as scd
import neuro_shooting.overwrite_classes as oc

names = st.text(alphabet='abqpz_12', min_size=1, max_size=4)


@st.composite
def dd(draw, min_blocks=1, max_blocks=3, min_keys=1, max_keys=3, ndim=None, min_size=1):
    ret = []
    for b in draw(st.lists(names, min_size=min_blocks, max_size=max_blocks, unique=True)):
        ks = draw(st.lists(names, min_size=min_keys, max_size=max_keys, unique=True))
        ret.append([b, [[k, draw(st.lists(st.integers(min_size, 3), min_size=ndim or 1, max_size=ndim or 4))] for k in ks]])
    return ret


def build(spec, g, layout='plain'):
    ret = SortedDict()
    for b, ks in spec:
        ret[b] = SortedDict()
        for k, shape in ks:
            if layout == 'transposed' and len(shape) > 1:
                t = ns.randn(g, list(reversed(shape))).permute(*reversed(range(len(shape))))
            elif layout == 'expanded':
                t = ns.randn(g, [1] + list(shape[1:])).expand(*shape)
            else:
                t = ns.randn(g, shape)
            ret[b][k] = t
    return ret


def same(a, b, what):
    if list(a) != list(b):
        fail('{}: blocks {} instead of {}', what, list(a), list(b))
    for k in b:
        if list(a[k]) != list(b[k]):
            fail('{}: entries {} instead of {}', what, list(a[k]), list(b[k]))
        for m in b[k]:
            if a[k][m].shape != b[k][m].shape or not torch.equal(a[k][m], b[k][m]):
                fail('{}: entry {}/{} is not recovered', what, k, m)


@st.composite
def asm_case(draw):
    mz = draw(st.sampled_from([1, 1, 1, 0]))
    return dict(s=draw(dd(min_size=mz)), p=draw(dd(min_size=mz)), d=draw(dd(min_size=mz)), seed=draw(ns.seeds), layout=draw(st.sampled_from(['plain', 'plain', 'transposed', 'expanded'])),
                T=draw(st.integers(1, 4)), via=draw(st.sampled_from(['functions', 'integrand', 'integrand_auto'])))


def vectorize(c):
    g = ns.gen(c['seed'])
    s, p, d = build(c['s'], g, c['layout']), build(c['p'], g, c['layout']), build(c['d'], g, c['layout'])
    keep = copy.deepcopy((s, p, d))
    if c['via'] == 'functions':
        v, plan = scd.assemble_tensor(s, p, d)
        back = lambda x, dim: scd.disassemble_tensor(x, plan, dim=dim)
    else:
        m = ns.sm.AutoShootingIntegrandModelSimple(in_features=2, nonlinearity='tanh')
        v, plan = m.assemble_tensor(s, p, d)
        if c['via'] == 'integrand':
            back = lambda x, dim: m.disassemble_tensor(x, plan, dim=dim)
        else:
            m.set_auto_assembly_plans(plan)
            back = lambda x, dim: m.disassemble_tensor(x, dim=dim)
    total = sum(t.numel() for x in [s, p, d] for b in x.values() for t in b.values())
    if tuple(v.shape) != (total,):
        fail('vector of shape {} for {} numbers', tuple(v.shape), total)
    for a, b, what in zip(back(v, 0), (s, p, d), ['state', 'costate', 'data']):
        same(a, b, what)
    # several times
    vt = torch.stack([v * (i + 1) for i in range(c['T'])])
    for a, b, what in zip(back(vt, 1), (s, p, d), ['state', 'costate', 'data']):
        for i in range(c['T']):
            same(ns.at_time(a, i), SortedDict({k: SortedDict({q: b[k][q] * (i + 1) for q in b[k]}) for k in b}), what + ' at several times')
    # and the other way round: vector -> containers -> vector
    w = ns.randn(g, [total])
    a = back(w, 0)
    v2, _ = scd.assemble_tensor(*a)
    if not torch.equal(v2, w):
        fail('a vector which is taken apart and put together again has changed')
    # independent of the order of insertion, input unchanged
    rev = [SortedDict({b: SortedDict({k: x[b][k] for k in reversed(list(x[b]))}) for b in reversed(list(x))}) for x in (s, p, d)]
    v3, _ = scd.assemble_tensor(*rev)
    if not torch.equal(v3, v):
        fail('vector depends on the order of insertion')
    for a, b in zip((s, p, d), keep):
        same(a, b, 'input was changed:')
    return [c['via'], c['layout']] if total > 3 else None


@st.composite
def cat_case(draw):
    ndim = draw(st.integers(1, 5))
    dim = draw(st.integers(0, ndim - 1))
    keys = draw(st.lists(names, min_size=1, max_size=3, unique=True))
    blocks = draw(st.lists(names, min_size=1, max_size=4, unique=True))
    shapes = {k: draw(st.lists(st.integers(1, 3), min_size=ndim, max_size=ndim)) for k in keys}
    spec = []
    for b in blocks:
        ks = []
        for k in keys:
            sh = list(shapes[k])
            sh[dim] = draw(st.integers(1, 3))
            ks.append([k, sh])
        spec.append([b, ks])
    return dict(spec=spec, dim=dim, seed=draw(ns.seeds), prefix=draw(st.sampled_from(['', '', 'dot_', 'p_'])))


def concatenate(c):
    """concatenation of the same entry of all blocks, and its inverse"""
    cat = need(scd, '_concatenate_dict_of_dicts')
    split = need(scd, '_deconcatenate_based_on_generic_dict_of_dicts')
    g = ns.gen(c['seed'])
    x = build(c['spec'], g)
    keep = copy.deepcopy(x)
    r = cat(generic_dict_of_dicts=x, concatenation_dim=c['dim'])
    keys = list(x.peekitem(0)[1])
    if list(r) != keys:
        fail('keys {} instead of {}', list(r), keys)
    for k in keys:
        e = torch.cat([x[b][k] for b in sorted(x)], dim=c['dim'])
        if e.shape != r[k].shape or not torch.equal(e, r[k]):
            fail('concatenation of {} is wrong', k)
    rr = SortedDict({c['prefix'] + k: r[k] for k in r})
    back = split(concatenated_dict=rr, generic_dict_of_dicts=x, concatenation_dim=c['dim'])
    same(back, SortedDict({b: SortedDict({c['prefix'] + k: x[b][k] for k in x[b]}) for b in x}), 'taken apart again')
    same(x, keep, 'input was changed:')
    nm = need(scd, '_concatenate_named_dict_of_dicts_keeping_structure')(generic_dict_of_dicts=x, concatenation_dim=c['dim'], block_name='new')
    same(nm, SortedDict({'new': r}), 'named concatenation')
    return ['dim%d' % c['dim']] if len(c['spec']) > 1 else None


@st.composite
def bad_case(draw):
    c = draw(cat_case())
    c['how'] = draw(st.sampled_from(['shape', 'key', 'plan', 'dimension', 'type', 'clash']))
    return c


def rejected(c):
    """inconsistent containers are rejected, not silently mixed up"""
    g = ns.gen(c['seed'])
    x = build(c['spec'], g)
    try:
        if c['how'] == 'shape':
            if len(x) < 2:
                return None
            k = list(x.peekitem(0)[1])[0]
            b = list(x)[1]
            sh = list(x[b][k].shape)
            if len(sh) < 2:
                return None
            other = (c['dim'] + 1) % len(sh)
            sh[other] += 1
            x[b][k] = torch.zeros(sh)
            need(scd, '_concatenate_dict_of_dicts')(generic_dict_of_dicts=x, concatenation_dim=c['dim'])
        elif c['how'] == 'key':
            if len(x) < 2:
                return None
            x[list(x)[1]]['another'] = torch.zeros(2)
            need(scd, '_concatenate_dict_of_dicts')(generic_dict_of_dicts=x, concatenation_dim=c['dim'])
        elif c['how'] == 'plan':
            scd.disassemble_tensor(torch.zeros(4))
        elif c['how'] == 'dimension':
            v, plan = scd.assemble_tensor(x, x, x)
            scd.disassemble_tensor(v, plan, dim=2)
        elif c['how'] == 'type':
            y = SortedDict({b: dict(x[b]) for b in x})
            scd.assemble_tensor(y, x, x)
        elif c['how'] == 'clash':
            b = list(x)[-1]
            need(scd, '_merge_state_costate_or_data_dict_with_generic_dict_of_dicts')(generic_dict=x[b], generic_dict_of_dicts=x, generic_dict_block_name=b)
    except ValueError:
        return [c['how']]
    fail('inconsistent containers were accepted: {}', c['how'])


@st.composite
def merge_case(draw):
    spec = draw(dd(min_blocks=0, max_blocks=3))
    return dict(spec=spec, own=draw(st.booleans()), none=draw(st.sampled_from([False, False, True])), seed=draw(ns.seeds), keys=draw(st.lists(names, min_size=1, max_size=3, unique=True)))


def merge(c):
    m = need(scd, '_merge_state_costate_or_data_dict_with_generic_dict_of_dicts')
    g = ns.gen(c['seed'])
    x = build(c['spec'], g)
    keep = copy.deepcopy(x)
    own = SortedDict({k: ns.randn(g, [2, 3]) for k in c['keys']}) if c['own'] else None
    r = m(generic_dict=own, generic_dict_of_dicts=None if c['none'] else x, generic_dict_block_name='BLOCK')
    e = SortedDict() if c['none'] else SortedDict({b: x[b] for b in x})
    if own is not None:
        e['BLOCK'] = own
    same(r, e, 'merged')
    # changing the result does not change what was given
    for b in r:
        if b != 'BLOCK':
            r[b]['zzz'] = torch.zeros(1)
    same(x, keep, 'input was changed:')
    return True if own is not None and len(x) and not c['none'] else None


@st.composite
def tuple_case(draw):
    return dict(spec=draw(dd()), seed=draw(ns.seeds), prefix=draw(st.sampled_from(['', 'dot_', 'p_'])),
                layers=draw(st.lists(st.tuples(st.sampled_from(['l', 'ln', 'conv', 'convn', 'gn', 'gnn']), st.integers(1, 3), st.integers(1, 3)).map(list), min_size=1, max_size=3)))


def make_layer(spec):
    k, a, b = spec
    if k == 'l':
        return oc.SNN_Linear(a, b)
    if k == 'ln':
        return oc.SNN_Linear(a, b, bias=False)
    if k == 'conv':
        return oc.SNN_Conv2d(a, b, 3)
    if k == 'convn':
        return oc.SNN_Conv2d(a, b, 3, bias=False)
    if k == 'gn':
        return oc.SNN_GroupNorm(a, a * b)
    return oc.SNN_GroupNorm(a, a * b, affine=False)


def tuples(c):
    """tuples of entries (for automatic differentiation) and back"""
    g = ns.gen(c['seed'])
    x = build(c['spec'], g)
    t = scd.compute_tuple_from_generic_dict_of_dicts(x)
    if len(t) != sum(len(x[b]) for b in x):
        fail('tuple has {} entries', len(t))
    r = scd.extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(t, x, prefix=c['prefix'])
    same(r, SortedDict({b: SortedDict({c['prefix'] + k: x[b][k] for k in x[b]}) for b in x}), 'tuple')
    for b in x:
        t = scd.compute_tuple_from_generic_dict(x[b])
        r = scd.extract_dict_from_tuple_based_on_generic_dict(t, x[b], prefix=c['prefix'])
        same(SortedDict({b: r}), SortedDict({b: SortedDict({c['prefix'] + k: x[b][k] for k in x[b]})}), 'tuple')
        for k in x[b]:
            e = scd.extract_key_from_dict_of_dicts(x, k)
            if len(x) == 1:
                if e is not x[b][k]:
                    fail('extracting {} does not return the entry', k)
            else:
                for bb in x:
                    if (k in x[bb]) != (k in e[bb]) or (k in x[bb] and e[bb][k] is not x[bb][k]) or set(e[bb]) - {k}:
                        fail('extracting {} is wrong for block {}', k, bb)
    po = SortedDict({'layer%d' % i: make_layer(s) for i, s in enumerate(c['layers'])})
    t = scd.compute_tuple_from_parameter_objects(po)
    r = scd.extract_dict_from_tuple_based_on_parameter_objects(t, po, prefix=c['prefix'])
    n = 0
    for o in po:
        pd = po[o].get_parameter_dict()
        if sorted(r[o]) != sorted(c['prefix'] + k for k in pd):
            fail('parameters {} of {}', sorted(r[o]), o)
        for k in pd:
            n += 1
            if r[o][c['prefix'] + k] is not pd[k]:
                fail('parameter {}.{} is not recovered', o, k)
    if n != len(t):
        fail('tuple of parameters has {} entries instead of {}', len(t), n)
    return True


@st.composite
def pad_case(draw):
    m = draw(ns.model_cfg(nls=['tanh'], weights_=st.just(1.0)))
    m['lead'] = draw(st.lists(st.integers(1, 3), min_size=0, max_size=2)) if ns.MODELS[m['model']]['kind'] == 'vector' else []
    m['feat2'] = draw(st.integers(1, 3))
    m['batch'] = draw(st.integers(1, 4))
    m['dseed'] = draw(ns.seeds)
    return m


def padding(c):
    """data for the own particles of a block which gets data from another block starts at zero with matching sizes"""
    # a block with feat features for its own particles gets the states of a first one with feat2 features
    g = ns.gen(c['dseed'])
    spec = ns.MODELS[c['model']]
    feat = c['size'] if spec['kind'] == 'vector' else c['dim']
    total = feat + c['feat2']
    cc = dict(c)
    block = ns.make_block(cc, integrator=ns.make_integrator('euler', step_size=0.5), total_feat=total)
    s, p, d = SortedDict(), SortedDict(), SortedDict()
    s['first'], p['first'], d['first'] = SortedDict(), SortedDict(), SortedDict()
    for q in sorted(spec['states']):
        sh = ns.state_shape(c, spec['states'][q], c['feat2'])
        s['first'][q] = ns.randn(g, sh)
        p['first']['p_' + q] = ns.randn(g, sh)
        d['first'][q] = ns.randn(g, [c['batch']] + c['lead'] + sh[1:])
    keep = ns.detached(d)
    block.set_integration_time_vector(torch.tensor([0.0, 0.5]), suppress_warning=bool(c['seed'] % 2))
    with torch.no_grad():
        out = block(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=d)
    same(d, keep, 'data of the caller was changed:')
    s0, p0 = ns.own_particles(block, c)
    for q in sorted(spec['states']):
        ax = -1 if spec['kind'] == 'vector' else -3
        got = ns.single(out[3])[q][0]
        own = list(d['first'][q].shape)
        own[ax] = s0[q].shape[ax]
        # blocks are ordered by name: 'block' < 'first'
        e = torch.cat([torch.zeros(own), d['first'][q]], dim=ax)
        ns.close(got, e, 'initial data {} of two blocks'.format(q), rtol=1e-12, atol=1e-12)
        ns.close(ns.single(out[1])[q][0], torch.cat([s0[q], s['first'][q]], dim=ax), 'initial state {} of two blocks'.format(q), rtol=1e-12, atol=1e-12)
        ns.close(ns.single(out[2])['p_' + q][0], torch.cat([p0[q], p['first']['p_' + q]], dim=ax), 'initial costate {} of two blocks'.format(q), rtol=1e-12, atol=1e-12)
    return [c['model']]


QUICK_SCALE = 4

SUBS = [
    Sub('vectorize', asm_case(), vectorize, 600, 10000, 'random containers, memory layouts and numbers of times; non-trivial: more than three numbers', shards=2),
    Sub('concatenate', cat_case(), concatenate, 500, 8000, 'random blocks with different sizes along the concatenated dimension; non-trivial: more than one block', shards=2),
    Sub('rejected', bad_case(), rejected, 200, 2000, 'inconsistent containers', shards=1),
    Sub('merge', merge_case(), merge, 300, 3000, 'random containers; non-trivial: both parts present', shards=1),
    Sub('tuples', tuple_case(), tuples, 300, 4000, 'random containers and layers; every case counts', shards=1),
    Sub('padding', pad_case(), padding, 150, 2000, 'random blocks which get states and data from another one; every case counts', shards=2),
]
