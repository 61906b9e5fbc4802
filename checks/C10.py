"""Layers without registered parameters behave as their torch.nn counterparts with the same parameters."""
import copy
import torch
import torch.nn as nn
import torch.nn.functional as F
from pbt import Sub, st, fail
import ns
import neuro_shooting.overwrite_classes as oc
import neuro_shooting.shooting_integrands as si
import neuro_shooting.utils as ut


def one_or_two(m):
    return st.one_of(st.integers(1, m), st.lists(st.integers(1, m), min_size=2, max_size=2))


@st.composite
def layer_cfg(draw):
    kind = draw(st.sampled_from(['linear', 'dampening', 'conv', 'conv', 'gn']))
    c = dict(kind=kind, seed=draw(ns.seeds), weight=draw(st.sampled_from([None, 1.0, 0.5, 3.0])))
    if kind in ['linear', 'dampening']:
        c.update(i=draw(st.integers(1, 5)), o=draw(st.integers(1, 5)), bias=draw(st.booleans()), lead=draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)))
    elif kind == 'conv':
        groups = draw(st.integers(1, 2))
        k = [draw(st.integers(1, 3)), draw(st.integers(1, 3))]
        c.update(i=groups * draw(st.integers(1, 2)), o=groups * draw(st.integers(1, 2)), groups=groups, k=k, bias=draw(st.booleans()),
                 stride=draw(one_or_two(3)), dilation=draw(one_or_two(2)), padding=[draw(st.integers(0, 2)), draw(st.integers(0, 2))],
                 mode=draw(st.sampled_from(['zeros', 'zeros', 'circular', 'reflect', 'replicate'])), n=draw(st.integers(1, 3)), hw=[draw(st.integers(5, 8)), draw(st.integers(5, 8))])
    else:
        g = draw(st.integers(1, 3))
        c.update(g=g, ch=g * draw(st.integers(1, 2)), affine=draw(st.booleans()), eps=draw(st.sampled_from([1e-5, 1e-2, 1e-9, 0.5])), n=draw(st.integers(1, 3)), hw=[draw(st.integers(2, 4)), draw(st.integers(2, 4))])
    # settings which are not given, neither to the layer nor to its counterpart
    c['omit'] = draw(st.lists(st.sampled_from(sorted(DEFAULTS[kind])), unique=True, max_size=3)) if draw(st.integers(0, 3)) == 0 else []
    c.update({k: DEFAULTS[kind][k] for k in c['omit']})
    if kind == 'conv' and 'groups' in c['omit']:
        c.update(i=draw(st.integers(1, 4)), o=draw(st.integers(1, 4)))
    return c


DEFAULTS = dict(linear=dict(bias=True), dampening=dict(bias=True), conv=dict(bias=True, stride=1, padding=[0, 0], dilation=1, groups=1, mode='zeros'), gn=dict(affine=True, eps=1e-5))
ARG = dict(mode='padding_mode')


def make(c):
    """(layer of the library, counterpart of torch without removed parameters)"""
    torch.manual_seed(c['seed'])
    if c['kind'] in ('linear', 'dampening'):
        kw = dict(bias=c['bias'])
    elif c['kind'] == 'conv':
        two = lambda v: tuple(v) if isinstance(v, list) else v
        kw = dict(kernel_size=tuple(c['k']), stride=two(c['stride']), padding=tuple(c['padding']), dilation=two(c['dilation']), groups=c['groups'], bias=c['bias'], padding_mode=c['mode'])
    else:
        kw = dict(affine=c['affine'], eps=c['eps'])
    for k in c.get('omit', []):
        del kw[ARG.get(k, k)]
    wt = {} if c['weight'] is None and c.get('omit') else dict(weight=c['weight'])
    if c['kind'] == 'linear':
        return oc.SNN_Linear(c['i'], c['o'], **kw, **wt), nn.Linear(c['i'], c['o'], **kw)
    if c['kind'] == 'dampening':
        return oc.SNN_LinearDampening(c['i'], c['o'], **kw, **wt), nn.Linear(c['i'], c['o'], **kw)
    if c['kind'] == 'conv':
        return oc.SNN_Conv2d(c['i'], c['o'], **kw, **wt), nn.Conv2d(c['i'], c['o'], **kw)
    return oc.SNN_GroupNorm(c['g'], c['ch'], **kw, **wt), nn.GroupNorm(c['g'], c['ch'], **kw)


def inputs(c, g, dtype=torch.float64):
    if c['kind'] == 'linear':
        return (ns.randn(g, c['lead'] + [c['i']], dtype=dtype),)
    if c['kind'] == 'dampening':
        return (ns.randn(g, c['lead'] + [c['i']], dtype=dtype), ns.randn(g, c['lead'] + [c['o']], dtype=dtype))
    return (ns.randn(g, [c['n'], c['i'] if c['kind'] == 'conv' else c['ch']] + c['hw'], dtype=dtype),)


def expected(c, ref, pars, args):
    """evaluates the counterpart with the given parameters"""
    sd = {k: v.detach() for k, v in pars.items() if k != 'dampening'}
    ref = copy.deepcopy(ref).to(args[0].dtype)
    ref.load_state_dict(sd)
    y = ref(args[0])
    if c['kind'] == 'dampening':
        y = y - pars['dampening'].detach() * args[1]
    return y


@st.composite
def fwd_case(draw):
    c = draw(layer_cfg())
    c['how'] = draw(st.sampled_from(['initial', 'filled', 'replaced']))
    c['dseed'] = draw(ns.seeds)
    return c


def names_of(c):
    n = []
    if c['kind'] == 'gn':
        return ['bias', 'weight'] if c['affine'] else []
    n = ['weight'] + (['bias'] if c['bias'] else []) + (['dampening'] if c['kind'] == 'dampening' else [])
    return sorted(n)


def forward(c):
    l, ref = make(c)
    g = ns.gen(c['dseed'])
    if list(l.parameters()) or list(l.named_parameters()):
        fail('the layer still has registered parameters')
    pars = l.get_parameter_dict()
    if sorted(pars) != names_of(c):
        fail('parameters {} instead of {}', sorted(pars), names_of(c))
    w = l.get_parameter_weight_dict()
    for k in pars:
        if w[k] != c['weight']:
            fail('weight of {} is {} instead of {}', k, w[k], c['weight'])
        if not pars[k].requires_grad:
            fail('parameter {} cannot be differentiated', k)
        if k != 'dampening' and tuple(pars[k].shape) != tuple(dict(ref.named_parameters())[k].shape):
            fail('shape of parameter {} is {}', k, tuple(pars[k].shape))
    if c['how'] == 'filled':
        with torch.no_grad():
            for k in pars:
                pars[k].copy_(ns.randn(g, pars[k].shape))
    elif c['how'] == 'replaced':
        for k in pars:
            pars[k] = ns.randn(g, pars[k].shape).requires_grad_(True)
    args = inputs(c, g)
    x = args[0].clone().requires_grad_(True)
    y = l(x, *args[1:])
    xr = args[0].clone().requires_grad_(True)
    e = expected(c, ref, l.get_parameter_dict(), (xr,) + args[1:])
    ns.close(y, e, 'output of the layer', rtol=1e-9, atol=1e-10)
    gw = ns.randn(g, y.shape)
    gx, = torch.autograd.grad((gw * y).sum(), [x], retain_graph=True)
    ge, = torch.autograd.grad((gw * e).sum(), [xr])
    ns.close(gx, ge, 'gradient wrt the input of the layer', rtol=1e-9, atol=1e-10)
    # gradients wrt the parameters by directional finite differences
    pars = l.get_parameter_dict()
    ks = sorted(pars)
    if ks:
        grads = torch.autograd.grad((gw * y).sum(), [pars[k] for k in ks])
        for k, gk in zip(ks, grads):
            v = ns.randn(g, pars[k].shape)
            keep = pars[k]
            vals = []
            for s in [1.0, -1.0]:
                pars[k] = (keep + s * 1e-4 * v).detach()
                vals.append(float((gw * l(*args)).sum()))
            pars[k] = keep
            ns.close(float((gk * v).sum()), (vals[0] - vals[1]) / 2e-4, 'gradient wrt ' + k, rtol=1e-6, atol=1e-6)
    return [c['kind'], c['how']]


@st.composite
def weight_case(draw):
    c = draw(layer_cfg())
    c['set'] = draw(st.lists(st.tuples(st.sampled_from(['weight', 'bias', 'dampening', 'nothing']), st.sampled_from([0.5, 2.0, 7.0, None])).map(list), min_size=1, max_size=4))
    return c


def weights(c):
    """individual weights are kept per parameter; unknown parameters are rejected; they do not leak to other layers"""
    l, _ = make(c)
    other, _ = make(c)
    exp = {k: c['weight'] for k in names_of(c)}
    for k, w in c['set']:
        try:
            l.add_weight(k, w)
            if k not in exp:
                fail('weight for a parameter {} which does not exist was accepted', k)
            exp[k] = w
        except ValueError:
            if k in exp:
                fail('weight for parameter {} was rejected', k)
        got = dict(l.get_parameter_weight_dict())
        if {k: got.get(k) for k in exp} != exp or set(got) - set(exp):
            fail('weights {} instead of {}', got, exp)
    # weights may be tensors, they follow the layer
    for k in sorted(exp):
        l.add_weight(k, torch.tensor(1.0 + len(k)))
    l.to(torch.float32 if c['seed'] % 2 else torch.float64)
    for k in exp:
        w = l.get_parameter_weight_dict()[k]
        if float(w) != 1.0 + len(k) or w.dtype != l.get_parameter_dict()[k].dtype:
            fail('weight {} of {} after a cast of the layer', w, k)
    got = dict(other.get_parameter_weight_dict())
    if any(got.get(k) != c['weight'] for k in names_of(c)):
        fail('weights of another layer were changed: {}', got)
    for w in [c['weight'], 2.0, None]:
        t = torch.tensor([1.0, -3.0])
        r = ut.divide_by_if_not_none(t, w)
        ns.close(r, t if w is None else t / w, 'weighted')
    return [c['kind']]


@st.composite
def cast_case(draw):
    c = draw(layer_cfg())
    c['ops'] = draw(st.lists(st.sampled_from(['float', 'double', 'to32', 'to64', 'todtype32', 'cpu', 'toarg', 'format', 'like']), min_size=1, max_size=4))
    c['meta'] = draw(st.sampled_from([None, None, 'to', 'kw', 'both']))
    c['dseed'] = draw(ns.seeds)
    return c


def cast(c):
    """casting a layer casts its parameters (and nothing else), the layer still works"""
    l, ref = make(c)
    g = ns.gen(c['dseed'])
    with torch.no_grad():
        for k, v in l.get_parameter_dict().items():
            v.copy_(ns.randn(g, v.shape))
    orig = {k: v.detach().clone() for k, v in l.get_parameter_dict().items()}
    dtype = torch.float64
    rounded = False
    for op in c['ops']:
        if op == 'float':
            r, dtype = l.float(), torch.float32
        elif op == 'double':
            r, dtype = l.double(), torch.float64
        elif op == 'to32':
            r, dtype = l.to(torch.float32), torch.float32
        elif op == 'to64':
            r, dtype = l.to(torch.float64), torch.float64
        elif op == 'todtype32':
            r, dtype = l.to(dtype=torch.float32), torch.float32
        elif op == 'toarg':
            r = l.to('cpu')
        elif op == 'format':
            r = l.to(memory_format=torch.channels_last)
            for k, v in l.get_parameter_dict().items():
                if v.dim() == 4 and not v.is_contiguous(memory_format=torch.channels_last):
                    fail('parameter {} does not have the requested memory format', k)
        elif op == 'like':
            r, dtype = l.to(torch.zeros(1, dtype=torch.float32)), torch.float32
        else:
            r = l.cpu()
        rounded = rounded or dtype == torch.float32
        if r is not l:
            fail('{} does not return the layer', op)
        if sorted(l.get_parameter_dict()) != names_of(c):
            fail('parameters after {}: {}', op, sorted(l.get_parameter_dict()))
        for k, v in l.get_parameter_dict().items():
            if v.dtype != dtype:
                fail('parameter {} has type {} after {}', k, v.dtype, op)
            e = orig[k].float().double() if rounded else orig[k]
            ns.close(v, e, 'value of parameter {} after {}'.format(k, op), rtol=1e-12, atol=0)
    args = inputs(c, g, dtype)
    y = l(*args)
    if y.dtype != dtype:
        fail('output has type {}', y.dtype)
    e = expected(c, ref, l.get_parameter_dict(), args)
    ns.close(y, e, 'output after casting', rtol=1e-5 if dtype == torch.float32 else 1e-9, atol=1e-5 if dtype == torch.float32 else 1e-10)
    if c.get('meta'):
        # another device
        if c['meta'] == 'to':
            l.to('meta')
        elif c['meta'] == 'kw':
            l.to(device=torch.device('meta'))
        else:
            l.to('meta', torch.float32)
            dtype = torch.float32
        for k, v in l.get_parameter_dict().items():
            if v.device.type != 'meta' or v.dtype != dtype:
                fail('parameter {} is on {} with type {} after moving it', k, v.device, v.dtype)
        y = l(*[a.to('meta', dtype) for a in args])
        if y.device.type != 'meta' or y.dtype != dtype:
            fail('the output is on {}', y.device)
    return [c['kind']]


QUICK_SCALE = 4

SUBS = [
    Sub('forward', fwd_case(), forward, 700, 12000, 'random layers, settings, parameters and inputs; every case counts', shards=4),
    Sub('weights', weight_case(), weights, 300, 4000, 'random sequences of weight settings; every case counts', shards=1),
    Sub('cast', cast_case(), cast, 300, 4000, 'random sequences of casts; every case counts', shards=2),
]
