"""Nonlinearities and the derivatives which belong to them."""
import math
import numpy as np
import torch
from pbt import Sub, st, fail
import ns
import neuro_shooting.activation_functions_and_derivatives as ad

NAMES = ['identity', 'relu', 'tanh', 'sigmoid', 'softmax']


def f_np(name, x):
    """float64 definitions, stable for all arguments"""
    x = np.asarray(x, dtype=np.float64)
    sg = np.where(x >= 0, 1.0 / (1.0 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1.0 + np.exp(-np.abs(x))))
    if name == 'identity':
        return x, np.ones_like(x)
    if name == 'relu':
        return np.maximum(x, 0.0), (x > 0).astype(float)
    if name == 'tanh':
        t = np.tanh(x)
        return t, 1.0 / np.cosh(np.minimum(np.abs(x), 300.0)) ** 2
    if name == 'sigmoid':
        return sg, sg * np.where(x >= 0, np.exp(-np.abs(x)), 1.0) / np.where(x >= 0, 1.0 + np.exp(-np.abs(x)), 1.0 + np.exp(-np.abs(x)))
    if name == 'softmax':
        one_minus = np.where(x >= 0, np.exp(-np.abs(x)) / (1.0 + np.exp(-np.abs(x))), 1.0 / (1.0 + np.exp(-np.abs(x))))
        return x * sg, sg + x * sg * one_minus
    raise KeyError(name)


# reference derivative of the sigmoid: s(1-s)
def ref(name, x):
    v, d = f_np(name, x)
    if name == 'sigmoid':
        d = v * f_np('sigmoid', -np.asarray(x, dtype=np.float64))[0]
    return v, d


@st.composite
def case(draw):
    name = draw(st.sampled_from(NAMES + [None]))
    spelled = name
    if name is not None:
        spelled = draw(st.sampled_from([name, name.upper(), name.capitalize()]))
    vals = draw(st.lists(st.one_of(st.floats(-6, 6), st.floats(-600, 600), st.sampled_from([0.0, 1e-6, -1e-6, 1e-3, -1e-3, 30.0, -30.0])), min_size=1, max_size=8))
    return dict(name=name, spelled=spelled, vals=vals, f32=draw(st.booleans()), shape=draw(st.sampled_from(['vector', 'column', 'three'])))


def tensor(c):
    x = torch.tensor(c['vals'], dtype=torch.float32 if c['f32'] else torch.float64)
    if c['shape'] == 'column':
        x = x.reshape(-1, 1)
    elif c['shape'] == 'three':
        x = x.reshape(1, -1, 1)
    return x


def values(c):
    x = tensor(c)
    keep = x.clone()
    nl, dnl = ad.get_nonlinearity(c['spelled'])
    v, d = nl(x), dnl(x)
    if not torch.equal(x, keep):
        fail('argument was changed')
    if v.dtype != x.dtype or d.dtype != x.dtype or v.shape != x.shape or d.shape != x.shape:
        fail('type or shape not preserved: {} {} {} {}', v.dtype, d.dtype, tuple(v.shape), tuple(d.shape))
    name = c['name'] or 'identity'
    if c['f32']:
        # exp overflows in single precision: compare where this does not happen
        mask = x.abs() < 80
    else:
        mask = x.abs() < 700
    rv, rd = ref(name, x.double().numpy())
    tol = 3e-6 if c['f32'] else 1e-12
    if not (torch.isfinite(v).all() and torch.isfinite(d).all()):
        fail('not finite: {} {}', v, d)
    ns.close(v[mask], torch.tensor(rv)[mask], '{}'.format(name), rtol=tol, atol=tol)
    if name == 'relu':
        mask = mask & (x != 0)
        z = d[x == 0]
        if z.numel() and not bool(((z >= 0) & (z <= 1)).all()):
            fail('derivative of relu at zero is {}', z)
    ns.close(d[mask], torch.tensor(rd)[mask], 'derivative of {}'.format(name), rtol=tol, atol=tol)
    return [name]


def derivative(c):
    """the derivative which comes with a nonlinearity is its derivative according to autodiff"""
    x = tensor(c)
    if c['name'] == 'relu':
        x = x[x != 0]
        if x.numel() == 0:
            return None
    x = x.clone().requires_grad_(True)
    nl, dnl = ad.get_nonlinearity(c['spelled'])
    (g,) = torch.autograd.grad(nl(x).sum(), [x], create_graph=False)
    d = dnl(x)
    mask = (x.detach().abs() < 80)
    tol = 5e-6 if c['f32'] else 1e-10
    ns.close(d.detach()[mask], g[mask], 'derivative of {}'.format(c['name']), rtol=tol, atol=tol)
    # second derivatives (needed to train models with the analytic equations) by finite differences
    if c['name'] not in [None, 'identity', 'relu'] and not c['f32']:
        (g2,) = torch.autograd.grad(dnl(x).sum(), [x])
        h = 1e-5
        xd = x.detach()
        fd = (dnl(xd + h) - dnl(xd - h)) / (2 * h)
        ns.close(g2[mask], fd[mask], 'second derivative of {}'.format(c['name']), rtol=1e-5, atol=1e-6)
    return [str(c['name'])]


@st.composite
def bad_case(draw):
    return dict(name=draw(st.text(alphabet='adefghilmnorstuxy ', min_size=0, max_size=9)))


def rejected(c):
    if c['name'].lower() in NAMES:
        return None
    try:
        ad.get_nonlinearity(c['name'])
    except ValueError:
        return True
    fail('unknown nonlinearity {} was accepted', repr(c['name']))


@st.composite
def model_case(draw):
    c = draw(ns.model_cfg(nls=NAMES + [None]))
    c['vals'] = draw(st.lists(st.floats(-5, 5), min_size=1, max_size=5))
    return c


def in_model(c):
    """models use the nonlinearity they were asked for"""
    m = ns.make_model(c)
    x = torch.tensor(c['vals'])
    name = c['nl'] or 'identity'
    v, d = ref(name, x.numpy())
    if not hasattr(m, 'nl'):
        return None
    ns.close(m.nl(x), torch.tensor(v), 'nonlinearity of the model', rtol=1e-10, atol=1e-12)
    if hasattr(m, 'dnl') and not (name == 'relu' and (x == 0).any()):
        ns.close(m.dnl(x), torch.tensor(d), 'derivative of the nonlinearity of the model', rtol=1e-10, atol=1e-12)
    return [name]


QUICK_SCALE = 4

SUBS = [
    Sub('values', case(), values, 1200, 20000, 'random arguments (moderate, large, near zero), types and spellings; every case counts', shards=2),
    Sub('derivative', case(), derivative, 1200, 20000, 'random arguments; every case counts', shards=2),
    Sub('rejected', bad_case(), rejected, 150, 1000, 'random names which are not supported'),
    Sub('in_model', model_case(), in_model, 150, 2000, 'random models; every case counts'),
]
