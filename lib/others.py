"""The two models which are not in ns.MODELS (dampened up-down with its gates, optimal transport): the relations of several properties for them."""
import io
import torch
from pbt import fail
import ns
import C28

case = C28.builtin_case
equations = C28.builtin
WHAT = 'dampened up-down and optimal transport models; non-trivial: does not blow up'


def data(c, batch):
    return ns.randn(ns.gen(c['dseed'] + 2), C28.shape(c, 'q1', batch, c['lead']), 0.7)


def moderate(out):
    return ns.size_of(out) < 1e3


def independence(c):
    """every sample on its own, and in another order"""
    b = C28.builtin_block(c, fill=True)
    b.set_integration_time(C28.H * c['k'])
    n = c['batch'] + 1
    x = data(dict(c, lead=[]), n)
    out = b(x=x)
    if not moderate(out):
        return None
    d = ns.single(out[3])
    order = torch.randperm(n, generator=ns.gen(c['seed']))
    for sel in [order] + [torch.tensor([i]) for i in range(n)]:
        o = b(x=x[sel])
        ns.close(o[0], out[0][sel], 'returned value of samples {}'.format(sel.tolist()), rtol=1e-9, atol=1e-9)
        for q in d:
            ns.close(ns.single(o[3])[q], d[q][sel], 'data {} of samples {}'.format(q, sel.tolist()), rtol=1e-9, atol=1e-9)
        for i in [1, 2]:
            ns.cmp_dicts(o[i], out[i], 'particles', rtol=1e-9, atol=1e-9)
    return [c['which']]


def times(c):
    """entries of a vector of times are the results of ending there"""
    b = C28.builtin_block(c, fill=True)
    ts = [C28.H * i for i in range(c['k'] + 2)]
    b.set_integration_time_vector(torch.tensor(ts), suppress_warning=True)
    x = data(c, c['batch'])
    out = b(x=x)
    if not moderate(out):
        return None
    ns.close(out[0][0], x, 'first value', rtol=1e-12, atol=1e-12)
    for i, t in list(enumerate(ts))[1:]:
        b.set_integration_time(t)
        o = b(x=x)
        ns.cmp_outputs(o, (out[0][i], ns.at_time(out[1], i), ns.at_time(out[2], i), ns.at_time(out[3], i)), 'time {}'.format(t), rtol=1e-8, atol=1e-8)
    return [c['which']]


def initial(c):
    b = C28.builtin_block(c, fill=True)
    b.set_integration_time_vector(torch.tensor([0.0, C28.H]), suppress_warning=True)
    x = data(c, c['batch'])
    x0 = x.clone()
    out = b(x=x)
    if not torch.equal(x, x0):
        fail('the given data was changed')
    d = ns.single(out[3])
    names = [s['name'] for s in c['states']] + [g['name'] for g in c['gates']]
    if sorted(d) != sorted(names):
        fail('states {} instead of {}', sorted(d), sorted(names))
    for q in names:
        ns.close(d[q][0], x if q == 'q1' else torch.zeros(C28.shape(c, q, c['batch'], c['lead'])), 'initial ' + q, rtol=0, atol=0)
    return [c['which']]


def checkpoints(c):
    res = []
    for kw in [{}, dict(nr_of_checkpoints=c['k']), dict(checkpointing_time_interval=C28.H)]:
        b = C28.builtin_block(c, fill=True, integrator=ns.make_integrator('rk4', step_size=C28.H, **kw))
        b.set_integration_time(C28.H * (c['k'] + 1))
        x = data(c, c['batch']).requires_grad_(True)
        out = b(x=x)
        if not moderate(out):
            return None
        loss = (ns.randn(ns.gen(c['seed']), out[0].shape) * out[0]).sum() + 0.5 * b.get_norm_penalty().sum()
        loss.backward()
        res.append((out, dict({k: v.grad for k, v in b.named_parameters()}, x=x.grad)))
    for o, g in res[1:]:
        ns.cmp_outputs(o, res[0][0], 'checkpointed', rtol=1e-6, atol=1e-7)
        for k in g:
            z = torch.zeros(1)
            ns.close(z if g[k] is None else g[k], torch.zeros_like(z if g[k] is None else g[k]) if res[0][1][k] is None else res[0][1][k], 'gradient wrt {} with checkpoints'.format(k), rtol=1e-5, atol=1e-6)
    return [c['which']]


def gradient(c):
    b = C28.builtin_block(c, fill=True)
    b.set_integration_time(C28.H * c['k'])
    x = data(c, c['batch']).requires_grad_(True)

    def loss():
        o = b(x=x)
        return (ns.randn(ns.gen(c['seed']), o[0].shape) * o[0]).sum() + 0.3 * b.get_norm_penalty().sum()
    l0 = loss()
    if not abs(float(l0.detach())) < 1e2:
        return None
    leaves = [x] + [v for _, v in sorted(b.named_parameters())]
    gr = torch.autograd.grad(l0, leaves, allow_unused=True)
    gr = tuple(torch.zeros_like(v) if q is None else q for v, q in zip(leaves, gr))
    g = ns.gen(c['seed'])
    ns.directional_check(loss, leaves[:1], gr[:1], g, 'gradient wrt the data', float(l0.detach()))
    ns.directional_check(loss, leaves[1:], gr[1:], g, 'gradient wrt the particles', float(l0.detach()))
    return [c['which']]


def restored(c):
    b = C28.builtin_block(c, fill=True)
    x = data(c, c['batch'])
    out = b(x=x)
    f = io.BytesIO()
    torch.save(b.state_dict(), f)
    f.seek(0)
    b2 = C28.builtin_block(c)
    b2.load_state_dict(torch.load(f))
    if not moderate(out):
        return None
    ns.cmp_outputs(b2(x=x), out, 'restored', rtol=1e-12, atol=1e-12)
    return [c['which']]
