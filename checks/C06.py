"""Checkpointed integration is transparent: same values, same gradients, same output times."""
import torch
from pbt import Sub, st, fail
import ns
import others

H = 0.125
METHODS = ['rk4', 'euler', 'midpoint']


@st.composite
def check_setting(draw, allow_interval=True):
    if draw(st.booleans()) and allow_interval:
        return ['interval', draw(st.integers(1, 10))]
    return ['nr', draw(st.integers(1, 4))]


@st.composite
def block_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=4, max_dim=2, max_size=3, conv_max=4, max_batch=3))
    c['method'] = draw(st.sampled_from(METHODS))
    c['setting'] = draw(check_setting())
    c['vector'] = draw(st.booleans())
    # all times are multiples of the step size; so is the distance of checkpoints
    if c['setting'][0] == 'nr':
        parts = c['setting'][1] + 1
        c['last'] = parts * draw(st.integers(1, max(1, 10 // parts)))
        if parts in [3, 5]:
            # thirds and fifths are no binary fractions; take a time which is a multiple of them
            c['last'] = parts * draw(st.integers(1, 2))
    else:
        c['last'] = draw(st.integers(2, 10))
    inner = [k for k in draw(st.lists(st.integers(1, 10), max_size=4, unique=True)) if k < c['last']]
    c['inner'] = sorted(inner)
    c['twice'] = draw(st.booleans())
    c['wseed'] = draw(ns.seeds)
    c['penalty'] = draw(st.booleans())
    # backward in time
    c['down'] = draw(st.sampled_from([False, False, False, True]))
    return c


def setup(c, checkpointed):
    kw = {}
    if checkpointed:
        if c['setting'][0] == 'nr':
            kw['nr_of_checkpoints'] = c['setting'][1]
        else:
            kw['checkpointing_time_interval'] = c['setting'][1] * H
    block = ns.mode_block(c, integrator=ns.make_integrator(c['method'], step_size=H, **kw))
    h = -H if c['down'] else H
    if c['vector']:
        block.set_integration_time_vector(torch.tensor([0.0] + [k * h for k in c['inner']] + [c['last'] * h]), suppress_warning=bool(c['seed'] % 2))
    else:
        block.set_integration_time(c['last'] * h)
    return block


def block(c, rnn_gradient=False):
    res = {}
    for cp in [False, True]:
        g = ns.gen(c['dseed'])
        b = setup(c, cp)
        x = ns.randn(g, ns.data_shape(c, c['batch'])).requires_grad_(True)
        out = b(x=x)
        if c['twice']:
            out = b(x=x)
        gw = ns.gen(c['wseed'])
        loss = (ns.randn(gw, out[0].shape) * out[0]).sum()
        for d in out[1:]:
            for blk in d:
                for k in d[blk]:
                    loss = loss + (ns.randn(gw, d[blk][k].shape) * d[blk][k]).sum()
        pen = b.get_norm_penalty()
        if pen is not None and c['penalty']:
            loss = loss + 2.5 * pen.sum()
        pen = None if pen is None else pen.detach().clone().reshape(-1)
        if c['mode'] != 'rnn' or rnn_gradient:
            # (gradients for frozen parameters: see the sub-check rnn_gradient)
            loss.backward()
        else:
            x.grad = torch.zeros_like(x)
        grads = {k: (torch.zeros_like(v) if v.grad is None else v.grad.clone()) for k, v in b.named_parameters()}
        res[cp] = (out, x.grad.clone(), grads, pen)
    o0, gx0, g0, pen0 = res[False]
    o1, gx1, g1, pen1 = res[True]
    ns.cmp_outputs(o1, o0, 'checkpointed', rtol=1e-6, atol=1e-7)
    ns.close(gx1, gx0, 'gradient wrt the data with checkpoints', rtol=1e-5, atol=1e-6)
    for k in g0:
        ns.close(g1[k], g0[k], 'gradient wrt {} with checkpoints'.format(k), rtol=1e-5, atol=1e-6)
    if (pen0 is None) != (pen1 is None):
        fail('norm penalty {} with checkpoints, {} without', pen1, pen0)
    if pen0 is not None:
        ns.close(pen1, pen0, 'norm penalty with checkpoints')
    return [c['mode'], c['setting'][0], c['method'], 'vector' if c['vector'] else 'single', 'down' if c['down'] else 'up']


@st.composite
def rnn_case(draw):
    c = draw(block_case())
    c['mode'] = 'rnn'
    return c


def rnn_gradient(c):
    """gradients when the parameters are computed once at the initial time and then kept"""
    return block(c, rnn_gradient=True)


class Field(torch.nn.Module):
    """y' = (1, A tanh(y) + cos(t)): the first component tells the time"""

    def __init__(self, A):
        super().__init__()
        self.A = torch.nn.Parameter(A)

    def forward(self, t, y):
        v = torch.tanh(y[1:]) @ self.A.t() + torch.cos(torch.as_tensor(t, dtype=y.dtype))
        return torch.cat([torch.ones(1, dtype=y.dtype), v])


@st.composite
def times_case(draw):
    n = draw(st.integers(1, 7))
    c = dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 4)))
    c['t0'] = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0, 0.3]))
    c['gaps'] = [draw(st.sampled_from([0.05, 0.1, 0.125, 0.3, 0.25, 1.0, 0.7, 0.01])) for _ in range(n)]
    if draw(st.booleans()):
        c['nr'] = draw(st.integers(1, 9))
    else:
        c['interval'] = draw(st.sampled_from([0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.5, 1.0, 3.0, 10.0]))
    # times close to a checkpoint, on either side of it
    c['near'] = draw(st.sampled_from([0, 0, 1e-3, -1e-3, 8e-3, -8e-3]))
    c['near_at'] = draw(st.integers(0, 8))
    c['f32'] = draw(st.booleans())
    c['down'] = draw(st.sampled_from([False, False, True]))
    c['method'] = draw(st.sampled_from(['dopri5', 'rk4', 'euler']))
    c['adjoint'] = draw(st.booleans())
    return c


def times(c):
    """arbitrary times and checkpoints: exactly the requested times are returned, in order"""
    g = ns.gen(c['seed'])
    A = ns.randn(g, [c['dim'], c['dim']])
    ts = [c['t0']]
    for d in c['gaps']:
        ts.append(ts[-1] + d)
    if c['near']:
        span = ts[-1] - ts[0]
        cp = ts[0] + (span * (1 + c['near_at'] % c['nr']) / (c['nr'] + 1.0) if 'nr' in c else (1 + c['near_at']) * c['interval'])
        if ts[0] < cp + c['near'] < ts[-1] and min(abs(cp + c['near'] - x) for x in ts) > 1e-4:
            ts = sorted(ts + [cp + c['near']])
    if c['down']:
        ts = ts[::-1]
    t = torch.tensor(ts, dtype=torch.float32 if c['f32'] else torch.float64)
    keep = t.clone()
    y0 = torch.cat([t[:1].double(), ns.randn(g, [c['dim']])])
    kw = dict(nr_of_checkpoints=c.get('nr'), checkpointing_time_interval=c.get('interval'))
    adj = dict(use_adjoint_integration=c['adjoint'])
    if c['method'] == 'dopri5':
        mk = lambda **k: ns.make_integrator('dopri5', rtol=1e-9, atol=1e-11, **adj, **k)
    else:
        # steps are only aligned by accident: small ones
        mk = lambda **k: ns.make_integrator(c['method'], step_size=0.01 if c['method'] == 'rk4' else 0.005, **adj, **k)
    out = []
    for k in [dict(), kw]:
        f = Field(A.clone())
        calls = []
        f.register_forward_hook(lambda *a: calls.append(1))
        y = y0.clone().requires_grad_(True)
        r = mk(**k).integrate(func=f, x0=y, t=t)
        n = len(calls)
        if r.shape[0] == len(ts):
            (r[:, 1:].sum() + (r[:, 1:] ** 2).sum()).backward()
            if k and len(calls) - n < n:
                fail('intermediate results are kept: {} evaluations, {} for the gradient', n, len(calls) - n)
        out.append((r.detach(), y.grad, f.A.grad))
    (r0, gy0, gA0), (r1, gy1, gA1) = out
    if not torch.equal(t, keep):
        fail('the times of the caller were changed')
    if tuple(r1.shape) != (len(ts), c['dim'] + 1):
        fail('result of shape {} for {} times', tuple(r1.shape), len(ts))
    # linear interpolation between the steps of the fixed step solvers is exact for the time itself
    ns.close(r1[:, 0], t.double(), 'times which are returned', rtol=1e-5, atol=1e-5)
    if c['method'] == 'dopri5' and not c['f32']:
        ns.close(r1[:, 0], t, 'times which are returned for times in double precision', rtol=1e-10, atol=1e-10)
    tol = 2e-6 if c['method'] == 'dopri5' else (3e-4 if c['method'] == 'rk4' else 5e-2)
    ns.close(r1[0], y0, 'first value', rtol=1e-9, atol=1e-9)
    ns.close(r1, r0, 'values with checkpoints', rtol=tol, atol=tol)
    gt = 5e-5 if c['method'] == 'dopri5' else (3e-3 if c['method'] == 'rk4' else 0.3)
    ns.close(gy1, gy0, 'gradient wrt the initial value', rtol=gt, atol=gt)
    ns.close(gA1, gA0, 'gradient wrt the parameters', rtol=gt, atol=gt)
    return ['nr' if 'nr' in c else 'interval', c['method'], 'down' if c['down'] else 'up']


@st.composite
def inv_case(draw):
    return dict(nr=draw(st.integers(1, 3)), interval=draw(st.sampled_from([0.1, 0.5])), what=draw(st.sampled_from(['both', 'one'])))


def invalid(c):
    f = Field(torch.eye(2))
    try:
        if c['what'] == 'both':
            ns.make_integrator('rk4', step_size=0.1, nr_of_checkpoints=c['nr'], checkpointing_time_interval=c['interval']).integrate(func=f, x0=torch.zeros(3), t=torch.tensor([0.0, 1.0]))
        else:
            ns.make_integrator('rk4', step_size=0.1, nr_of_checkpoints=c['nr']).integrate(func=f, x0=torch.zeros(3), t=torch.tensor([1.0]))
    except ValueError:
        return True
    fail('contradicting checkpoint settings were accepted')


SUBS = [
    Sub('block', block_case(), block, 250, 4000, 'random blocks with and without checkpoints, aligned steps: values, penalty and all gradients; every case counts', shards=4),
    Sub('rnn_gradient', rnn_case(), rnn_gradient, 20, 200, 'blocks which keep the parameters of the initial time; every case counts'),
    Sub('times', times_case(), times, 200, 4000, 'random non-aligned time points and checkpoints for a known differential equation which also records the time; every case counts', shards=4),
    Sub('invalid', inv_case(), invalid, 10, 20, 'contradicting settings are rejected'),
    Sub('other_models', others.case(), others.checkpoints, 30, 450, others.WHAT, shards=2),
]
