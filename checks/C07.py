"""Integrators: discretisation formulas, step sizes, tolerances, adjoint gradients, rejected settings."""
import copy
import math
import torch
from pbt import Sub, st, fail, Violation
import ns
from ns import gi

# 'adams' is offered as well, but the installed torchdiffeq no longer has it
ALL = ['dopri5', 'euler', 'midpoint', 'rk4', 'explicit_adams', 'fixed_adams']


class Linear(torch.nn.Module):
    def __init__(self, A):
        super().__init__()
        self.A = torch.nn.Parameter(A)
        self.calls = 0

    def forward(self, t, y):
        self.calls += 1
        return y @ self.A.t()


class NonLinear(torch.nn.Module):
    def __init__(self, A):
        super().__init__()
        self.A = torch.nn.Parameter(A)

    def forward(self, t, y):
        return torch.tanh(y) @ self.A.t() + torch.sin(torch.as_tensor(t, dtype=y.dtype)) * y


@st.composite
def fixed_case(draw):
    c = dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 4)), rows=draw(st.integers(1, 3)))
    c['method'] = draw(st.sampled_from(['euler', 'midpoint', 'rk4']))
    c['k'] = draw(st.integers(1, 3))
    c['h'] = draw(st.sampled_from([0.0625, 0.125, 0.25, 0.5, 0.1, 0.3, 1.0, 1.5, 3.0]))
    # total time in units of a tenth of the step, may not be a multiple of the step
    c['points'] = sorted(draw(st.lists(st.integers(1, 8), min_size=1, max_size=3, unique=True)))
    c['rest'] = draw(st.sampled_from([0.0, 0.0, 0.4]))
    c['how'] = draw(st.sampled_from(['arg', 'options', 'both', 'default', 'block_options']))
    c['t0'] = draw(st.sampled_from([0.0, 0.0, 1.0, -0.5]))
    c['other'] = draw(st.sampled_from([0.25, 0.5, 2.0, 3.0]))
    c['backward'] = draw(st.sampled_from([False, False, True]))
    c['adjoint'] = draw(st.booleans())
    return c


def fixed_steps(c):
    """solutions of linear systems are exactly the powers of the stability polynomial of the scheme"""
    g = ns.gen(c['seed'])
    A = ns.randn(g, [c['dim'], c['dim']], 0.7)
    y0 = ns.randn(g, [c['rows'], c['dim']])
    h = c['h'] if c['how'] != 'default' else 0.5
    ks = list(c['points'])
    # the output times are on the grid, the last one may come after an incomplete step
    times = [0.0] + [k * h for k in ks]
    if c['rest']:
        times.append((ks[-1] + c['rest']) * h)
    sign = -1.0 if c['backward'] else 1.0
    t = torch.tensor([c['t0'] + sign * x for x in times], dtype=torch.float64)
    kw = dict(integrator_library='odeint', integrator_name=c['method'], use_adjoint_integration=c['adjoint'])
    opts = None
    if c['how'] == 'arg':
        kw['step_size'] = h
    elif c['how'] == 'options':
        opts = dict(step_size=h)
    elif c['how'] == 'both':
        kw['step_size'] = c.get('other', 3.0) * h
        opts = dict(step_size=h)
    elif c['how'] == 'block_options':
        kw['step_size'] = None
        opts = dict(step_size=h)
    keep = copy.deepcopy(opts)
    integ = gi.GenericIntegrator(integrator_options=opts, **kw)
    f = Linear(A)
    tk = t.clone()
    r = integ.integrate(func=f, x0=y0, t=t)
    if opts != keep:
        fail('options of the caller were changed from {} to {}', keep, opts)
    if not torch.equal(t, tk):
        fail('times of the caller were changed')
    order = dict(euler=1, midpoint=2, rk4=4)[c['method']]

    def step(hh):
        M = torch.zeros_like(A)
        P = torch.eye(c['dim'], dtype=A.dtype)
        for i in range(order + 1):
            M = M + P
            P = P @ (hh * A) / (i + 1)
        return M

    if tuple(r.shape) != (len(times),) + tuple(y0.shape):
        fail('result of shape {}', tuple(r.shape))
    cur = y0
    done = 0
    S = step(sign * h)
    for i, k in enumerate(ks):
        if i == 0:
            ns.close(r[0], y0, 'value at the first time', rtol=1e-12, atol=1e-12)
        while done < k:
            cur = cur @ S.t()
            done += 1
        ns.close(r[i + 1], cur, '{} after {} steps of size {}'.format(c['method'], k, h), rtol=1e-6, atol=1e-7)
    if c['rest']:
        cur = cur @ step(sign * c['rest'] * h).t()
        ns.close(r[-1], cur, '{} after an incomplete step'.format(c['method']), rtol=1e-6, atol=1e-7)
    return [c['method'], c['how']]


@st.composite
def acc_case(draw):
    c = dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 4)), method=draw(st.sampled_from(ALL)))
    c['times'] = sorted(draw(st.lists(st.sampled_from([0.1, 0.25, 0.5, 0.9, 1.0, 1.5, 2.0]), min_size=1, max_size=3, unique=True)))
    c['adjoint'] = draw(st.booleans())
    c['tol'] = draw(st.sampled_from([1e-4, 1e-6, 1e-8]))
    c['shift'] = draw(st.sampled_from([0.0, 0.0, 0.7]))
    return c


def accuracy(c):
    """every offered method solves a nonlinear, time-dependent system (compared with many small classical RK4 steps)"""
    g = ns.gen(c['seed'])
    A = ns.randn(g, [c['dim'], c['dim']], 0.8)
    y0 = ns.randn(g, [c['dim']])
    times = [c['shift']] + [c['shift'] + t for t in c['times']]
    t = torch.tensor(times, dtype=torch.float64)
    adaptive = c['method'] in ['dopri5', 'adams']
    if adaptive:
        integ = ns.make_integrator(c['method'], rtol=c['tol'], atol=c['tol'] * 1e-2, use_adjoint_integration=c['adjoint'])
        tol = 100 * c['tol']
    else:
        integ = ns.make_integrator(c['method'], step_size=0.01, use_adjoint_integration=c['adjoint'])
        tol = dict(euler=0.2, midpoint=3e-3, rk4=1e-3, explicit_adams=1e-3, fixed_adams=1e-3)[c['method']]
    f = NonLinear(A)
    with torch.no_grad():
        r = integ.integrate(func=f, x0=y0, t=t)
        cur, now, exp = y0, times[0], [y0]
        for target in times[1:]:
            n = max(1, int(math.ceil((target - now) / 0.005)))
            h = (target - now) / n
            for _ in range(n):
                k1 = f(now, cur)
                k2 = f(now + h / 2, cur + h / 2 * k1)
                k3 = f(now + h / 2, cur + h / 2 * k2)
                k4 = f(now + h, cur + h * k3)
                cur = cur + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                now += h
            exp.append(cur)
    if c['method'] in ['explicit_adams', 'fixed_adams']:
        # these are delicate multi-step schemes; the requirement is that the wrapped solver is the requested one
        import torchdiffeq
        with torch.no_grad():
            exp = torchdiffeq.odeint(f, y0, t, method=c['method'], options=dict(step_size=0.01), rtol=1e-3, atol=1e-5)
        ns.close(r, exp, 'solution of {}'.format(c['method']), rtol=1e-8, atol=1e-8)
        return [c['method']]
    ns.close(r, torch.stack(exp), 'solution of {}'.format(c['method']), rtol=tol, atol=tol)
    return [c['method']]


@st.composite
def nfe_case(draw):
    return dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 3)), method='dopri5')


def tolerances(c):
    """tighter tolerances of the adaptive solvers are honoured: more evaluations and smaller errors"""
    g = ns.gen(c['seed'])
    A = ns.randn(g, [c['dim'], c['dim']], 1.0)
    y0 = ns.randn(g, [c['dim']])
    exact = torch.linalg.matrix_exp(2.0 * A) @ y0
    t = torch.tensor([0.0, 2.0], dtype=torch.float64)
    calls, err = [], []
    for rtol, atol in [(1e-2, 1e-2), (1e-10, 1e-12), (1e-10, 1e-2), (1e-2, 1e-12)]:
        f = Linear(A.clone())
        with torch.no_grad():
            r = ns.make_integrator(c['method'], rtol=rtol, atol=atol).integrate(func=f, x0=y0, t=t)
        calls.append(f.calls)
        err.append(float((r[-1] - exact).abs().max()) / (1.0 + float(exact.abs().max())))
    if err[1] > 1e-7:
        fail('error {} with tolerances 1e-10/1e-12', err[1])
    if calls[1] <= calls[0]:
        fail('tight tolerances need {} evaluations, loose ones {}', calls[1], calls[0])
    return [c['method']]


@st.composite
def adj_case(draw):
    c = draw(ns.block_cfg(models=[m for m in ns.MODELS if m != 'conv_batch'], nls=ns.SMOOTH_NL, modes=['particles', 'particles', 'pf_static'], max_particles=3, max_dim=2, max_size=3, conv_max=3, max_batch=2))
    c['T'] = draw(st.sampled_from([0.25, 0.5]))
    c['vec'] = draw(st.booleans())
    c['wseed'] = draw(ns.seeds)
    return c


def adjoint(c):
    try:
        return adjoint_with_step(c, 1. / 32)
    except Violation:
        # discretisation error? it gets 256 times smaller
        return adjoint_with_step(c, 1. / 128)


def adjoint_with_step(c, h):
    """gradients wrt the data computed by solving backward in time agree with differentiating through the solver"""
    res = []
    for adj in [False, True]:
        integ = ns.make_integrator('rk4', step_size=h, use_adjoint_integration=adj)
        b = ns.mode_block(c, integrator=integ, fill=0.3)
        g = ns.gen(c['dseed'])
        x = ns.randn(g, ns.data_shape(c, c['batch']), 0.5).requires_grad_(True)
        if c['vec']:
            b.set_integration_time_vector(torch.tensor([0.0, 0.5 * c['T'], c['T']]), suppress_warning=bool(c['seed'] % 2))
        else:
            b.set_integration_time(c['T'])
        out = b(x=x)
        gw = ns.gen(c['wseed'])
        (ns.randn(gw, out[0].shape) * out[0]).sum().backward()
        grads = {k: (torch.zeros_like(v) if v.grad is None else v.grad.clone()) for k, v in b.named_parameters()}
        res.append((out[0].detach(), x.grad.clone(), grads))
    ns.close(res[1][0], res[0][0], 'values with adjoint integration', rtol=1e-6, atol=1e-7)
    ns.close(res[1][1], res[0][1], 'adjoint gradient wrt the data', rtol=1e-3, atol=1e-5)
    if c['mode'] == 'particles':
        for k in res[0][2]:
            ns.close(res[1][2][k], res[0][2][k], 'adjoint gradient wrt ' + k, rtol=1e-3, atol=1e-5)
    return [c['mode'], c['model']]


class Net(torch.nn.Module):
    # parameters of several shapes, one of them not used
    def __init__(self, g, d):
        super().__init__()
        self.W = torch.nn.Parameter(ns.randn(g, [d, d], 0.6))
        self.b = torch.nn.Parameter(ns.randn(g, [d], 0.6))
        self.s = torch.nn.Parameter(ns.randn(g, [], 0.6))
        self.lin = torch.nn.Linear(d, d)
        for p in self.lin.parameters():
            p.data = ns.randn(g, p.shape, 0.6)
        self.unused = torch.nn.Parameter(ns.randn(g, [d]))

    def forward(self, t, y):
        return torch.tanh(y @ self.W.t() + self.b) + self.s * torch.cos(torch.as_tensor(t, dtype=y.dtype)) * self.lin(y)


@st.composite
def adj2_case(draw):
    return dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 3)), rows=draw(st.integers(1, 3)), method=draw(st.sampled_from(['dopri5', 'euler', 'midpoint', 'rk4'])),
                times=draw(st.lists(st.sampled_from([0.25, 0.5, 0.75, 1.0]), min_size=1, max_size=3, unique=True)), t0=draw(st.sampled_from([0.0, 0.5, -1.0])),
                back=draw(st.sampled_from([False, False, True])), wseed=draw(ns.seeds), frozen=draw(st.sampled_from([None, None, 'W', 'b'])))


def adjoint_all(c):
    """adjoint gradients of every method wrt the initial value and parameters of all shapes, against the gradients of a much finer direct solution"""
    ts = [0.0] + sorted(c['times'])
    t = torch.tensor([c['t0'] + (-x if c['back'] else x) for x in ts], dtype=torch.float64)
    res = []
    for adj in [False, True]:
        g = ns.gen(c['seed'])
        f = Net(g, c['dim'])
        y0 = ns.randn(g, [c['rows'], c['dim']]).requires_grad_(True)
        if c['frozen']:
            getattr(f, c['frozen']).requires_grad_(False)
        if not adj:
            integ = ns.make_integrator('rk4', step_size=1. / 32)
        elif c['method'] == 'dopri5':
            integ = ns.make_integrator('dopri5', rtol=1e-6, atol=1e-8, use_adjoint_integration=True)
        else:
            integ = ns.make_integrator(c['method'], step_size=dict(euler=1. / 256, midpoint=1. / 64, rk4=1. / 32)[c['method']], use_adjoint_integration=True)
        calls = []
        f.register_forward_hook(lambda *a: calls.append(1))
        r = integ.integrate(func=f, x0=y0, t=t)
        n = len(calls)
        (ns.randn(ns.gen(c['wseed']), r.shape) * r).sum().backward()
        if adj and len(calls) == n:
            fail('the adjoint method does not solve the equation backward')
        res.append((dict(f.named_parameters(), y0=y0), r.detach()))
    tol = dict(euler=0.1, midpoint=5e-3, rk4=1e-4, dopri5=1e-4)[c['method']]
    size = float(torch.cat([p.grad.reshape(-1) for p in res[0][0].values() if p.grad is not None]).abs().max())
    if not size < 1e3:
        return None
    for k, p in res[0][0].items():
        z = torch.zeros_like(p)
        exp = z if p.grad is None else p.grad
        got = res[1][0][k].grad
        ns.close(z if got is None else got, exp, 'adjoint gradient of {} wrt {}'.format(c['method'], k), rtol=tol, atol=tol * (1.0 + size))
    return [c['method']]


@st.composite
def pass_case(draw):
    c = dict(seed=draw(ns.seeds), dim=draw(st.integers(1, 3)), rows=draw(st.integers(1, 2)), method=draw(st.sampled_from(ALL)), adjoint=draw(st.booleans()),
             times=sorted(draw(st.lists(st.sampled_from([0.1, 0.3, 0.5, 0.8, 1.0]), min_size=1, max_size=3, unique=True))), wseed=draw(ns.seeds))
    o = {}
    if c['method'] == 'dopri5':
        for k, v in [('first_step', [0.01, 0.2]), ('max_num_steps', [100000, 2 ** 20]), ('safety', [0.5, 0.9]), ('ifactor', [2.0, 10.0]), ('dfactor', [0.1, 0.5]), ('norm', ['max', 'first']),
                     ('min_step', [1e-6, 0.05])]:
            if draw(st.booleans()):
                o[k] = draw(st.sampled_from(v))
        c['tol'] = draw(st.sampled_from([[1e-3, 1e-5], [1e-6, 1e-3], [1e-2, 1e-8]]))
    else:
        if draw(st.booleans()):
            o['interp'] = draw(st.sampled_from(['linear', 'cubic']))
        if draw(st.booleans()):
            o['perturb'] = draw(st.booleans())
        if c['method'] == 'fixed_adams' and draw(st.booleans()):
            o['max_iters'] = draw(st.integers(1, 6))
        c['tol'] = [1e-3, 1e-5]
        c['step'] = draw(st.sampled_from([0.05, 0.07, 0.1, 0.125, 0.2]))
        c['grid'] = draw(st.sampled_from([False, False, True]))
    c['options'] = o
    a = {}
    if c['adjoint']:
        if draw(st.booleans()):
            a['adjoint_rtol'] = draw(st.sampled_from([1e-3, 1e-7]))
        if draw(st.booleans()):
            a['adjoint_atol'] = draw(st.sampled_from([1e-3, 1e-7]))
        if draw(st.booleans()):
            a['adjoint_method'] = draw(st.sampled_from(['dopri5', 'rk4', 'euler']))
            a['adjoint_options'] = {} if a['adjoint_method'] == 'dopri5' else dict(step_size=draw(st.sampled_from([0.05, 0.1])))
    c['extra'] = a
    return c


def passed_on(c):
    """options and further arguments reach the solver of the library: the same values, evaluations and gradients as a direct call of it"""
    import torchdiffeq
    res = []
    for direct in [True, False]:
        opts = dict(c['options'])
        if opts.get('norm') == 'max':
            opts['norm'] = lambda y: y.abs().max()
        elif opts.get('norm') == 'first':
            opts['norm'] = lambda y: y.reshape(-1)[:1].abs().max()
        if c.get('grid'):
            n = int(round(1.0 / c['step']))
            # finer and finer steps
            opts['grid_constructor'] = lambda f, y, t: torch.cat([t[:1], (t[0] + (t[-1] - t[0]) * torch.sqrt(torch.linspace(0, 1, n + 1, dtype=t.dtype)))[1:-1], t[-1:]])
        extra = copy.deepcopy(c['extra'])
        g = ns.gen(c['seed'])
        f = Net(g, c['dim'])
        y0 = ns.randn(g, [c['rows'], c['dim']]).requires_grad_(True)
        t = torch.tensor([0.0] + c['times'], dtype=torch.float64)
        at = []
        f.register_forward_pre_hook(lambda m, a: at.append(float(a[0])))
        if direct:
            if c['method'] != 'dopri5' and not c.get('grid'):
                opts['step_size'] = c['step']
            r = (torchdiffeq.odeint_adjoint if c['adjoint'] else torchdiffeq.odeint)(f, y0, t, rtol=c['tol'][0], atol=c['tol'][1], method=c['method'], options=opts, **extra)
        else:
            kw = {} if c['method'] == 'dopri5' else dict(step_size=None if c.get('grid') else c['step'])
            r = gi.GenericIntegrator(integrator_library='odeint', integrator_name=c['method'], integrator_options=opts, rtol=c['tol'][0], atol=c['tol'][1],
                                     use_adjoint_integration=c['adjoint'], **kw, **extra).integrate(func=f, x0=y0, t=t)
        (ns.randn(ns.gen(c['wseed']), r.shape) * r).sum().backward()
        res.append((r.detach(), y0.grad, f.W.grad, f.s.grad, at))
    for a, b, what in zip(res[1], res[0], ['solution', 'gradient wrt the initial value', 'gradient wrt the matrix', 'gradient wrt the factor']):
        ns.close(a, b, '{} of {}'.format(what, c['method']), rtol=1e-9, atol=1e-9)
    if len(res[0][4]) != len(res[1][4]):
        fail('{} evaluations instead of {}', len(res[1][4]), len(res[0][4]))
    return [c['method'], 'adjoint' if c['adjoint'] else 'direct'] if c['options'] or c['extra'] or c.get('grid') else None


@st.composite
def bad_case(draw):
    what = draw(st.sampled_from(['library', 'name', 'good']))
    return dict(what=what, lib=draw(st.text(alphabet='abcdeinotrk45', min_size=1, max_size=8)), name=draw(st.text(alphabet='adeiklmnoprtu45', min_size=1, max_size=8)),
                good=draw(st.sampled_from(ALL + [None])))


def rejected(c):
    try:
        if c['what'] == 'library':
            gi.GenericIntegrator(integrator_library=c['lib'], integrator_name=None)
            if c['lib'] not in ['odeint', 'anode']:
                fail('unknown library {} was accepted', c['lib'])
        elif c['what'] == 'name':
            gi.GenericIntegrator(integrator_library='odeint', integrator_name=c['name'])
            if c['name'] not in ALL + ['adams']:
                fail('unknown integrator {} was accepted', c['name'])
        else:
            i = gi.GenericIntegrator(integrator_library='odeint', integrator_name=c['good'])
            r = i.integrate(func=Linear(torch.eye(2)), x0=torch.ones(2), t=torch.tensor([0.0, 0.5]))
            ns.close(r[-1], torch.full((2,), math.exp(0.5)), 'y\'=y', rtol=0.1, atol=0.1)
    except ValueError:
        if c['what'] == 'good' or (c['what'] == 'library' and c['lib'] in ['odeint', 'anode']) or (c['what'] == 'name' and c['name'] in ALL + ['adams']):
            raise
    return [c['what']]


SUBS = [
    Sub('fixed_steps', fixed_case(), fixed_steps, 600, 10000, 'random linear systems, grids and ways to give the step size; compared with the exact discrete formula; every case counts', shards=2),
    Sub('accuracy', acc_case(), accuracy, 240, 4000, 'random nonlinear time-dependent systems and all methods; every case counts', shards=4),
    Sub('tolerances', nfe_case(), tolerances, 60, 500, 'random linear systems; every case counts', shards=2),
    Sub('adjoint', adj_case(), adjoint, 80, 1500, 'random blocks; every case counts', shards=4),
    Sub('adjoint_all', adj2_case(), adjoint_all, 80, 1500, 'random small networks, all methods; non-trivial: moderate gradients', shards=2),
    Sub('passed_on', pass_case(), passed_on, 200, 3000, 'random small networks, methods, solver options and arguments of the adjoint solver; compared with a direct call of the library; non-trivial: any option was given', shards=4),
    Sub('rejected', bad_case(), rejected, 150, 1000, 'random library and method names', shards=1),
]
