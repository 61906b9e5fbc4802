"""Norm penalty (kinetic energy at the initial condition) and conservation of the Hamiltonian."""
import torch
from pbt import Sub, st, fail
import ns
import others

ops = st.lists(st.one_of(
    st.tuples(st.just('forward'), st.integers(1, 3), st.sampled_from([0.25, 0.5, 1.0, 2.5, -0.5])),
    st.tuples(st.just('vector'), st.integers(1, 3), st.sampled_from([0.0, 0.0, 0.25])),
    st.tuples(st.just('nograd'), st.integers(1, 2), st.sampled_from([0.25, 0.5])),
    st.tuples(st.just('perturb'), ns.seeds, st.sampled_from([0.1, 0.5])),
    st.tuples(st.just('sgd'), ns.seeds, st.sampled_from([0.01, 0.1])),
    st.tuples(st.just('mode'), st.booleans()),
).map(list), min_size=2, max_size=7)


@st.composite
def hist_case(draw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL))
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'particles', 'rnn', 'pf_static', 'pf_time']))
    c['analytic'] = bool(draw(st.booleans()) and c['model'] in ns.ANALYTIC_MODELS and c['dim'] == 1)
    c['steps'] = draw(st.sampled_from([1, 2, 3, 4, 13, 18]))
    c['dseed'] = draw(ns.seeds)
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['ops'] = draw(ops)
    return c


def make(c):
    kw = {}
    mk = dict(use_rnn_mode=(c['mode'] == 'rnn'))
    if c['analytic']:
        mk['use_analytic_solution'] = True
    if c['mode'] == 'pf_static':
        kw['use_particle_free_rnn_mode'] = True
    if c['mode'] == 'pf_time':
        kw['use_particle_free_time_dependent_mode'] = True
        kw['nr_of_particle_free_time_dependent_steps'] = c['steps']
    return ns.make_block(c, integrator=ns.make_integrator(c['method'], step_size=0.25), model_kwargs=mk, **kw)


def expected(c, block, create_graph=False):
    ref = ns.Ref(c)
    pars = dict(block.named_parameters())
    if c['mode'] in ['particles', 'rnn']:
        s, p = ns.own_particles(block, c)
        th = ref.theta(s, p, create_graph=create_graph)
        return ref.kinetic(th)
    # average over the time-steps of the directly optimized layer parameters
    n = c['steps'] if c['mode'] == 'pf_time' else 1
    total = 0
    for i in range(n):
        th = {(l, k): pars['pf_timestep{}_{}_{}'.format(i, l, k)] for (l, k) in ref.zero_theta()}
        total = total + ref.kinetic(th)
    return total / n


def history(c):
    block = make(c)
    g = ns.gen(c['dseed'])
    ns.set_state(block, c, g, 0.5)
    forwards = 0
    changes = 0
    if block.shooting_integrand.get_current_norm_penalty() is not None:
        fail('norm penalty before the first integration')
    last = None
    for op in c['ops']:
        if op[0] in ['forward', 'vector', 'nograd']:
            x = ns.randn(g, ns.data_shape(c, op[1]))
            start = 0.0
            if op[0] == 'vector':
                start = op[2]
                block.set_integration_time_vector(torch.tensor([start, start + 0.25, start + 0.5]) * (-1 if op[1] == 3 else 1), suppress_warning=bool(c['seed'] % 2))
            else:
                block.set_integration_time(op[2])
            if op[0] == 'nograd':
                with torch.no_grad():
                    block(x=x)
            else:
                last = (block(x=x)[0], ns.randn(g, [1]))
            pen = block.get_norm_penalty()
            if start != 0.0:
                if pen is not None:
                    fail('integration did not start at time zero, but there is a norm penalty {}', float(pen))
                continue
            if pen is None:
                fail('no norm penalty after an integration which starts at zero')
            if pen.numel() != 1:
                fail('norm penalty is not a scalar: shape {}', tuple(pen.shape))
            ns.close(pen.reshape(()), expected(c, block).reshape(()), 'norm penalty')
            if float(pen) < 0:
                fail('negative norm penalty')
            forwards += 1
            if changes:
                changes = 2
        elif op[0] == 'mode':
            block.train(op[1])
        elif op[0] == 'perturb':
            gg = ns.gen(op[1])
            with torch.no_grad():
                for k, v in sorted(block.named_parameters()):
                    v.copy_(0.5 * v + ns.randn(gg, v.shape, op[2]))
            last = None
            changes = max(changes, 1)
        elif op[0] == 'sgd' and last is not None:
            pen = block.get_norm_penalty()
            loss = (last[0] ** 2).sum() + (pen.sum() if pen is not None and pen.requires_grad else 0.0)
            pars = [v for _, v in sorted(block.named_parameters())]
            gr = torch.autograd.grad(loss, pars, allow_unused=True, retain_graph=False)
            nrm = sum(float((gk ** 2).sum()) for gk in gr if gk is not None) ** 0.5
            with torch.no_grad():
                for v, gk in zip(pars, gr):
                    if gk is not None:
                        v.sub_(op[2] * gk / (1.0 + nrm))
            last = None
            changes = max(changes, 1)
    return [c['mode'], c['model']] if forwards > 1 and changes == 2 else None


@st.composite
def grad_case(draw):
    c = draw(ns.model_cfg(nls=ns.SMOOTH_NL))
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn', 'pf_static', 'pf_time']))
    c['analytic'] = bool(draw(st.booleans()) and c['model'] in ns.ANALYTIC_MODELS and c['dim'] == 1)
    c['steps'] = draw(st.sampled_from([1, 2, 3, 4, 13, 18]))
    c['dseed'] = draw(ns.seeds)
    c['method'] = draw(st.sampled_from(['rk4', 'euler']))
    c['batch'] = draw(st.integers(1, 3))
    return c


def penalty_gradient(c):
    """the penalty can be used as a regularizer: its gradient is the one of the kinetic energy"""
    block = make(c)
    g = ns.gen(c['dseed'])
    ns.set_state(block, c, g, 0.5)
    block.set_integration_time(0.5)
    block(x=ns.randn(g, ns.data_shape(c, c['batch'])))
    pars = sorted(block.named_parameters())
    vs = [v for _, v in pars]
    got = torch.autograd.grad(block.get_norm_penalty().sum(), vs, allow_unused=True)
    exp = torch.autograd.grad(expected(c, block, create_graph=True), vs, allow_unused=True)
    for (k, v), a, b in zip(pars, got, exp):
        a = torch.zeros_like(v) if a is None else a
        b = torch.zeros_like(v) if b is None else b
        ns.close(a, b, 'gradient of the norm penalty wrt ' + k)
    return [c['mode'], c['model']]


@st.composite
def cons_case(draw):
    c = draw(ns.model_cfg(nls=ns.SMOOTH_NL, max_particles=4, max_dim=2, max_size=3, conv_max=4))
    c['dseed'] = draw(ns.seeds)
    c['times'] = sorted(draw(st.lists(st.sampled_from([0.1, 0.25, 0.5, 0.75, 1.0, 1.5]), min_size=1, max_size=3, unique=True)))
    c['batch'] = draw(st.integers(1, 2))
    return c


def conservation(c):
    block = ns.make_block(c, integrator=ns.make_integrator('dopri5', rtol=1e-8, atol=1e-10))
    g = ns.gen(c['dseed'])
    # moderate magnitudes, so that solutions do not blow up
    ns.set_state(block, c, g, 0.3)
    times = [0.0] + c['times']
    block.set_integration_time_vector(torch.tensor(times), suppress_warning=bool(c['seed'] % 2))
    with torch.no_grad():
        res, so, po, do = block(x=ns.randn(g, ns.data_shape(c, c['batch']), 0.3))
    ref = ns.Ref(c)
    so, po = ns.single(so), ns.single(po)
    hs, ts = [], []
    for i in range(len(times)):
        s = {q: so[q][i].detach() for q in so}
        p = {q: po['p_' + q][i].detach() for q in so}
        hs.append(ref.hamiltonian(s, p))
        ts.append(float(ref.kinetic(ref.theta(s, p))))
    scale = max(abs(hs[0]), 1e-6)
    for i in range(1, len(times)):
        if abs(hs[i] - hs[0]) > 1e-5 * scale + 1e-8:
            fail('energy at time {} is {}, but was {} at the beginning', times[i], hs[i], hs[0])
        if not ns.MODELS[c['model']].get('damp') and abs(ts[i] - float(block.get_norm_penalty())) > 1e-5 * abs(ts[0]) + 1e-8:
            fail('kinetic energy at time {} is {}, but the norm penalty is {}', times[i], ts[i], float(block.get_norm_penalty()))
    moved = float((so['q1'][-1] - so['q1'][0]).abs().max())
    return [c['model']] if moved > 1e-3 else None


SUBS = [
    Sub('history', hist_case(), history, 500, 8000,
        'sequences of forward passes (different times, vectors, no_grad) and parameter changes; non-trivial: at least two forward passes with a parameter change in between', shards=4),
    Sub('penalty_gradient', grad_case(), penalty_gradient, 300, 5000, 'random blocks; every case counts', shards=2),
    Sub('conservation', cons_case(), conservation, 200, 3000,
        'random blocks integrated with a tight adaptive solver; non-trivial: particles moved by more than 1e-3', shards=4),
    Sub('other_models', others.case(), others.equations, 100, 1500, others.WHAT),
]
