"""Modes with parameters which are fixed, piecewise constant in time, or computed once."""
import torch
from pbt import Sub, st, fail
import ns
from ns import sb
from C01 import initial_data


@st.composite
def look_case(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([15, 16, 17, 23, 32, 64])))
    t0 = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -2.0]))
    T = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.0, 10.0]))
    # queries in units of 1/8 of a step: multiples of 8 are exactly at the boundary
    qs = draw(st.lists(st.integers(-6, 8 * n + 6), min_size=1, max_size=25))
    return dict(n=n, t0=t0, T=T, qs=qs, f32=draw(st.booleans()), scalar=draw(st.booleans()))


def lookup(c):
    """the parameters at a time do not depend on which times were asked for before"""
    if not hasattr(sb, 'ParticleFreeParameterFunc'):
        from pbt import Skip
        raise Skip('no ParticleFreeParameterFunc')
    dtype = torch.float32 if c['f32'] else torch.float64
    made = []

    def create():
        made.append(len(made))
        return made[-1]
    f = sb.ParticleFreeParameterFunc(time_dependent_steps=c['n'], integration_time=torch.tensor([c['t0'], c['t0'] + c['T']], dtype=dtype), parameter_creation_func=create)
    pars = f.get_time_parameter_list()
    if list(pars) != list(range(c['n'])):
        fail('{} sets of parameters instead of {}', len(pars), c['n'])
    exact = (c['n'] & (c['n'] - 1)) == 0  # boundaries are representable
    used = 0
    for q in c['qs']:
        if q % 8 == 0 and not exact and q not in (0,):
            continue
        t = c['t0'] + c['T'] * q / (8.0 * c['n'])
        e = min(max(q // 8, 0), c['n'] - 1)
        got = f.get_parameters_at_time(torch.tensor(t, dtype=dtype))
        used += 1
        if got != e:
            fail('parameters of step {} instead of step {} at time {} (steps of {})', got, e, t, c['T'] / c['n'])
    return ['n%d' % c['n']] if used > 2 and c['n'] > 1 else None


@st.composite
def flow_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL, modes=['rnn', 'pf_static', 'pf_time', 'pf_time', 'pf_time'], max_particles=3, conv_max=4))
    if c['mode'] == 'pf_time':
        c['pfsteps'] = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 17]))
    c['max_time'] = draw(st.sampled_from([None, None, 0.5, 2.0]))
    c['k'] = draw(st.integers(1, 8))
    c['vec'] = draw(st.booleans())
    c['start'] = draw(st.sampled_from([0, 0, 1, 2, 5, -2]))
    c['order'] = draw(st.permutations([0, 1, 2]))
    return c


def flow(c):
    """explicit Euler steps of a block with given (piecewise constant) parameters, for several integration times in any order"""
    T = 1.0 if c['max_time'] is None else c['max_time']
    h = T / 8
    kw = {} if c['max_time'] is None else dict(max_integration_time=c['max_time'])
    b = ns.mode_block(c, integrator=ns.make_integrator('euler', step_size=h), **kw)
    g = ns.gen(c['dseed'])
    ref = ns.Ref(c)
    keys = sorted(ref.zero_theta())
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    steps = [c['k'], 8, 3]
    for which in c['order']:
        n = steps[which]
        if c['vec']:
            b.set_integration_time_vector(torch.tensor([(i + c['start']) * h for i in range(n + 1)]), suppress_warning=bool(c['seed'] % 2))
        else:
            b.set_integration_time(n * h)
        out = b(x=x)
        if c['mode'] == 'rnn':
            s, p = ns.own_particles(b, c)
            th0 = {k: v.detach() for k, v in ref.theta(s, p).items()}
            th_of = lambda i: th0
        else:
            named = dict(b.named_parameters())
            m = c['pfsteps'] if c['mode'] == 'pf_time' else 1
            off = c['start'] if c['vec'] else 0
            th_of = lambda i: {(l, k): named['pf_timestep{}_{}_{}'.format(max(0, min((i + off) * m // 8, m - 1)), l, k)].detach() for (l, k) in keys}
            # particles are not parameters, take them from a run
            if c['vec']:
                s = {q: ns.single(out[1])[q][0].detach() for q in ns.single(out[1])}
                p = {q: ns.single(out[2])['p_' + q][0].detach() for q in ns.single(out[1])}
            else:
                s = p = None
        d = {k: v for k, v in initial_data(c, x).items()}
        for i in range(n + 1):
            if c['vec'] or i == n:
                at = (lambda v: v[i]) if c['vec'] else (lambda v: v)
                ns.close(at(out[0]), d['q1'], 'value after {} steps'.format(i), rtol=1e-6, atol=1e-7)
                for q in d:
                    ns.close(at(ns.single(out[3])[q]), d[q], 'data {} after {} steps'.format(q, i), rtol=1e-6, atol=1e-7)
                if s is not None:
                    for q in s:
                        ns.close(at(ns.single(out[1])[q]), s[q], 'state {} after {} steps'.format(q, i), rtol=1e-6, atol=1e-7)
                        ns.close(at(ns.single(out[2])['p_' + q]), p[q], 'costate {} after {} steps'.format(q, i), rtol=1e-6, atol=1e-7)
            if i < n:
                th = th_of(i)
                fd = ref.f(th, d)
                if s is not None:
                    fs = ref.f(th, s)
                    with torch.enable_grad():
                        fp = ref.costate_rhs(th, s, p)
                    p = {q: (p[q] + h * fp[q]).detach() for q in p}
                    s = {q: (s[q] + h * fs[q]).detach() for q in s}
                d = {q: d[q] + h * fd[q] for q in d}
    return [c['mode'], c['model'], 'steps%d' % c['pfsteps']]


@st.composite
def local_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, modes=['pf_time'], max_particles=2, conv_max=3))
    c['pfsteps'] = draw(st.sampled_from([2, 3, 4, 5]))
    c['changed'] = draw(st.integers(0, c['pfsteps'] - 1))
    c['per'] = draw(st.integers(1, 3))
    return c


def locality(c):
    """parameters of one time interval have no influence before it, and they have one afterwards"""
    n, per, j = c['pfsteps'], c['per'], c['changed']
    h = 1.0 / (n * per)
    # evaluation times are midpoints of the steps: no rounding problems at the boundaries
    b = ns.mode_block(c, integrator=ns.make_integrator('midpoint', step_size=h))
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    # euler-like evaluation exactly at boundaries is only well defined for powers of two
    exact = n in (2, 4) and per != 3
    ts = torch.tensor([i / float(n) for i in range(n + 1)], dtype=torch.float64)
    b.set_integration_time_vector(ts, suppress_warning=bool(c['seed'] % 2))
    with torch.no_grad():
        r0 = b(x=x)[0].clone()
        for k, v in b.named_parameters():
            if k.startswith('pf_timestep{}_'.format(j)):
                v.add_(0.5 + 0.1 * ns.randn(g, v.shape))
        r1 = b(x=x)[0].clone()
    last = j if exact else j  # value at the beginning of the interval is not affected
    ns.close(r1[:last + 1], r0[:last + 1], 'values before the interval whose parameters are changed', rtol=1e-12, atol=1e-13)
    if float((r1[j + 1] - r0[j + 1]).abs().max()) < 1e-9:
        fail('the parameters of interval {} of {} have no influence on the value at its end', j, n)
    # the gradient at the end of interval i only involves the parameters up to i
    for i in [j]:
        b.set_integration_time(float(ts[i + 1]))
        named = sorted(b.named_parameters())
        gr = torch.autograd.grad((b(x=x)[0] ** 2).sum(), [v for _, v in named], allow_unused=True)
        for (k, v), gk in zip(named, gr):
            step = int(k.split('_')[1][len('timestep'):]) if k.startswith('pf_timestep') else None
            if step is not None and step > i and gk is not None and float(gk.abs().max()) > 1e-5 * max(1.0, float(x.abs().max())):
                fail('parameter {} of a later interval has a gradient', k)
    return ['steps%d' % n]


@st.composite
def equal_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL, modes=['pf_time'], max_particles=2))
    c['pfsteps'] = draw(st.sampled_from([1, 2, 3, 4, 6]))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint', 'dopri5']))
    c['T'] = draw(st.sampled_from([0.5, 1.0, 1.5]))
    return c


def equal_parameters(c):
    """time-dependent parameters which are all the same are static parameters"""
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']), 0.5)
    integ = ns.make_integrator(c['method'], step_size=0.25)
    b = ns.mode_block(c, integrator=integ, fill=0.3)
    st_c = dict(c, mode='pf_static')
    a = ns.mode_block(st_c, integrator=integ, fill=0.3)
    na, nb = dict(a.named_parameters()), dict(b.named_parameters())
    with torch.no_grad():
        for k in nb:
            if k.startswith('pf_timestep'):
                rest = k.split('_', 2)[2]
                nb[k].copy_(na['pf_timestep0_' + rest])
        a.set_integration_time(c['T'])
        b.set_integration_time(c['T'])
        ra, rb = a(x=x), b(x=x)
    ns.close(rb[0], ra[0], 'time-dependent with equal parameters', rtol=1e-9, atol=1e-10)
    ns.close(b.get_norm_penalty().reshape(-1), a.get_norm_penalty().reshape(-1), 'norm penalty with equal parameters')
    for q in ns.single(ra[3]):
        ns.close(ns.single(rb[3])[q], ns.single(ra[3])[q], 'time-dependent with equal parameters: ' + q, rtol=1e-9, atol=1e-10)
    return ['steps%d' % c['pfsteps'], c['model']]


@st.composite
def both_case(draw):
    return draw(ns.block_cfg())


def both(c):
    try:
        ns.make_block(c, use_particle_free_rnn_mode=True, use_particle_free_time_dependent_mode=True)
    except ValueError:
        return True
    fail('static and time-dependent parameters at the same time were accepted')


QUICK_SCALE = 3

SUBS = [
    Sub('lookup', look_case(), lookup, 500, 10000, 'sequences of queries inside, outside and at the boundaries of the intervals, in any order; non-trivial: several intervals and at least three queries', shards=2),
    Sub('flow', flow_case(), flow, 250, 4000, 'random blocks integrated for three different times, compared with Euler steps of the reference; every case counts', shards=4),
    Sub('locality', local_case(), locality, 150, 2500, 'random blocks, one interval changed; every case counts', shards=2),
    Sub('equal_parameters', equal_case(), equal_parameters, 100, 1500, 'random blocks; every case counts', shards=2),
    Sub('both', both_case(), both, 10, 50, 'contradicting modes'),
]
