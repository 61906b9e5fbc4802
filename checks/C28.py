"""Models which users define on the base classes (and the models defined there which the other checks do not cover): random right hand sides,
compared with the equations derived from them independently."""
import copy
import torch
import torch.nn.functional as F
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
from ns import sm
import neuro_shooting.shooting_integrands as si
import neuro_shooting.overwrite_classes as oc
import neuro_shooting.state_costate_and_data_dictionary_utils as scd

H = 0.125
NAMES = ['q1', 'q2', 'q10', 'A', 'x_1', 'z', '_s']
LNAMES = ['l1', 'l10', 'l2', 'B', 'conv', 'a_layer', 'zz']


@st.composite
def user_cfg(draw, bases=('linear',), deep=False):
    base = draw(st.sampled_from(list(bases)))
    kind = 'vector' if base == 'ot' else draw(st.sampled_from(['vector', 'vector', 'conv']))
    c = dict(base=base, kind=kind, n=draw(st.integers(1, 4)), nl=draw(st.sampled_from(ns.SMOOTH_NL)), seed=draw(ns.seeds), dseed=draw(ns.seeds))
    c['size'] = draw(st.integers(1, 3)) if kind == 'vector' else [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    c['dim'] = draw(st.integers(1, 2))
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
    c['states'] = [dict(name=x, mult=1 if i == 0 else draw(st.integers(1, 3))) for i, x in enumerate(names)]
    gates = draw(st.integers(0, 1)) if kind == 'vector' and base == 'linear' else 0
    c['gates'] = [dict(name='g%d' % i, of=draw(st.sampled_from(names))) for i in range(gates)]
    c['layers'] = []
    lnames = list(draw(st.permutations(LNAMES)))

    def layer(src, dst, hidden=None):
        return dict(name=lnames.pop(), src=src, dst=dst, nl=draw(st.booleans()), bias=draw(st.booleans()), weight=draw(st.sampled_from([None, 0.5, 1.0, 2.0, 51.25])),
                    bweight=draw(st.sampled_from([None, None, 0.7])), hidden=hidden)
    for q in names:
        # every state changes (but there may be states without influence on any other)
        c['layers'].append(layer(draw(st.sampled_from(names)), q))
        if draw(st.sampled_from([False, False, True])):
            c['layers'].append(layer(draw(st.sampled_from(names)), q))
    if base != 'linear' and deep and draw(st.booleans()):
        l = layer(draw(st.sampled_from(names)), draw(st.sampled_from(names)), hidden=draw(st.integers(1, 3)))
        l['second'] = lnames.pop() if lnames else 'last'
        c['layers'].append(l)
    c['extra'] = [dict(state=q, kind=draw(st.sampled_from(['damp', 'sin', 'time'])), coef=draw(st.sampled_from([-0.5, 0.3, 1.0]))) for q in names
                  if draw(st.sampled_from([False, True]))]
    # layers without influence
    c['idle'] = [[lnames.pop(), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.booleans()), draw(st.sampled_from([None, 2.0]))]] if lnames and draw(st.sampled_from([False, False, True])) else []
    c['pw'] = draw(st.sampled_from([0.2, 0.5, 1.0, 1.7]))
    c['batch'] = draw(st.integers(1, 3))
    c['lead'] = draw(st.lists(st.integers(1, 2), max_size=1)) if kind == 'vector' else []
    c['k'] = draw(st.sampled_from([1, 2, 3, 6]))
    c['vec'] = draw(st.booleans())
    # own trainable parameters of the model, and how the parameters of its layers are chosen
    c['own'] = draw(st.sampled_from([None, None, 'parameter', 'module']))
    c['tensor_weights'] = draw(st.booleans())
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn', 'pf_static', 'pf_time']))
    return c


def width(c, name):
    if name in [g['name'] for g in c['gates']]:
        return 1
    m = [s['mult'] for s in c['states'] if s['name'] == name][0]
    return m * (c['size'] if c['kind'] == 'vector' else c['dim'])


def all_names(c):
    return [s['name'] for s in c['states']] + [g['name'] for g in c['gates']]


def shape(c, name, first, lead=()):
    if c['kind'] == 'vector':
        gate = name in [g['name'] for g in c['gates']]
        return [first] + list(lead) + [1 if gate else c['dim'], width(c, name)]
    return [first, width(c, name)] + c['size']


def layer_objs(c):
    """(name, in, out, bias, weight, weight of the bias) of all the layers"""
    for l in c['layers']:
        if l['hidden'] is None:
            yield l['name'], width(c, l['src']), width(c, l['dst']), l['bias'], l['weight'], l['bweight']
        else:
            h = l['hidden']
            yield l['name'], width(c, l['src']), h, l['bias'], l['weight'], l['bweight']
            yield l['second'], h, width(c, l['dst']), l['bias'], l['weight'], None
    for name, i, o, bias, w in c.get('idle', []):
        yield name, i, o, bias, w, None


def start_values(c):
    g = ns.gen(c['seed'] + 11)
    th = {}
    for name, i, o, bias, w, bw in layer_objs(c):
        th[(name, 'weight')] = ns.randn(g, [o, i] + ([] if c['kind'] == 'vector' else [3, 3]), 0.3)
        if bias:
            th[(name, 'bias')] = ns.randn(g, [o], 0.3)
    return th


BASES = {('linear', 'vector'): si.ShootingLinearInParameterVectorIntegrand, ('linear', 'conv'): si.ShootingLinearInParameterConvolutionIntegrand,
         ('nonlinear', 'vector'): si.ShootingNonlinearInParameterVectorIntegrand, ('nonlinear', 'conv'): si.ShootingNonlinearInParameterConvolutionIntegrand,
         ('ot', 'vector'): si.OptimalTransportNonLinearInParameter}


def user_model(c):
    class UserModel(BASES[(c['base'], c['kind'])]):
        def __init__(self, *args, **kwargs):
            super(UserModel, self).__init__(*args, **kwargs)
            if c.get('own') == 'parameter':
                self.gain = torch.nn.Parameter(torch.tensor([0.7]))
            elif c.get('own') == 'module':
                self.gain_module = torch.nn.Sequential(torch.nn.Linear(1, 2, bias=False), torch.nn.Linear(2, 1))

        def own_gain(self):
            if c.get('own') == 'parameter':
                return self.gain
            return self.gain_module(torch.ones(1)) if c.get('own') == 'module' else None

        def create_initial_state_parameters(self, set_to_zero, *args, **kwargs):
            d = SortedDict()
            for q in all_names(c):
                sh = shape(c, q, c['n'])
                if c['kind'] == 'vector':
                    d[q] = self._state_initializer.create_parameters(nr_of_particles=c['n'], particle_size=sh[2], particle_dimension=sh[1], set_to_zero=set_to_zero)
                else:
                    d[q] = self._state_initializer.create_parameters(nr_of_particles=c['n'], particle_size=sh[2:], particle_dimension=sh[1], set_to_zero=set_to_zero)
            return d

        def create_default_parameter_objects(self):
            d = SortedDict()
            vals = start_values(c)
            for name, i, o, bias, w, bw in layer_objs(c):
                w = torch.tensor(w) if c.get('tensor_weights') and w is not None else w
                if c['kind'] == 'vector':
                    d[name] = oc.SNN_Linear(in_features=i, out_features=o, bias=bias, weight=w)
                else:
                    d[name] = oc.SNN_Conv2d(in_channels=i, out_channels=o, kernel_size=3, padding=1, bias=bias, weight=w)
                if bias and bw is not None:
                    d[name].add_weight('bias', bw)
                pd = d[name].get_parameter_dict()
                for k in list(pd):
                    pd[k] = vals[(name, k)].clone().requires_grad_(True)
            return d

        def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
            s, p = state_dict_or_dict_of_dicts, parameter_objects
            rhs = SortedDict()
            for l in c['layers']:
                y = p[l['name']](self.nl(s[l['src']]) if l['nl'] else s[l['src']])
                if l['hidden'] is not None:
                    y = p[l['second']](self.nl(y))
                k = 'dot_' + l['dst']
                rhs[k] = rhs[k] + y if k in rhs else y
            for e in c['extra']:
                q = s[e['state']]
                k = 'dot_' + e['state']
                rhs[k] = rhs[k] + e['coef'] * (q if e['kind'] == 'damp' else torch.sin(q) if e['kind'] == 'sin' else torch.cos(torch.as_tensor(t, dtype=q.dtype)) * q)
            for g in c['gates']:
                rhs['dot_' + g['of']] = rhs['dot_' + g['of']] - self.nl(s[g['name']]) * s[g['of']]
                rhs['dot_' + g['name']] = torch.zeros_like(s[g['name']])
            gain = self.own_gain()
            if gain is not None:
                main = c['states'][0]['name']
                rhs['dot_' + main] = rhs['dot_' + main] + gain * torch.tanh(s[main])
            return rhs

        def get_initial_data_dict_from_data_tensor(self, x):
            d = SortedDict()
            main = c['states'][0]['name']
            d[main] = x
            for q in all_names(c)[1:]:
                d[q] = torch.zeros(shape(c, q, c['batch'], c['lead']))
            return d

        def disassemble(self, input, dim=1):
            _, _, data = self.disassemble_tensor(input, dim=dim)
            return scd.extract_key_from_dict_of_dicts(data, c['states'][0]['name'])
    return UserModel(in_features=c['size'] if c['kind'] == 'vector' else c['dim'], nonlinearity=c['nl'], nr_of_particles=c['n'], particle_dimension=c['dim'],
                     particle_size=c['size'], parameter_weight=c['pw'], use_rnn_mode=c.get('mode') == 'rnn')


class UserRef(object):
    def __init__(self, c):
        self.c = c
        self.w = {}
        self.gain = None
        for name, i, o, bias, w, bw in layer_objs(c):
            self.w[(name, 'weight')] = 1.0 if w is None else w
            if bias:
                self.w[(name, 'bias')] = bw if bw is not None else self.w[(name, 'weight')]

    def apply(self, th, name, x):
        b = th.get((name, 'bias'))
        if self.c['kind'] == 'vector':
            y = torch.einsum('...i,oi->...o', x, th[(name, 'weight')])
            return y if b is None else y + b
        return F.conv2d(x, th[(name, 'weight')], b, padding=1)

    def f(self, th, s, t):
        c = self.c
        nl = lambda x: ns.ref_nl(c['nl'], x)
        r = {q: torch.zeros_like(s[q]) for q in s}
        for l in c['layers']:
            y = self.apply(th, l['name'], nl(s[l['src']]) if l['nl'] else s[l['src']])
            if l['hidden'] is not None:
                y = self.apply(th, l['second'], nl(y))
            r[l['dst']] = r[l['dst']] + y
        for e in c['extra']:
            q = s[e['state']]
            r[e['state']] = r[e['state']] + e['coef'] * dict(damp=q, sin=torch.sin(q), time=torch.cos(torch.tensor(float(t))) * q)[e['kind']]
        for g in c['gates']:
            r[g['of']] = r[g['of']] - nl(s[g['name']]) * s[g['of']]
        if self.gain is not None:
            main = c['states'][0]['name']
            r[main] = r[main] + self.gain * torch.tanh(s[main])
        return r

    def energy(self, th, s, t):
        if self.c['base'] == 'ot':
            f = self.f(th, s, t)
            return 0.5 * self.c['pw'] * sum((f[q] ** 2).sum() for q in f)
        return 0.5 * sum(self.w[k] * (th[k] ** 2).sum() for k in th)

    def pairing(self, th, s, p, t):
        f = self.f(th, s, t)
        return sum((p[q] * f[q]).sum() for q in f) / self.c['n']

    def theta(self, s, p, t):
        th = {k: v.requires_grad_(True) for k, v in start_values(self.c).items()}
        keys = sorted(th)
        if self.c['base'] == 'linear':
            g = torch.autograd.grad(self.pairing(th, s, p, t), [th[k] for k in keys], create_graph=True, allow_unused=True)
            return {k: torch.zeros_like(th[k]) if gk is None else gk / self.w[k] for k, gk in zip(keys, g)}
        for _ in range(10 if self.c['base'] == 'ot' else 5):
            g = torch.autograd.grad(self.energy(th, s, t) - self.pairing(th, s, p, t), [th[k] for k in keys], create_graph=True, allow_unused=True)
            th = {k: th[k] if gk is None else th[k] - 0.5 * gk for k, gk in zip(keys, g)}
        return th

    def rhs(self, s, p, d, t, th=None):
        with torch.enable_grad():
            s = {k: v.detach().clone().requires_grad_(True) for k, v in s.items()}
            p = {k: v.detach() for k, v in p.items()}
            th = self.theta(s, p, t) if th is None else th
            self.last_theta = {k: v.detach() for k, v in th.items()}
            e = self.energy(th, s, t)
            l = self.c['n'] * (e - self.pairing(th, s, p, t))
            qs = sorted(s)
            dp = torch.autograd.grad(l, [s[q] for q in qs], allow_unused=True)
            ds, dd = self.f(th, s, t), self.f(th, d, t)
        return ({q: ds[q].detach() for q in qs}, {q: torch.zeros_like(s[q]) if x is None else x.detach() for q, x in zip(qs, dp)},
                {q: dd[q].detach() for q in qs}, float(e.detach()))


def check_block(c, b, ref, tol=1e-7):
    g = ns.gen(c['dseed'])
    if c['vec']:
        b.set_integration_time_vector(torch.tensor([H * i for i in range(c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    else:
        b.set_integration_time(H * c['k'])
    names = all_names(c)
    mode, own = c.get('mode', 'particles'), c.get('own')
    steps = dict(pf_static=1, pf_time=2).get(mode, 0)
    named = dict(b.named_parameters())
    keys = sorted(start_values(c))
    exp = ['pf_timestep{}_{}_{}'.format(i, l, k) for i in range(steps) for (l, k) in keys] if steps else names + ['p_' + q for q in names]
    extra = dict(parameter=['gain'], module=['gain_module__0__weight', 'gain_module__1__bias', 'gain_module__1__weight']).get(own, [])
    if len(named) != len(exp) + len(extra) or not set(exp) <= set(named) or {id(p) for p in b.shooting_integrand.parameters()} != {id(p) for k, p in named.items() if k not in exp}:
        fail('parameters {} for the states {}', sorted(named), names)
    with torch.no_grad():
        for k in sorted(exp):
            named[k].copy_(ns.randn(g, named[k].shape, c.get('scale', 0.4)))
        for _, v in sorted(b.shooting_integrand.named_parameters()):
            v.copy_(ns.randn(g, v.shape, 0.6))
    if own:
        with torch.no_grad():
            q = dict(b.shooting_integrand.named_parameters())
            ref.gain = q['gain'] if own == 'parameter' else q['gain_module.1.weight'] @ q['gain_module.0.weight'] @ torch.ones(1) + q['gain_module.1.bias']
            ref.gain = ref.gain.detach().clone()
    x = ns.randn(g, shape(c, names[0], c['batch'], c['lead']), 0.7)
    if steps:
        # particles have no influence here, and are no parameters; a copy of the block tells where they start
        first = copy.deepcopy(b)
        first.set_integration_time_vector(torch.tensor([0.0, H]), suppress_warning=True)
        _, S, P, _ = first(x=x)
        S, P = {q: ns.single(S)[q][0].detach().clone() for q in names}, {q: ns.single(P)['p_' + q][0].detach().clone() for q in names}
    out = b(x=x)
    if not steps:
        S = {q: named[q].detach().clone() for q in names}
        P = {q: named['p_' + q].detach().clone() for q in names}
    D = {q: torch.zeros(shape(c, q, c['batch'], c['lead'])) for q in names}
    D[names[0]] = x
    traj = [(S, P, D)]
    pen = None
    for i in range(c['k']):
        s, p, d = traj[-1]
        th = None
        if steps:
            j = 0 if steps == 1 or i < 4 else 1
            th = {(l, k): named['pf_timestep{}_{}_{}'.format(j, l, k)].detach() for (l, k) in keys}
        elif mode == 'rnn' and i:
            th = ref.last_theta
        ds, dp, dd, e = ref.rhs(s, p, d, H * i, th)
        if pen is None:
            pen = e
            if steps:
                pen = sum(float(ref.energy({(l, k): named['pf_timestep{}_{}_{}'.format(jj, l, k)].detach() for (l, k) in keys}, s, 0.0)) for jj in range(steps)) / steps
        traj.append(tuple({q: a[q] + H * r[q] for q in names} for a, r in zip((s, p, d), (ds, dp, dd))))
    if any(not torch.isfinite(v).all() or float(v.abs().max()) > 1e4 for t3 in traj for a in t3 for v in a.values()):
        return None
    ns.close(b.get_norm_penalty().reshape(-1), torch.tensor([pen]), 'norm penalty', rtol=tol, atol=tol)
    for i in (range(c['k'] + 1) if c['vec'] else [c['k']]):
        at = (lambda v: v[i]) if c['vec'] else (lambda v: v)
        s, p, d = traj[i]
        for q in names:
            ns.close(at(ns.single(out[1])[q]), s[q], 'state {} after {} steps'.format(q, i), rtol=tol, atol=tol)
            ns.close(at(ns.single(out[2])['p_' + q]), p[q], 'costate {} after {} steps'.format(q, i), rtol=tol, atol=tol)
            ns.close(at(ns.single(out[3])[q]), d[q], 'data {} after {} steps'.format(q, i), rtol=tol, atol=tol)
        ns.close(at(out[0]), d[names[0]], 'returned value after {} steps'.format(i), rtol=tol, atol=tol)
    return [c['base'], c['kind'], mode] + ([own] if own else [])


def user_block(c):
    kw = dict(pf_static=dict(use_particle_free_rnn_mode=True), pf_time=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2)).get(c['mode'], {})
    return ns.sb.ShootingBlockBase(name='user', shooting_integrand=user_model(c), integrator=ns.make_integrator('euler', step_size=H), **kw)


def user(c):
    return check_block(c, user_block(c), UserRef(c))


def gradient(c):
    """derivatives of the results of user-defined models"""
    b = user_block(c)
    b.set_integration_time(H * c['k'])
    g = ns.gen(c['dseed'])
    with torch.no_grad():
        for k, v in sorted(b.named_parameters()):
            v.copy_(ns.randn(g, v.shape, 0.4))
    x = ns.randn(g, shape(c, c['states'][0]['name'], c['batch'], c['lead']), 0.7).requires_grad_(True)

    def loss():
        o = b(x=x)
        gw = ns.gen(c['seed'])
        return (ns.randn(gw, o[0].shape) * o[0]).sum() + 0.3 * b.get_norm_penalty().sum()
    l0 = loss()
    if not abs(float(l0.detach())) < 1e2:
        return None
    leaves = [x] + [v for _, v in sorted(b.named_parameters())]
    gr = torch.autograd.grad(l0, leaves, allow_unused=True)
    gr = tuple(torch.zeros_like(v) if q is None else q for v, q in zip(leaves, gr))
    ns.directional_check(loss, leaves[:1], gr[:1], g, 'gradient wrt the data', float(l0.detach()))
    ns.directional_check(loss, leaves[1:], gr[1:], g, 'gradient wrt the particles', float(l0.detach()))
    return [c['base'], c['kind']]


@st.composite
def builtin_case(draw):
    which = draw(st.sampled_from(['dampened_updown', 'ot']))
    c = dict(which=which, kind='vector', n=draw(st.integers(1, 4)), nl=draw(st.sampled_from(ns.SMOOTH_NL)), seed=draw(ns.seeds), dseed=draw(ns.seeds), size=draw(st.integers(1, 3)),
             dim=draw(st.integers(1, 2)), batch=draw(st.integers(1, 3)), lead=[], k=draw(st.integers(1, 3)), vec=draw(st.booleans()), extra=[], scale=draw(st.sampled_from([0.4, 0.4, 0.8, 1.6])))
    lay = lambda name, src, dst, nl, w: dict(name=name, src=src, dst=dst, nl=nl, bias=True, weight=w, bweight=None, hidden=None)
    w = draw(st.sampled_from([None, 0.5, 1.0, 2.0]))
    if which == 'dampened_updown':
        c.update(base='linear', pw=w, states=[dict(name='q1', mult=1), dict(name='q2', mult=draw(st.integers(1, 3)))],
                 gates=[dict(name='c1', of='q1'), dict(name='c2', of='q2')], layers=[lay('l1', 'q2', 'q1', True, w), lay('l2', 'q1', 'q2', True, w)])
    else:
        pw = draw(st.sampled_from([0.2, 0.5, 1.0, 1.7]))
        c['lead'] = draw(st.lists(st.integers(1, 2), max_size=1))
        c.update(base='ot', pw=pw, states=[dict(name='q1', mult=1), dict(name='q2', mult=1)], gates=[],
                 layers=[lay('l1', 'q2', 'q1', True, pw), lay('l2', 'q1', 'q2', False, pw)])
    return c


def builtin_block(c, fill=False, integrator=None):
    kw = dict(in_features=c['size'], nonlinearity=c['nl'], nr_of_particles=c['n'], particle_dimension=c['dim'], particle_size=c['size'], parameter_weight=c['pw'])
    if c['which'] == 'dampened_updown':
        m = sm.AutoShootingIntegrandModelDampenedUpDown(inflation_factor=c['states'][1]['mult'], **kw)
    else:
        class Fixed(sm.AutoShootingOptimalTransportSimple):
            # the initial values of the layers are random otherwise
            def create_default_parameter_objects(self):
                d = super(Fixed, self).create_default_parameter_objects()
                vals = start_values(c)
                for name in d:
                    pd = d[name].get_parameter_dict()
                    for k in list(pd):
                        pd[k] = vals[(name, k)].clone().requires_grad_(True)
                return d
        m = Fixed(**kw)
    b = ns.sb.ShootingBlockBase(name='builtin', shooting_integrand=m, integrator=integrator or ns.make_integrator('euler', step_size=H))
    if fill:
        g = ns.gen(c['dseed'] + 1)
        with torch.no_grad():
            for _, v in sorted(b.named_parameters()):
                v.copy_(ns.randn(g, v.shape, c.get('scale', 0.4)))
    return b


def builtin(c):
    r = check_block(c, builtin_block(c), UserRef(c))
    return None if r is None else [c['which']]


QUICK_SCALE = 2

SUBS = [
    Sub('linear', user_cfg(('linear',)), user, 600, 12000, 'random models with 1-3 states which are linear in their parameters; non-trivial: does not blow up', shards=3),
    Sub('nonlinear', user_cfg(('nonlinear', 'nonlinear', 'ot'), deep=True), user, 300, 6000, 'random models, nonlinear in their parameters or with a transport energy; non-trivial: does not blow up', shards=3),
    Sub('gradient', user_cfg(('linear', 'linear', 'nonlinear'), deep=True), gradient, 150, 3000, 'random models; non-trivial: does not blow up', shards=2),
    Sub('builtin', builtin_case(), builtin, 120, 2000, 'dampened up-down and optimal transport models; non-trivial: does not blow up', shards=2),
]
