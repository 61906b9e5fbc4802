"""Access to the code under test, generators of configurations and the independent reference implementation
of the shooting equations (written from the published equations; it shares no code with /repo)."""
import math

import torch
import torch.nn.functional as F
from sortedcontainers import SortedDict

from pbt import st, fail, Violation

import neuro_shooting.shooting_models as sm
import neuro_shooting.shooting_blocks as sb
import neuro_shooting.generic_integrator as gi
import neuro_shooting.parameter_initialization as pi

# ----------------------------------------------------------------------------------------------------------------
# reference description of all the models
#   states:  state -> 'in' (same size as the data) or 'infl' (inflation_factor times larger)
#   terms:   state -> list of (layer, 'nl' | 'id' | 'gn', input state); the time derivative is the sum of layer(f(input))
#   nobias:  layers without bias
#   damp:    state -> d, adds -d*state
# ----------------------------------------------------------------------------------------------------------------

MODELS = {
    'simple': dict(cls='AutoShootingIntegrandModelSimple', kind='vector', states=dict(q1='in'),
                   terms=dict(q1=[('l1', 'nl', 'q1')]), analytic=True),
    'debug': dict(cls='DEBUGAutoShootingIntegrandModelSimple', kind='vector', states=dict(q1='in', q2='in'),
                  terms=dict(q1=[('l1', 'nl', 'q1')], q2=[('l2', 'nl', 'q2')]), analytic=True),
    '2nd_order': dict(cls='AutoShootingIntegrandModelSecondOrder', kind='vector', states=dict(q1='in', q2='in'),
                      terms=dict(q1=[('l1', 'nl', 'q2')], q2=[('l2', 'id', 'q1')])),
    'updown': dict(cls='AutoShootingIntegrandModelUpDown', kind='vector', states=dict(q1='in', q2='infl'),
                   terms=dict(q1=[('l1', 'nl', 'q2')], q2=[('l2', 'id', 'q1')]), analytic=True, dataopt=['direct', 'linear', 'mini_nn']),
    'universal': dict(cls='AutoShootingIntegrandModelUpDownUniversal', kind='vector', states=dict(q1='in', q2='infl'),
                      terms=dict(q1=[('l1', 'nl', 'q2')], q2=[('l2', 'id', 'q1'), ('l3', 'nl', 'q2')]), nobias=['l3'],
                      optional_weight=dict(l3=10.), analytic=True, dataopt=['direct', 'linear', 'mini_nn']),
    'general': dict(cls='AutoShootingIntegrandModelGeneralUpDown', kind='vector', states=dict(q1='in', q2='infl'),
                    terms=dict(q1=[('l11', 'nl', 'q2'), ('l12', 'id', 'q1'), ('l13', 'nl', 'q1'), ('l14', 'id', 'q2')],
                               q2=[('l21', 'id', 'q1'), ('l22', 'id', 'q2'), ('l23', 'nl', 'q2'), ('l24', 'nl', 'q1')]),
                    nobias=['l12', 'l13', 'l14', 'l22', 'l23', 'l24'], analytic=True, dataopt=['direct', 'linear', 'mini_nn']),
    'dampened': dict(cls='AutoShootingIntegrandModelUpdownDampenedQ2', kind='vector', states=dict(q1='in', q2='infl'),
                     terms=dict(q1=[('l1', 'nl', 'q2')], q2=[('l2', 'id', 'q1')]), damp=dict(q2=-0.5), analytic=True),
    'symmetrized': dict(cls='AutoShootingIntegrandModelUpdownSymmetrized', kind='vector', states=dict(q1='in', q2='infl', q3='in'),
                        terms=dict(q1=[('l1', 'nl', 'q2')], q2=[('l2', 'nl', 'q3')], q3=[('l3', 'id', 'q1')]), analytic=True),
    'periodic': dict(cls='AutoShootingIntegrandModelUpdownPeriodic', kind='vector', states=dict(q1='in', q2='infl'),
                     terms=dict(q1=[('l1', 'nl', 'q2'), ('l3', 'id', 'q1')], q2=[('l2', 'id', 'q1')]), nobias=['l3'],
                     analytic=True, dataopt=['direct', 'linear', 'mini_nn']),
    'conv': dict(cls='AutoShootingIntegrandModelSimpleConv2D', kind='conv', states=dict(q1='in', q2='in'),
                 terms=dict(q1=[('conv1', 'nl', 'q2')], q2=[('conv2', 'id', 'q1')])),
    'conv_batch': dict(cls='AutoShootingIntegrandModelConv2DBatch', kind='conv', states=dict(q1='in', q2='in'),
                       terms=dict(q1=[('conv1', 'nl', 'q2')], q2=[('conv2', 'gn', 'q1')])),
    'conv_updown': dict(cls='AutoShootingIntegrandModelUpDownConv2D', kind='conv', states=dict(q1='in', q2='infl'),
                        terms=dict(q1=[('conv1', 'nl', 'q2')], q2=[('conv2', 'id', 'q1')]), dataopt=['linear', 'mini_nn']),
}

VECTOR_MODELS = [m for m in MODELS if MODELS[m]['kind'] == 'vector']
CONV_MODELS = [m for m in MODELS if MODELS[m]['kind'] == 'conv']
ANALYTIC_MODELS = [m for m in MODELS if MODELS[m].get('analytic')]
INFLATED = [m for m in MODELS if 'infl' in MODELS[m]['states'].values()]
DATAOPT_MODELS = [m for m in MODELS if MODELS[m].get('dataopt')]

SMOOTH_NL = ['identity', 'tanh', 'sigmoid', 'softmax']
ALL_NL = SMOOTH_NL + ['relu']


def ref_nl(name, x):
    """independent definition of the nonlinearities"""
    if name is None or name == 'identity':
        return x
    if name == 'relu':
        return torch.where(x > 0, x, torch.zeros_like(x))
    if name == 'tanh':
        return 2. / (1. + torch.exp(-2. * x)) - 1.
    if name == 'sigmoid':
        return 1. / (1. + torch.exp(-x))
    if name == 'softmax':
        return x / (1. + torch.exp(-x))
    raise KeyError(name)


# ----------------------------------------------------------------------------------------------------------------
# configurations
# ----------------------------------------------------------------------------------------------------------------

seeds = st.integers(min_value=0, max_value=2 ** 20)
weights = st.sampled_from([None, 1.0, 0.5, 2.0, 3.5, 20.0, 1.23456, 137.25])
# small weights make the flow fast: for checks which do not integrate
wide_weights = st.sampled_from([None, 1.0, 0.5, 2.0, 3.5, 20.0, 0.125, 0.01, 1.23456, 137.25, 2345.67])


@st.composite
def model_cfg(draw, models=None, nls=None, max_particles=5, max_dim=3, max_size=4, conv_max=5, weights_=weights):
    m = draw(st.sampled_from(models if models is not None else list(MODELS)))
    spec = MODELS[m]
    # occasionally more particles than usual
    n = draw(st.one_of(st.integers(1, max_particles), st.integers(1, max_particles), st.integers(1, max_particles), st.sampled_from([8, 11, 11, 21, 34])))
    c = dict(model=m, nl=draw(st.sampled_from(nls if nls is not None else SMOOTH_NL)), n=n, weight=draw(weights_))
    if spec['kind'] == 'vector':
        c['dim'] = draw(st.integers(1, max_dim))
        c['size'] = draw(st.integers(1, max_size))
        # occasionally more features than usual
        if max_size > 2 and draw(st.sampled_from([False] * 7 + [True])):
            c['size'] = draw(st.sampled_from([6, 8, 11]))
    else:
        c['dim'] = draw(st.integers(1, max_dim))
        c['size'] = [draw(st.integers(2, conv_max)), draw(st.integers(2, conv_max))]
        if draw(st.sampled_from([False] * 9 + [True])):
            c[draw(st.sampled_from(['dim', 'size']))] = None
            if c['dim'] is None:
                c['dim'] = draw(st.sampled_from([4, 5, 8]))
            if c['size'] is None:
                c['size'] = [draw(st.sampled_from([6, 7, 9])), draw(st.integers(2, conv_max))]
        c['fs'] = draw(st.sampled_from([3, 3, 3, 3, 1, 5]))
    if m in INFLATED:
        c['infl'] = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 9]))
    if spec.get('optional_weight'):
        c['optw'] = draw(st.sampled_from([None, 1.0, 10.0, 2.5]))
    c['seed'] = draw(seeds)
    c['mag'] = draw(st.sampled_from([0.1, 0.4, 0.8]))
    return c


def in_features(c, total_feat=None):
    if total_feat is not None:
        return total_feat
    return c['size'] if MODELS[c['model']]['kind'] == 'vector' else c['dim']


def make_model(c, total_feat=None, **kwargs):
    """creates the integrand of the library; total_feat: overall number of features when there are pass-through states"""
    spec = MODELS[c['model']]
    kw = dict(in_features=in_features(c, total_feat), nonlinearity=c['nl'], nr_of_particles=c['n'],
              particle_dimension=c['dim'], particle_size=c['size'], parameter_weight=c['weight'])
    if 'infl' in c:
        kw['inflation_factor'] = c['infl']
    if c.get('fs', 3) != 3:
        kw['filter_size'] = c['fs']
    if c.get('optw') is not None:
        kw['optional_weight'] = c['optw']
    cls = pi.VectorEvolutionParameterInitializer if spec['kind'] == 'vector' else pi.ConvolutionEvolutionParameterInitializer
    mag = c.get('mag', 0.5)
    kw['state_initializer'] = cls(only_random_initialization=True, random_initialization_magnitude=mag)
    kw['costate_initializer'] = cls(only_random_initialization=True, random_initialization_magnitude=mag)
    kw.update(kwargs)
    return getattr(sm, spec['cls'])(**kw)


def make_integrator(name='rk4', step_size=0.25, **kwargs):
    if name == 'dopri5' and 'integrator_options' not in kwargs:
        # some of these nonlinear systems blow up in finite time: the solver gives up (see pbt.run_case)
        kwargs['integrator_options'] = dict(max_num_steps=400)
    return gi.GenericIntegrator(integrator_library='odeint', integrator_name=name, step_size=step_size, **kwargs)


def make_block(c, integrator=None, name='block', total_feat=None, model_kwargs=None, **kwargs):
    torch.manual_seed(c['seed'])
    model = make_model(c, total_feat=total_feat, **(model_kwargs or {}))
    block = sb.ShootingBlockBase(name=name, shooting_integrand=model, integrator=integrator or make_integrator(), **kwargs)
    # none of the models depends on the mode
    if c['seed'] % 3 == 0:
        block.eval()
    return block


def gen(seed):
    g = torch.Generator()
    g.manual_seed(int(seed) & 0x7fffffff)
    return g


def randn(g, shape, scale=1.0, dtype=torch.float64):
    return scale * torch.randn(tuple(shape), generator=g, dtype=dtype)


def state_shape(c, kind, feat=None):
    """shape of one particle state; feat overrides the number of features (vector: size, conv: channels)"""
    spec = MODELS[c['model']]
    f = c.get('infl', 1) if kind == 'infl' else 1
    if spec['kind'] == 'vector':
        return [c['n'], c['dim'], (feat or c['size']) * f]
    return [c['n'], (feat or c['dim']) * f, c['size'][0], c['size'][1]]


def data_shape(c, batch, feat=None):
    if MODELS[c['model']]['kind'] == 'vector':
        return [batch, c['dim'], feat or c['size']]
    return [batch, feat or c['dim'], c['size'][0], c['size'][1]]


def random_dicts(c, g, batch, feats=None, scale=0.7, names=None):
    """random states, costates and data for one or several blocks (feats: features of every block)"""
    spec = MODELS[c['model']]
    feats = feats or [None]
    names = names or ['b%d' % i for i in range(len(feats))]
    s, p, d = SortedDict(), SortedDict(), SortedDict()
    for name, f in zip(names, feats):
        s[name], p[name], d[name] = SortedDict(), SortedDict(), SortedDict()
        for q in sorted(spec['states']):
            shp = state_shape(c, spec['states'][q], f)
            s[name][q] = randn(g, shp, scale).requires_grad_(True)
            p[name]['p_' + q] = randn(g, shp, scale).requires_grad_(True)
            dshp = list(shp)
            dshp[0] = batch
            d[name][q] = randn(g, dshp, scale)
    return s, p, d


# ----------------------------------------------------------------------------------------------------------------
# reference implementation
# ----------------------------------------------------------------------------------------------------------------

def feat_axis(c):
    return 2 if MODELS[c['model']]['kind'] == 'vector' else 1


def cat_blocks(c, dd, key):
    return torch.cat([dd[b][key] for b in sorted(dd)], dim=feat_axis(c))


def split_like(c, t, dd, key):
    sizes = [dd[b][key].shape[feat_axis(c)] for b in sorted(dd)]
    return dict(zip(sorted(dd), torch.split(t, sizes, dim=feat_axis(c))))


class Ref(object):
    """Shooting equations of one model for concatenated states (dictionary state -> tensor)"""

    def __init__(self, c, total_feat=None):
        self.c = c
        self.spec = MODELS[c['model']]
        self.feat = in_features(c, total_feat)
        self.infl = c.get('infl', 1)

    def width(self, q):
        return self.feat * (self.infl if self.spec['states'][q] == 'infl' else 1)

    def layers(self):
        for q in sorted(self.spec['terms']):
            for (l, f, src) in self.spec['terms'][q]:
                yield l, f, src, q

    def zero_theta(self):
        th = {}
        for l, f, src, q in self.layers():
            wshape = [self.width(q), self.width(src)] + ([] if self.spec['kind'] == 'vector' else [self.c.get('fs', 3)] * 2)
            th[(l, 'weight')] = torch.zeros(wshape, dtype=torch.float64)
            if l not in self.spec.get('nobias', []):
                th[(l, 'bias')] = torch.zeros([self.width(q)], dtype=torch.float64)
        return th

    def weight_of(self, key):
        l, k = key
        ow = self.spec.get('optional_weight')
        if ow and l in ow and k == 'weight':
            return self.c['optw'] if self.c.get('optw') is not None else ow[l]
        return 1.0 if self.c['weight'] is None else self.c['weight']

    def act(self, f, x):
        if f == 'id':
            return x
        if f == 'nl':
            return ref_nl(self.c['nl'], x)
        if f == 'gn':
            mu = x.mean(dim=(2, 3), keepdim=True)
            var = ((x - mu) ** 2).mean(dim=(2, 3), keepdim=True)
            return (x - mu) / torch.sqrt(var + 1e-5)
        raise KeyError(f)

    def layer(self, th, l, x):
        w = th[(l, 'weight')]
        b = th.get((l, 'bias'))
        if self.spec['kind'] == 'vector':
            y = torch.einsum('...i,oi->...o', x, w)
            return y if b is None else y + b
        # sum over the shifted images
        n, ci, h, wd = x.shape
        k = w.shape[2]
        xp = F.pad(x, [k // 2] * 4)
        y = 0
        for i in range(k):
            for j in range(k):
                y = y + torch.einsum('ncij,oc->noij', xp[:, :, i:i + h, j:j + wd], w[:, :, i, j])
        return y if b is None else y + b.view(1, -1, 1, 1)

    def f(self, th, s):
        """right hand side of the states"""
        ret = {}
        for q in sorted(self.spec['terms']):
            r = 0
            for (l, a, src) in self.spec['terms'][q]:
                r = r + self.layer(th, l, self.act(a, s[src]))
            d = self.spec.get('damp', {}).get(q)
            if d is not None:
                r = r - d * s[q]
            ret[q] = r
        return ret

    def pairing(self, th, s, p):
        """mean over the particles of <p, f>"""
        f = self.f(th, s)
        return sum((p[q] * f[q]).sum() for q in f) / s['q1'].shape[0]

    def theta(self, s, p, create_graph=False):
        """optimal parameters: the minimizer of 1/2 sum w |theta|^2 - pairing; the pairing is affine in theta"""
        th = {k: v.requires_grad_(True) for k, v in self.zero_theta().items()}
        u = self.pairing(th, s, p)
        keys = sorted(th)
        g = torch.autograd.grad(u, [th[k] for k in keys], create_graph=create_graph, allow_unused=True)
        ret = {}
        for k, gk in zip(keys, g):
            gk = gk if gk is not None else torch.zeros_like(th[k])
            ret[k] = gk / self.weight_of(k)
        return ret

    def kinetic(self, th):
        return 0.5 * sum(self.weight_of(k) * (th[k] ** 2).sum() for k in th)

    def costate_rhs(self, th, s, p):
        """- d <p_i, f(q_i; theta)> / d q_i for fixed theta (envelope theorem)"""
        qs = sorted(s)
        leaf = {q: s[q].detach().clone().requires_grad_(True) for q in qs}
        thd = {k: v.detach() for k, v in th.items()}
        f = self.f(thd, leaf)
        u = sum((p[q].detach() * f[q]).sum() for q in f)
        g = torch.autograd.grad(u, [leaf[q] for q in qs], allow_unused=True)
        return {q: (-gk if gk is not None else torch.zeros_like(leaf[q])) for q, gk in zip(qs, g)}

    def hamiltonian(self, s, p):
        th = self.theta(s, p)
        return float((self.pairing(th, s, p) - self.kinetic(th)).detach())

    def rhs(self, s, p, d, th=None):
        with torch.enable_grad():
            s = {k: v.detach() for k, v in s.items()}
            p = {k: v.detach() for k, v in p.items()}
            d = {k: v.detach() for k, v in d.items()}
            if th is None:
                th = self.theta(s, p)
            th = {k: v.detach() for k, v in th.items()}
            ds = {k: v.detach() for k, v in self.f(th, s).items()}
            dd = {}
            # data may have additional leading dimensions
            dd = {k: v.detach() for k, v in self.f(th, d).items()}
            dp = self.costate_rhs(th, s, p)
        return ds, dp, dd, th

    def flow(self, s, p, d, times, th_at=None, method='rk4', nsteps=None, step=0.05):
        """integrates the reference with classical RK4 (uniform substeps of at most `step`); returns list over times"""
        cur = ({k: v.detach().clone() for k, v in s.items()}, {k: v.detach().clone() for k, v in p.items()},
               {k: v.detach().clone() for k, v in d.items()})

        def add(a, h, b):
            return tuple({k: x[k] + h * y[k] for k in x} for x, y in zip(a, b))

        def rhs(state):
            r = self.rhs(state[0], state[1], state[2], th=th_at)
            return r[0], r[1], r[2]

        out = [cur]
        for t0, t1 in zip(times[:-1], times[1:]):
            n = max(1, int(math.ceil(abs(t1 - t0) / step - 1e-9)))
            h = (t1 - t0) / n
            for _ in range(n):
                if method == 'euler':
                    cur = add(cur, h, rhs(cur))
                else:
                    k1 = rhs(cur)
                    k2 = rhs(add(cur, h / 2, k1))
                    k3 = rhs(add(cur, h / 2, k2))
                    k4 = rhs(add(cur, h, k3))
                    cur = add(add(add(add(cur, h / 6, k1), h / 3, k2), h / 3, k3), h / 6, k4)
            out.append(cur)
        return out


def close(a, b, what, rtol=1e-8, atol=1e-9):
    a = torch.as_tensor(a).detach().to(torch.float64)
    b = torch.as_tensor(b).detach().to(torch.float64)
    if tuple(a.shape) != tuple(b.shape):
        fail('{}: shape {} differs from the expected shape {}', what, tuple(a.shape), tuple(b.shape))
    if a.numel() == 0:
        return
    if not torch.isfinite(b).all() or float(b.abs().max()) > 1e8:
        # the solution blows up (possible for these nonlinear systems): rounding errors are amplified, nothing to compare
        return
    d = (a - b).abs()
    tol = atol + rtol * torch.maximum(b.abs(), b.abs().max())
    if not torch.isfinite(a).all() or bool((d > tol).any()):
        i = int((d - tol).reshape(-1).argmax()) if torch.isfinite(d).all() else 0
        fail('{}: {} instead of {} (max difference {:.3e})', what, float(a.reshape(-1)[i]), float(b.reshape(-1)[i]), float(d.max()))


def single(dd):
    """the only block of a dictionary of dictionaries"""
    if len(dd) != 1:
        fail('expected one block, got {}', list(dd))
    return dd[list(dd)[0]]


def block_params(block):
    return dict(block.named_parameters())


def set_state(block, c, g, scale=0.6):
    """overwrites the particles of a block (registered parameters) with known values"""
    with torch.no_grad():
        for k, v in sorted(block.named_parameters()):
            v.copy_(randn(g, v.shape, scale))


def own_particles(block, c):
    """(states, costates) of the block as plain dictionaries taken from its registered parameters"""
    pars = dict(block.named_parameters())
    qs = sorted(MODELS[c['model']]['states'])
    return {q: pars[q] for q in qs}, {q: pars['p_' + q] for q in qs}


# ----------------------------------------------------------------------------------------------------------------
# blocks in all their modes
# ----------------------------------------------------------------------------------------------------------------

MODES = ['particles', 'particles', 'particles', 'rnn', 'pf_static', 'pf_time']


@st.composite
def block_cfg(draw, models=None, nls=None, modes=None, analytic=True, max_batch=4, **kw):
    c = draw(model_cfg(models=models, nls=nls, **kw))
    c['mode'] = draw(st.sampled_from(modes if modes is not None else MODES))
    c['analytic'] = bool(analytic and draw(st.sampled_from([False, False, True])) and c['model'] in ANALYTIC_MODELS and c['dim'] == 1)
    c['batch'] = draw(st.one_of(st.integers(1, max_batch), st.integers(1, max_batch), st.integers(1, max_batch), st.sampled_from([7, 12, 12, 33, 70])))
    c['dseed'] = draw(seeds)
    # powers of two: no ties between step boundaries and evaluation times due to rounding
    c['pfsteps'] = draw(st.sampled_from([1, 2, 4, 11, 13])) if c['mode'] == 'pf_time' else 1
    return c


def mode_block(c, name='block', integrator=None, pass_through=False, fill=0.5, total_feat=None, model_kwargs=None, **more):
    """creates a block for a block_cfg and fills its parameters with reproducible values"""
    kw = {}
    mk = dict(use_rnn_mode=(c['mode'] == 'rnn'))
    if c['analytic']:
        mk['use_analytic_solution'] = True
    if pass_through:
        mk['is_pass_through'] = True
    if c['mode'] == 'pf_static':
        kw['use_particle_free_rnn_mode'] = True
    if c['mode'] == 'pf_time':
        kw['use_particle_free_time_dependent_mode'] = True
        kw['nr_of_particle_free_time_dependent_steps'] = c['pfsteps']
    kw.update(more)
    mk.update(model_kwargs or {})
    block = make_block(c, name=name, integrator=integrator, model_kwargs=mk, total_feat=total_feat, **kw)
    if fill is not None:
        set_state(block, c, gen(c['dseed'] + 1), fill)
    return block


def cmp_dicts(got, expected, what, **tol):
    """compares dictionaries of dictionaries of tensors"""
    if sorted(got) != sorted(expected):
        fail('{}: blocks {} instead of {}', what, sorted(got), sorted(expected))
    for b in expected:
        if sorted(got[b]) != sorted(expected[b]):
            fail('{}: entries {} instead of {}', what, sorted(got[b]), sorted(expected[b]))
        for k in expected[b]:
            close(got[b][k], expected[b][k], '{} {}'.format(what, k), **tol)


def cmp_outputs(got, expected, what='', **tol):
    """compares everything a block returns"""
    close(got[0], expected[0], what + ' returned value', **tol)
    for i, n in [(1, 'state'), (2, 'costate'), (3, 'data')]:
        cmp_dicts(got[i], expected[i], what + ' ' + n, **tol)


def size_of(out):
    """largest absolute value of everything a block returns (nan if there is one)"""
    vals = [out[0]] + [dd[b][k] for dd in out[1:] for b in dd for k in dd[b]]
    return max(float(torch.nan_to_num(v.detach().abs(), nan=float('inf')).max()) for v in vals if v.numel())


def at_time(dd, i):
    ret = SortedDict()
    for b in dd:
        ret[b] = SortedDict()
        for k in dd[b]:
            ret[b][k] = dd[b][k][i]
    return ret


def detached(dd):
    ret = SortedDict()
    for b in dd:
        ret[b] = SortedDict()
        for k in dd[b]:
            ret[b][k] = dd[b][k].detach().clone()
    return ret


def directional_check(loss_fn, leaves, grads, g, what, base):
    """compares the gradients of a scalar function with central differences in one random direction; several step sizes,
    as functions with strong curvature need small ones and flat ones need large ones. Returns the derivative."""
    dirs = [randn(g, v.shape) for v in leaves]
    ana = sum(float((a * d).sum()) for a, d in zip(grads, dirs) if a is not None)
    fd = None
    for h in [1e-5, 1e-6, 1e-4]:
        vals = []
        with torch.no_grad():
            for s in [h, -h]:
                for v, d in zip(leaves, dirs):
                    v.add_(s * d)
                vals.append(float(loss_fn()))
                for v, d in zip(leaves, dirs):
                    v.sub_(s * d)
        fd = (vals[0] - vals[1]) / (2 * h)
        scale = max(abs(fd), abs(ana), 1e-3 * abs(base), 1e-2)
        if abs(fd - ana) <= 2e-4 * scale + 1e-10 * abs(vals[0]) / h:
            return fd
    fail('{}: derivative {} instead of {} (finite differences)', what, ana, fd)
