"""Bookkeeping of parameters (counting, freezing) and seeding of the random number generators."""
import io
import random
import contextlib
import numpy as np
import torch
from pbt import Sub, st, fail
import ns
import neuro_shooting.utils as nu


class Tree(torch.nn.Module):
    """module with parameters of given shapes"""

    def __init__(self, shapes, depth=0):
        super(Tree, self).__init__()
        k = max(1, len(shapes) // 2) if depth < 2 else len(shapes)
        for i, s in enumerate(shapes[:k]):
            self.register_parameter('p%d' % i, torch.nn.Parameter(torch.full(tuple(s), 0.5)))
        self.register_buffer('buf', torch.zeros(7))
        if shapes[k:]:
            self.child = Tree(shapes[k:], depth + 1)

    def forward(self):
        return sum((p * p).sum() for p in self.parameters())


def subject(c):
    """a module whose forward pass has been executed, and a function that computes a loss"""
    torch.manual_seed(c['seed'])
    if c['kind'] == 'tree':
        m = Tree(c['shapes'])
        return m, m.forward
    if c['kind'] == 'net':
        import neuro_shooting.res_net as rn
        m = rn.BasicResNet(nr_of_image_channels=1, layer_channels=[1], nr_of_blocks_per_layer=[1], downsampling_stride=2, nonlinearity='tanh', particle_sizes=[[3, 3]],
                           nr_of_particles=2, nr_of_classes=2, shooting_model=ns.sm.AutoShootingIntegrandModelUpDownConv2D, integrator=ns.make_integrator('euler', step_size=0.5))
        x = ns.randn(ns.gen(c['dseed']), [2, 1, 4, 4])
        f = lambda: (m(x) ** 2).sum()
    else:
        b = c['block']
        mk = {}
        if b['dataopt']:
            mk = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=b['dataopt'])
        m = ns.mode_block(b, integrator=ns.make_integrator('rk4', step_size=0.5), model_kwargs=mk)
        x = ns.randn(ns.gen(c['dseed']), ns.data_shape(b, b['batch']))
        f = lambda: (m(x=x)[0] ** 2).sum() + m.get_norm_penalty().sum()
    f()
    return m, f


@st.composite
def case(draw):
    c = dict(kind=draw(st.sampled_from(['tree', 'block', 'block', 'net'])), seed=draw(ns.seeds), dseed=draw(ns.seeds))
    if c['kind'] == 'tree':
        n = draw(st.integers(1, 7))
        c['shapes'] = [[draw(st.sampled_from([0, 1, 1, 2, 3, 5])) for _ in range(draw(st.integers(0, 4)))] for _ in range(n)]
        if draw(st.integers(0, 3)) == 0:
            c['shapes'].append(draw(st.sampled_from([[200, 200], [70000], [300, 17, 9], [129, 128, 3]])))
    if c['kind'] == 'block':
        b = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=3, max_batch=2, conv_max=3))
        b['dataopt'] = draw(st.sampled_from(ns.MODELS[b['model']]['dataopt'])) if ns.MODELS[b['model']].get('dataopt') and draw(st.booleans()) else None
        c['block'] = b
    n = draw(st.integers(1, 6))
    c['ops'] = [[draw(st.sampled_from(['freeze', 'freeze', 'unfreeze', 'step', 'step', 'count'])), [draw(st.integers(0, 40)) for _ in range(draw(st.integers(0, 4)))], draw(st.booleans())] for _ in range(n)]
    return c


def numel(p):
    n = 1
    for s in p.shape:
        n *= s
    return n


def count(c, m, frozen):
    exp = dict(fixed=0, optimized=0, overall=0)
    for k, p in m.named_parameters():
        exp['fixed' if k in frozen else 'optimized'] += numel(p)
        exp['overall'] += numel(p)
    before = {k: (p.detach().clone(), p.requires_grad) for k, p in m.named_parameters()}
    got = nu.compute_number_of_parameters(m, **(dict(print_parameters=True) if c['seed'] % 2 else {}))
    if {k: int(got[k]) for k in got} != exp or any(int(got[k]) != got[k] for k in got):
        fail('numbers of parameters {} instead of {}', got, exp)
    for k, p in m.named_parameters():
        if p.requires_grad != before[k][1] or not torch.equal(p, before[k][0]):
            fail('counting changes {}', k)


def bookkeeping(c):
    """history of freezing, unfreezing, counting and optimization steps against a set of frozen parameters"""
    m, f = subject(c)
    names = [k for k, _ in m.named_parameters()]
    if not names:
        return None
    frozen = set()
    count(c, m, frozen)
    kinds = set()
    for op, idx, as_dict in c['ops']:
        sel = []
        for i in idx:
            if names[i % len(names)] not in sel:
                sel.append(names[i % len(names)])
        arg = {k: 1 for k in sel} if as_dict else list(sel)
        vals = {k: p.detach().clone() for k, p in m.named_parameters()}
        if op == 'freeze':
            nu.freeze_parameters(m, arg)
            frozen |= set(sel)
        elif op == 'unfreeze':
            nu.unfreeze_parameters(m, arg)
            frozen -= set(sel)
        elif op == 'step':
            pars = [p for p in m.parameters() if p.requires_grad]
            if pars:
                m.zero_grad()
                loss = f()
                if loss.requires_grad:
                    loss.backward()
                    if not all(torch.isfinite(p.grad).all() for p in m.parameters() if p.grad is not None):
                        break   # the solution blows up
                    moved = [k for k, p in m.named_parameters() if p.grad is not None and float(p.grad.abs().sum()) > 1e-3]
                    torch.optim.SGD(list(m.parameters()), lr=1e-3).step()
                    for k, p in m.named_parameters():
                        if k in frozen and not torch.equal(p, vals[k]):
                            fail('frozen parameter {} is changed by an optimization step', k)
                        if k not in frozen and k in moved and p.numel() and torch.equal(p, vals[k]):
                            fail('parameter {} is not optimized', k)
                    vals = {k: p.detach().clone() for k, p in m.named_parameters()}
                    kinds.add('step')
        count(c, m, frozen)
        kinds.add(op)
        for k, p in m.named_parameters():
            if p.requires_grad != (k not in frozen):
                fail('after {} {}: parameter {} requires_grad={}', op, sel, k, p.requires_grad)
            if not torch.equal(p, vals[k]):
                fail('{} changes the value of {}', op, k)
    return [c['kind']] + sorted(kinds) if len(kinds) > 1 else None


@st.composite
def seed_case(draw):
    return dict(seed=draw(st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 5))), other=draw(st.integers(0, 2 ** 32 - 1)), burn=draw(st.integers(0, 6)),
                model=draw(st.sampled_from(list(ns.MODELS))), n=draw(st.integers(1, 4)), dataopt=draw(st.booleans()), pf=draw(st.booleans()))


def burn(n):
    for _ in range(n):
        random.random()
        np.random.rand(3)
        torch.randn(2)


def draws():
    return [random.random(), random.randint(0, 10 ** 9)], np.random.rand(3).tolist() + np.random.randn(2).tolist(), torch.rand(3).tolist() + torch.randn(2).tolist()


def block(c):
    spec = ns.MODELS[c['model']]
    cfg = dict(model=c['model'], nl='tanh', n=c['n'], weight=None, dim=1 if spec['kind'] == 'vector' else 2, size=2 if spec['kind'] == 'vector' else [3, 3], seed=0)
    if c['model'] in ns.INFLATED:
        cfg['infl'] = 2
    mk = {}
    if c['dataopt'] and spec.get('dataopt'):
        mk = dict(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=spec['dataopt'][-1])
    m = ns.make_model(cfg, **mk)
    b = ns.sb.ShootingBlockBase(name='b', shooting_integrand=m, integrator=ns.make_integrator(), use_particle_free_rnn_mode=c['pf'])
    return {k: p.detach().clone() for k, p in b.named_parameters()}


def seeding(c):
    nu.setup_random_seed(c['seed'])
    first = draws()
    b1 = block(c)
    after = draws()
    burn(c['burn'])
    nu.setup_random_seed(c['seed'])
    if draws() != first:
        fail('the same seed does not reproduce the random numbers')
    b2 = block(c)
    for k in b1:
        if not torch.equal(b1[k], b2[k]):
            fail('the same seed does not reproduce the initialization of {}', k)
    if draws() != after:
        fail('the same seed does not reproduce the random numbers after the creation of a block')
    # which numbers: those of the generators seeded with the seed
    r = random.Random(c['seed'])
    rs = np.random.RandomState(c['seed'])
    g = torch.Generator()
    g.manual_seed(c['seed'])
    exp = [r.random(), r.randint(0, 10 ** 9)], rs.rand(3).tolist() + rs.randn(2).tolist(), torch.rand(3, generator=g).tolist() + torch.randn(2, generator=g).tolist()
    for i, what in enumerate(['random', 'numpy', 'torch']):
        if first[i] != exp[i]:
            fail('generator of {} is not seeded with the given seed', what)
    if c['other'] != c['seed']:
        nu.setup_random_seed(c['other'])
        o = draws()
        for i, what in enumerate(['random', 'numpy', 'torch']):
            if o[i] == first[i]:
                fail('generator of {}: seeds {} and {} give the same numbers', what, c['seed'], c['other'])
    # no seed: everything stays as it is
    burn(c['burn'])
    s = random.getstate(), np.random.get_state(), torch.get_rng_state()
    e = draws()
    random.setstate(s[0])
    np.random.set_state(s[1])
    torch.set_rng_state(s[2])
    nu.setup_random_seed(-1)
    if draws() != e:
        fail('without a seed the random number generators are changed')
    return [c['model']]


@st.composite
def div_case(draw):
    return dict(shape=[draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 3)))], weight=draw(st.sampled_from([None, 0.5, 2.0, 1.0, 0.1, -3.0, 7])), tens=draw(st.booleans()), dseed=draw(ns.seeds))


def division(c):
    t = ns.randn(ns.gen(c['dseed']), c['shape'])
    w = c['weight']
    if w is not None and c['tens']:
        w = torch.tensor(float(w))
    r = nu.divide_by_if_not_none(t, w)
    e = t if c['weight'] is None else t / float(c['weight'])
    ns.close(r, e, 'weighted value', rtol=1e-13, atol=0)
    return [str(c['weight'])]


@st.composite
def print_case(draw):
    n = draw(st.integers(1, 5))
    return dict(kind='tree', seed=0, dseed=0, shapes=[[draw(st.integers(1, 2)) for _ in range(draw(st.integers(0, 2)))] for _ in range(n)])


def printing(c):
    """all parameters are listed"""
    m, _ = subject(c)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        nu.print_all_parameters(m)
    g = io.StringIO()
    with contextlib.redirect_stdout(g):
        n = nu.compute_number_of_parameters(m)
    for k, _ in m.named_parameters():
        if k not in f.getvalue() or k not in g.getvalue():
            fail('parameter {} is not listed', k)
    if str(int(n['overall'])) not in g.getvalue():
        fail('the number of parameters is not listed')
    return [len(c['shapes'])]


QUICK_SCALE = 3

SUBS = [
    Sub('bookkeeping', case(), bookkeeping, 260, 5000, 'random modules, blocks and networks with histories of freezing, unfreezing, counting and optimization; non-trivial: at least two kinds of operations', shards=4),
    Sub('seeding', seed_case(), seeding, 200, 4000, 'random seeds and models; every case counts', shards=2),
    Sub('division', div_case(), division, 100, 1000, 'random values and weights; every case counts'),
    Sub('printing', print_case(), printing, 60, 500, 'random modules; every case counts'),
]
