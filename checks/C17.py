"""Hooks: called for every evaluation of the equations, see the true quantities, and do not change results."""
from collections import defaultdict
import numpy as np
import torch
from pbt import Sub, st, fail, Skip
import ns
import neuro_shooting.shooting_hooks as hooks
import neuro_shooting.overwrite_classes as oc

STEPS = [0.25, 1 / 32, 3 / 128, 5 / 64, 1 / 1024]     # exact in binary, some with many decimals


@st.composite
def case(draw):
    c = draw(ns.block_cfg(models=ns.VECTOR_MODELS, nls=ns.SMOOTH_NL, max_particles=3, max_batch=3))
    c['k'] = draw(st.integers(1, 3))
    c['h'] = draw(st.sampled_from(STEPS))
    c['ops'] = draw(st.lists(st.sampled_from(['forward', 'forward', 'step', 'refill']), min_size=1, max_size=3))
    return c


def make(c):
    H = c['h']
    b = ns.mode_block(c, integrator=ns.make_integrator('euler', step_size=H), max_integration_time=H * c['k'])
    b.set_integration_time_vector(torch.tensor([H * i for i in range(c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    return b


def evolution(c):
    """the recording hook: times, parameters, energies, states, costates, data, derivatives, norms"""
    H = c['h']
    b = make(c)
    x = ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']))
    rec = defaultdict(list)
    b.shooting_integrand.set_custom_hook_data(data=rec)
    handle = b.shooting_integrand.register_lagrangian_gradient_hook(hooks.parameter_evolution_hook)
    k = c['k']
    exp = defaultdict(list)
    nr = 0
    g = ns.gen(c['dseed'] + 9)
    for op in c['ops']:
        out = b(x=x)
        nr += 1
        for i in range(k):
            exp['t'].append(H * i)
            for nm, dd in [('state', out[1]), ('costate', out[2]), ('data', out[3])]:
                for bl in dd:
                    for q in dd[bl]:
                        cur = dd[bl][q].detach()
                        exp['{}.{}.{}'.format(bl, nm, q)].append(cur[i].clone())
                        exp['{}.dot_{}.dot_{}'.format(bl, nm, q)].append((cur[i + 1] - cur[i]) / H)
        if op == 'step':
            l = (out[0] ** 2).mean()
            if not float(l.detach()) < 1e3:
                return None
            l.backward()
            with torch.no_grad():
                for p in b.parameters():
                    if p.grad is not None:
                        p -= 1e-3 * p.grad
                        p.grad = None
        elif op == 'refill':
            ns.set_state(b, c, g, 0.4)
    # after the hook was removed nothing is recorded any more
    handle.remove()
    before = {kk: len(v) for kk, v in rec.items()}
    b(x=x)
    after = {kk: len(v) for kk, v in rec.items()}
    if before != after:
        fail('something is recorded although the hook was removed')
    for kk in exp:
        if kk not in rec:
            fail('{} was not recorded (only {})', kk, sorted(rec))
        if len(rec[kk]) != nr * k:
            fail('{}: {} records instead of {}', kk, len(rec[kk]), nr * k)
        for i, (a, e) in enumerate(zip(rec[kk], exp[kk])):
            tol = dict(rtol=1e-9, atol=1e-10) if 'dot_' not in kk else dict(rtol=1e-6, atol=1e-7)
            big = torch.as_tensor(exp[kk.replace('dot_', '')][i]).abs().max()
            if 'dot_' in kk and float(big) > 1e3:
                continue
            ns.close(torch.as_tensor(a), torch.as_tensor(e), 'record {} of {}'.format(i, kk), **tol)
    # parameters, energies and norms belong together, and they reproduce the derivatives
    ref = ns.Ref(c)
    th0 = ref.zero_theta()
    for i in range(nr * k):
        th = {}
        for (l, p), z in th0.items():
            key = '{}.{}'.format(l, p)
            if len(rec.get(key, [])) != nr * k:
                fail('parameter {} was not recorded', key)
            th[(l, p)] = torch.as_tensor(rec[key][i])
            if p == 'bias' and th[(l, p)].numel() == z.numel():
                # analytic solutions have a bias with an additional dimension
                th[(l, p)] = th[(l, p)].reshape(z.shape)
            if th[(l, p)].shape != z.shape:
                fail('parameter {} has shape {}', key, tuple(th[(l, p)].shape))
        e = 0.5 * sum((v ** 2).sum() for v in th.values())
        ns.close(torch.as_tensor(rec['energy'][i]), e, 'energy', rtol=1e-6)
        tot = dict(frobenius=0., nuclear=0., spectral=0.)
        for (l, p), v in th.items():
            if p == 'bias':
                continue
            if not torch.isfinite(v).all():
                return None
            s = np.linalg.svd(v.numpy(), compute_uv=False)
            one = dict(frobenius=float((s ** 2).sum()), nuclear=float(s.sum() ** 2), spectral=float(s.max() ** 2))
            for n in one:
                tot[n] += one[n]
                ns.close(torch.as_tensor(rec['sqr_{}_norm_{}.{}'.format(n, l, p)][i]), torch.tensor(one[n]), '{} norm of {}'.format(n, l), rtol=1e-6)
        for n in tot:
            ns.close(torch.as_tensor(rec['sum_sqr_{}_norm'.format(n)][i]), torch.tensor(tot[n]), 'sum of {} norms'.format(n), rtol=1e-6)
        s = {q: torch.as_tensor(rec['block.state.' + q][i]) for q in ref.spec['states']}
        d = {q: torch.as_tensor(rec['block.data.' + q][i]) for q in ref.spec['states']}
        p = {q: torch.as_tensor(rec['block.costate.p_' + q][i]) for q in ref.spec['states']} if 'block.costate.p_q1' in rec else None
        if c['mode'] == 'particles':
            ths = ref.theta(s, p)
            for kk in th:
                ns.close(th[kk], ths[kk], 'recorded parameter {}'.format(kk), rtol=1e-7)
        f = ref.f(th, d)
        for q in f:
            ns.close(torch.as_tensor(rec['block.dot_data.dot_' + q][i]), f[q], 'recorded derivative of the data', rtol=1e-7)
    return [c['model'], c['mode'], 'analytic' if c['analytic'] else 'auto'] if nr * k > 1 else None


@st.composite
def value_case(draw):
    return dict(blocks=draw(st.lists(st.sampled_from(['b1', 'b2', 'a.b', 'block_10']), min_size=1, max_size=2, unique=True)), n=draw(st.integers(1, 3)), size=draw(st.integers(1, 4)),
                layers=draw(st.integers(1, 3)), t=draw(st.sampled_from([0.0, 0.5, 1 / 1024, -2.25])), calls=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(['float64', 'float32'])),
                grad=draw(st.booleans()), dseed=draw(ns.seeds))


def values(c):
    """records are values: they stay what they were when the tensors are changed afterwards"""
    g = ns.gen(c['dseed'])
    dt = getattr(torch, c['dtype'])
    rec = defaultdict(list)
    exp = defaultdict(list)
    tensors = []

    def new(*shape):
        v = ns.randn(g, shape).to(dt).requires_grad_(c['grad'])
        tensors.append(v)
        return v

    for _ in range(c['calls']):
        dds = {}
        for nm, pre in [('state', ''), ('costate', 'p_'), ('data', ''), ('dot_state', 'dot_'), ('dot_costate', 'dot_p_'), ('dot_data', 'dot_')]:
            dds[nm] = ns.SortedDict()
            for b in c['blocks']:
                dds[nm][b] = ns.SortedDict()
                for q in ['q1', 'q2']:
                    v = dds[nm][b][pre + q] = new(c['n'], 1, c['size'])
                    exp['{}.{}.{}'.format(b, nm, pre + q)].append(v.detach().clone())
        pars = ns.SortedDict()
        for i in range(c['layers']):
            l = oc.SNN_Linear(in_features=c['size'], out_features=c['size'])
            vals = dict(weight=new(c['size'], c['size']), bias=new(c['size']))
            l.get_parameter_dict().update(vals)
            pars['l%d' % i] = l
            for k in vals:
                exp['l%d.%s' % (i, k)].append(vals[k].detach().clone())
        exp['t'].append(c['t'])
        ret = hooks.parameter_evolution_hook(None, torch.tensor(c['t'], dtype=dt), dds['state'], dds['costate'], dds['data'], dds['dot_state'], dds['dot_costate'], dds['dot_data'], pars, rec)
        if ret is not None:
            fail('the recording hook returns {}', ret)
        with torch.no_grad():
            for v in tensors:
                v.mul_(-3.0).add_(1.0)
        del tensors[:]
    for k in exp:
        if len(rec[k]) != c['calls']:
            fail('{} records of {} instead of {}', len(rec[k]), k, c['calls'])
        for a, e in zip(rec[k], exp[k]):
            ns.close(torch.as_tensor(a), torch.as_tensor(e), 'record of ' + k, rtol=0, atol=0)
    return [c['dtype']]


@st.composite
def hook_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL, max_particles=3, max_batch=2, conv_max=4))
    c['ops'] = draw(st.lists(st.tuples(st.sampled_from(['add', 'add', 'again', 'remove', 'forward', 'forward', 'data', 'backward']), st.integers(0, 3)), min_size=2, max_size=8))
    c['k'] = draw(st.integers(1, 2))
    c['h'] = draw(st.sampled_from(STEPS))
    return c


def registration(c):
    """histories of adding/removing hooks and setting their data; the results never change"""
    H = c['h']
    b = make(c)
    plain = make(c)
    x = ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']))
    log = []
    active = []      # (number, handle) in the order of registration
    token = None
    nr = 0
    compared = 0

    def make_hook(n):
        def hook(module, t, s, p, d, ds, dp, dd, pars, data):
            log.append((n, float(t), module is b.shooting_integrand, data is token,
                        sorted(s) == sorted(ds), sorted(p) == sorted(dp), sorted(d) == sorted(dd), len(pars) > 0))
        return hook

    made = []
    for op, i in c['ops']:
        if op == 'add' or (op == 'again' and not made):
            made.append(make_hook(nr))
            active.append((nr, b.shooting_integrand.register_lagrangian_gradient_hook(made[nr])))
            nr += 1
        elif op == 'again':
            # the same function a second time: it is called twice, and removing one registration keeps the other
            active.append((i % nr, b.shooting_integrand.register_lagrangian_gradient_hook(made[i % nr])))
        elif op == 'remove' and active:
            n, h = active.pop(i % len(active))
            h.remove()
        elif op == 'data':
            token = dict(epoch=i)
            b.shooting_integrand.set_custom_hook_data(token)
        elif op in ['forward', 'backward']:
            del log[:]
            out = b(x=x)
            seen = list(log)
            exp = plain(x=x)
            ns.cmp_outputs(out, exp, 'with hooks', rtol=0, atol=0)
            ns.close(b.get_norm_penalty(), plain.get_norm_penalty(), 'penalty with hooks', rtol=0, atol=0)
            if op == 'backward':
                ga = torch.autograd.grad(out[0].sum(), list(b.parameters()), allow_unused=True)
                gb = torch.autograd.grad(exp[0].sum(), list(plain.parameters()), allow_unused=True)
                for u, v in zip(ga, gb):
                    if (u is None) != (v is None):
                        fail('hooks change which gradients exist')
                    if u is not None:
                        ns.close(u, v, 'gradient with hooks', rtol=0, atol=0)
            times = [H * j for j in range(c['k'])]
            want = [(n, t) for t in times for n, _ in active]
            if [(e[0], e[1]) for e in seen] != want:
                fail('hooks (number, time) {} were called, expected {}', [(e[0], e[1]) for e in seen], want)
            for e in seen:
                if not all(e[2:]):
                    fail('hook {} got wrong arguments {}', e[0], e[2:])
            if active:
                compared += 1
    return [c['model'], c['mode']] if compared else None


@st.composite
def type_case(draw):
    return dict(kind=draw(st.sampled_from(['dict', 'none', 'list'])), seed=draw(ns.seeds), dseed=draw(ns.seeds))


def rejected(c):
    cfg = dict(model='simple', nl='tanh', n=2, weight=None, dim=1, size=2, seed=c['seed'], mag=0.4)
    b = ns.make_block(cfg)
    b.shooting_integrand.register_lagrangian_gradient_hook(hooks.parameter_evolution_hook)
    if c['kind'] != 'none':
        b.shooting_integrand.set_custom_hook_data(dict() if c['kind'] == 'dict' else [])
    try:
        b(x=ns.randn(ns.gen(c['dseed']), [2, 1, 2]))
    except ValueError:
        return [c['kind']]
    fail('a recording container of the wrong type was accepted')


@st.composite
def chain_case(draw):
    c = draw(ns.model_cfg(models=ns.VECTOR_MODELS, nls=ns.SMOOTH_NL, max_particles=2, max_dim=2, max_size=2))
    c['feat2'] = draw(st.integers(1, 2))
    c['names'] = draw(st.sampled_from([['aa', 'bb'], ['zz', 'cc'], ['b1', 'b2'], ['block_9', 'block_10'], ['block', 'block1'], ['b', 'B'], ['state', 'data']]))
    c['h'] = draw(st.sampled_from(STEPS))
    c['dseed'] = draw(ns.seeds)
    c['batch'] = draw(st.integers(1, 2))
    return c


def chain(c):
    """second block of a chain: the records have the names of both blocks and add up to the evolution"""
    H = c['h']
    b1 = ns.make_block(c, name=c['names'][0], integrator=ns.make_integrator('euler', step_size=H))
    c2 = dict(c, size=c['feat2'], seed=c['seed'] + 1)
    b2 = ns.make_block(c2, name=c['names'][1], integrator=ns.make_integrator('euler', step_size=H), total_feat=c['size'] + c['feat2'])
    b1.set_integration_time(H)
    b2.set_integration_time(2 * H)
    g = ns.gen(c['dseed'])
    o1 = b1(x=ns.randn(g, ns.data_shape(c, c['batch'])))
    rec = defaultdict(list)
    b2.shooting_integrand.set_custom_hook_data(data=rec)
    b2.shooting_integrand.register_lagrangian_gradient_hook(hooks.parameter_evolution_hook)
    o2 = b2(data_dict_of_dicts=o1[3], pass_through_state_dict_of_dicts=o1[1], pass_through_costate_dict_of_dicts=o1[2])
    spec = ns.MODELS[c['model']]
    own = dict(b2.named_parameters())
    ns.close(torch.as_tensor(np.array(rec['t'])), torch.tensor([0.0, H]), 'times', rtol=0, atol=1e-12)
    for q in spec['states']:
        for what, pre, out, first in [('state', '', o2[1], o1[1]), ('costate', 'p_', o2[2], o1[2]), ('data', '', o2[3], o1[3])]:
            parts = []
            for bl in sorted(c['names']):
                r = rec['{}.{}.{}'.format(bl, what, pre + q)]
                d = rec['{}.dot_{}.dot_{}'.format(bl, what, pre + q)]
                if len(r) != 2 or len(d) != 2:
                    fail('{} records of {} {} of block {}', len(r), what, pre + q, bl)
                if bl == c['names'][0]:
                    e = ns.single(first)[pre + q].detach()
                elif what == 'data':
                    e = None
                else:
                    e = own[pre + q].detach()
                if e is not None:
                    ns.close(torch.as_tensor(r[0]), e, 'first record of {} {} of {}'.format(what, pre + q, bl), rtol=1e-10)
                elif float(np.abs(r[0]).max()) != 0.0:
                    fail('new data of the second block does not start at zero')
                ns.close(torch.as_tensor(r[0] + H * d[0]), torch.as_tensor(r[1]), 'recorded step', rtol=1e-9)
                parts.append(torch.as_tensor(r[1] + H * d[1]))
            ns.close(torch.cat(parts, dim=2), ns.single(out)[pre + q], 'last step of {} {}'.format(what, pre + q), rtol=1e-9)
    return [c['model']]


@st.composite
def tb_case(draw):
    c = draw(ns.model_cfg(models=['simple'], nls=ns.SMOOTH_NL, max_particles=3))
    c['size'] = draw(st.integers(2, 4))
    c['epochs'] = draw(st.lists(st.sampled_from([None, 0, 1, 5, 9, 10, 11, 20, 30, 100]), min_size=1, max_size=4))
    c['dseed'] = draw(ns.seeds)
    return c


class Writer(object):
    def __init__(self):
        self.log = []

    def add_scalar(self, tag, value, global_step=None, **kw):
        self.log.append((tag, float(value), global_step))

    def add_image(self, tag, img, global_step=None, **kw):
        self.log.append((tag, torch.as_tensor(img).clone(), global_step))


def tensorboard(c):
    try:
        import neuro_shooting.tensorboard_shooting_hooks as tb
    except ImportError as e:
        raise Skip('no tensorboard')
    if not hasattr(tb, 'writer'):
        raise Skip('no writer')
    old, tb.writer = tb.writer, Writer()
    try:
        b = ns.make_block(c, integrator=ns.make_integrator('rk4', step_size=0.5))
        ns.set_state(b, c, ns.gen(c['dseed']))
        rec = defaultdict(list)
        b.shooting_integrand.register_lagrangian_gradient_hook(tb.linear_transform_hook)
        x = ns.randn(ns.gen(c['dseed'] + 1), ns.data_shape(c, 2))
        s, p = ns.own_particles(b, c)
        th = ns.Ref(c).theta({q: v.detach() for q, v in s.items()}, {q: v.detach() for q, v in p.items()})
        exp = []
        for e in c['epochs']:
            b.shooting_integrand.set_custom_hook_data({} if e is None else dict(epoch=e, batch=3))
            b(x=x)
            step = e or 0
            if step % 10 == 0:
                exp += [('bias0', float(th[('l1', 'bias')][0]), step), ('bias1', float(th[('l1', 'bias')][1]), step), ('weight', th[('l1', 'weight')], step)]
        got = tb.writer.log
        if [(a[0], a[2]) for a in got] != [(a[0], a[2]) for a in exp]:
            fail('logged {} instead of {}', [(a[0], a[2]) for a in got], [(a[0], a[2]) for a in exp])
        for a, e in zip(got, exp):
            ns.close(torch.as_tensor(a[1]), torch.as_tensor(e[1]), 'logged ' + a[0], rtol=1e-8)
    finally:
        tb.writer = old
    return True


QUICK_SCALE = 2.5

SUBS = [
    Sub('values', value_case(), values, 60, 1500, 'the recording hook with given tensors that are changed afterwards; every case counts', shards=2),
    Sub('evolution', case(), evolution, 250, 4000, 'random vector models in all modes, sequences of evaluations and parameter changes; non-trivial: several records', shards=4),
    Sub('registration', hook_case(), registration, 200, 3000, 'histories of adding and removing hooks, setting their data, and evaluations; non-trivial: at least one evaluation with a hook', shards=4),
    Sub('chain', chain_case(), chain, 80, 1000, 'chains of two blocks; every case counts', shards=2),
    Sub('rejected', type_case(), rejected, 10, 50, 'containers of the wrong type'),
    Sub('tensorboard', tb_case(), tensorboard, 40, 400, 'sequences of epochs; every case counts'),
]
