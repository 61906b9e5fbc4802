"""Integration times: single end time, vectors of times, histories of settings, semigroup and reversal."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail, Skip
import ns
import others

H = 0.125


@st.composite
def vec_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL))
    if draw(st.integers(0, 7)) == 0:
        # many times
        ks = list(range(1, draw(st.integers(12, 24))))
    else:
        ks = sorted(draw(st.lists(st.integers(1, 12), min_size=1, max_size=4, unique=True)))
    c['ks'] = ks
    c['start'] = draw(st.sampled_from([0, 0, 0, 1, 3])) if c['mode'] != 'pf_time' else 0
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['f32'] = draw(st.booleans())
    c['nograd'] = draw(st.booleans())
    return c


def vector(c):
    """entry i of a run over a time vector is what a run to this time returns; the first entry is the initial value"""
    g = ns.gen(c['dseed'])
    block = ns.mode_block(c, integrator=ns.make_integrator(c['method'], step_size=H))
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    times = [0.0] + [k * H for k in c['ks']]
    vec = torch.tensor([t + c['start'] * H for t in times], dtype=torch.float32 if c['f32'] else torch.float64)
    keep = vec.clone()
    with torch.set_grad_enabled(not c['nograd']):
        block.set_integration_time_vector(vec, suppress_warning=bool(c['seed'] % 2))
        out = block(x=x)
        if not torch.equal(vec, keep):
            fail('the time vector of the caller was changed')
        for i, t in enumerate(times):
            at = (out[0][i],) + tuple(ns.at_time(o, i) for o in out[1:])
            if out[0].shape[0] != len(times):
                fail('{} entries for {} times', out[0].shape[0], len(times))
            if i == 0:
                ns.close(out[0][0], x, 'first entry of the returned values', rtol=1e-12, atol=1e-12)
                if c['mode'] in ['particles', 'rnn']:
                    s0, p0 = ns.own_particles(block, c)
                    for q in s0:
                        ns.close(ns.single(out[1])[q][0], s0[q], 'first entry of state ' + q, rtol=1e-12, atol=1e-12)
                        ns.close(ns.single(out[2])['p_' + q][0], p0[q], 'first entry of costate ' + q, rtol=1e-12, atol=1e-12)
            elif len(times) < 8 or i % 7 == len(times) % 7 or i == len(times) - 1:
                block.set_integration_time(t)
                ns.cmp_outputs(at, block(x=x), 'time {}:'.format(t), rtol=1e-7, atol=1e-8)
    if not c['nograd'] and ns.size_of(out) < 100:
        # so are the gradients (unless something on the way explodes)
        pars = [v for _, v in block.named_parameters()]
        i = c['seed'] % (len(times) - 1) + 1
        w = ns.randn(ns.gen(c['dseed'] + 3), x.shape)
        block.set_integration_time_vector(vec, suppress_warning=bool(c['seed'] % 2))
        gv = torch.autograd.grad((w * block(x=x)[0][i]).sum(), pars, allow_unused=True)
        block.set_integration_time(times[i])
        gs = torch.autograd.grad((w * block(x=x)[0]).sum(), pars, allow_unused=True)
        for a, e in zip(gv, gs):
            z = torch.zeros(1)
            ns.close((z if a is None else a).reshape(-1), (z.expand_as(a) if e is None and a is not None else z if e is None else e).reshape(-1), 'gradient of the result at time {}'.format(times[i]), rtol=1e-6, atol=1e-7)
    return [c['mode'], c['model']] if len(times) > 2 or c['start'] else None


op = st.one_of(
    st.tuples(st.just('time'), st.one_of(st.integers(1, 10), st.integers(1, 4).map(lambda k: k + 1.0 / 64), st.integers(1, 4))),
    st.tuples(st.just('vector'), st.lists(st.integers(1, 10), min_size=1, max_size=3, unique=True).map(sorted), st.integers(0, 2)),
    st.tuples(st.just('forward'), st.booleans()),
    st.tuples(st.just('forward'), st.booleans()),
    st.tuples(st.just('to'), st.sampled_from(['to', 'double', 'train', 'eval'])),
    st.tuples(st.just('backward'), st.booleans()),
    st.tuples(st.just('change'), st.integers(0, 1000)),
).map(list)


@st.composite
def hist_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL))
    c['ops'] = draw(st.lists(op, min_size=2, max_size=8)) + [['forward', draw(st.booleans())]]
    c['max_time'] = draw(st.sampled_from([None, None, 0.5, 1, 2.0]))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    return c


def history(c):
    """only the last setting counts: a block with a long history agrees with a fresh one"""
    integ = lambda: ns.make_integrator(c['method'], step_size=H)
    kw = dict(max_integration_time=c['max_time']) if c['max_time'] is not None else {}
    block = ns.mode_block(c, integrator=integ(), **kw)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    setting = None
    compared = 0
    changes = 0
    last = None
    for o in c['ops']:
        if o[0] == 'time':
            setting = o
            changes += 1
            block.set_integration_time(o[1] * H)
        elif o[0] == 'vector':
            setting = o
            changes += 1
            block.set_integration_time_vector(torch.tensor([o[2] * H] + [(k + o[2]) * H for k in o[1]]), suppress_warning=bool(c['seed'] % 2))
        elif o[0] == 'to':
            if o[1] == 'to':
                block.to(torch.float64)
            elif o[1] == 'double':
                block.double()
            elif o[1] == 'train':
                block.train()
            else:
                block.eval()
        elif o[0] == 'backward' and last is not None:
            (last ** 2).sum().backward()
            for _, v in block.named_parameters():
                v.grad = None
            last = None
        elif o[0] == 'change':
            # as by an optimization step
            gc = ns.gen(o[1])
            with torch.no_grad():
                for _, v in sorted(block.named_parameters()):
                    v.add_(ns.randn(gc, v.shape, 0.1))
            last = None
        elif o[0] == 'forward':
            with torch.set_grad_enabled(o[1]):
                out = block(x=x)
            last = out[0] if o[1] else None
            # fresh block
            if setting is None and c['max_time'] is None:
                fresh = ns.mode_block(c, integrator=integ())
                fresh.set_integration_time(1.0)
            elif setting is None:
                fresh = ns.mode_block(c, integrator=integ(), **kw)
                fresh.set_integration_time(float(c['max_time']))
            else:
                fresh = ns.mode_block(c, integrator=integ(), **kw)
                if setting[0] == 'time':
                    fresh.set_integration_time(setting[1] * H)
                else:
                    fresh.set_integration_time_vector(torch.tensor([setting[2] * H] + [(k + setting[2]) * H for k in setting[1]]), suppress_warning=bool(c['seed'] % 2))
            now = dict(block.named_parameters())
            with torch.no_grad():
                for k, v in fresh.named_parameters():
                    v.copy_(now[k])
            ns.cmp_outputs(out, fresh(x=x), 'after a history:', rtol=1e-10, atol=1e-10)
            if setting is not None and setting[0] == 'vector':
                if out[0].shape[0] != len(setting[1]) + 1 or out[0].dim() != x.dim() + 1:
                    fail('wrong shape for a time vector')
            elif out[0].shape != x.shape:
                fail('output of shape {} for an input of shape {}', tuple(out[0].shape), tuple(x.shape))
            compared += 1
    return [c['mode'], c['model']] if compared > 1 and changes > 1 else None


@st.composite
def semi_case(draw):
    c = draw(ns.block_cfg(nls=ns.ALL_NL, modes=['particles']))
    c['k1'] = draw(st.integers(1, 6))
    c['k2'] = draw(st.integers(1, 6))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    c['vec1'] = draw(st.booleans())
    return c


def semigroup(c):
    """going to T1 and continuing from there for T2 (with a pass-through block) is going to T1+T2"""
    integ = ns.make_integrator(c['method'], step_size=H)
    block = ns.mode_block(c, integrator=integ)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    t1, t2 = c['k1'] * H, c['k2'] * H
    second = ns.mode_block(c, name='second', integrator=integ, pass_through=True, fill=None)
    block.set_integration_time(t1 + t2)
    whole = block(x=x)
    if c['vec1']:
        block.set_integration_time_vector(torch.tensor([0.0, t1]), suppress_warning=bool(c['seed'] % 2))
        o = block(x=x)
        first = tuple(ns.at_time(d, 1) for d in o[1:])
    else:
        block.set_integration_time(t1)
        first = block(x=x)[1:]
    second.set_integration_time(t2)
    o = second(pass_through_state_dict_of_dicts=first[0], pass_through_costate_dict_of_dicts=first[1], data_dict_of_dicts=first[2])
    ns.close(o[0], whole[0], 'values after two stages', rtol=1e-6, atol=1e-7)
    for i in [1, 2, 3]:
        for k in ns.single(whole[i]):
            ns.close(ns.single(o[i])[k], ns.single(whole[i])[k], 'two stages: ' + k, rtol=1e-6, atol=1e-7)
    return [c['mode'], c['model']]


@st.composite
def rev_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, modes=['particles'], max_particles=3, max_dim=2, max_size=3, conv_max=3, max_batch=2))
    c['k'] = draw(st.integers(1, 8))
    c['t0'] = draw(st.sampled_from([0.0, 0.0, 1.0]))
    return c


def reversal(c):
    """integrating back in time recovers the initial condition; only time differences matter"""
    integ = ns.make_integrator('dopri5', rtol=1e-9, atol=1e-11)
    block = ns.mode_block(c, integrator=integ, fill=0.3)
    g = ns.gen(c['dseed'])
    x = ns.randn(g, ns.data_shape(c, c['batch']), 0.5)
    T = c['k'] * H
    with torch.no_grad():
        block.set_integration_time_vector(torch.tensor([c['t0'], c['t0'] + T]), suppress_warning=bool(c['seed'] % 2))
        o = block(x=x)
        back = ns.mode_block(c, name='back', integrator=integ, pass_through=True, fill=None)
        back.set_integration_time_vector(torch.tensor([T, 0.0]), suppress_warning=bool(c['seed'] % 2))
        r = back(pass_through_state_dict_of_dicts=ns.at_time(o[1], 1), pass_through_costate_dict_of_dicts=ns.at_time(o[2], 1), data_dict_of_dicts=ns.at_time(o[3], 1))
    ns.close(r[0][1], x, 'values after going there and back', rtol=1e-5, atol=1e-6)
    for i in [1, 2, 3]:
        for k in ns.single(o[i]):
            ns.close(ns.single(r[i])[k][1], ns.single(o[i])[k][0], 'there and back: ' + k, rtol=1e-5, atol=1e-6)
    moved = float((o[0][1] - o[0][0]).abs().max())
    return [c['model']] if moved > 1e-4 else None


@st.composite
def clock_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=3, max_dim=2, max_size=3, conv_max=3, max_batch=2))
    c['start'] = draw(st.integers(-2, 6))
    c['dirn'] = draw(st.sampled_from([1, 1, -1]))
    c['ks'] = sorted(draw(st.lists(st.integers(1, 8), min_size=1, max_size=3, unique=True)))
    c['single'] = draw(st.booleans())
    c['cp'] = draw(st.sampled_from([None, None, 1, 3]))
    return c


def clock(c):
    """the equations are evaluated at exactly the times of the explicit Euler steps from the first to the last requested time"""
    single = c['single']
    last = c['ks'][-1]
    cp = c['cp'] if (single or c['dirn'] > 0) and c['cp'] is not None and last % (c['cp'] + 1) == 0 else None
    b = ns.mode_block(c, integrator=ns.make_integrator('euler', step_size=H, nr_of_checkpoints=cp))
    seen = []
    b.shooting_integrand.register_lagrangian_gradient_hook(lambda m, t, *a: seen.append(float(t)))
    if single:
        first, sign = 0.0, 1
        b.set_integration_time(last * H)
    else:
        first, sign = c['start'] * H, c['dirn']
        b.set_integration_time_vector(torch.tensor([first + sign * k * H for k in [0] + c['ks']]), suppress_warning=bool(c['seed'] % 2))
    with torch.no_grad():
        b(x=ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']), 0.5))
    expected = [first + sign * k * H for k in range(last)]
    if len(seen) != len(expected) or any(abs(s - e) > 1e-5 for s, e in zip(seen, expected)):
        fail('Euler steps from {} to {}: the equations were evaluated at the times {} instead of {}', first, first + sign * last * H, seen, expected)
    return [c['mode'], 'single' if single else ('vector' if sign > 0 else 'backward')]


@st.composite
def any_case(draw):
    c = draw(ns.block_cfg(nls=ns.SMOOTH_NL, max_particles=4, max_dim=2, max_size=3, conv_max=3, max_batch=2))
    c['pfsteps'] = 1 if c['mode'] == 'pf_time' else c.get('pfsteps', 1)
    c['T'] = draw(st.one_of(st.floats(0.05, 3.0), st.floats(0.05, 40.0)))
    c['n'] = draw(st.integers(1, 12))
    c['neg'] = draw(st.sampled_from([False, False, False, True]))
    c['fit'] = draw(st.booleans())
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint']))
    return c


def any_time(c):
    """an end time can be any number; set at construction, as end time, or as vector"""
    T = -c['T'] if c['neg'] else c['T']
    step = c['T'] / c['n'] * (1.0 if c['fit'] else 0.83)
    outs = []
    x = ns.randn(ns.gen(c['dseed']), ns.data_shape(c, c['batch']), 0.5)
    for how in ['vector', 'single', 'built']:
        if how == 'built' and T < 0:
            continue
        kw = dict(max_integration_time=T) if how == 'built' else {}
        b = ns.mode_block(c, integrator=ns.make_integrator(c['method'], step_size=step), fill=0.5 / max(1.0, c['T']) ** 0.5, **kw)
        if how == 'vector':
            b.set_integration_time_vector(torch.tensor([0.0, T], dtype=torch.float64), suppress_warning=True)
        elif how == 'single':
            b.set_integration_time(T)
        with torch.no_grad():
            o = b(x=x)
        outs.append((o[0][1],) + tuple(ns.at_time(q, 1) for q in o[1:]) if how == 'vector' else o)
    if not ns.size_of(outs[0]) < 50:
        raise Skip('too large')
    for o in outs[1:]:
        ns.cmp_outputs(o, outs[0], 'end time {}:'.format(T), rtol=2e-5, atol=2e-5)
    moved = float((outs[0][0] - x).abs().max())
    return [c['mode'], 'short' if c['T'] < 3 else 'long'] if moved > 1e-3 else None


SUBS = [
    Sub('vector', vec_case(), vector, 300, 5000, 'random blocks and time vectors; non-trivial: more than two times or not starting at zero', shards=4),
    Sub('history', hist_case(), history, 300, 5000, 'sequences of set time / set vector / forward / backward / cast; non-trivial: several settings and several compared forward passes', shards=4),
    Sub('semigroup', semi_case(), semigroup, 200, 3000, 'random blocks continued by a pass-through block; every case counts', shards=3),
    Sub('reversal', rev_case(), reversal, 120, 2000, 'random blocks integrated forward and backward with a tight adaptive solver; non-trivial: data moved', shards=4),
    Sub('clock', clock_case(), clock, 150, 3000, 'random blocks with end times or (increasing, decreasing, shifted) vectors of times, Euler steps of known size; every case counts', shards=2),
    Sub('any_time', any_case(), any_time, 150, 3000, 'random blocks, arbitrary end times (also negative) and step sizes, given at construction, as end time or in a vector; non-trivial: data moved', shards=2),
    Sub('other_models', others.case(), others.times, 80, 1200, others.WHAT),
]
