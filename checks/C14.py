"""Enlargement of passed on states, states which are kept at zero, and a stable set of parameters."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns

H = 0.25


@st.composite
def case(draw):
    c = draw(ns.model_cfg(models=ns.CONV_MODELS, nls=ns.SMOOTH_NL, max_particles=3, max_dim=2))
    c['small'] = [draw(st.integers(2, 4)), draw(st.integers(2, 4))]
    c['grow'] = [draw(st.integers(0, 3)), draw(st.integers(0, 3))]
    c['size'] = [c['small'][0] + c['grow'][0], c['small'][1] + c['grow'][1]]
    c['moren'] = draw(st.sampled_from([0, 0, 1, 2]))
    c['feat1'] = draw(st.integers(1, 2))
    c['zero'] = draw(st.booleans())
    c['enlarge'] = draw(st.booleans()) or any(c['grow']) or c['moren'] > 0
    c['batch'] = draw(st.integers(1, 2))
    c['hw'] = [draw(st.integers(2, 5)), draw(st.integers(2, 5))]
    c['dseed'] = draw(ns.seeds)
    c['k'] = draw(st.integers(1, 2))
    c['name1'] = draw(st.sampled_from(['aaa', 'zzz']))
    return c


def given_dicts(c, g):
    spec = ns.MODELS[c['model']]
    c1 = dict(c, dim=c['feat1'], size=c['small'])
    s, p, d = SortedDict(), SortedDict(), SortedDict()
    s[c['name1']], p[c['name1']], d[c['name1']] = SortedDict(), SortedDict(), SortedDict()
    for q in sorted(spec['states']):
        sh = ns.state_shape(c1, spec['states'][q])
        s[c['name1']][q] = ns.randn(g, sh)
        p[c['name1']]['p_' + q] = ns.randn(g, sh)
        d[c['name1']][q] = ns.randn(g, [c['batch'], sh[1]] + c['hw'])
    return s, p, d


def build(c):
    c2 = dict(c, n=c['n'] + c['moren'])
    b = ns.make_block(c2, name='mmm', integrator=ns.make_integrator('euler', step_size=H), total_feat=c['dim'] + c['feat1'],
                      keep_initial_state_parameters_at_zero=c['zero'], enlarge_pass_through_states_and_costates=c['enlarge'])
    b.set_integration_time_vector(torch.tensor([H * i for i in range(c['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
    return b, c2


def center(big, small, diff):
    sl = []
    for b, s in zip(big.shape, small):
        beg = (b - s) // 2
        sl.append(slice(beg, beg + s))
    return big[tuple(sl)]


def enlargement(c):
    b, c2 = build(c)
    spec = ns.MODELS[c['model']]
    g = ns.gen(c['dseed'])
    s, p, d = given_dicts(c, g)
    before = dict(b.named_parameters())
    with torch.no_grad():
        b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=d)
    named = dict(b.named_parameters())
    if set(before) - set(named):
        fail('parameters {} disappeared', set(before) - set(named))
    for k in before:
        if before[k] is not named[k]:
            fail('parameter {} was replaced', k)
    new = set(named) - set(before)
    # the parameters may now be optimized: new values everywhere
    ns.set_state(b, c2, g, 0.5)
    values = {k: v.detach().clone() for k, v in named.items()}
    growing = any(c['grow']) or c['moren'] > 0
    out = b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=d)
    names = sorted(['mmm', c['name1']])
    expected_new = 0
    for what, got, passed, prefix in [('state', ns.single(out[1]), s, ''), ('costate', ns.single(out[2]), p, 'p_')]:
        for q in sorted(spec['states']):
            k = prefix + q
            v = got[k][0].detach()
            own_shape = ns.state_shape(c2, spec['states'][q])
            small = passed[c['name1']][k]
            ch = [own_shape[1], small.shape[1]]
            if c['name1'] < 'mmm':
                pt, own = v[:, :ch[1]], v[:, ch[1]:]
            else:
                own, pt = v[:, :ch[0]], v[:, ch[0]:]
            full = [own_shape[0], ch[1]] + own_shape[2:]
            if list(own.shape) != list(own_shape) or list(pt.shape) != full:
                fail('{} {}: shapes {} and {}', what, k, tuple(own.shape), tuple(pt.shape))
            # own particles
            if what == 'state' and c['zero']:
                if k in named:
                    fail('state {} is optimized although it should be kept at zero', k)
                ns.close(own, torch.zeros_like(own), 'state {} kept at zero'.format(k), rtol=0, atol=0)
            else:
                ns.close(own, values[k], 'own {} {}'.format(what, k), rtol=0, atol=0)
            # the passed on values are in the center
            ns.close(center(pt, small.shape, None), small, 'passed on {} {}'.format(what, k), rtol=0, atol=0)
            mask = torch.ones(full, dtype=torch.bool)
            center(mask, small.shape, None).fill_(False)
            around = pt[mask]
            if around.numel() == 0:
                continue
            if what == 'state' and c['zero']:
                ns.close(around, torch.zeros_like(around), 'new values around {} kept at zero'.format(k), rtol=0, atol=0)
            else:
                # every new value is one parameter, and every one of these parameters is used once
                cand = [values[n] for n in new if n.endswith('_' + k) and values[n].numel() == around.numel()]
                srt = torch.sort(around).values
                if not any(torch.equal(torch.sort(x.reshape(-1)).values, srt) for x in cand):
                    fail('the values around the passed on {} {} are not the registered parameters', what, k)
                expected_new += around.numel()
    total_new = sum(values[n].numel() for n in new)
    if total_new != expected_new:
        fail('{} new parameters, but {} values are added', total_new, expected_new)
    # gradients reach all of them
    if new:
        gw = ns.gen(c['dseed'] + 3)
        loss = sum((ns.randn(gw, ns.single(o)[k][0].shape) * ns.single(o)[k][0]).sum() for o in out[1:3] for k in ns.single(o))
        gr = torch.autograd.grad(loss, [named[n] for n in sorted(new)], allow_unused=True)
        for n, x in zip(sorted(new), gr):
            if x is None or bool((x == 0).any()):
                fail('no gradient for (some of) the parameters {}', n)
    return [c['model'], 'zero' if c['zero'] else 'free', 'grown'] if growing else None


@st.composite
def stable_case(draw):
    c = draw(case())
    c['ops'] = draw(st.lists(st.sampled_from(['forward', 'nograd', 'step', 'forward']), min_size=2, max_size=5))
    return c


def stable(c):
    """the set of parameters is fixed after the first evaluation; later evaluations use the current values, zero stays zero"""
    b, c2 = build(c)
    g = ns.gen(c['dseed'])
    s, p, d = given_dicts(c, g)

    def run():
        return b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=d)
    run()
    objs = {k: v for k, v in b.named_parameters()}
    opt = torch.optim.SGD(b.parameters(), lr=1e-3)
    if sorted(id(x) for gr in opt.param_groups for x in gr['params']) != sorted(id(v) for v in objs.values()):
        fail('the optimizer does not get all of the parameters')
    steps = 0
    for op in c['ops']:
        if op == 'nograd':
            with torch.no_grad():
                out = run()
        else:
            out = run()
        now = dict(b.named_parameters())
        if sorted(now) != sorted(objs) or any(now[k] is not objs[k] for k in now):
            fail('parameters change from evaluation to evaluation: {} / {}', sorted(now), sorted(objs))
        if c['zero']:
            for q in ns.MODELS[c['model']]['states']:
                if q in now or 'pt_enlarge_' + q in now:
                    fail('state {} kept at zero is optimized', q)
                v = ns.single(out[1])[q][0].detach()
                own = ns.state_shape(c2, ns.MODELS[c['model']]['states'][q])[1]
                o = v[:, :own] if 'mmm' < c['name1'] else v[:, -own:]
                if float(o.abs().max()) != 0.0:
                    fail('state {} is not kept at zero', q)
        if op == 'step':
            opt.zero_grad()
            # only if nothing blows up
            l = (out[0] ** 2).mean()
            if not float(l.detach()) < 1e3:
                return None
            l.backward()
            torch.nn.utils.clip_grad_norm_(list(objs.values()), 1.0)
            before = {k: v.detach().clone() for k, v in objs.items()}
            opt.step()
            steps += 1
    return ['zero' if c['zero'] else 'free'] if steps else None


@st.composite
def zero_case(draw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL))
    c['batch'] = draw(st.integers(1, 3))
    c['dseed'] = draw(ns.seeds)
    return c


def zero(c):
    """blocks without passed on states whose states are kept at zero: only costates are optimized"""
    b = ns.make_block(c, integrator=ns.make_integrator('euler', step_size=H), keep_initial_state_parameters_at_zero=True)
    g = ns.gen(c['dseed'])
    ns.set_state(b, c, g, 0.5)
    b.set_integration_time_vector(torch.tensor([0.0, H]), suppress_warning=bool(c['seed'] % 2))
    out = b(x=ns.randn(g, ns.data_shape(c, c['batch'])))
    qs = sorted(ns.MODELS[c['model']]['states'])
    named = dict(b.named_parameters())
    if sorted(named) != ['p_' + q for q in qs]:
        fail('parameters {}', sorted(named))
    for q in qs:
        v = ns.single(out[1])[q][0]
        if tuple(v.shape) != tuple(ns.state_shape(c, ns.MODELS[c['model']]['states'][q])) or float(v.abs().max()) != 0.0:
            fail('state {} is not zero', q)
        ns.close(ns.single(out[2])['p_' + q][0], named['p_' + q], 'costate ' + q, rtol=0, atol=0)
    return [c['model']]


@st.composite
def bad_case(draw):
    c = draw(case())
    c['zero'] = False
    c['enlarge'] = True
    c['diff'] = [draw(st.sampled_from([-2, -1, 0, 0, 1, 3])) for _ in range(3)]
    if min(c['diff']) >= 0:
        c['diff'][draw(st.integers(0, 2))] = -1
    return c


def too_small(c):
    """particles which are smaller (or fewer) than the passed on ones in any dimension are rejected"""
    dn, dh, dw = c['diff']
    # the passed on ones are large enough to be larger
    c = dict(c, n=c['n'] + 2, small=[c['small'][0] + 1, c['small'][1] + 1], moren=dn)
    c['size'] = [c['small'][0] + dh, c['small'][1] + dw]
    b, c2 = build(c)
    s, p, d = given_dicts(c, ns.gen(c['dseed']))
    try:
        b(pass_through_state_dict_of_dicts=s, pass_through_costate_dict_of_dicts=p, data_dict_of_dicts=d)
    except ValueError:
        return ['mixed' if max(c['diff']) > 0 else 'smaller']
    fail('larger passed on states were accepted')


@st.composite
def several_case(draw):
    c = draw(ns.model_cfg(models=ns.CONV_MODELS, nls=ns.SMOOTH_NL, max_particles=3, max_dim=2))
    c['size'] = [draw(st.integers(3, 5)), draw(st.integers(3, 5))]
    c['zero'] = draw(st.booleans())
    c['given'] = []
    for nm in draw(st.permutations(['aa', 'nn', 'zz']))[:draw(st.integers(2, 3))]:
        c['given'].append(dict(name=nm, feat=draw(st.integers(1, 2)), n=c['n'] - draw(st.integers(0, c['n'] - 1)), size=[c['size'][0] - draw(st.integers(0, 2)), c['size'][1] - draw(st.integers(0, 2))]))
    c['batch'] = draw(st.integers(1, 2))
    c['dseed'] = draw(ns.seeds)
    return c


def several(c):
    """smaller particles of several blocks: all of them are enlarged by parameters of this block, all of which are trained"""
    spec = ns.MODELS[c['model']]
    g = ns.gen(c['dseed'])
    b = ns.make_block(c, name='mmm', integrator=ns.make_integrator('euler', step_size=H), total_feat=c['dim'] + sum(x['feat'] for x in c['given']),
                      keep_initial_state_parameters_at_zero=c['zero'])
    b.set_integration_time_vector(torch.tensor([0.0, H]), suppress_warning=bool(c['seed'] % 2))
    given = [SortedDict(), SortedDict(), SortedDict()]
    for x in c['given']:
        for d in given:
            d[x['name']] = SortedDict()
        c1 = dict(c, dim=x['feat'], size=x['size'], n=x['n'])
        for q in sorted(spec['states']):
            sh = ns.state_shape(c1, spec['states'][q])
            given[0][x['name']][q] = ns.randn(g, sh)
            given[1][x['name']]['p_' + q] = ns.randn(g, sh)
            given[2][x['name']][q] = ns.randn(g, [c['batch'], sh[1]] + c['size'])
    run = lambda: b(pass_through_state_dict_of_dicts=given[0], pass_through_costate_dict_of_dicts=given[1], data_dict_of_dicts=given[2])
    before = dict(b.named_parameters())
    with torch.no_grad():
        run()
    ns.set_state(b, c, g, 0.5)
    named = dict(b.named_parameters())
    new = sorted(set(named) - set(before))
    out = run()
    names = sorted(['mmm'] + [x['name'] for x in c['given']])
    added = []
    count = 0
    for what, got, passed, prefix in [('state', ns.single(out[1]), given[0], ''), ('costate', ns.single(out[2]), given[1], 'p_')]:
        for q in sorted(spec['states']):
            k = prefix + q
            v = got[k][0]
            pos = 0
            for nm in names:
                own = ns.state_shape(c, spec['states'][q])
                ch = own[1] if nm == 'mmm' else passed[nm][k].shape[1]
                part = v[:, pos:pos + ch]
                pos += ch
                if list(part.shape) != [own[0], ch] + own[2:]:
                    fail('{} {} of {}: shape {}', what, k, nm, tuple(part.shape))
                if nm == 'mmm':
                    continue
                small = passed[nm][k]
                ns.close(center(part, small.shape, None).detach(), small, 'passed on {} {} of {}'.format(what, k, nm), rtol=0, atol=0)
                mask = torch.ones(part.shape, dtype=torch.bool)
                center(mask, small.shape, None).fill_(False)
                if what == 'state' and c['zero']:
                    if bool((part.detach()[mask] != 0).any()):
                        fail('new values around {} of {} are not kept at zero', k, nm)
                else:
                    added.append(part[mask])
                    count += int(mask.sum())
    total = sum(named[n].numel() for n in new)
    if total != count:
        fail('{} new parameters, but {} values are added around the passed on ones', total, count)
    if count:
        vals = torch.cat(added)
        pars = torch.cat([named[n].reshape(-1) for n in new])
        if not torch.equal(torch.sort(vals.detach()).values, torch.sort(pars.detach()).values):
            fail('the values around the passed on particles are not the registered parameters')
        gr = torch.autograd.grad((vals * (1.0 + torch.arange(count))).sum(), [named[n] for n in new], allow_unused=True)
        for n, x in zip(new, gr):
            if x is None or bool((x == 0).any()):
                fail('no gradient for (some of) the parameters {}', n)
    return [c['model'], 'zero' if c['zero'] else 'free'] if count else None


QUICK_SCALE = 3

SUBS = [
    Sub('enlargement', case(), enlargement, 300, 5000, 'random convolutional blocks which get smaller (or fewer) particles; non-trivial: something is enlarged', shards=4),
    Sub('stable', stable_case(), stable, 100, 1500, 'sequences of evaluations and optimizer steps; non-trivial: at least one step', shards=2),
    Sub('zero', zero_case(), zero, 150, 2000, 'random blocks; every case counts', shards=1),
    Sub('several', several_case(), several, 100, 2000, 'random convolutional blocks which get the particles of 2-3 smaller blocks; non-trivial: something is enlarged', shards=2),
    Sub('too_small', bad_case(), too_small, 60, 600, 'particles smaller than the passed on ones in at least one dimension', shards=1),
]
