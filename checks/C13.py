"""Chains of blocks: states, costates and data are passed on and concatenated along the features."""
import copy
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
from C01 import initial_data

H = 0.25


@st.composite
def chain_cfg(draw, nls=None, max_blocks=3):
    c = draw(ns.model_cfg(nls=nls or ns.ALL_NL, max_particles=3, max_dim=2, max_size=3, conv_max=4))
    nb = draw(st.integers(2, max_blocks))
    names = draw(st.permutations(['a', 'b', 'c', 'd']))[:nb]
    stages = []
    for i in range(nb):
        stages.append(dict(name=names[i], own=True if i == 0 else draw(st.sampled_from([True, True, False])), feat=draw(st.integers(1, 3)),
                           k=draw(st.integers(1, 3)), vec=draw(st.booleans()), weight=draw(st.sampled_from([None, 1.0, 2.0])),
                           enlarge=draw(st.booleans())))
    c['stages'] = stages
    c['batch'] = draw(st.integers(1, 3))
    c['dseed'] = draw(ns.seeds)
    c['lead'] = draw(st.lists(st.integers(1, 2), max_size=1)) if ns.MODELS[c['model']]['kind'] == 'vector' else []
    return c


def stage_cfg(c, s):
    cc = {k: v for k, v in c.items() if k not in ['stages']}
    if ns.MODELS[c['model']]['kind'] == 'vector':
        cc['size'] = s['feat']
    else:
        cc['dim'] = s['feat']
    cc['weight'] = s['weight']
    return cc


def build(c):
    blocks = []
    total = 0
    for i, s in enumerate(c['stages']):
        cc = stage_cfg(c, s)
        if s['own']:
            total += s['feat']
        b = ns.make_block(cc, name=s['name'], integrator=ns.make_integrator('euler', step_size=H), total_feat=total,
                          model_kwargs=dict() if s['own'] else dict(is_pass_through=True),
                          enlarge_pass_through_states_and_costates=s.get('enlarge', True))
        ns.set_state(b, cc, ns.gen(c['dseed'] + 7 * i + 1), 0.5)
        if s['vec']:
            b.set_integration_time_vector(torch.tensor([H * j for j in range(s['k'] + 1)]), suppress_warning=bool(c['seed'] % 2))
        else:
            b.set_integration_time(H * s['k'])
        blocks.append((s, cc, total, b))
    return blocks


def input_of(c, g):
    cc = stage_cfg(c, c['stages'][0])
    shp = ns.data_shape(cc, c['batch'])
    return ns.randn(g, [shp[0]] + c['lead'] + shp[1:])


def run(c, blocks, x):
    """returns the outputs of all the blocks"""
    outs = []
    nxt = None
    for s, cc, total, b in blocks:
        if nxt is None:
            o = b(x=x)
        else:
            o = b(pass_through_state_dict_of_dicts=nxt[0], pass_through_costate_dict_of_dicts=nxt[1], data_dict_of_dicts=nxt[2])
        outs.append(o)
        nxt = tuple(ns.at_time(d, s['k']) for d in o[1:]) if s['vec'] else o[1:]
    return outs


def chain(c):
    """every block of a chain solves the shooting equations for its own and the passed on particles together"""
    spec = ns.MODELS[c['model']]
    ax = -1 if spec['kind'] == 'vector' else -3
    blocks = build(c)
    g = ns.gen(c['dseed'])
    x = input_of(c, g)
    with torch.no_grad():
        outs = run(c, blocks, x)
        again = run(c, blocks, x)
    for o, a in zip(outs, again):
        ns.cmp_outputs(a, o, 'second evaluation of the chain:', rtol=1e-12, atol=1e-13)
    cur = None
    curname = None
    for (s, cc, total, b), o in zip(blocks, outs):
        if cur is None:
            S, P = ns.own_particles(b, cc)
            D = initial_data(cc, x)
        else:
            S, P, D = cur
            if s['own']:
                S1, P1 = ns.own_particles(b, cc)
                D1 = {}
                for q in D:
                    shp = list(D[q].shape)
                    shp[ax] = S1[q].shape[ax]
                    D1[q] = torch.zeros(shp)
                # blocks are ordered by their names
                first = s['name'] < curname
                cat = lambda new, old: torch.cat([new, old] if first else [old, new], dim=ax)
                S = {q: cat(S1[q], S[q]) for q in S}
                P = {q: cat(P1[q], P[q]) for q in P}
                D = {q: cat(D1[q], D[q]) for q in D}
        ref = ns.Ref(cc, total)
        traj = ref.flow(S, P, D, [H * j for j in range(s['k'] + 1)], method='euler', step=H)
        for d in o[1:]:
            if list(d) != [s['name']]:
                fail('output of block {} is named {}', s['name'], list(d))
        idx = list(range(s['k'] + 1)) if s['vec'] else [s['k']]
        for i in idx:
            fs, fp, fd = traj[i]
            at = (lambda v: v[i]) if s['vec'] else (lambda v: v)
            for q in fs:
                ns.close(at(ns.single(o[1])[q]), fs[q], 'block {} state {}'.format(s['name'], q), rtol=1e-6, atol=1e-7)
                ns.close(at(ns.single(o[2])['p_' + q]), fp[q], 'block {} costate {}'.format(s['name'], q), rtol=1e-6, atol=1e-7)
                ns.close(at(ns.single(o[3])[q]), fd[q], 'block {} data {}'.format(s['name'], q), rtol=1e-6, atol=1e-7)
            ns.close(at(o[0]), fd['q1'], 'value returned by block {}'.format(s['name']), rtol=1e-6, atol=1e-7)
        cur, curname = traj[-1], s['name']
    return [c['model'], 'blocks%d' % len(blocks)]


@st.composite
def grad_case(draw):
    c = draw(chain_cfg(nls=ns.SMOOTH_NL))
    c['wseed'] = draw(ns.seeds)
    return c


def gradients(c):
    """the loss at the end of a chain depends on (and can be differentiated by) the parameters of all blocks"""
    blocks = build(c)
    g = ns.gen(c['dseed'])
    x = input_of(c, g)

    def loss():
        o = run(c, blocks, x)[-1]
        gw = ns.gen(c['wseed'])
        return (ns.randn(gw, o[0].shape) * o[0]).sum()
    l0 = loss()
    if not abs(float(l0.detach())) < 1e3:
        return None
    for i, (s, cc, total, b) in enumerate(blocks):
        pars = sorted(b.named_parameters())
        if not pars:
            continue
        gr = torch.autograd.grad(l0, [v for _, v in pars], allow_unused=True, retain_graph=True)
        ns.directional_check(loss, [v for _, v in pars], gr, g, 'gradient wrt the parameters of block {} of the chain'.format(i), float(l0.detach()))
    return [c['model'], 'blocks%d' % len(blocks)]


@st.composite
def bad_case(draw):
    c = draw(chain_cfg(max_blocks=2))
    c['stages'][1]['own'] = True
    c['stages'][0]['vec'] = c['stages'][1]['vec'] = False
    c['how'] = draw(st.sampled_from(['x_and_data', 'state_only', 'costate_only', 'nothing', 'clash', 'no_data']))
    return c


def rejected(c):
    if c['how'] == 'clash':
        c['stages'][1]['name'] = c['stages'][0]['name']
    blocks = build(c)
    g = ns.gen(c['dseed'])
    x = input_of(c, g)
    o = blocks[0][3](x=x)
    keep = [ns.detached(d) for d in o[1:]]
    b = blocks[1][3]
    x2 = x
    try:
        if c['how'] == 'x_and_data':
            b(x=x2, pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2], data_dict_of_dicts=o[3])
        elif c['how'] == 'state_only':
            b(pass_through_state_dict_of_dicts=o[1], data_dict_of_dicts=o[3])
        elif c['how'] == 'costate_only':
            b(pass_through_costate_dict_of_dicts=o[2], data_dict_of_dicts=o[3])
        elif c['how'] == 'nothing':
            b()
        elif c['how'] == 'no_data':
            b(pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
        else:
            b(pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2], data_dict_of_dicts=o[3])
    except ValueError:
        for d, k in zip(o[1:], keep):
            ns.cmp_dicts(d, k, 'given containers', rtol=0, atol=0)
        return [c['how']]
    fail('inconsistent input was accepted: {}', c['how'])


def caller(c):
    """a block does not change the containers it is given"""
    blocks = build(c)
    x = input_of(c, ns.gen(c['dseed']))
    with torch.no_grad():
        o = blocks[0][3](x=x)
        s0 = blocks[0][0]
        given = tuple(ns.at_time(d, s0['k']) for d in o[1:]) if s0['vec'] else o[1:]
        keep = [ns.detached(d) for d in given]
        objs = [{(b, k): id(v) for b in d for k, v in d[b].items()} for d in given]
        blocks[1][3](pass_through_state_dict_of_dicts=given[0], pass_through_costate_dict_of_dicts=given[1], data_dict_of_dicts=given[2])
    for d, k, i in zip(given, keep, objs):
        ns.cmp_dicts(d, k, 'given containers', rtol=0, atol=0)
        if i != {(b, q): id(v) for b in d for q, v in d[b].items()}:
            fail('entries of the given containers were replaced')
    return [c['model']]


@st.composite
def several_case(draw):
    c = draw(chain_cfg(nls=ns.SMOOTH_NL, max_blocks=2))
    c['given'] = [dict(name=n, feat=draw(st.integers(1, 3))) for n in draw(st.permutations(['a', 'b', 'c', 'd', 'e']))[:draw(st.integers(1, 3))]]
    c['name'] = draw(st.sampled_from(['A', 'bb', 'z']))
    c['wseed'] = draw(ns.seeds)
    return c


def several(c):
    """a block which gets the particles and data of several blocks: continued jointly, derivatives reach everything which was given"""
    spec = ns.MODELS[c['model']]
    ax = -1 if spec['kind'] == 'vector' else -3
    s = c['stages'][1]
    cc = stage_cfg(c, s)
    total = sum(x['feat'] for x in c['given']) + (s['feat'] if s['own'] else 0)
    b = ns.make_block(cc, name=c['name'], integrator=ns.make_integrator('euler', step_size=H), total_feat=total,
                      model_kwargs=dict() if s['own'] else dict(is_pass_through=True), enlarge_pass_through_states_and_costates=s['enlarge'])
    g = ns.gen(c['dseed'])
    b.set_integration_time(H * s['k'])
    given = [SortedDict(), SortedDict(), SortedDict()]
    leaves = []
    for x in c['given']:
        for d in given:
            d[x['name']] = SortedDict()
        sc = stage_cfg(c, dict(s, feat=x['feat']))
        for q in sorted(spec['states']):
            sh = ns.state_shape(sc, spec['states'][q])
            dsh = [c['batch']] + c['lead'] + sh[1:] if spec['kind'] == 'vector' else [c['batch']] + sh[1:]
            for d, k, z in zip(given, [q, 'p_' + q, q], [sh, sh, dsh]):
                d[x['name']][k] = ns.randn(g, z, 0.5).requires_grad_(True)
                leaves.append(d[x['name']][k])
    run = lambda: b(pass_through_state_dict_of_dicts=given[0], pass_through_costate_dict_of_dicts=given[1], data_dict_of_dicts=given[2])
    with torch.no_grad():
        run()
    ns.set_state(b, cc, g, 0.5)
    o = run()
    parts = {x['name']: tuple({q: given[i][x['name']][k + q].detach() for q in spec['states']} for i, k in [(0, ''), (1, 'p_'), (2, '')]) for x in c['given']}
    if s['own']:
        S1, P1 = ns.own_particles(b, cc)
        D1 = {}
        some = parts[c['given'][0]['name']][2]
        for q in S1:
            shp = list(some[q].shape)
            shp[ax] = S1[q].shape[ax]
            D1[q] = torch.zeros(shp)
        parts[c['name']] = (S1, P1, D1)
    S, P, D = ({q: torch.cat([parts[n][i][q] for n in sorted(parts)], dim=ax) for q in spec['states']} for i in range(3))
    with torch.no_grad():
        fs, fp, fd = ns.Ref(cc, total).flow(S, P, D, [H * j for j in range(s['k'] + 1)], method='euler', step=H)[-1]
    for q in fs:
        ns.close(ns.single(o[1])[q].detach(), fs[q], 'state ' + q, rtol=1e-6, atol=1e-7)
        ns.close(ns.single(o[2])['p_' + q].detach(), fp[q], 'costate ' + q, rtol=1e-6, atol=1e-7)
        ns.close(ns.single(o[3])[q].detach(), fd[q], 'data ' + q, rtol=1e-6, atol=1e-7)

    def loss(o=None):
        o = run() if o is None else o
        gw = ns.gen(c['wseed'])
        return sum((ns.randn(gw, ns.single(d)[k].shape) * ns.single(d)[k]).sum() for d in o[1:] for k in ns.single(d))
    l0 = loss(o)
    if not abs(float(l0.detach())) < 1e3:
        return None
    gr = torch.autograd.grad(l0, leaves, allow_unused=True)
    for what, sel in [('states', 0), ('costates', 1), ('data', 2)]:
        idx = [i for i in range(len(leaves)) if i % 3 == sel]
        ns.directional_check(lambda: loss(), [leaves[i] for i in idx], [gr[i] for i in idx], g, 'gradient wrt the given ' + what, float(l0.detach()))
    return [c['model'], 'given%d' % len(c['given']), 'own' if s['own'] else 'pass']


SUBS = [
    Sub('chain', chain_cfg(), chain, 250, 4000, 'random chains of 2-3 blocks with and without own particles, random names, sizes and times; every case counts', shards=4),
    Sub('gradients', grad_case(), gradients, 120, 2000, 'random chains; every case counts', shards=2),
    Sub('rejected', bad_case(), rejected, 120, 1000, 'random chains with inconsistent input', shards=1),
    Sub('several', several_case(), several, 160, 3000, 'random blocks which get the results of 1-3 blocks; every case counts unless it blows up', shards=2),
    Sub('caller', chain_cfg(), caller, 80, 1000, 'random chains; every case counts', shards=1),
]
