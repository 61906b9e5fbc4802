"""Striding: which entries are kept, for states, costates and data."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns
import neuro_shooting.striding_block as sbl


@st.composite
def case(draw):
    nsp = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    dims = draw(st.lists(st.integers(2, 1 + nsp), min_size=1, max_size=nsp, unique=True))
    c = dict(nsp=nsp, dims=dims, strides=[draw(st.integers(1, 4)) for _ in dims],
             how=draw(st.sampled_from(['int', 'tuple', 'list'])), dhow=draw(st.sampled_from(['tuple', 'list', 'int'])),
             blocks=draw(st.lists(st.sampled_from(['a', 'b', 'layer_0_0', 'z']), min_size=1, max_size=3, unique=True)),
             keys=draw(st.integers(1, 3)), n=draw(st.integers(1, 3)), batch=draw(st.integers(1, 4)),
             lead=draw(st.sampled_from([0, 0, 0, 1])) if nsp <= 3 else 0, times=draw(st.integers(1, 3)), dseed=draw(ns.seeds),
             ssz=[draw(st.integers(1, 8)) for _ in range(nsp)], dsz=[draw(st.integers(1, 8)) for _ in range(nsp)],
             ch=[draw(st.integers(1, 3)) for _ in range(9)], grad=draw(st.booleans()), order=draw(st.booleans()))
    if c['how'] == 'int':
        c['strides'] = [c['strides'][0]] * len(dims)
    if c['dhow'] == 'int' and len(dims) > 1:
        c['dhow'] = 'list'
    # states of different sizes within the same containers
    c['vary'] = draw(st.booleans())
    return c


def make(c):
    s = c['strides'][0] if c['how'] == 'int' else (tuple if c['how'] == 'tuple' else list)(c['strides'])
    d = c['dims'][0] if c['dhow'] == 'int' else (tuple if c['dhow'] == 'tuple' else list)(c['dims'])
    return sbl.ShootingStridingBlock(stride=s, stride_dims=d)


def containers(c):
    g = ns.gen(c['dseed'])
    ret = [SortedDict(), SortedDict(), SortedDict()]
    i = 0
    names = list(c['blocks'])
    for b in names:
        for r in ret:
            r[b] = SortedDict()
        for k in range(c['keys']):
            extra = (i % 2) if c['vary'] else 0
            ch = c['ch'][i]
            i += 1
            ssz = [x + extra for x in c['ssz']]
            dsz = [x + extra for x in c['dsz']]
            ret[0][b]['q%d' % k] = ns.randn(g, [c['n'], ch] + ssz)
            ret[1][b]['p_q%d' % k] = ns.randn(g, [c['n'], ch] + ssz)
            lead = [c['times']] * c['lead']
            ret[2][b]['q%d' % k] = ns.randn(g, lead + [c['batch'], ch] + dsz)
    if c['grad']:
        for r in ret:
            for b in r:
                for k in r[b]:
                    r[b][k].requires_grad_(True)
    return ret


def indices(n, s):
    """the last entry is always kept, and counting backwards from it every s-th one: n//s entries"""
    k = n // s
    return [n % s + j * s for j in range(k)]


def expected(t, c, offset):
    for d, s in zip(c['dims'], c['strides']):
        idx = indices(t.shape[d + offset], s)
        t = t.index_select(d + offset, torch.tensor(idx, dtype=torch.long))
    return t


def striding(c):
    b = make(c)
    s, p, d = containers(c)
    copies = [ns.detached(x) for x in (s, p, d)]
    out = b(s, p, d)
    if len(out) != 3:
        fail('expected three containers, got {}', len(out))
    for what, got, given, off in [('state', out[0], s, 0), ('costate', out[1], p, 0), ('data', out[2], d, c['lead'])]:
        if list(got) != list(given):
            fail('{}: blocks {} instead of {}', what, list(got), list(given))
        for bl in given:
            if list(got[bl]) != list(given[bl]):
                fail('{}: entries {} instead of {}', what, list(got[bl]), list(given[bl]))
            for k in given[bl]:
                e = expected(given[bl][k].detach(), c, off)
                ns.close(got[bl][k], e, '{} {}'.format(what, k), rtol=0, atol=0)
                if c['grad'] and e.numel() > 0:
                    w = ns.randn(ns.gen(c['dseed'] + 5), e.shape)
                    gr = torch.autograd.grad((w * got[bl][k]).sum(), given[bl][k])[0]
                    leaf = given[bl][k].detach().clone().requires_grad_(True)
                    ge = torch.autograd.grad((w * expected(leaf, c, off)).sum(), leaf)[0]
                    ns.close(gr, ge, 'gradient of {} {}'.format(what, k), rtol=0, atol=0)
    # the given containers are not changed
    for given, cp in zip((s, p, d), copies):
        ns.cmp_dicts(given, cp, 'given container', rtol=0, atol=0)
    # and applying it again gives the same again
    out2 = b(s, p, d)
    for x, y in zip(out, out2):
        ns.cmp_dicts(x, y, 'second evaluation', rtol=0, atol=0)
    return ['dims%d' % len(c['dims']), 'lead' if c['lead'] else 'nolead'] if max(c['strides']) > 1 else None


@st.composite
def bad_case(draw):
    c = draw(case())
    c['lead'] = 0
    c['bad'] = draw(st.sampled_from(['batch', 'channel', 'large', 'length', 'type', 'dimtype']))
    return c


def rejected(c):
    c = dict(c)
    try:
        if c['bad'] in ['batch', 'channel', 'large']:
            v = dict(batch=0, channel=1, large=2 + c['nsp'])[c['bad']]
            c['dims'] = list(c['dims'])
            c['dims'][-1] = v
            b = make(c)
            s, p, d = containers(c)
            b(s, p, d)
        elif c['bad'] == 'length':
            how = tuple if c['how'] == 'tuple' else list
            sbl.ShootingStridingBlock(stride=how(c['strides'] + [2]), stride_dims=list(c['dims']))
        elif c['bad'] == 'type':
            sbl.ShootingStridingBlock(stride='2', stride_dims=list(c['dims']))
        else:
            sbl.ShootingStridingBlock(stride=2, stride_dims='2')
    except ValueError:
        return [c['bad']]
    fail('a wrong specification ({}) was accepted', c['bad'])


QUICK_SCALE = 3

SUBS = [
    Sub('striding', case(), striding, 1500, 30000, 'random containers of one to four spatial dimensions and strides 1 to 4; non-trivial: some stride is larger than 1', shards=4),
    Sub('rejected', bad_case(), rejected, 200, 2000, 'wrong specifications; every case counts', shards=1),
]
