"""Learning rate scheduler: histories of metrics against a model of the documented behaviour."""
import copy
import math
import torch
from pbt import Sub, st, fail
import ns


def scheduler_class():
    from neuro_shooting.custom_lr_scheduler import CustomReduceLROnPlateau
    return CustomReduceLROnPlateau


# dyadic numbers: all the comparisons are exact, also at ties
METRICS = [-4.0, -2.0, -1.5, -1.0, -0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2.0, 3.0, 4.0, 6.0, 8.0, 16.0]


# what the documentation says
DEFAULTS = dict(mode='min', factor=0.1, patience=10, threshold=1e-4, tmode='rel', cooldown=0, minlr=0, eps=1e-8)
ARG = dict(tmode='threshold_mode', minlr='min_lr')


@st.composite
def case(draw, reload=True):
    ng = draw(st.integers(1, 3))
    c = dict(mode=draw(st.sampled_from(['min', 'max'])), tmode=draw(st.sampled_from(['rel', 'abs'])), threshold=draw(st.sampled_from([0.0, 0.0, 0.25, 0.5])),
             factor=draw(st.sampled_from([0.5, 0.25, 0.75, 0.0])), patience=draw(st.integers(0, 3)), cooldown=draw(st.integers(0, 3)),
             eps=draw(st.sampled_from([0.0, 2.0 ** -10, 0.25])), lrs=[draw(st.sampled_from([1.0, 0.5, 2.0, 0.125])) for _ in range(ng)],
             how=draw(st.sampled_from(['scalar', 'list', 'tuple'])), minlr=[draw(st.sampled_from([0.0, 0.0, 0.0625, 0.25])) for _ in range(ng)], verbose=draw(st.booleans()))
    if c['how'] == 'scalar':
        c['minlr'] = [c['minlr'][0]] * ng
    kind = draw(st.sampled_from(['any', 'flat', 'few', 'positive', 'negative', 'close', 'infinite']))
    vals = dict(any=METRICS, flat=[1.0], few=[1.0, 0.5, 2.0], positive=[m for m in METRICS if m > 0], negative=[-m for m in METRICS if m > 0],
                close=[draw(st.sampled_from([-1.0, 1.0])) * m for m in [1.0, 1.125, 1.25, 1.375, 1.5, 1.625, 1.75, 2.0]],
                infinite=[float('inf'), -float('inf'), 1.0, -1.0, 0.5, 2.0])[kind]
    if kind in ('negative', 'close') and draw(st.booleans()):
        c['patience'], c['cooldown'] = draw(st.integers(0, 1)), 0
    op = st.tuples(st.just('step'), st.sampled_from(vals))
    ops = [op, op, op, op, op, op, st.tuples(st.just('epoch'), st.integers(0, 50)), st.tuples(st.just('nan'), st.just(0))]
    if reload:
        ops += [st.tuples(st.just('reload'), st.sampled_from([0, 1])), st.tuples(st.just('lr'), st.sampled_from([1.0, 0.25]))]
    n = draw(st.integers(1, 30))
    c['omit'] = draw(st.lists(st.sampled_from(sorted(DEFAULTS)), unique=True, max_size=7)) if draw(st.integers(0, 2)) == 0 else []
    for k in c['omit']:
        c[k] = DEFAULTS[k]
        if k == 'minlr':
            c['minlr'], c['how'] = [0.0] * ng, 'scalar'
        if k == 'eps':
            # around the smallest change
            c['lrs'] = [draw(st.sampled_from([1.0, 0.5, 3e-8, 1.5e-8, 1e-8])) for _ in range(ng)]
        if k == 'patience':
            n = draw(st.integers(10, 40))
        if k == 'threshold':
            vals = vals + [v * f for v in vals[:3] if abs(v) < 100 for f in (0.99995, 0.99985, 1.00005, 1.00015)]
            ops[:6] = [st.tuples(st.just('step'), st.sampled_from(vals))] * 6
    c['ops'] = [draw(draw(st.sampled_from(ops))) for _ in range(n)]
    return c


class Model(object):
    def __init__(self, c):
        self.c = c
        self.lrs = list(c['lrs'])
        self.best = self.worst = float('inf') if c['mode'] == 'min' else -float('inf')
        self.bad = 0
        self.cool = 0
        self.conv = False
        self.epoch = -1
        self.reductions = 0

    def better(self, a):
        if math.isnan(a):
            return False
        t = self.c['threshold']
        if self.c['tmode'] == 'rel':
            lim = self.best * (1 - t) if self.c['mode'] == 'min' else self.best * (1 + t)
        else:
            lim = self.best - t if self.c['mode'] == 'min' else self.best + t
        return a < lim if self.c['mode'] == 'min' else a > lim

    def step(self, a, epoch=None):
        self.epoch = self.epoch + 1 if epoch is None else epoch
        if self.better(a):
            self.best = a
            self.bad = 0
        else:
            self.bad += 1
        if self.cool > 0:
            self.cool -= 1
            self.bad = 0
        if self.bad > self.c['patience']:
            for i in range(len(self.lrs)):
                new = max(self.lrs[i] * self.c['factor'], self.c['minlr'][i])
                if self.lrs[i] - new > self.c['eps']:
                    self.lrs[i] = new
                    self.reductions += 1
                    # starts to look for the best metric again
                    self.best = self.worst
                else:
                    self.conv = True
            self.cool = self.c['cooldown']
            self.bad = 0


def make(c):
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in c['lrs']]
    opt = torch.optim.SGD([dict(params=[p], lr=l) for p, l in zip(ps, c['lrs'])], lr=0.1)
    ml = c['minlr'][0] if c['how'] == 'scalar' else (list if c['how'] == 'list' else tuple)(c['minlr'])
    kw = dict(mode=c['mode'], factor=c['factor'], patience=c['patience'], verbose=c['verbose'], threshold=c['threshold'],
              threshold_mode=c['tmode'], cooldown=c['cooldown'], min_lr=ml, eps=c['eps'])
    for k in c.get('omit', []):
        del kw[ARG.get(k, k)]
    s = scheduler_class()(opt, **kw)
    return opt, s


def compare(opt, s, m, where):
    got = [g['lr'] for g in opt.param_groups]
    if any(not math.isclose(a, b, rel_tol=1e-12, abs_tol=0) for a, b in zip(got, m.lrs)):
        fail('{}: learning rates {} instead of {}', where, got, m.lrs)
    if bool(s.has_convergence_been_reached()) != m.conv:
        fail('{}: convergence is {} instead of {}', where, s.has_convergence_been_reached(), m.conv)
    if s.last_epoch != m.epoch:
        fail('{}: epoch {} instead of {}', where, s.last_epoch, m.epoch)


def history(c):
    opt, s = make(c)
    m = Model(c)
    compare(opt, s, m, 'start')
    steps = 0
    for i, (op, v) in enumerate(c['ops']):
        where = 'operation {} ({} {})'.format(i, op, v)
        if op == 'step':
            # plain numbers and tensors
            s.step(v if i % 3 else torch.tensor(v))
            m.step(v)
            steps += 1
        elif op == 'nan':
            s.step(float('nan'))
            m.step(float('nan'))
        elif op == 'epoch':
            s.step(1.0, epoch=v)
            m.step(1.0, v)
        elif op == 'lr':
            # the learning rate is changed by somebody else
            for k, g in enumerate(opt.param_groups):
                g['lr'] = v
                m.lrs[k] = v
        elif op == 'reload':
            # the training is continued with new objects
            sd = copy.deepcopy(s.state_dict())
            od = copy.deepcopy(opt.state_dict())
            if 'optimizer' in sd:
                fail('the optimizer is part of the saved state')
            # with v: the new objects had different settings before
            opt, s = make(c if not v else dict(c, mode='max' if c['mode'] == 'min' else 'min', tmode='abs', threshold=8.0, patience=7, cooldown=5, factor=0.9, eps=5.0))
            opt.load_state_dict(od)
            s.load_state_dict(sd)
        compare(opt, s, m, where)
        if s.in_cooldown != (m.cool > 0):
            fail('{}: in cooldown is {}', where, s.in_cooldown)
    # learning rates never go below their bound
    if 'lr' not in [o for o, _ in c['ops']]:
        for g, l0, b in zip(opt.param_groups, c['lrs'], c['minlr']):
            if g['lr'] < min(b, l0) or g['lr'] > l0:
                fail('learning rate {} (initially {}, bound {})', g['lr'], l0, b)
    return ['reduced' if m.reductions else 'kept', 'converged' if m.conv else 'running'] if steps >= 3 else None


@st.composite
def bad_case(draw):
    return dict(bad=draw(st.sampled_from(['factor', 'optimizer', 'minlr', 'mode', 'tmode'])), how=draw(st.sampled_from(['list', 'tuple'])), f=draw(st.sampled_from([1.0, 1.5, 2.0])), n=draw(st.sampled_from([0, 1, 3])))


def rejected(c):
    S = scheduler_class()
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in range(2)]
    opt = torch.optim.SGD([dict(params=[p]) for p in ps], lr=0.1)
    exc = ValueError
    kw = {}
    if c['bad'] == 'factor':
        kw = dict(factor=c['f'])
    elif c['bad'] == 'optimizer':
        opt, exc = ps, TypeError
    elif c['bad'] == 'minlr':
        kw = dict(min_lr=(list if c['how'] == 'list' else tuple)([0.1] * c['n']))
    elif c['bad'] == 'mode':
        kw = dict(mode='minimum')
    else:
        kw = dict(threshold_mode='relative')
    try:
        S(opt, **kw)
    except exc:
        return [c['bad']]
    fail('wrong setting {} was accepted', c['bad'])


def defaults(c):
    """documented default values: they behave as if they had been given"""
    S = scheduler_class()
    outs = []
    for kw in [{}, dict(mode='min', factor=0.1, patience=10, verbose=False, threshold=1e-4, threshold_mode='rel', cooldown=0, min_lr=0, eps=1e-8)]:
        p = torch.nn.Parameter(torch.zeros(1))
        opt = torch.optim.SGD([p], lr=c['lr'])
        s = S(opt, **kw)
        lrs = []
        for v in c['metrics']:
            s.step(v)
            lrs.append((opt.param_groups[0]['lr'], bool(s.has_convergence_been_reached()), s.last_epoch))
        outs.append(lrs)
    m = Model(dict(mode='min', tmode='rel', threshold=1e-4, factor=0.1, patience=10, cooldown=0, eps=1e-8, lrs=[c['lr']], minlr=[0]))
    exp = []
    for v in c['metrics']:
        m.step(v)
        exp.append((m.lrs[0], m.conv, m.epoch))
    for o, n in zip(outs, ['defaults', 'explicit values']):
        for i, (a, b) in enumerate(zip(o, exp)):
            if abs(a[0] - b[0]) > 1e-12 * abs(b[0]) or a[1:] != b[1:]:
                fail('{}: after {} steps {} instead of {}', n, i + 1, a, b)
    return ['reduced' if m.reductions else 'kept']


@st.composite
def def_case(draw):
    n = draw(st.integers(1, 60))
    return dict(lr=draw(st.sampled_from([1e-7, 1e-3, 1.0])), metrics=[draw(st.sampled_from([1.0, 1.0, 1.0, 0.99995, 1.5, 0.9])) for _ in range(n)])


SUBS = [
    Sub('history', case(), history, 4000, 80000, 'sequences of metrics, changes of the learning rate and saving/restoring; non-trivial: at least three metrics', shards=4),
    Sub('defaults', def_case(), defaults, 300, 3000, 'sequences of metrics; every case counts'),
    Sub('rejected', bad_case(), rejected, 60, 200, 'wrong settings; every case counts'),
]
