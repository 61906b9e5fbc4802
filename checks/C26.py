"""Option to store the states with swapped dimensions: nothing but the orientation changes."""
import torch
from sortedcontainers import SortedDict
from pbt import Sub, st, fail
import ns


def swap(dd):
    ret = SortedDict()
    for b in dd:
        ret[b] = SortedDict()
        for k in dd[b]:
            ret[b][k] = dd[b][k].detach().transpose(1, 2).contiguous().requires_grad_(dd[b][k].requires_grad)
    return ret


@st.composite
def rhs_case(draw):
    c = draw(ns.model_cfg(nls=ns.ALL_NL, conv_max=4))
    nb = draw(st.sampled_from([1, 1, 2, 3]))
    c['feats'] = [draw(st.integers(1, 3)) for _ in range(nb)]
    c['batch'] = draw(st.integers(1, 4))
    c['t'] = draw(st.sampled_from([0.0, 0.3, 1.0]))
    c['analytic'] = draw(st.booleans()) and c['model'] in ns.ANALYTIC_MODELS and c['dim'] == 1 and nb == 1
    c['dseed'] = draw(ns.seeds)
    return c


def rhs(c):
    """right hand side for swapped states = swapped right hand side"""
    total = sum(c['feats'])
    s, p, d = ns.random_dicts(c, ns.gen(c['dseed']), c['batch'], feats=c['feats'])
    out = []
    for tr in [False, True]:
        kw = dict(use_analytic_solution=True) if c['analytic'] else {}
        torch.manual_seed(c['seed'])
        m = ns.make_model(c, total_feat=total, transpose_state_when_forward=tr, **kw)
        S, P, D = (swap(s), swap(p), swap(d)) if tr else (s, p, d)
        v, plans = m.assemble_tensor(state_dict_of_dicts=S, costate_dict_of_dicts=P, data_dict_of_dicts=D)
        m.set_auto_assembly_plans(assembly_plans=plans)
        r = m(torch.tensor(c['t']), v)
        if r.shape != v.shape:
            fail('right hand side has shape {} instead of {}', tuple(r.shape), tuple(v.shape))
        x = m.disassemble_tensor(r, assembly_plans=plans)
        out.append([swap(y) for y in x] if tr else x)
    for a, b, what in zip(out[1], out[0], ['state', 'costate', 'data']):
        ns.cmp_dicts(a, b, 'derivative of ' + what, rtol=1e-9, atol=1e-10)
    big = [float(out[0][0][b][k].abs().max()) for b in out[0][0] for k in out[0][0][b]]
    return [c['model']] if max(big) > 1e-4 and (c['dim'] > 1 or total > 1) else None


@st.composite
def block_case(draw):
    same = [m for m in ns.VECTOR_MODELS if m not in ns.INFLATED]
    c = draw(ns.model_cfg(models=same, nls=ns.ALL_NL))
    c['batch'] = draw(st.integers(1, 3))
    c['method'] = draw(st.sampled_from(['rk4', 'euler', 'midpoint', 'dopri5']))
    if c['nl'] == 'relu' and c['method'] == 'dopri5':
        c['method'] = 'rk4'  # many tiny steps at the kinks
    c['k'] = draw(st.integers(1, 3))
    c['vec'] = draw(st.booleans())
    c['mode'] = draw(st.sampled_from(['particles', 'particles', 'rnn']))
    c['dseed'] = draw(ns.seeds)
    return c


def run(c, tr):
    cfg = dict(c, dim=c['size'], size=c['dim']) if tr else c
    integ = ns.make_integrator(c['method'], step_size=0.25) if c['method'] != 'dopri5' else ns.make_integrator('dopri5', rtol=1e-8, atol=1e-8, integrator_options=dict(max_num_steps=40))
    b = ns.make_block(cfg, integrator=integ, total_feat=c['size'], model_kwargs=dict(transpose_state_when_forward=tr, use_rnn_mode=c['mode'] == 'rnn'))
    g = ns.gen(c['dseed'])
    pars = dict(b.named_parameters())
    with torch.no_grad():
        for q in sorted(ns.MODELS[c['model']]['states']):
            for k in [q, 'p_' + q]:
                v = ns.randn(g, ns.state_shape(c, 'in'), 0.5)
                pars[k].copy_(v.transpose(1, 2) if tr else v)
    x = ns.randn(g, ns.data_shape(c, c['batch']))
    if tr:
        x = x.transpose(1, 2)
        if c['seed'] % 2:
            x = x.contiguous()
    if c['vec']:
        b.set_integration_time_vector(torch.tensor([0.0] + [0.25 * (i + 1) for i in range(c['k'])]), suppress_warning=bool(c['seed'] % 2))
    else:
        b.set_integration_time(0.25 * c['k'])
    out = b(x=x)
    loss = (out[0] ** 2).sum() + b.get_norm_penalty().sum()
    ks = sorted(pars)
    gr = torch.autograd.grad(loss, [pars[k] for k in ks], allow_unused=True)
    d = 2 if not c['vec'] else 3

    def back(t, first=d - 1):
        return t.transpose(first, first + 1) if tr else t
    ret = [back(out[0])]
    for dd in out[1:]:
        ret.append({b: {k: back(dd[b][k]) for k in dd[b]} for b in dd})
    return ret, {k: back(v, 1) for k, v in zip(ks, gr) if v is not None}, b.get_norm_penalty()


def block(c):
    """a block that works with swapped states = the block that does not, after swapping"""
    e, ge, pe = run(c, False)
    g, gg, pg = run(c, True)
    tol = dict(rtol=1e-8, atol=1e-9) if c['method'] != 'dopri5' else dict(rtol=1e-5, atol=1e-6)
    big = max(float(d[b][k].detach().abs().max()) for d in e[1:] for b in d for k in d[b])
    if not big < 50:
        return None
    ns.cmp_outputs(g, e, 'swapped', **tol)
    ns.close(pg, pe, 'penalty', **tol)
    if sorted(gg) != sorted(ge):
        fail('gradients of {} instead of {}', sorted(gg), sorted(ge))
    gscale = max(float(v.abs().max()) for v in ge.values())
    for k in ge:
        ns.close(gg[k], ge[k], 'gradient of ' + k, rtol=tol['rtol'] * 10, atol=tol['atol'] * (10 + 10 * gscale))
    return [c['model'], c['mode']] if c['dim'] != c['size'] else None


QUICK_SCALE = 2

SUBS = [
    Sub('rhs', rhs_case(), rhs, 300, 6000, 'random models, blocks and states; non-trivial: the derivatives are not zero and there is more than one feature', shards=3),
    Sub('block', block_case(), block, 200, 4000, 'random blocks; non-trivial: swapping changes the shape', shards=4),
]
