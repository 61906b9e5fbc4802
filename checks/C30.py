"""Networks, predictions and measures of the experiments."""
import types
from collections import defaultdict
import numpy as np
import torch
import torch.nn.functional as F
from pbt import Sub, st, fail, Skip
import ns
import demo


def fill(module, g, scale=0.5):
    with torch.no_grad():
        for _, p in sorted(module.named_parameters()):
            p.copy_(ns.randn(g, p.shape, scale))


# the baseline networks ----------------------------------------------------------------------------------------------

@st.composite
def net_case(draw):
    return dict(kind=draw(st.sampled_from(['ResNet', 'ResNetUpDown', 'DoubleResNetUpDown', 'DoubleResNetUpDownRNN', 'ResNetRNN', 'ODESimpleFunc', 'MyCNNResNet', 'MyCNNResRecNet'])),
                layers=draw(st.integers(1, 12)), infl=draw(st.integers(1, 5)), batch=draw(st.integers(1, 4)), ch=draw(st.integers(1, 3)), sz=draw(st.integers(3, 6)), sw=draw(st.integers(3, 6)), seed=draw(ns.seeds))


def lin(p, n, x):
    y = x @ p[n + '.weight'].t()
    return y + p[n + '.bias'] if n + '.bias' in p else y


def conv(p, n, x):
    return F.conv2d(x, p[n + '.weight'], p[n + '.bias'], padding=1)


def net_reference(c, p, x, x2):
    k, L = c['kind'], c['layers']
    relu = lambda v: v.clamp(min=0)
    if k == 'ResNet':
        for i in range(L):
            x = x + lin(p, 'model.l%d.l1' % i, relu(x))
        return [x]
    if k == 'ResNetUpDown':
        for i in range(L):
            x = x + lin(p, 'model.l%d.l2' % i, relu(lin(p, 'model.l%d.l1' % i, relu(x))))
        return [x]
    if k in ['DoubleResNetUpDown', 'DoubleResNetUpDownRNN']:
        for i in range(L):
            pre = 'model.l%d' % i if k == 'DoubleResNetUpDown' else 'l1'
            x = x + lin(p, pre + '.l1', relu(x2))
            x2 = x2 + lin(p, pre + '.l2', relu(x))
        return [x, x2]
    if k == 'ResNetRNN':
        for i in range(L):
            x = x + lin(p, 'l1', relu(lin(p, 'l2', x))) / L
        return [x]
    if k == 'ODESimpleFunc':
        return [torch.tanh(lin(p, 'net.0', x))]
    y = conv(p, 'conv0', x)
    for i in range(L):
        a, b = ('model.l%d.conv1' % i, 'model.l%d.conv2' % i) if k == 'MyCNNResNet' else ('conv1', 'conv2')
        y = y + conv(p, b, relu(conv(p, a, y))) / L
    return [lin(p, 'last_linear', y.amax(dim=(2, 3)))]


def networks(c):
    m = demo.load('simple_discrete_neural_networks')
    k = c['kind']
    kw = {}
    if k.startswith('MyCNN'):
        c = dict(c, layers=min(c['layers'], 3))
        kw = dict(nr_layers=c['layers'], inflation_factor=c['infl'], in_channels=c['ch'])
    elif k != 'ODESimpleFunc':
        kw = dict(nr_of_layers=c['layers'])
        if k != 'ResNet':
            kw['inflation_factor'] = c['infl']
    net = getattr(m, k)(**kw)
    g = ns.gen(c['seed'])
    fill(net, g, 0.4)
    p = {n: v.detach() for n, v in net.named_parameters()}
    if k.startswith('MyCNN'):
        x = ns.randn(g, [c['batch'], 1, c['sz'], c.get('sw', c['sz'])])
        out = [net(x)]
        x2 = None
    elif k.startswith('Double'):
        x, x2 = ns.randn(g, [c['batch'], 1, 1]), ns.randn(g, [c['batch'], 1, c['infl']])
        out = list(net((x, x2)))
    elif k == 'ODESimpleFunc':
        x, x2 = ns.randn(g, [c['batch'], 1, 1]), None
        out = [net(0.3, x)]
    else:
        x, x2 = ns.randn(g, [c['batch'], 1, 1]), None
        out = [net(x)]
    exp = net_reference(c, p, x, x2)
    for o, e in zip(out, exp):
        ns.close(o, e, k, rtol=1e-8)
    # number of parameters: layers are separate, recurrent networks share them
    f = c['infl']
    per = {'ResNet': 2, 'ResNetUpDown': 3 * f + 1, 'DoubleResNetUpDown': 2 * f + 1, 'DoubleResNetUpDownRNN': 2 * f + 1, 'ResNetRNN': 3 * f + 1, 'ODESimpleFunc': 2}
    if k in per:
        n = sum(v.numel() for v in p.values())
        e = per[k] * (c['layers'] if k in ['ResNet', 'ResNetUpDown', 'DoubleResNetUpDown'] else 1)
        if n != e:
            fail('{} has {} parameters instead of {}', k, n, e)
    # every layer is trained
    gr = torch.autograd.grad(sum((o ** 2).sum() for o in out), list(net.parameters()), allow_unused=True)
    for (n, v), a in zip(net.named_parameters(), gr):
        if a is None and not n.startswith('bn.'):
            fail('{}: {} is not used', k, n)
    return [k] if c['layers'] > 1 else None


# prediction in chunks of time -----------------------------------------------------------------------------------------

@st.composite
def chunk_case(draw):
    c = draw(ns.block_cfg(models=['simple', 'updown', 'universal', 'periodic'], nls=ns.SMOOTH_NL, max_particles=3, max_batch=3, modes=['particles', 'rnn', 'pf_static', 'pf_time'], max_dim=1, max_size=2))
    c['size'], c['dim'] = 2, 1
    c['T'] = draw(st.integers(2, 12))
    c['chunk'] = draw(st.sampled_from([0, -1, 2, 3, 4, 5, 7, 11, 12, 30]))
    c['zero'] = draw(st.booleans())
    c['long'] = draw(st.booleans())
    c['norm'] = draw(st.sampled_from(['l1', 'l2']))
    c['nopen'] = draw(st.booleans())
    c['sw'], c['nw'] = draw(st.sampled_from([1., 100., 0.5])), draw(st.sampled_from([0.01, 1., 3.]))
    return c


def chunks(c):
    s = demo.load('spiral')
    h = 0.125
    b = ns.mode_block(c, integrator=ns.make_integrator('rk4', step_size=h), max_integration_time=h * (c['T'] - 1))
    t = h * torch.arange(c['T'], dtype=torch.float64)
    tc = s.get_time_chunks(t=t, chunk_time=c['chunk'], start_time_chunk_from_zero=c['zero'])
    # consecutive pieces of at most the given length which share their end points
    pos = 0
    for i, a in enumerate(tc):
        n = len(a)
        if c['chunk'] > 0 and n > c['chunk']:
            fail('a chunk with {} points (at most {})', n, c['chunk'])
        if n < 2:
            fail('a chunk with {} points', n)
        e = t[:n] if c['zero'] and c['chunk'] > 0 else t[pos:pos + n]
        if len(e) != n:
            fail('chunks go beyond the end')
        ns.close(a, e, 'times of chunk {}'.format(i), rtol=0, atol=1e-12)
        pos += n - 1
    if pos != c['T'] - 1:
        fail('chunks end at {} of {}', pos, c['T'] - 1)
    x = ns.randn(ns.gen(c['dseed']), [c['batch'], 1, 2], 0.7)
    with torch.no_grad():
        y, pen = s.compute_validation_data(shooting_block=b, t=t, y0=x, validate_with_long_range=c['long'], chunk_time=c['chunk'], start_time_chunk_from_zero=c['zero'])
    # expected: by hand
    sizes = [len(a) for a in tc] if c['long'] else [c['T']]
    cur, exp, pos, pen_e = x, [x], 0, None
    for n in sizes:
        tt = t[:n] if c['zero'] or c['chunk'] <= 0 else t[pos:pos + n]
        b.set_integration_time_vector(tt, suppress_warning=True)
        with torch.no_grad():
            o = b(x=cur)[0]
        if pen_e is None:
            pen_e = b.get_norm_penalty().detach()
        exp += [o[i] for i in range(1, n)]
        cur = o[-1]
        pos += n - 1
    exp = torch.stack(exp)
    if float(exp.abs().max()) > 1e6:
        return None
    ns.close(y, exp, 'prediction', rtol=1e-9)
    ns.close(pen.detach(), pen_e, 'penalty', rtol=1e-9)
    # losses
    args = types.SimpleNamespace(validate_with_long_range=c['long'], chunk_time=c['chunk'], sim_norm=c['norm'], sim_weight=c['sw'], norm_weight=c['nw'], do_not_use_parameter_penalty_energy=c['nopen'])
    tgt = ns.randn(ns.gen(c['dseed'] + 1), exp.shape)
    for val in [True, False]:
        if val and c['long']:
            if not c['zero']:
                continue
            pred = exp
        else:
            b.set_integration_time_vector(t, suppress_warning=True)
            with torch.no_grad():
                pred = b(x=x)[0]
        loss, sim, nl, np_, py = s.compute_loss(args, x, t, tgt, b, validation_mode=val)
        e = (pred - tgt).abs().mean() if c['norm'] == 'l1' else ((pred - tgt) ** 2).sum(3).sqrt().mean()
        ns.close(py.detach(), pred, 'predicted trajectories', rtol=1e-9)
        ns.close(sim.detach(), c['sw'] * e, 'similarity loss', rtol=1e-9)
        ns.close(np_.detach(), pen_e, 'norm penalty', rtol=1e-9)
        ns.close(nl.detach().to(torch.float64).reshape(-1), (0. if c['nopen'] else c['nw']) * pen_e.reshape(-1), 'norm loss', rtol=1e-9)
        ns.close(loss.detach().reshape(-1), (sim.detach() + nl.detach()).reshape(-1), 'loss', rtol=1e-12)
        if val is False and not loss.requires_grad:
            fail('loss has no gradient')
    try:
        s.compute_loss(types.SimpleNamespace(**dict(vars(args), sim_norm='l7')), x, t, tgt, b)
    except ValueError:
        pass
    else:
        fail('unknown norm accepted')
    return [c['mode'], 'long' if c['long'] else 'short'] if len(sizes) > 1 or not c['long'] else None


# autoencoders ---------------------------------------------------------------------------------------------------------

@st.composite
def ae_case(draw):
    T = draw(st.integers(4, 8))
    n_skip = draw(st.integers(0, T - 3))
    return dict(T=T, n_skip=n_skip, i_eval=draw(st.integers(0, T - 1)), dim=draw(st.integers(1, 4)), N=draw(st.sampled_from([1, 2, 3, 1, 2, 3, 7, 12])), filt=draw(st.integers(1, 2)), masked=draw(st.booleans()), train=draw(st.booleans()),
                model=draw(st.sampled_from(['simple', 'updown', 'updown_universal'])), seed=draw(ns.seeds), dseed=draw(ns.seeds))


def make_ae(c, a):
    r = demo.load('rot')
    blk = r.setup_shooting_block(integrator=r.setup_integrator('rk4', use_adjoint=False, step_size=0.1), in_features=c['dim'], shooting_model=c['model'], nr_of_particles=3, inflation_factor=2, nonlinearity='tanh')
    if c['masked']:
        m = a.ShootingAEMasked(n_filt=c['filt'], shooting_dim=c['dim'], n_skip=c['n_skip'], i_eval=c['i_eval'], T=c['T'])
    else:
        m = a.ShootingAE(n_filt=c['filt'], shooting_dim=c['dim'], T=c['T'])
    m.set_shooting_block(blk)
    m.set_integration_time_vector(0.1 * torch.arange(c['T'], dtype=torch.float64))
    g = ns.gen(c['seed'])
    blk(x=ns.randn(g, [1, 1, c['dim']]))
    with torch.no_grad():
        for n, p in sorted(blk.named_parameters()):
            p.copy_(ns.randn(g, p.shape, 0.5))
        for q in [m.encoder, m.decoder, m.fc1, m.fc2]:
            for n, p in sorted(q.named_parameters()):
                p.copy_(ns.randn(g, p.shape, 0.3))
    return m, blk


def autoencoder(c):
    a = demo.load('autoencoder')
    m, blk = make_ae(c, a)
    ch = 1 if c['masked'] else 3
    x = ns.randn(ns.gen(c['dseed']), [c['N'], ch, 28, 28])
    m.train(c['train'])
    if c['masked']:
        np.random.seed(c['seed'] % 2**31)
        idx = m.generate_selection_indices(torch.zeros(c['N'], c['T'], c['dim']))
        keep = c['T'] - c['n_skip'] - 1
        if tuple(idx.shape) != (c['N'], keep, c['dim']):
            fail('selection of shape {}', tuple(idx.shape))
        for i in range(c['N']):
            v = idx[i, :, 0].tolist()
            if any(idx[i, :, j].tolist() != v for j in range(c['dim'])):
                fail('different times are selected for the components of a state')
            if sorted(set(v)) != v or min(v) < 0 or max(v) >= c['T']:
                fail('selected times {}', v)
            if c['i_eval'] in v:
                fail('the time for the evaluation is used for training')
        # which times are used is random for every image
        if 0 < c['n_skip'] and c['T'] - 1 > max(c['n_skip'], 2):
            sel = [m.generate_selection_indices(torch.zeros(c['N'], c['T'], c['dim']))[:, :, 0].tolist() for _ in range(24)]
            for i in range(c['N']):
                if len({tuple(x[i]) for x in sel}) == 1:
                    fail('always the same times are selected for image {}', i)
    bn = [copy_stats(m)]
    calls = []
    h = m.decoder.register_forward_hook(lambda mod, i, o: calls.append((i[0].detach().clone(), o.detach().clone())))
    out = m(x, use_mask=False) if c['masked'] else m(x)
    h.remove()
    lat, img = out[0].detach(), out[-1].detach()
    if tuple(lat.shape) != (c['N'], c['T'], c['dim']) or tuple(img.shape) != (c['N'], c['T'], 1, 28, 28):
        fail('shapes {} {}', tuple(lat.shape), tuple(img.shape))
    if not 0 <= float(img.min()) <= float(img.max()) <= 1:
        fail('images are not in [0,1]')
    if c['masked'] and out[1] is not None:
        fail('a selection although nothing is masked')
    # image number (i,t) is the decoded latent state (i,t)
    if not c['train']:
        with torch.no_grad():
            enc = m.fc1(m.encoder(x))
            e = blk(enc.unsqueeze(1))[0].reshape(c['T'], c['N'], c['dim'])
            ns.close(lat, e.transpose(0, 1), 'latent states', rtol=1e-9)
            ns.close(lat[:, 0], enc, 'first latent state', rtol=1e-12)
            for i in range(c['N']):
                one = m(x[i:i + 1], use_mask=False) if c['masked'] else m(x[i:i + 1])
                ns.close(one[0], lat[i:i + 1], 'latent states of a single image', rtol=1e-7)
                ns.close(one[-1], img[i:i + 1], 'single image', rtol=1e-7)
                for t in range(c['T']):
                    ns.close(m.decoder(m.fc2(lat[i, t].reshape(1, -1))).reshape(28, 28), img[i, t, 0], 'decoded image at time {}'.format(t), rtol=1e-7)
    if c['masked']:
        full_lat, full_img = lat, img
        restore_stats(m, bn[0])
        o2, idx, im2 = m(x, use_mask=True)
        keep = c['T'] - c['n_skip'] - 1
        if tuple(im2.shape) != (c['N'], keep, 1, 28, 28) or tuple(o2.shape) != (c['N'], keep, c['dim']):
            fail('masked shapes {} {}', tuple(im2.shape), tuple(o2.shape))
        for i in range(c['N']):
            for j, t in enumerate(idx[i, :, 0].tolist()):
                if t == c['i_eval']:
                    fail('the time for the evaluation is decoded during training')
                if not c['train']:
                    ns.close(o2[i, j].detach(), full_lat[i, t], 'masked latent state', rtol=1e-9)
                    ns.close(im2[i, j].detach(), full_img[i, t], 'masked image', rtol=1e-7)
    # everything is trained
    (m(x, use_mask=True)[-1] if c['masked'] else m(x)[-1]).pow(2).sum().backward()
    for n, p in m.named_parameters():
        if p.grad is None and not n.startswith('blk.'):
            fail('{} is not trained', n)
    if blk_grad(blk) == 0:
        fail('the block is not trained')
    return ['masked' if c['masked'] else 'plain', c['model']]


def blk_grad(blk):
    return sum(1 for p in blk.parameters() if p.grad is not None)


def copy_stats(m):
    return {k: v.clone() for k, v in m.named_buffers()}


def restore_stats(m, s):
    with torch.no_grad():
        for k, v in m.named_buffers():
            v.copy_(s[k])


def eval_case():
    return st.fixed_dictionaries(dict(what=st.sampled_from(['rot', 'balls']), sizes=st.lists(st.integers(1, 3), min_size=1, max_size=3), i_eval=st.integers(0, 15), ahead=st.integers(1, 10), seed=ns.seeds))


class FakeAE(torch.nn.Module):
    """returns prepared images"""
    def __init__(self, outs):
        super().__init__()
        self.outs = list(outs)
        self.seen = []

    def forward(self, x, use_mask=None):
        self.seen.append((x.clone(), use_mask, self.training))
        o = self.outs[len(self.seen) - 1]
        return (None, None, o) if use_mask is not None else (None, o)


def evaluation(c):
    g = ns.gen(c['seed'])
    if c['what'] == 'rot':
        r = demo.load('rot')
        batches = [ns.randn(g, [n, 16, 1, 28, 28]) for n in c['sizes']]
        outs = [ns.randn(g, [n, 16, 1, 28, 28]) for n in c['sizes']]
        m = FakeAE(outs).train()
        err, n = r.evaluate(types.SimpleNamespace(i_eval=c['i_eval']), m, batches, torch.device('cpu'))
        if n != sum(c['sizes']):
            fail('{} images instead of {}', n, sum(c['sizes']))
        e = [float(((b[i, c['i_eval']] - o[i, c['i_eval']]) ** 2).mean()) for b, o in zip(batches, outs) for i in range(b.shape[0])]
        ns.close(torch.tensor(np.array(err, dtype=np.float64)), torch.tensor(e), 'errors', rtol=1e-9)
        for (x, mask, tr), b in zip(m.seen, batches):
            if mask is not False or tr or not torch.equal(x, b[:, 0]):
                fail('evaluated on something else (mask {}, training {})', mask, tr)
        return ['rot']
    r = demo.load('balls')
    sizes = c['sizes']
    batches = [ns.randn(g, [n, 20, 28, 28]) for n in sizes]
    outs = [ns.randn(g, [n, 20, 1, 28, 28]) for n in sizes]
    m = FakeAE(outs).train()
    r.device = torch.device('cpu')
    err, Rs, Vs = r.evaluate(types.SimpleNamespace(evaluate_ahead=c['ahead']), m, [(b,) for b in batches])
    e = np.concatenate([((b - o[:, :, 0]) ** 2).mean((2, 3))[:, 3:3 + c['ahead']].numpy() for b, o in zip(batches, outs)])
    ns.close(torch.tensor(err), torch.tensor(e), 'errors', rtol=1e-9)
    for (x, mask, tr), b, R, V, o in zip(m.seen, batches, Rs, Vs, outs):
        if tr or not torch.equal(x, b[:, :3]):
            fail('evaluated on something else')
        if not np.array_equal(R, o[:, 3:3 + c['ahead'], 0].numpy()) or not np.array_equal(V, b[:, 3:3 + c['ahead']].numpy()):
            fail('returned images')
    return ['balls']


# classifier -----------------------------------------------------------------------------------------------------------

@st.composite
def cc_case(draw):
    return dict(model=draw(st.sampled_from(['simple', 'updown', 'updown_universal', 'periodic'])), N=draw(st.integers(2, 9)), bs=draw(st.integers(2, 5)), T=draw(st.integers(2, 5)), small=draw(st.sampled_from([False, False, True])), seed=draw(ns.seeds), dseed=draw(ns.seeds))


def classifier(c):
    cc = demo.load('cc')
    blk = cc.setup_shooting_block(integrator=cc.setup_integrator('rk4', use_adjoint=False, step_size=0.25), in_features=2, shooting_model=c['model'], nr_of_particles=3, inflation_factor=2, nonlinearity='tanh')
    m = cc.Model()
    m.set_shooting_block(blk)
    g = ns.gen(c['seed'])
    blk(x=ns.randn(g, [1, 1, 2]))
    fill(m, g)
    with torch.no_grad():
        m.cls[0].running_mean.copy_(ns.randn(g, [2]))
        m.cls[0].running_var.copy_(ns.randn(g, [2]).abs() + 0.5)
        if c.get('small'):
            # uncertain decisions
            m.cls[1].weight.mul_(1e-5)
    m.eval()
    g = ns.gen(c['dseed'])
    X = ns.randn(g, [c['N'], 2])
    y = (ns.randn(g, [c['N'], 1]) > 0).to(torch.float64)
    with torch.no_grad():
        z, o = m(X.unsqueeze(1))
        ze = blk(x=X.unsqueeze(1))[0]
        p = dict(m.cls.named_parameters())
        zz = (ze.reshape(-1, 2) - m.cls[0].running_mean) / torch.sqrt(m.cls[0].running_var + m.cls[0].eps) * p['0.weight'] + p['0.bias']
        ns.close(z, ze, 'transformed points', rtol=1e-12)
        ns.close(o, zz @ p['1.weight'].t(), 'logits', rtol=1e-9)
        tr = m.trajectory(X.unsqueeze(1), N=c['T'])[0]
        if tr.shape[0] != c['T']:
            fail('{} points on the trajectory', tr.shape[0])
        ns.close(tr[0], X.unsqueeze(1), 'start of the trajectory', rtol=1e-12)
        if (c['T'] - 1) in [1, 2, 4]:
            ns.close(tr[-1], ze, 'end of the trajectory', rtol=1e-9)
        ns.close(m(X.unsqueeze(1))[1], o, 'prediction after a trajectory was computed', rtol=1e-12)
    data = torch.utils.data.TensorDataset(X, y)
    ld = torch.utils.data.DataLoader(data, batch_size=c['bs'], shuffle=False)
    m.train()
    loss, acc = cc.test(m, torch.device('cpu'), ld)
    e = F.binary_cross_entropy_with_logits(o, y).item()
    ns.close(torch.tensor(loss), torch.tensor(e), 'test loss', rtol=1e-9)
    ns.close(torch.tensor(acc), torch.tensor(100. * float(((o > 0).to(torch.float64) == y).to(torch.float64).mean())), 'accuracy', rtol=1e-9)
    # one pass of training: one step per batch, average loss
    if c['N'] % c['bs'] != 1:
        opt = torch.optim.SGD(m.parameters(), lr=0.0)
        args = types.SimpleNamespace(sim_weight=3.0)
        got = cc.train(args, m, torch.device('cpu'), ld, opt, 0)
        m.train()
        es = []
        for a, b in ld:
            es.append(3.0 * F.binary_cross_entropy_with_logits(m(a.unsqueeze(1))[1], b).item())
        ns.close(torch.tensor(got), torch.tensor(np.mean(es)), 'training loss', rtol=1e-7)
        if not m.training:
            fail('not in training mode')
    if c['model'] != 'simple':
        rec = cc.hook_in(m, torch.device('cpu'), ld)
        s = {k: v.detach() for k, v in blk.named_parameters()}
        ns.close(rec['q1'][0], s['q1'], 'recorded particles', rtol=1e-12)
        if rec['t'][0] != 0 or abs(rec['t'][-1] - 1) > 1e-6 or len(rec['t']) != len(rec['l1_weight']):
            fail('recorded times {}', rec['t'])
        n = len(rec['t'])
        with torch.no_grad():
            m(X.unsqueeze(1))
        if len(rec['t']) != n:
            fail('the hook is still active')
    return [c['model']]


# construction ---------------------------------------------------------------------------------------------------------

@st.composite
def setup_case(draw):
    script = draw(st.sampled_from(['spiral', 'cc', 'rot', 'balls']))
    models = ['simple', 'updown', 'updown_universal'] + (['periodic'] if script != 'rot' else [])
    c = dict(script=script, model=draw(st.sampled_from(models)), n=draw(st.integers(1, 4)), size=2 if script == 'spiral' else draw(st.integers(1, 3)), infl=draw(st.integers(1, 3)), weight=draw(st.sampled_from([1., 2., 0.5])),
             nl=draw(st.sampled_from(['identity', 'relu', 'tanh', 'sigmoid'])), mode=draw(st.sampled_from(['particles', 'rnn', 'pf_static'] + (['pf_time'] if script == 'spiral' else []))),
             pfsteps=draw(st.sampled_from([1, 3, 4])), step=draw(st.sampled_from([0.125, 0.25])), opt=draw(st.sampled_from([10., 0.1, 2.])), ana=draw(st.booleans()), batch=draw(st.integers(1, 3)),
             seed=draw(ns.seeds), dseed=draw(ns.seeds), method=draw(st.sampled_from(['rk4', 'rk4', 'dopri5'])), T=draw(st.sampled_from([1.0, 0.5])))
    if c['method'] == 'dopri5' and c['nl'] == 'relu':
        c['nl'] = 'tanh'      # tiny steps at the kinks
    return c


def setup(c):
    """blocks made by the scripts are the blocks their options describe: same flow as a block made here"""
    s = demo.load(c['script'])
    integ = s.setup_integrator(method=c['method'], use_adjoint=False, step_size=c['step'], rtol=1e-9, atol=1e-11)
    kw = dict(integrator=integ, shooting_model=c['model'], parameter_weight=c['weight'], nr_of_particles=c['n'], inflation_factor=c['infl'], nonlinearity=c['nl'],
              use_particle_rnn_mode=c['mode'] == 'rnn', use_particle_free_rnn_mode=c['mode'] == 'pf_static')
    if c['script'] == 'spiral':
        kw.update(use_particle_free_time_dependent_mode=c['mode'] == 'pf_time', nr_of_particle_free_time_dependent_steps=c['pfsteps'], use_analytic_solution=c['ana'], optional_weight=c['opt'], max_integraton_time=c['T'])
    else:
        kw.update(in_features=c['size'])
    b = s.setup_shooting_block(**kw)
    cfg = dict(model=dict(simple='simple', updown='updown', updown_universal='universal', periodic='periodic')[c['model']], nl=c['nl'], n=c['n'], weight=None, dim=1, size=c['size'], infl=c['infl'],
               seed=c['seed'], mag=0.5, mode=c['mode'], pfsteps=c['pfsteps'], analytic=True, batch=c['batch'], dseed=c['dseed'])
    mk = dict(parameter_weight=c['weight'])
    if c['model'] == 'updown_universal':
        mk['optional_weight'] = c['opt'] if c['script'] == 'spiral' else 0.1
    x = ns.randn(ns.gen(c['dseed']), [c['batch'], 1, c['size']], 0.5)
    T = c['T'] if c['script'] == 'spiral' else 1.0
    e = ns.mode_block(cfg, name='simple', integrator=ns.make_integrator(c['method'], step_size=c['step'], rtol=1e-9, atol=1e-11), model_kwargs=mk, max_integration_time=T)
    for k in [b, e]:
        k.set_integration_time(T if c['method'] == 'rk4' else 1. / 64)
        k(x=x)     # creates the parameters
        k.set_integration_time(T)
    pb, pe = dict(b.named_parameters()), dict(e.named_parameters())
    if {k: tuple(v.shape) for k, v in pb.items()} != {k: tuple(v.shape) for k, v in pe.items()}:
        fail('parameters {} instead of {}', sorted(pb), sorted(pe))
    g = ns.gen(c['seed'])
    with torch.no_grad():
        for k in sorted(pb):
            v = ns.randn(g, pb[k].shape, 0.4 if c['method'] == 'rk4' else 0.1)    # adaptive methods: stay away from singularities
            pb[k].copy_(v)
            pe[k].copy_(v)
    ob, oe = b(x=x), e(x=x)
    if not float(oe[0].detach().abs().max()) < 1e4:
        return None
    tol = dict(rtol=1e-9, atol=1e-9) if c['method'] == 'rk4' else dict(rtol=1e-5, atol=1e-6)
    ns.close(ob[0].detach(), oe[0].detach(), 'flow of the block made by {}'.format(c['script']), **tol)
    ns.close(b.get_norm_penalty().detach(), e.get_norm_penalty().detach(), 'penalty', **tol)
    return [c['script'], c['model'], c['mode']]


SUBS = [
    Sub('networks', net_case(), networks, 200, 4000, 'baseline networks with random weights against their stated formulas; non-trivial: several layers'),
    Sub('chunks', chunk_case(), chunks, 120, 2000, 'predictions in pieces of time and losses of random blocks; non-trivial: several pieces', shards=3),
    Sub('autoencoder', ae_case(), autoencoder, 40, 600, 'random autoencoders', shards=2),
    Sub('evaluation', eval_case(), evaluation, 60, 1000, 'errors of prepared predictions'),
    Sub('classifier', cc_case(), classifier, 40, 800, 'random classifiers and data', shards=2),
    Sub('setup', setup_case(), setup, 80, 1500, 'blocks made by the experiments against directly made blocks', shards=3),
]
