"""Experiments from end to end: same seed, same result; the saved results describe the trained model; options do what they say."""
import contextlib
import io
import os
import pickle
import runpy
import shutil
import sys
import tempfile
import numpy as np
import scipy.io
import torch
import torch.nn.functional as F
from torch.optim.optimizer import register_optimizer_step_pre_hook
from pbt import Sub, st, fail, Skip
import ns
import demo
import neuro_shooting.vector_visualization as vv
import neuro_shooting.figure_utils as fu
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.validation_measures as vm
from collections import defaultdict


@contextlib.contextmanager
def no_figures(log):
    """there is no LaTeX here; figures are checked elsewhere"""
    import matplotlib
    import matplotlib.pyplot as plt
    old = [(vv, 'basic_visualize'), (vv, 'plot_temporal_data'), (vv, 'visualize_time_evolution'), (fu, 'save_all_formats'), (plt, 'show')]
    old = [(m, n, getattr(m, n)) for m, n in old if hasattr(m, n)]
    for m, n, f in old:
        setattr(m, n, (lambda name: lambda *a, **k: log.append(name))(n))
    be = matplotlib.get_backend()
    rc = dict(matplotlib.rcParams)
    try:
        yield
    finally:
        for m, n, f in old:
            setattr(m, n, f)
        plt.close('all')
        plt.switch_backend(be)
        with contextlib.suppress(Exception):
            matplotlib.rcParams.update(rc)


class Variables(dict):
    """variables of the scripts are not part of what they promise"""
    def __missing__(self, k):
        raise Skip('there is no variable {}'.format(k))


def run(script, args, prepare=None):
    """runs a script as the command line would, in a scratch directory; gives its variables and the files it wrote"""
    demo.load('simple_discrete_neural_networks')      # makes the demos importable
    d = tempfile.mkdtemp(prefix='c31_')
    top = d
    d = os.path.join(top, 'demos', 'neurips20')
    os.makedirs(d)
    if prepare:
        prepare(top)
    argv = sys.argv
    torch.set_default_dtype(torch.float32)      # as in a fresh process
    log = []
    first = {}

    def step(opt, *a):
        # settings of every optimizer at its first step
        if id(opt) not in first:
            first[id(opt)] = (opt, [(float(q['lr']), float(q.get('weight_decay', 0)), [id(p) for p in q['params']]) for q in opt.param_groups])
    handle = register_optimizer_step_pre_hook(step)
    try:
        with demo.cwd(d), no_figures(log), contextlib.redirect_stderr(io.StringIO()):
            sys.argv = [script + '.py'] + [str(a) for a in args]
            try:
                g = runpy.run_path(os.path.join(demo.DEMOS, script + '.py'), run_name='__main__')
            except SystemExit as e:
                fail('{} {} exits with {}', script, ' '.join(sys.argv[1:]), e.code)
            files = {}
            for r, _, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(r, f)
                    with open(p, 'rb') as h:
                        files[os.path.relpath(p, d)] = h.read()
    finally:
        handle.remove()
        sys.argv = argv
        shutil.rmtree(top)
    g = Variables(g)
    g.optimizers = [v for _, v in first.values()]
    return g, files, log


def check_steps(g, lr, decay=lambda i: None):
    """training starts with the learning rate (and weight decay for parameters) of the options"""
    for groups in g.optimizers:
        for l, d, ids in groups:
            if abs(l - lr) > 1e-9 * abs(lr):
                fail('training starts with learning rate {} instead of {}', l, lr)
            for i in ids:
                if decay(i) is not None and abs(d - decay(i)) > 1e-9 * d:
                    fail('weight decay {} instead of {}', d, decay(i))


def result(files, name):
    if name not in files:
        fail('results are not saved in {} (but {})', name, sorted(files))
    return torch.load(io.BytesIO(files[name]), weights_only=False)


def same(a, b, what):
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            fail('{}: {} and {}', what, sorted(a), sorted(b))
        for k in a:
            same(a[k], b[k], what + '.' + str(k))
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            fail('{}: lengths differ', what)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, '{}[{}]'.format(what, i))
    elif torch.is_tensor(a):
        if a.shape != b.shape or not (torch.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True)):
            fail('{} differs between two runs with the same seed', what)
    elif isinstance(a, float) or isinstance(a, np.floating):
        if not np.allclose(a, b, rtol=1e-4, atol=1e-6, equal_nan=True):
            fail('{}: {} and {} in two runs with the same seed', what, a, b)
    elif a != b:
        fail('{}: {} and {} in two runs with the same seed', what, a, b)


def count(m):
    f = sum(p.numel() for p in m.parameters() if not p.requires_grad)
    o = sum(p.numel() for p in m.parameters() if p.requires_grad)
    return dict(fixed=f, optimized=o, overall=f + o)


def check_args(saved, given, what):
    s = dict(saved)
    for k, v in given.items():
        if k not in s or s[k] != v:
            fail('{}: saved argument {} is {} instead of {}', what, k, s.get(k), v)


def options(kv):
    o = []
    for k, v in kv.items():
        if v is True:
            o.append('--' + k)
        elif v is not False:
            o += ['--' + k, v]
    return o


def approx(a, b, what, rtol=1e-3, atol=1e-5):
    a, b = float(a), float(b)
    if np.isnan(a) and np.isnan(b):
        return
    if not abs(a - b) <= atol + rtol * abs(b):
        fail('{}: {} instead of {}', what, a, b)


NAMES = {'simple': 'simple', 'updown': 'updown', 'updown_universal': 'universal', 'general_updown': 'general', 'periodic': 'periodic', '2nd_order': 'second_order'}


def rebuilt(o, b, size, x, t=None, T=1.0, steps=10):
    """a block made from the options with the parameters of the trained one: prediction, penalty"""
    if NAMES[o['shooting_model']] not in ns.MODELS:
        return None
    mode = 'rnn' if o.get('use_particle_rnn_mode') else 'pf_static' if o.get('use_particle_free_rnn_mode') else 'pf_time' if o.get('use_particle_free_time_dependent_mode') else 'particles'
    cfg = dict(model=NAMES[o['shooting_model']], nl=o['nonlinearity'], n=o['nr_of_particles'], weight=None, dim=1, size=size, infl=o['inflation_factor'], seed=1, mag=0.5, mode=mode,
               pfsteps=o.get('nr_of_particle_free_time_dependent_steps', steps), analytic=False, batch=x.shape[0], dseed=1)
    mk = dict(parameter_weight=o.get('pw', 1.0))
    if o['shooting_model'] == 'updown_universal':
        mk['optional_weight'] = o.get('optional_weight', 10.0)
    if o.get('optimize_over_data_initial_conditions'):
        mk.update(optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type=o.get('optimize_over_data_initial_conditions_type', 'linear'))
    e = ns.mode_block(cfg, name='other', integrator=ns.make_integrator('rk4', step_size=o['stepsize'], **({'nr_of_checkpoints': o['nr_of_checkpoints']} if o.get('nr_of_checkpoints') else {})), model_kwargs=mk, max_integration_time=T, fill=None)
    e(x=x)
    p, q = dict(b.named_parameters()), dict(e.named_parameters())
    if {k: tuple(v.shape) for k, v in p.items()} != {k: tuple(v.shape) for k, v in q.items()}:
        fail('the model has parameters {} instead of {}', {k: tuple(v.shape) for k, v in p.items()}, {k: tuple(v.shape) for k, v in q.items()})
    with torch.no_grad():
        for k in p:
            q[k].copy_(p[k])
    if t is not None:
        e.set_integration_time_vector(t, suppress_warning=True)
    y = e(x=x)[0].detach()
    return y, float(e.get_norm_penalty())


def same_model(o, b, size, x, y, pen, **k):
    r = rebuilt(o, b, size, x, **k)
    if r is None or not float(y.abs().max()) < 1e3:
        return
    if r[0].shape != y.shape or float((r[0] - y).abs().max()) > 2e-3 * (1 + float(y.abs().max())):
        fail('the model is not the one given by the options: predictions differ by {}', float((r[0] - y).abs().max()))
    approx(pen, r[1], 'penalty of the model given by the options', rtol=1e-2, atol=1e-4)


# function fitting -----------------------------------------------------------------------------------------------------

@st.composite
def sfm_case(draw):
    base = draw(st.sampled_from(['shooting', 'shooting', 'shooting', 'use_updown', 'use_double_resnet', 'use_rnn', 'use_double_resnet_rnn', 'use_simple_resnet', 'use_neural_ode']))
    o = dict(niters=draw(st.integers(0, 2)), seed=draw(st.integers(0, 10000)), batch_size=draw(st.sampled_from([100, 250, 500])), fcn=draw(st.sampled_from(['cubic', 'quadratic'])), xrange=draw(st.sampled_from([1.5, 1.0])),
             lr=draw(st.sampled_from([0.01, 0.05])), inflation_factor=draw(st.integers(1, 3)), save_figures=True, output_basename=draw(st.sampled_from(['sfm', 'run-1'])), output_directory=draw(st.sampled_from(['out', 'res_a'])),
             sim_weight=draw(st.sampled_from([100.0, 1.0])), norm_weight=draw(st.sampled_from([1.0, 0.1])), stepsize=0.25, nr_of_particles=draw(st.integers(2, 5)))
    if base == 'shooting':
        o.update(shooting_model=draw(st.sampled_from(['simple', '2nd_order', 'updown', 'updown_universal', 'general_updown', 'periodic'])), nonlinearity=draw(st.sampled_from(['relu', 'tanh'])),
                 custom_parameter_freezing=draw(st.booleans()), clamp_range=draw(st.booleans()), do_not_use_parameter_penalty_energy=draw(st.booleans()), custom_parameter_initialization=draw(st.booleans()), pw=draw(st.sampled_from([1.0, 2.0, 0.5])),
                 optional_weight=draw(st.sampled_from([10.0, 1.0])), nr_of_particle_free_time_dependent_steps=draw(st.sampled_from([10, 3])))
        mode = draw(st.sampled_from([None, None, 'use_particle_rnn_mode', 'use_particle_free_rnn_mode', 'use_particle_free_time_dependent_mode']))
        if mode:
            o[mode] = True
        if o['shooting_model'] in ['updown', 'updown_universal', 'general_updown', 'periodic']:
            o['optimize_over_data_initial_conditions'] = draw(st.booleans())
            o['optimize_over_data_initial_conditions_type'] = draw(st.sampled_from(['linear', 'direct', 'mini_nn']))
    else:
        o.update({base: True, 'nr_of_layers': draw(st.integers(2, 4))})
        o['inflation_factor'] = max(2, o['inflation_factor'])      # layer weights are shown as images
    return dict(base=base, o=o)


def f_true(x, kind):
    return x * x * x if kind == 'cubic' else x * x + 3. / (1. + x * x)


def sfm(c):
    o = c['o']
    g, files, log = run('simple_functional_mapping_example', options(o))
    name = os.path.join(o['output_directory'], o['output_basename'] + '-results.pt')
    r = result(files, name)
    check_args(r['args'], o, 'function fitting')
    if 'lr' in o and c['base'] == 'shooting':
        check_steps(g, o['lr'])
    # the saved losses are those of the trained model on the test data
    x = torch.linspace(-o['xrange'], o['xrange'], 1000, dtype=torch.float32).reshape(-1, 1, 1)
    y = f_true(x, o['fcn'])
    with torch.no_grad():
        if c['base'] == 'shooting':
            m = g['sblock']
            p = m(x=x)[0]
            pen = m.get_norm_penalty()
            nl = 0. if o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * float(pen)
        elif c['base'] == 'use_neural_ode':
            m = g['func']
            t, p = 0., x
            n = 200
            for i in range(n):      # classical Runge-Kutta with many steps
                f = lambda v: m(0., v)
                k1 = f(p); k2 = f(p + k1 / n / 2); k3 = f(p + k2 / n / 2); k4 = f(p + k3 / n)
                p = p + (k1 + 2 * k2 + 2 * k3 + k4) / n / 6
            pen, nl = 0., 0.
        else:
            m = g['simple_resnet']
            p = m((x, torch.zeros(1000, 1, o['inflation_factor'])))[0] if 'double' in c['base'] else m(x)
            pen, nl = 0., 0.
    sim = o['sim_weight'] * float(((p - y) ** 2).mean())
    if not np.isfinite(sim) or sim > 1e6:
        return None
    if c['base'] == 'shooting':
        same_model(o, m, 1, x, p, float(pen))
    approx(r['sim_loss'], sim, 'saved similarity loss')
    approx(r['norm_loss'], nl, 'saved norm loss')
    approx(r['norm_penalty'], pen, 'saved norm penalty')
    approx(r['test_loss'], sim + nl, 'saved test loss')
    if r['nr_of_parameters'] != count(m):
        fail('saved numbers of parameters {} instead of {}', r['nr_of_parameters'], count(m))
    if c['base'] == 'shooting' and 'log_complexity_measures' not in r:
        fail('no complexity measures')
    # the same again
    g2, files2, _ = run('simple_functional_mapping_example', options(o))
    same(r, result(files2, name), 'results')
    m2 = g2['sblock'] if c['base'] == 'shooting' else (g2['func'] if c['base'] == 'use_neural_ode' else g2['simple_resnet'])
    same({k: v.detach() for k, v in m.named_parameters()}, {k: v.detach() for k, v in m2.named_parameters()}, 'parameters')
    # another seed
    g3, files3, _ = run('simple_functional_mapping_example', options(dict(o, seed=o['seed'] + 1, niters=0)))
    if c['base'] == 'shooting':
        pars = dict(g3['sblock'].named_parameters())
        particles = not (o.get('use_particle_free_rnn_mode') or o.get('use_particle_free_time_dependent_mode'))
        q = dict(m.named_parameters())
        if particles:
            if o['clamp_range'] and float(q['q1'].detach().abs().max()) > o['xrange'] + 1e-6:
                fail('particles leave the range they are clamped to')
            if o['custom_parameter_freezing'] and q['q1'].requires_grad:
                fail('the particles are not frozen')
            if o['custom_parameter_initialization'] and o['custom_parameter_freezing']:
                e = torch.linspace(-o['xrange'], o['xrange'], o['nr_of_particles'])
                if float((q['q1'].detach().reshape(-1).sort()[0] - e).abs().max()) > 1e-5:
                    fail('frozen particles are not where they were placed')
            if not o['custom_parameter_freezing']:
                if not q['q1'].requires_grad:
                    fail('particles are frozen although this was not requested')
        moved = [k for k in q if q[k].requires_grad and pars[k].shape == q[k].shape and not torch.equal(pars[k].detach(), q[k].detach())]
        if not moved:
            fail('another seed gives the same parameters')
    return [c['base'], o.get('shooting_model')]


# freezing -------------------------------------------------------------------------------------------------------------

@st.composite
def freeze_case(draw):
    return dict(script=draw(st.sampled_from(['simple_functional_mapping_example', 'spiral'])), freeze=draw(st.booleans()), unfreeze=draw(st.sampled_from([-1, 1, 2])), model=draw(st.sampled_from(['updown', 'updown_universal', 'simple'])),
                seed=draw(st.integers(0, 10000)), init=draw(st.booleans()))


def freezing(c):
    """particles stay where they are until they are unfrozen"""
    o = dict(seed=c['seed'], shooting_model=c['model'], nr_of_particles=3, inflation_factor=2, batch_size=50 if c['script'] == 'spiral' else 250, stepsize=0.25, custom_parameter_freezing=c['freeze'],
             unfreeze_parameters_at_iter=c['unfreeze'], custom_parameter_initialization=c['init'], lr=0.01, nonlinearity='tanh')
    name = 'sblock' if c['script'] != 'spiral' else 'shooting_block'
    q = {}
    for n in [0, 1, 2]:
        g, _, _ = run(c['script'], options(dict(o, niters=n)))
        q[n] = {k: v.detach().clone() for k, v in g[name].named_parameters()}
        fr = c['freeze'] and not 0 <= c['unfreeze'] <= n
        if dict(g[name].named_parameters())['q1'].requires_grad != (not fr):
            fail('after iteration {}: particles {}', n, 'not frozen' if fr else 'frozen')
        if c['freeze'] and c['unfreeze'] != 0 and fr and c['init']:
            x = q[n]['q1'].reshape(3, -1)
            if c['script'] == 'spiral':
                Y = g['data']['y'][:, 0, :]
                if max(float((Y - v).abs().sum(1).min()) for v in x) > 1e-5:
                    fail('particles are not placed on the trajectory')
            elif float((x.reshape(-1) - torch.linspace(-1.5, 1.5, 3)).abs().max()) > 1e-5:
                fail('particles are not placed uniformly')
    for a, b in [(0, 1), (1, 2)]:
        fr = c['freeze'] and not 0 <= c['unfreeze'] <= b
        eq = torch.equal(q[a]['q1'], q[b]['q1'])
        if fr and not eq:
            fail('frozen particles move in iteration {}', b)
        if not fr and eq and float(q[a]['p_q1'].abs().max()) > 0 and not torch.equal(q[a]['p_q1'], q[b]['p_q1']):
            fail('particles which are not frozen stay in iteration {}', b)
        if all(torch.equal(q[a][k], q[b][k]) for k in q[a]):
            fail('nothing is optimized in iteration {}', b)
    return [c['script'], c['freeze']]


# spiral ---------------------------------------------------------------------------------------------------------------

@st.composite
def spiral_case(draw):
    o = dict(niters=draw(st.integers(0, 1)), seed=draw(st.integers(0, 10000)), batch_size=draw(st.sampled_from([50, 100])), data_size=draw(st.sampled_from([60, 80])), batch_time=draw(st.integers(3, 6)), linear=draw(st.booleans()),
             lr=draw(st.sampled_from([0.01, 0.03])), inflation_factor=draw(st.integers(1, 3)), nr_of_particles=draw(st.integers(2, 5)), save_figures=True, output_basename=draw(st.sampled_from(['spiral', 'run-1'])), output_directory='out',
             validate_with_long_range=draw(st.booleans()), chunk_time=draw(st.integers(3, 6)), sim_norm=draw(st.sampled_from(['l1', 'l2'])), do_not_use_parameter_penalty_energy=draw(st.booleans()), stepsize=0.1,
             disable_distance_based_sampling=draw(st.booleans()), shooting_model=draw(st.sampled_from(['updown_universal', 'simple', 'updown', 'periodic'])), nonlinearity='tanh', optional_weight=draw(st.sampled_from([10.0, 1.0])),
             norm_weight=draw(st.sampled_from([0.01, 0.5])), sim_weight=draw(st.sampled_from([100.0, 2.0])))
    mode = draw(st.sampled_from([None, None, 'use_particle_rnn_mode', 'use_particle_free_rnn_mode', 'use_particle_free_time_dependent_mode']))
    if mode:
        o[mode] = True
    if o['shooting_model'] != 'simple':
        o['optimize_over_data_initial_conditions'] = draw(st.booleans())
        o['optimize_over_data_initial_conditions_type'] = draw(st.sampled_from(['linear', 'direct', 'mini_nn']))
    o['pw'] = draw(st.sampled_from([1.0, 2.0, 0.5]))
    o['nr_of_particle_free_time_dependent_steps'] = draw(st.sampled_from([10, 3]))
    o['do_not_use_analytic_solution'] = draw(st.booleans())
    if mode != 'use_particle_rnn_mode':
        o['nr_of_checkpoints'] = draw(st.sampled_from([0, 0, 2]))
    return o


def spiral(o):
    g, files, log = run('spiral', options(o))
    name = os.path.join('out', o['output_basename'] + '-results.pt')
    r = result(files, name)
    check_args(r['args'], o, 'spiral')
    if 'lr' in o:
        check_steps(g, o['lr'], lambda i: 0.0)
    b = g['shooting_block']
    if r['nr_of_parameters'] != count(b):
        fail('saved numbers of parameters {} instead of {}', r['nr_of_parameters'], count(b))
    todo = [('short_range_', g['short_range_test_loader'], False)]
    if o['validate_with_long_range']:
        todo.append(('', g['test_loader'], True))
    for pre, loader, long in todo:
        batch = next(iter(loader))
        y0, y = batch['y0'], batch['y'].transpose(0, 1)
        t = loader.dataset.t
        n = len(t)
        with torch.no_grad():
            if not o['validate_with_long_range']:
                b.set_integration_time_vector(t, suppress_warning=True)
                p = b(x=y0)[0]
                pen = float(b.get_norm_penalty())
                same_model(o, b, 2, y0, p, pen, t=t, T=float(t.max()))
            else:
                # pieces of time, every piece starts where the last one ended
                outs, cur, pos, pen = [y0], y0, 0, None
                while pos < n - 1:
                    k = min(o['chunk_time'], n - pos)
                    b.set_integration_time_vector(t[:k], suppress_warning=True)
                    z = b(x=cur)[0]
                    if pen is None:
                        pen = float(b.get_norm_penalty())
                        same_model(o, b, 2, y0, z, pen, t=t[:k], T=float(t[o['batch_time'] - 1]))
                    outs += [z[i] for i in range(1, k)]
                    cur = z[-1]
                    pos += k - 1
                p = torch.stack(outs)
        d = p - y
        sim = o['sim_weight'] * float(d.abs().mean() if o['sim_norm'] == 'l1' else (d ** 2).sum(3).sqrt().mean())
        if not np.isfinite(sim) or sim > 1e5 or not pen < 1e5:
            return None
        nl = 0. if o['do_not_use_parameter_penalty_energy'] else o['norm_weight'] * pen
        approx(r[pre + 'sim_loss'], sim, 'saved {}similarity loss'.format(pre))
        approx(r[pre + 'norm_loss'], nl, 'saved {}norm loss'.format(pre))
        approx(r[pre + 'norm_penalty'], pen, 'saved {}norm penalty'.format(pre))
        approx(r[pre + 'test_loss'], sim + nl, 'saved {}test loss'.format(pre))
    # complexity measures belong to the model
    rec = defaultdict(list)
    batch = next(iter(g['short_range_test_loader']))
    hook = b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    b.shooting_integrand.set_custom_hook_data(data=rec)
    tt = g['short_range_test_loader'].dataset.t
    with torch.no_grad():
        if o['validate_with_long_range']:
            demo.load('spiral').compute_validation_data(b, tt, batch['y0'], True, o['chunk_time'])
        else:
            b.set_integration_time_vector(tt, suppress_warning=True)
            b(x=batch['y0'])
    hook.remove()
    e = vm.compute_complexity_measures(data=rec)
    got = r['short_range_log_complexity_measures']
    if sorted(got) != sorted(e):
        fail('saved complexity measures {}', sorted(got))
    for k in e:
        approx(got[k], e[k], 'saved complexity measure ' + k, rtol=1e-2, atol=1e-2)
    g2, files2, _ = run('spiral', options(o))
    same(r, result(files2, name), 'results')
    same({k: v.detach() for k, v in b.named_parameters()}, {k: v.detach() for k, v in g2['shooting_block'].named_parameters()}, 'parameters')
    return [o['shooting_model'], 'long' if o['validate_with_long_range'] else 'short']


# concentric circles ---------------------------------------------------------------------------------------------------

@st.composite
def cc_case(draw):
    return dict(niters=draw(st.integers(1, 2)), seed=draw(st.integers(0, 10000)), batch_size=draw(st.sampled_from([750, 1500])), shooting_dim=2, inflation_factor=draw(st.integers(1, 3)), nr_of_particles=draw(st.integers(2, 5)), stepsize=0.5,
                shooting_model=draw(st.sampled_from(['updown', 'updown_universal'])), nonlinearity=draw(st.sampled_from(['relu', 'tanh'])), lr=draw(st.sampled_from([0.01, 0.002])), save_model=draw(st.sampled_from(['model', 'm_20'])), sim_weight=draw(st.sampled_from([1.0, 10.0])),
                pw=draw(st.sampled_from([1.0, 1.5])), cls_weight_decay=draw(st.sampled_from([1e-4, 0.5, 0.0])))


def circles(o):
    g, files, _ = run('cc', options(o))
    for f in ['.pt', '.pkl', '_results_.pkl']:
        if o['save_model'] + f not in files:
            fail('{} is not saved', o['save_model'] + f)
    args, res = pickle.loads(files[o['save_model'] + '_results_.pkl'])
    args2, tracker = pickle.loads(files[o['save_model'] + '.pkl'])
    check_args(list(vars(args).items()), o, 'concentric circles')
    if len(res) != o['niters'] or len(tracker) != o['niters']:
        fail('{} results of {} iterations', len(res), o['niters'])
    # the last result is that of the final model
    m = g['model']
    ids = {id(p): o['cls_weight_decay'] for p in m.cls.parameters()}
    check_steps(g, o['lr'], lambda i: ids.get(i, 0.0))
    m.eval()
    X = torch.stack([x for x, _ in g['test_data']])
    y = torch.stack([t for _, t in g['test_data']])
    with torch.no_grad():
        z, out = m(X.unsqueeze(1))
        if not bool(torch.isfinite(out).all()):
            raise Skip('the flow diverges')
        same_model(dict(o, optional_weight=0.1), m.blk, 2, X.unsqueeze(1), z, float(m.blk.get_norm_penalty()))
    approx(res[-1][1], F.binary_cross_entropy_with_logits(out, y), 'test loss', rtol=1e-3)
    approx(res[-1][2], 100. * float(((out > 0) == (y > 0.5)).float().mean()), 'accuracy', atol=0.1)
    if len(X) != 3000 or int(y.sum()) != 2000:
        fail('test data')
    # what is recorded in the last iteration belongs to the final model
    q1 = dict(m.blk.named_parameters())['q1'].detach()
    if float((tracker[-1]['q1'][0] - q1).abs().max()) > 1e-6:
        fail('recorded particles are not those of the model')
    if o['niters'] > 1 and torch.equal(tracker[0]['q1'][0], tracker[1]['q1'][0]):
        fail('the particles recorded in different iterations are the same')
    sys.modules['__main__'].Model = g['Model']
    try:
        lm = torch.load(io.BytesIO(files[o['save_model'] + '.pt']), weights_only=False)
        lm.eval()
        with torch.no_grad():
            approx((lm(X.unsqueeze(1))[1] - out).abs().max(), 0, 'loaded model', atol=1e-5)
    finally:
        del sys.modules['__main__'].Model
    g2, files2, _ = run('cc', options(o))
    same(res, pickle.loads(files2[o['save_model'] + '_results_.pkl'])[1], 'results')
    return [o['shooting_model']]


# images ---------------------------------------------------------------------------------------------------------------

@st.composite
def image_case(draw, script):
    o = dict(niters=draw(st.integers(1, 2 if script == 'rot' else 3)), seed=draw(st.integers(0, 10000)), shooting_dim=draw(st.integers(1, 4)), stepsize=0.1, lr=draw(st.sampled_from([0.01, 0.01, 0.0])),
             shooting_model=draw(st.sampled_from(['simple', 'updown', 'updown_universal'])), nr_of_particles=draw(st.integers(2, 5)), pw=draw(st.sampled_from([1.0, 2.0])), sim_weight=draw(st.sampled_from([100.0, 2.0])),
             norm_weight=draw(st.sampled_from([0.01, 1.0])), nonlinearity=draw(st.sampled_from(['relu', 'tanh'])), inflation_factor=draw(st.integers(1, 3)))
    mode = draw(st.sampled_from([None, None, 'use_particle_rnn_mode', 'use_particle_free_rnn_mode']))
    if mode:
        o[mode] = True
    if o['shooting_model'] != 'simple' and draw(st.booleans()):
        o['optimize_over_data_initial_conditions'] = True
        o['optimize_over_data_initial_conditions_type'] = draw(st.sampled_from(['linear', 'direct', 'mini_nn']))
    if script == 'rot':
        o.update(n_skip=0 if o['lr'] == 0 else draw(st.integers(0, 6)), i_eval=draw(st.integers(1, 15)), save=True, batch_size=500 if o['lr'] == 0 else draw(st.sampled_from([250, 125, 300, 170])))
        n = [500, draw(st.integers(1, 6))]
    else:
        n = [draw(st.integers(5, 12)), draw(st.integers(1, 6)), draw(st.integers(1, 6))]
        o.update(evaluate_ahead=draw(st.integers(1, 10)), save_to=draw(st.sampled_from(['out', 'res_b'])), batch_size=n[0] if o['lr'] == 0 else draw(st.integers(2, 5)))
    # images of different parts differ in contrast: their errors differ
    return dict(script=script, o=o, n=n, dseed=draw(st.integers(0, 10000)), contrast=[draw(st.sampled_from([1.0, 1.0, 0.5, 0.05])) for _ in n])


def pkl(files, name):
    k = [f for f in files if os.path.basename(f) == name]
    if len(k) != 1:
        fail('{} is not saved ({})', name, sorted(files))
    return k[0], files[k[0]]


def images(c):
    o = c['o']
    rnd = np.random.RandomState(c['dseed'])
    X = [(0.5 + f * rnd.uniform(-0.5, 0.5, size=[n, 16 if c['script'] == 'rot' else 20, 28, 28])).astype(np.float32) for n, f in zip(c['n'], c.get('contrast', [1.] * 3))]

    def prepare(top):
        if c['script'] == 'rot':
            os.makedirs(os.path.join(top, 'data', 'rotated_mnist'))
            scipy.io.savemat(os.path.join(top, 'data', 'rotated_mnist', 'rot-mnist-3s.mat'), dict(X=np.concatenate(X).reshape(-1, 16, 784).astype(np.float64)))
        else:
            p = os.path.join(top, 'data', 'bouncing_balls')
            os.makedirs(p)
            for n, v in zip(['train', 'test', 'val'], X):
                torch.save(torch.tensor(v), os.path.join(p, 'bballs_{}.pt'.format(n)))

    calls, trained = [], []

    def record(module, inp, out):
        if c['script'] == 'balls' and not module.training and len(inp) == 1 and torch.is_tensor(inp[0]) and tuple(inp[0].shape[1:]) == (3, 28, 28) and isinstance(out, tuple):
            calls.append((module, inp[0].detach().numpy().copy(), out[1].detach().reshape(len(inp[0]), -1, 28, 28).numpy().copy()))
        if module.training and hasattr(module, 'decoder') and hasattr(module, 'blk') and isinstance(out, tuple):
            trained.append((inp[0].detach().numpy().copy(), out[1].detach().numpy().copy() if c['script'] == 'rot' else None, out[-1].detach().numpy().copy(), float(module.blk.get_norm_penalty().detach())))
    h = torch.nn.modules.module.register_module_forward_hook(record)
    try:
        g, files, _ = run(c['script'], options(o), prepare)
    finally:
        h.remove()
    check_args(list(vars(g['args']).items()), o, c['script'])
    m = g['model']
    steps = o['niters'] * -(-c['n'][0] // o['batch_size'])
    if len(g['losses']['sim_loss']) != steps:
        fail('{} steps of training instead of {}', len(g['losses']['sim_loss']), steps)
    check_steps(g, o['lr'])
    # every batch consists of training data, and its loss is the weighted mean squared error of what is decoded
    firsts = X[0][:, :1 if c['script'] == 'rot' else 3]
    place = {v.tobytes(): i for i, v in enumerate(firsts)}
    if len(trained) == steps and len(place) == len(firsts):
        seen = []
        for k, (inp, idx, out, pen) in enumerate(trained):
            nr = [place.get(np.ascontiguousarray(v, dtype=np.float32).reshape(firsts[0].shape).tobytes()) for v in inp]
            if None in nr:
                fail('training with an image which is not in the training data')
            seen += nr
            truth = X[0][nr]
            if idx is not None:
                truth = np.stack([t[j[:, 0]] for t, j in zip(truth, idx)])
            e = float(((out.reshape(truth.shape) - truth) ** 2).mean())
            approx(g['losses']['sim_loss'][k], o['sim_weight'] * e, 'similarity loss of batch {} with {} images'.format(k, len(nr)))
            approx(g['losses']['npe_loss'][k], o['norm_weight'] * pen, 'norm loss of batch {}'.format(k))
        for k in range(o['niters']):
            if sorted(seen[k * len(firsts):(k + 1) * len(firsts)]) != list(range(len(firsts))):
                fail('the training data are not used once in iteration {}', k)
    T = torch.tensor(X[1])

    def predict(m, T):
        m.eval()
        with torch.no_grad():
            return m(T[:, :1], use_mask=False)[2][:, :, 0] if c['script'] == 'rot' else m(T[:, :3])[1][:, :, 0]
    P = predict(m, T)
    with torch.no_grad():
        enc = m.fc1(m.encoder(T[:, :1 if c['script'] == 'rot' else 3]))
        lat = m.blk(enc.unsqueeze(1))[0]
        same_model(dict(o, optional_weight=0.1), m.blk, o['shooting_dim'], enc.unsqueeze(1), lat, float(m.blk.get_norm_penalty()), t=0.1 * torch.arange(T.shape[1], dtype=torch.float))
    if o['lr'] == 0:
        # nothing is learned: the loss of the only batch is known
        stats = {k: v.clone() for k, v in m.named_buffers()}
        m.train()
        A = torch.tensor(X[0])
        with torch.no_grad():
            if c['script'] == 'rot':
                k = [t for t in range(16) if t != o['i_eval']]
                d = m(A[:, :1], use_mask=True)[2][:, :, 0] - A[:, k]
            else:
                d = m(A[:, :3])[1][:, :, 0] - A
            npe = o['norm_weight'] * float(m.blk.get_norm_penalty())
        with torch.no_grad():
            for k, v in m.named_buffers():
                v.copy_(stats[k])
        for i in range(steps):
            approx(g['losses']['sim_loss'][i], o['sim_weight'] * float((d ** 2).mean()), 'training loss')
            approx(g['losses']['npe_loss'][i], npe, 'norm penalty in training')
    if c['script'] == 'rot':
        err = ((P - T)[:, o['i_eval']] ** 2).mean((1, 2))
        _, tr = pkl(files, 'tracker.pkl')
        tr = pickle.loads(tr)
        if [x['it'] for x in tr] != list(range(o['niters'])):
            fail('recorded iterations')
        if len(tr[-1]['img_eval_errors']) != len(T):
            fail('{} recorded errors of {} test images', len(tr[-1]['img_eval_errors']), len(T))
        for a, b in zip(tr[-1]['img_eval_errors'], err):
            approx(a, b, 'recorded error of a test image')
        approx(tr[-1]['all_eval_error'], err.mean(), 'recorded error')
        for k, x in enumerate(tr):
            n = steps // o['niters']
            approx(x['it_sim_loss'], np.mean(g['losses']['sim_loss'][k * n:(k + 1) * n]), 'recorded similarity loss')
            approx(x['it_npe_loss'], np.mean(g['losses']['npe_loss'][k * n:(k + 1) * n]), 'recorded norm loss')
            approx(x['it_loss'], x['it_sim_loss'] + x['it_npe_loss'], 'recorded loss')
        im = pickle.loads(pkl(files, 'images.pkl')[1])
        R, V = np.concatenate(im['Rs']), np.concatenate(im['Vs'])
        if R.shape != tuple(P.shape) or np.abs(R - P.numpy()).max() > 1e-4 or np.abs(V - X[1]).max() > 1e-6:
            fail('saved images are not those of the model')
        saved = pickle.loads(pkl(files, 'args.pkl')[1])
        check_args(list(vars(saved).items()), o, 'rot')
        mod = 'model.pt'
    else:
        _, stt = pkl(files, 'bball_stats.pkl')
        stt = pickle.loads(stt)
        mod = 'bball_model.pt'
    sys.modules['__main__'].__dict__.update({k: v for k, v in g.items() if isinstance(v, type) and v.__module__ == '__main__'})
    name, content = pkl(files, mod)
    lm = torch.load(io.BytesIO(content), weights_only=False)
    if c['script'] == 'rot':
        approx((predict(lm, T) - P).abs().max(), 0, 'loaded model', atol=1e-5)
    else:
        if os.path.dirname(name) != o['save_to']:
            fail('saved in {}', name)
        for k, Y in [('test', T), ('val', torch.tensor(X[2]))]:
            P = predict(lm, Y)
            s = slice(3, 3 + o['evaluate_ahead'])
            e = ((P - Y)[:, s] ** 2).mean((2, 3)).numpy()
            if stt[k + '_errors'].shape != e.shape or np.abs(stt[k + '_errors'] - e).max() > 1e-4:
                fail('saved {} errors are not those of the saved model', k)
            approx(stt[k + '_error'], e.mean(), 'saved {} error'.format(k))
            if np.abs(np.concatenate(stt[k + '_hat']) - P[:, s].numpy()).max() > 1e-4 or np.abs(np.concatenate(stt[k + '_tru']) - Y[:, s].numpy()).max() > 1e-6:
                fail('saved {} images', k)
        if o['niters'] == 1:
            approx((P - predict(m, Y)).abs().max(), 0, 'saved model', atol=1e-5)
        # the saved model is the one with the smallest validation error of all evaluations of the run
        s, seen = slice(3, 3 + o['evaluate_ahead']), {i: [] for i in range(len(X[2]))}
        for mod, inp, out in calls:
            if mod is m:
                for x, y in zip(inp, out):
                    for i in seen:
                        if np.array_equal(x, X[2][i, :3]):
                            seen[i].append(float(((y - X[2][i])[s] ** 2).mean()))
        if len({len(v) for v in seen.values()}) == 1 and len(seen[0]) >= o['niters']:
            best = np.array(list(seen.values())).mean(0).min()
            if abs(float(stt['val_error']) - best) > 1e-4 * (1e-2 + best):
                fail('the saved model has validation error {} but {} was reached', float(stt['val_error']), best)
    if o['lr'] > 0:
        g0, files0, _ = run(c['script'], options(dict(o, niters=0)), prepare)
        if c['script'] == 'rot':
            im = pickle.loads(pkl(files0, 'images.pkl')[1])
            if np.abs(np.concatenate(im['Rs']) - predict(g0['model'], T).numpy()).max() > 1e-4:
                fail('saved images of the untrained model are not those of the model')
        a, b = dict(g0['model'].named_parameters()), dict(m.named_parameters())
        same = [k for k in a if torch.equal(a[k].detach(), b[k].detach()) and float(b[k].detach().abs().max()) > 0]
        # (relu: there may be nothing to learn for a particle)
        same = [k for k in same if b[k].grad is None or float(b[k].grad.abs().max()) > 0]
        if same:
            fail('{} are not trained', same)
    g2, files2, _ = run(c['script'], options(o), prepare)
    if c['script'] == 'rot':
        same_results(tr, pickle.loads(pkl(files2, 'tracker.pkl')[1]))
    else:
        same_results(stt, pickle.loads(pkl(files2, 'bball_stats.pkl')[1]))
    return [c['script'], o['shooting_model']]


def same_results(a, b):
    conv = lambda x: torch.tensor(x) if isinstance(x, np.ndarray) else ({k: conv(v) for k, v in x.items()} if isinstance(x, dict) else ([conv(v) for v in x] if isinstance(x, list) else x))
    same(conv(a), conv(b), 'results')


# sweeps ---------------------------------------------------------------------------------------------------------------

SWEEPS = {
    'run_experiments_spiral': ('spiral', [([15, 25, 50], [16, 32, 64, 128], None)]),
    'run_experiments_spiral_rnn': ('spiral', [([2], [16, 32, 64, 128], 'use_particle_free_rnn_mode'), ([2], [16, 32, 64, 128], 'use_particle_free_time_dependent_mode'), ([15, 25, 50], [16, 32, 64, 128], 'use_particle_rnn_mode')]),
    'run_long_iteration_experiments_simple_functional_mapping': ('simple_functional_mapping_example', [([2, 5, 15, 25], [4, 8, 16, 32, 64, 128], None)]),
    'run_long_iteration_experiments_simple_functional_mapping_rnn': ('simple_functional_mapping_example', [([2], [4, 8, 16, 32, 64, 128], 'use_particle_free_rnn_mode'), ([2], [4, 8, 16, 32, 64, 128], 'use_particle_free_time_dependent_mode'), ([2, 5, 15, 25], [4, 8, 16, 32, 64, 128], 'use_particle_rnn_mode')]),
}
MODES = ['use_particle_free_rnn_mode', 'use_particle_free_time_dependent_mode', 'use_particle_rnn_mode']

RECORDER = """#!/bin/bash
for a in "$@"; do printf '%s\\0' "$a" >> {d}/calls; done
printf 'device=%s\\n' "$CUDA_VISIBLE_DEVICES" >> {d}/calls
"""


@st.composite
def sweep_case(draw):
    s = draw(st.sampled_from(sorted(SWEEPS)))
    o = dict(nr_of_seeds=draw(st.integers(1, 2)), starting_seed_id=draw(st.integers(0, 20)), shooting_model=draw(st.sampled_from(['updown_universal', 'updown', 'simple', 'periodic'])), gpu=draw(st.integers(0, 3)),
             output_base_directory=draw(st.sampled_from(['results', 'r_2'])))
    if 'functional' in s:
        o['fcn'] = draw(st.sampled_from(['cubic', 'quadratic']))
    return dict(script=s, o=o)


def sweeps(c):
    """every stated combination is run once per seed, with options which the experiment accepts, in a directory of its own"""
    target, expected = SWEEPS[c['script']]
    o = c['o']
    d = tempfile.mkdtemp(prefix='c31s_')
    try:
        rec = os.path.join(d, 'recorder')
        with open(rec, 'w') as f:
            f.write(RECORDER.format(d=d))
        os.chmod(rec, 0o755)
        with open(os.devnull, 'w') as null:
            run(c['script'], options(dict(o, path_to_python=rec)))
        with open(os.path.join(d, 'calls')) as f:
            calls = [l.split('\0') for l in f.read().split('\n')[:-1]]
    finally:
        shutil.rmtree(d)
    m = demo.load(target)
    argv = sys.argv
    got, dirs = [], []
    for a in calls:
        if a[0] != target + '.py':
            fail('runs {}', a[0])
        if a[-1] != 'device={}'.format(o['gpu']):
            fail('runs with {} instead of device {}', a[-1], o['gpu'])
        sys.argv = a[:-1]
        try:
            with contextlib.redirect_stderr(io.StringIO()) as err:
                p = m.setup_cmdline_parsing()
        except SystemExit:
            fail('{} does not accept {}: {}', target, a[1:-1], err.getvalue().strip().split('\n')[-1])
        finally:
            sys.argv = argv
        if p.shooting_model != o['shooting_model'] or ('fcn' in o and p.fcn != o['fcn']):
            fail('runs with model {}', p.shooting_model)
        if not p.save_figures:
            fail('results are not saved')
        mode = [k for k in MODES if getattr(p, k)]
        got.append((p.nr_of_particles, p.inflation_factor, mode, p.seed))
        dirs.append(p.output_directory)
    exp = [(n, f, [mode] if mode else [], s) for ns_, fs, mode in expected for n in ns_ for f in fs for s in range(o['starting_seed_id'], o['starting_seed_id'] + o['nr_of_seeds'])]
    if sorted(got) != sorted(exp):
        fail('runs {} are missing, {} are additional', [e for e in exp if e not in got][:3], [e for e in got if e not in exp][:3])
    if len(set(dirs)) != len(dirs):
        fail('several experiments use the same directory')
    if any(o['output_base_directory'] not in x for x in dirs):
        fail('results are not in {}', o['output_base_directory'])
    return [c['script']]


SUBS = [
    Sub('functions', sfm_case(), sfm, 40, 300, 'complete runs of the function fitting experiment with random options (three runs per case)', shards=8),
    Sub('spiral', spiral_case(), spiral, 24, 150, 'complete runs of the spiral experiment with random options (two runs per case)', shards=6),
    Sub('freezing', freeze_case(), freezing, 16, 100, 'runs with frozen particles (three runs per case)', shards=4),
    Sub('circles', cc_case(), circles, 9, 60, 'complete runs of the concentric circles experiment (two runs per case)', shards=3),
    Sub('digits', image_case('rot'), images, 3, 40, 'complete runs of the rotated MNIST experiment on random images (three runs per case)', shards=3),
    Sub('balls', image_case('balls'), images, 12, 150, 'complete runs of the bouncing balls experiment on random images (three runs per case)', shards=3),
    Sub('sweeps', sweep_case(), sweeps, 9, 60, 'sweeps over experiments with a recording interpreter', shards=3),
]
