"""Figures show the recorded values; texts survive the conversion to LaTeX; settings are restored."""
import os
import shutil
import tempfile
import types
import numpy as np
import torch
import matplotlib
matplotlib.use('agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from pbt import Sub, st, fail, quiet
import ns
import neuro_shooting.figure_utils as fu
import neuro_shooting.figure_settings as fs
import neuro_shooting.vector_visualization as vv

TOKENS = {'\\&': '&', '\\%': '%', '\\$': '$', '\\#': '#', '\\_': '_', '\\{': '{', '\\}': '}', '\\textasciitilde{}': '~', '\\~{}': '~', '\\^{}': '^', '\\textasciicircum{}': '^',
          '\\textbackslash{}': '\\', '\\textless{}': '<', '\\textgreater{}': '>'}


@st.composite
def latex_case(draw):
    n = draw(st.integers(0, 12))
    parts = [draw(st.sampled_from(list('&%$#_{}~^\\<>') + ['a', 'Q', '1', ' ', '\n', '-', '.', '=', '{}', '\\_', '\\textbackslash{}', '\\&', 'q_1', '^2', '~x', '\\\\', 'ü', '>=', '<b>', '$x_i$', 'textless{}'])) for _ in range(n)]
    if draw(st.integers(0, 3)) == 0:
        parts.append(draw(st.text(max_size=8)))
    if draw(st.integers(0, 3)) == 0:
        parts.insert(draw(st.integers(0, len(parts))), '\\' + draw(st.sampled_from(list('nrtbabu0 ') + ['textless', 'left{'])))
    return dict(text=''.join(parts))


def latex(c):
    t = c['text']
    r = fu.escape_latex_special_characters(t)
    # read the LaTeX text
    out = []
    i = 0
    while i < len(r):
        for k in sorted(TOKENS, key=lambda x: -len(x)):
            if r.startswith(k, i):
                out.append(TOKENS[k])
                i += len(k)
                break
        else:
            if r[i] in '&%$#_{}~^\\<>':
                fail('{!r}: special character {!r} at position {} is not escaped in {!r}', t, r[i], i, r)
            out.append(r[i])
            i += 1
    if ''.join(out) != t:
        fail('{!r} becomes {!r} which reads {!r}', t, r, ''.join(out))
    return [len(t)] if any(x in t for x in '&%$#_{}~^\\<>') else None


@st.composite
def stack_case(draw):
    return dict(n=draw(st.integers(1, 5)), shape=[draw(st.integers(1, 3)) for _ in range(draw(st.integers(0, 4)))], dt=draw(st.sampled_from(['float64', 'float32', 'int64'])), dseed=draw(ns.seeds), torch=draw(st.booleans()), none=draw(st.booleans()), grad=draw(st.booleans()))


def stack(c):
    r = np.random.RandomState(c['dseed'] % 2 ** 31)
    arrs = [np.asarray(10 ** r.randint(0, 13) * r.randn(*c['shape'])).astype(c['dt']) for _ in range(c['n'])]
    got = vv.convert_list_of_np_arrays_into_np_array(arrs)
    if got.shape != tuple([c['n']] + c['shape']) or got.dtype != arrs[0].dtype:
        fail('stacked array {} {}', got.shape, got.dtype)
    for i, a in enumerate(arrs):
        if not np.array_equal(got[i], a):
            fail('entry {} of the stacked arrays differs', i)
        t = torch.from_numpy(a.copy()) if c['torch'] else a
        if c['torch'] and c['grad'] and t.is_floating_point():
            t.requires_grad_(True)
        v = vv.convert_to_numpy_from_torch_if_needed(t)
        if not isinstance(v, np.ndarray) or not np.array_equal(v, a) or v.dtype != a.dtype:
            fail('conversion to numpy changes the values')
    if vv.convert_to_numpy_from_torch_if_needed(None) is not None:
        fail('None is converted')
    return [c['dt'], c['n']]


class Shown(object):
    """replaces plt.show: records what is displayed"""

    def __enter__(self):
        plt.close('all')
        self.figs = []
        self.old = plt.show

        def show(*a, **k):
            for n in plt.get_fignums():
                f = plt.figure(n)
                if f not in self.figs:
                    self.figs.append(f)
        plt.show = show
        return self

    def __exit__(self, *a):
        plt.show = self.old
        plt.close('all')


def lines(ax):
    return [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in ax.lines]


def same_lines(got, expected, what):
    if len(got) != len(expected):
        fail('{}: {} curves instead of {}', what, len(got), len(expected))
    for i, ((x, y), (ex, ey)) in enumerate(zip(got, expected)):
        if x.shape != np.shape(ex) or not np.allclose(x, ex, rtol=1e-6, atol=1e-12) or not np.allclose(y, ey, rtol=1e-6, atol=1e-12):
            fail('{}: curve {} does not show the values', what, i)


def arrows(ax):
    from matplotlib.quiver import Quiver
    q = [x for x in ax.collections if isinstance(x, Quiver)]
    if len(q) != 1:
        fail('{} sets of arrows', len(q))
    q = q[0]
    return np.stack([np.ravel(q.X), np.ravel(q.Y)], 1), np.stack([np.ravel(q.U), np.ravel(q.V)], 1)


@st.composite
def temporal_case(draw):
    return dict(n=draw(st.integers(2, 4)), F=draw(st.integers(2, 3)), T=draw(st.integers(2, 6)), block=draw(st.sampled_from(['block', 'sblock', 'a.b'])), dots=draw(st.booleans()),
                single=draw(st.booleans()), args=draw(st.booleans()), dseed=draw(ns.seeds))


def temporal(c):
    r = np.random.RandomState(c['dseed'] % 2 ** 31)
    t = np.cumsum(r.rand(c['T']) + 0.1).tolist()
    if c['dseed'] % 3 == 0:
        # restarted: times of several evaluations
        t = [t[i % 2] for i in range(c['T'])]
    data = {'t': t, 'energy': r.randn(c['T']).tolist()}
    keys = ['{}.state.q1', '{}.costate.p_q1', '{}.data.q1', 'layer_norm', '{}.l1.bias']
    if c['dots']:
        keys += ['{}.dot_state.dot_q1', '{}.dot_costate.dot_p_q1', '{}.dot_data.dot_q1']
    for k in keys:
        k = k.format(c['block'])
        shp = [c['n'], 1, c['F']] if '.l1.' not in k and 'layer' not in k else ([c['F']] if 'bias' in k else [])
        data[k] = [np.asarray(r.randn(*shp)) for _ in range(c['T'])]
    args = types.SimpleNamespace(viz=True, save_figures=False) if c['args'] else None
    with Shown() as s:
        vv.plot_temporal_data(data, c['block'], args=args)
        plots = []
        for f in s.figs:
            if len(f.axes) != 1:
                fail('figure with {} axes', len(f.axes))
            plots.append((f.axes[0].get_ylabel(), lines(f.axes[0])))
    exp = [k for k in data if k not in ['t'] and 'dot_' not in k]
    if sorted(k for k, _ in plots) != sorted(exp):
        fail('figures for {} instead of {}', sorted(k for k, _ in plots), sorted(exp))
    for k, l in plots:
        v = np.asarray(data[k])
        cols = sorted([tuple(x) for x in v.reshape(c['T'], -1).T.tolist()])
        if len(l) != len(cols):
            fail('{}: {} curves instead of {}', k, len(l), len(cols))
        for (x, y) in l:
            if not np.allclose(x, t, rtol=0, atol=0):
                fail('{}: not plotted over time', k)
        if sorted(tuple(y.tolist()) for _, y in l) != cols:
            fail('{}: curves do not show the recorded values', k)
    if c['args']:
        with Shown() as s:
            vv.plot_temporal_data(data, c['block'], args=types.SimpleNamespace(viz=False, save_figures=False))
            if s.figs or plt.get_fignums():
                fail('figures are created although this is not requested')
    return [c['block']]


@st.composite
def viz_case(draw):
    c = dict(model=draw(st.sampled_from(['updown', 'universal', 'general', 'periodic', '2nd_order', 'dampened', 'simple'])), n=draw(st.integers(2, 6)), F=draw(st.integers(2, 3)), infl=draw(st.integers(1, 4)),
             T=draw(st.integers(2, 5)), N=draw(st.integers(1, 3)), train=draw(st.booleans()), particles=draw(st.sampled_from([True, True, False])), torch=draw(st.booleans()),
             losses=draw(st.booleans()), pars=draw(st.booleans()), args=draw(st.booleans()), dseed=draw(ns.seeds), itr=draw(st.integers(0, 5000)), seed=draw(ns.seeds))
    return c


def trajectories_expected(v, p, tr, trp):
    e = []
    for a, b in [(v, p), (tr, trp)]:
        if a is not None:
            for n in range(a.shape[1]):
                e.append((a[:, n, 0, 0], a[:, n, 0, 1]))
                e.append((b[:, n, 0, 0], b[:, n, 0, 1]))
    return e


def check_particles(ax, q, p, what):
    l = lines(ax)
    if len(l) != 1:
        fail('{}: {} curves', what, len(l))
    x = np.stack(l[0], 1)
    X, U = arrows(ax)
    if q.shape[1] > 2 and q.shape[0] > 1:
        # projection to the principal components: up to signs
        qc = q - q.mean(0)
        u, s, vt = np.linalg.svd(qc, full_matrices=False)
        if s.shape[0] < 2 or s[1] < 1e-6 or (s[0] - s[1]) < 1e-3 or (s.shape[0] > 2 and s[1] - s[2] < 1e-3):
            return
        e = qc @ vt[:2].T
        ep = p @ vt[:2].T
        sg = np.array([1. if np.allclose(x[:, i], e[:, i], atol=1e-4) else -1. for i in range(2)])
        q, p = e * sg, ep * sg
    if not np.allclose(x, q, atol=1e-4, rtol=1e-4):
        fail('{}: particles are not shown at their positions', what)
    if not np.allclose(X, q, atol=1e-4, rtol=1e-4) or not np.allclose(U, p, atol=1e-4, rtol=1e-4):
        fail('{}: costates are not shown', what)


def viz(c):
    cfg = dict(model=c['model'], nl='tanh', n=c['n'], weight=None, dim=1, size=c['F'], seed=c['seed'], mag=0.5)
    if c['model'] in ns.INFLATED:
        cfg['infl'] = c['infl']
    b = ns.make_block(cfg)
    ns.set_state(b, cfg, ns.gen(c['dseed']))
    g = ns.gen(c['dseed'] + 1)
    v, p, tr, trp = [ns.randn(g, [c['T'], c['N'], 1, c['F']]) for _ in range(4)]
    if not c['train']:
        tr = trp = None
    a = [v, p, tr, trp]
    if not c['torch']:
        a = [x.numpy() if x is not None else None for x in a]
    else:
        a[1].requires_grad_(True)
    t = torch.linspace(0, 1, c['T'])
    losses = dict(model_name='updown', loss=1.5, sim_loss=0.25, norm_loss=3.125, par_norm=0.75) if c['losses'] else None
    pars = dict(fixed=3, optimized=17, overall=20) if c['pars'] else None
    args = types.SimpleNamespace(viz=True, save_figures=False) if c['args'] else None
    with Shown() as s:
        vv.basic_visualize(b, a[0], a[1], t, a[2], a[3], t if c['train'] else None, itr=c['itr'], uses_particles=c['particles'], losses_to_print=losses, nr_of_pars=pars, args=args)
        if len(s.figs) != 1:
            fail('{} figures', len(s.figs))
        axs = s.figs[0].axes
        if len(axs) not in ([2, 3] if c['particles'] and c['model'] == 'simple' else [3] if c['particles'] else [1]):
            fail('{} plots', len(axs))
        n = lambda x: x.detach().numpy() if x is not None else None
        same_lines(lines(axs[0]), trajectories_expected(n(v), n(p), n(tr), n(trp)), 'trajectories')
        title = axs[0].get_title()
        for w in [str(c['itr'])] + (['1.5000', '0.2500', '3.1250', '0.7500', 'updown'] if c['losses'] else []) + (['20', '3(fixed)', '17(optimized)'] if c['pars'] else []):
            if w not in title:
                fail('title {!r} does not contain {}', title, w)
        if c['particles']:
            sd = {k: x.detach().numpy() for k, x in b.named_parameters()}
            if sd['q1'].shape[2] >= 2:
                if not np.allclose(np.stack(lines(axs[1])[0], 1), sd['q1'][:, 0, :2]):
                    fail('particles are not shown at their positions')
                X, U = arrows(axs[1])
                if not np.allclose(X, sd['q1'][:, 0, :2]) or not np.allclose(U, sd['p_q1'][:, 0, :2]):
                    fail('costates of the particles are not shown')
            if 'q2' in sd:
                check_particles(axs[2], sd['q2'][:, 0, :], sd['p_q2'][:, 0, :], 'q2')
            elif len(axs) > 2 and lines(axs[2]):
                fail('a second state is shown for a first order model')
    return [c['model']]


@st.composite
def evo_case(draw):
    return dict(n=draw(st.integers(2, 4)), T=draw(st.integers(1, 5)), N=draw(st.integers(1, 2)), infl=draw(st.integers(1, 2)), save=draw(st.booleans()), exist=draw(st.booleans()), maxd=draw(st.integers(0, 3)),
                dseed=draw(ns.seeds), prefix=draw(st.sampled_from(['evolution', 'x'])))


def evolution(c):
    """one figure per recorded time: trajectory so far, particles at this time"""
    r = np.random.RandomState(c['dseed'] % 2 ** 31)
    F2 = 2 * c['infl']
    T = c['T']
    data = dict(t=np.cumsum(r.rand(T)).tolist())
    if c['dseed'] % 3 == 0:
        data['t'] = [data['t'][i % 2] for i in range(T)]
    for k, shp in [('state.q1', [c['n'], 1, 2]), ('costate.p_q1', [c['n'], 1, 2]), ('state.q2', [c['n'], 1, F2]), ('costate.p_q2', [c['n'], 1, F2]), ('data.q1', [c['N'], 1, 2]), ('data.q2', [c['N'], 1, F2])]:
        data['b.' + k] = [r.randn(*shp) for _ in range(T)]
    y = r.randn(T, c['N'], 1, 2)
    d = tempfile.mkdtemp(dir=os.getcwd())
    out = os.path.join(d, 'fig')
    if c['exist']:
        os.mkdir(out)
    seen = []

    def look(f):
        axs = f.axes
        seen.append([lines(axs[0]), lines(axs[1]), arrows(axs[1]), axs[0].get_title()])
        k = len(seen) - 1
        check_particles(axs[2], data['b.state.q2'][k][:, 0, :], data['b.costate.p_q2'][k][:, 0, :], 'q2')

    olds, oldw = matplotlib.figure.Figure.savefig, plt.show

    def savefig(self, name, *a, **k):
        look(self)
        return olds(self, name, *a, **k)

    def show(*a, **k):
        look(plt.gcf())
        plt.close('all')
    matplotlib.figure.Figure.savefig, plt.show = savefig, show
    try:
        with quiet():
            vv.visualize_time_evolution(y, data, 'b', max_display=c['maxd'], save_to_directory=out if c['save'] else None, file_prefix=c['prefix'])
    finally:
        matplotlib.figure.Figure.savefig, plt.show = olds, oldw
        plt.close('all')
    n = T if c['save'] else min(T, c['maxd'] + 1)
    if len(seen) != n:
        fail('{} figures instead of {}', len(seen), n)
    if c['save']:
        f = sorted(os.listdir(out))
        e = ['{}-{:05d}.png'.format(c['prefix'], i) for i in range(T)]
        if [x for x in f if x.endswith('png')] != e:
            fail('files {} instead of {}', f, e)
    for k, (traj, part, (X, U), title) in enumerate(seen):
        dd = np.stack(data['b.data.q1'][:k + 1])
        e = []
        for i in range(c['N']):
            e.append((y[:, i, 0, 0], y[:, i, 0, 1]))
            e.append((dd[:, i, 0, 0], dd[:, i, 0, 1]))
        same_lines(traj, e, 'trajectories at time {}'.format(k))
        same_lines(part, [(data['b.state.q1'][k][:, 0, 0], data['b.state.q1'][k][:, 0, 1])], 'particles')
        if not np.allclose(U, data['b.costate.p_q1'][k][:, 0, :]):
            fail('costates of time {} are not shown', k)
        if '{:.2f}'.format(data['t'][k]) not in title:
            fail('time {} not in {}', data['t'][k], title)
    shutil.rmtree(d)
    return ['save' if c['save'] else 'show', T]


class Saved(object):
    """replaces saving of figures, which needs LaTeX: records what is saved"""

    def __enter__(self):
        from matplotlib.backends.backend_pgf import FigureCanvasPgf
        self.items = []
        self.old = (matplotlib.figure.Figure.savefig, plt.savefig, plt.tight_layout, plt.show, matplotlib.figure.Figure.tight_layout, FigureCanvasPgf.draw)
        self.cls = FigureCanvasPgf

        def rec(fig, name, *a, **k):
            if not os.path.isdir(os.path.dirname(str(name))):
                fail('the directory of {} does not exist', name)
            self.items.append((str(name), fig, [(ax.get_title(), ax.get_ylabel(), lines(ax)) for ax in fig.axes], matplotlib.get_backend().lower()))

        def shown(*a, **k):
            fail('a figure is shown instead of saved')
        matplotlib.figure.Figure.savefig = rec
        plt.savefig = lambda name, *a, **k: rec(plt.gcf(), name)
        plt.tight_layout = lambda *a, **k: None
        plt.show = shown
        matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
        FigureCanvasPgf.draw = lambda *a, **k: None
        plt.close('all')
        return self

    def __exit__(self, *a):
        matplotlib.figure.Figure.savefig, plt.savefig, plt.tight_layout, plt.show, matplotlib.figure.Figure.tight_layout, self.cls.draw = self.old
        self.left = plt.get_fignums()
        plt.close('all')
        self.backend, self.tex = matplotlib.get_backend().lower(), matplotlib.rcParams['text.usetex']
        matplotlib.use('agg')
        matplotlib.rcParams['text.usetex'] = False


@st.composite
def saving_case(draw):
    c = draw(viz_case())
    c.update(what=draw(st.sampled_from(['trajectories', 'record'])), base=draw(st.sampled_from(['x', 'a_b', 'run.1'])), exist=draw(st.booleans()), name=draw(st.sampled_from(['updown', 'a_b', '2nd_order', 'x%'])),
             block=draw(st.sampled_from(['b', 's_block'])), dots=draw(st.booleans()), backend=draw(st.sampled_from(['agg', 'svg', 'pdf'])))
    return c


def saving(c):
    """figures which are saved: file names, contents, escaped titles; plot settings as before"""
    d = tempfile.mkdtemp(dir=os.getcwd())
    out = os.path.join(d, 'o')
    if c['exist']:
        os.mkdir(out)
    args = types.SimpleNamespace(viz=False, save_figures=True, output_directory=out, output_basename=c['base'])
    g = ns.gen(c['dseed'] + 1)
    matplotlib.use(c['backend'])
    if c['what'] == 'trajectories':
        cfg = dict(model=c['model'], nl='tanh', n=c['n'], weight=None, dim=1, size=c['F'], seed=c['seed'], mag=0.5)
        if c['model'] in ns.INFLATED:
            cfg['infl'] = c['infl']
        b = ns.make_block(cfg)
        ns.set_state(b, cfg, ns.gen(c['dseed']))
        v, p, tr, trp = [ns.randn(g, [c['T'], c['N'], 1, c['F']]).numpy() for _ in range(4)]
        if not c['train']:
            tr = trp = None
        t = torch.linspace(0, 1, c['T'])
        losses = dict(model_name=c['name'], loss=1.5, sim_loss=0.25, norm_loss=3.125, par_norm=0.75) if c['losses'] else None
        pars = dict(fixed=3, optimized=17, overall=20) if c['pars'] else None
        with Saved() as s, quiet():
            vv.basic_visualize(b, v, p, t, tr, trp, t if c['train'] else None, itr=c['itr'], uses_particles=c['particles'], losses_to_print=losses, nr_of_pars=pars, args=args)
        names = ['basic-viz-{}-iter-{:04d}'.format(c['base'], c['itr'])]
        for n, f, axs, be in s.items:
            if len(axs) != (3 if c['particles'] else 1):
                fail('{} plots', len(axs))
            same_lines(axs[0][2], trajectories_expected(v, p, tr, trp), 'trajectories')
            plain = axs[0][0].replace('\\_', '').replace('\\#', '').replace('\\%', '')
            if any(x in plain for x in '_#%'):
                fail('special characters in the title {!r}', axs[0][0])
            for w in [str(c['itr'])] + ([c['name'].replace('_', '\\_').replace('%', '\\%'), '1.5000', '0.2500', '3.1250', '0.7500'] if c['losses'] else []) + (['20', '17'] if c['pars'] else []):
                if w not in axs[0][0]:
                    fail('{!r} is not in the title {!r}', w, axs[0][0])
    else:
        r = np.random.RandomState(c['dseed'] % 2 ** 31)
        data = {'t': np.cumsum(r.rand(c['T']) + 0.1).tolist(), 'energy': r.randn(c['T']).tolist()}
        for k in ['{}.state.q1', '{}.costate.p_q1', '{}.data.q1'] + (['{}.dot_state.dot_q1', '{}.dot_data.dot_q1'] if c['dots'] else []) + ['l1.bias']:
            data[k.format(c['block'])] = [r.randn(*([c['n'], 1, c['F']] if 'l1' not in k else [c['F']])) for _ in range(c['T'])]
        with Saved() as s, quiet():
            vv.plot_temporal_data(data, c['block'], args=args)
        keys = [k for k in data if k != 't' and 'dot_' not in k]
        names = ['{}-{}'.format(c['base'], k) for k in keys]
        for n, f, axs, be in s.items:
            k = os.path.splitext(os.path.basename(n))[0][len(c['base']) + 1:]
            if k not in keys:
                fail('a figure for {}', k)
            if len(axs) != 1 or axs[0][1].replace('\\_', '_') != k or '_' in axs[0][1].replace('\\_', ''):
                fail('label {!r} for {}', axs[0][1], k)
            cols = sorted(tuple(x) for x in np.asarray(data[k]).reshape(c['T'], -1).T.tolist())
            if sorted(tuple(y.tolist()) for _, y in axs[0][2]) != cols:
                fail('{}: curves do not show the recorded values', k)
    shutil.rmtree(d)
    want = sorted(os.path.join(out, n + e) for n in names for e in ('.png', '.pdf', '.pgf'))
    if sorted(n for n, _, _, _ in s.items) != want:
        fail('saved {} instead of {}', sorted(n for n, _, _, _ in s.items), want)
    if s.backend != c['backend'] or s.tex:
        fail('the plot settings are {} {} after saving', s.backend, s.tex)
    if s.left:
        fail('{} figures stay open', len(s.left))
    return [c['what']]


@st.composite
def field_case(draw):
    return dict(model=draw(st.sampled_from(['updown', 'universal', '2nd_order', 'dampened'])), n=draw(st.integers(1, 4)), infl=draw(st.integers(1, 3)), T=draw(st.integers(5, 7)), N=draw(st.integers(1, 3)),
                dseed=draw(ns.seeds), seed=draw(ns.seeds), itr=draw(st.integers(0, 100)))


def field(c):
    """trajectories over time and in the plane, and the learned vector field on a grid"""
    cfg = dict(model=c['model'], nl='tanh', n=c['n'], weight=None, dim=1, size=2, seed=c['seed'], mag=0.5)
    if c['model'] in ns.INFLATED:
        cfg['infl'] = c['infl']
    b = ns.make_block(cfg)
    ns.set_state(b, cfg, ns.gen(c['dseed']))
    g = ns.gen(c['dseed'] + 1)
    y, p = [ns.randn(g, [c['T'], c['N'], 1, 2]) for _ in range(2)]
    t = torch.linspace(0, 1, c['T'])
    from matplotlib.axes import Axes
    old = Axes.streamplot
    fields = []

    def rec(self, x, yy, u, v, *a, **k):
        fields.append([np.array(z) for z in (x, yy, u, v)])
    Axes.streamplot = rec
    try:
        with Shown() as s, quiet():
            vv.visualize(y, p, t, b, c['itr'])
            figs = list(s.figs)
            if len(figs) != 1 or len(figs[0].axes) != 3:
                fail('{} figures', len(figs))
            l0, l1 = lines(figs[0].axes[0]), lines(figs[0].axes[1])
    finally:
        Axes.streamplot = old
    tt = t.numpy()
    e0, e1 = [], []
    for i in range(c['N']):
        e0 += [(tt, y[:, i, 0, 0].numpy()), (tt, y[:, i, 0, 1].numpy()), (tt, p[:, i, 0, 0].numpy()), (tt, p[:, i, 0, 1].numpy())]
        e1 += [(y[:, i, 0, 0].numpy(), y[:, i, 0, 1].numpy()), (p[:, i, 0, 0].numpy(), p[:, i, 0, 1].numpy())]
    same_lines(l0, e0, 'trajectories over time')
    same_lines(l1, e1, 'phase portrait')
    if len(fields) != 1:
        fail('{} vector fields', len(fields))
    x, yy, u, v = fields[0]
    if x.shape != (21, 21) or not np.allclose(x[0], np.linspace(-2, 2, 21)) or not np.allclose(yy[:, 0], np.linspace(-2, 2, 21)):
        fail('the grid of the vector field is wrong')
    b.set_integration_time_vector(t[:5], suppress_warning=True)
    start = torch.tensor(np.stack([x.ravel(), yy.ravel()], 1)).unsqueeze(1)
    with torch.no_grad():
        o = b(x=start.float())[0] if start.dtype != torch.float64 else b(x=torch.Tensor(start.float()).to(torch.get_default_dtype()))[0]
    dy = (o[-1] - o[0])[:, 0, :].detach().numpy()
    m = np.sqrt((dy ** 2).sum(1, keepdims=True))
    ok = (m[:, 0] > 1e-3)
    got = np.stack([u.ravel(), v.ravel()], 1)
    if not np.allclose(got[ok], (dy / np.maximum(m, 1e-12))[ok], atol=1e-3):
        fail('the vector field is not the direction of the flow')
    return [c['model']] if ok.sum() > 200 else None


@st.composite
def settings_case(draw):
    return dict(fam=draw(st.sampled_from(['serif', 'sans-serif', 'monospace'])), tex=draw(st.sampled_from(['xelatex', 'lualatex', 'pdflatex'])), rcf=draw(st.booleans()), pre=draw(st.sampled_from(['', '\\usepackage{bm}'])),
                backend=draw(st.sampled_from(['agg', 'svg', 'pdf'])), nest=draw(st.integers(1, 3)), name=draw(st.sampled_from(['x', 'basic-viz-a-iter-0001', 'p.q1'])), exist=draw(st.booleans()))


def settings(c):
    """settings after saving figures are those from before; all formats are saved"""
    matplotlib.use(c['backend'])
    matplotlib.rcParams.update({'font.family': c['fam'], 'pgf.texsystem': c['tex'], 'pgf.rcfonts': c['rcf'], 'pgf.preamble': c['pre']})
    keys = ['font.family', 'pgf.texsystem', 'pgf.rcfonts', 'pgf.preamble', 'text.usetex', 'font.size', 'axes.titlesize', 'lines.linewidth']
    before = {k: matplotlib.rcParams[k] for k in keys}
    try:
        for _ in range(c['nest']):
            r = fs.setup_pgf_plotting()
            if matplotlib.get_backend().lower() != 'pgf' or matplotlib.rcParams['text.usetex'] is not True:
                fail('LaTeX output is not set up')
            fs.reset_pgf_plotting(*r)
        if matplotlib.get_backend().lower() != c['backend']:
            fail('the backend is {} instead of {}', matplotlib.get_backend(), c['backend'])
        after = {k: matplotlib.rcParams[k] for k in keys}
        if after != before:
            fail('settings {} instead of {}', after, before)
    finally:
        matplotlib.use('agg')
        matplotlib.rcParams['text.usetex'] = False
    d = tempfile.mkdtemp(dir=os.getcwd())
    out = os.path.join(d, 'o')
    if c['exist']:
        os.mkdir(out)
    old = matplotlib.figure.Figure.savefig
    names = []

    def rec(self, name, *a, **k):
        names.append(os.path.relpath(str(name), out))
        if not os.path.isdir(out):
            fail('the output directory does not exist')
    matplotlib.figure.Figure.savefig = rec
    try:
        plt.figure()
        fu.save_all_formats(out, c['name'])
    finally:
        matplotlib.figure.Figure.savefig = old
        plt.close('all')
    if sorted(names) != sorted(c['name'] + e for e in ['.png', '.pdf', '.pgf']):
        fail('saved {}', names)
    shutil.rmtree(d)
    return [c['backend']]


QUICK_SCALE = 1.5

SUBS = [
    Sub('latex', latex_case(), latex, 1500, 30000, 'random texts with special characters; non-trivial: contains a special character'),
    Sub('stack', stack_case(), stack, 200, 2000, 'random lists of arrays; every case counts'),
    Sub('temporal', temporal_case(), temporal, 40, 500, 'random records; every case counts', shards=2),
    Sub('viz', viz_case(), viz, 60, 800, 'random blocks and trajectories; every case counts', shards=3),
    Sub('evolution', evo_case(), evolution, 30, 300, 'random records; every case counts', shards=2),
    Sub('saving', saving_case(), saving, 60, 800, 'random trajectories and records which are saved (rendering replaced, there is no LaTeX); every case counts', shards=2),
    Sub('field', field_case(), field, 30, 400, 'random blocks and trajectories; non-trivial: the flow moves half of the grid', shards=2),
    Sub('settings', settings_case(), settings, 40, 400, 'random settings; every case counts'),
]
