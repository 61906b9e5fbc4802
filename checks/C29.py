"""Data of the experiments: what is trained on and evaluated is what the experiments say it is."""
import os
import random
import shutil
import tempfile
import types
import numpy as np
import scipy.io
import scipy.integrate
import scipy.linalg
import scipy.stats
import torch
from torch.utils.data import DataLoader
from pbt import Sub, st, fail, Skip
import ns
import demo

import sys


def seeded(s):
    random.seed(s)
    np.random.seed(s % 2**31)
    torch.manual_seed(s)


# concentric spheres ------------------------------------------------------------------------------------------------

@st.composite
def sphere_case(draw):
    r = draw(st.sampled_from([[0., .5], [1., 1.5], [0., 1.], [0.5, 0.5], [2., 7.], [1., 1.001]]))
    R = draw(st.sampled_from([[1., 1.5], [0., .5], [3., 4.], [0.2, 0.3]]))
    return dict(dim=draw(st.integers(1, 5)), inner=r, outer=R, ni=draw(st.integers(0, 40)), no=draw(st.integers(0, 40)), seed=draw(ns.seeds))


def spheres(c):
    u = demo.load('utils')
    seeded(c['seed'])
    d = u.ConcentricSphere(c['dim'], tuple(c['inner']), tuple(c['outer']), c['ni'], c['no'])
    if len(d) != c['ni'] + c['no']:
        fail('{} points instead of {}', len(d), c['ni'] + c['no'])
    nr = [0, 0]
    allp = []
    for i in range(len(d)):
        x, y = d[i]
        if tuple(x.shape) != (c['dim'],) or y.numel() != 1:
            fail('shapes {} {}', x.shape, y.shape)
        l = float(y)
        if l not in [0.0, 1.0]:
            fail('label {}', l)
        nr[int(l)] += 1
        lo, hi = [c['inner'], c['outer']][int(l)]
        n = float(x.norm())
        if not lo - 1e-6 <= n <= hi + 1e-6:
            fail('a point of class {} at radius {} (not in [{},{}])', l, n, lo, hi)
        allp.append(tuple(x.tolist()))
    if nr != [c['ni'], c['no']]:
        fail('{} points per class instead of {}', nr, [c['ni'], c['no']])
    deg = (c['inner'][0] == c['inner'][1] or c['outer'][0] == c['outer'][1]) and c['dim'] == 1
    if not deg and len(set(allp)) != len(allp):
        fail('points repeat')
    seeded(c['seed'])
    d2 = u.ConcentricSphere(c['dim'], tuple(c['inner']), tuple(c['outer']), c['ni'], c['no'])
    for i in range(len(d)):
        if not torch.equal(d[i][0], d2[i][0]):
            fail('same seed, different points')
    return True if nr[0] and nr[1] else None


def spread_case():
    return st.fixed_dictionaries(dict(dim=st.integers(1, 4), lo=st.sampled_from([0., 1.]), hi=st.sampled_from([1.5, 3.]), seed=ns.seeds))


def spread(c):
    """directions in all orthants, radii spread from the smallest to the largest one as those of a uniformly filled ball"""
    u = demo.load('utils')
    seeded(c['seed'])
    n = 4000
    p = torch.stack([u.random_point_in_sphere(c['dim'], c['lo'], c['hi']) for _ in range(n)])
    r = p.norm(dim=1)
    d = p / r[:, None]
    m = d.mean(0)
    if float(m.abs().max()) > 6. / np.sqrt(n):
        fail('directions have mean {}', m.tolist())
    s = (d.t() @ d) / n - torch.eye(c['dim']) / c['dim']
    if float(s.abs().max()) > 6. / np.sqrt(n):
        fail('directions are not isotropic')
    if c['dim'] > 1:
        for i in range(c['dim']):
            w = np.sort(scipy.stats.beta.cdf(d[:, i].double().numpy() ** 2, 0.5, (c['dim'] - 1) / 2))
            if float(np.abs(w - (np.arange(n) + 0.5) / n).max()) > 2.6 / np.sqrt(n):
                fail('directions are not uniformly distributed')
    w = ((r - c['lo']) / (c['hi'] - c['lo'])) ** c['dim']
    w = np.sort(w.numpy())
    if float(np.abs(w - (np.arange(n) + 0.5) / n).max()) > 2.6 / np.sqrt(n):
        fail('radii are not distributed as u**(1/dim)')
    return [c['dim']]


@st.composite
def sample_case(draw):
    a, b = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    return dict(ni=a, no=b, N=draw(st.integers(1, a + b)), seed=draw(ns.seeds), bs=draw(st.integers(1, 8)), dim=draw(st.integers(1, 3)))


def sampling(c):
    u = demo.load('utils')
    seeded(c['seed'])
    d = u.ConcentricSphere(c['dim'], (0., .5), (1., 1.5), c['ni'], c['no'])
    s = u.sample(d, c['N'])
    if len(s) != 2 * c['N']:
        fail('{} samples instead of {} for each of the two classes', len(s), c['N'])
    have = {(tuple(d[i][0].tolist()), float(d[i][1])) for i in range(len(d))}
    nr = [0, 0]
    for i in range(len(s)):
        x, y = s[i]
        if (tuple(x.tolist()), float(y)) not in have:
            fail('a sample which is not in the data')
        nr[int(float(y))] += 1
    if nr != [c['N'], c['N']]:
        fail('samples per class {}', nr)
    # every point can be drawn
    if c['N'] >= 4:
        got = set()
        for _ in range(-(-60 * max(c['ni'], c['no']) // c['N'])):
            got |= {tuple(x.tolist()) for x, _ in (lambda s: [s[i] for i in range(len(s))])(u.sample(d, c['N']))}
        if len(got) != len({tuple(d[i][0].tolist()) for i in range(len(d))}):
            fail('some points are never drawn')
    # loader -> numpy: everything, in order, also the last smaller batch
    X, y = u.dataset_to_numpy(DataLoader(d, batch_size=c['bs'], shuffle=False))
    if X.shape != (len(d), c['dim']) or y.shape[0] != len(d):
        fail('numpy arrays of size {} {}', X.shape, y.shape)
    for i in range(len(d)):
        if not np.allclose(X[i], d[i][0].numpy(), rtol=0, atol=0) or float(y[i].squeeze()) != float(d[i][1]):
            fail('row {} is not sample {}', i, i)
    try:
        u.sample(d, len(d) + 1)
    except AssertionError:
        pass
    except Exception:
        pass
    else:
        fail('more samples than there are data were drawn')
    return True


# rotated MNIST ------------------------------------------------------------------------------------------------------

def mnist_case():
    return st.fixed_dictionaries(dict(n=st.integers(501, 520), seed=ns.seeds))


def mnist(c):
    u = demo.load('utils')
    X = np.random.RandomState(c['seed'] % 2**31).randint(0, 255, size=(c['n'], 16, 784)).astype(np.float64)
    d = tempfile.mkdtemp(prefix='c29_')
    try:
        os.makedirs(os.path.join(d, 'data', 'rotated_mnist'))
        os.makedirs(os.path.join(d, 'a', 'b'))
        scipy.io.savemat(os.path.join(d, 'data', 'rotated_mnist', 'rot-mnist-3s.mat'), dict(X=X))
        with demo.cwd(os.path.join(d, 'a', 'b')):
            tr, te, N, T = u.load_data()
    finally:
        shutil.rmtree(d)
    if (N, T) != (500, 16):
        fail('N,T = {} {}', N, T)
    ns.close(tr, torch.tensor(X[:500]).reshape(500, 16, 1, 28, 28), 'training images', rtol=1e-6)
    ns.close(te, torch.tensor(X[500:]).reshape(-1, 16, 1, 28, 28), 'test images', rtol=1e-6)
    ds = u.Dataset(te)
    if len(ds) != c['n'] - 500 or not torch.equal(ds[len(ds) - 1], te[-1]) or not torch.equal(ds[0], te[0]):
        fail('data set does not give its images')
    return True


# spiral -------------------------------------------------------------------------------------------------------------

@st.composite
def spiral_case(draw):
    return dict(linear=draw(st.booleans()), n=draw(st.integers(20, 80)), bt=draw(st.integers(2, 8)), method=draw(st.sampled_from(['rk4', 'dopri5'])), seed=draw(ns.seeds))


def spiral_truth(t, linear):
    A = np.array([[-0.1, 2.0], [-2.0, -0.1]])
    if linear:
        return np.stack([np.array([2., 0.]) @ scipy.linalg.expm(A * s) for s in t])
    r = scipy.integrate.solve_ivp(lambda s, y: (y ** 3) @ A, (t[0], t[-1]), np.array([2., 0.]), t_eval=t, rtol=1e-10, atol=1e-12, method='DOP853')
    return r.y.T


def spiral(c):
    """the generated trajectory is the solution of the stated differential equation"""
    s = demo.load('spiral')
    integ = s.setup_integrator(method=c['method'], use_adjoint=False, step_size=10. / (c['n'] - 1) / 64)    # the grid contains the times
    d = s.generate_data(integrator=integ, data_size=c['n'], batch_time=c['bt'], linear=c['linear'])
    t = d['t'].numpy()
    if not np.allclose(t, np.linspace(0, 10, c['n']), atol=1e-9):
        fail('times {}', t)
    if tuple(d['y'].shape) != (c['n'], 1, 2):
        fail('shape {}', tuple(d['y'].shape))
    e = spiral_truth(t, c['linear'])
    err = np.abs(d['y'][:, 0, :].numpy() - e).max()
    if err > 1e-4:
        fail('trajectory differs from the solution of the differential equation by {}', err)
    check_indices(d, c['bt'])
    return ['linear' if c['linear'] else 'nonlinear', c['method']]


def check_indices(d, bt):
    y = d['y'][:, 0, :].numpy()
    n = y.shape[0]
    dist = np.sqrt(((y[1:] - y[:-1]) ** 2).sum(1))
    dd = dist[:n - 1 - (bt - 1)]
    idx, cnt = np.unique(d['uniform_sample_indices'], return_counts=True)
    got = dict(zip(idx.tolist(), cnt.tolist()))
    if min(got) < 0 or max(got) + bt - 1 > n - 1:
        fail('a trajectory of length {} starts at {} of {} points', bt, max(got), n)
    for i, v in enumerate(dd / dd.min()):
        e = np.round(v)
        if abs(v - np.floor(v) - 0.5) < 1e-6:
            continue
        if got.get(i, 0) != e:
            fail('index {} appears {} times; its distance is {} times the smallest one', i, got.get(i, 0), v)
    if set(got) - set(range(len(dd))):
        fail('unexpected indices')
    w = np.asarray(d['dists'])
    if w.shape[0] != n or not np.allclose(w[:-1], dist, rtol=1e-6):
        fail('distances between the points')


@st.composite
def window_case(draw):
    n = draw(st.integers(4, 15))
    return dict(n=n, bt=draw(st.integers(2, min(5, n - 2))), bs=draw(st.integers(1, 9)), by_dist=draw(st.booleans()), online=draw(st.booleans()), long=draw(st.booleans()), val=draw(st.booleans()),
                seed=draw(ns.seeds), dseed=draw(ns.seeds))


def own_data(s, c):
    g = ns.gen(c['dseed'])
    d = dict(y=torch.cumsum(ns.randn(g, [c['n'], 1, 2]).abs() + 0.1, 0), t=torch.linspace(0., 3., c['n']))
    d['y0'] = d['y'][0]
    d['uniform_sample_indices'], d['dists'] = s.create_uniform_distance_selection_array(d, batch_time=c['bt'])
    return d


def is_window(d, y0, y, bt):
    """start of the window (the points of the trajectory are different from each other)"""
    Y = d['y'][:, 0, :]
    k = (Y - y0.reshape(1, 2)).abs().sum(1)
    i = int(k.argmin())
    if float(k[i]) > 1e-12:
        fail('a start which is not on the trajectory')
    if y.shape[0] != bt:
        fail('{} points instead of {}', y.shape[0], bt)
    if i + bt > Y.shape[0]:
        fail('window leaves the trajectory')
    if float((Y[i:i + bt] - y.reshape(bt, 2)).abs().max()) > 1e-12:
        fail('a training sample is not the part of the trajectory that starts at its initial point')
    return i


def windows(c):
    s = demo.load('spiral')
    d = own_data(s, c)
    check_indices(d, c['bt'])
    seeded(c['seed'])
    y0, t, y = s.get_batch(d, c['bs'], c['bt'], distance_based_sampling=c['by_dist'])
    if tuple(y0.shape) != (c['bs'], 1, 2) or tuple(y.shape) != (c['bt'], c['bs'], 1, 2):
        fail('shapes {} {}', tuple(y0.shape), tuple(y.shape))
    ns.close(t, d['t'][:c['bt']], 'times of the batch', rtol=0, atol=0)
    for j in range(c['bs']):
        is_window(d, y0[j], y[:, j], c['bt'])
    seeded(c['seed'])
    z = s.get_batch(d, c['bs'], c['bt'], distance_based_sampling=c['by_dist'])
    if not all(torch.equal(a, b) for a, b in zip(z, (y0, t, y))):
        fail('same seed, different batch')
    # data sets
    args = types.SimpleNamespace(validate_with_long_range=c['long'], batch_time=c['bt'], batch_size=c['bs'], disable_distance_based_sampling=not c['by_dist'])
    N = 6
    f = s.FunctionDataset(args, d, nr_of_samples=N, batch_time=c['bt'], distance_based_sampling=c['by_dist'], validation_mode=c['val'], online_mode=c['online'])
    if len(f) != N:
        fail('size {}', len(f))
    whole = c['long'] and c['val'] and not c['online']
    for i in [0] if whole else range(N):
        a = f[i]
        if whole:
            ns.close(a['y'].reshape(-1, 2), d['y'][:, 0, :], 'long-range validation trajectory', rtol=0, atol=0)
            ns.close(a['y0'].reshape(2), d['y0'].reshape(2), 'long-range initial condition', rtol=0, atol=0)
            ns.close(f.t, d['t'], 'long-range times', rtol=0, atol=0)
        else:
            is_window(d, a['y0'], a['y'], c['bt'])
            ns.close(f.t, d['t'][:c['bt']], 'times', rtol=0, atol=0)
            b = f[torch.tensor(i)]
            if not c['online'] and not torch.equal(a['y'], b['y']):
                fail('stored samples change')
    # loaders: batches of the requested sizes
    ld = s.get_function_data_loaders(args, d, training_samples=20, training_evaluation_samples=7, short_range_testing_samples=9, testing_samples=5)
    sizes = [c['bs'], 7, 9, 1 if c['long'] else 5]
    nrs = [20 // c['bs'], 1, 1, 1]
    for k, (l, sz, nr) in enumerate(zip(ld, sizes, nrs)):
        first = []
        m = 0
        for batch in l:
            m += 1
            yb = batch['y'].transpose(0, 1)
            if batch['y0'].shape[0] != sz or yb.shape[1] != sz:
                fail('loader {}: batch of size {} instead of {}', k, batch['y0'].shape[0], sz)
            for j in range(sz):
                if k == 3 and c['long']:
                    ns.close(yb[:, j].reshape(-1, 2), d['y'][:, 0, :], 'long-range validation batch', rtol=0, atol=0)
                else:
                    is_window(d, batch['y0'][j], yb[:, j], c['bt'])
            first.append(batch)
        if m != nr:
            fail('loader {}: {} batches instead of {}', k, m, nr)
        if k > 0:
            for a, b in zip(first, l):
                if not torch.equal(a['y'], b['y']):
                    fail('evaluation data change from pass to pass')
    return ['distance' if c['by_dist'] else 'index', 'online' if c['online'] else 'stored']


# function fitting ---------------------------------------------------------------------------------------------------

@st.composite
def fcn_case(draw):
    return dict(kind=draw(st.sampled_from(['cubic', 'quadratic'])), N=draw(st.integers(1, 40)), max_x=draw(st.sampled_from([0.5, 1, 1.5, 3.])), bs=draw(st.integers(1, 12)), uniform=draw(st.booleans()), seed=draw(ns.seeds))


def f_true(x, kind):
    return x * x * x if kind == 'cubic' else x * x + 3. / (1. + x * x)


def check_fcn(x, y, c, what):
    if float(x.abs().max()) > c['max_x'] + 1e-9:
        fail('{}: input outside of [-{},{}]', what, c['max_x'], c['max_x'])
    ns.close(y, f_true(x, c['kind']), what + ' output', rtol=1e-12)


def functions(c):
    s = demo.load('simple_functional_mapping_example')
    seeded(c['seed'])
    x, y = s.get_sample_batch(nr_of_samples=c['N'], max_x=c['max_x'], fcn_type=c['kind'])
    if tuple(x.shape) != (c['N'], 1, 1) or x.shape != y.shape:
        fail('shape {}', tuple(x.shape))
    check_fcn(x, y, c, 'random batch')
    if len(set(x.reshape(-1).tolist())) != c['N']:
        fail('random inputs repeat')
    big, _ = s.get_sample_batch(nr_of_samples=400, max_x=c['max_x'], fcn_type=c['kind'])
    w = np.sort((big.reshape(-1).numpy() / c['max_x'] + 1) / 2)
    if np.abs(w - (np.arange(400) + 0.5) / 400).max() > 2.6 / 20:
        fail('random inputs are not uniformly distributed in the range')
    x, y = s.get_uniform_sample_batch(nr_of_samples=c['N'], max_x=c['max_x'], fcn_type=c['kind'])
    ns.close(x.reshape(-1), torch.tensor(np.linspace(-c['max_x'], c['max_x'], c['N'])), 'uniform inputs', rtol=1e-12)
    check_fcn(x, y, c, 'uniform batch')
    f = s.FunctionDataset(c['N'], uniform_sample=c['uniform'], max_x=c['max_x'], fcn_type=c['kind'])
    if len(f) != c['N']:
        fail('size {}', len(f))
    seen = []
    for i in range(c['N']):
        a, b = f[i], f[torch.tensor(i)]
        if not torch.equal(a['input'], b['input']) or not torch.equal(a['output'], b['output']):
            fail('samples are not fixed')
        check_fcn(a['input'], a['output'], c, 'data set')
        seen.append(float(a['input']))
    if c['uniform']:
        ns.close(torch.tensor(seen), torch.tensor(np.linspace(-c['max_x'], c['max_x'], c['N'])), 'uniform data set', rtol=1e-12)
    elif len(set(seen)) != c['N']:
        fail('samples repeat')
    tr, te, ev, vi = s.get_function_data_loaders(training_samples=23, training_evaluation_samples=9, testing_samples=11, visualization_samples=5, batch_size=c['bs'], max_x=c['max_x'], fcn_type=c['kind'])
    for l, n, k, uni in [(tr, c['bs'], 23 // c['bs'], False), (te, 11, 1, True), (ev, 9, 1, False), (vi, 5, 1, True)]:
        m = 0
        xs = []
        for b in l:
            m += 1
            if b['input'].shape[0] != n:
                fail('batch of {} instead of {}', b['input'].shape[0], n)
            check_fcn(b['input'], b['output'], c, 'loader')
            xs += b['input'].reshape(-1).tolist()
        if m != k:
            fail('{} batches instead of {}', m, k)
        if len(set(xs)) != len(xs):
            fail('a sample is used more than once per pass')
        if uni:
            ns.close(torch.tensor(xs), torch.tensor(np.linspace(-c['max_x'], c['max_x'], n)), 'test inputs', rtol=1e-12)
    orders = [tuple(x for b in tr for x in b['input'].reshape(-1).tolist()) for _ in range(3)]
    if len(set(orders)) == 1:
        fail('training data are not shuffled')
    try:
        s.fcn(torch.ones(2), 'quartic')
    except ValueError:
        pass
    else:
        fail('unknown function accepted')
    return [c['kind']]


# image data sets ----------------------------------------------------------------------------------------------------

@st.composite
def loader_case(draw):
    return dict(name=draw(st.sampled_from(['MNIST', 'CIFAR10', 'CIFAR100', 'SVHN', 'mnist', 'ImageNet', 'FashionMNIST'])), aug=draw(st.booleans()), bs=draw(st.integers(1, 6)), tbs=draw(st.integers(1, 5)),
                ntr=draw(st.integers(6, 30)), nte=draw(st.integers(6, 20)), seed=draw(ns.seeds))


def loaders(c):
    seeded(c['seed'])
    demo.FakeSet.sizes = dict(train=c['ntr'], test=c['nte'])
    del demo.FakeSet.created[:]
    known = dict(MNIST=10, CIFAR10=10, CIFAR100=100)
    with demo.fake_sets() as dl:
        try:
            tr, te, ev, nr = dl.get_data_loaders(c['name'], data_aug=c['aug'], batch_size=c['bs'], test_batch_size=c['tbs'])
        except ValueError:
            if c['name'] in known:
                raise
            return ['rejected']
    if c['name'] not in known:
        fail('unsupported data set {} was accepted', c['name'])
    if nr != known[c['name']]:
        fail('{} classes', nr)
    for s in demo.FakeSet.created:
        if type(s).__name__ != c['name']:
            fail('wrong data set {}', type(s).__name__)
    for l, n, sz, train, shuffled in [(tr, c['ntr'], c['bs'], True, True), (ev, c['ntr'], c['tbs'], True, False), (te, c['nte'], c['tbs'], False, False)]:
        orders, pixels = [], []
        for _ in range(3):
            o = []
            k = 0
            for x, y in l:
                k += 1
                if tuple(x.shape) != (sz, 1, 28, 28) or y.shape[0] != sz:
                    fail('batch of size {} instead of {}', tuple(x.shape), (sz, 1, 28, 28))
                for im, i in zip(x, y.tolist()):
                    v = (i + (1 if train else 101)) / 255.
                    inner = (im[0, 9:-9, 9:-9] - v).abs().max()
                    if float(inner) > 1e-6:
                        fail('{} image with the label of another one, from the wrong part of the data, or with other intensities', 'training' if train else 'test')
                    whole = torch.full([28, 28], v)
                    whole[0] = 0
                    whole[:, 0] = 0
                    if not (shuffled and c['aug']) and float((im[0] - whole).abs().max()) > 1e-6:
                        fail('an image which is not augmented is changed')
                    pixels.append(float((im[0] > v / 2).sum()))
                o += y.tolist()
            if k != n // sz:
                fail('{} batches of size {} from {} images', k, sz, n)
            if len(set(o)) != len(o):
                fail('an image appears twice per pass')
            orders.append(tuple(o))
        if shuffled and c['aug'] and len(pixels) >= 15 and len(set(pixels)) == 1:
            fail('training images are not augmented')
        if not shuffled and orders[0] != tuple(range((n // sz) * sz)):
            fail('evaluation data are not in order')
        if shuffled and len(orders[0]) >= 8 and len(set(orders)) == 1:
            fail('training data are not shuffled')
    return [c['name'], 'augmented' if c['aug'] else 'plain']


QUICK_SCALE = 1.5

SUBS = [
    Sub('spheres', sphere_case(), spheres, 150, 3000, 'random dimensions, radii, numbers of points; non-trivial: both classes have points'),
    Sub('spread', spread_case(), spread, 24, 300, 'distribution of 600 points (limits at more than six standard deviations)'),
    Sub('sampling', sample_case(), sampling, 120, 2000, 'class-balanced samples and conversion to numpy'),
    Sub('mnist', mnist_case(), mnist, 3, 20, 'random image files'),
    Sub('spiral', spiral_case(), spiral, 24, 200, 'generated spirals against closed form / an independent integrator', shards=2),
    Sub('windows', window_case(), windows, 200, 3000, 'random trajectories, windows, data sets and loaders', shards=2),
    Sub('functions', fcn_case(), functions, 80, 1500, 'random functions, sizes and ranges', shards=2),
    Sub('loaders', loader_case(), loaders, 80, 1500, 'data sets of random sizes (generated images in place of the downloaded ones)'),
]
