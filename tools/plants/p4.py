import os, importlib.util
_s = importlib.util.spec_from_file_location('p3', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p3.py'))
p3 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(p3)
p1 = p3.p1
I, M, B, D, G, O, A, S, R, HEAD = p1.I, p1.M, p1.B, p1.D, p1.G, p1.O, p1.A, p1.S, p1.R, p1.HEAD
N = 'neuro_shooting/'
H, TB, V, L, E, C, PI, U = [N + x + '.py' for x in ('shooting_hooks', 'tensorboard_shooting_hooks', 'validation_measures', 'custom_lr_scheduler', 'experiment_utils',
                                                     'command_line_execution_tools', 'parameter_initialization', 'utils')]
DL = N + 'data_loaders.py'
X = 'demos/neurips20/'
PLANTS = []


def plant(raw=False, **k):
    if not raw:
        k['demo'] = HEAD + k['demo']
    PLANTS.append(k)


DEMO = "\nimport sys, os\nsys.path.insert(0, os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'demos', 'neurips20'))\nimport numpy as np\nimport random\n"

plant(id='C29-eval-augmented', property='C29',
      edits=[(DL, "        current_dataset(root=data_root, train=True, download=True, transform=transform_test),\n", "        current_dataset(root=data_root, train=True, download=True, transform=transform_train if data_aug else transform_test),\n")],
      needs='data augmentation', breaks='the training data are evaluated with random crops',
      demo=DEMO + '''
import torchvision.datasets as ds
from PIL import Image
class F(torch.utils.data.Dataset):
    def __init__(self, root, train=True, transform=None, download=False):
        self.t = transform
    def __len__(self):
        return 4
    def __getitem__(self, i):
        return self.t(Image.fromarray(np.arange(784, dtype=np.uint32).reshape(28, 28).astype(np.uint8))), i
ds.MNIST = F
import neuro_shooting.data_loaders as dl
torch.manual_seed(0)
_, _, ev, _ = dl.get_data_loaders('MNIST', data_aug=True, batch_size=2, test_batch_size=4)
a, b = next(iter(ev))[0], next(iter(ev))[0]
if not torch.equal(a, b):
    print('evaluation data change')
    sys.exit(1)
''')

plant(id='C29-shuffle-small', property='C29',
      edits=[(DL, "        shuffle=True, num_workers=num_workers, drop_last=True\n    )\n\n    train_eval_loader", "        shuffle=batch_size>1, num_workers=num_workers, drop_last=True\n    )\n\n    train_eval_loader")],
      needs='batches of size one', breaks='training data are always in the same order',
      demo=DEMO + '''
import torchvision.datasets as ds
class F(torch.utils.data.Dataset):
    def __init__(self, root, train=True, transform=None, download=False):
        pass
    def __len__(self):
        return 20
    def __getitem__(self, i):
        return torch.zeros(1), i
ds.MNIST = F
import neuro_shooting.data_loaders as dl
tr = dl.get_data_loaders('MNIST', batch_size=1, test_batch_size=4)[0]
o = [tuple(int(y) for _, y in tr) for _ in range(3)]
if len(set(o)) == 1:
    print('not shuffled')
    sys.exit(1)
''')

plant(id='C29-window-end', property='C29',
      edits=[(X + 'spiral.py', "    dists = dists[0:-(batch_time - 1)]\n", "    dists = dists[0:-max(batch_time // 2, 1)]\n")],
      needs='distance based sampling that draws one of the last starts', breaks='training windows leave the trajectory',
      demo=DEMO + '''
import spiral
y = torch.cumsum(torch.rand(12, 1, 2) + 0.1, 0)
idx, _ = spiral.create_uniform_distance_selection_array(dict(y=y), batch_time=5)
print(max(idx))
if max(idx) + 4 > 11:
    sys.exit(1)
''')

plant(id='C29-direction', property='C29',
      edits=[(X + 'utils.py', "    direction = torch.randn(dim)\n", "    direction = torch.randn(dim) if dim<=2 else 2*torch.rand(dim)-1\n")],
      needs='spheres of dimension three or more', breaks='points are concentrated along the diagonals of the cube',
      demo=DEMO + '''
import utils
random.seed(0)
torch.manual_seed(0)
p = torch.stack([utils.random_point_in_sphere(4, 1., 2.) for _ in range(20000)])
d = p / p.norm(dim=1, keepdim=True)
k = float((d ** 4).mean())
print(k)
if abs(k - 3. / 24) > 0.004:
    sys.exit(1)
''')

plant(id='C30-last-chunk', property='C30',
      edits=[(X + 'spiral.py', "            if desired_idx>=last_t:\n                desired_idx = last_t\n", "            if desired_idx>=last_t-1:\n                desired_idx = last_t\n")],
      needs='a number of times which leaves one time over after the last full chunk', breaks='the last chunk has more times than allowed (and goes beyond the range of time dependent parameters)',
      demo=DEMO + '''
import spiral
for T in range(2, 14):
    for k in range(2, 8):
        c = spiral.get_time_chunks(torch.linspace(0, 1, T), k)
        if max(len(x) for x in c) > k:
            print(T, k, [len(x) for x in c])
            sys.exit(1)
''')

plant(id='C30-rnn-scale', property='C30',
      edits=[(X + 'simple_discrete_neural_networks.py', "            temp =  temp + 1. / self.nr_layers * temp3\n", "            temp =  temp + 1. / max(self.nr_layers,2) * temp3\n")],
      needs='a recurrent convolutional network with a single layer', breaks='the layer is only applied with half its weight',
      demo=DEMO + '''
import simple_discrete_neural_networks as s
torch.manual_seed(0)
n = s.MyCNNResRecNet(nr_layers=1, inflation_factor=2, in_channels=2)
x = torch.randn(2, 1, 5, 5)
y = n.conv0(x)
y = y + n.conv2(torch.relu(n.conv1(y)))
e = n.last_linear(y.amax(dim=(2, 3)))
d = float((n(x) - e).abs().max())
print(d)
if d > 1e-5:
    sys.exit(1)
''')

plant(id='C30-mask-eval', property='C30',
      edits=[(X + 'autoencoder.py', "            valid_idx = [j for j in range(self.T) if j != self.i_eval]       \n", "            valid_idx = [j for j in range(self.T) if j != self.i_eval or self.n_skip==0]       \n"),
             (X + 'autoencoder.py', "            valid_idx = np.setdiff1d(valid_idx, valid_idx[0:self.n_skip] + [self.i_eval])\n", "            valid_idx = np.sort(valid_idx[self.n_skip:])[0:self.T-self.n_skip-1]\n")],
      needs='no skipped times and an evaluation time which is not the last one', breaks='the evaluation time is used for training',
      demo=DEMO + '''
import autoencoder as a
m = a.ShootingAEMasked(n_filt=1, shooting_dim=2, n_skip=0, i_eval=1, T=5)
i = m.generate_selection_indices(torch.zeros(3, 5, 2))
print(i[:, :, 0])
if bool((i == 1).any()):
    sys.exit(1)
''')

plant(id='C30-trajectory-time', property='C30',
      edits=[(X + 'cc.py', "        t = torch.linspace(0., 1., N)\n", "        t = torch.arange(N) * (1./N)\n")],
      needs='a trajectory', breaks='trajectories end before the final time',
      demo=DEMO + '''
import cc
torch.manual_seed(0)
b = quiet(cc.setup_shooting_block, integrator=cc.setup_integrator('rk4', use_adjoint=False, step_size=0.25), in_features=2, nr_of_particles=4)
m = cc.Model()
m.set_shooting_block(b)
x = torch.randn(3, 1, 2)
m.eval()
z = m(x)[0]
t = m.trajectory(x, N=5)[0]
d = float((t[-1] - z).abs().max())
print(d)
if d > 1e-4:
    sys.exit(1)
''')

RUN = DEMO + '''
import subprocess, tempfile, shutil, pickle
def run(script, args, check=True):
    d = tempfile.mkdtemp()
    env = dict(os.environ, PYTHONPATH=os.environ['PYTHONPATH'].split(':')[0], MPLBACKEND='Agg')
    p = subprocess.run([sys.executable, '-c', STUB, os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'demos', 'neurips20', script + '.py')] + args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(p.stdout.decode()[-2000:])
        sys.exit(1)
    return d
STUB = """
import sys, runpy
import neuro_shooting.vector_visualization as v, neuro_shooting.figure_utils as f
v.basic_visualize = v.plot_temporal_data = f.save_all_formats = lambda *a, **k: None
sys.argv = sys.argv[1:]
sys.path.insert(0, __import__('os').path.dirname(sys.argv[0]))
g = runpy.run_path(sys.argv[0], run_name='__main__')
b = g.get('shooting_block', g.get('sblock'))
import torch
torch.save(dict((k, v.detach()) for k, v in b.named_parameters()), 'parameters.pt')
"""
'''

plant(id='C31-unfreeze-late', property='C31',
      edits=[(X + 'spiral.py', "            if itr == args.unfreeze_parameters_at_iter:\n", "            if 0 < args.unfreeze_parameters_at_iter < itr:\n")],
      needs='frozen particles which are unfrozen in some iteration', breaks='particles are unfrozen one iteration late',
      demo=RUN + '''
o = ['--seed', '3', '--nr_of_particles', '3', '--inflation_factor', '2', '--batch_size', '50', '--data_size', '60', '--custom_parameter_freezing', '--unfreeze_parameters_at_iter', '1', '--stepsize', '0.25']
q = []
for n in ['0', '1']:
    d = run('spiral', o + ['--niters', n])
    q.append(torch.load(d + '/parameters.pt')['q1'])
    shutil.rmtree(d)
print(q)
if torch.equal(q[0], q[1]):
    sys.exit(1)
''')

plant(id='C31-penalty-saved', property='C31',
      edits=[(X + 'spiral.py', "        val_batch_t = short_range_test_loader.dataset.t\n        val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)\n        loss, sim_loss, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,",
              "        val_batch_t = short_range_test_loader.dataset.t\n        val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)\n        loss, _, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,")],
      needs='saved results', breaks='the saved short range similarity is the one of other data',
      demo=RUN + '''
o = ['--seed', '3', '--nr_of_particles', '3', '--inflation_factor', '2', '--batch_size', '50', '--data_size', '60', '--stepsize', '0.25', '--save_figures', '--niters', '0', '--output_directory', 'out']
d = run('spiral', o)
r = torch.load(d + '/out/spiral-results.pt', weights_only=False)
shutil.rmtree(d)
k = 'short_range_'
print(r[k + 'test_loss'], r[k + 'sim_loss'], r[k + 'norm_loss'])
if abs(r[k + 'test_loss'] - r[k + 'sim_loss'] - r[k + 'norm_loss']) > 1e-3 * abs(r[k + 'test_loss']):
    sys.exit(1)
''')

plant(id='C31-pw-ignored', property='C31',
      edits=[(X + 'simple_functional_mapping_example.py', "                                'parameter_weight': args.pw,\n", "                                'parameter_weight': max(args.pw,1.0),\n")],
      needs='a parameter weight less than one', breaks='the parameter weight is not the requested one',
      demo=RUN + '''
o = ['--seed', '3', '--nr_of_particles', '3', '--inflation_factor', '2', '--batch_size', '250', '--stepsize', '0.25', '--niters', '0', '--save_figures', '--output_directory', 'out']
v = []
for w in ['1.0', '0.5']:
    d = run('simple_functional_mapping_example', o + ['--pw', w])
    v.append(torch.load(d + '/out/sfm-results.pt', weights_only=False)['test_loss'])
    shutil.rmtree(d)
print(v)
if v[0] == v[1]:
    sys.exit(1)
''')

plant(id='C31-best-model', property='C31',
      edits=[(X + 'balls.py', "        if current_val_error <= best_val_error:\n            best_val_error = current_val_error\n", "        if current_val_error <= best_val_error:\n            best_val_error = min(current_val_error, current_test_error)\n")],
      needs='two iterations in which the test error is smaller than the validation error', breaks='better models are not saved',
      raw=True,
      demo=HEAD + DEMO + '''
import subprocess, tempfile, shutil, pickle
top = tempfile.mkdtemp()
d = os.path.join(top, 'a', 'b')
os.makedirs(d)
os.makedirs(os.path.join(top, 'data', 'bouncing_balls'))
torch.manual_seed(0)
for n, s in [('train', 8), ('test', 4), ('val', 4)]:
    torch.save((0.7 + (0.02 if n == 'test' else 0.3) * (torch.rand(s, 20, 28, 28) - 0.5)).float(), os.path.join(top, 'data', 'bouncing_balls', 'bballs_%s.pt' % n))
env = dict(os.environ, PYTHONPATH=os.environ['PYTHONPATH'].split(':')[0], MPLBACKEND='Agg')
o = ['--niters', '3', '--seed', '1', '--shooting_dim', '2', '--stepsize', '0.1', '--nr_of_particles', '3', '--inflation_factor', '2', '--save_to', 'out', '--lr', '0.001']
p = subprocess.run([sys.executable, os.path.join(os.environ['PYTHONPATH'].split(':')[0], 'demos', 'neurips20', 'balls.py')] + o, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
t = p.stdout.decode()
r = pickle.load(open(os.path.join(d, 'out', 'bball_stats.pkl'), 'rb')) if p.returncode == 0 else None
shutil.rmtree(top)
if r is None:
    print(t[-1500:])
    sys.exit(1)
v = [float(l.split('Val=')[1]) for l in t.split('\\n') if 'Val=' in l]
print(v, r['val_error'])
if abs(min(v) - float(r['val_error'])) > 2e-4:
    sys.exit(1)
''')
