import os, importlib.util
_s = importlib.util.spec_from_file_location('p1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p1.py'))
p1 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(p1)
I, M, B, D, G, O, A, S, R, HEAD = p1.I, p1.M, p1.B, p1.D, p1.G, p1.O, p1.A, p1.S, p1.R, p1.HEAD
N = 'neuro_shooting/'
H, TB, V, L, E, C, PI, U = [N + x + '.py' for x in ('shooting_hooks', 'tensorboard_shooting_hooks', 'validation_measures', 'custom_lr_scheduler', 'experiment_utils',
                                                     'command_line_execution_tools', 'parameter_initialization', 'utils')]
F, FS, VV = N + 'figure_utils.py', N + 'figure_settings.py', N + 'vector_visualization.py'
PLANTS = []


def plant(raw=False, **k):
    if not raw:
        k['demo'] = HEAD + k['demo']
    PLANTS.append(k)


plant(id='C16-stride-list', property='C16',
      edits=[(R, "        downsampling_strides = [downsampling_stride]*(len(layer_channels)-1) + [None]",
              "        # striding only makes sense if the channels increase\n        downsampling_strides = [downsampling_stride if c1>c0 else None for c0,c1 in zip(layer_channels[:-1],layer_channels[1:])] + [None]"),
             ],
      needs='two subsequent layers with the same number of channels, a stride of at least 2',
      breaks='no striding block between such layers',
      demo='''
import neuro_shooting.res_net as rn
n = None
try:
    n = quiet(rn.BasicResNet, nr_of_image_channels=1, layer_channels=[2, 2], nr_of_blocks_per_layer=[1, 1], particle_sizes=[[4, 4], [2, 2]], nr_of_particles=2, nr_of_classes=2)
except Exception as e:
    print('not supported at all', e)
if n is not None:
    if n.striding_blocks[0] is None:
        print('no striding between the layers')
        sys.exit(1)
''')

plant(id='C16-integrator-shared-blocks', property='C16',
      edits=[(R, "            # we do striding after each shooting layer\n            if striding_block is not None:",
              "            # we do striding after each shooting layer, unless there is nothing left to be strided\n            if striding_block is not None and min(ret.shape[2:])>=2*max(striding_block.stride):"),
             ],
      needs='small images, with less than two strides per side at one of the layers',
      breaks='particles and data of small images are not strided',
      demo='''
import neuro_shooting.res_net as rn
n = quiet(rn.BasicResNet, nr_of_image_channels=1, layer_channels=[2, 3], nr_of_blocks_per_layer=[1, 1], particle_sizes=[[3, 3], [2, 2]], downsampling_stride=2, nr_of_particles=2, nr_of_classes=2)
x = torch.randn(2, 1, 3, 3)
sizes = []
n.striding_blocks[0].register_forward_hook(lambda *a: sizes.append(1))
try:
    quiet(n, x)
except Exception as e:
    print('failed', e)
if not sizes:
    print('no striding')
    sys.exit(1)
''')

plant(id='C16-second-kwargs', property='C16',
      edits=[(R, "                                                 is_pass_through=True,\n                                                 **self._shooting_model_kwargs)",
              "                                                 is_pass_through=True,\n                                                 parameter_weight=None if len(self.layer_channels)>1 else self._shooting_model_kwargs.get('parameter_weight'),\n                                                 **{k: v for k,v in self._shooting_model_kwargs.items() if k!='parameter_weight'})")],
      needs='several layers, several blocks per layer, and a parameter weight for the model', breaks='second and later blocks of a layer ignore the parameter weight',
      demo='''
import neuro_shooting.res_net as rn
n = quiet(rn.BasicResNet, nr_of_image_channels=1, layer_channels=[2, 3], nr_of_blocks_per_layer=[2, 1], particle_sizes=[[4, 4], [2, 2]], nr_of_particles=2, nr_of_classes=2,
          shooting_model=sm.AutoShootingIntegrandModelSimpleConv2D, shooting_model_kwargs=dict(parameter_weight=4.0))
w = [b.shooting_integrand.parameter_weight for l in n.shooting_layers for b in l]
print(w)
if w != [4.0] * 3:
    sys.exit(1)
''')

plant(id='C17-tb-epoch', property='C17',
      edits=[(TB, "            if epoch%10==0: # only every 10th epoch for example", "            if str(epoch).endswith('0') and epoch!=100: # only every 10th epoch for example")],
      needs='the 100th epoch', breaks='nothing is logged in this epoch',
      demo='''
import types
class W(object):
    def __init__(self):
        self.log = []
    def add_scalar(self, *a, **k):
        self.log.append((a, k))
    def add_image(self, *a, **k):
        self.log.append((a, k))
m = types.ModuleType('torch.utils.tensorboard')
m.SummaryWriter = W
sys.modules['torch.utils.tensorboard'] = m
import neuro_shooting.tensorboard_shooting_hooks as t
b = block('AutoShootingIntegrandModelSecondOrder', in_features=2, nr_of_particles=2, integrator=integ('euler', h=1.0))
for e in range(0, 130, 10):
    t.writer.log[:] = []
    b.shooting_integrand.set_custom_hook_data(dict(epoch=e))
    hd = b.shooting_integrand.register_lagrangian_gradient_hook(t.linear_transform_hook)
    quiet(b, torch.randn(2, 1, 2))
    hd.remove()
    if not t.writer.log:
        print('nothing logged in epoch', e)
        sys.exit(1)
''')

plant(id='C18-spectral-wide', property='C18',
      edits=[(H, "                cur_val = (S[0]**2).cpu().numpy()", "                cur_val = (S[0]**2 if par_dict[p].shape[0]<3*par_dict[p].shape[1] else S[-1]**2).cpu().numpy()")],
      needs='weight matrices with three times more rows than columns (inflation factors of at least 3)', breaks='the smallest singular value is used',
      demo='''
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.overwrite_classes as oc
l = oc.SNN_Linear(in_features=2, out_features=6)
w = torch.randn(6, 2)
l.get_parameter_dict()['weight'] = w
n = sh.compute_parameter_norms(SortedDict(l1=l))
check(n['sqr_spectral_norm_l1.weight'], torch.linalg.svdvals(w)[0] ** 2, 'spectral norm')
''')

plant(id='C18-rank-nuclear', property='C18',
      edits=[(H, "                cur_val = (torch.norm(par_dict[p].detach(), p='nuc')**2).cpu().numpy()",
              "                cur_sv = torch.linalg.svdvals(par_dict[p].detach())\n                cur_val = (cur_sv[cur_sv>1e-3*cur_sv[0]].sum()**2).cpu().numpy()")],
      needs='weight matrices with singular values that are a thousand times smaller than the largest one', breaks='these are left out of the nuclear norm',
      demo='''
import neuro_shooting.shooting_hooks as sh
import neuro_shooting.overwrite_classes as oc
l = oc.SNN_Linear(in_features=2, out_features=2)
w = torch.tensor([[1000.0, 0.0], [0.0, 0.9]])
l.get_parameter_dict()['weight'] = w
n = sh.compute_parameter_norms(SortedDict(l1=l))
check(n['sqr_nuclear_norm_l1.weight'], torch.tensor(1000.9 ** 2), 'nuclear norm')
''')

plant(id='C18-delta-back', property='C18',
      edits=[(V, "    ind = delta_t<0\n    delta_t[ind] = 0.0", "    ind = np.where(delta_t<0)[0]\n    delta_t[ind[:1]] = 0.0\n    delta_t = np.abs(delta_t)")],
      needs='a record with at least two steps back in time', breaks='later steps back count with their size',
      demo='''
import neuro_shooting.validation_measures as vm
t = [0.0, 1.0, 0.0, 1.0, 0.0, 1.0]
v = [2.0, 3.0, 4.0, 5.0, 6.0, 7.0]
import math
r = vm.compute_complexity_measures(dict(t=t, sum_sqr_frobenius_norm=v, sum_sqr_nuclear_norm=v, sum_sqr_spectral_norm=v))
check(torch.tensor(r['log2_nuclear']), torch.tensor(math.log2(2.5) + math.log2(4.5) + math.log2(6.5)), 'measure')
''')

plant(id='C19-epoch-given', property='C19',
      edits=[(L, "            epoch = self.last_epoch = self.last_epoch + 1\n        self.last_epoch = epoch\n", "            epoch = self.last_epoch + 1\n        if epoch<=self.last_epoch:\n            # already seen\n            return\n        self.last_epoch = epoch\n")],
      needs='explicit epoch numbers which do not increase (for example several measurements per epoch)', breaks='these measurements are ignored',
      demo='''
import neuro_shooting.custom_lr_scheduler as cl
o = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=1.0)
s = cl.CustomReduceLROnPlateau(o, patience=1)
for e in [0, 0, 0, 0]:
    s.step(1.0, epoch=e)
print(o.param_groups[0]['lr'])
if o.param_groups[0]['lr'] == 1.0:
    sys.exit(1)
''')

plant(id='C19-neg-rel', property='C19',
      edits=[(L, "            rel_epsilon = threshold + 1.\n            return a > best * rel_epsilon", "            rel_epsilon = threshold + 1.\n            return a > (best * rel_epsilon if best > 0 else best / rel_epsilon)")],
      needs='mode max, relative threshold, negative metrics', breaks='a different threshold for negative metrics',
      demo='''
import neuro_shooting.custom_lr_scheduler as cl
o = torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=1.0)
s = cl.CustomReduceLROnPlateau(o, mode='max', threshold=0.5, patience=2)
s.step(-1.0)
s.step(-1.2)
if s.best != -1.2:
    print('best is', s.best)
    sys.exit(1)
''')

plant(id='C19-load-lr', property='C19',
      edits=[(L, "        return {key: value for key, value in self.__dict__.items() if key not in {'optimizer', 'is_better'}}", "        return {key: value for key, value in self.__dict__.items() if key not in {'optimizer', 'is_better', 'cooldown_counter'}}")],
      needs='saving during the cooldown and restoring into a new scheduler', breaks='the cooldown is forgotten',
      demo='''
import neuro_shooting.custom_lr_scheduler as cl
import copy
def make():
    return cl.CustomReduceLROnPlateau(torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=1.0), patience=0, cooldown=5)
a, b = make(), make()
for v in [1.0, 2.0, 2.0]:
    a.step(v)
b.load_state_dict(copy.deepcopy(a.state_dict()))
if a.in_cooldown != b.in_cooldown:
    print('cooldown', a.in_cooldown, b.in_cooldown)
    sys.exit(1)
''')

SWEEP = '''
import argparse, os
import neuro_shooting.experiment_utils as eu
import neuro_shooting.command_line_execution_tools as ce
calls = []
ce.run_command_with_args = lambda **k: calls.append(k)
args = argparse.Namespace(starting_seed_id=0, nr_of_seeds=1, output_base_directory='out', shooting_model='simple', path_to_python='python', gpu=0)
'''

plant(id='C20-subdir-pt', property='C20',
      edits=[(E, "            if (len(pt_files)>0) and do_not_recompute:", "            if (len([f for f in pt_files if not os.path.basename(f).startswith('run')])>0) and do_not_recompute:")],
      needs='a result file whose name starts with run', breaks='a finished experiment is run again',
      demo=SWEEP + '''
os.makedirs('out/run_00__simple_a_1')
open('out/run_00__simple_a_1/run.pt', 'w').close()
quiet(eu.sweep_parameters, args, dict(a=[1, 2]), {})
print(len(calls), 'runs')
if len(calls) != 1:
    sys.exit(1)
''')

plant(id='C20-merge-none', property='C20',
      edits=[(E, "        if (v is True) or (v is False): # check if v is binary", "        if v in (True, False): # check if v is binary")],
      needs='swept values equal to 0 or 1', breaks='the values 0 and 1 are treated as flags',
      demo='''
import neuro_shooting.experiment_utils as eu
r = eu.merge_args(dict(a=3), dict(b=1, c=0.0))
print(r)
if r != dict(a=3, b=1, c=0.0):
    sys.exit(1)
''')

plant(id='C20-sweep-dups', property='C20',
      edits=[(E, "            run_args['output_directory'] = output_directory\n            run_args['seed'] = seed\n", "            run_args.setdefault('output_directory', output_directory)\n            run_args['seed'] = seed\n")],
      needs='a template of fixed parameters which contains an output directory', breaks='all experiments write into the same directory',
      demo=SWEEP + '''
quiet(eu.sweep_parameters, args, dict(a=[1, 2]), dict(output_directory='old'))
d = [c['run_args']['output_directory'] for c in calls]
print(d)
if len(set(d)) != 2:
    sys.exit(1)
''')

plant(id='C21-none-string', property='C21',
      edits=[(C, "        if args[k] is not None:\n            arg_list.append( str(args[k]) )", "        if args[k] not in (None, 0.0):\n            arg_list.append( str(args[k]) )")],
      needs='an argument with the value 0', breaks='zeros are left out',
      demo='''
import os
import neuro_shooting.command_line_execution_tools as ce
open('s.py', 'w').write("import sys; open('o', 'w').write(' '.join(sys.argv[1:]))")
quiet(ce.run_command_with_args, python_script='s.py', run_args=dict(a=0, b=1), path_to_python=sys.executable)
r = open('o').read()
print(r)
if r != '--a 0 --b 1':
    sys.exit(1)
''')

plant(id='C21-add-config-empty', property='C21',
      edits=[(C, "    elif cs_to_add is None:\n        ret = cs\n", "    elif (cs_to_add is None) or (cs_to_add in cs):\n        # nothing new\n        ret = cs\n")],
      needs='a configuration to be added that is a part of the one which exists (such as a=1 and a=12)', breaks='it is left out',
      demo='''
import neuro_shooting.command_line_execution_tools as ce
r = ce.add_to_config_string('aa=12', 'a=1')
print(r)
if r.replace('\\\\', '').split(';') != ['aa=12', 'a=1']:
    sys.exit(1)
''')

plant(id='C21-stage-zero', property='C21',
      edits=[(C, "        ret = os.path.join(output_directory,'log_stage_{:d}_{:s}.txt'.format(stage,process_name))", "        ret = os.path.join(output_directory,'log_stage_{:d}_{:s}.txt'.format(stage,process_name.split('.')[0]))")],
      needs='two names of processes that only differ after a dot', breaks='they share one log file',
      demo='''
import neuro_shooting.command_line_execution_tools as ce
a, b = [ce.get_stage_log_filename('o', 1, n) for n in ('p.1', 'p.2')]
print(a, b)
if a == b:
    sys.exit(1)
''')

plant(id='C21-log-device', property='C21',
      edits=[(C, "        ret = '{:s} && CUDA_VISIBLE_DEVICES={:d}'.format(pre_command,cuda_visible_devices)", "        ret = 'CUDA_VISIBLE_DEVICES={:d} {:s} && '.format(cuda_visible_devices,pre_command)")],
      needs='a preparation command together with a device', breaks='the device only holds for the preparation command',
      demo='''
import os
import neuro_shooting.command_line_execution_tools as ce
open('s.py', 'w').write("import os; open('o', 'w').write(os.environ.get('CUDA_VISIBLE_DEVICES', 'none'))")
quiet(ce.execute_python_script_via_bash, 's.py', [], pre_command=ce.get_bash_precommand(3, 'true'), path_to_python=sys.executable)
r = open('o').read()
print(r)
if r != '3':
    sys.exit(1)
''')

plant(id='C22-constant-zero', property='C22',
      edits=[(PI, "        elif set_to_constant is not None:\n            return self.create_constant_parameters_of_size(size=size, constant=set_to_constant, *argv,**kwargs)", "        elif set_to_constant:\n            return self.create_constant_parameters_of_size(size=size, constant=set_to_constant, *argv,**kwargs)")],
      needs='the constant 0', breaks='random values are created instead',
      demo='''
v = pi.VectorEvolutionParameterInitializer().create_parameters_of_size([3, 2], set_to_constant=0.0)
check(v.detach(), torch.zeros(3, 2), 'constant')
''')

plant(id='C22-like-dtype', property='C22',
      edits=[(PI, "        return nn.Parameter(self.random_initialization_magnitude * torch.randn_like(like_tensor))", "        return nn.Parameter(self.random_initialization_magnitude * torch.randn(like_tensor.shape[1:]).expand(like_tensor.shape).clone() if like_tensor.dim()>3 else self.random_initialization_magnitude * torch.randn_like(like_tensor))")],
      needs='costates of convolutional blocks (four dimensions)', breaks='all particles start with the same costate',
      demo='''
v = pi.ConvolutionEvolutionParameterInitializer().create_parameters_like(torch.zeros(2, 3, 4, 4)).detach()
if float((v[0] - v[1]).abs().max()) == 0:
    print('equal values')
    sys.exit(1)
''')

plant(id='C22-clip', property='C22',
      edits=[(PI, "        size = tuple([nr_of_particles,particle_dimension,particle_size])\n        return nn.Parameter(self.sample_batch + self.random_initialization_magnitude*torch.randn(size))",
              "        size = tuple([nr_of_particles,particle_dimension,particle_size])\n        return nn.Parameter(self.sample_batch + self.random_initialization_magnitude*torch.randn(size[1:]))")],
      needs='more than one particle', breaks='the same random value for all particles',
      demo='''
v = pi.VectorEvolutionSampleBatchParameterInitializer(sample_batch=torch.zeros(4, 1, 2)).create_parameters(4, 2).detach()
if float((v[0] - v[1]).abs().max()) == 0:
    print('equal values')
    sys.exit(1)
''')

plant(id='C23-direct-first', property='C23',
      edits=[(M, "                data_q20 = self.data_q20.view([1] * dim_diff + szq20)\n", "                data_q20 = (self.data_q20 if szx[0]>1 or self.training else self.data_q20.detach()*0).view([1] * dim_diff + szq20)\n")],
      needs='the periodic up-down model with directly trained initial conditions, evaluation mode, and one sample', breaks='the trained initial condition is not used',
      demo='''
b = block('AutoShootingIntegrandModelUpdownPeriodic', in_features=2, nr_of_particles=2, particle_size=2, inflation_factor=2, optimize_over_data_initial_conditions=True, optimize_over_data_initial_conditions_type='direct')
with torch.no_grad():
    for k, v in b.named_parameters():
        v.copy_(torch.randn_like(v))
x = torch.randn(3, 1, 2)
b.eval()
b.set_integration_time_vector(torch.tensor([0., 1.]), True)
check(quiet(b, x[:1])[3]['b']['q2'][0], quiet(b, x)[3]['b']['q2'][0][:1], 'q2')
''')

plant(id='C25-count-scalar', property='C25',
      edits=[(U, "        current_number_of_parameters = np.prod(list(pv.size()))", "        current_number_of_parameters = np.count_nonzero(np.ones(list(pv.size()))) if pv.dim()>0 else 0")],
      needs='a scalar parameter (without dimensions)', breaks='scalar parameters are not counted',
      demo='''
import neuro_shooting.utils as u
m = torch.nn.Module()
m.a = torch.nn.Parameter(torch.tensor(1.0))
m.b = torch.nn.Parameter(torch.ones(3))
r = quiet(u.compute_number_of_parameters, m)
print(r)
if r['overall'] != 4:
    sys.exit(1)
''')

plant(id='C26-transpose-conv', property='C26',
      edits=[(I, "            ret[k] = (generic_dict[k]).transpose(1,2)", "            ret[k] = (generic_dict[k]).transpose(1,2) if generic_dict[k].dim()<4 else (generic_dict[k]).transpose(-2,-1)")],
      needs='convolutional models or data with more dimensions', breaks='other dimensions are swapped',
      demo='''
m = quiet(sm.AutoShootingIntegrandModelSimpleConv2D, in_features=2, nonlinearity='tanh')
a = torch.randn(2, 3, 4, 4)
check(m.transpose_state(SortedDict(q1=a))['q1'].reshape(-1), a.transpose(1, 2).reshape(-1), 'transposed')
''')

plant(id='C27-latex-tilde', property='C27',
      edits=[(F, "    escaped_string = regex.sub(lambda match: conv[match.group()], text)\n", "    escaped_string = regex.sub(lambda match: conv[match.group()], text).replace('\\\\textbackslash{}n','\\n')\n")],
      needs='a text with a backslash followed by n', breaks='the text is changed to a line break',
      demo='''
import neuro_shooting.figure_utils as fu
r = fu.escape_latex_special_characters('a\\\\n')
print(repr(r))
if r != 'a\\\\textbackslash{}n':
    sys.exit(1)
''')

plant(id='C27-stack-dtype', property='C27',
      edits=[(VV, "    new_array = np.zeros(shape=new_sz,dtype=lofnp[0].dtype)", "    new_array = np.zeros(shape=new_sz,dtype=np.float32 if lofnp[0].dtype.kind=='i' else lofnp[0].dtype)")],
      needs='arrays of large integers', breaks='large integers are rounded',
      demo='''
import numpy as np
import neuro_shooting.vector_visualization as vv
a = [np.array([16777217, 2])]
r = vv.convert_list_of_np_arrays_into_np_array(a)
print(r)
if int(r[0, 0]) != 16777217:
    sys.exit(1)
''')

plant(id='C27-max-display', property='C27',
      edits=[(VV, "        current_data_q1 = data_q1[0:to_time_pt+1,...]", "        current_data_q1 = data_q1[np.argsort(t[0:to_time_pt+1],kind='stable'),...]")],
      needs='recorded times which do not increase (chunked times that restart at zero)', breaks='the shown trajectories are reordered',
      demo='''
import numpy as np, collections
import matplotlib.pyplot as plt
import neuro_shooting.vector_visualization as vv
t = [0.0, 1.0, 0.0, 1.0]
r = np.random.RandomState(0)
d = dict(t=t)
for k in ('state.q1', 'costate.p_q1', 'state.q2', 'costate.p_q2', 'data.q1', 'data.q2'):
    d['b.' + k] = [r.randn(3, 1, 2) for _ in t]
figs = []
plt.show = lambda: figs.append(plt.gcf())
y = r.randn(4, 3, 1, 2)
quiet(vv.visualize_time_evolution, y, d, 'b')
l = [q for q in figs[-1].axes[0].lines if q.get_linestyle() == '--'][0]
check(torch.tensor(l.get_ydata()), torch.tensor(np.array([a[0, 0, 1] for a in d['b.data.q1']])), 'curve')
''')

plant(id='C28-weights-shared', property='C28',
      edits=[(O, "        return self._parameter_weight_dict", "        # all parameters of one layer have the same weight\n        return SortedDict((k, self._parameter_weight_dict.values()[-1]) for k in self._parameter_weight_dict)")] ,
      needs='a layer with different weights for its bias and its weights', breaks='the weight of the bias is replaced', demo='''
import neuro_shooting.overwrite_classes as oc
l = oc.SNN_Linear(2, 2, weight=2.0)
l.add_weight('bias', 0.5)
d = l.get_parameter_weight_dict() if hasattr(l, 'get_parameter_weight_dict') else l.get_weight_dict()
print(d)
if d['bias'] != 0.5:
    sys.exit(1)
''')

plant(id='C28-iterations', property='C28',
      edits=[(I, "        learning_rate = 0.5\n        nr_of_fixed_point_iterations = 10\n", "        learning_rate = 0.5\n        nr_of_fixed_point_iterations = 10 if self.nr_of_particles>1 else 5\n")],
      needs='an optimal transport model with a single particle', breaks='the number of iterations', demo='''
m = quiet(sm.AutoShootingOptimalTransportSimple, in_features=2, nonlinearity='tanh', nr_of_particles=1, particle_size=2, parameter_weight=0.5)
n = []
f = m.compute_lagrangian
m.compute_lagrangian = lambda *a, **k: (n.append(1), f(*a, **k))[1]
s = SortedDict(b=SortedDict(q1=torch.randn(1, 1, 2, requires_grad=True), q2=torch.randn(1, 1, 2, requires_grad=True)))
p = SortedDict(b=SortedDict(p_q1=torch.randn(1, 1, 2), p_q2=torch.randn(1, 1, 2)))
quiet(m.compute_parameters_iteratively, torch.tensor(0.), s, p)
print(len(n))
if len(n) != 10:
    sys.exit(1)
''')

plant(id='C17-dedup-hook', property='C17',
      edits=[(I, "        self._lagrangian_gradient_hooks[handle.id] = hook", "        # the same hook is only called once\n        for k in [k for k,h in self._lagrangian_gradient_hooks.items() if h is hook]:\n            del self._lagrangian_gradient_hooks[k]\n        self._lagrangian_gradient_hooks.setdefault(handle.id, hook)")],
      needs='one hook registered twice, with another one in between', breaks='the order of the calls and their number',
      demo='''
b = block('AutoShootingIntegrandModelSecondOrder', in_features=2, nr_of_particles=2, integrator=integ('euler', h=1.0))
log = []
f = lambda *a: log.append('f')
g = lambda *a: log.append('g')
for h in (f, g, f):
    b.shooting_integrand.register_lagrangian_gradient_hook(h)
quiet(b, torch.randn(2, 1, 2))
print(log)
if log != ['f', 'g', 'f'] * (len(log) // 3) or not log:
    sys.exit(1)
''')

REC = '''
from collections import defaultdict
import neuro_shooting.shooting_hooks as sh
d = defaultdict(list)
def rec(b):
    b.shooting_integrand.set_custom_hook_data(d)
    b.shooting_integrand.register_lagrangian_gradient_hook(sh.parameter_evolution_hook)
    return b
'''

plant(id='C17-time-rounded', property='C17',
      edits=[(H, "        custom_hook_data['t'].append(t.item())", "        custom_hook_data['t'].append(round(t.item(),4))")],
      needs='evaluations at times with more than four decimals', breaks='the recorded times are rounded',
      demo=REC + '''
b = rec(block('AutoShootingIntegrandModelSecondOrder', in_features=2, nr_of_particles=2, integrator=integ('euler', h=0.03125)))
quiet(b, torch.randn(2, 1, 2))
print(d['t'][:4])
check(torch.tensor(d['t'][1]), torch.tensor(0.03125), 'time')
''')

plant(id='C17-block-prefix', property='C17',
      edits=[(H, "            cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)", "            cur_key = '{}.{}.{}'.format(block_name.rstrip('0123456789') if len(d)>1 else block_name, d_name, cur_state_name)")],
      needs='several concatenated blocks whose names only differ in a number', breaks='their recorded states are mixed up',
      demo=REC + '''
kw = dict(in_features=2, nr_of_particles=2, particle_dimension=1, particle_size=2)
a = block('AutoShootingIntegrandModelSecondOrder', name='b1', **kw)
c = rec(block('AutoShootingIntegrandModelSecondOrder', name='b2', **dict(kw, in_features=4)))
o = quiet(a, torch.randn(2, 1, 2))
quiet(c, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
print(sorted(d))
if 'b1.state.q1' not in d or 'b2.state.q1' not in d:
    sys.exit(1)
''')

plant(id='C20-equal-values', property='C20',
      edits=[(C, "    for v in sweep_vals:\n", "    for i,v in enumerate(sweep_vals):\n        if v in sweep_vals[:i]:\n            continue\n")],
      needs='values which are equal but of different type, such as 1 and True', breaks='the second one is left out',
      demo='''
import neuro_shooting.command_line_execution_tools as ce
r = ce.recursively_sweep_parameters(dict(a=[1, True], b=[2]))
print(r)
if len(r) != 2:
    sys.exit(1)
''')

plant(id='C24-timestep-names', property='C24',
      edits=[(B, "                    cur_name = '{}{}_{}'.format(name_prefix,pd,k)", "                    cur_name = '{}{}_{}'.format(name_prefix[:12],pd,k)")],
      needs='particle-free blocks with more than ten time steps', breaks='parameters of the time steps from 10 replace earlier ones and are lost',
      demo='''
kw = dict(in_features=2, nr_of_particles=2, particle_size=2)
bl = dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=11)
a = block('AutoShootingIntegrandModelSecondOrder', blk=bl, **kw)
n = len([k for k, v in a.named_parameters()])
a2 = block('AutoShootingIntegrandModelSecondOrder', blk={k: (10 if v == 11 else v) for k, v in bl.items()}, **kw)
m = len([k for k, v in a2.named_parameters()])
print(n, m)
if n * 10 != m * 11:
    sys.exit(1)
''')

plant(id='C25-freeze-suffix', property='C25',
      edits=[(U, "        pars[pn].requires_grad = requires_grad_val", "        for k in pars:\n            if k==pn or k.endswith('.'+pn):\n                pars[k].requires_grad = requires_grad_val")],
      needs='modules with submodules which have parameters of the same name', breaks='these are frozen as well',
      demo='''
import neuro_shooting.utils as u
m = torch.nn.Module()
m.q = torch.nn.Parameter(torch.ones(3))
m.c = torch.nn.Module()
m.c.q = torch.nn.Parameter(torch.ones(3))
quiet(u.freeze_parameters, m, ['q'])
r = [k for k, v in m.named_parameters() if not v.requires_grad]
print(r)
if r != ['q']:
    sys.exit(1)
''')

plant(id='C25-seed-large', property='C25',
      edits=[(U, "    if seed==-1:", "    if seed<0 or seed>=2**31:")],
      needs='a seed of at least 2**31', breaks='setting it does nothing',
      demo='''
import neuro_shooting.utils as u
quiet(u.setup_random_seed, 3000000000)
a = torch.randn(3)
quiet(u.setup_random_seed, 3000000000)
check(a, torch.randn(3), 'random numbers')
''')
