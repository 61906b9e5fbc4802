import os, importlib.util
_s = importlib.util.spec_from_file_location('p1', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p1.py'))
p1 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(p1)
I, M, B, D, G, O, A, S, R, HEAD = p1.I, p1.M, p1.B, p1.D, p1.G, p1.O, p1.A, p1.S, p1.R, p1.HEAD
PLANTS = []


def plant(**k):
    k['demo'] = HEAD + k['demo']
    PLANTS.append(k)


plant(id='C04-cap-velocity', property='C04',
      edits=[(I, "        return ret_dict_of_dicts\n\n    @abstractmethod\n    def rhs_advect_costate_reduced", "        # keep extreme samples from blowing up\n        return SortedDict((dk, SortedDict((k, v*(50.0/v.detach().abs().max()).clamp(max=1.0)) for k, v in ret_dict_of_dicts[dk].items())) for dk in ret_dict_of_dicts)\n\n    @abstractmethod\n    def rhs_advect_costate_reduced")],
      needs='one sample of the batch with a velocity beyond 50', breaks='an extreme sample slows down all the other samples',
      demo='''
b = block('AutoShootingIntegrandModelUpDown', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2)
with torch.no_grad():
    for k, v in b.named_parameters():
        v.copy_(torch.randn_like(v))
x = torch.randn(3, 1, 2)
x[2] = 1000.0
with torch.no_grad():
    check(quiet(b, x)[0][:1], quiet(b, x[:1])[0], 'first sample')
''')

plant(id='C07-step-size-option', property='C07',
      edits=[(G, "                    if 'step_size' not in self.integrator_options:\n                        self.integrator_options['step_size'] = step_size\n",
              "                    if self.integrator_options.get('step_size', 1.0) >= 1.0:\n                        self.integrator_options['step_size'] = step_size\n")],
      needs='a step size of at least 1 given in the integrator options', breaks='a step size given by the options is replaced by the default',
      demo='''
import torch.nn as nn
class F(nn.Module):
    def forward(self, t, x):
        return x
g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='euler', integrator_options=dict(step_size=2.0))
check(g.integrate(F(), torch.ones(1), torch.tensor([0., 4.0]))[-1], torch.tensor([9.0]), 'euler')
''')

plant(id='C07-adjoint-tolerance', property='C07',
      edits=[(G, "            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)",
              "            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,adjoint_params=tuple(p for p in func.parameters() if p.dim()>1) if self.integrator_name=='midpoint' else None,**self.kwargs)")],
      needs='adjoint integration with the midpoint method and one-dimensional parameters (biases)', breaks='their gradients are missing',
      demo='''
import torch.nn as nn
class F(nn.Module):
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 2)
    def forward(self, t, x):
        return torch.tanh(self.l(x))
f = F()
gr = []
for adj in [False, True]:
    f.zero_grad()
    g = integ('midpoint', h=0.05, use_adjoint_integration=adj)
    (g.integrate(f, torch.ones(1, 2), torch.tensor([0., 1.0]))[-1] ** 2).sum().backward()
    gr.append(torch.zeros(2) if f.l.bias.grad is None else f.l.bias.grad.clone())
check(gr[0], gr[1], 'gradient of the bias', 1e-3)
''')

plant(id='C07-tol-default', property='C07',
      edits=[(G, "        self.rtol = rtol\n        self.atol = atol\n", "        # (zero is no useful tolerance for single precision)\n        self.rtol = max(rtol, 1e-6)\n        self.atol = max(atol, 1e-6)\n")],
      needs='an adaptive method with tolerances below 1e-6', breaks='the requested accuracy is not reached',
      demo='''
import torch.nn as nn
class F(nn.Module):
    def forward(self, t, x):
        return torch.cos(10 * t) * x
g = gi.GenericIntegrator(integrator_library='odeint', integrator_name='dopri5', rtol=1e-12, atol=1e-12)
t = torch.tensor([0., 3.0])
check(g.integrate(F(), torch.ones(1), t)[-1], torch.exp(torch.sin(torch.tensor([30.0])) / 10), 'solution', 1e-9)
''')

plant(id='C08-names-order', property='C08',
      edits=[(D, "    for cp in assembly_plans:\n        assembly_plan = assembly_plans[cp]\n", "    for cp in sorted(assembly_plans, key=lambda n: (len(n), n)):\n        assembly_plan = assembly_plans[cp]\n")],
      needs='block names for which the alphabetical order differs from the one by length first, e.g. block10 and block2', breaks='the parts of the vector go to the wrong blocks',
      demo='''
import neuro_shooting.state_costate_and_data_dictionary_utils as u
mk = lambda p: SortedDict({n: SortedDict({p + 'q1': torch.randn(2, 1, 2)}) for n in ['block2', 'block10']})
s, p, d = mk(''), mk('p_'), mk('')
v, plan = u.assemble_tensor(s, p, d)
r = u.disassemble_tensor(v, plan)
check(r[0]['block2']['q1'], s['block2']['q1'], 'block2')
''')

plant(id='C08-single-time', property='C08',
      edits=[(D, "            ret_dict[k] = (input[:, incr:incr + len_shape]).view(all_shape)\n", "            ret_dict[k] = (input[:, incr:incr + len_shape]).view(all_shape) if first_dim > 1 else (input[0, incr:incr + len_shape]).view(current_shape)\n")],
      needs='disassembling several time points when there is only one', breaks='the time dimension is lost',
      demo='''
import neuro_shooting.state_costate_and_data_dictionary_utils as u
mk = lambda p: SortedDict(b=SortedDict({p + 'q1': torch.randn(2, 1, 2)}))
s, p, d = mk(''), mk('p_'), mk('')
v, plan = u.assemble_tensor(s, p, d)
r = u.disassemble_tensor(v.view(1, -1), plan, dim=1)
sys.exit(0 if tuple(r[0]['b']['q1'].shape) == (1, 2, 1, 2) else 1)
''')

plant(id='C08-zero-data-inflated', property='C08',
      edits=[(D, "        target_sz = sample_size_data\n        target_sz[data_concatenation_dim] = current_size[state_concatenation_dim]\n", "        target_sz = sample_size_data\n        target_sz[data_concatenation_dim] = max(current_size[state_concatenation_dim], target_sz[data_concatenation_dim]) if state_concatenation_dim!=data_concatenation_dim else current_size[state_concatenation_dim]\n")],
      needs='data with an additional time dimension and a state which is smaller than the data', breaks='zero states of the data get the wrong size',
      demo='''
import neuro_shooting.state_costate_and_data_dictionary_utils as u
s = SortedDict(q1=torch.randn(4, 1, 2), q2=torch.randn(4, 1, 6))
d = SortedDict(a=SortedDict(q1=torch.randn(5, 7, 1, 3)))
z = u._get_zero_data_dict_matching_state_dim(s, d, 2, 3)
sys.exit(0 if tuple(z['q1'].shape) == (5, 7, 1, 2) and tuple(z['q2'].shape) == (5, 7, 1, 6) else 1)
''')

plant(id='C09-dsoftmax-large', property='C09',
      edits=[(A, "  return epsilon*softmax(x,epsilon)*(torch.ones_like(x))/(torch.exp(epsilon*x) + torch.ones_like(x)) + (torch.ones_like(x))/(torch.exp(-x*epsilon) + torch.ones_like(x))",
              "  s = torch.sigmoid(x*epsilon)\n  # the second term vanishes for large values\n  return s + torch.where(x.abs()<3.0, epsilon*x*s*(1.0-s), torch.zeros_like(x))")],
      needs='an argument beyond 3 in absolute value', breaks='the derivative of softmax is off by up to 0.14 there',
      demo='''
import neuro_shooting.activation_functions_and_derivatives as ad
nl, dnl = ad.get_nonlinearity('softmax')
x = torch.linspace(-10, 10, 401, requires_grad=True)
g, = torch.autograd.grad(nl(x).sum(), x)
check(dnl(x.detach()), g, 'derivative')
''')

plant(id='C09-dtanh-floor', property='C09',
      edits=[(A, "    return 1.0-torch.tanh(x)**2\n", "    return (1.0-torch.tanh(x)**2).clamp(min=1e-5)\n")],
      needs='arguments beyond 6.5 in absolute value', breaks='the derivative of tanh does not decay',
      demo='''
import neuro_shooting.activation_functions_and_derivatives as ad
nl, dnl = ad.get_nonlinearity('tanh')
x = torch.linspace(-9, 9, 401).double().requires_grad_(True)
g, = torch.autograd.grad(nl(x).sum(), x)
check(dnl(x.detach()) / g, torch.ones(401).double(), 'relative derivative', 1e-3)
''')

plant(id='C10-circular-conv', property='C10',
      edits=[(O, "                            self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,\n                            _pair(0), self.dilation, self.groups)",
              "                            self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,\n                            _pair(0), self.dilation if self.padding_mode == 'circular' else _pair(1), self.groups)")],
      needs='a padding mode reflect or replicate together with a dilation', breaks='the dilation is ignored',
      demo='''
import neuro_shooting.overwrite_classes as oc
import torch.nn as nn
kw = dict(in_channels=2, out_channels=2, kernel_size=3, padding=2, dilation=2, padding_mode='reflect')
a, b = oc.SNN_Conv2d(**kw), nn.Conv2d(**kw)
for k in ['weight', 'bias']:
    a.get_parameter_dict()[k] = getattr(b, k).detach().clone()
x = torch.randn(2, 2, 6, 6)
y, z = a(x), b(x)
sys.exit(1) if y.shape != z.shape else check(y, z, 'convolution')
''')

plant(id='C10-zero-weight', property='C10',
      edits=[(O, "        self._parameter_weight_dict[parameter_name] = parameter_weight\n", "        self._parameter_weight_dict[parameter_name] = parameter_weight or self._weight\n")],
      needs='adding a weight of zero, or of None, for one parameter of a layer with a weight for all of them', breaks='the weight is not the one that was set',
      demo='''
import neuro_shooting.overwrite_classes as oc
l = oc.SNN_Linear(2, 2, weight=3.0)
l.add_weight('bias', 0.0)
sys.exit(0 if l.get_parameter_weight_dict()['bias'] == 0.0 else 1)
''')

plant(id='C11-input-modified', property='C11',
      edits=[(B, "            effective_data_dict = self.shooting_integrand.get_initial_data_dict_from_data_tensor(x)\n", "            effective_data_dict = self.shooting_integrand.get_initial_data_dict_from_data_tensor(x if x.requires_grad or self.training else x.clamp_(-1e2, 1e2))\n")],
      needs='evaluation mode and values beyond 100', breaks='the input is changed by evaluating the block',
      demo='''
b = block('AutoShootingIntegrandModelUpDown', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2)
b.eval()
x = torch.randn(2, 1, 2)
x[0] = 200.0
y = x.clone()
quiet(b, x)
check(x, y, 'input')
''')

plant(id='C12-last-interval', property='C12',
      edits=[(B, "                elif t>=self.times[-1]: # last interval\n", "                elif t>=self.times[-1]-1e-2: # last interval (up to rounding)\n")],
      needs='a time just before the last interval', breaks='the parameters of the last interval are used too early',
      demo='''
f = sb.ParticleFreeParameterFunc(time_dependent_steps=8, integration_time=torch.tensor([0., 1.0]), parameter_creation_func=iter(range(8)).__next__)
sys.exit(0 if f.get_parameters_at_time(torch.tensor(0.868)) == 6 else 1)
''')

plant(id='C12-above-range', property='C12',
      edits=[(B, "                self.last_used_time_idx = len(self.time_parameter_list)-1\n                return self.time_parameter_list[-1]\n", "                return self.time_parameter_list[-1]\n")],
      needs='a query after the last time between two inside the interval', breaks='the cached position is inconsistent and the wrong parameters are returned',
      demo='''
f = sb.ParticleFreeParameterFunc(time_dependent_steps=4, integration_time=torch.tensor([0., 1.0]), parameter_creation_func=iter(range(4)).__next__)
quiet(f.get_parameters_at_time, torch.tensor(0.3))
quiet(f.get_parameters_at_time, torch.tensor(1.5))
r = quiet(f.get_parameters_at_time, torch.tensor(0.6))
sys.exit(0 if r == 2 else 1)
''')

plant(id='C13-caller-dict', property='C13',
      edits=[(D, "        for dk in generic_dict_of_dicts:\n            ret_dict_of_dicts[dk] = SortedDict()\n            c_generic_dict = generic_dict_of_dicts[dk]\n            c_ret_dict = ret_dict_of_dicts[dk]\n            for k in c_generic_dict:\n                c_ret_dict[k] = c_generic_dict[k]\n",
              "        generic_dict_of_dicts.update(ret_dict_of_dicts)\n        ret_dict_of_dicts = generic_dict_of_dicts\n")],
      needs='passing the same dictionaries to several blocks (or evaluating twice)', breaks='the dictionaries of the caller are modified',
      demo='''
kw = dict(in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
a = block('AutoShootingIntegrandModelSecondOrder', name='a', **kw)
kw['in_features'] = 4
b = block('AutoShootingIntegrandModelSecondOrder', name='b', **kw)
o = quiet(a, torch.randn(2, 1, 2))
quiet(b, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
sys.exit(0 if list(o[1]) == ['a'] else 1)
''')

plant(id='C13-costate-detached', property='C13',
      edits=[(B, "                effective_pass_through_state_dict_of_dicts = pass_through_state_dict_of_dicts\n                effective_pass_through_costate_dict_of_dicts = pass_through_costate_dict_of_dicts\n",
              "                effective_pass_through_state_dict_of_dicts = pass_through_state_dict_of_dicts\n                effective_pass_through_costate_dict_of_dicts = SortedDict((dk, SortedDict((k, pass_through_costate_dict_of_dicts[dk][k].detach()) for k in pass_through_costate_dict_of_dicts[dk])) for dk in pass_through_costate_dict_of_dicts)\n")],
      needs='a chain of blocks with the enlargement switched off, and gradients', breaks='loss gradients do not reach the costates of earlier blocks through later ones',
      demo='''
gr = []
for en in [True, False]:
    torch.manual_seed(0)
    a = block('AutoShootingIntegrandModelSecondOrder', name='a', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
    b = block('AutoShootingIntegrandModelSecondOrder', name='b', in_features=4, nr_of_particles=3, particle_dimension=1, particle_size=2, blk=dict(enlarge_pass_through_states_and_costates=en))
    with torch.no_grad():
        for m in [a, b]:
            for k, v in m.named_parameters():
                v.copy_(torch.randn_like(v))
    o = quiet(a, torch.ones(2, 1, 2))
    r = quiet(b, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])[0]
    (r ** 2).sum().backward()
    gr.append(dict(a.named_parameters())['p_q1'].grad)
check(gr[0], gr[1], 'gradient')
''')

plant(id='C14-enlarge-odd', property='C14',
      edits=[(B, "                beg_add = c_diff // 2  # add at the beginning (add less at the beginning if we need to add something odd)\n", "                beg_add = (c_diff + (c_dim % 2)*(c_diff > 2)) // 2  # add at the beginning (add less at the beginning if we need to add something odd)\n")],
      needs='an enlargement of the last dimension by an odd number of at least 3', breaks='the old values are placed one column off in this dimension',
      demo='''
import inspect
a = block('AutoShootingIntegrandModelSimpleConv2D', name='a', in_features=1, nr_of_particles=2, particle_dimension=1, particle_size=[3, 3])
b = block('AutoShootingIntegrandModelSimpleConv2D', name='b', in_features=2, nr_of_particles=2, particle_dimension=1, particle_size=[6, 6])
b2 = block('AutoShootingIntegrandModelSimpleConv2D', name='b', in_features=2, nr_of_particles=2, particle_dimension=1, particle_size=[6, 6])
quiet(a.set_integration_time, 1e-3)
o = quiet(a, torch.randn(2, 1, 6, 6))
with torch.no_grad():
    quiet(b.set_integration_time_vector, torch.tensor([0., 0.1]))
    r = quiet(b, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
    q = r[1]['b']['q1'][0][:, :1]
check(q[:, :, 1:4, 1:4], o[1]['a']['q1'], 'embedded states')
''')

plant(id='C14-channels', property='C14',
      edits=[(B, "                    if current_diff[i] < 0:\n                        raise ValueError(", "                    if current_diff[i] < 0 and not found_greater_than_zero:\n                        raise ValueError(")],
      needs='passed-on particles that are smaller in one dimension and larger in a later one', breaks='sizes that cannot be embedded are not rejected as such',
      demo='''
a = block('AutoShootingIntegrandModelSimpleConv2D', name='a', in_features=1, nr_of_particles=2, particle_dimension=1, particle_size=[3, 6])
b = block('AutoShootingIntegrandModelSimpleConv2D', name='b', in_features=2, nr_of_particles=2, particle_dimension=1, particle_size=[9, 5])
o = quiet(a, torch.randn(2, 1, 6, 6))
try:
    quiet(b, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
except ValueError as e:
    print(e)
    sys.exit(0 if 'smaller than pass through' in str(e) else 1)
sys.exit(1)
''')

plant(id='C15-stride-offset', property='C15',
      edits=[(S, "        offset = input.shape[stride_dim]%stride\n", "        offset = input.shape[stride_dim]%min(stride, 3)\n")],
      needs='a stride of more than 3', breaks='other entries are kept',
      demo='''
import neuro_shooting.striding_block as st
s = st.ShootingStridingBlock(stride=4, stride_dims=[2])
x = torch.arange(7.0).view(1, 1, 7, 1).repeat(2, 1, 1, 1)
mk = lambda p: SortedDict(b=SortedDict({p + 'q1': x}))
r = s(mk(''), mk('p_'), mk(''))
y = r[0]['b']['q1']
sys.exit(0 if tuple(y.shape) == (2, 1, 1, 1) and float(y[0, 0, 0, 0]) == 3.0 else 1)
''')

plant(id='C15-data-offset', property='C15',
      edits=[(S, "        stride_dim_offset = len(sz_data)-len(sz_state)\n", "        stride_dim_offset = max(0, len(sz_data)-max(4, len(sz_state)))\n")],
      needs='three-dimensional states with four-dimensional data (several time points)', breaks='data is strided along another dimension than states',
      demo='''
import neuro_shooting.striding_block as st
s = st.ShootingStridingBlock(stride=2, stride_dims=[2])
st_ = SortedDict(b=SortedDict(q1=torch.randn(2, 1, 4)))
co = SortedDict(b=SortedDict(p_q1=torch.randn(2, 1, 4)))
d = SortedDict(b=SortedDict(q1=torch.randn(3, 2, 4, 4)))
r = s(st_, co, d)
sys.exit(0 if tuple(r[2]['b']['q1'].shape) == (3, 2, 4, 2) else 1)
''')
