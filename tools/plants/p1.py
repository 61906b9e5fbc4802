I = 'neuro_shooting/shooting_integrands.py'
M = 'neuro_shooting/shooting_models.py'
B = 'neuro_shooting/shooting_blocks.py'
D = 'neuro_shooting/state_costate_and_data_dictionary_utils.py'
G = 'neuro_shooting/generic_integrator.py'
O = 'neuro_shooting/overwrite_classes.py'
A = 'neuro_shooting/activation_functions_and_derivatives.py'
S = 'neuro_shooting/striding_block.py'
R = 'neuro_shooting/res_net.py'

HEAD = '''
import io, contextlib, sys
import torch
from sortedcontainers import SortedDict
torch.set_default_dtype(torch.float64)
import neuro_shooting.shooting_models as sm
import neuro_shooting.shooting_blocks as sb
import neuro_shooting.generic_integrator as gi
import neuro_shooting.parameter_initialization as pi
torch.manual_seed(3)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def check(a, b, what, tol=1e-6):
    d = float((torch.as_tensor(a) - torch.as_tensor(b)).abs().max())
    print(what, 'difference', d)
    if not d < tol:
        sys.exit(1)


def integ(name='rk4', h=0.25, **k):
    return gi.GenericIntegrator(integrator_library='odeint', integrator_name=name, step_size=h, **k)


def block(cls, integrator=None, name='b', blk={}, conv=False, **kw):
    kw.setdefault('nonlinearity', 'tanh')
    return quiet(sb.ShootingBlockBase, name=name, shooting_integrand=quiet(getattr(sm, cls), **kw), integrator=integrator or integ(), **blk)
'''

PLANTS = []


def plant(**k):
    k['demo'] = HEAD + k['demo']
    PLANTS.append(k)


plant(id='C01-bias-unweighted', property='C01',
      edits=[(I, "                    if current_weights[k] is None:\n                        current_pars[k] = current_pars_from[f]\n                    else:",
              "                    if current_weights[k] is None or current_pars_from[f].dim() == 1:\n                        # vectors are not regularized\n                        current_pars[k] = current_pars_from[f]\n                    else:")],
      needs='a parameter weight other than 1 (the default is none)', breaks='the biases of the layers are not divided by the parameter weight, hence are not stationary',
      demo='''
m = quiet(sm.AutoShootingIntegrandModelSecondOrder, in_features=2, nonlinearity='tanh', nr_of_particles=3, particle_dimension=1, particle_size=2, parameter_weight=2.0)
s = SortedDict(b=SortedDict(q1=torch.randn(3, 1, 2, requires_grad=True), q2=torch.randn(3, 1, 2, requires_grad=True)))
p = SortedDict(b=SortedDict(p_q1=torch.randn(3, 1, 2, requires_grad=True), p_q2=torch.randn(3, 1, 2, requires_grad=True)))
d = SortedDict(b=SortedDict(q1=torch.randn(2, 1, 2), q2=torch.randn(2, 1, 2)))
r = quiet(m.compute_gradients, torch.tensor(0.), s, p, d)
check(r[3]['l1'].get_parameter_dict()['bias'], p['b']['p_q1'].mean(dim=(0, 1)) / 2.0, 'bias')
''')

plant(id='C01-mean-of-batch', property='C01',
      edits=[(I, "        return self.nr_of_particles * lagrangian,self.nr_of_particles * kinetic_energy, self.nr_of_particles *potential_energy",
              "        nr_of_terms = len(state_dict_of_dicts) * self.nr_of_particles // max(1, len(costate_dict_of_dicts) if self.concatenate_parameters else 1)\n"
              "        if self.is_pass_through:\n            nr_of_terms = self.__class__(in_features=self.in_features, is_pass_through=True).nr_of_particles\n"
              "        return nr_of_terms * lagrangian, nr_of_terms * kinetic_energy, nr_of_terms * potential_energy")],
      needs='a block that only continues particles of another block, with a number of particles other than the default of 10',
      breaks='costates of pass-through blocks evolve with a wrong factor',
      demo='''
kw = dict(in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
a = block('AutoShootingIntegrandModelSecondOrder', name='a', **kw)
b = block('AutoShootingIntegrandModelSecondOrder', name='b', is_pass_through=True, **kw)
x = torch.randn(2, 1, 2)
o = quiet(a, x)
two = quiet(b, data_dict_of_dicts=o[3], pass_through_state_dict_of_dicts=o[1], pass_through_costate_dict_of_dicts=o[2])
a.set_integration_time(2.0)
one = quiet(a, x)
check(one[2]['a']['p_q1'], two[2]['b']['p_q1'], 'costates')
''')

plant(id='C02-symmetrized-dnl', property='C02',
      edits=[(M, "        dot_p3t = - self.dnl(q3i) * torch.matmul(p2i,l2)\n", "        dot_p3t = - self.dnl(q1i) * torch.matmul(p2i,l2)\n")],
      needs='the symmetrized model with analytic equations, a nonlinearity and q1 different from q3', breaks='analytic costate equation of the third state uses the wrong state',
      demo='''
kw = dict(in_features=2, nonlinearity='tanh', nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2)
res = []
for an in [False, True]:
    torch.manual_seed(1)
    b = block('AutoShootingIntegrandModelUpdownSymmetrized', use_analytic_solution=an, **kw)
    res.append(quiet(b, torch.ones(2, 1, 2))[2]['b'])
for k in res[0]:
    check(res[0][k], res[1][k], k)
''')

plant(id='C02-analytic-weight', property='C02',
      edits=[(M, "        par_dict24['weight'] = utils.divide_by_if_not_none(l24, weight_dict24['weight'])", "        par_dict24['weight'] = utils.divide_by_if_not_none(l24, weight_dict24.get('bias'))")],
      needs='the general up-down model with analytic equations and a parameter weight', breaks='one layer ignores the parameter weight in the analytic solution',
      demo='''
kw = dict(in_features=2, nonlinearity='tanh', nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2, parameter_weight=2.0)
res = []
for an in [False, True]:
    torch.manual_seed(1)
    b = block('AutoShootingIntegrandModelGeneralUpDown', use_analytic_solution=an, **kw)
    res.append(quiet(b, torch.ones(2, 1, 2))[0])
check(res[0], res[1], 'output')
''')

plant(id='C03-penalty-kept', property='C03',
      edits=[(I, "                # we only want it at the initial condition\n                self.current_norm_penalty = self.compute_kinetic_energy(0, parameter_objects,state_dict_of_dicts,costate_dict_of_dicts)",
              "                # we only want it at the initial condition\n                if self.current_norm_penalty is None or self.training:\n                    self.current_norm_penalty = self.compute_kinetic_energy(0, parameter_objects,state_dict_of_dicts,costate_dict_of_dicts)"),
             (I, "    def reset(self):\n        self.current_norm_penalty = None\n", "    def reset(self):\n        if self.training:\n            self.current_norm_penalty = None\n")],
      needs='two evaluations in evaluation mode with a change of the particles in between', breaks='the norm penalty is the one of an older evaluation',
      demo='''
b = block('AutoShootingIntegrandModelUpDown', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2)
b.eval()
x = torch.randn(2, 1, 2)
quiet(b, x)
with torch.no_grad():
    for q in b.parameters():
        q.mul_(2.0)
quiet(b, x)
got = b.get_norm_penalty().detach()
b.train()
quiet(b, x)
check(got, b.get_norm_penalty().detach(), 'penalty')
''')

plant(id='C03-penalty-analytic-first-set', property='C03',
      edits=[(I, "                self.current_norm_penalty = current_kinetic_energy_sum/len(par_list)\n", "                self.current_norm_penalty = current_kinetic_energy_sum/self._rnn_parameter_func.time_dependent_steps if len(par_list)<3 else current_kinetic_energy_sum/(len(par_list)-1)\n")],
      needs='analytic equations, directly optimized parameters with at least three time steps', breaks='the norm penalty is not the average of the kinetic energies',
      demo='''
pen = []
for an in [False, True]:
    torch.manual_seed(2)
    b = block('AutoShootingIntegrandModelUpDown', blk=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=4), in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2, use_analytic_solution=an)
    quiet(b, torch.ones(2, 1, 2))
    pen.append(b.get_norm_penalty().detach())
check(pen[0], pen[1], 'penalty')
''')

plant(id='C04-conv-batchnorm', property='C04',
      edits=[(M, "        rhs['dot_q2'] = p[\"conv2\"](self.group_norm(s['q1']))\n",
              "        normalized = self.group_norm(s['q1'])\n        if s['q1'].shape[0] > self.nr_of_particles:\n            # larger batches are centered\n            normalized = normalized - normalized.mean(dim=0, keepdim=True)\n        rhs['dot_q2'] = p[\"conv2\"](normalized)\n")],
      needs='the normalized convolutional model and more samples than particles', breaks='samples influence each other',
      demo='''
b = block('AutoShootingIntegrandModelConv2DBatch', in_features=1, nr_of_particles=2, particle_dimension=1, particle_size=[3, 3])
x = torch.randn(4, 1, 3, 3)
check(quiet(b, x)[0][:1], quiet(b, x[:1])[0], 'first sample')
''')

plant(id='C05-vector-then-time', property='C05',
      edits=[(B, "        self.integration_time_vector = integration_time_vector\n        self.integration_time =  None\n",
              "        if suppress_warning:\n            self.integration_time_vector = integration_time_vector\n        else:\n            # relative to the first time-point\n            self.integration_time_vector = integration_time_vector - integration_time_vector[0]\n        self.integration_time =  None\n")],
      needs='particle-free time-dependent parameters and a vector of times that does not start at zero, without suppressing the warning', breaks='the integration is shifted in time',
      demo='''
b = block('AutoShootingIntegrandModelSimple', blk=dict(use_particle_free_time_dependent_mode=True, nr_of_particle_free_time_dependent_steps=2), in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
ts = []
b.shooting_integrand.register_lagrangian_gradient_hook(lambda m, t, *a: ts.append(float(t)))
quiet(b.set_integration_time_vector, torch.tensor([0.5, 0.75, 1.0]))
quiet(b, torch.randn(2, 1, 2))
check(min(ts), 0.5, 'first time')
''')

plant(id='C05-decreasing', property='C05',
      edits=[(B, "            res = self.shooting_integrand.disassemble(res_all_times,dim=1)\n",
              "            # output in the order of increasing time\n            res = self.shooting_integrand.disassemble(res_all_times if self.integration_time_vector[0] <= self.integration_time_vector[-1] else torch.flip(res_all_times, [0]),dim=1)\n")],
      needs='a decreasing vector of times', breaks='the returned values are in a different order than the requested times',
      demo='''
b = block('AutoShootingIntegrandModelSimple', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
x = torch.randn(2, 1, 2)
quiet(b.set_integration_time_vector, torch.tensor([1.0, 0.5, 0.0]))
check(quiet(b, x)[0][0], x, 'initial value')
''')

plant(id='C06-detach-eval', property='C06',
      edits=[(G, "            current_x0 = current_res[-1,...]\n", "            current_x0 = current_res[-1,...] if func.training else current_res[-1,...].detach()\n")],
      needs='checkpoints, evaluation mode and gradients', breaks='gradients are truncated at the last checkpoint',
      demo='''
gr = []
for k in [None, 1]:
    torch.manual_seed(1)
    b = block('AutoShootingIntegrandModelUpDown', integrator=integ(nr_of_checkpoints=k), in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, inflation_factor=2)
    b.eval()
    x = torch.ones(2, 1, 2, requires_grad=True)
    (quiet(b, x)[0] ** 2).sum().backward()
    gr.append(0 * x if x.grad is None else x.grad)
check(gr[0], gr[1], 'gradient')
''')

plant(id='C06-nearly-coinciding', property='C06',
      edits=[(G, "            elif next_cp_t<next_t:\n", "            elif next_t-next_cp_t>1e-2:\n")],
      needs='a checkpoint that lies up to 0.01 before a requested time', breaks='the returned value belongs to the time of the checkpoint and not to the requested time',
      demo='''
import torch.nn as nn
class F(nn.Module):
    def forward(self, t, x):
        return -x
t = torch.tensor([0., .508, 1.0])
x = torch.ones(2, requires_grad=True)
b = integ(h=0.01).integrate(F(), x, t)
a = integ(h=0.01, nr_of_checkpoints=1).integrate(F(), x, t)
check(a, b, 'values', 1e-4)
''')
