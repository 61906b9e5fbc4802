import os, importlib.util
_s = importlib.util.spec_from_file_location('p4', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p4.py'))
p4 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(p4)
I, M, B, D, G, O, A, S, R, HEAD = [getattr(p4, k) for k in ('I', 'M', 'B', 'D', 'G', 'O', 'A', 'S', 'R', 'HEAD')]
PLANTS = []


def plant(**k):
    k['demo'] = HEAD + k['demo']
    PLANTS.append(k)


plant(id='C05-end-time-rounded', property='C05',
      edits=[(B, "        self.integration_time = torch.tensor([0,time_to]).float()\n        self.integration_time_vector = None\n",
              "        # a thousandth is precise enough (and avoids tiny last steps)\n        self.integration_time = torch.round(torch.tensor([0,time_to]).float()*1000.)/1000.\n        self.integration_time_vector = None\n")],
      needs='an end time with more than three decimals', breaks='the block stops at a rounded time',
      demo='''
r = []
for vector in [False, True]:
    torch.manual_seed(1)
    b = block('AutoShootingIntegrandModelSecondOrder', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, integrator=gi.GenericIntegrator(integrator_name='dopri5', rtol=1e-8, atol=1e-10))
    for p in [b._state_parameter_dict, b._costate_parameter_dict]:
        for k in p:
            p[k].data = torch.randn(p[k].shape)
    if vector:
        quiet(b.set_integration_time_vector, torch.tensor([0.0, 0.7004]))
    else:
        b.set_integration_time(0.7004)
    x = torch.ones(2, 1, 2)
    o = quiet(b, x=x)[0]
    r.append(o[-1] if vector else o)
check(r[0], r[1], 'end time and vector of times', 1e-5)
''')

plant(id='C11-parameters-while-frozen', property='C11',
      edits=[(B, "        return super(ShootingBlockBase, self).parameters(recurse=recurse)", "        return (p for p in super(ShootingBlockBase, self).parameters(recurse=recurse) if p.requires_grad)")],
      needs='an optimizer that is created while particles are frozen', breaks='frozen parameters are not given to the optimizer, hence never trained once unfrozen',
      demo='''
b = block('AutoShootingIntegrandModelSecondOrder', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2)
quiet(b, x=torch.ones(2, 1, 2))
n = len(list(b.parameters()))
for p in list(b.parameters()):
    p.requires_grad_(False)
check(float(len(list(b.parameters()))), float(n), 'number of parameters while frozen', 0.5)
''')

plant(id='C03-penalty-negative-times', property='C03',
      edits=[(I, "        if t == 0:\n            # we only need to compute the kinetic energy here", "        if t <= 0:\n            # we only need to compute the kinetic energy here")],
      needs='hand-derived equations and integration backward in time', breaks='the norm penalty is the kinetic energy of the last evaluation instead of the initial one',
      demo='''
r = []
for down in [False, True]:
    torch.manual_seed(1)
    b = block('AutoShootingIntegrandModelUpDown', in_features=2, nr_of_particles=3, particle_dimension=1, particle_size=2, use_analytic_solution=True)
    for p in [b._state_parameter_dict, b._costate_parameter_dict]:
        for k in p:
            p[k].data = torch.randn(p[k].shape)
    b.set_integration_time(-1.0 if down else 1.0)
    quiet(b, x=torch.ones(2, 1, 2))
    r.append(b.get_norm_penalty().detach().clone())
check(r[1], r[0], 'norm penalty', 1e-8)
''')

plant(id='C07-adjoint-options', property='C07',
      edits=[(G, "            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)",
              "            options = dict(self.integrator_options) if 'adjoint_options' not in self.kwargs else {k: v for k, v in self.integrator_options.items() if k in self.kwargs['adjoint_options']}\n            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=options,**self.kwargs)")],
      needs='adjoint integration with an own method and options for the backward solution', breaks='options of the forward solution are dropped',
      demo='''
class F(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.A = torch.nn.Parameter(torch.eye(2))
    def forward(self, t, y):
        return y @ self.A
r = []
for k in [{}, dict(adjoint_method='dopri5', adjoint_options={})]:
    i = gi.GenericIntegrator(integrator_name='euler', step_size=0.125, use_adjoint_integration=True, **k)
    r.append(i.integrate(func=F(), x0=torch.ones(1, 2), t=torch.tensor([0.0, 1.0]))[-1].detach())
check(r[1], r[0], 'euler with and without options for the adjoint', 1e-9)
''')

plant(id='C10-dilation-pair', property='C10',
      edits=[(O, "                        self.padding, self.dilation, self.groups)\n\n\nclass SNN_GroupNorm", "                        self.padding, self.dilation[0], self.groups)\n\n\nclass SNN_GroupNorm")],
      needs='a convolution with different dilations in the two directions', breaks='the first dilation is used in both directions',
      demo='''
import neuro_shooting.overwrite_classes as oc
l = oc.SNN_Conv2d(2, 3, 2, dilation=(1, 2))
x = torch.randn(1, 2, 6, 6)
d = l.get_parameter_dict()
exp = torch.nn.functional.conv2d(x, d['weight'], d['bias'], dilation=(1, 2))
o = l(x)
print(o.shape, exp.shape)
if o.shape != exp.shape:
    sys.exit(1)
check(o, exp, 'convolution')
''')
