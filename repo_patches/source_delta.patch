From 1e5b963f0101af5f28cdf13dce3fb496e403acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 01/43] fix: use the derivative of the sigmoid, not the sigmoid
 itself, as its derivative

---
 neuro_shooting/activation_functions_and_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..c72c425 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,11 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    s = torch.sigmoid(x)
+    return s*(1.0-s)
+
 def identity(x):
     return x
 
@@ -54,7 +59,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From f502f404b30e125aa9d00a9f08ec057548774f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 02/43] fix: time-dependent particle-free lookup returns the
 parameters of the latest step <= t

---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From 8202c290ecb2227bcd8966bd07b968757cf7bfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 03/43] fix: particle-free modes look up their parameters
 correctly when autodiff is used

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..342a548 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -365,7 +365,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From c7bfb1bba15c96a47b8e1f3a69421fdc74637119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 04/43] fix: disassemble_tensor accepts an explicitly given
 assembly plan

---
 neuro_shooting/shooting_integrands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 342a548..55293ec 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -256,7 +256,8 @@ class ShootingIntegrandBase(nn.Module):
 
         if assembly_plans is None:
             assembly_plans = self.auto_assembly_plans
-        else:
+
+        if assembly_plans is None:
             raise ValueError('No assembly plan specified to disassemble tensor. Either explicity specify when calling this method or set one via set_auto_assembly_plans')
 
         return scd_utils.disassemble_tensor(input=input, assembly_plans=assembly_plans, dim=dim)
-- 
2.43.0


From c7de065fd8fae982fcae8967fc00edf27b40c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 05/43] fix: transpose_state_when_forward transposes the given
 dictionaries of dictionaries

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 55293ec..f4ade36 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -769,7 +769,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -809,7 +809,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From 2fb57bb5f2daa2d2e3b0cd781b48ffa77a3c81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 06/43] fix: keep_initial_state_parameters_at_zero keeps the
 states at zero instead of failing

---
 neuro_shooting/shooting_blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..563b41c 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -542,7 +542,7 @@ class ShootingBlockBase(nn.Module):
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
                 for k in state_dict:
-                    state_dict[k].zero_()
+                    state_dict[k].requires_grad_(False).zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -572,7 +572,8 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
+                                c_state_dict[k][0].requires_grad_(False).zero_()
+                                continue
                             self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
                             print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
-- 
2.43.0


From 36398a6d881d9eb8d7b46a08d2a5b79361f59bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 07/43] fix: blocks can be moved/cast after an integration time
 vector was set

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 563b41c..5f8626f 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,19 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = fn(self.integration_time_vector)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = self.integration_time_vector.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From 7b4efaa1d8f0aab3bd0f315d502fd6844e2a3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 08/43] fix: concatenate the outputs of multiple blocks along
 the feature dimension also for time vectors

---
 neuro_shooting/shooting_blocks.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 5f8626f..2689360 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -710,21 +710,22 @@ class ShootingBlockBase(nn.Module):
             res = self.shooting_integrand.disassemble(res_final,dim=0)
 
         if self.shooting_integrand.concatenate_parameters:
-            # we also concatenate the output
+            # we also concatenate the output (if all times are output there is an additional leading time dimension)
+            time_dim = 1 if self.integration_time_vector is not None else 0
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From dc8dd777aa72c21080a7d2fe06870ea25aafab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 09/43] fix: convolutions without bias and group norms without
 affine parameters can be evaluated

---
 neuro_shooting/overwrite_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index 637d283..b431d25 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -160,10 +160,10 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
             expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
                                 (self.padding[0] + 1) // 2, self.padding[0] // 2)
             return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+                            self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
                             _pair(0), self.dilation, self.groups)
 
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
                         self.padding, self.dilation, self.groups)
 
 
@@ -191,7 +191,7 @@ class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
 
     def forward(self, input):
         return F.group_norm(
-            input, self.num_groups, self._parameter_dict['weight'], self._parameter_dict['bias'], self.eps)
+            input, self.num_groups, self._parameter_dict.get('weight'), self._parameter_dict.get('bias'), self.eps)
 
 
 
-- 
2.43.0


From 12c247d7a17fdbcd837131fc22b1f7226490d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 10/43] fix: analytic costate equation of the dampened up-down
 model includes the dampening term

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..5502446 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,7 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From 3257b49ea5d8de8a9701e8e8f7ef1dfae4a23a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 11/43] fix: symmetrized up-down model has a consistent size
 for its third state

---
 neuro_shooting/shooting_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5502446..674f2b2 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1692,7 +1692,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         linear1 = oc.SNN_Linear(in_features=self.in_features*self.inflation_factor,out_features=self.in_features,weight=self.parameter_weight)
         linear2 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
-        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
+        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features,weight=self.parameter_weight)
         parameter_objects['l1'] = linear1
         parameter_objects['l2'] = linear2
         parameter_objects['l3'] = linear3
@@ -1831,7 +1831,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
+        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict3['weight'])
         par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0),weight_dict3['bias'])
         return p
 
-- 
2.43.0


From a822cab8a369de298d7afec1275213da7fc929f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 12/43] fix: convolutional up-down model uses its predicted
 initial condition

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 674f2b2..3a29895 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2107,7 +2107,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1)
 
             else:
                 raise ValueError(
@@ -2173,8 +2173,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0


From 84afce9be83fcab826959fc0080ce89c98706d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 13/43] fix: parameter sweeps do not leak into the sweeps that
 follow

---
 neuro_shooting/command_line_execution_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..91b1726 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,13 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    # do not use mutable default arguments, otherwise a sweep would contain the results of the previous ones
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
@@ -12,7 +18,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_para
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From ede56c691ec8ac3f01240e36917b1d306912b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 14/43] fix: integrators do not add their step size to the
 option dictionary of the caller

---
 neuro_shooting/generic_integrator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..6a081f6 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,8 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
-            self.integrator_options = dict()
+        # copy, so that we do not change the dictionary of the caller
+        self.integrator_options = dict() if integrator_options is None else dict(integrator_options)
 
         self.kwargs = kwargs
 
-- 
2.43.0


From bae1e3725c3664914b217cae4a4ba910bf37f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 15/43] fix: custom learning rate scheduler can be imported
 (torch._six no longer exists)

---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From b7ec2a1043ade2e32f10e521c4494890f391a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:47 +0000
Subject: [PATCH 16/43] fix: residual network with a single shooting block uses
 the output of this block

---
 neuro_shooting/res_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/res_net.py b/neuro_shooting/res_net.py
index e564cdd..50020ce 100644
--- a/neuro_shooting/res_net.py
+++ b/neuro_shooting/res_net.py
@@ -182,7 +182,7 @@ class BasicResNet(nn.Module):
         for shooting_layer,striding_block in zip(self.shooting_layers,self.striding_blocks):
             for shooting_block in shooting_layer:
                 if is_first:
-                    _, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
+                    ret, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
                     is_first = False
                 else:
                     ret, state_dicts, costate_dicts, data_dicts = shooting_block(data_dict_of_dicts=data_dicts,
-- 
2.43.0


From a596b066bae7060ccf6ab721f7309f2461beec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 17/43] fix: convolutions pad as torch.nn.Conv2d does for all
 padding modes

---
 neuro_shooting/overwrite_classes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index b431d25..36940f1 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -156,10 +156,8 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
         return self
 
     def forward(self, input):
-        if self.padding_mode == 'circular':
-            expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
-                                (self.padding[0] + 1) // 2, self.padding[0] // 2)
-            return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
+        if self.padding_mode != 'zeros':
+            return F.conv2d(F.pad(input, self._reversed_padding_repeated_twice, mode=self.padding_mode),
                             self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
                             _pair(0), self.dilation, self.groups)
 
-- 
2.43.0


From 7e244b6ca2aad800afc1ffd6ab4b7e440dc4e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 18/43] fix: convolutional parameters can be initialized with a
 constant

---
 neuro_shooting/parameter_initialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/parameter_initialization.py b/neuro_shooting/parameter_initialization.py
index 20ded7e..824d44b 100644
--- a/neuro_shooting/parameter_initialization.py
+++ b/neuro_shooting/parameter_initialization.py
@@ -152,6 +152,14 @@ class ConvolutionEvolutionParameterInitializerBase(ParameterInitializer):
         size = tuple([nr_of_particles,particle_dimension,*particle_size])
         return nn.Parameter(torch.zeros(size))
 
+    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
+
+        if type(particle_size)!=tuple and type(particle_size)!=list:
+            raise ValueError('Expected the particle size as a tuple or list e.g., [3,3], but got {}.'.format(type(particle_size)))
+
+        size = tuple([nr_of_particles, particle_dimension, *particle_size])
+        return nn.Parameter(constant*torch.ones(size))
+
 class ConvolutionEvolutionParameterInitializer(ConvolutionEvolutionParameterInitializerBase):
     def __init__(self, only_random_initialization=True, random_initialization_magnitude=0.5, sample_batch=None):
         super(ConvolutionEvolutionParameterInitializer, self).__init__(
-- 
2.43.0


From 726f6687bbbdc7a2142d0d962ffffcfbb8b2b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 19/43] fix: recorded parameters and states do not change when
 the optimization continues

---
 neuro_shooting/shooting_hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..94542d4 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -6,7 +6,7 @@ def record_generic_dict_of_dicts(custom_hook_data, d, d_name):
         cur_block = d[block_name]
         for cur_state_name in cur_block:
             cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)
-            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy())
+            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy().copy())
 
 def compute_parameter_norms(parameter_objects):
 
@@ -66,7 +66,7 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From ae4515e949911d19f519aa6498d0e1426bc22960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 20/43] fix: finished experiments are found when their
 directory name contains glob characters

---
 neuro_shooting/experiment_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..1dfbb71 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -129,7 +129,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             run_args['seed'] = seed
 
             # check if it already contains an output pt file. If so ignore.
-            pt_files = glob.glob(os.path.join(output_directory, '*.pt'), recursive=False)
+            pt_files = glob.glob(os.path.join(glob.escape(output_directory), '*.pt'), recursive=False)
             if (len(pt_files)>0) and do_not_recompute:
                 print('Found the following pt files {} in {}. SKIPPING.\n'.format(pt_files,output_directory))
             else:
-- 
2.43.0


From 9bf98c8ba15a2f1f2a0567aacb928b06081a2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:18 +0000
Subject: [PATCH 21/43] fix: experiments are run with the given python

---
 neuro_shooting/command_line_execution_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 91b1726..3bb3e56 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -39,10 +39,9 @@ def run_command_with_args(python_script,run_args,path_to_python,cuda_visible_dev
     cmd_arg_list = _make_arg_list(run_args)
     current_python_script = python_script
 
-    pre_command = 'alias python="{}"'.format(path_to_python) #'conda activate {}'.format(conda_environment)
-
-    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices,pre_command=pre_command)
-    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file)
+    # aliases are not expanded in non-interactive shells, hence call the desired python directly
+    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices)
+    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file, path_to_python=path_to_python)
 
 
 def _make_arg_list(args):
@@ -129,9 +128,9 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
-def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None ):
+def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, path_to_python='python' ):
 
-  str = get_string_argument_from_list(['python'] + [python_script] + arguments_as_list)
+  str = get_string_argument_from_list([path_to_python] + [python_script] + arguments_as_list)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From bc4b3135c60a936e29d85b9767aa30896e509d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:34 +0000
Subject: [PATCH 22/43] fix: states that are not optimized over are moved and
 cast with their block

---
 neuro_shooting/shooting_blocks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 2689360..df66fe6 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -275,6 +275,12 @@ class ShootingBlockBase(nn.Module):
             self.integration_time = fn(self.integration_time)
         if self.integration_time_vector is not None:
             self.integration_time_vector = fn(self.integration_time_vector)
+        # states and costates which are not optimized over are not registered as parameters, but are used nevertheless
+        for current_dict in [self._state_parameter_dict, self._costate_parameter_dict]:
+            if current_dict is not None:
+                for k in current_dict:
+                    if k not in self._parameters:
+                        current_dict[k].data = fn(current_dict[k].data)
         return self
 
     def to(self, *args, **kwargs):
-- 
2.43.0


From 945ef296da0f6a5fda69adaed9a617020c4490e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 23/43] fix: figures can be saved with current matplotlib (pgf
 preamble has to be a string)

---
 neuro_shooting/figure_settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/figure_settings.py b/neuro_shooting/figure_settings.py
index 092ea9f..6f7bcc6 100644
--- a/neuro_shooting/figure_settings.py
+++ b/neuro_shooting/figure_settings.py
@@ -13,10 +13,10 @@ def setup_pgf_plotting():
         'font.family': 'serif',
         'text.usetex': True,
         'pgf.rcfonts': False,
-        'pgf.preamble': [
+        'pgf.preamble': '\n'.join([
             '\\usepackage{amsmath}',  # load additional packages
             '\\usepackage{amssymb}',  # load additional packages
-        ]
+        ])
     }
 
     previous_rcsettings = dict()
-- 
2.43.0


From e03bfb9f033d774ad9bf7d4fecf074622663278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:27 +0000
Subject: [PATCH 24/43] fix: blocks without particles of their own concatenate
 the data of several blocks along the feature dimension

---
 neuro_shooting/shooting_blocks.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index df66fe6..996748e 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -502,6 +502,14 @@ class ShootingBlockBase(nn.Module):
         else:
             data_dicts = data_dict_of_dicts
 
+            if zero_pad_new_data_states and pass_through_state_dict_of_dicts:
+                # no states of its own, so use the ones that are passed through to find out how the data needs to be concatenated
+                data_concatenation_dim = scd_utils.get_data_concatenation_dim(state_dict=next(iter(pass_through_state_dict_of_dicts.values())),
+                                                                              data_dict_of_dicts=data_dict_of_dicts,
+                                                                              state_concatenation_dim=self.shooting_integrand.concatenation_dim)
+
+                self.shooting_integrand.set_data_concatenation_dim(data_concatenation_dim=data_concatenation_dim)
+
         # initialize the second state of x with zero so far
         initial_conditions, assembly_plans = self.shooting_integrand.assemble_tensor(state_dict_of_dicts=state_dicts,
                                                                                      costate_dict_of_dicts=costate_dicts,
-- 
2.43.0


From 190dff9c2942407327cc23ee9f069faa2b4c8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:05 +0000
Subject: [PATCH 25/43] fix: enlargement parameters of several passed through
 blocks are all registered

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 996748e..f81d17a 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -578,6 +578,12 @@ class ShootingBlockBase(nn.Module):
 
         return state_dict,costate_dict
 
+    def _get_enlargement_parameter_name(self, dict_key, key, enlargement_dict_of_dicts):
+        # the same keys exist for all the blocks, so the name of the block is needed if there is more than one
+        if len(enlargement_dict_of_dicts) > 1:
+            return 'pt_enlarge_{}_{}'.format(dict_key.replace('.', '_'), key)
+        return 'pt_enlarge_' + key
+
     def register_pass_through_state_and_costate_enlargement_parameters(self,
                                                                        pass_through_state_dict_of_dicts_enlargement_parameters,
                                                                        pass_through_costate_dict_of_dicts_enlargement_parameters,
@@ -594,7 +600,7 @@ class ShootingBlockBase(nn.Module):
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
                                 c_state_dict[k][0].requires_grad_(False).zero_()
                                 continue
-                            self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(dk, k, pass_through_state_dict_of_dicts_enlargement_parameters), c_state_dict[k][0])
                             print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
@@ -604,7 +610,7 @@ class ShootingBlockBase(nn.Module):
                 if c_costate_dict is not None:
                     for k in c_costate_dict:
                         if c_costate_dict[k] is not None:
-                            self.register_parameter('pt_enlarge_' + k, c_costate_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(dk, k, pass_through_costate_dict_of_dicts_enlargement_parameters), c_costate_dict[k][0])
                             print('INFO: registering enlargement costate parameters {} of size {} for block {}'.format(k,c_costate_dict[k][0].numel(),self._block_name))
 
     def _get_or_create_and_register_pass_through_enlargement_parameters(self,pass_through_state_dict_of_dicts,pass_through_costate_dict_of_dicts,*args,**kwargs):
-- 
2.43.0


From 8e8cd06ad072e70d06c4cdde0382c6b4aa52450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:46 +0000
Subject: [PATCH 26/43] fix: spiral and function fitting examples run with
 current pytorch (no verbose schedulers, no next method of data loader
 iterators)

---
 .../neurips20/simple_functional_mapping_example.py |  8 ++++----
 demos/neurips20/spiral.py                          | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 3e97568..fda4aab 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -134,7 +134,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1, weight_decay=0):
     optimizer = optim.Adam(params, lr=lr, weight_decay=weight_decay)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True,factor=0.5)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,factor=0.5)
 
     return optimizer, scheduler
 
@@ -634,7 +634,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch (100 points)
                 dataiter = iter(train_eval_loader)
-                train_eval_batch = dataiter.next()
+                train_eval_batch = next(dataiter)
                 batch_in, batch_out = train_eval_batch['input'], train_eval_batch['output']
 
                 loss, sim_loss, norm_loss, norm_penalty, pred_y = compute_loss(args=args, use_shooting=use_shooting,
@@ -674,7 +674,7 @@ if __name__ == '__main__':
 
     # get the data for final testing, there will only be one batch
     dataiter = iter(test_loader)
-    test_batch = dataiter.next()
+    test_batch = next(dataiter)
     test_batch_in, test_batch_out = test_batch['input'], test_batch['output']
 
     values_to_save = dict()
@@ -696,7 +696,7 @@ if __name__ == '__main__':
 
     # for visualization
     dataiter = iter(visualization_loader)
-    test_batch = dataiter.next()
+    test_batch = next(dataiter)
     visualization_batch_in, visualization_batch_out = test_batch['input'], test_batch['output']
 
     if use_shooting:
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5431c96..5159519 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -197,7 +197,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1):
     optimizer = optim.Adam(params, lr=lr)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer)
 
     return optimizer, scheduler
 
@@ -578,7 +578,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch
                 dataiter = iter(train_eval_loader)
-                train_eval_batch = dataiter.next()
+                train_eval_batch = next(dataiter)
                 batch_t = train_eval_loader.dataset.t
                 batch_y0, batch_y = train_eval_batch['y0'], train_eval_batch['y'].transpose(0,1)
 
@@ -606,7 +606,7 @@ if __name__ == '__main__':
             with torch.no_grad():
                 # TODO: currently evaluates only based on one batch
                 dataiter = iter(test_loader)
-                test_batch = dataiter.next()
+                test_batch = next(dataiter)
                 val_batch_t = test_loader.dataset.t
                 val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
 
@@ -634,7 +634,7 @@ if __name__ == '__main__':
         with torch.no_grad():
             # TODO: currently evaluates only based on one batch
             dataiter = iter(test_loader)
-            test_batch = dataiter.next()
+            test_batch = next(dataiter)
             val_batch_t = test_loader.dataset.t
             val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
             loss, sim_loss, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,
@@ -660,7 +660,7 @@ if __name__ == '__main__':
     with torch.no_grad():
         # TODO: currently evaluates only based on one batch
         dataiter = iter(short_range_test_loader)
-        test_batch = dataiter.next()
+        test_batch = next(dataiter)
         val_batch_t = short_range_test_loader.dataset.t
         val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)
         loss, sim_loss, norm_loss, norm_penalty, val_pred_y = compute_loss(args=args,
@@ -685,7 +685,7 @@ if __name__ == '__main__':
 
             # run the evaluation for the validation data and record it via the hook
             dataiter = iter(test_loader)
-            test_batch = dataiter.next()
+            test_batch = next(dataiter)
             val_batch_t = test_loader.dataset.t
             val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0,1)
 
@@ -716,7 +716,7 @@ if __name__ == '__main__':
 
         # run the evaluation for the validation data and record it via the hook
         dataiter = iter(short_range_test_loader)
-        test_batch = dataiter.next()
+        test_batch = next(dataiter)
         val_batch_t = short_range_test_loader.dataset.t
         val_batch_y0, val_batch_y = test_batch['y0'], test_batch['y'].transpose(0, 1)
 
-- 
2.43.0


From 25c95ba6b6d21638b1b1eda3895ddb28659dc029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 27/43] fix: function fitting example runs for the baseline
 networks and the neural ODE

---
 demos/neurips20/simple_functional_mapping_example.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index fda4aab..690cf5d 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -493,6 +493,7 @@ if __name__ == '__main__':
     )
 
     use_shooting = False
+    uses_particles = False
     integrator = None
     func = None
 
@@ -518,6 +519,7 @@ if __name__ == '__main__':
         print('Using DoubleResNetUpDown: weight = {}'.format(weight_decay))
         simple_resnet = sdnn.DoubleResNetUpDown(nr_of_layers=args.nr_of_layers, inflation_factor=inflation_factor)
     elif args.use_neural_ode:
+        weight_decay = 0.0
         print('Using neural ode')
         func = sdnn.ODESimpleFunc()
         optimizer = optim.RMSprop(func.parameters(), lr=1e-3)
-- 
2.43.0


From 881d80b634a5c5bd896bc1251bc71f47454505db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 28/43] fix: clamping particles in the function fitting example
 is only attempted when there are particles

---
 demos/neurips20/simple_functional_mapping_example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 690cf5d..98867e7 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -623,7 +623,7 @@ if __name__ == '__main__':
             optimizer.step()
 
             if args.clamp_range:
-                if use_shooting:
+                if uses_particles:
                     # clip q1 if needed
                     sd = sblock.state_dict()
                     q1 = sd['q1']
-- 
2.43.0


From 3a04ea127a3f18285ee561ccc77093136d30d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 29/43] fix: spiral and function fitting examples save the norm
 penalty, not the norm loss, as norm penalty

---
 demos/neurips20/simple_functional_mapping_example.py | 2 +-
 demos/neurips20/spiral.py                            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 98867e7..2bf01c0 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -694,7 +694,7 @@ if __name__ == '__main__':
         values_to_save['test_loss'] = loss.item()
         values_to_save['sim_loss'] = sim_loss.item()
         values_to_save['norm_loss'] = norm_loss.item()
-        values_to_save['norm_penalty'] = norm_loss.item()
+        values_to_save['norm_penalty'] = norm_penalty.item()
 
     # for visualization
     dataiter = iter(visualization_loader)
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5159519..da4dc8a 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -649,7 +649,7 @@ if __name__ == '__main__':
             values_to_save['test_loss'] = loss.item()
             values_to_save['sim_loss'] = sim_loss.item()
             values_to_save['norm_loss'] = norm_loss.item()
-            values_to_save['norm_penalty'] = norm_loss.item()
+            values_to_save['norm_penalty'] = norm_penalty.item()
 
             vector_visualization.basic_visualize(shooting_block, val_batch_y, val_pred_y, val_batch_t, batch_y, pred_y,
                                                  batch_t, itr,
@@ -673,7 +673,7 @@ if __name__ == '__main__':
         values_to_save['short_range_test_loss'] = loss.item()
         values_to_save['short_range_sim_loss'] = sim_loss.item()
         values_to_save['short_range_norm_loss'] = norm_loss.item()
-        values_to_save['short_range_norm_penalty'] = norm_loss.item()
+        values_to_save['short_range_norm_penalty'] = norm_penalty.item()
 
     if args.validate_with_long_range:
         with torch.no_grad():
-- 
2.43.0


From 4f39b8802c124f870124716e1721701fb63c8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 30/43] fix: spiral example uses the maximal integration time
 given to its setup function

---
 demos/neurips20/spiral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index da4dc8a..daa7559 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -187,7 +187,7 @@ def setup_shooting_block(integrator=None, shooting_model='updown', parameter_wei
                                                        use_particle_free_time_dependent_mode=use_particle_free_time_dependent_mode,
                                                        nr_of_particle_free_time_dependent_steps=nr_of_particle_free_time_dependent_steps,
                                                        integrator=integrator,
-                                                       max_integration_time=max_integration_time)
+                                                       max_integration_time=max_integraton_time)
 
     return shooting_block
 
-- 
2.43.0


From 7e4f196ae44f145dcce5ecc7786580b5b69aac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 31/43] fix: autoencoders can be applied to batches with a
 single sample and latent spaces of dimension one

---
 demos/neurips20/autoencoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/autoencoder.py b/demos/neurips20/autoencoder.py
index 78f1983..14c6878 100644
--- a/demos/neurips20/autoencoder.py
+++ b/demos/neurips20/autoencoder.py
@@ -76,7 +76,7 @@ class ShootingAE(nn.Module):
         enc = self.fc1(self.encoder(x))
         # forward through shooting block
         out,_,_,_ = self.blk(enc.unsqueeze(1))
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(2).permute(1,0,2)
         # N x T x shooting_dim
         s = out.contiguous().view(N*self.T,self.shooting_dim)
         # decode
@@ -166,7 +166,7 @@ class ShootingAEMasked(nn.Module):
         # (N, shooting_dim)
         out,_,_,_ = self.blk(enc.unsqueeze(1))
         # (T, N, 1, shooting_dim)
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(2).permute(1,0,2)
         # (N, T, shooting_dim)
 
         if use_mask:
-- 
2.43.0


From 14dcc5f30861522f62d87605cd1516034e5d29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:49 +0000
Subject: [PATCH 32/43] fix: concentric circles example sets its random seed
 before it generates its data

---
 demos/neurips20/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demos/neurips20/cc.py b/demos/neurips20/cc.py
index 741ddcb..7218cce 100644
--- a/demos/neurips20/cc.py
+++ b/demos/neurips20/cc.py
@@ -350,15 +350,15 @@ if __name__ == '__main__':
     if args.verbose:
         print(args)
     
+    # setup reproducibility (if desired)
+    setup_random_seed(seed=args.seed)
+
     train_data, test_data = generate_data()
     train_loader = DataLoader(train_data, batch_size=args.batch_size, shuffle=True)
     test_loader = DataLoader(test_data, batch_size=args.batch_size, shuffle=False)
 
     device = utils.setup_device(desired_gpu=args.gpu)
 
-    # setup reproducibility (if desired)
-    setup_random_seed(seed=args.seed)
-
     # setup integrator
     integrator = setup_integrator(
             method=args.method, 
-- 
2.43.0


From 69b3ecd5edb89100bd5ead6e514b74c10ab67511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:06 +0000
Subject: [PATCH 33/43] fix: rotated MNIST example evaluates batches with a
 single sample

---
 demos/neurips20/rot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demos/neurips20/rot.py b/demos/neurips20/rot.py
index 2aaeb06..c51210f 100644
--- a/demos/neurips20/rot.py
+++ b/demos/neurips20/rot.py
@@ -237,8 +237,8 @@ def evaluate(args, model, loader, device):
     for inp in loader:
         inp = inp.to(device)    
         _,_,out = model(inp[:,0,...], use_mask=False)
-        R = out.cpu().detach().squeeze().numpy()
-        V = inp.cpu().detach().squeeze().numpy()
+        R = out.cpu().detach().squeeze(2).numpy()
+        V = inp.cpu().detach().squeeze(2).numpy()
         for i in range(inp.size(0)):
             error = np.mean(np.power(R[i,args.i_eval,:,:]-V[i,args.i_eval,:,:], 2.0))
             errors.append(error)
@@ -393,8 +393,8 @@ if __name__ == '__main__':
     for inp in testset:
         inp = inp.to(device)    
         _,_,out = model(inp[:,0,...], use_mask=False)
-        R = out.cpu().detach().squeeze().numpy()
-        V = inp.cpu().detach().squeeze().numpy()
+        R = out.cpu().detach().squeeze(2).numpy()
+        V = inp.cpu().detach().squeeze(2).numpy()
         Rs.append(R)
         Vs.append(V)
 
-- 
2.43.0


From 7c02ca9da2a8e23e6bdfb85dc47be71b9aa11dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:15 +0000
Subject: [PATCH 34/43] fix: first order models, which do not have a second
 state, can be visualized

---
 neuro_shooting/vector_visualization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/vector_visualization.py b/neuro_shooting/vector_visualization.py
index f8cf200..a6e0674 100644
--- a/neuro_shooting/vector_visualization.py
+++ b/neuro_shooting/vector_visualization.py
@@ -146,12 +146,15 @@ def _basic_visualize(shooting_block, val_y, val_pred_y, val_sim_time, train_y=No
         pars = shooting_block.state_dict()
         q1 = pars['q1'].detach().cpu().numpy()
         p_q1 = pars['p_q1'].detach().cpu().numpy()
-        q2 = pars['q2'].detach().cpu().numpy()
-        p_q2 = pars['p_q2'].detach().cpu().numpy()
 
         # now plot the information from the state variables
         plot_particles(q1=q1,p_q1=p_q1,ax=ax_lo)
-        plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
+
+        # first order models do not have a higher order state
+        if 'q2' in pars:
+            q2 = pars['q2'].detach().cpu().numpy()
+            p_q2 = pars['p_q2'].detach().cpu().numpy()
+            plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
 
     else:
 
-- 
2.43.0


From e6e694e108b7173180da761fad24f3ae56a0f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:03 +0000
Subject: [PATCH 35/43] fix: rotated MNIST and bouncing balls examples use the
 requested batch size

---
 demos/neurips20/balls.py | 6 +++---
 demos/neurips20/rot.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/demos/neurips20/balls.py b/demos/neurips20/balls.py
index 863c3aa..118c08e 100644
--- a/demos/neurips20/balls.py
+++ b/demos/neurips20/balls.py
@@ -332,9 +332,9 @@ if __name__ == '__main__':
     # TODO: COMMENT OUT FOR FULL RESULTS
     #Xtr = torch.utils.data.Subset(Xtr, range(0,5000))
     
-    trainset = data.DataLoader(Xtr, batch_size=25, shuffle=True)
-    testset = data.DataLoader(Xtest, batch_size=25, shuffle=False)
-    valset = data.DataLoader(Xval, batch_size=25, shuffle=False)
+    trainset = data.DataLoader(Xtr, batch_size=args.batch_size, shuffle=True)
+    testset = data.DataLoader(Xtest, batch_size=args.batch_size, shuffle=False)
+    valset = data.DataLoader(Xval, batch_size=args.batch_size, shuffle=False)
     T = 20
 
     # setup model
diff --git a/demos/neurips20/rot.py b/demos/neurips20/rot.py
index c51210f..421e4da 100644
--- a/demos/neurips20/rot.py
+++ b/demos/neurips20/rot.py
@@ -301,9 +301,9 @@ if __name__ == '__main__':
     
     Xtr, Xtest, N, T = load_data()
     trainset = Dataset(Xtr)
-    trainset = data.DataLoader(trainset, batch_size=25, shuffle=True)
+    trainset = data.DataLoader(trainset, batch_size=args.batch_size, shuffle=True)
     testset  = Dataset(Xtest)
-    testset  = data.DataLoader(testset, batch_size=25, shuffle=False)
+    testset  = data.DataLoader(testset, batch_size=args.batch_size, shuffle=False)
 
     # setup model
     model = ShootingAEMasked(
-- 
2.43.0


From 8d88771b8605bcf6f47070438cea52cdf40c2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:03 +0000
Subject: [PATCH 36/43] fix: rotated MNIST example trains in training mode in
 all iterations, not only before the first evaluation

---
 demos/neurips20/rot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demos/neurips20/rot.py b/demos/neurips20/rot.py
index 421e4da..8138642 100644
--- a/demos/neurips20/rot.py
+++ b/demos/neurips20/rot.py
@@ -329,6 +329,7 @@ if __name__ == '__main__':
     losses = defaultdict(list) 
     for it in range(args.niters):
 
+        model.train()
         it_sim_loss = 0
         it_npe_loss = 0 
         it_loss = 0
-- 
2.43.0


From cbe197b9a2110339d7c5f812da9cc65a23da5ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:18 +0000
Subject: [PATCH 37/43] fix: bouncing balls example trains on and evaluates
 batches with a single sample

---
 demos/neurips20/balls.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/demos/neurips20/balls.py b/demos/neurips20/balls.py
index 118c08e..f441257 100644
--- a/demos/neurips20/balls.py
+++ b/demos/neurips20/balls.py
@@ -250,9 +250,9 @@ def evaluate(args, model, loader):
     for inp in loader:
         inp = inp[0]
         inp = inp[:,0:20,...].to(device)
-        _, out = model(inp[:,0:3,...].squeeze())
-        R = out.cpu().detach().squeeze().numpy()[:,3:3+args.evaluate_ahead,...]
-        V = inp.cpu().detach().squeeze().numpy()[:,3:3+args.evaluate_ahead,...]
+        _, out = model(inp[:,0:3,...].reshape(-1,3,28,28))
+        R = out.cpu().detach().reshape(-1,20,28,28).numpy()[:,3:3+args.evaluate_ahead,...]
+        V = inp.cpu().detach().reshape(-1,20,28,28).numpy()[:,3:3+args.evaluate_ahead,...]
         assert R.shape[0] == V.shape[0]
 
         for i in range(R.shape[0]):
@@ -372,8 +372,8 @@ if __name__ == '__main__':
             
             inp = inp[0]
             inp = inp[:,0:20,...].to(device)
-            _, out = model(inp[:,0:3,...].squeeze())
-            diff = out.squeeze() - inp.squeeze()
+            _, out = model(inp[:,0:3,...].reshape(-1,3,28,28))
+            diff = out.reshape(-1,20,28,28) - inp.reshape(-1,20,28,28)
             sim_loss = args.sim_weight * torch.mean(torch.pow(diff, 2.0))
             npe_loss = args.norm_weight * model.blk.get_norm_penalty()
             loss = sim_loss + npe_loss
-- 
2.43.0


From c543403fff4db3b3ee991a93d54d31d9a8a68b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:12 +0000
Subject: [PATCH 38/43] fix: output of called python scripts is decoded before
 it is split into lines

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 3bb3e56..9ad0994 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -148,7 +148,7 @@ def call_python_script( cmd ):
   cmd_full = 'python ' + cmd
   p = subprocess.Popen(cmd_full, stdout=subprocess.PIPE, shell=True)
   out, err = p.communicate()
-  result = out.split('\n')
+  result = out.decode().split('\n')
   for lin in result:
     if not lin.startswith('#'):
         print(lin)
-- 
2.43.0


From da4ba8c659fcb9d4fba02b294eb8692fab9007dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:07 +0000
Subject: [PATCH 39/43] fix: checkpoints for decreasing and for double
 precision time points

Integrating backward in time with checkpoints only returned the first
value (or None, or failed in arange), times were rounded to the default
precision, and a checkpoint that differed from a time point by rounding
only gave an empty interval that torchdiffeq refuses.
---
 neuro_shooting/generic_integrator.py | 29 +++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 6a081f6..6868b5b 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -152,19 +152,30 @@ class GenericIntegrator(object):
         t_from = t[0]
         t_to = t[-1]
 
+        if t_to<t_from:
+            # decreasing time-points (integration backward in time): same as for the mirrored increasing ones
+            mirrored_time_intervals, output_time_points = self.create_integration_time_intervals(-t)
+            return [-ti for ti in mirrored_time_intervals], output_time_points
+
         if self.nr_of_checkpoints is not None:
-            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
+            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,dtype=t.dtype,device=t.device) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
-                checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
+                checkpointing_time_points = torch.cat((checkpointing_time_points, t_to.reshape(1)), dim=0)
         else:
             raise ValueError('Either nr_of_checkpoints or checkpointing_time_interval needs to be set.')
 
         # force the last time-points to numericall agree
         checkpointing_time_points[-1] = t_to
 
+        # checkpoints which only differ by rounding from a time-point coincide with it (otherwise we would get empty time-intervals)
+        rounding_tolerance = 10*torch.finfo(t.dtype).eps*torch.max(torch.abs(t_from),torch.abs(t_to))
+        closest_time_points = t[torch.argmin(torch.abs(checkpointing_time_points.unsqueeze(1)-t.unsqueeze(0)),dim=1)]
+        checkpointing_time_points = torch.where(torch.abs(closest_time_points-checkpointing_time_points)<=rounding_tolerance,
+                                                closest_time_points,checkpointing_time_points)
+
         # now we need to create the intervals (i.e., match the integration time-points we want to hit, to the checkpoints)
         time_intervals = []
         output_time_points = []
@@ -177,7 +188,7 @@ class GenericIntegrator(object):
         keep_accumulating = True
 
         # always starts with the first-timepoint
-        current_time_interval = torch.tensor([t[idx_t]])
+        current_time_interval = t[idx_t].reshape(1)
         current_output_time_point = torch.tensor([True])
 
         if t[idx_t]!=checkpointing_time_points[idx_checkpoint_t]:
@@ -193,25 +204,25 @@ class GenericIntegrator(object):
 
             if next_cp_t>next_t:
                 # case: just keep on adding this time-point to the current time-interval and retain it for the output
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_t])))
+                current_time_interval = torch.cat((current_time_interval,next_t.reshape(1)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 idx_t += 1
             elif next_cp_t<next_t:
                 # case: this is the checkpoint we want, so finalize it and move on to the next one
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
+                current_time_interval = torch.cat((current_time_interval,next_cp_t.reshape(1)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
                 time_intervals.append(current_time_interval)
                 output_time_points.append(current_output_time_point)
-                current_time_interval = torch.tensor([next_cp_t])
+                current_time_interval = next_cp_t.reshape(1)
                 current_output_time_point = torch.tensor([False])
                 idx_checkpoint_t += 1
             else: # the same
                 # case: they conincide, so move on to the next for both, but only keep one
-                current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
+                current_time_interval = torch.cat((current_time_interval,next_t.reshape(1)))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 time_intervals.append(current_time_interval)
                 output_time_points.append(current_output_time_point)
-                current_time_interval = torch.tensor([next_cp_t])
+                current_time_interval = next_t.reshape(1)
                 current_output_time_point = torch.tensor([False])
                 idx_t += 1
                 idx_checkpoint_t += 1
-- 
2.43.0


From cdc4b3ea4db2f8883949fa2aea52b71fcb6ef39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:40 +0000
Subject: [PATCH 40/43] fix: blocks can be cast to a type which is not the
 default type

The layers of a block are allocated in every evaluation, always with the
default type of torch: a block after .double() (or .to(torch.float64))
could not be evaluated any more. They now follow the type and device the
integrand was moved to, as documented.
---
 neuro_shooting/shooting_integrands.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index f4ade36..1b71aa5 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -96,6 +96,9 @@ class ShootingIntegrandBase(nn.Module):
         self._to_call_args = None
         self._to_call_kwargs = None
 
+        # moved and cast like everything else (but not saved), so that parameters which are allocated from scratch can follow
+        self.register_buffer('_device_and_type_reference', torch.zeros(1), persistent=False)
+
     def reset(self):
         self.current_norm_penalty = None
         if not self._externally_managed_rnn_parameters:
@@ -471,8 +474,7 @@ class ShootingIntegrandBase(nn.Module):
 
     def create_default_parameter_objects_on_consistent_device(self):
         """
-        Wrapper for create_default_parameter_objects, which subsequently applies a .to() call using the same arguments as the last one if there was one
-        (otherwise returns as it)
+        Wrapper for create_default_parameter_objects, which subsequently moves the parameters to the device and type of this integrand (see .to(), .double(), ...)
 
         :return: returns a SortedDict of parameter objects on the current default device
         """
@@ -487,6 +489,9 @@ class ShootingIntegrandBase(nn.Module):
         #     for p in pars:
         #         pars[p].to(*self._to_call_args, **self._to_call_kwargs)
 
+        for p in pars:
+            pars[p].to(self._device_and_type_reference)
+
         return pars
 
     @abstractmethod
-- 
2.43.0


From 884b2b05cf1165030c95e3aee08edf4cbf2fecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:38 +0000
Subject: [PATCH 41/43] fix: convolutional models keep the size of their states
 for all odd filter sizes

---
 neuro_shooting/shooting_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 3a29895..56c5f84 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1305,8 +1305,8 @@ class AutoShootingIntegrandModelSimpleConv2D(shooting.ShootingLinearInParameterC
 
         parameter_objects = SortedDict()
 
-        conv1 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
-        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
+        conv1 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
+        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
 
         parameter_objects['conv1'] = conv1
         parameter_objects['conv2'] = conv2
@@ -1378,8 +1378,8 @@ class AutoShootingIntegrandModelConv2DBatch(shooting.ShootingLinearInParameterCo
 
         parameter_objects = SortedDict()
 
-        conv1 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
-        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
+        conv1 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
+        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
         #group_norm = oc.SNN_GroupNorm(self.channel_number,self.channel_number,affine = False)
         group_norm = nn.GroupNorm(self.in_features,self.in_features,affine = False)
         parameter_objects['conv1'] = conv1
@@ -2136,8 +2136,8 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
 
         parameter_objects = SortedDict()
 
-        conv1 = oc.SNN_Conv2d(in_channels=self.in_features * self.inflation_factor,out_channels=self.in_features,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
-        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features * self.inflation_factor,kernel_size=self.filter_size,padding = 1, weight=self.parameter_weight)
+        conv1 = oc.SNN_Conv2d(in_channels=self.in_features * self.inflation_factor,out_channels=self.in_features,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
+        conv2 = oc.SNN_Conv2d(in_channels=self.in_features,out_channels=self.in_features * self.inflation_factor,kernel_size=self.filter_size,padding=self.filter_size//2, weight=self.parameter_weight)
 
         parameter_objects['conv1'] = conv1
         parameter_objects['conv2'] = conv2
-- 
2.43.0


From 50de3808005d3fce9fddfbe15d7567055a908c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:49 +0000
Subject: [PATCH 42/43] fix: states and parameters without influence on the
 evolution have zero derivatives

---
 neuro_shooting/state_costate_and_data_dictionary_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/state_costate_and_data_dictionary_utils.py b/neuro_shooting/state_costate_and_data_dictionary_utils.py
index af91730..9378998 100644
--- a/neuro_shooting/state_costate_and_data_dictionary_utils.py
+++ b/neuro_shooting/state_costate_and_data_dictionary_utils.py
@@ -246,7 +246,8 @@ def extract_dict_of_dicts_from_tuple_based_on_generic_dict_of_dicts(data_tuple,
         c_extracted_dict = extracted_dicts[k]
         c_generic_dict = generic_dict_of_dicts[k]
         for m in c_generic_dict:
-            c_extracted_dict[prefix + m] = data_tuple[indx]
+            # entries without influence do not have a gradient
+            c_extracted_dict[prefix + m] = data_tuple[indx] if data_tuple[indx] is not None else torch.zeros_like(c_generic_dict[m])
             indx += 1
     return extracted_dicts
 
@@ -271,7 +272,8 @@ def extract_dict_from_tuple_based_on_parameter_objects(data_tuple, parameter_obj
         current_pars = parameter_objects[o].get_parameter_dict()
 
         for k in current_pars:
-            current_extracted_dict[prefix + k] = data_tuple[indx]
+            # parameters without influence do not have a gradient
+            current_extracted_dict[prefix + k] = data_tuple[indx] if data_tuple[indx] is not None else torch.zeros_like(current_pars[k])
             indx += 1
 
     return extracted_dict
-- 
2.43.0


From cc55b43d0c0d3596a0289d9933271194b246b688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:00 +0000
Subject: [PATCH 43/43] fix: optimal transport models can be used with
 particle-free parameters

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 1b71aa5..247d523 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -669,7 +669,7 @@ class ShootingIntegrandBase(nn.Module):
                 par_list = self._rnn_parameter_func.get_time_parameter_list()
                 current_kinetic_energy_sum = torch.Tensor([0.0])
                 for current_parameter_objects in par_list:
-                    current_kinetic_energy = self.compute_kinetic_energy(t, current_parameter_objects)
+                    current_kinetic_energy = self.compute_kinetic_energy(t, current_parameter_objects, state_dict_of_dicts, costate_dict_of_dicts)
                     current_kinetic_energy_sum = current_kinetic_energy_sum + current_kinetic_energy
                 self.current_norm_penalty = current_kinetic_energy_sum/len(par_list)
             else:
@@ -724,7 +724,7 @@ class ShootingIntegrandBase(nn.Module):
                 par_list = self._rnn_parameter_func.get_time_parameter_list()
                 current_kinetic_energy_sum = torch.Tensor([0.0])
                 for current_parameter_objects in par_list:
-                    current_kinetic_energy = self.compute_kinetic_energy(t, current_parameter_objects)
+                    current_kinetic_energy = self.compute_kinetic_energy(t, current_parameter_objects, state_dict_of_dicts, costate_dict_of_dicts)
                     current_kinetic_energy_sum = current_kinetic_energy_sum + current_kinetic_energy
                 self.current_norm_penalty = current_kinetic_energy_sum / len(par_list)
             else:
-- 
2.43.0

