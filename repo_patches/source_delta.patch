From fe301b04e497eaae70620766c15c9842237fef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:15 +0000
Subject: [PATCH 01/37] fix: derivative of the sigmoid nonlinearity was the
 sigmoid itself

---
 neuro_shooting/activation_functions_and_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..c72c425 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,11 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    s = torch.sigmoid(x)
+    return s*(1.0-s)
+
 def identity(x):
     return x
 
@@ -54,7 +59,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From 7db30374e22a8201bdb22942bdce1b9ec8b5dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 02/37] fix: analytic costate equation of the Q2-dampened
 up-down model dropped the dampening term

---
 neuro_shooting/shooting_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..37d44f2 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,8 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        # the dampening term -dampening_factor*q2 of the state equation contributes to its costate
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From 4ecdaacf535ef95d49a4bcbf3d5859c96ceb10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 03/37] fix: third layer of the symmetrized up-down model did
 not match the size of the state it drives

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 37d44f2..4dba977 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1693,7 +1693,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         linear1 = oc.SNN_Linear(in_features=self.in_features*self.inflation_factor,out_features=self.in_features,weight=self.parameter_weight)
         linear2 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
-        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
+        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features,weight=self.parameter_weight)
         parameter_objects['l1'] = linear1
         parameter_objects['l2'] = linear2
         parameter_objects['l3'] = linear3
-- 
2.43.0


From e35a5315ef663bef88e6ac547b6abad5c38ce5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 04/37] fix: analytic costate derivatives were split along the
 data instead of the state concatenation dimension

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..a44c45c 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -682,7 +682,7 @@ class ShootingIntegrandBase(nn.Module):
         dot_costate_dict_of_dicts = self.optional_rhs_advect_costate_dict_of_dicts_analytic(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                                                             costate_dict_of_dicts=costate_dict_of_dicts,
                                                                                             parameter_objects=parameter_objects,
-                                                                                            concatenation_dim=self.data_concatenation_dim)
+                                                                                            concatenation_dim=self.concatenation_dim)
 
         return dot_state_dict_of_dicts, dot_costate_dict_of_dicts, dot_data_dict_of_dicts, parameter_objects
 
-- 
2.43.0


From d97c6ba872e1f6762efc94576ccf171defdcb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:07 +0000
Subject: [PATCH 05/37] fix: costate equation of pass-through blocks used the
 configured instead of the actual number of particles

---
 neuro_shooting/shooting_integrands.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index a44c45c..794eaeb 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -392,7 +392,10 @@ class ShootingIntegrandBase(nn.Module):
         if (not self.use_rnn_mode) and (self._externally_managed_rnn_parameters is None):
             del parameter_objects
 
-        return self.nr_of_particles * lagrangian,self.nr_of_particles * kinetic_energy, self.nr_of_particles *potential_energy
+        # the number of particles is the one of the states (a pass-through block may have been set up with a different number or with none)
+        nr_of_particles = scd_utils.extract_batch_size_from_dict_of_dicts(state_dict_of_dicts)
+
+        return nr_of_particles * lagrangian, nr_of_particles * kinetic_energy, nr_of_particles * potential_energy
 
     def compute_lagrangian(self, t, state_dict_of_dicts, costate_dict_of_dicts, parameter_objects):
         """
-- 
2.43.0


From 89f58302759fb78d69ad1e88dece3893a3304c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:48 +0000
Subject: [PATCH 06/37] fix: explicitly given assembly plans were rejected when
 disassembling a vector

---
 neuro_shooting/shooting_integrands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 794eaeb..4762e29 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -256,7 +256,8 @@ class ShootingIntegrandBase(nn.Module):
 
         if assembly_plans is None:
             assembly_plans = self.auto_assembly_plans
-        else:
+
+        if assembly_plans is None:
             raise ValueError('No assembly plan specified to disassemble tensor. Either explicity specify when calling this method or set one via set_auto_assembly_plans')
 
         return scd_utils.disassemble_tensor(input=input, assembly_plans=assembly_plans, dim=dim)
-- 
2.43.0


From ea98b47c2c70c4a7557d02c0104902fb6d09a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 07/37] fix: particle-free lookup advanced past the piece
 containing the requested time

---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From 15e3e2885f56e91d56b0e847d7fd641de349467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 08/37] fix: costate equation of particle-free models called
 the parameter function object directly

---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 4762e29..d32f852 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -366,7 +366,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From d11588e9893d15fb58b0cf82151cb08ee0e98f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 09/37] fix: transposing the states before and after evaluating
 the integrand failed

---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index d32f852..d6c41f0 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -772,7 +772,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -812,7 +812,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From b8904b6e64c7793b3d54e72ba67eeaa20acf37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 10/37] fix: keeping the initial states at zero failed and
 registered the enlargement for optimization

---
 neuro_shooting/shooting_blocks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..980fc06 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -542,7 +542,7 @@ class ShootingBlockBase(nn.Module):
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
                 for k in state_dict:
-                    state_dict[k].zero_()
+                    state_dict[k] = state_dict[k].detach().zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -572,9 +572,10 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
-                            self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
-                            print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
+                                c_state_dict[k] = (c_state_dict[k][0].detach().zero_(),) + tuple(c_state_dict[k][1:])
+                            else:
+                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
 
-- 
2.43.0


From 421eec74f76f864775383d66a40c8efa9f490fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 11/37] fix: convolution and group norm layers without
 bias/affine parameters failed and non-zero padding modes were not honored

---
 neuro_shooting/overwrite_classes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index 637d283..d6427b8 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -156,14 +156,14 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
         return self
 
     def forward(self, input):
-        if self.padding_mode == 'circular':
-            expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
-                                (self.padding[0] + 1) // 2, self.padding[0] // 2)
-            return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        bias = self._parameter_dict.get('bias')
+        if self.padding_mode != 'zeros':
+            expanded_padding = (self.padding[1], self.padding[1], self.padding[0], self.padding[0])
+            return F.conv2d(F.pad(input, expanded_padding, mode=self.padding_mode),
+                            self._parameter_dict['weight'], bias, self.stride,
                             _pair(0), self.dilation, self.groups)
 
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        return F.conv2d(input, self._parameter_dict['weight'], bias, self.stride,
                         self.padding, self.dilation, self.groups)
 
 
@@ -191,7 +191,7 @@ class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
 
     def forward(self, input):
         return F.group_norm(
-            input, self.num_groups, self._parameter_dict['weight'], self._parameter_dict['bias'], self.eps)
+            input, self.num_groups, self._parameter_dict.get('weight'), self._parameter_dict.get('bias'), self.eps)
 
 
 
-- 
2.43.0


From 6729a046b7abe205d6dd0c8169871712279ad776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 12/37] fix: parameter sweeps carried over the settings of
 earlier sweeps

---
 neuro_shooting/command_line_execution_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..acfa38c 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,13 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    # created here, so that results of an earlier sweep are not carried over
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
-- 
2.43.0


From 286bcec4bfc450c65b73d8fc979eaba8d69888b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 13/37] fix: learning rate scheduler could not be imported
 (torch._six no longer exists)

---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From b64df8c30289ef3d8bcc453803a1a7ec07739b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 14/37] fix: initializers for convolutional models did not
 support constant initialization

---
 neuro_shooting/parameter_initialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/parameter_initialization.py b/neuro_shooting/parameter_initialization.py
index 20ded7e..ae21a1b 100644
--- a/neuro_shooting/parameter_initialization.py
+++ b/neuro_shooting/parameter_initialization.py
@@ -152,6 +152,14 @@ class ConvolutionEvolutionParameterInitializerBase(ParameterInitializer):
         size = tuple([nr_of_particles,particle_dimension,*particle_size])
         return nn.Parameter(torch.zeros(size))
 
+    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
+
+        if type(particle_size)!=tuple and type(particle_size)!=list:
+            raise ValueError('Expected the particle size as a tuple or list e.g., [3,3], but got {}.'.format(type(particle_size)))
+
+        size = tuple([nr_of_particles,particle_dimension,*particle_size])
+        return nn.Parameter(constant*torch.ones(size))
+
 class ConvolutionEvolutionParameterInitializer(ConvolutionEvolutionParameterInitializerBase):
     def __init__(self, only_random_initialization=True, random_initialization_magnitude=0.5, sample_batch=None):
         super(ConvolutionEvolutionParameterInitializer, self).__init__(
-- 
2.43.0


From b42ca1109affb84aba8da3ae4622e9fea1643c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 15/37] fix: moving or converting a block failed once an
 integration time vector was set

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 980fc06..1abe3cb 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,19 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = fn(self.integration_time_vector)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = self.integration_time_vector.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From e68d43d520b0a53475302edbda27bb421c175d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:24 +0000
Subject: [PATCH 16/37] fix: predicted initial conditions of the convolutional
 up-down model were not used or of the wrong size

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 4dba977..67514fa 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2108,7 +2108,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1)
 
             else:
                 raise ValueError(
@@ -2174,8 +2174,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0


From 46ad935410fb96bd1e5211835add47dbb942a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 17/37] fix: blocks with their own particles could not be
 chained when all integration times are returned

---
 neuro_shooting/shooting_blocks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 1abe3cb..dca4df0 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -702,29 +702,31 @@ class ShootingBlockBase(nn.Module):
             res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time_vector)
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_all_times,dim=1)
             res = self.shooting_integrand.disassemble(res_all_times,dim=1)
+            time_dim_offset = 1 # results have time as their leading dimension
         else:
             res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time)
             res_final = res_all_times[-1, ...]
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_final)
             # and get what should typically be returned (the transformed data)
             res = self.shooting_integrand.disassemble(res_final,dim=0)
+            time_dim_offset = 0
 
         if self.shooting_integrand.concatenate_parameters:
             # we also concatenate the output
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim_offset,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim+time_dim_offset,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim_offset,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim+time_dim_offset)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From 0b3f14a15e6cf675683b1e1a542317bd17ac058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 18/37] fix: enlargement parameters of several pass-through
 blocks overwrote each other's registration

---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index dca4df0..d772847 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -564,6 +564,12 @@ class ShootingBlockBase(nn.Module):
 
         return state_dict,costate_dict
 
+    def _get_enlargement_parameter_name(self, block_name, name, dict_of_dicts):
+        if len(dict_of_dicts) == 1:
+            return 'pt_enlarge_' + name
+        # several blocks are passed through; they share the state names, so the block name is needed to tell them apart
+        return 'pt_enlarge_' + block_name.replace('.', '__') + '_' + name
+
     def register_pass_through_state_and_costate_enlargement_parameters(self,
                                                                        pass_through_state_dict_of_dicts_enlargement_parameters,
                                                                        pass_through_costate_dict_of_dicts_enlargement_parameters,
@@ -580,7 +586,7 @@ class ShootingBlockBase(nn.Module):
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
                                 c_state_dict[k] = (c_state_dict[k][0].detach().zero_(),) + tuple(c_state_dict[k][1:])
                             else:
-                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                self.register_parameter(self._get_enlargement_parameter_name(dk, k, pass_through_state_dict_of_dicts_enlargement_parameters), c_state_dict[k][0])
                                 print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
@@ -590,7 +596,7 @@ class ShootingBlockBase(nn.Module):
                 if c_costate_dict is not None:
                     for k in c_costate_dict:
                         if c_costate_dict[k] is not None:
-                            self.register_parameter('pt_enlarge_' + k, c_costate_dict[k][0])
+                            self.register_parameter(self._get_enlargement_parameter_name(dk, k, pass_through_costate_dict_of_dicts_enlargement_parameters), c_costate_dict[k][0])
                             print('INFO: registering enlargement costate parameters {} of size {} for block {}'.format(k,c_costate_dict[k][0].numel(),self._block_name))
 
     def _get_or_create_and_register_pass_through_enlargement_parameters(self,pass_through_state_dict_of_dicts,pass_through_costate_dict_of_dicts,*args,**kwargs):
-- 
2.43.0


From c4a550275f0a2aad7ba6ae79b6e69bd0b2c930bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:06 +0000
Subject: [PATCH 19/37] fix: default step size leaked into the options
 dictionary shared between integrators

---
 neuro_shooting/generic_integrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..9f26129 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,11 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
+        if integrator_options is None:
             self.integrator_options = dict()
+        else:
+            # copy, as defaults will be filled in and the same options might be used for several integrators
+            self.integrator_options = dict(integrator_options)
 
         self.kwargs = kwargs
 
-- 
2.43.0


From b27d358d22db8582a3a0f93f1234a769743b63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 20/37] fix: checkpoint times were computed in default
 precision, losing output times given in double precision

---
 neuro_shooting/generic_integrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 9f26129..f8671c4 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -156,9 +156,9 @@ class GenericIntegrator(object):
         t_to = t[-1]
 
         if self.nr_of_checkpoints is not None:
-            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
+            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,dtype=t.dtype,device=t.device) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,dtype=t.dtype,device=t.device)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
                 checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
-- 
2.43.0


From d3704c22585b07036df0f1618dfa2fba4a6e9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:01 +0000
Subject: [PATCH 21/37] fix: convolution layer failed for padding given as a
 string with a padding mode other than zeros

---
 neuro_shooting/overwrite_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index d6427b8..bb4a9c4 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -158,8 +158,8 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
     def forward(self, input):
         bias = self._parameter_dict.get('bias')
         if self.padding_mode != 'zeros':
-            expanded_padding = (self.padding[1], self.padding[1], self.padding[0], self.padding[0])
-            return F.conv2d(F.pad(input, expanded_padding, mode=self.padding_mode),
+            # this also covers padding specified as a string
+            return F.conv2d(F.pad(input, self._reversed_padding_repeated_twice, mode=self.padding_mode),
                             self._parameter_dict['weight'], bias, self.stride,
                             _pair(0), self.dilation, self.groups)
 
-- 
2.43.0


From dc1a82ec49b3841a1cc18cd233a4b53f7dc0676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:48 +0000
Subject: [PATCH 22/37] fix: analytic equations of the simple models used the
 configured instead of the actual number of particles

---
 neuro_shooting/shooting_models.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 67514fa..c69ea3c 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1019,7 +1019,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1040,7 +1040,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q2'] = dot_pt
@@ -1077,10 +1077,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l1'].get_parameter_dict()
@@ -1096,10 +1096,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l2'].get_parameter_dict()
@@ -1207,7 +1207,7 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1242,10 +1242,10 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(pi.shape[0]):
             At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        At = 1 / pi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / pi.shape[0] * pi.sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict['weight'] = utils.divide_by_if_not_none(At.t(),weight_dict['weight'])
-- 
2.43.0


From 300efa739ca16f168cedf989c7f2a027150897df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 23/37] fix: recorded parameters and states do not change with
 later training

The recording hook stored numpy arrays sharing memory with the tensors, so
directly optimised parameters recorded earlier changed with every later
optimisation step.
---
 neuro_shooting/shooting_hooks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..94542d4 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -6,7 +6,7 @@ def record_generic_dict_of_dicts(custom_hook_data, d, d_name):
         cur_block = d[block_name]
         for cur_state_name in cur_block:
             cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)
-            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy())
+            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy().copy())
 
 def compute_parameter_norms(parameter_objects):
 
@@ -66,7 +66,7 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From 09757e55cbd3fde3ca4f65d3598205e5310f0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:51 +0000
Subject: [PATCH 24/37] fix: a sweep over no settings has one (empty)
 combination

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index acfa38c..80a8492 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -18,7 +18,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_lis
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From 97f93e1df46b26abedb51a5d24174464af9d0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:51 +0000
Subject: [PATCH 25/37] fix: adding nothing to an empty configuration string
 failed

---
 neuro_shooting/command_line_execution_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 80a8492..8713c20 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -96,11 +96,11 @@ def _escape_semicolons(s):
         return ret
 
 def add_to_config_string(cs,cs_to_add):
-    if (cs is None) or (cs==''):
+    if cs_to_add is None:
+        ret = cs
+    elif (cs is None) or (cs==''):
         # we need to check if there are semicolons in the string to add, if so, these need to be escaped
         ret = _escape_semicolons(cs_to_add)
-    elif cs_to_add is None:
-        ret = cs
     else:
         cs_to_add_escaped = _escape_semicolons(cs_to_add)
         ret = cs + '\\;' + cs_to_add_escaped
-- 
2.43.0


From 9cc8f1cba27b10a66983dd26c936dd78d1ec3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:52 +0000
Subject: [PATCH 26/37] fix: a flag swept as false stayed set when the template
 sets it

---
 neuro_shooting/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..c023d53 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -77,6 +77,8 @@ def merge_args(run_args_template,add_args):
         if (v is True) or (v is False): # check if v is binary
             if v:
                 merged_args[k] = None # just add the flag
+            else:
+                merged_args.pop(k,None) # leave the flag out, even if the template sets it
         else:
             merged_args[k] = v
 
-- 
2.43.0


From e45d60e753ec4876a31d28a1eab8c8f8ca4a0d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:52 +0000
Subject: [PATCH 27/37] fix: existing results were not found in output
 directories with wildcard characters

---
 neuro_shooting/experiment_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index c023d53..ac325ee 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -131,7 +131,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             run_args['seed'] = seed
 
             # check if it already contains an output pt file. If so ignore.
-            pt_files = glob.glob(os.path.join(output_directory, '*.pt'), recursive=False)
+            pt_files = glob.glob(os.path.join(glob.escape(output_directory), '*.pt'), recursive=False)
             if (len(pt_files)>0) and do_not_recompute:
                 print('Found the following pt files {} in {}. SKIPPING.\n'.format(pt_files,output_directory))
             else:
-- 
2.43.0


From 01f4f001b3ca135e0c8dfb4a981a64d4810349de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:52 +0000
Subject: [PATCH 28/37] fix: a residual network with a single block ignored the
 output of the block

---
 neuro_shooting/res_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/res_net.py b/neuro_shooting/res_net.py
index e564cdd..50020ce 100644
--- a/neuro_shooting/res_net.py
+++ b/neuro_shooting/res_net.py
@@ -182,7 +182,7 @@ class BasicResNet(nn.Module):
         for shooting_layer,striding_block in zip(self.shooting_layers,self.striding_blocks):
             for shooting_block in shooting_layer:
                 if is_first:
-                    _, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
+                    ret, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
                     is_first = False
                 else:
                     ret, state_dicts, costate_dicts, data_dicts = shooting_block(data_dict_of_dicts=data_dicts,
-- 
2.43.0


From 2c98f6ac70b818ec7a833ddb02460a81a94a4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:11 +0000
Subject: [PATCH 29/37] fix: experiments ran with python from the path instead
 of the requested interpreter

---
 neuro_shooting/command_line_execution_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 8713c20..48c39a5 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -39,10 +39,9 @@ def run_command_with_args(python_script,run_args,path_to_python,cuda_visible_dev
     cmd_arg_list = _make_arg_list(run_args)
     current_python_script = python_script
 
-    pre_command = 'alias python="{}"'.format(path_to_python) #'conda activate {}'.format(conda_environment)
-
-    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices,pre_command=pre_command)
-    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file)
+    # the interpreter is called by its path, because bash does not expand an alias when running a command
+    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices)
+    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file, path_to_python=path_to_python)
 
 
 def _make_arg_list(args):
@@ -129,9 +128,9 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
-def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None ):
+def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, path_to_python=None ):
 
-  str = get_string_argument_from_list(['python'] + [python_script] + arguments_as_list)
+  str = get_string_argument_from_list([path_to_python or 'python'] + [python_script] + arguments_as_list)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From 6162b4d4247795ff72fd29e7939e8b3058930d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:09 +0000
Subject: [PATCH 30/37] fix: autoencoders keep the batch and time dimensions of
 size one

---
 demos/neurips20/autoencoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/autoencoder.py b/demos/neurips20/autoencoder.py
index 78f1983..7fd6dc1 100644
--- a/demos/neurips20/autoencoder.py
+++ b/demos/neurips20/autoencoder.py
@@ -76,7 +76,7 @@ class ShootingAE(nn.Module):
         enc = self.fc1(self.encoder(x))
         # forward through shooting block
         out,_,_,_ = self.blk(enc.unsqueeze(1))
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(dim=2).permute(1,0,2)
         # N x T x shooting_dim
         s = out.contiguous().view(N*self.T,self.shooting_dim)
         # decode
@@ -166,7 +166,7 @@ class ShootingAEMasked(nn.Module):
         # (N, shooting_dim)
         out,_,_,_ = self.blk(enc.unsqueeze(1))
         # (T, N, 1, shooting_dim)
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(dim=2).permute(1,0,2)
         # (N, T, shooting_dim)
 
         if use_mask:
-- 
2.43.0


From b7853e89de8595a7409939fd4f25e2209c3ebc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:09 +0000
Subject: [PATCH 31/37] fix: evaluate rotated images also for a batch of one
 sample

---
 demos/neurips20/rot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/rot.py b/demos/neurips20/rot.py
index 2aaeb06..1d701c7 100644
--- a/demos/neurips20/rot.py
+++ b/demos/neurips20/rot.py
@@ -237,8 +237,8 @@ def evaluate(args, model, loader, device):
     for inp in loader:
         inp = inp.to(device)    
         _,_,out = model(inp[:,0,...], use_mask=False)
-        R = out.cpu().detach().squeeze().numpy()
-        V = inp.cpu().detach().squeeze().numpy()
+        R = out.cpu().detach().squeeze(dim=2).numpy()
+        V = inp.cpu().detach().squeeze(dim=2).numpy()
         for i in range(inp.size(0)):
             error = np.mean(np.power(R[i,args.i_eval,:,:]-V[i,args.i_eval,:,:], 2.0))
             errors.append(error)
-- 
2.43.0


From b984306480785e6610a178ef672313bde48a5930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:09 +0000
Subject: [PATCH 32/37] fix: freeze the parameters themselves in the concentric
 circles experiment

---
 demos/neurips20/cc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/neurips20/cc.py b/demos/neurips20/cc.py
index 741ddcb..91b1771 100644
--- a/demos/neurips20/cc.py
+++ b/demos/neurips20/cc.py
@@ -338,7 +338,7 @@ def hook_in(model, device, loader):
 
 
 def freeze_parameters(shooting_block, parameters_to_freeze):
-    pars = shooting_block.state_dict()
+    pars = dict(shooting_block.named_parameters())
     for pn in parameters_to_freeze:
         print('Freezing {}'.format(pn))
         pars[pn].requires_grad = False
-- 
2.43.0


From d937329198c85d603c6a366086e200c2a12d0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:09 +0000
Subject: [PATCH 33/37] fix: evaluate bouncing balls also for a batch of one
 sample

---
 demos/neurips20/balls.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demos/neurips20/balls.py b/demos/neurips20/balls.py
index 863c3aa..d99d916 100644
--- a/demos/neurips20/balls.py
+++ b/demos/neurips20/balls.py
@@ -250,9 +250,9 @@ def evaluate(args, model, loader):
     for inp in loader:
         inp = inp[0]
         inp = inp[:,0:20,...].to(device)
-        _, out = model(inp[:,0:3,...].squeeze())
-        R = out.cpu().detach().squeeze().numpy()[:,3:3+args.evaluate_ahead,...]
-        V = inp.cpu().detach().squeeze().numpy()[:,3:3+args.evaluate_ahead,...]
+        _, out = model(inp[:,0:3,...].squeeze(dim=2))
+        R = out.cpu().detach().squeeze(dim=2).numpy()[:,3:3+args.evaluate_ahead,...]
+        V = inp.cpu().detach().squeeze(dim=2).numpy()[:,3:3+args.evaluate_ahead,...]
         assert R.shape[0] == V.shape[0]
 
         for i in range(R.shape[0]):
@@ -372,7 +372,7 @@ if __name__ == '__main__':
             
             inp = inp[0]
             inp = inp[:,0:20,...].to(device)
-            _, out = model(inp[:,0:3,...].squeeze())
+            _, out = model(inp[:,0:3,...].squeeze(dim=2))
             diff = out.squeeze() - inp.squeeze()
             sim_loss = args.sim_weight * torch.mean(torch.pow(diff, 2.0))
             npe_loss = args.norm_weight * model.blk.get_norm_penalty()
-- 
2.43.0


From 5eef48118b02fa888739f32e7430e0f989006c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:09 +0000
Subject: [PATCH 34/37] fix: the spiral experiment's block uses the given
 maximal integration time

---
 demos/neurips20/spiral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5431c96..55a9a07 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -187,7 +187,7 @@ def setup_shooting_block(integrator=None, shooting_model='updown', parameter_wei
                                                        use_particle_free_time_dependent_mode=use_particle_free_time_dependent_mode,
                                                        nr_of_particle_free_time_dependent_steps=nr_of_particle_free_time_dependent_steps,
                                                        integrator=integrator,
-                                                       max_integration_time=max_integration_time)
+                                                       max_integration_time=max_integraton_time)
 
     return shooting_block
 
-- 
2.43.0


From 590f80490a09f17f8a51c92c32b26e4abbc38b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:22 +0000
Subject: [PATCH 35/37] fix: create the experiments' learning rate schedulers
 without the removed verbose argument

---
 demos/neurips20/simple_functional_mapping_example.py | 2 +-
 demos/neurips20/spiral.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/simple_functional_mapping_example.py b/demos/neurips20/simple_functional_mapping_example.py
index 3e97568..a906e9b 100644
--- a/demos/neurips20/simple_functional_mapping_example.py
+++ b/demos/neurips20/simple_functional_mapping_example.py
@@ -134,7 +134,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1, weight_decay=0):
     optimizer = optim.Adam(params, lr=lr, weight_decay=weight_decay)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True,factor=0.5)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,factor=0.5)
 
     return optimizer, scheduler
 
diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 55a9a07..281130e 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -197,7 +197,7 @@ def setup_optimizer_and_scheduler(params,lr=0.1):
     optimizer = optim.Adam(params, lr=lr)
 
     #scheduler = torch.optim.lr_scheduler.CosineAnnealingLR(optimizer, 3)
-    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer,verbose=True)
+    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer=optimizer)
 
     return optimizer, scheduler
 
-- 
2.43.0


From f3449ab5b0268c4feafd0921940f2169c95c80fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:31 +0000
Subject: [PATCH 36/37] fix: the third layer of the symmetrized model is
 divided by its own weight

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index c69ea3c..e0f3a81 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1832,7 +1832,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
+        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict3['weight'])
         par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0),weight_dict3['bias'])
         return p
 
-- 
2.43.0


From 64de13bb88239c4f5644d935fafac86f57463660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:27 +0000
Subject: [PATCH 37/37] fix: the optimal transport model works without a
 parameter weight (taken as one, as for the other models)

---
 neuro_shooting/shooting_integrands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index d6c41f0..9db2172 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -1142,7 +1142,9 @@ class OptimalTransportNonLinearInParameter(NonlinearInParameterAutogradShootingI
                 kinetic_energy += torch.sum(c_rhs_state_dict[ks]**2)
         #todo : introduce a penalty parameter.
         # TODO: is multiplying woth the parameter_weight correct here? This should be associated with the parameters
-        kinetic_energy = 0.5 * self.parameter_weight * kinetic_energy
+        if self.parameter_weight is not None:  # by default the weight is one
+            kinetic_energy = self.parameter_weight * kinetic_energy
+        kinetic_energy = 0.5 * kinetic_energy
         return kinetic_energy
 
     def compute_parameters_iteratively(self, t, state_dict_of_dicts, costate_dict_of_dicts):
-- 
2.43.0

