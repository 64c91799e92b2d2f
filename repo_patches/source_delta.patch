From 012668ae05cf3a0fed38ebe02e3b60fead02f574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 01/39] fix: preview frames apply the alive mask like the step
 does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..3a54f95 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -337,6 +337,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..351745b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -565,6 +565,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From cb7456a6e2bde70545d741fa64a79f6ccf6c0eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 02/39] fix: MetaCA advances and resets its clock

---
 yuca/metaca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yuca/metaca.py b/yuca/metaca.py
index 896310c..d6f026c 100644
--- a/yuca/metaca.py
+++ b/yuca/metaca.py
@@ -68,11 +68,14 @@ class MetaCA(CCA):
         self.dgrid = self.dgrid + self.ddt * update_update
         
         new_grid = torch.clamp(grid + self.dt * self.dgrid, 0, 1.0)
-        
+
+        self.t_count += self.dt.detach().cpu()
+
         return new_grid
 
     def reset(self):
 
+        self.t_count = 0.0
         self.dgrid = torch.tensor([0])
 
 if __name__ == "__main__":
-- 
2.43.0


From 9c0480b8d672c0d722354ee52614f6356b4ab0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 03/39] fix: get_dt works when the step size is a Python float

---
 yuca/ca/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 3a54f95..ee7a5bb 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -249,8 +249,9 @@ class CA(nn.Module):
 
     def get_dt(self):
 
-        # self.dt is a torch tensor
-        return self.dt.item()
+        # self.dt is a torch tensor, or a float in families that
+        # choose their own step size
+        return float(self.dt)
 
     def get_dx(self):
 
-- 
2.43.0


From 59f9cb160da7335d294aa3016d5256ec4acfd1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 04/39] fix: base CA starts with a reset clock

---
 yuca/ca/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index ee7a5bb..632ac1e 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -76,6 +76,7 @@ class CA(nn.Module):
 
         self.input_filepath = query_kwargs("input_filepath", None, **kwargs)
 
+        self.reset()
 
     def reset(self):
         
-- 
2.43.0


From 7400fa4131bdd2aaa0e13885974b6013441ce1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 05/39] fix: NCA.set_kernel_config rebuilds the convolution it
 configures

---
 yuca/ca/neural.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..a0109d3 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -130,6 +130,8 @@ class NCA(CA):
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
         self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
 
     def load_config(self, config):
 
-- 
2.43.0


From 4819e1ab718f137b56b736bdd8ace8e346cf02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 06/39] fix: cloned neural CA convolves with the kernel of the
 CA it clones

---
 yuca/clone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..8a43cf4 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -61,7 +62,7 @@ def clone_from_ca(**kwargs):
             nca = NCA(internal_channels=internal_channels,\
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
-            nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.set_kernel_config(copy.deepcopy(ca.neighborhood_kernel_config))
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From af4addd9a956bc30b224059333ae9d11a23ed73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 07/39] fix: Gray-Scott CA reports the radius of the kernel it
 loaded

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..6ee3441 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -87,6 +87,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From 17903b4c94945af3641b5bc06a65e527f53dddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 08/39] fix: changing the radius keeps the kernel made by
 default construction or set_params

---
 yuca/ca/common.py     | 9 +++++++++
 yuca/ca/continuous.py | 2 ++
 yuca/ca/neural.py     | 2 ++
 3 files changed, 13 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 632ac1e..f701a8d 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -284,6 +284,15 @@ class CA(nn.Module):
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
 
+    def update_kernel_config(self):
+        """
+        record the Gaussian mixture built from kernel_params as the kernel in use
+        """
+
+        self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                "kernel_kwargs": {"parameters": copy.deepcopy(self.kernel_params)}, \
+                "radius": self.kernel_radius}
+
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = kernel_config
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 351745b..08d03a5 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -286,6 +286,7 @@ class CCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.update_kernel_config()
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -684,6 +685,7 @@ class CCA(CA):
         nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                 parameters=self.kernel_params)
 
+        self.update_kernel_config()
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
         self.to_device(self.my_device)
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index a0109d3..5d74806 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -113,6 +113,7 @@ class NCA(CA):
             else:
                 nbhd_kernels = torch.cat([nbhd_kernels, nbhd_kernel], dim=0)
 
+        self.update_kernel_config()
         self.add_neighborhood_kernel(nbhd_kernels)
         self.initialize_neighborhood_layer()
 
@@ -363,6 +364,7 @@ class NCA(CA):
             nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
                     parameters=self.kernel_params)
 
+            self.update_kernel_config()
             self.add_neighborhood_kernel(nbhd_kernel)
             self.initialize_neighborhood_layer()
             self.to_device(self.my_device)
-- 
2.43.0


From c78f71d6d131db5c7a66fc7dd2de72619e64b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 09/39] fix: loading a configuration restores the identity
 kernel that was saved

---
 yuca/ca/continuous.py         | 13 +++++++++++--
 yuca/ca/neural.py             | 13 +++++++++++--
 yuca/ca/reaction_diffusion.py | 13 +++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 08d03a5..a6aa6ea 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -109,10 +109,19 @@ class CCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config writes "id_kernel_config", get_smooth_life_config
+        # and earlier configs use "identity_kernel_config"
+        if "identity_kernel_config" in config.keys():
+            self.id_kernel_config = config["identity_kernel_config"]
+        elif "id_kernel_config" in config.keys():
+            self.id_kernel_config = config["id_kernel_config"]
+        else:
+            self.id_kernel_config = None
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 5d74806..ff90352 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -142,10 +142,19 @@ class NCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config writes "id_kernel_config", get_smooth_life_config
+        # and earlier configs use "identity_kernel_config"
+        if "identity_kernel_config" in config.keys():
+            self.id_kernel_config = config["identity_kernel_config"]
+        elif "id_kernel_config" in config.keys():
+            self.id_kernel_config = config["id_kernel_config"]
+        else:
+            self.id_kernel_config = None
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 6ee3441..7784962 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -77,10 +77,19 @@ class RxnDfn(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        # make_config writes "id_kernel_config", get_smooth_life_config
+        # and earlier configs use "identity_kernel_config"
+        if "identity_kernel_config" in config.keys():
+            self.id_kernel_config = config["identity_kernel_config"]
+        elif "id_kernel_config" in config.keys():
+            self.id_kernel_config = config["id_kernel_config"]
+        else:
+            self.id_kernel_config = None
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
-- 
2.43.0


From 1357fe924b58f2d3ecf10d49f1f6c7995e57b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 10/39] fix: saved configurations hold the genesis and
 persistence functions in use

---
 yuca/ca/continuous.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index a6aa6ea..929a82c 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -223,8 +223,8 @@ class CCA(CA):
                     "mode": 1}
             self.genesis_fn_config = genesis_config
         else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
+            genesis_config = self.update_fn_config(self.genesis_fn_config, \
+                    self.genesis_fns)
 
         #if "parameters" in genesis_config.keys():
 
@@ -239,8 +239,8 @@ class CCA(CA):
                     "mode": 1}
             self.persistence_fn_config = persistence_config
         else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
+            persistence_config = self.update_fn_config(self.persistence_fn_config, \
+                    self.persistence_fns)
 
         #if "parameters" in persistence_config.keys():
 
@@ -266,6 +266,29 @@ class CCA(CA):
 
         return copy.deepcopy(config)
 
+    def update_fn_config(self, fn_config, fns):
+        """
+        copy of fn_config with the current parameters of the function built
+        from it, under the names that function's constructor reads
+        """
+
+        fn_config = copy.deepcopy(fn_config)
+
+        for fn in fns:
+            if isinstance(fn, GaussianMixture):
+                # (amplitude, mu, sigma) for each component
+                fn_config["parameters"] = torch.cat([torch.cat(\
+                        [fn.amplitudes[ii:ii+1], \
+                        gaussian.mu.detach().cpu().reshape(1), \
+                        gaussian.sigma.detach().cpu().reshape(1)]) \
+                        for ii, gaussian in enumerate(fn.gaussians)])
+            else:
+                for key in ["mu", "sigma", "coefficients"]:
+                    if hasattr(fn, key):
+                        fn_config[key] = getattr(fn, key).detach().cpu()
+
+        return fn_config
+
     def save_config(self, filepath, config=None):
 
         if config is None:
@@ -358,6 +381,9 @@ class CCA(CA):
                 self.add_genesis_fn(genesis_config)
                 self.add_persistence_fn(persistence_config)
 
+                self.genesis_fn_config = genesis_config
+                self.persistence_fn_config = persistence_config
+
 
         self.set_dt(0.1)
 
-- 
2.43.0


From 7f8bcf4e7028749a86b0470daf1f1eb6fd64295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:32 +0000
Subject: [PATCH 11/39] fix: a CA keeps its own copy of the configuration it is
 given

---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 5 ++++-
 yuca/ca/neural.py             | 7 +++++--
 yuca/ca/reaction_diffusion.py | 3 +++
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index f701a8d..27085c2 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -295,7 +295,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 929a82c..d7c0716 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -101,6 +101,9 @@ class CCA(CA):
 
     def load_config(self, config):
 
+        # the CA changes its configuration, the caller keeps theirs
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
@@ -255,7 +258,7 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = copy.copy(self.instant_kwargs)
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index ff90352..8c572f9 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -124,7 +124,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
@@ -136,6 +136,9 @@ class NCA(CA):
 
     def load_config(self, config):
 
+        # the CA changes its configuration, the caller keeps theirs
+        config = copy.deepcopy(config)
+
         if "instant_kwargs" in config.keys():
             self.__init__(**config["instant_kwargs"])
 
@@ -253,7 +256,7 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        config["instant_kwargs"] = copy.copy(self.instant_kwargs)
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 7784962..530096a 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -75,6 +75,9 @@ class RxnDfn(CA):
 
     def load_config(self, config, verbose=False):
 
+        # the CA changes its configuration, the caller keeps theirs
+        config = copy.deepcopy(config)
+
         self.config = config
 
         # make_config writes "id_kernel_config", get_smooth_life_config
-- 
2.43.0


From 3292fc3ba463ee4e0ec46c560ffaa8c531cb5183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 12/39] fix: a saved configuration does not load the files its
 CA was started from

---
 yuca/ca/continuous.py | 5 ++++-
 yuca/ca/neural.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index d7c0716..cf92dc4 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -258,7 +258,10 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = copy.copy(self.instant_kwargs)
+        # except the files it was started from: this config stands for them
+        config["instant_kwargs"] = {key: value \
+                for key, value in self.instant_kwargs.items() \
+                if key not in ["ca_config", "input_filepath"]}
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 8c572f9..0ddb182 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -256,7 +256,10 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = copy.copy(self.instant_kwargs)
+        # except the files it was started from: this config stands for them
+        config["instant_kwargs"] = {key: value \
+                for key, value in self.instant_kwargs.items() \
+                if key not in ["ca_config", "input_filepath"]}
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
-- 
2.43.0


From 9d59ccdb20b41e9524d9c17e03e5e4a246200272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 13/39] fix: signed DoGaussian is twice the difference minus
 one, not g1 - 2*g2 - 1

---
 yuca/activations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/activations.py b/yuca/activations.py
index e8332c7..43c813a 100644
--- a/yuca/activations.py
+++ b/yuca/activations.py
@@ -369,7 +369,7 @@ class DoGaussian(nn.Module):
                 - (((x-self.dx) - self.mu) / (eps + self.sigma))**2 / 2 )
 
         if self.mode:
-            result = gaussian_1 - gaussian_2 * 2 -1
+            result = (gaussian_1 - gaussian_2) * 2 -1
         else:
             result = gaussian_1 - gaussian_2
 
-- 
2.43.0


From 53e961bc253ae7d22e0a2e84b0dc5a3ae319ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 14/39] fix: carry every elite to the next generation with its
 own parameters

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..fa1b175 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,7 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            self.population[kk].set_params(self.elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 7db1d5099f979f08bdf9b3bdd502da6cdec322d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 15/39] fix: rank the evaluated population when evolution stops
 early

---
 yuca/cmaes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index fa1b175..cc5f453 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -517,7 +517,11 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
+                # decide before the population is resampled: the final ranking
+                # needs the individuals that the fitness values belong to
+                stop_early = np.std(fitness) < 0.02 and generation > 6
+
+                if generation == self.generations - 1 or stop_early:
                     self.rank_population(fitness, seed=my_seed)
                 else:
                     self.update_population(fitness)
@@ -561,8 +565,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if stop_early:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From eb5662c850d1a72f23ccc2b3fb3d4330608c8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 16/39] fix: save the rule, not the pattern weights, of the
 best co-evolved individual

---
 yuca/cmaes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index cc5f453..9366b4b 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -227,11 +227,15 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.set_rule(elite_pop[0])
 
         self.env.ca.save_config(ca_config_filepath)
 
 
+    def set_rule(self, agent):
+
+        self.env.ca.set_params(agent.get_params())
+
     def update_population(self, fitness):
 
         if self.selection_mode == 0:
@@ -627,6 +631,11 @@ class CMACES(CMAES):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
+    def set_rule(self, agent):
+
+        rule_action, _ = agent.get_action()
+        self.env.ca.set_params(rule_action)
+
     def get_fitness(self, agent_index, steps=10, replicates=1, seed=13):
 
         fitness_replicates = []
-- 
2.43.0


From 96a1ed3d91f1925db1de4f86422403da7aa9a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 17/39] fix: sample the population once per seed (half of it
 was never evaluated)

---
 yuca/cmaes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9366b4b..bf34fc0 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -445,7 +445,6 @@ class CMAES():
 
             seed_all(my_seed)
             self.reset()
-            self.initialize_population()
             
             self.generation = 0
 
-- 
2.43.0


From 5dd0b63da16a3ca1638b8fc9e3fa3cd84ff5ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 18/39] fix: start each seed from the starting elites, not
 those of the previous seed

---
 yuca/cmaes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index bf34fc0..d50df36 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -110,7 +110,8 @@ class CMAES():
                         f" agent_fn {self.agent_fn.__class__.__name__}"
 
                 print(params_msg)
-                
+
+        self.starting_elite_params = self.elite_params
 
     def sample_distribution(self):
 
@@ -121,6 +122,7 @@ class CMAES():
         self.means = 1.0 * self.starting_means
         self.covar = 1.0 * self.starting_covar
         self.population = []
+        self.elite_params = self.starting_elite_params
         self.initialize_population()
 
     def initialize_population(self):
-- 
2.43.0


From 527e171fa303bc71d9ea80fe1bc14ac9d03400d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 19/39] fix: log each seed's own generations, not also those of
 the seeds before it

---
 yuca/cmaes.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index d50df36..2b2c0c7 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -426,16 +426,6 @@ class CMAES():
 
         t0 = time.time()
 
-        progress = {}
-        progress["elite_params"] = []
-        progress["elite_configs"] = []
-        progress["mean_fitness"] = []
-        progress["max_fitness"] = []
-        progress["min_fitness"] = []
-        progress["std_dev_fitness"] = []
-        progress["kwargs"] = self.kwargs
-        progress["distribution"] = []
-
         print(f"begin evolution with:\n" \
                 f"selection mode {self.selection_mode} " \
                 f"prediction motivator mode {self.prediction_mode}")
@@ -445,6 +435,16 @@ class CMAES():
         for my_seed in self.my_seed:
             print(f"random seed {my_seed}")
 
+            progress = {}
+            progress["elite_params"] = []
+            progress["elite_configs"] = []
+            progress["mean_fitness"] = []
+            progress["max_fitness"] = []
+            progress["min_fitness"] = []
+            progress["std_dev_fitness"] = []
+            progress["kwargs"] = self.kwargs
+            progress["distribution"] = []
+
             seed_all(my_seed)
             self.reset()
             
-- 
2.43.0


From a8719bf5c71cb5c6f62f88cb99cb1c9d468b8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 20/39] fix: one worker runs the serial loop instead of
 dividing by zero

---
 yuca/cmaes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 2b2c0c7..50c48c3 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -399,7 +399,7 @@ class CMAES():
             env = os.environ.copy()
             env.update(\
                     MKL_NUM_THREADS="1", \
-                    OMP_NUM_THREAdS="1",\
+                    OMP_NUM_THREADS="1",\
                     IN_MPI="1",\
                     )
             print( ["mpirun", "-np", str(self.workers), sys.executable] + sys.argv)
@@ -473,7 +473,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From 7c6598442d2b3f696fd36e087a312de54c64448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 21/39] fix: evaluate co-evolved individuals in inference mode

---
 yuca/cmaes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 50c48c3..99cd617 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -649,6 +649,7 @@ class CMACES(CMAES):
 
             self.env.reset()
             self.env.to_device(self.my_device)
+            self.env.eval()
 
             for step in range(steps):
                 rule_action, pattern_action = self.population[agent_index].get_action()
-- 
2.43.0


From 6ed7b6a2f3e7c5bb9cdc2e4afac3eb6b3a160cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 22/39] fix: HaltingWrapper.eval puts its CA in inference mode

---
 yuca/wrappers/halting_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..bac0dab 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -204,6 +204,7 @@ class HaltingWrapper(nn.Module):
 
     def eval(self):
 
+        self.ca.eval()
         self.final_layer.eval()
         for jj in range(len(self.layers)):
             self.layers[jj].eval()
-- 
2.43.0


From e8ce5f89bc168173c43cf4288e3ae6c3ae46e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 23/39] fix: GliderWrapper.to_device moves its CA too

---
 yuca/wrappers/glider_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 44c1d3e..11f404b 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -151,6 +151,7 @@ class GliderWrapper():
 
     def to_device(self, device):
         
+        self.ca.to_device(device)
         self.my_device = torch.device(device)
 
         self.x_grid = self.x_grid.to(self.my_device)
-- 
2.43.0


From 5d597c0a4622f73c112379417440b0412c2bc51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 24/39] fix: seed the generators before the starting
 distribution is drawn

---
 yuca/cmaes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 99cd617..ffb5129 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -33,6 +33,9 @@ class CMAES():
         if type(self.my_seed) is not list:
             self.my_seed = [self.my_seed]
 
+        # the starting distribution is drawn here, by the agent and the CA
+        seed_all(self.my_seed[0])
+
         self.dim = query_kwargs("dim", 64, **kwargs)
         self.ca_steps = query_kwargs("ca_steps", 512, **kwargs)
         self.replicates = query_kwargs("replicates", 3, **kwargs)
-- 
2.43.0


From adfe4d33d5180266daa721f0ad84abc7e89ace7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 25/39] fix: SimpleHaltingWrapper evaluates each individual
 from a reset CA

---
 yuca/wrappers/halting_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index bac0dab..78578a2 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,7 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
-
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim).to(self.ca.my_device)
-- 
2.43.0


From fbc7ddd97857281b0a2be8a425ae3efc1868d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:16 +0000
Subject: [PATCH 26/39] fix: resetting CODE forgets the step of the previous
 trajectory

---
 yuca/code.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..39aed51 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -43,9 +43,11 @@ from yuca.ca.continuous import CCA
 class CODE(CCA):
 
     def __init__(self, **kwargs):
+        # the step that a trajectory starts from, restored by reset
+        self.starting_dt = query_kwargs("prev_dt", 0.3, **kwargs)
+
         super(CODE, self).__init__(**kwargs)
     
-        self.prev_dt = query_kwargs("prev_dt", 0.3, **kwargs)
         self.max_dt = query_kwargs("max_dt", 0.5, **kwargs)
         self.min_dt = query_kwargs("min_dt", 0.01, **kwargs)
         self.error_threshold = query_kwargs("error_threshold", 1e-3, **kwargs)
@@ -56,6 +58,7 @@ class CODE(CCA):
     def reset(self):
 
         self.t_count = 0.0
+        self.prev_dt = self.starting_dt
 
     def adaptive_euler(self, grid, total_step=0.0):
         
-- 
2.43.0


From f16b3914937bfbec31ec438568cdddf7e254c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 27/39] fix: CPPN input has 16 channels per external channel,
 also for more than two

---
 yuca/cppn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..30dc575 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -135,9 +135,9 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        # one copy of the coordinate channels (and radius) per channel
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From 34360a711801debd73c35af2c451cca4c4356e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 28/39] fix: a CPPN built from a parameter vector holds that
 vector

---
 yuca/cppn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index 30dc575..5eb3891 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,10 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        if "params" in kwargs.keys():
+            # CPPNPlus passes its rule parameters behind those of the pattern
+            CPPN.set_params(self, kwargs["params"])
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From 8b4bbf6c44715bc5bd96df7c65574ef8b331ef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 29/39] fix: pattern metadata reads back as it was stored
 (commas, line breaks, missing fields)

---
 yuca/zoo/librarian.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..9ae6bf6 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -1,3 +1,4 @@
+import csv
 import os
 
 import numpy as np
@@ -71,11 +72,13 @@ class Librarian():
             else:
                 config_name = ca_config
 
-        with open(meta_path, "w") as f:
-            f.write(f"ca_config,{config_name}")
-            f.write(f"\ncommit_hash,{commit_hash}")
-            f.write(f"\nnotes, {notes}")
-            f.write(f"\nentry_point,{entry_point}")
+        with open(meta_path, "w", newline="") as f:
+            # quotes the values that contain commas or line breaks
+            writer = csv.writer(f)
+            writer.writerow(["ca_config", str(config_name)])
+            writer.writerow(["commit_hash", str(commit_hash)])
+            writer.writerow(["notes", str(notes)])
+            writer.writerow(["entry_point", str(entry_point)])
 
         np.save(file_path, pattern) 
 
@@ -95,25 +98,14 @@ class Librarian():
 
         pattern = np.load(file_path)
 
-        with open(meta_path) as f:
-            metadata = f.readlines()
+        with open(meta_path, newline="") as f:
+            # older files have unquoted values, commas included, and fewer fields
+            metadata = {row[0]: ",".join(row[1:]) for row in csv.reader(f) if row}
 
-            ca_config = metadata[0].split(",")[1]
-
-            try:
-                entry_point = metadata[3].split(",")[1]
-            except:
-                entry_point = "none"
-
-            try:
-                notes = metadata[2].split(",")[1]
-            except:
-                notes = ""
-
-            try:
-                commit_hash = metadata[1].split(",")[1]
-            except:
-                commit_hash = "none"
+        ca_config = metadata["ca_config"]
+        entry_point = metadata.get("entry_point", "none")
+        notes = metadata.get("notes", "")
+        commit_hash = metadata.get("commit_hash", "none")
 
         if self.verbose:
             print(f"pattern {pattern_name} loaded from {file_path}")
-- 
2.43.0


From 662f27d7b1c7710c75443105837d74023ce53170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 30/39] fix: a quiet librarian records the configuration too

---
 yuca/zoo/librarian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 9ae6bf6..6810243 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -66,11 +66,11 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
-                print(f"warning, no config supplied for {pattern_name}")
-            else:
+        if config_name == "unspecified":
+            if ca_config != "unspecified":
                 config_name = ca_config
+            elif self.verbose:
+                print(f"warning, no config supplied for {pattern_name}")
 
         with open(meta_path, "w", newline="") as f:
             # quotes the values that contain commas or line breaks
-- 
2.43.0


From 4960ffb56ca8904d19aace7c6f15993696b52cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 31/39] fix: rendering removes its frames without a shell
 (paths with spaces or metacharacters)

---
 yuca/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..e57ff0a 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 
 import time
 import numpy as np
@@ -177,9 +178,9 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     first_frame.save(gif_path, format="GIF", append_images=frames, \
             save_all=True, duration=42, loop=0)
 
-    rm_path = os.path.join(frames_path, "*png")
-
-    os.system(f"rm {rm_path}")
+    for filename in dir_list:
+        if filename.endswith("png"):
+            os.remove(os.path.join(frames_path, filename))
 
 def save_fig_sequence(grid, ca, num_steps=10, \
         frames_path="./assets/gif_frames", \
@@ -205,8 +206,7 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     leading = num_steps // 10 + 1
 
     if not os.path.exists(frames_path):
-        my_cmd = f"mkdir -p {frames_path}"
-        os.system(my_cmd)
+        os.makedirs(frames_path)
 
     if type(tag) is str:
         gif_path = os.path.join(gif_path, tag)
@@ -255,5 +255,5 @@ def save_fig_sequence(grid, ca, num_steps=10, \
     else: 
         print("vanishing grid, no gif made")
 
-    os.system(f"rm -r {frames_path}")
+    shutil.rmtree(frames_path)
     #ca.to_device(old_device)
-- 
2.43.0


From fe2ad752bfbe1847a2c4701e18d805c7996037be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 32/39] fix: StepPredictor trains and evaluates itself, not a
 global named model

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..5d3f869 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -102,7 +102,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -126,7 +126,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -174,7 +174,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From 75c8f45bec1ea5e3e9ddc03ac1831c2801ba19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 33/39] fix: StepPredictor applies all of its layers

---
 yuca/step_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 5d3f869..53bb800 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -68,7 +68,7 @@ class StepPredictor(nn.Module):
                     
     def forward(self, x):
 
-        for jj in range(0, self.layer_repeats, 2):
+        for jj in range(0, 2 * self.layer_repeats, 2):
             
             x0 = torch.relu(self.conv_layers[jj](x))
             x1 = F.dropout(x0, p = self.dropout, training=self.training)
-- 
2.43.0


From 30dd03e8c000b1b1d8adec913a5b9423f1559e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/39] fix: StepPredictor saves its model in the models
 directory

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 53bb800..4c25486 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -154,11 +154,11 @@ class StepPredictor(nn.Module):
                         "epochs": epochs,\
                         "val_loss": val_losses}
 
-                save_path = os.path.split(os.path.split(\
+                root_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
-                model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(root_path, "logs", f"{self.exp_tag}.npy")
+                model_save_path = os.path.join(root_path, "models", f"{self.exp_tag}_model.pt")
 
                 np.save(save_path, progress)
                 torch.save(self.state_dict(), model_save_path)
-- 
2.43.0


From 83b83fb4a2022136129b90af9b8a7aec6d353641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 35/39] fix: cloning saves the weights that had the best error,
 not the last ones

---
 yuca/clone.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 8a43cf4..9ba4ea5 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -98,11 +98,6 @@ def clone_from_ca(**kwargs):
                     loss = ((target-predicted).abs() / (1e-9 + target.abs())).mean()
                     #(F.mse_loss(predicted, target) + F.mae_loss(predicted, target))
 
-                    loss.backward()
-                    clipping_value = 1e-1 
-                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
-                    optimizer.step()
-
                     if smooth_loss is None:
                         smooth_loss = loss.detach()
                     else:
@@ -115,7 +110,7 @@ def clone_from_ca(**kwargs):
 
                         if relative_error < best_error:
                             best_error = relative_error
-                            best_state_dict = nca.state_dict()
+                            best_state_dict = copy.deepcopy(nca.state_dict())
 
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
@@ -125,6 +120,10 @@ def clone_from_ca(**kwargs):
                         if iteration_best_error < error_threshold:
                             break
 
+                    loss.backward()
+                    clipping_value = 1e-1 
+                    torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
+                    optimizer.step()
 
                     if step % display_every == 0:
                         new_params = nca.get_params()
-- 
2.43.0


From d462c258a90adb92dab3f41048eab72614a826f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 36/39] fix: cloning several configurations saves each under
 its own name

---
 yuca/clone.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9ba4ea5..af115a7 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -36,8 +36,6 @@ def clone_from_ca(**kwargs):
     save_path = os.path.join(log_directory, save_name)
 
 
-    best_state_dict = None
-    
     ca_configs = query_kwargs("ca_config", "orbium", **kwargs)
     if type(ca_configs) == str:
         ca_configs = [ca_configs]
@@ -53,6 +51,7 @@ def clone_from_ca(**kwargs):
 
         iteration = 0
         best_error = float("Inf")
+        best_state_dict = None
 
         t0 = time.time()
         while iteration < max_iterations:
@@ -149,14 +148,13 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
-        if "ca_config" in save_path:
-            config_name = os.path.splitext(ca_config)[0] 
-            save_path = save_path.replace("ca_config", config_name)
+        config_name = os.path.splitext(ca_config)[0] 
+        config_save_path = save_path.replace("ca_config", config_name)
 
-        msg += f"saving to {save_path}"
+        msg += f"saving to {config_save_path}"
         print(msg)
 
-        torch.save(best_state_dict, save_path)
+        torch.save(best_state_dict, config_save_path)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 455177a73d88c3b9b47f9f2cfd82d3ca6023d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 37/39] fix: conditional entropy counts the cells that hold
 both values

---
 yuca/analyze.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..ce8b9da 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -113,7 +113,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +124,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            p_s_given_u[kk, ll] = p[kk,ll] / (eps + np.sum(p[:,ll]))
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From 47a43c56d69c19b005ff34ec3c31f9365288fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 38/39] fix: label the maximum and minimum fitness curves as
 such

---
 yuca/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/plot.py b/yuca/plot.py
index 4320284..09061dd 100644
--- a/yuca/plot.py
+++ b/yuca/plot.py
@@ -63,10 +63,10 @@ def plot_exp(**kwargs):
             color = my_cmap(128))
     plt.plot([gen for gen in range(len(mean_fitness))], \
             max_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="max fitness")
     plt.plot([gen for gen in range(len(mean_fitness))], \
             min_fitness, "--", lw=1, alpha = 0.95, color = "k",\
-            label="mean fitness")
+            label="min fitness")
     plt.fill_between([gen for gen in range(len(mean_fitness))], \
             mean_fitness - std_dev_fitness, mean_fitness + std_dev_fitness,\
             alpha=0.25, color = my_cmap(128))
-- 
2.43.0


From 72e4f3be9515cc617aa98af8f16442c0e5c25a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 39/39] fix: prep_input defaults to the image's number of
 channels, not its batch size

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index e57ff0a..03fc08b 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -67,7 +67,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0

