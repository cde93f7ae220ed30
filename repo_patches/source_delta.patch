From d5c4b234804bffcebd6d429af2edb5da11775208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 01/40] fix: VAmp port requests address its port keys directly

---
 phasor/electronics/opamps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index 24ae1be..b2fdec9 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -119,10 +119,10 @@ class VAmp(elements.ElectricalElementBase):
             (self.in_n.i, self.in_n.o),
             (self.out.i, self.out.o),
         ):
-            for kfrom in ports_algorithm.port_update_get(port1.i):
-                ports_algorithm.port_coupling_needed(port2.o, kfrom)
-            for kto in ports_algorithm.port_update_get(port2.o):
-                ports_algorithm.port_coupling_needed(port1.i, kto)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(port2, kfrom)
+            for kto in ports_algorithm.port_update_get(port2):
+                ports_algorithm.port_coupling_needed(port1, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 8cdeb54281fe0315b7fbe8547a4b94d99f58cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 02/40] fix: ForceReadout requests its output for every key at
 the terminal

---
 phasor/mechanical/multimeter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phasor/mechanical/multimeter.py b/phasor/mechanical/multimeter.py
index dd8f778..9d6f8f2 100644
--- a/phasor/mechanical/multimeter.py
+++ b/phasor/mechanical/multimeter.py
@@ -76,6 +76,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
 
     @decl.dproperty
     def terminal(self, port):
+        self.system.own_port_virtual(self, port.i)
+        self.system.own_port_virtual(self, port.o)
         return port
 
     @decl.dproperty
@@ -91,8 +93,8 @@ class ForceReadout(readouts.DCReadout, elements.MechanicalElementBase):
         #this linear port into the readout ports
         ports = [self.terminal.i, self.terminal.o]
         for port1 in ports:
-            #for kfrom in ports_algorithm.port_update_get(port1):
-            #    ports_algorithm.port_coupling_needed(self.d.o, kfrom)
+            for kfrom in ports_algorithm.port_update_get(port1):
+                ports_algorithm.port_coupling_needed(self.F.o, kfrom)
             for kto in ports_algorithm.port_update_get(self.F.o):
                 ports_algorithm.port_coupling_needed(port1, kto)
         return
-- 
2.43.0


From dbded8bb9fd018c7387b9ccf390fb7f004fd6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 03/40] fix: MagicPD requests its back input for keys needed at
 its front output

---
 phasor/optics/photodiode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/optics/photodiode.py b/phasor/optics/photodiode.py
index 0c9b1ab..d50bc99 100644
--- a/phasor/optics/photodiode.py
+++ b/phasor/optics/photodiode.py
@@ -153,6 +153,8 @@ class MagicPD(
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.i][0], kfrom)
         for kto in ports_algorithm.port_update_get(self.po_Bk.o):
             ports_algorithm.port_coupling_needed(pmap[self.po_Bk.o][0], kto)
+        for kto in ports_algorithm.port_update_get(self.po_Fr.o):
+            ports_algorithm.port_coupling_needed(pmap[self.po_Fr.o][0], kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
-- 
2.43.0


From 4e8a532541ea5e9bc88e98c2769caa54fafd9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 04/40] fix: MatrixAmplifier files output ports under their
 output names

---
 phasor/signals/amplifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/amplifiers.py b/phasor/signals/amplifiers.py
index c3fdda5..e9b6154 100644
--- a/phasor/signals/amplifiers.py
+++ b/phasor/signals/amplifiers.py
@@ -103,7 +103,7 @@ class MatrixAmplifier(bases.CouplerBase, bases.SystemElementBase):
             if iname not in self.ps_In:
                 self.ps_In[iname] = ports.SignalInPort(sname = iname)
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = ports.SignalOutPort(sname = oname)
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 087128991218bea323e27e35ccadf22c330b6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 05/40] fix: StateSpaceModel feedthrough drives the output
 ports

---
 phasor/signals/state_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/signals/state_space.py b/phasor/signals/state_space.py
index e39890c..1da5a56 100644
--- a/phasor/signals/state_space.py
+++ b/phasor/signals/state_space.py
@@ -104,7 +104,7 @@ class StateSpaceModel(
                         ports_algorithm.port_coupling_needed(p_state.node, kfrom)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         ports_algorithm.port_coupling_needed(p_out.o, kfrom)
@@ -179,7 +179,7 @@ class StateSpaceModel(
                         matrix_algorithm.port_coupling_insert(p_in.i, kfrom, p_state.node, kfrom, D_cplg)
                 #in 2 out (D)
                 for idx_out in range(N_out):
-                    p_out = self.ports_states[idx_out]
+                    p_out = self.ports_out[idx_out]
                     cplg = self.D[idx_out, idx_in]
                     if cplg != 0:
                         #print("    ", p_out)
-- 
2.43.0


From 4b14d7b23b82f4e307b35413036abd58cf4cf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 06/40] fix: TransferFunctionMIMO files output ports under
 their output names

---
 phasor/signals/mimo_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/mimo_filter.py b/phasor/signals/mimo_filter.py
index 8775bad..5d5e92f 100644
--- a/phasor/signals/mimo_filter.py
+++ b/phasor/signals/mimo_filter.py
@@ -37,7 +37,7 @@ class TransferFunctionMIMO(CouplerBase, SystemElementBase):
             if iname not in self.ps_In:
                 self.ps_In[iname] = ports.SignalInPort(sname = iname)
             if oname not in self.O:
-                self.O[iname] = ports.SignalOutPort(sname = oname)
+                self.O[oname] = ports.SignalOutPort(sname = oname)
         return
 
     def system_setup_ports(self, ports_algorithm):
-- 
2.43.0


From 54ac607c3df9976038f5f0bed3dd6145f9db98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 07/40] fix: selector back ports inject from themselves, only
 the light they select

---
 phasor/optics/selectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phasor/optics/selectors.py b/phasor/optics/selectors.py
index c77821e..617aeff 100644
--- a/phasor/optics/selectors.py
+++ b/phasor/optics/selectors.py
@@ -58,9 +58,11 @@ class PolSelector(
             else:
                 assert(False)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_P.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            if ports.PolP & kfrom:
+                matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
         for kfrom in matrix_algorithm.port_set_get(self.Bk_S.i):
-            matrix_algorithm.port_coupling_insert(self.Bk_P.i, kfrom, self.po_Fr.o, kfrom, 1)
+            if ports.PolS & kfrom:
+                matrix_algorithm.port_coupling_insert(self.Bk_S.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
@@ -128,7 +130,8 @@ class GenericSelector(bases.OpticalCouplerBase, bases.SystemElementBase):
             assert(N_selections == 1)
         for pname, (port, key) in list(self.port_map.items()):
             for kfrom in matrix_algorithm.port_set_get(port.i):
-                matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
+                if key & kfrom:
+                    matrix_algorithm.port_coupling_insert(port.i, kfrom, self.po_Fr.o, kfrom, 1)
         return
 
 
-- 
2.43.0


From 5192d6bd4b1c9c3f0e7dc9f383ea8028bbebb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 08/40] fix: modulated optical outputs request inputs through
 the drive port, not the readout port

---
 phasor/optics/nonlinear_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/nonlinear_utilities.py b/phasor/optics/nonlinear_utilities.py
index a693ea5..dab15a5 100644
--- a/phasor/optics/nonlinear_utilities.py
+++ b/phasor/optics/nonlinear_utilities.py
@@ -125,8 +125,8 @@ def ports_fill_2optical_2classical(
 
     for port in ports_out_optical:
         pto = port.o
-        if out_port_classical is not None:
-            for kto, lkfrom in ports_algorithm.symmetric_update(pto, out_port_classical):
+        if in_port_classical is not None:
+            for kto, lkfrom in ports_algorithm.symmetric_update(pto, in_port_classical):
                 if kto.contains(ports.LOWER):
                     ffromOptP = kto[ports.ClassicalFreqKey] - lkfrom[ports.ClassicalFreqKey]
                 else:
-- 
2.43.0


From 96117aa53db54c1f96d5b456e24cdfe2dc0adbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 09/40] fix: Mirror backscatter requests its modulation
 sidebands

---
 phasor/optics/mirror.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 4f7f865..62e889c 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -263,6 +263,11 @@ class Mirror(
         }
         rmapL = dict((k.i, [v.o]) for k, v in list(rmap.items()))
         rmapL.update((k.o, [v.i]) for k, v in list(rmap.items()))
+        if np.any(self.R_backscatter != 0):
+            #backscattered light is modulated (and back-acts) just as the reflected light is
+            for k, v in list(rBSmap.items()):
+                rmapL[k.i].append(v.o)
+                rmapL[k.o].append(v.i)
 
         #TODO these will have to be made symbolic compatible
         R = 1 - self.T_hr - self.L_hr - self.R_backscatter
-- 
2.43.0


From 1471ffabe321e209c2a9ae91454f1512fe4db7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 10/40] fix: Mirror backscatter uses the backscatter phase

---
 phasor/optics/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index 62e889c..e8a8922 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -458,8 +458,8 @@ class Mirror(
                     R_cplgC  = R_cplg
 
                     if np.any(self.backscatter_phase_rad.val != 0):
-                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.phase_rad.val)
-                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.phase_rad.val)
+                        R_cplg   = R_cplg * self.symbols.math.exp(self.symbols.i * self.backscatter_phase_rad.val)
+                        R_cplgC  = R_cplgC * self.symbols.math.exp(-self.symbols.i * self.backscatter_phase_rad.val)
 
                     modulations_fill_2optical_2classical(
                         system             = self.system,
-- 
2.43.0


From 5d3012c8eed440628df6837361fa3060c1bae6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 11/40] fix: Mirror loss outputs request the loss inputs

---
 phasor/optics/mirror.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/mirror.py b/phasor/optics/mirror.py
index e8a8922..ccb38e6 100644
--- a/phasor/optics/mirror.py
+++ b/phasor/optics/mirror.py
@@ -306,7 +306,7 @@ class Mirror(
                     ports_algorithm.port_coupling_needed(port.o, kfrom)
                     ports_algorithm.port_coupling_needed(lmap[port].o, kfrom)
                 for kto in ports_algorithm.port_update_get(port.o):
-                    ports_algorithm.port_coupling_needed(port.o, kto)
+                    ports_algorithm.port_coupling_needed(port.i, kto)
                     ports_algorithm.port_coupling_needed(lmap[port].i, kto)
 
         ports_fill_2optical_2classical(
-- 
2.43.0


From f2e24d81541dabf9a1e26fc3306b0bd7bfac7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 12/40] fix: EZSqz loss ports couple on their own keys and
 request both sides

---
 phasor/optics/EZSqz.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/phasor/optics/EZSqz.py b/phasor/optics/EZSqz.py
index 97562a7..54bf47b 100644
--- a/phasor/optics/EZSqz.py
+++ b/phasor/optics/EZSqz.py
@@ -240,6 +240,14 @@ class EZSqz(
                 elif kto.contains(ports.RAISE):
                     kfromR = kto.replace_keys({ports.ClassicalFreqKey: reflected_SB}, ports.LOWER)
                 ports_algorithm.port_coupling_needed(tmap[port].i, kfromR)
+
+        for port in self.ports_optical_loss:
+            for kfrom in ports_algorithm.port_update_get(port.i):
+                ports_algorithm.port_coupling_needed(port.o, kfrom)
+                ports_algorithm.port_coupling_needed(lmap[port].o, kfrom)
+            for kto in ports_algorithm.port_update_get(port.o):
+                ports_algorithm.port_coupling_needed(port.i, kto)
+                ports_algorithm.port_coupling_needed(lmap[port].i, kto)
         return
 
     def system_setup_coupling(self, matrix_algorithm):
@@ -302,13 +310,6 @@ class EZSqz(
                     kfrom,
                     lR,
                 )
-                matrix_algorithm.port_coupling_insert(
-                    pto.i,
-                    kfrom,
-                    port.o,
-                    kfrom,
-                    lR,
-                )
 
         #to keep the matrix with loss ports unitary
         for port in self.ports_optical_loss:
@@ -320,6 +321,13 @@ class EZSqz(
                     kfrom,
                     lT,
                 )
+                matrix_algorithm.port_coupling_insert(
+                    port.i,
+                    kfrom,
+                    lmap[port].o,
+                    kfrom,
+                    lR,
+                )
         return
 
 
-- 
2.43.0


From 4242abd55a027f418eea51d8128ab321b5800a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 13/40] fix: the max_freq cutoff reads frequency values and
 treats both signs alike

---
 phasor/system/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index f837310..068b68f 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -291,8 +291,8 @@ class BGSystem(RootElement):
         #TODO put this logic in a subobject
         freq_Hz = 0
         for F, n in list(key[ClassicalFreqKey].F_dict.items()):
-            freq_Hz += n * F.F_Hz
-        if np.any(freq_Hz < max_freq):
+            freq_Hz += n * F.F_Hz.val
+        if np.any(abs(freq_Hz) < max_freq):
             return False
         return True
 
-- 
2.43.0


From 26c9e30a4ca71d8cdc90efd6622241a8582c85be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 14/40] fix: string ends match against the wave reference
 itself, not its velocity form

---
 phasor/mechanical/string.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/mechanical/string.py b/phasor/mechanical/string.py
index 0749be0..91ff4e0 100644
--- a/phasor/mechanical/string.py
+++ b/phasor/mechanical/string.py
@@ -101,22 +101,22 @@ class ZConverter(smatrix.SMatrix2PortBase):
         return val
 
     def S11_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return (Y1 - Y2) / (Y1 + Y2)
 
     def S12_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return 2 * Y1/(Y1 + Y2)
 
     def S21_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return 2 * Y2/(Y1 + Y2)
 
     def S22_by_freq(self, F):
-        Y1 = self.symbols.i2pi * F * 1/self.Zm_termination + 1e-18
+        Y1 = 1/self.Zm_termination
         Y2 = self.symbols.i2pi * F * self.mobility_Ns_m + 1e-18
         return (Y2 - Y1) / (Y1 + Y2)
 
-- 
2.43.0


From e1272ac1b5c89b665b34657589ebf185a7747217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 15/40] fix: electrical Cable delays by its length in
 nanoseconds

---
 phasor/electronics/elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/electronics/elements.py b/phasor/electronics/elements.py
index b99769c..1b25c1e 100644
--- a/phasor/electronics/elements.py
+++ b/phasor/electronics/elements.py
@@ -163,7 +163,7 @@ class Cable(Electrical2PortBase):
         return val
 
     def phase_advance(self, F):
-        return self.symbols.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns)
+        return self.symbols.math.exp(-2 * self.symbols.i * self.symbols.pi * F * self.length_ns * 1e-9)
 
     def system_setup_ports(self, ports_algorithm):
         #TODO could reduce these with more information about used S-matrix elements
-- 
2.43.0


From 109d4167b853a45d6ba4146eadc9d454309be07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 16/40] fix: a constant spring loss angle is odd in frequency

---
 phasor/mechanical/passive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/mechanical/passive.py b/phasor/mechanical/passive.py
index d6697ce..2f9cfe5 100644
--- a/phasor/mechanical/passive.py
+++ b/phasor/mechanical/passive.py
@@ -47,7 +47,8 @@ class SpringBase(object):
         if val is None:
             return None
         if not callable(val):
-            return lambda F : val
+            #loss is odd in frequency
+            return lambda F : val * np.sign(F)
         return val
 
     include_johnson_noise = True
-- 
2.43.0


From 48b99f3d3a767f1be700e97a756cf87afd0e3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 17/40] fix: VAmp output impedance does not raise the open
 circuit gain

---
 phasor/electronics/opamps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phasor/electronics/opamps.py b/phasor/electronics/opamps.py
index b2fdec9..0ebcd28 100644
--- a/phasor/electronics/opamps.py
+++ b/phasor/electronics/opamps.py
@@ -134,7 +134,8 @@ class VAmp(elements.ElectricalElementBase):
                 #if self.system.classical_frequency_test_max(kfrom, self.max_freq):
                 #    continue
                 freq = self.system.classical_frequency_extract(kfrom)
-                pgain = self.gain_by_freq(freq)
+                #the output impedance divides the gain against the wave reference
+                pgain = self.gain_by_freq(freq) * self.Ze_termination / (self.Z_output + self.Ze_termination)
                 matrix_algorithm.port_coupling_insert(
                     port1.i,
                     kfrom,
-- 
2.43.0


From ead41a6cadfdd8a791d02b9abef2c70275640a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 18/40] fix: ForceToDisplacementBase keeps the port it is given

---
 phasor/mechanical/ports_driven.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/mechanical/ports_driven.py b/phasor/mechanical/ports_driven.py
index d94a847..540650a 100644
--- a/phasor/mechanical/ports_driven.py
+++ b/phasor/mechanical/ports_driven.py
@@ -13,6 +13,7 @@ class ForceToDisplacementBase(elements.MechanicalElementBase):
     def _port(self, port):
         self.system.own_port_virtual(self, port.i)
         self.system.own_port_virtual(self, port.o)
+        return port
 
     @declarative.mproperty
     def F_DC(self, val = 0):
-- 
2.43.0


From 74913f737b3f54ec4b706497918079cbb4b08f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 19/40] fix: TransferFunctionSISO applies the response it is
 given

---
 phasor/signals/siso_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 92c10fa..4331bbb 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -103,7 +103,7 @@ class TransferFunctionSISO(TransferFunctionSISOBase):
             **kwargs
     ):
         super().__init__(**kwargs)
-        PTREE_ASSIGN(self).filter = filter
+        PTREE_ASSIGN(self).filter = filter_func
         return
 
     def filter_func(self, freq):
-- 
2.43.0


From 1d9b186be96685e45d0d2d7500de4d899a40a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 20/40] fix: Gain without an argument is a gain of one

---
 phasor/signals/siso_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/signals/siso_filter.py b/phasor/signals/siso_filter.py
index 4331bbb..1c9ab57 100644
--- a/phasor/signals/siso_filter.py
+++ b/phasor/signals/siso_filter.py
@@ -124,6 +124,7 @@ class Integrator(TransferFunctionSISOBase):
 
 
 class Gain(TransferFunctionSISOBase):
+    @declarative.dproperty
     def gain(self, val = 1):
         return val
 
-- 
2.43.0


From dc2d42ba5f845a762820464582fc634ffaeab91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 21/40] fix: file symbolic floating edges under their own pair

---
 phasor/system/solver_algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/system/solver_algorithm.py b/phasor/system/solver_algorithm.py
index d9f010c..532e97d 100644
--- a/phasor/system/solver_algorithm.py
+++ b/phasor/system/solver_algorithm.py
@@ -296,7 +296,7 @@ class SystemSolver(object):
                         else:
                             N_sub_drop += 1
                     else:
-                        coupling_matrix_sym[pkfrom, pkto] = edge
+                        coupling_matrix_sym[pkf, pkt] = edge
                         seq[pkf].add(pkt)
                         req[pkt].add(pkf)
 
-- 
2.43.0


From c5792d8260cfc62ff5cfd5277bff42af68971f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 22/40] fix: add the outputs of floating couplings to the field
 space

---
 phasor/system/matrix_algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phasor/system/matrix_algorithm.py b/phasor/system/matrix_algorithm.py
index da07727..e5e137b 100644
--- a/phasor/system/matrix_algorithm.py
+++ b/phasor/system/matrix_algorithm.py
@@ -195,10 +195,10 @@ class MatrixBuildAlgorithm(object):
         if inj_obj.floating_in_out_func_pairs is not None:
             self.floating_in_out_func_pair_injlist.append(inj_obj)
             for ins, outs, func in inj_obj.floating_in_out_func_pairs:
-                for pkt in ins:
-                    self.field_space.keys_add(pkt)
                 for pkf in ins:
                     self.field_space.keys_add(pkf)
+                for pkt in outs:
+                    self.field_space.keys_add(pkt)
 
         if inj_obj.floating_req_set is not None:
             self.floating_req_set_injlist.append(inj_obj)
-- 
2.43.0


From 66ed25400505cc64e9c82637ef1baf2e1f3c45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 23/40] fix: Testpoint.DC reads the DC readout set it requests

---
 phasor/readouts/testpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/readouts/testpoint.py b/phasor/readouts/testpoint.py
index e8ae31a..791cead 100644
--- a/phasor/readouts/testpoint.py
+++ b/phasor/readouts/testpoint.py
@@ -42,7 +42,7 @@ class Testpoint(base.SystemElementBase):
 
     @declarative.mproperty
     def DC(self):
-        sbunch = self.system.solution.driven_solution_get(self.port_set)
+        sbunch = self.system.solution.driven_solution_get('DC')
         pk_view = (self.port, self.key)
         val = sbunch.solution[pk_view]
         return val.real
-- 
2.43.0


From 3d88675bc1a51384b6ab9fcf694d36922b12d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 24/40] fix: frequency keys drop zero multiples, so equal
 frequencies are equal keys

---
 phasor/base/dictionary_keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/base/dictionary_keys.py b/phasor/base/dictionary_keys.py
index c173af6..4c7b947 100644
--- a/phasor/base/dictionary_keys.py
+++ b/phasor/base/dictionary_keys.py
@@ -146,7 +146,7 @@ class DictKey(MappingABC):
 class FrequencyKey(object):
     __slots__ = ('F_dict', 'prev_hash', 'prev_tup')
     def __init__(self, F_dict):
-        self.F_dict = F_dict
+        self.F_dict = dict((F, n) for F, n in F_dict.items() if n != 0)
 
     def DC_is(self):
         return not self.F_dict
-- 
2.43.0


From 707e21fabdb27a44f5687cc53b7431fa598c7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 25/40] fix: ABCDGeneric uses the matrix of the turned-around
 element in reversed layouts

---
 phasor/alm/bases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phasor/alm/bases.py b/phasor/alm/bases.py
index 6406e6e..fcd8ed6 100644
--- a/phasor/alm/bases.py
+++ b/phasor/alm/bases.py
@@ -403,5 +403,8 @@ class ABCDGeneric(ThinBase):
 
     @declarative.mproperty
     def matrix(self):
+        if self.env_reversed:
+            # the same element traversed from its other side
+            return np.matrix([[self.D, self.B.val], [self.C.val, self.A.val]])
         return np.matrix([[self.A.val, self.B.val], [self.C.val, self.D]])
 
-- 
2.43.0


From 78c8873851cef0cab1380a9801912dd44d10d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 26/40] fix: Complex compares with numbers that have no real
 and imag attributes

---
 phasor/math/complex.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 8f79300..75cfbe0 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -188,8 +188,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real == other.real) and
-            (self.imag == other.imag)
+            (self.real == o_real) and
+            (self.imag == o_imag)
         )
 
     def __ne__(self, other):
@@ -200,8 +200,8 @@ class Complex(ReprMixin):
             o_real = other
             o_imag = 0
         return (
-            (self.real != other.real) or
-            (self.imag != other.imag)
+            (self.real != o_real) or
+            (self.imag != o_imag)
         )
 
     def __pow__(self, other):
-- 
2.43.0


From 9ae988a19450e09c814f4b9362d0200a501d7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 27/40] fix: Complex integer powers terminate and are powers,
 other powers have the right sign

---
 phasor/math/complex.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/phasor/math/complex.py b/phasor/math/complex.py
index 75cfbe0..6353a0a 100644
--- a/phasor/math/complex.py
+++ b/phasor/math/complex.py
@@ -213,14 +213,19 @@ class Complex(ReprMixin):
             o_imag = None
         #print o_real, o_imag
         if o_imag is None or o_imag == 0:
-            val = self
             if isinstance(o_real, int) or (isinstance(o_real, float) and (int(o_real) == o_real)):
                 o_real = int(o_real)
-                while o_real % 2 == 0:
-                    o_real = (o_real / 2)
-                    val = val * val
-                for _ in range(o_real - 1):
-                    val = val * self
+                val = self.__class__(1, 0)
+                square = self
+                remain = abs(o_real)
+                while remain > 0:
+                    if remain % 2 == 1:
+                        val = val * square
+                    remain = remain // 2
+                    if remain > 0:
+                        square = square * square
+                if o_real < 0:
+                    return 1 / val
                 return val
             if isinstance(o_real, float) and o_real == .5:
                 aval = abs(self)
@@ -252,8 +257,8 @@ class Complex(ReprMixin):
 
         aval = aval ** o_real
         phase = phase * o_real
-        if o_imag is None:
-            return Complex(aval * cos(phase), -aval * sin(phase))
+        if o_imag is None or o_imag == 0:
+            return Complex(aval * cos(phase), aval * sin(phase))
         return NotImplemented
 
     def __rpow__(self, other):
-- 
2.43.0


From 6b8e7efa09913e41a8d2e598044a8b58f7df1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:21 +0000
Subject: [PATCH 28/40] fix: the dispatched atan exists for numpy numbers, so
 phases of Complex numbers can be taken

---
 phasor/math/dispatch_defaults.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phasor/math/dispatch_defaults.py b/phasor/math/dispatch_defaults.py
index a77d8ab..e365186 100644
--- a/phasor/math/dispatch_defaults.py
+++ b/phasor/math/dispatch_defaults.py
@@ -3,6 +3,7 @@
 """
 
 from __future__ import division, print_function, unicode_literals
+from numpy import arctan as _arctan
 
 def re(obj):
     return obj.real
@@ -35,3 +36,7 @@ def abs_sq(obj):
     cobj = Complex(obj)
     return cobj.abs_sq()
 
+
+def atan(obj):
+    #numpy types only provide it as arctan
+    return _arctan(obj)
-- 
2.43.0


From c71708d86ddf309ecb0eba9541254e621d924ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 29/40] fix: parameters given as physical quantities have no
 separate reference value

---
 phasor/base/multi_unit_args.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index 207f4aa..ff7d4a4 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -77,8 +77,6 @@ def generate_refval_attribute(
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Quantity):
                         ooa.setdefault("val",   v.magnitude)
-                        if v.val is not v.ref:
-                            ooa.setdefault("ref",   v.ref)
                         ooa.setdefault("units", pint.mag1_units(v.units))
                     elif isinstance(v, pint.ureg.Unit):
                         ooa.setdefault("units", pint.mag1_units(v))
-- 
2.43.0


From 915bf338b1c0ac267310ffae8ed2bd7afd5accac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 30/40] fix: unitless parameters given as groups respect values
 already in the settings tree

---
 phasor/base/multi_unit_args.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/phasor/base/multi_unit_args.py b/phasor/base/multi_unit_args.py
index ff7d4a4..5b2b648 100644
--- a/phasor/base/multi_unit_args.py
+++ b/phasor/base/multi_unit_args.py
@@ -194,12 +194,14 @@ def unitless_refval_attribute(
 
             if isinstance(arg, simple_units.SimpleUnitfulGroup):
                 #TODO check that it is unitless
-                if arg.ref is arg.val:
-                    self.ctree.useidx('immediate')[ctree_name] = arg.val
-                else:
-                    ooa = self.ctree[ctree_name].useidx('immediate')
+                ooa = self.ctree.useidx('immediate')
+                if not ctree_name in ooa and arg.ref is arg.val:
+                    ooa[ctree_name] = arg.val
+                elif not ctree_name in ooa or isinstance(ooa[ctree_name], collections.Mapping):
+                    ooa = ooa[ctree_name]
                     ooa.setdefault("ref",   arg.ref)
                     ooa.setdefault("val",   arg.val)
+                #otherwise a single value was already specified
             else:
                 ooa = self.ctree.useidx('immediate')
                 if not ctree_name in ooa:
-- 
2.43.0


From 37c1f9063c8908827ed10eb45145bf2dfed88608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 31/40] fix: groups of value and reference divide by numbers

---
 phasor/base/simple_units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/simple_units.py b/phasor/base/simple_units.py
index c323e22..58a20e7 100644
--- a/phasor/base/simple_units.py
+++ b/phasor/base/simple_units.py
@@ -89,6 +89,8 @@ class SimpleUnitfulGroup(declarative.OverridableObject):
             units = self.units,
         )
 
+    __truediv__ = __div__
+
 
 class ElementRefValue(SimpleUnitfulGroup, Element):
     ##Inherited from SimpleUnitfulGroup
-- 
2.43.0


From 3edf06cc8d8267b0283e613c6e3c85710942eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 32/40] fix: the default crystal length has a usable unit

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index cdef936..27b6ed8 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -49,7 +49,7 @@ class NonlinearCrystal(
     #    val = self.ctree.setdefault('length_mm', val)
     #    return val
 
-    _length_default = '10mm'
+    _length_default = ('length_mm', 10)
     length = standard_attrs.generate_length()
 
     @declarative.dproperty
-- 
2.43.0


From a112253e0e2f1366e690f0f66ca3eb723e3302a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 33/40] fix: sum generation of distinct components is counted
 once per pair

---
 phasor/optics/nonlinear_crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index 27b6ed8..a44ce39 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -203,7 +203,7 @@ class NonlinearCrystal(
                             raise RuntimeError("Can't Currently do nonlinear optics on multiply composite wavelengths")
                         F, n = F_list[0]
                         #factor of two since this injects twice
-                        if kfrom == kfrom2:
+                        if qkey == qkey2:
                             dLt[(port.i, kto)].append(
                                 (n * G / 2, (port.i, kfrom2), (port.i, kfrom))
                             )
-- 
2.43.0


From 232921e48d5d79719c536129a023c496b98a7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:59 +0000
Subject: [PATCH 34/40] fix: light which does not interact passes through
 crystals and modulators

---
 phasor/optics/AOM.py               | 4 ++++
 phasor/optics/ODE_solver.py        | 2 ++
 phasor/optics/nonlinear_crystal.py | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/phasor/optics/AOM.py b/phasor/optics/AOM.py
index 9a363e0..9412864 100644
--- a/phasor/optics/AOM.py
+++ b/phasor/optics/AOM.py
@@ -210,6 +210,10 @@ class AOM(
             for port, direction in portset.items():
                 for kfrom in matrix_algorithm.port_set_get(port.i):
                     #print("KFR: ", kfrom)
+                    #gets a passthrough always
+                    in_map[(port.i, kfrom)] = (port.i, kfrom)
+                    out_map[(port.i, kfrom)] = (omap[port].o, kfrom)
+
                     okey = kfrom[ports.OpticalFreqKey]
                     ckey = kfrom[ports.ClassicalFreqKey]
                     qkey = kfrom[ports.QuantumKey]
diff --git a/phasor/optics/ODE_solver.py b/phasor/optics/ODE_solver.py
index e7d41f2..351b620 100644
--- a/phasor/optics/ODE_solver.py
+++ b/phasor/optics/ODE_solver.py
@@ -158,6 +158,8 @@ class ExpMatCoupling(FactorCouplingBase):
         for pk_out, lt in self.dLt.items():
             pks.add(pk_out)
             pks_grab(lt)
+        #components which are only passed through
+        pks.update(self.in_map)
 
         #print(ins_p, sol_vector)
         self.pks = list(pks)
diff --git a/phasor/optics/nonlinear_crystal.py b/phasor/optics/nonlinear_crystal.py
index a44ce39..796d836 100644
--- a/phasor/optics/nonlinear_crystal.py
+++ b/phasor/optics/nonlinear_crystal.py
@@ -160,6 +160,10 @@ class NonlinearCrystal(
             portO = tmap[port]
             for kfrom in matrix_algorithm.port_set_get(port.i):
                 #print("KFR: ", kfrom)
+                #gets a passthrough always
+                in_map[(port.i, kfrom)] = (port.i, kfrom)
+                out_map[(port.i, kfrom)] = (portO.o, kfrom)
+
                 okey = kfrom[ports.OpticalFreqKey]
                 ckey = kfrom[ports.ClassicalFreqKey]
                 qkey = kfrom[ports.QuantumKey]
-- 
2.43.0


From f46bb5c3c4e4cff7ced1e878dc242431170f8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:58 +0000
Subject: [PATCH 35/40] fix: optical bonds survive any number of rebuilds

---
 phasor/optics/ports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phasor/optics/ports.py b/phasor/optics/ports.py
index 05e2a65..ff1b7b1 100644
--- a/phasor/optics/ports.py
+++ b/phasor/optics/ports.py
@@ -68,6 +68,7 @@ class OpticalPort(OpticalPortRaw, bases.SystemElementBase):
                     #auto-insert bond partner as it was inserted during building
                     getnew = self.root[prein._bond_partner.name_system]
                     self._bond_partner = getnew
+                    self._building_bonded = False
                     assert(self.root is getnew.root)
         return
 
-- 
2.43.0


From 034205522b880924fb2e4365bbd5569ec43f58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 36/40] fix: a solved system with junctions can be rebuilt

---
 phasor/system/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phasor/system/system.py b/phasor/system/system.py
index 068b68f..7a29199 100644
--- a/phasor/system/system.py
+++ b/phasor/system/system.py
@@ -319,9 +319,10 @@ class BGSystem(RootElement):
             #print("INCLUDE LST: ", self._include_lst)
             self._autoterminate()
 
-        for element in self.targets_recurse(VISIT.bond_completion):
-            #print("Bond Completion", element)
-            pass
+        with self.building:
+            for element in self.targets_recurse(VISIT.bond_completion):
+                #print("Bond Completion", element)
+                pass
 
         bad_completions = dict()
         while self._bond_completions_raw:
-- 
2.43.0


From b86b52b9c6d348a36f8974a127e7571eaddd3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 37/40] fix: elements added to an evaluated layout shift its
 automatic spaces

---
 phasor/alm/system.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/phasor/alm/system.py b/phasor/alm/system.py
index 23569b3..4df1f3c 100644
--- a/phasor/alm/system.py
+++ b/phasor/alm/system.py
@@ -29,7 +29,8 @@ from . import standard_attrs as attrs
 class System(
     bases.MatrixAtsCompositeBase,
 ):
-    @declarative.mproperty
+    @declarative.mproperty(simple_delete = True)
+    @invalidate_auto
     def _internal(self):
         return Element()
 
@@ -87,10 +88,11 @@ class System(
     @invalidate_auto
     def component_pos_pairings(self):
         with self.building:
-            try:
-                del self.ctree['_internal']
-            except KeyError:
-                pass
+            for layer in ('full', 'immediate'):
+                try:
+                    del self.ctree.useidx(layer)['_internal']
+                except KeyError:
+                    pass
             components_pos = []
             components_filled = []
             loc_m = 0
-- 
2.43.0


From 3dc3972e62586eb2060cbe7fb6203281d3b08d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 38/40] fix: elements referenced while rebuilding stay part of
 the system

---
 phasor/base/autograft.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index ca1e63a..fdbc673 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -379,6 +379,8 @@ class Element(
                 return pl
             else:
                 item = self._registry_inserted_pre.pop(name)
+                #insert to registry regardless of if building
+                self._registry_inserted[name] = item
                 return self.insert(obj = item, name = name)
 
     def __getattr__(self, name):
-- 
2.43.0


From 666b2281237d01d31b2ce72856e5bef944626f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 39/40] fix: arguments naming elements refer to the rebuilt
 elements

---
 phasor/base/autograft.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index fdbc673..db069f0 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -108,6 +108,9 @@ class ElementConstructorInternal(object):
     ):
         kwargs = dict(self._kwargs)
         kwargs.update(kwargs_stack)
+        #arguments may be elements of a tree this one was regenerated from
+        for aname, aval in kwargs.items():
+            kwargs[aname] = parent.reincarnation_get(aval)
         args   = self._args
         cls    = self._cls
         kwargs.setdefault('name_child',   name)
@@ -308,6 +311,23 @@ class Element(
                     arg = None
         return arg
 
+    def reincarnation_get(self, obj):
+        """
+        The element of this tree which stands for obj if obj is from a tree that this one
+        was regenerated from. Anything else is returned as is.
+        """
+        if isinstance(obj, Element):
+            pre = self.root.inst_preincarnation
+            while pre is not None:
+                if obj.root is pre:
+                    new = self.root
+                    if obj is not pre:
+                        for name in obj.name_system.split('.'):
+                            new = getattr(new, name)
+                    return new
+                pre = pre.inst_preincarnation
+        return obj
+
     @mproperty
     def _registry_inserted_pre(self):
         #make a copy
-- 
2.43.0


From e5fc0653c008a578b8f8ca63316bde602392d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:08 +0000
Subject: [PATCH 40/40] fix: rebuilding a rebuilt system that was not used
 keeps its elements and bonds

---
 phasor/base/autograft.py    |  9 ++++++++-
 phasor/electronics/ports.py |  5 +++--
 phasor/mechanical/ports.py  | 10 ++++++----
 phasor/signals/ports.py     | 10 ++++++----
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/phasor/base/autograft.py b/phasor/base/autograft.py
index db069f0..2487538 100644
--- a/phasor/base/autograft.py
+++ b/phasor/base/autograft.py
@@ -351,7 +351,9 @@ class Element(
         return dict()
 
     _is_completed = False
+    _is_carried_over = False
     def _complete(self):
+        #returns True if everything of the preincarnation has been carried over before
         if self._is_completed:
             return True
         self._is_completed = True
@@ -365,7 +367,9 @@ class Element(
                 self.insert(obj = v, name = k)
         for k, v in self._registry_children.items():
             v._complete()
-        return False
+        carried_over = self._is_carried_over
+        self._is_carried_over = True
+        return carried_over
 
     def invalidate(self):
         #assert(False)
@@ -570,6 +574,9 @@ class RootElement(Element):
             usekwargs['ctree'] = ctree
         usekwargs.update(kwargs)
         usekwargs['inst_preincarnation'] = self
+        if self.inst_preincarnation is not None:
+            #what is to be carried over from there must be here to be carried on
+            self._complete()
         return self.__class__(
             **usekwargs
         )
diff --git a/phasor/electronics/ports.py b/phasor/electronics/ports.py
index 768b33f..240cd35 100644
--- a/phasor/electronics/ports.py
+++ b/phasor/electronics/ports.py
@@ -32,7 +32,8 @@ class ElectricalPort(ElectricalPortRaw, bases.SystemElementBase):
     typename = 'Electrical'
 
     def _complete(self):
-        if not super()._complete():
+        completed = super()._complete()
+        if not completed:
             prein = self.inst_preincarnation
             if prein is not None:
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
@@ -41,7 +42,7 @@ class ElectricalPort(ElectricalPortRaw, bases.SystemElementBase):
                         self._bond_partners.append(new_bpartner)
                         assert(self.root is new_bpartner.root)
                         self._bond_partners_building.append(built)
-        return
+        return completed
 
     @declarative.mproperty
     def bond_key(self):
diff --git a/phasor/mechanical/ports.py b/phasor/mechanical/ports.py
index 8efc2a4..6ebe6bc 100644
--- a/phasor/mechanical/ports.py
+++ b/phasor/mechanical/ports.py
@@ -35,7 +35,8 @@ class MechanicalPort(MechanicalPortRaw, bases.SystemElementBase):
     typename = 'Mechanical'
 
     def _complete(self):
-        if not super()._complete():
+        completed = super()._complete()
+        if not completed:
             prein = self.inst_preincarnation
             if prein is not None:
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
@@ -44,7 +45,7 @@ class MechanicalPort(MechanicalPortRaw, bases.SystemElementBase):
                         self._bond_partners.append(new_bpartner)
                         assert(self.root is new_bpartner.root)
                         self._bond_partners_building.append(built)
-        return
+        return completed
 
     @declarative.mproperty
     def bond_key(self):
@@ -162,7 +163,8 @@ class MechanicalXYZPort(bases.SystemElementBase):
         return val
 
     def _complete(self):
-        if not super()._complete():
+        completed = super()._complete()
+        if not completed:
             prein = self.inst_preincarnation
             if prein is not None:
                 for built, bpartner in zip(prein._bond_partners_building, prein._bond_partners):
@@ -171,7 +173,7 @@ class MechanicalXYZPort(bases.SystemElementBase):
                         self._bond_partners.append(new_bpartner)
                         assert(self.root is new_bpartner.root)
                         self._bond_partners_building.append(built)
-        return
+        return completed
 
     @declarative.mproperty
     def bond_key(self):
diff --git a/phasor/signals/ports.py b/phasor/signals/ports.py
index d291c9e..12143a7 100644
--- a/phasor/signals/ports.py
+++ b/phasor/signals/ports.py
@@ -71,7 +71,8 @@ class SignalCommonPortBase(bases.SystemElementBase):
 
 class SignalInPortBase(bases.SystemElementBase):
     def _complete(self):
-        if not super()._complete():
+        completed = super()._complete()
+        if not completed:
             prein = self.inst_preincarnation
             if prein is not None:
                 for built, bpartner in zip(prein._bond_partners_in_building, prein._bond_partners_in):
@@ -80,7 +81,7 @@ class SignalInPortBase(bases.SystemElementBase):
                         self._bond_partners_in.append(new_bpartner)
                         assert(self.root is new_bpartner.root)
                         self._bond_partners_in_building.append(built)
-        return
+        return completed
 
     @declarative.mproperty
     def _bond_partners_in(self):
@@ -114,7 +115,8 @@ class SignalInPort(
 
 class SignalOutPortBase(bases.SystemElementBase):
     def _complete(self):
-        if not super()._complete():
+        completed = super()._complete()
+        if not completed:
             prein = self.inst_preincarnation
             if prein is not None:
                 for built, bpartner in zip(prein._bond_partners_out_building, prein._bond_partners_out):
@@ -123,7 +125,7 @@ class SignalOutPortBase(bases.SystemElementBase):
                         self._bond_partners_out.append(new_bpartner)
                         assert(self.root is new_bpartner.root)
                         self._bond_partners_out_building.append(built)
-        return
+        return completed
 
     @declarative.mproperty
     def _bond_partners_out(self):
-- 
2.43.0

