From 92cc2a2e37773dee799c90d0c39913d3ad48ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 01/93] fix: keep the control state when commands are copied,
 inverted, merged or compared

Command.__deepcopy__, get_inverse and get_merged dropped the control state, comparison and merging ignored
it, and the constructor sorted the control qubits without their control states. The control state
decomposition relied on the lost state (it assigned a misspelt attribute).
---
 projectq/ops/_command.py                      | 25 ++++++++++++++++---
 .../setups/decompositions/controlstate.py     |  2 +-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index 481efcc..e685d3b 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -110,12 +110,22 @@ class Command:  # pylint: disable=too-many-instance-attributes
         """
         qubits = tuple([WeakQubitRef(qubit.engine, qubit.id) for qubit in qreg] for qreg in qubits)
 
+        # NB: avoid circular imports
+        from projectq.meta import (  # pylint: disable=import-outside-toplevel
+            canonical_ctrl_state,
+        )
+
+        # The control qubits get sorted (see control_qubits), each of them needs to keep its own control state
+        controls = list(controls)
+        control_state = canonical_ctrl_state(control_state, len(controls))
+        order = sorted(range(len(controls)), key=lambda idx: controls[idx].id)
+
         self.gate = gate
         self.tags = list(tags)
         self.qubits = qubits  # property
         self.control_qubits = controls  # property
         self.engine = engine  # property
-        self.control_state = control_state  # property
+        self.control_state = ''.join(control_state[idx] for idx in order)  # property
 
     @property
     def qubits(self):
@@ -135,6 +145,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def get_inverse(self):
@@ -152,6 +163,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             self.qubits,
             list(self.control_qubits),
             deepcopy(self.tags),
+            self.control_state,
         )
 
     def is_identity(self):
@@ -173,13 +185,19 @@ class Command:  # pylint: disable=too-many-instance-attributes
         Raises:
             NotMergeable: if the gates don't supply a get_merged()-function or can't be merged for other reasons.
         """
-        if self.tags == other.tags and self.all_qubits == other.all_qubits and self.engine == other.engine:
+        if (
+            self.tags == other.tags
+            and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
+            and self.engine == other.engine
+        ):
             return Command(
                 self.engine,
                 self.gate.get_merged(other.gate),
                 self.qubits,
                 self.control_qubits,
                 deepcopy(self.tags),
+                self.control_state,
             )
         raise projectq.ops.NotMergeable("Commands not mergeable.")
 
@@ -325,7 +343,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             other (Command): Command object to compare this to
 
         Returns: True if Command objects are equal (same gate, applied to same
-        qubits; ordered modulo interchangeability; and same tags)
+        qubits; ordered modulo interchangeability; same control state; and same tags)
         """
         if (
             isinstance(other, self.__class__)
@@ -333,6 +351,7 @@ class Command:  # pylint: disable=too-many-instance-attributes
             and self.tags == other.tags
             and self.engine == other.engine
             and self.all_qubits == other.all_qubits
+            and self.control_state == other.control_state
         ):
             return True
         return False
diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index b8d180e..d9c8686 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -33,7 +33,7 @@ def _decompose_controlstate(cmd):
                 X | ctrl
 
     # Resend the command with the `control_state` cleared
-    cmd.ctrl_state = '1' * len(cmd.control_state)
+    cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
     cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
     Uncompute(orig_engine)
-- 
2.43.0


From f39b1b28a576d5ea06761d92cdaa839d14b0c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 02/93] fix: reject invalid arguments in the C++ simulator
 instead of corrupting memory

Unknown qubit ids were added to the id map, wave functions, bit strings, gate matrices, operator terms and
function results of the wrong size were read or written out of bounds (the asserts are compiled out).
---
 .../backends/_sim/_cppkernels/simulator.hpp   | 57 ++++++++++++++++---
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 1a84723..a3fb46b 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -29,6 +29,9 @@
 #include <map>
 #include <cassert>
 #include <algorithm>
+#include <set>
+#include <stdexcept>
+#include <string>
 #include <tuple>
 #include <random>
 #include <functional>
@@ -54,11 +57,11 @@ public:
 
     void allocate_qubit(unsigned id){
         if (map_.count(id) == 0){
-            map_[id] = N_++;
             StateVector newvec; // avoid large memory allocations
-            if( tmpBuff1_.capacity() >= (1UL << N_) )
+            if( tmpBuff1_.capacity() >= (1UL << (N_+1)) )
               std::swap(newvec, tmpBuff1_);
-            newvec.resize(1UL << N_);
+            newvec.resize(1UL << (N_+1)); // may throw: the simulator must not know the qubit before
+            map_[id] = N_++;
 #pragma omp parallel for schedule(static)
             for (std::size_t i = 0; i < newvec.size(); ++i)
                 newvec[i] = (i < vec_.size())?vec_[i]:0.;
@@ -75,6 +78,7 @@ public:
 
     bool get_classical_value(unsigned id, calc_type tol = 1.e-12){
         run();
+        require_known("get_classical_value()", {id});
         unsigned pos = map_[id];
         std::size_t delta = (1UL << pos);
 
@@ -92,6 +96,7 @@ public:
 
     bool is_classical(unsigned id, calc_type tol = 1.e-12){
         run();
+        require_known("is_classical()", {id});
         unsigned pos = map_[id];
         std::size_t delta = (1UL << pos);
 
@@ -144,6 +149,7 @@ public:
 
     void measure_qubits(std::vector<unsigned> const& ids, std::vector<bool> &res){
         run();
+        require_known("measure_qubits()", ids);
 
         std::vector<unsigned> positions(ids.size());
         for (unsigned i = 0; i < ids.size(); ++i)
@@ -193,7 +199,7 @@ public:
 
     void deallocate_qubit(unsigned id){
         run();
-        assert(map_.count(id) == 1);
+        require_known("deallocate_qubit()", {id});
         if (!is_classical(id))
             throw(std::runtime_error("Error: Qubit has not been measured / uncomputed! There is most likely a bug in your code."));
 
@@ -204,6 +210,14 @@ public:
     template <class M>
     void apply_controlled_gate(M const& m, const std::vector<unsigned>& ids,
                                const std::vector<unsigned>& ctrl){
+        require_known("apply_controlled_gate()", ids);
+        require_known("apply_controlled_gate()", ctrl);
+        if (ids.size() < 1 || ids.size() > fusion_qubits_max_)
+            throw std::invalid_argument("Gates with more than 5 qubits are not supported!");
+        if (m.size() != (1UL << ids.size())
+                || std::any_of(m.begin(), m.end(), [&m](auto const& row){ return row.size() != m.size(); }))
+            throw std::invalid_argument("apply_controlled_gate(): The matrix dimension does not match the number of qubits.");
+
         auto fused_gates = fused_gates_;
         fused_gates.insert(m, ids, ctrl);
 
@@ -225,6 +239,9 @@ public:
     void emulate_math(F const& f, QuReg quregs, const std::vector<unsigned>& ctrl,
                       bool parallelize = false){
         run();
+        require_known("emulate_math()", ctrl);
+        for (auto const& qureg : quregs)
+            require_known("emulate_math()", qureg);
         auto ctrlmask = get_control_mask(ctrl);
 
         for (unsigned i = 0; i < quregs.size(); ++i)
@@ -251,6 +268,8 @@ public:
                           res[qr_i] |= ((i >> quregs[qr_i][qb_i])&1) << qb_i;
                   }
                   f(res);
+                  if (res.size() != quregs.size())
+                      throw(std::length_error("emulate_math(): The function must return one value per quantum register."));
                   auto new_i = i;
                   for (unsigned qr_i = 0; qr_i < quregs.size(); ++qr_i){
                       for (unsigned qb_i = 0; qb_i < quregs[qr_i].size(); ++qb_i){
@@ -291,6 +310,7 @@ public:
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        require_valid_terms("get_expectation_value()", td, ids);
         calc_type expectation = 0.;
 
         StateVector current_state; // avoid costly memory reallocations
@@ -323,6 +343,7 @@ public:
 
     void apply_qubit_operator(ComplexTermsDict const& td, std::vector<unsigned> const& ids){
         run();
+        require_valid_terms("apply_qubit_operator()", td, ids);
         StateVector new_state, current_state; // avoid costly memory reallocations
         if( tmpBuff1_.capacity() >= vec_.size() )
           std::swap(tmpBuff1_, new_state);
@@ -354,6 +375,8 @@ public:
         run();
         if (!check_ids(ids))
             throw(std::runtime_error("get_probability(): Unknown qubit id. Please make sure you have called eng.flush()."));
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_probability(): The bit string is shorter than the quantum register."));
         std::size_t mask = 0, bit_str = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
             mask |= 1UL << map_[ids[i]];
@@ -370,6 +393,8 @@ public:
     complex_type const& get_amplitude(std::vector<bool> const& bit_string,
                                       std::vector<unsigned> const& ids){
         run();
+        if (bit_string.size() < ids.size())
+            throw(std::length_error("get_amplitude(): The bit string is shorter than the quantum register."));
         std::size_t chk = 0;
         std::size_t index = 0;
         for (unsigned i = 0; i < ids.size(); ++i){
@@ -387,6 +412,8 @@ public:
                                 std::vector<unsigned> const& ids,
                                 std::vector<unsigned> const& ctrl){
         run();
+        require_known("emulate_time_evolution()", ctrl);
+        require_valid_terms("emulate_time_evolution()", tdict, ids);
         complex_type I(0., 1.);
         calc_type tr = 0., op_nrm = 0.;
         TermsDict td;
@@ -439,11 +466,13 @@ public:
 
     void set_wavefunction(StateVector const& wavefunction, std::vector<unsigned> const& ordering){
         run();
-        // make sure there are 2^n amplitudes for n qubits
-        assert(wavefunction.size() == (1UL << ordering.size()));
         // check that all qubits have been allocated previously
-        if (map_.size() != ordering.size() || !check_ids(ordering))
+        if (map_.size() != ordering.size() || !check_ids(ordering)
+                || std::set<unsigned>(ordering.begin(), ordering.end()).size() != ordering.size())
             throw(std::runtime_error("set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been allocated previously (call eng.flush())."));
+        // make sure there are 2^n amplitudes for n qubits
+        if (wavefunction.size() != (1UL << ordering.size()))
+            throw(std::invalid_argument("set_wavefunction(): The wavefunction must contain 2^n elements!"));
 
         // set mapping and wavefunction
         for (unsigned i = 0; i < ordering.size(); ++i)
@@ -555,6 +584,20 @@ private:
         return ctrlmask;
     }
 
+    void require_known(const char *where, std::vector<unsigned> const& ids){
+        if (!check_ids(ids))
+            throw(std::runtime_error(std::string(where) + ": Unknown qubit id. Please make sure you have called eng.flush()."));
+    }
+
+    template <class TD>
+    void require_valid_terms(const char *where, TD const& td, std::vector<unsigned> const& ids){
+        require_known(where, ids);
+        for (auto const& term : td)
+            for (auto const& local_op : term.first)
+                if (local_op.first >= ids.size() || local_op.second < 'X' || local_op.second > 'Z')
+                    throw(std::invalid_argument(std::string(where) + ": Invalid term in the qubit operator."));
+    }
+
     bool check_ids(std::vector<unsigned> const& ids){
         for (auto id : ids)
             if (!map_.count(id))
-- 
2.43.0


From aeb2b57860cfa0d0a7a3af3c2bd9f882262f1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 03/93] fix: emulate arithmetic in the C++ simulator with
 64-bit integers and a mathematical modulus

The products of MultiplyByConstantModN overflowed 32-bit integers from 16-qubit registers on, negative
constants gave a negative remainder, and results or constants that do not fit 32 bits were refused.
---
 .../backends/_sim/_cppkernels/simulator.hpp   | 28 +++++++++++++------
 projectq/backends/_sim/_cppsim.cpp            |  4 +--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index a3fb46b..9d70748 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -28,6 +28,7 @@
 #include "fusion.hpp"
 #include <map>
 #include <cassert>
+#include <cstdint>
 #include <algorithm>
 #include <set>
 #include <stdexcept>
@@ -258,14 +259,14 @@ public:
 
 //#pragma omp parallel reduction(+:newvec[:newvec.size()]) if(parallelize) // requires OpenMP 4.5
         {
-          std::vector<int> res(quregs.size());
+          std::vector<std::int64_t> res(quregs.size());
           //#pragma omp for schedule(static)
           for (std::size_t i = 0; i < vec_.size(); ++i){
               if ((ctrlmask&i) == ctrlmask){
                   for (unsigned qr_i = 0; qr_i < quregs.size(); ++qr_i){
                       res[qr_i] = 0;
                       for (unsigned qb_i = 0; qb_i < quregs[qr_i].size(); ++qb_i)
-                          res[qr_i] |= ((i >> quregs[qr_i][qb_i])&1) << qb_i;
+                          res[qr_i] |= static_cast<std::int64_t>((i >> quregs[qr_i][qb_i])&1) << qb_i;
                   }
                   f(res);
                   if (res.size() != quregs.size())
@@ -273,7 +274,7 @@ public:
                   auto new_i = i;
                   for (unsigned qr_i = 0; qr_i < quregs.size(); ++qr_i){
                       for (unsigned qb_i = 0; qb_i < quregs[qr_i].size(); ++qb_i){
-                          if (!(((new_i >> quregs[qr_i][qb_i])&1) == ((res[qr_i] >> qb_i)&1)))
+                          if (!(((new_i >> quregs[qr_i][qb_i])&1) == ((static_cast<std::size_t>(res[qr_i]) >> qb_i)&1)))
                               new_i ^= (1UL << quregs[qr_i][qb_i]);
                       }
                   }
@@ -289,23 +290,25 @@ public:
 
     // faster version without calling python
     template<class QuReg>
-    inline void emulate_math_addConstant(int a, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_addConstant(std::int64_t a, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a](std::vector<int> &res){for(auto& x: res) x = x + a;}, quregs, ctrl, true);
+      emulate_math([a](std::vector<std::int64_t> &res){for(auto& x: res) x = x + a;}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
-    inline void emulate_math_addConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_addConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
+      a = reduce_mod(a, N);
+      emulate_math([a,N](std::vector<std::int64_t> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
     }
 
     // faster version without calling python
     template<class QuReg>
-    inline void emulate_math_multiplyByConstantModN(int a, int N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
+    inline void emulate_math_multiplyByConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
-      emulate_math([a,N](std::vector<int> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
+      a = reduce_mod(a, N);
+      emulate_math([a,N](std::vector<std::int64_t> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
     }
 
     calc_type get_expectation_value(TermsDict const& td, std::vector<unsigned> const& ids){
@@ -564,6 +567,13 @@ public:
     }
 
 private:
+    static std::int64_t reduce_mod(std::int64_t a, std::int64_t N){
+        if (N < 1)
+            throw std::invalid_argument("The modulus must be positive.");
+        a %= N;
+        return (a < 0) ? a + N : a;
+    }
+
     void apply_term(Term const& term, std::vector<unsigned> const& ids,
                     std::vector<unsigned> const& ctrl){
         complex_type I(0., 1.);
diff --git a/projectq/backends/_sim/_cppsim.cpp b/projectq/backends/_sim/_cppsim.cpp
index 2402812..d017382 100755
--- a/projectq/backends/_sim/_cppsim.cpp
+++ b/projectq/backends/_sim/_cppsim.cpp
@@ -32,9 +32,9 @@ using QuRegs = std::vector<std::vector<unsigned>>;
 
 template <class QR>
 void emulate_math_wrapper(Simulator &sim, py::function const& pyfunc, QR const& qr, std::vector<unsigned> const& ctrls){
-    auto f = [&](std::vector<int>& x) {
+    auto f = [&](std::vector<std::int64_t>& x) {
         pybind11::gil_scoped_acquire acquire;
-        x = pyfunc(x).cast<std::vector<int>>();
+        x = pyfunc(x).cast<std::vector<std::int64_t>>();
     };
     pybind11::gil_scoped_release release;
     sim.emulate_math(f, qr, ctrls);
-- 
2.43.0


From 3c0c1373c40d54aecbc8084eed5ce03e2b4d3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 04/93] fix: do not share the scratch buffers of the C++
 simulator between instances

emulate_math swaps them while the GIL is released, so simulators used by different threads raced on them.
---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 9d70748..ae75e0d 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -624,10 +624,8 @@ private:
     std::function<double()> rng_;
 
     // large array buffers to avoid costly reallocations
-    static StateVector tmpBuff1_, tmpBuff2_;
+    // (not shared: emulate_math runs without holding the GIL, next to other simulators)
+    StateVector tmpBuff1_, tmpBuff2_;
 };
 
-Simulator::StateVector Simulator::tmpBuff1_;
-Simulator::StateVector Simulator::tmpBuff2_;
-
 #endif
-- 
2.43.0


From d771cfb3f47db9b8ca5337e0a57339d396016746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/93] fix: give each Python simulator its own random number
 generator

It reseeded and consumed the global one, so simulators influenced each other and the user's program.
---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index f6fb58f..5f39e42 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -45,7 +45,7 @@ class Simulator:
             args: Dummy argument to allow an interface identical to the c++ simulator.
             kwargs: Same as args.
         """
-        random.seed(rnd_seed)
+        self._rng = random.Random(rnd_seed)
         self._state = _np.ones(1, dtype=_np.complex128)
         self._map = {}
         self._num_qubits = 0
@@ -73,7 +73,7 @@ class Simulator:
         Returns:
             List of measurement results (containing either True or False).
         """
-        random_outcome = random.random()
+        random_outcome = self._rng.random()
         val = 0.0
         i_picked = 0
         while val < random_outcome and i_picked < len(self._state):
-- 
2.43.0


From ce96d0b993a0c7188335bb6db3a25bf12ec73cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 06/93] fix: let the Python simulator evolve under Hamiltonians
 with only an identity term

---
 projectq/backends/_sim/_pysim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 5f39e42..aab99b0 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -344,7 +344,7 @@ class Simulator:
             while nrm_change > 1.0e-12:
                 coeff = (-time * 1j) / float(scale * (j + 1))
                 current_state = _np.copy(self._state)
-                update = 0j
+                update = _np.zeros_like(self._state)
                 for term, tcoeff in terms_dict:
                     self._apply_term(term, ids)
                     self._state *= tcoeff
-- 
2.43.0


From af979848c41f15ed58f3c5c052c42e7e63b981f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/93] fix: reject repeated qubits in set_wavefunction of the
 Python simulator

---
 projectq/backends/_sim/_pysim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index aab99b0..2833466 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -446,7 +446,7 @@ class Simulator:
             raise ValueError('The wavefunction must contain 2^n elements!')
 
         # all qubits must have been allocated before
-        if not all(qubit_id in self._map for qubit_id in ordering) or len(self._map) != len(ordering):
+        if set(ordering) != set(self._map) or len(self._map) != len(ordering):
             raise RuntimeError(
                 "set_wavefunction(): Invalid mapping provided. Please make sure all qubits have been "
                 "allocated previously (call eng.flush())."
-- 
2.43.0


From de3fcc90c3672e2f92730a710cba83ae2ebddfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 08/93] fix: let the Python simulator allocate qubits while the
 user holds the state vector

Resizing the array in place failed when cheat() results were still referenced. Also refuse an id that exists, as the C++ simulator does.
---
 projectq/backends/_sim/_pysim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 2833466..b4934d3 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -18,15 +18,10 @@ A (slow) Python simulator.
 Please compile the c++ simulator for large-scale simulations.
 """
 
-import os
 import random
 
 import numpy as _np
 
-_USE_REFCHECK = True
-if 'CI' in os.environ:  # pragma: no cover
-    _USE_REFCHECK = False
-
 
 class Simulator:
     """
@@ -109,9 +104,14 @@ class Simulator:
         Args:
             qubit_id (int): ID of the qubit which is being allocated.
         """
+        if qubit_id in self._map:
+            raise RuntimeError("AllocateQubit: ID already exists. Qubit IDs should be unique.")
         self._map[qubit_id] = self._num_qubits
         self._num_qubits += 1
-        self._state.resize(1 << self._num_qubits, refcheck=_USE_REFCHECK)
+        # NB: not resized in place, since the user may hold a reference to the current state (see cheat())
+        newstate = _np.zeros(1 << self._num_qubits, dtype=_np.complex128)
+        newstate[: len(self._state)] = self._state
+        self._state = newstate
 
     def get_classical_value(self, qubit_id, tol=1.0e-10):
         """
-- 
2.43.0


From 17ec8a981114bb728a03d737ebfcea891275b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 09/93] fix: remove multi-qubit identity gates from the
 pipelines of all their qubits in LocalOptimizer

---
 projectq/cengines/_optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 1cce731..2f84b2d 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -138,7 +138,7 @@ class LocalOptimizer(BasicEngine):
                     new_list = (
                         self._l[qubit_id][0 : gid[j]] + self._l[qubit_id][gid[j] + 1 :]  # noqa: E203  # noqa: E203
                     )
-                self._l[qubitids[j]] = new_list  # pylint: disable=undefined-loop-variable
+                    self._l[qubit_id] = new_list
                 i = 0
                 limit -= 1
                 continue
-- 
2.43.0


From 6c91321bce82bf6d3e8e13f9f7a4d3a097526a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 10/93] fix: do not modify the decomposition rule set while
 searching it in AutoReplacer

---
 projectq/cengines/_replacer/_replacer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 69cedf7..56ad4e6 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -176,7 +176,10 @@ class AutoReplacer(BasicEngine):
                     if level < len(inverse_mro):
                         inv_class_name = inverse_mro[level].__name__
                         try:
-                            potential_decomps += [d.get_inverse_decomposition() for d in rules[inv_class_name]]
+                            # NB: create a new list, the one in the decomposition rule set must not be modified
+                            potential_decomps = potential_decomps + [
+                                d.get_inverse_decomposition() for d in rules[inv_class_name]
+                            ]
                         except KeyError:
                             pass
                         # throw out the ones which don't recognize the command
-- 
2.43.0


From c13fcaf8e06605339d91ff64db59c78a48df51a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 11/93] fix: merge QubitOperators in the order in which they
 are applied

---
 projectq/ops/_qubit_operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index 80c901d..a376035 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -352,7 +352,8 @@ class QubitOperator(BasicGate):
             NotMergeable: merging is not possible
         """
         if isinstance(other, self.__class__) and len(other.terms) == 1 and len(self.terms) == 1:
-            return self * other
+            # self is applied to the qubits first
+            return other * self
         raise NotMergeable()
 
     def __imul__(self, multiplier):  # pylint: disable=too-many-locals,too-many-branches
-- 
2.43.0


From e2694e085b44f71b2c2e92bf567f8257b7bb8993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 12/93] fix: compare QubitOperators by their terms and hash
 them independently of term order

---
 projectq/ops/_qubit_operator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index a376035..af05542 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -582,6 +582,17 @@ class QubitOperator(BasicGate):
         """Repr method."""
         return str(self)
 
+    def __eq__(self, other):
+        """Equal operator: same terms with the same coefficients (see isclose to compare with a tolerance)."""
+        if isinstance(other, self.__class__):
+            return self.terms == other.terms
+        return False
+
     def __hash__(self):
         """Compute the hash of the object."""
-        return hash(str(self))
+        # The hash must not depend on the order in which terms were added nor on the type of the coefficients
+        operator = QubitOperator()
+        for term in sorted(self.terms):
+            coeff = complex(self.terms[term])
+            operator.terms[term] = coeff if coeff.imag else coeff.real
+        return hash(str(operator))
-- 
2.43.0


From c8ab470bb2bb2584cb3cde7850e1e79b2207d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 13/93] fix: validate Pauli actions exactly and allow op += op
 and op -= op

---
 projectq/ops/_qubit_operator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectq/ops/_qubit_operator.py b/projectq/ops/_qubit_operator.py
index af05542..dde343c 100644
--- a/projectq/ops/_qubit_operator.py
+++ b/projectq/ops/_qubit_operator.py
@@ -145,7 +145,7 @@ class QubitOperator(BasicGate):
                     if not isinstance(local_operator, tuple) or len(local_operator) != 2:
                         raise ValueError("term specified incorrectly.")
                     qubit_num, action = local_operator
-                    if not isinstance(action, str) or action not in 'XYZ':
+                    if action not in ('X', 'Y', 'Z'):
                         raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                     if not (isinstance(qubit_num, int) and qubit_num >= 0):
                         raise QubitOperatorError(
@@ -164,7 +164,7 @@ class QubitOperator(BasicGate):
             # Test that list_ops has correct format of tuples
             for local_operator in list_ops:
                 qubit_num, action = local_operator
-                if not isinstance(action, str) or action not in 'XYZ':
+                if action not in ('X', 'Y', 'Z'):
                     raise ValueError("Invalid action provided: must be string 'X', 'Y', or 'Z'.")
                 if not (isinstance(qubit_num, int) and qubit_num >= 0):
                     raise QubitOperatorError("Invalid qubit number provided to QubitTerm: must be a non-negative int.")
@@ -502,7 +502,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, QubitOperator):
-            for term in addend.terms:
+            for term in list(addend.terms):
                 if term in self.terms:
                     if abs(addend.terms[term] + self.terms[term]) > 0.0:
                         self.terms[term] += addend.terms[term]
@@ -531,7 +531,7 @@ class QubitOperator(BasicGate):
             TypeError: Cannot subtract invalid type from QubitOperator.
         """
         if isinstance(subtrahend, QubitOperator):
-            for term in subtrahend.terms:
+            for term in list(subtrahend.terms):
                 if term in self.terms:
                     if abs(self.terms[term] - subtrahend.terms[term]) > 0.0:
                         self.terms[term] -= subtrahend.terms[term]
-- 
2.43.0


From b8f6bc82da12a25f86b660cd18f0c381ae31fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 14/93] fix: do not merge uniformly controlled rotations of
 different size

---
 projectq/ops/_uniformly_controlled_rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/ops/_uniformly_controlled_rotation.py b/projectq/ops/_uniformly_controlled_rotation.py
index 46cf023..eb4b6f6 100644
--- a/projectq/ops/_uniformly_controlled_rotation.py
+++ b/projectq/ops/_uniformly_controlled_rotation.py
@@ -61,7 +61,7 @@ class UniformlyControlledRy(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
@@ -123,7 +123,7 @@ class UniformlyControlledRz(BasicGate):
 
     def get_merged(self, other):
         """Return self merged with another gate."""
-        if isinstance(other, self.__class__):
+        if isinstance(other, self.__class__) and len(self.angles) == len(other.angles):
             new_angles = [angle1 + angle2 for (angle1, angle2) in zip(self.angles, other.angles)]
             return self.__class__(new_angles)
         raise NotMergeable()
-- 
2.43.0


From 778a77003a07435c1554a43ffcbb9d5b250c0eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 15/93] fix: do not divide by zero coefficients when merging
 TimeEvolution gates

---
 projectq/ops/_time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index c28de10..90b06c2 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -111,6 +111,8 @@ class TimeEvolution(BasicGate):
         """
         rel_tol = 1e-9
         if isinstance(other, TimeEvolution) and set(self.hamiltonian.terms) == set(other.hamiltonian.terms):
+            if 0.0 in self.hamiltonian.terms.values() or 0.0 in other.hamiltonian.terms.values():
+                raise NotMergeable("Cannot merge these two gates.")
             factor = None
             for term in self.hamiltonian.terms:
                 if factor is None:
-- 
2.43.0


From 9f15b9e53f7e0cfe74ecc2484bf629363906ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 16/93] fix: make TimeEvolution hashable so that it can be
 counted

---
 projectq/ops/_time_evolution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 90b06c2..8d56256 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -201,6 +201,10 @@ class TimeEvolution(BasicGate):
         """Not implemented as this object is a floating point type."""
         return NotImplemented
 
+    def __hash__(self):
+        """Compute the hash of the object (by identity, which is how the objects compare)."""
+        return object.__hash__(self)
+
     def __str__(self):
         """Return a string representation of the object."""
         return f"exp({-1j * self.time} * ({self.hamiltonian}))"
-- 
2.43.0


From aae8801bb90f7da46a08d92ac9a886744a11941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 17/93] fix: compare math, phase estimation and amplitude
 amplification gates by what they implement

---
 projectq/ops/_basics.py  | 15 +++++++++++++++
 projectq/ops/_qaagate.py |  8 ++++++++
 projectq/ops/_qpegate.py |  8 ++++++++
 3 files changed, 31 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 8546965..0b5ab0c 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -601,8 +601,23 @@ class BasicMathGate(BasicGate):
         def math_function(arg):
             return list(math_fun(*arg))
 
+        self._math_fun = math_fun
         self._math_function = math_function
 
+    def __eq__(self, other):
+        """
+        Equal operator.
+
+        A plain BasicMathGate is only equal to another one implementing the same mathematical function.
+        """
+        if isinstance(other, BasicMathGate) and BasicMathGate in (type(self), type(other)):
+            return type(self) is type(other) and self._math_fun == other._math_fun
+        return super().__eq__(other)
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
+
     def __str__(self):
         """Return a string representation of the object."""
         return "MATH"
diff --git a/projectq/ops/_qaagate.py b/projectq/ops/_qaagate.py
index c5561ea..225c18a 100755
--- a/projectq/ops/_qaagate.py
+++ b/projectq/ops/_qaagate.py
@@ -80,3 +80,11 @@ class QAA(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QAA(Algorithm = {str(self.algorithm.__name__)}, Oracle = {str(self.oracle.__name__)})'
+
+    def __eq__(self, other):
+        """Return True if same class, same algorithm and same oracle."""
+        return isinstance(other, self.__class__) and self.algorithm == other.algorithm and self.oracle == other.oracle
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
diff --git a/projectq/ops/_qpegate.py b/projectq/ops/_qpegate.py
index 3eab6e8..d4a553a 100755
--- a/projectq/ops/_qpegate.py
+++ b/projectq/ops/_qpegate.py
@@ -32,3 +32,11 @@ class QPE(BasicGate):
     def __str__(self):
         """Return a string representation of the object."""
         return f'QPE({str(self.unitary)})'
+
+    def __eq__(self, other):
+        """Return True if same class and same unitary."""
+        return isinstance(other, self.__class__) and self.unitary == other.unitary
+
+    def __hash__(self):
+        """Compute the hash of the object."""
+        return hash(str(self))
-- 
2.43.0


From 0a2006063af755f449bb33f2cae5d84bbfc03026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 18/93] fix: the inverse of the quantum comparison is the
 comparison itself

---
 projectq/libs/math/_gates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index ad466d2..32c4293 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -393,8 +393,8 @@ class ComparatorQuantumGate(BasicMathGate):
         return hash(str(self))
 
     def get_inverse(self):
-        """Return the inverse of this gate."""
-        return AddQuantum
+        """Return the inverse of this gate (the comparison is its own inverse)."""
+        return self
 
 
 ComparatorQuantum = ComparatorQuantumGate()
-- 
2.43.0


From 7a583b9047d92b6591fa1a39820cd8140a16414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 19/93] fix: use integer division when computing modular
 inverses

---
 projectq/libs/math/_constantmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 14c87e7..2f299fe 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -120,7 +120,7 @@ def inv_mod_N(a, N):  # pylint: disable=invalid-name
     r = N
     old_r = a
     while r != 0:
-        q = int(old_r / r)
+        q = old_r // r
         tmp = r
         r = old_r - q * r
         old_r = tmp
-- 
2.43.0


From 089967dc2bb818d4363b0119d4fe861a8aa62282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:40 +0000
Subject: [PATCH 20/93] fix: add an overflow qubit in modular addition if the
 modulus fills the register

---
 projectq/libs/math/_constantmath.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projectq/libs/math/_constantmath.py b/projectq/libs/math/_constantmath.py
index 2f299fe..bcbff42 100755
--- a/projectq/libs/math/_constantmath.py
+++ b/projectq/libs/math/_constantmath.py
@@ -56,6 +56,13 @@ def add_constant_modN(eng, constant, N, quint):  # pylint: disable=invalid-name
     if constant < 0 or constant > N:
         raise ValueError('Pre-condition failed: 0 <= constant < N')
 
+    if N > 1 << (len(quint) - 1):
+        # The construction needs the highest qubit to detect overflows: add one if N makes use of all of them
+        overflow = eng.allocate_qubit()
+        add_constant_modN(eng, constant, N, list(quint) + list(overflow))
+        del overflow
+        return
+
     AddConstant(constant) | quint
 
     with Compute(eng):
-- 
2.43.0


From d16cf6f7cea4dcc178f756bcb136e0df1bcec433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 21/93] fix: undo the carry computation of the quantum
 comparator in reverse order

---
 projectq/libs/math/_quantummath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 59aa7cf..8a98495 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -218,11 +218,11 @@ def comparator(eng, quint_a, quint_b, comp):
     with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
         X | comp
 
-    for k in range(0, n_qubits - 2):
+    for k in range(n_qubits - 3, -1, -1):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    for j in range(n_qubits - 3, 0, -1):
+    for j in range(1, n_qubits - 2):
         CNOT | (quint_a[j], quint_a[j + 1])
 
     for i in range(1, n_qubits - 1):
-- 
2.43.0


From 4a3b6f2153d553372a029b605e557a871529feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 22/93] fix: carry of quantum addition and comparison of
 single-qubit registers

---
 projectq/libs/math/_quantummath.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 8a98495..e194488 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry:
+    if carry and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -206,7 +206,8 @@ def comparator(eng, quint_a, quint_b, comp):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    CNOT | (quint_a[n_qubits - 2], comp)
+    if n_qubits > 2:
+        CNOT | (quint_a[n_qubits - 2], comp)
 
     for j in range(n_qubits - 3, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
@@ -425,8 +426,9 @@ def quantum_conditional_add_carry(eng, quint_a, quint_b, ctrl, z):  # pylint: di
     for i in range(1, n_a):
         CNOT | (quint_a[i], quint_b[i])
 
-    with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
-        X | z[0]
+    if n_a > 1:
+        with Control(eng, [quint_a[n_a - 1], ctrl[0]]):
+            X | z[0]
 
     for j in range(n_a - 2, 0, -1):
         CNOT | (quint_a[j], quint_a[j + 1])
-- 
2.43.0


From 208126b9b4639d884917becfdeec3280acb9b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 23/93] fix: accept a register as the carry of add_quantum

---
 projectq/libs/math/_quantummath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index e194488..4000335 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -48,7 +48,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
 
     if len(quint_a) != len(quint_b):
         raise ValueError('quint_a and quint_b must have the same size!')
-    if carry and len(carry) != 1:
+    if carry is not None and len(carry) != 1:
         raise ValueError('Either no carry bit or a single carry qubit is allowed!')
 
     n_qubits = len(quint_a) + 1
@@ -56,7 +56,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
     for i in range(1, n_qubits - 1):
         CNOT | (quint_a[i], quint_b[i])
 
-    if carry and n_qubits > 2:
+    if carry is not None and n_qubits > 2:
         CNOT | (quint_a[n_qubits - 2], carry)
 
     for j in range(n_qubits - 3, 0, -1):
@@ -66,7 +66,7 @@ def add_quantum(eng, quint_a, quint_b, carry=None):
         with Control(eng, [quint_a[k], quint_b[k]]):
             X | (quint_a[k + 1])
 
-    if carry:
+    if carry is not None:
         with Control(eng, [quint_a[n_qubits - 2], quint_b[n_qubits - 2]]):
             X | carry
 
-- 
2.43.0


From d0e9c81119718dbca1501a480d4a47f14a39a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 24/93] fix: do not use the control qubit of a controlled
 quantum addition twice

---
 projectq/libs/math/_default_rules.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 7243fea..4cc9bc8 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -85,15 +85,14 @@ def _replace_addquantum(cmd):
         else:
             add_quantum(eng, quint_a, quint_b)
     else:
+        # NB: these functions apply the control themselves
         quint_a = cmd.qubits[0]
         quint_b = cmd.qubits[1]
         if len(cmd.qubits) == 3:
             carry = cmd.qubits[2]
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
+            quantum_conditional_add_carry(eng, quint_a, quint_b, cmd.control_qubits, carry)
         else:
-            with Control(eng, cmd.control_qubits):
-                quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
+            quantum_conditional_add(eng, quint_a, quint_b, cmd.control_qubits)
 
 
 def _replace_inverse_add_quantum(cmd):
-- 
2.43.0


From 88f825a3af6a20b4de4167793954587b91086911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 25/93] fix: emulated inverse quantum addition flips the carry
 only on a borrow

---
 projectq/libs/math/_gates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 32c4293..fb31768 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -285,11 +285,10 @@ class _InverseAddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
-            if len(a) == 3:
+            a[1] -= a[0]
+            if len(a) == 3 and a[1] < 0:
                 # Flip the last bit of the carry register
                 a[2] ^= 1
-
-            a[1] -= a[0]
             return a
 
         return math_fun
-- 
2.43.0


From 2cc83bbb43ff7098da27a46d2181e079762ca0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 26/93] fix: quantum multiplication and its inverse use all
 bits of the operands

---
 projectq/libs/math/_quantummath.py | 31 +++++++++---------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 4000335..7a463fa 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -15,7 +15,7 @@
 """Definition of some mathematical quantum operations."""
 
 from projectq.meta import Control
-from projectq.ops import CNOT, All, X
+from projectq.ops import CNOT, All, X, get_inverse
 
 from ._gates import AddQuantum, SubtractQuantum
 
@@ -498,18 +498,11 @@ def quantum_multiplication(eng, quint_a, quint_b, product):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
 
-    with Control(eng, quint_b[1]):
-        AddQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-
-    for j in range(2, n_a):
+    for j in range(1, n_a):
         with Control(eng, quint_b[j]):
             AddQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
 
@@ -538,20 +531,14 @@ def inverse_quantum_multiplication(eng, quint_a, quint_b, product):
     if len(product) != ((2 * n_a) + 1):
         raise ValueError('product size must be 2*n + 1')
 
-    for j in range(2, n_a):
+    for j in range(n_a - 1, 0, -1):
         with Control(eng, quint_b[j]):
-            SubtractQuantum | (
-                quint_a[0 : (n_a - 1)],  # noqa: E203
-                product[(0 + j) : (n_a - 1 + j)],  # noqa: E203
+            get_inverse(AddQuantum) | (
+                quint_a,
+                product[j : (n_a + j)],  # noqa: E203
                 [product[n_a + j], product[n_a + j + 1]],
             )
+
     for i in range(0, n_a):
         with Control(eng, [quint_a[i], quint_b[0]]):
             X | product[i]
-
-    with Control(eng, quint_b[1]):
-        SubtractQuantum | (
-            quint_a[0 : (n_a - 1)],  # noqa: E203
-            product[1:n_a],
-            [product[n_a + 1], product[n_a + 2]],
-        )
-- 
2.43.0


From e8e2e07cd8a6532af21beedd6e5fa399db5c0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 27/93] fix: use the borrow in quantum division instead of the
 sign of the difference

---
 projectq/libs/math/_quantummath.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/projectq/libs/math/_quantummath.py b/projectq/libs/math/_quantummath.py
index 7a463fa..ff6ca53 100644
--- a/projectq/libs/math/_quantummath.py
+++ b/projectq/libs/math/_quantummath.py
@@ -335,8 +335,8 @@ def quantum_division(eng, dividend, remainder, divisor):
         for i in range(0, n_dividend - 1):
             combined_reg.append(remainder[i])
 
-        SubtractQuantum | (divisor[0:n_dividend], combined_reg)
-        CNOT | (combined_reg[n_dividend - 1], remainder[n_dividend - 1])
+        # The most significant qubit of the remainder is still 0 at this point and receives the borrow
+        get_inverse(AddQuantum) | (divisor[0:n_dividend], combined_reg, [remainder[n_dividend - 1]])
         with Control(eng, remainder[n_dividend - 1]):
             AddQuantum | (divisor[0:n_dividend], combined_reg)
         X | remainder[n_dividend - 1]
@@ -373,9 +373,8 @@ def inverse_quantum_division(eng, remainder, quotient, divisor):
         X | quotient[0]
         with Control(eng, quotient[0]):
             SubtractQuantum | (divisor, remainder)
-        CNOT | (remainder[-1], quotient[0])
 
-        AddQuantum | (divisor, remainder)
+        AddQuantum | (divisor, remainder, [quotient[0]])
 
         remainder.insert(n_quotient, quotient[0])
         quotient.insert(n_quotient, remainder[0])
-- 
2.43.0


From b9702cc5c10fef427a42cf7619f8c81165a1c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 28/93] fix: honour negative controls in the simulators and
 target order in the unitary simulator

---
 projectq/backends/_sim/_simulator.py | 13 ++++++++++++-
 projectq/backends/_unitary.py        | 11 ++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_sim/_simulator.py b/projectq/backends/_sim/_simulator.py
index f3365fb..01c4dad 100755
--- a/projectq/backends/_sim/_simulator.py
+++ b/projectq/backends/_sim/_simulator.py
@@ -27,10 +27,12 @@ from projectq.meta import LogicalQubitIDTag, get_control_count, has_negative_con
 from projectq.ops import (
     Allocate,
     BasicMathGate,
+    Command,
     Deallocate,
     FlushGate,
     Measure,
     TimeEvolution,
+    X,
 )
 from projectq.types import WeakQubitRef
 
@@ -335,7 +337,16 @@ class Simulator(BasicEngine):
             Exception: If a non-single-qubit gate needs to be processed (which should never happen due to
                 is_available).
         """
-        if cmd.gate == Measure:
+        if has_negative_control(cmd) and cmd.gate != Measure:
+            negative_ids = [qb.id for qb, ctrl in zip(cmd.control_qubits, cmd.control_state) if ctrl == '0']
+            for qb_id in negative_ids:
+                self._simulator.apply_controlled_gate(X.matrix.tolist(), [qb_id], [])
+            self._handle(Command(cmd.engine, cmd.gate, cmd.qubits, controls=cmd.control_qubits, tags=cmd.tags))
+            for qb_id in negative_ids:
+                self._simulator.apply_controlled_gate(X.matrix.tolist(), [qb_id], [])
+            if not self._gate_fusion:
+                self._simulator.run()
+        elif cmd.gate == Measure:
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
             ids = [qb.id for qr in cmd.qubits for qb in qr]
diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index a8941b1..280afb0 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -28,10 +28,12 @@ from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, Meas
 from projectq.types import WeakQubitRef
 
 
-def _qidmask(target_ids, control_ids, n_qubits):
+def _qidmask(target_ids, control_ids, control_state, n_qubits):
     """
     Calculate index masks.
 
+    The indices in each mask are ordered such that the first target qubit is the least-significant one.
+
     Args:
         target_ids (list): list of target qubit indices
         control_ids (list): list of control qubit indices
@@ -44,7 +46,7 @@ def _qidmask(target_ids, control_ids, n_qubits):
     irel_ids = np.delete(all_ids, control_ids + target_ids)
 
     if len(control_ids) > 0:
-        cmask = np.where(np.all(perms[:, control_ids] == [1] * len(control_ids), axis=1))
+        cmask = np.where(np.all(perms[:, control_ids] == control_state, axis=1))
     else:
         cmask = np.array(range(perms.shape[0]))
 
@@ -58,7 +60,9 @@ def _qidmask(target_ids, control_ids, n_qubits):
     else:
         irel_mask = np.array(range(perms.shape[0]))
         mask_list.append(np.intersect1d(irel_mask, cmask))
-    return mask_list
+
+    target_weights = 2 ** np.arange(len(target_ids))
+    return [mask[np.argsort(perms[mask][:, target_ids] @ target_weights)] for mask in mask_list]
 
 
 class UnitarySimulator(BasicEngine):
@@ -238,6 +242,7 @@ class UnitarySimulator(BasicEngine):
             mask_list = _qidmask(
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
+                [int(ctrl) for ctrl in cmd.control_state],
                 self._num_qubits,
             )
             for mask in mask_list:
-- 
2.43.0


From c26f246814d7ddcf66223715e57a209036bc1158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 29/93] fix: keep state, unitary and qubit positions consistent
 in the unitary simulator

---
 projectq/backends/_unitary.py | 43 +++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 280afb0..6d3952a 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -96,11 +96,12 @@ class UnitarySimulator(BasicEngine):
         """Initialize a UnitarySimulator object."""
         super().__init__()
         self._qubit_map = {}
-        self._unitary = [1]
+        self._unitary = np.identity(1, dtype=complex)
         self._num_qubits = 0
         self._is_valid = True
         self._is_flushed = False
-        self._state = [1]
+        self._initial_state = np.array([1], dtype=complex)  # State on which the current unitary acts
+        self._state = np.array([1], dtype=complex)
         self._history = []
 
     @property
@@ -177,7 +178,20 @@ class UnitarySimulator(BasicEngine):
         """Flush the simulator state."""
         if not self._is_flushed:
             self._is_flushed = True
-            self._state = self._unitary @ self._state
+            self._state = self._unitary @ self._initial_state
+
+    def _start_new_unitary(self):
+        """Store the current unitary in the history and start a new one which acts on the current state."""
+        self._flush()
+
+        warnings.warn(
+            "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
+            "previous unitary can be accessed in history"
+        )
+        self._history.append(self._unitary)
+        self._unitary = np.identity(2**self._num_qubits, dtype=complex)
+        self._initial_state = self._state.copy()
+        self._is_valid = True
 
     def _handle(self, cmd):
         """
@@ -190,13 +204,21 @@ class UnitarySimulator(BasicEngine):
             RuntimeError: If a measurement is performed before flush gate.
         """
         if isinstance(cmd.gate, AllocateQubitGate):
+            if not self._is_valid:
+                self._start_new_unitary()
+
             self._qubit_map[cmd.qubits[0][0].id] = self._num_qubits
             self._num_qubits += 1
             self._unitary = np.kron(np.identity(2), self._unitary)
-            self._state.extend([0] * len(self._state))
+            self._initial_state = np.append(self._initial_state, np.zeros_like(self._initial_state))
+            self._state = np.append(self._state, np.zeros_like(self._state))
 
         elif isinstance(cmd.gate, DeallocateQubitGate):
-            pos = self._qubit_map[cmd.qubits[0][0].id]
+            self._flush()
+            # The qubit may still be entangled with others: discarding it is the same as measuring it
+            (value,) = self.measure_qubits([cmd.qubits[0][0].id])
+            pos = self._qubit_map.pop(cmd.qubits[0][0].id)
+            self._state = self._state.reshape((-1, 2, 2**pos))[:, int(value), :].flatten()
             self._qubit_map = {key: value - 1 if value > pos else value for key, value in self._qubit_map.items()}
             self._num_qubits -= 1
             self._is_valid = False
@@ -227,16 +249,7 @@ class UnitarySimulator(BasicEngine):
             self._flush()
         else:
             if not self._is_valid:
-                self._flush()
-
-                warnings.warn(
-                    "Processing of other gates after a qubit deallocation or measurement will reset the unitary,"
-                    "previous unitary can be accessed in history"
-                )
-                self._history.append(self._unitary)
-                self._unitary = np.identity(2**self._num_qubits, dtype=complex)
-                self._state = np.array([1] + ([0] * (2**self._num_qubits - 1)), dtype=complex)
-                self._is_valid = True
+                self._start_new_unitary()
 
             self._is_flushed = False
             mask_list = _qidmask(
-- 
2.43.0


From 43ee940ebfd986dcdcccb1323e48626f090d7f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 30/93] fix: do not overwrite amplitudes with those of unused
 basis states in Python math emulation

---
 projectq/backends/_sim/_pysim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index b4934d3..4485bf3 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -217,9 +217,9 @@ class Simulator:
                     for qb_i, qb_loc in enumerate(qr_loc):
                         if not ((new_i >> qb_loc) & 1) == ((res[qr_i] >> qb_i) & 1):
                             new_i ^= 1 << qb_loc
-                newstate[new_i] = state
+                newstate[new_i] += state
             else:
-                newstate[i] = state
+                newstate[i] += state
 
         self._state = newstate
 
-- 
2.43.0


From 65287c0afccb851869dfde09fa726e4d2a15183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 31/93] fix: reject negative integers as control state

---
 projectq/meta/_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 1768927..493bb4d 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -60,6 +60,8 @@ def canonical_ctrl_state(ctrl_state, num_qubits):
         return '0' * num_qubits
 
     if isinstance(ctrl_state, int):
+        if ctrl_state < 0:
+            raise ValueError(f'Control state cannot be negative: {ctrl_state}')
         # If the user inputs an integer, convert it to binary bit string
         converted_str = f'{ctrl_state:b}'.zfill(num_qubits)[::-1]
         if len(converted_str) != num_qubits:
-- 
2.43.0


From 06f2ba55b89c8dc2fa75e4256785bd34b5033452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 32/93] fix: keep each control qubit of a command only once

---
 projectq/ops/_command.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index e685d3b..a8112ec 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -289,20 +289,24 @@ class Command:  # pylint: disable=too-many-instance-attributes
 
         if not isinstance(qubits, list):
             raise ValueError('Control qubits must be a list of qubits!')
-        self._control_qubits.extend([WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits])
-        self._control_state += canonical_ctrl_state(state, len(qubits))
+        all_control_qubits = self._control_qubits + [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
+        all_control_states = self._control_state + canonical_ctrl_state(state, len(qubits))
 
-        zipped = sorted(zip(self._control_qubits, self._control_state), key=lambda x: x[0].id)
-        unzipped_qubit, unzipped_state = zip(*zipped)
-        self._control_qubits, self._control_state = list(unzipped_qubit), ''.join(unzipped_state)
+        zipped = sorted(zip(all_control_qubits, all_control_states), key=lambda x: x[0].id)
 
-        # Make sure that we do not have contradicting control states for any control qubits
+        # Make sure that we do not have contradicting control states for any control qubits and that each control qubit
+        # only appears once
+        control_qubits = []
+        control_state = ''
         for _, data in itertools.groupby(zipped, key=lambda x: x[0].id):
             qubits, states = list(zip(*data))
             if len(set(states)) != 1:
                 raise IncompatibleControlState(
                     f'Control qubits {list(qubits)} cannot have conflicting control states: {states}'
                 )
+            control_qubits.append(qubits[0])
+            control_state += states[0]
+        self._control_qubits, self._control_state = control_qubits, control_state
 
     @property
     def all_qubits(self):
-- 
2.43.0


From 0c30d13f20a22e1955fbfe025918ae8af6d0bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 33/93] fix: decompose one-qubit unitaries with small rotation
 angles instead of raising

---
 projectq/setups/decompositions/arb1qubit2rzandry.py      | 3 ++-
 projectq/setups/decompositions/carb1qubit2cnotrzandry.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/arb1qubit2rzandry.py b/projectq/setups/decompositions/arb1qubit2rzandry.py
index fc9d1a4..d0a14da 100644
--- a/projectq/setups/decompositions/arb1qubit2rzandry.py
+++ b/projectq/setups/decompositions/arb1qubit2rzandry.py
@@ -183,7 +183,8 @@ def _find_parameters(matrix):  # pylint: disable=too-many-branches,too-many-stat
             (two_b / 4.0 + math.pi) % (2 * math.pi),
             (two_b / 4.0 + 3.0 / 2.0 * math.pi) % (2 * math.pi),
         ]
-        tmp = math.acos(abs(matrix[1][1]))
+        # NB: atan2 keeps the precision for small angles and matrix elements that are (rounded to) larger than 1
+        tmp = math.atan2(abs(matrix[1][0]), abs(matrix[1][1]))
         possible_c_half = [
             tmp % (2 * math.pi),
             (tmp + math.pi) % (2 * math.pi),
diff --git a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
index 549db3a..026709d 100644
--- a/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
+++ b/projectq/setups/decompositions/carb1qubit2cnotrzandry.py
@@ -137,7 +137,8 @@ def _recognize_v(matrix):  # pylint: disable=too-many-branches
         (two_b / 2.0) % (2 * math.pi),
         (two_b / 2.0 + math.pi) % (2 * math.pi),
     ]
-    tmp = math.acos(abs(matrix[1][0]))
+    # NB: atan2 keeps the precision for small angles and matrix elements that are (rounded to) larger than 1
+    tmp = math.atan2(abs(matrix[1][1]), abs(matrix[1][0]))
     possible_c_half = [
         tmp % (2 * math.pi),
         (tmp + math.pi) % (2 * math.pi),
-- 
2.43.0


From 966b869ffc7d0543fd8fb28373d177ada50c3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 34/93] fix: remove leftover debugging output from the time
 evolution decomposition

---
 projectq/setups/decompositions/time_evolution.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 9e02939..2b78e92 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -111,7 +111,6 @@ def _decompose_time_evolution_individual_terms(cmd):  # pylint: disable=too-many
                         H | qureg[index]
                     elif action == 'Y':
                         Rx(math.pi / 2.0) | qureg[index]
-                print(check_indices, set(range(len(qureg))))
                 # Check that qureg had exactly as many qubits as indices:
                 if check_indices != set(range(len(qureg))):
                     raise ValueError('Indices mismatch between hamiltonian terms and qubits')
-- 
2.43.0


From 6d797cdea422d2a5f934418b47a406e1d24036a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 35/93] fix: respect control qubits in the QAA and QPE
 decompositions

---
 .../decompositions/amplitudeamplification.py  | 31 +++++++-------
 .../setups/decompositions/phaseestimation.py  | 41 ++++++++++---------
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 5a85283..9a5f2d8 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -88,22 +88,23 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     oracle = cmd.gate.oracle
     alg = cmd.gate.algorithm
 
-    # Apply the oracle to invert the amplitude of the good states, S_Chi
-    oracle(eng, system_qubits, qaa_ancilla)
-
-    # Apply the inversion of the Algorithm,
-    # the inversion of the amplitude of |0> and the Algorithm
-
-    with Compute(eng):
-        with Dagger(eng):
+    with Control(eng, cmd.control_qubits):
+        # Apply the oracle to invert the amplitude of the good states, S_Chi
+        oracle(eng, system_qubits, qaa_ancilla)
+
+        # Apply the inversion of the Algorithm,
+        # the inversion of the amplitude of |0> and the Algorithm
+
+        with Compute(eng):
+            with Dagger(eng):
+                alg(eng, system_qubits)
+            All(X) | system_qubits
+        with Control(eng, system_qubits[0:-1]):
+            Z | system_qubits[-1]
+        with CustomUncompute(eng):
+            All(X) | system_qubits
             alg(eng, system_qubits)
-        All(X) | system_qubits
-    with Control(eng, system_qubits[0:-1]):
-        Z | system_qubits[-1]
-    with CustomUncompute(eng):
-        All(X) | system_qubits
-        alg(eng, system_qubits)
-    Ph(math.pi) | system_qubits[0]
+        Ph(math.pi) | system_qubits[0]
 
 
 #: Decomposition rules
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 0913064..5f7da7f 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -98,27 +98,28 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     qpe_ancillas = cmd.qubits[0]
     system_qubits = cmd.qubits[1]
 
-    # Hadamard on the ancillas
-    Tensor(H) | qpe_ancillas
-
-    # The Unitary Operator
-    unitary = cmd.gate.unitary
-
-    # Control U on the system_qubits
-    if callable(unitary):
-        # If U is a function
-        for i, ancilla in enumerate(qpe_ancillas):
-            with Control(eng, ancilla):
-                unitary(system_qubits, time=2**i)
-    else:
-        for i, ancilla in enumerate(qpe_ancillas):
-            ipower = int(2**i)
-            with Loop(eng, ipower):
-                with Control(eng, ancilla):
-                    unitary | system_qubits
+    with Control(eng, cmd.control_qubits):
+        # Hadamard on the ancillas
+        Tensor(H) | qpe_ancillas
+
+        # The Unitary Operator
+        unitary = cmd.gate.unitary
 
-    # Inverse QFT on the ancillas
-    get_inverse(QFT) | qpe_ancillas
+        # Control U on the system_qubits
+        if callable(unitary):
+            # If U is a function
+            for i, ancilla in enumerate(qpe_ancillas):
+                with Control(eng, ancilla):
+                    unitary(system_qubits, time=2**i)
+        else:
+            for i, ancilla in enumerate(qpe_ancillas):
+                ipower = int(2**i)
+                with Loop(eng, ipower):
+                    with Control(eng, ancilla):
+                        unitary | system_qubits
+
+        # Inverse QFT on the ancillas
+        get_inverse(QFT) | qpe_ancillas
 
 
 #: Decomposition rules
-- 
2.43.0


From 554fa2570b990bdc78b5da5cf26a5d2bdfe73dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 36/93] fix: allow only one-qubit commands for the one-qubit
 gate classes of the linear and grid setups

---
 projectq/setups/_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 20c531a..15fb9b6 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -104,12 +104,13 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         raise TypeError("one_qubit_gates parameter must be 'any' or a tuple.")
 
     rule_set = DecompositionRuleSet(modules=[projectq.libs.math, projectq.setups.decompositions])
-    allowed_gate_classes = []
+    allowed_gate_classes1 = []  # 1-qubit gates
+    allowed_gate_classes2 = []  # 2-qubit gates
     allowed_gate_instances = []
     if one_qubit_gates != "any":
         for gate in one_qubit_gates:
             if inspect.isclass(gate):
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes1.append(gate)
             else:
                 allowed_gate_instances.append((gate, 0))
     if two_qubit_gates != "any":
@@ -119,13 +120,14 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
                 #  separate treatment
                 if isinstance(gate, ControlledGate):  # pragma: no cover
                     raise RuntimeError('Support for controlled gate not implemented!')
-                allowed_gate_classes.append(gate)
+                allowed_gate_classes2.append(gate)
             else:
                 if isinstance(gate, ControlledGate):
                     allowed_gate_instances.append((gate._gate, gate._n))  # pylint: disable=protected-access
                 else:
                     allowed_gate_instances.append((gate, 0))
-    allowed_gate_classes = tuple(allowed_gate_classes)
+    allowed_gate_classes1 = tuple(allowed_gate_classes1)
+    allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
     def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
@@ -139,7 +141,9 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
             return True
-        if isinstance(cmd.gate, allowed_gate_classes):
+        if isinstance(cmd.gate, allowed_gate_classes1) and len(all_qubits) == 1:
+            return True
+        if isinstance(cmd.gate, allowed_gate_classes2) and len(all_qubits) == 2:
             return True
         if (cmd.gate, len(cmd.control_qubits)) in allowed_gate_instances:
             return True
-- 
2.43.0


From d489d39fe4f045417ebdb1a9e579cf976b9bc023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 37/93] fix: convert negative controls the backend does not
 support in the restricted gate set setups

---
 projectq/setups/_utils.py            | 6 +++++-
 projectq/setups/restrictedgateset.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 15fb9b6..43729d6 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -25,6 +25,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import (
     CNOT,
     QFT,
@@ -130,13 +131,16 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
     allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances = tuple(allowed_gate_instances)
 
-    def low_level_gates(eng, cmd):  # pylint: disable=unused-argument
+    def low_level_gates(eng, cmd):
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
         if len(all_qubits) > 2:  # pragma: no cover
             raise ValueError('Filter function cannot handle gates with more than 2 qubits!')
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd) and not eng.next_engine.is_available(cmd):
+            # The allowed gates only have positive control qubits
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 202bb99..39422e0 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -31,6 +31,7 @@ from projectq.cengines import (
     LocalOptimizer,
     TagRemover,
 )
+from projectq.meta import has_negative_control
 from projectq.ops import CNOT, BasicGate, ClassicalInstructionGate, ControlledGate
 
 from ._utils import high_level_gates, one_and_two_qubit_gates
@@ -149,11 +150,14 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
     allowed_gate_classes2 = tuple(allowed_gate_classes2)
     allowed_gate_instances2 = tuple(allowed_gate_instances2)
 
-    def low_level_gates(eng, cmd):  # pylint: disable=unused-argument,too-many-return-statements
+    def low_level_gates(eng, cmd):  # pylint: disable=too-many-return-statements
         all_qubits = [q for qr in cmd.all_qubits for q in qr]
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
+        if has_negative_control(cmd) and not eng.next_engine.is_available(cmd):
+            # The allowed gates only have positive control qubits
+            return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
             return True
         if two_qubit_gates == "any" and len(all_qubits) == 2:
-- 
2.43.0


From 7c0dfaa23c08dd89a79a6467ab423a005a7f4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 38/93] fix: keep negative controls when flipping a CNOT in
 SwapAndCNOTFlipper

---
 projectq/cengines/_swapandcnotflipper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_swapandcnotflipper.py b/projectq/cengines/_swapandcnotflipper.py
index 997274a..a3d6cf0 100755
--- a/projectq/cengines/_swapandcnotflipper.py
+++ b/projectq/cengines/_swapandcnotflipper.py
@@ -18,7 +18,7 @@ It also translates Swap gates to CNOTs if necessary.
 """
 from copy import deepcopy
 
-from projectq.meta import get_control_count
+from projectq.meta import get_control_count, has_negative_control
 from projectq.ops import CNOT, NOT, All, H, Swap
 
 from ._basics import BasicEngine, ForwarderEngine
@@ -107,9 +107,14 @@ class SwapAndCNOTFlipper(BasicEngine):
         control[0].engine = forwarder_eng
         if flip:
             # flip the CNOT using Hadamard gates:
+            negative = has_negative_control(cmd)
+            if negative:
+                NOT | control[0]
             All(H) | (control + target)
             CNOT | (target, control)
             All(H) | (control + target)
+            if negative:
+                NOT | control[0]
         else:
             CNOT | (control, target)
 
-- 
2.43.0


From 5232c351cbb3ebab248927f9878dd27e9e3a3c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 39/93] fix: AWS Braket setup compiles programs with CNOT gates

---
 projectq/setups/awsbraket.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/setups/awsbraket.py b/projectq/setups/awsbraket.py
index 46247ca..88d0179 100644
--- a/projectq/setups/awsbraket.py
+++ b/projectq/setups/awsbraket.py
@@ -28,6 +28,7 @@ that will be used in the backend.
 from projectq.backends._awsbraket._awsbraket_boto3_client import show_devices
 from projectq.backends._exceptions import DeviceNotHandledError, DeviceOfflineError
 from projectq.ops import (
+    CNOT,
     Barrier,
     H,
     R,
@@ -67,21 +68,21 @@ def get_engine_list(credentials=None, device=None):
     if device == 'SV1':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'Aspen-8':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(R, H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
     if device == 'IonQ Device':
         setup = restrictedgateset.get_engine_list(
             one_qubit_gates=(H, Rx, Ry, Rz, S, Sdag, T, Tdag, X, Y, Z, SqrtX),
-            two_qubit_gates=(Swap,),
+            two_qubit_gates=(CNOT, Swap),
             other_gates=(Barrier,),
         )
         return setup
-- 
2.43.0


From af746d53fe5e86273459e9914eacc786dd40ec42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 40/93] fix: restricted gate set setups always convert negative
 controls (mappers accept them)

---
 projectq/setups/_utils.py            | 2 +-
 projectq/setups/restrictedgateset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/_utils.py b/projectq/setups/_utils.py
index 43729d6..eaf1049 100644
--- a/projectq/setups/_utils.py
+++ b/projectq/setups/_utils.py
@@ -138,7 +138,7 @@ def get_engine_list_linear_grid_base(mapper, one_qubit_gates="any", two_qubit_ga
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
-        if has_negative_control(cmd) and not eng.next_engine.is_available(cmd):
+        if has_negative_control(cmd):
             # The allowed gates only have positive control qubits
             return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
diff --git a/projectq/setups/restrictedgateset.py b/projectq/setups/restrictedgateset.py
index 39422e0..e2075a0 100644
--- a/projectq/setups/restrictedgateset.py
+++ b/projectq/setups/restrictedgateset.py
@@ -155,7 +155,7 @@ def get_engine_list(  # pylint: disable=too-many-branches,too-many-statements
         if isinstance(cmd.gate, ClassicalInstructionGate):
             # This is required to allow Measure, Allocate, Deallocate, Flush
             return True
-        if has_negative_control(cmd) and not eng.next_engine.is_available(cmd):
+        if has_negative_control(cmd):
             # The allowed gates only have positive control qubits
             return False
         if one_qubit_gates == "any" and len(all_qubits) == 1:
-- 
2.43.0


From 0e35b6bbc39eba8d636fab21b5b6693e25138cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 41/93] fix: the inverses of the quantum math gates are
 invertible

---
 projectq/libs/math/_gates.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index fb31768..7af0c44 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -283,6 +283,10 @@ class _InverseAddQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseAddQuantum"
 
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return AddQuantum
+
     def get_math_function(self, qubits):
         def math_fun(a):  # pylint: disable=invalid-name
             a[1] -= a[0]
@@ -483,6 +487,10 @@ class _InverseDivideQuantumGate(BasicMathGate):
         """Return a string representation of the object."""
         return "_InverseDivideQuantum"
 
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return DivideQuantum
+
 
 class MultiplyQuantumGate(BasicMathGate):
     """
@@ -551,3 +559,7 @@ class _InverseMultiplyQuantumGate(BasicMathGate):
     def __str__(self):
         """Return a string representation of the object."""
         return "_InverseMultiplyQuantum"
+
+    def get_inverse(self):
+        """Return the inverse of this gate."""
+        return MultiplyQuantum
-- 
2.43.0


From 7ac45d1a8be4be45cca6aae361f3b7ae24a86d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 42/93] fix: the manual mapper does not ask for the location of
 the flush command's fake qubit

---
 projectq/cengines/_manualmapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/cengines/_manualmapper.py b/projectq/cengines/_manualmapper.py
index 4e77010..5897d0b 100755
--- a/projectq/cengines/_manualmapper.py
+++ b/projectq/cengines/_manualmapper.py
@@ -51,6 +51,7 @@ class ManualMapper(BasicMapperEngine):
             ids = [qb.id for qr in cmd.qubits for qb in qr]
             ids += [qb.id for qb in cmd.control_qubits]
             for qubit_id in ids:
-                if qubit_id not in self.current_mapping:
+                # NB: the flush command has a fake qubit with id -1
+                if qubit_id != -1 and qubit_id not in self.current_mapping:
                     self._current_mapping[qubit_id] = self.map(qubit_id)
             self._send_cmd_with_mapped_ids(cmd)
-- 
2.43.0


From 6a8f1bb2182932cc92b1d6772feff24beb95ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 43/93] fix: bounded qubit mapper does not give the location of
 a live qubit to a new one after a flush

---
 projectq/backends/_ionq/_ionq_mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_ionq/_ionq_mapper.py b/projectq/backends/_ionq/_ionq_mapper.py
index e77b92c..6162f94 100644
--- a/projectq/backends/_ionq/_ionq_mapper.py
+++ b/projectq/backends/_ionq/_ionq_mapper.py
@@ -30,8 +30,8 @@ class BoundedQubitMapper(BasicMapperEngine):
         self.max_qubits = max_qubits
 
     def _reset(self):
-        # Reset the mapping index.
-        self._qubit_idx = 0
+        # Reset the mapping index (qubits which are still allocated keep their location).
+        self._qubit_idx = max(self._current_mapping.values()) + 1 if self._current_mapping else 0
 
     def _process_cmd(self, cmd):
         current_mapping = self.current_mapping
-- 
2.43.0


From fe97f0cf9c681fa6286c20b82e03541cd091e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 44/93] fix: grid mapper tries at most num_optimization_steps
 permutations

---
 projectq/cengines/_twodmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/cengines/_twodmapper.py b/projectq/cengines/_twodmapper.py
index 7a54a02..dc4d7cc 100644
--- a/projectq/cengines/_twodmapper.py
+++ b/projectq/cengines/_twodmapper.py
@@ -506,7 +506,7 @@ class GridMapper(BasicMapperEngine):  # pylint: disable=too-many-instance-attrib
         swaps = None
         lowest_cost = None
         matchings_numbers = list(range(self.num_rows))
-        if self.num_optimization_steps <= math.factorial(self.num_rows):
+        if self.num_optimization_steps >= math.factorial(self.num_rows):
             permutations = itertools.permutations(matchings_numbers, self.num_rows)
         else:
             permutations = []
-- 
2.43.0


From 497cf90d8fe0882a661cdaa388fa028191b597f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:45 +0000
Subject: [PATCH 45/93] fix: blocks left by an exception or misuse leave no
 engine behind

---
 projectq/meta/_compute.py | 19 ++++++++++++++-----
 projectq/meta/_control.py | 10 ++++++----
 projectq/meta/_dagger.py  | 25 +++++++++++++++++--------
 projectq/meta/_loop.py    | 25 ++++++++++++++++++++-----
 projectq/meta/_util.py    | 27 +++++++++++++++++++++++++++
 5 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/projectq/meta/_compute.py b/projectq/meta/_compute.py
index 84cde8a..ffc9a78 100755
--- a/projectq/meta/_compute.py
+++ b/projectq/meta/_compute.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine, CommandModifier
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engine_after, drop_engines_up_to, insert_engine
 
 
 class NoComputeSectionError(Exception):
@@ -314,9 +314,17 @@ class Compute:
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
+        compute_eng, self._compute_eng = self._compute_eng, None
+        # No Uncompute can follow if an error happens in this context
+        if exc_type is not None:
+            drop_engines_up_to(self.engine, compute_eng)
+            return
         # notify ComputeEngine that the compute section is done
-        self._compute_eng.end_compute()
-        self._compute_eng = None
+        try:
+            compute_eng.end_compute()
+        except QubitManagementError:
+            drop_engines_up_to(self.engine, compute_eng)
+            raise
 
 
 class CustomUncompute:
@@ -374,7 +382,10 @@ class CustomUncompute:
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
         if exc_type is not None:
+            drop_engines_up_to(self.engine, self._uncompute_eng)
             return
+        # remove uncompute engine
+        drop_engine_after(self.engine)
         # Check that all qubits allocated within Compute or within
         # CustomUncompute have been deallocated.
         all_allocated_qubits = self._allocated_qubit_ids.union(self._uncompute_eng._allocated_qubit_ids)
@@ -385,8 +396,6 @@ class CustomUncompute:
                 + "been allocated in the with Compute(eng) or with "
                 + "CustomUncompute(eng) context."
             )
-        # remove uncompute engine
-        drop_engine_after(self.engine)
 
 
 def Uncompute(engine):  # pylint: disable=invalid-name
diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 493bb4d..75b89c9 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -27,7 +27,7 @@ from projectq.ops import ClassicalInstructionGate, CtrlAll
 from projectq.types import BasicQubit
 
 from ._compute import ComputeTag, UncomputeTag
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engines_up_to, insert_engine
 
 
 def canonical_ctrl_state(ctrl_state, num_qubits):
@@ -156,18 +156,20 @@ class Control:
             qubits = [qubits]
         self._qubits = qubits
         self._state = canonical_ctrl_state(ctrl_state, len(self._qubits))
+        self._control_eng = None
 
     def __enter__(self):
         """Context manager enter function."""
         if len(self._qubits) > 0:
-            engine = ControlEngine(self._qubits, self._state)
-            insert_engine(self.engine, engine)
+            self._control_eng = ControlEngine(self._qubits, self._state)
+            insert_engine(self.engine, self._control_eng)
 
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         # remove control handler from engine list (i.e. skip it)
         if len(self._qubits) > 0:
-            drop_engine_after(self.engine)
+            drop_engines_up_to(self.engine, self._control_eng)
+            self._control_eng = None
 
 
 def get_control_count(cmd):
diff --git a/projectq/meta/_dagger.py b/projectq/meta/_dagger.py
index f2a7dc2..8b0c327 100755
--- a/projectq/meta/_dagger.py
+++ b/projectq/meta/_dagger.py
@@ -25,7 +25,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engines_up_to, insert_engine, invalidate_qubits
 
 
 class DaggerEngine(BasicEngine):
@@ -41,6 +41,7 @@ class DaggerEngine(BasicEngine):
     def run(self):
         """Run the stored circuit in reverse and check that local qubits have been deallocated."""
         if self._deallocated_qubit_ids != self._allocated_qubit_ids:
+            self.discard()
             raise QubitManagementError(
                 "\n Error. Qubits have been allocated in 'with "
                 + "Dagger(eng)' context,\n which have not explicitly "
@@ -55,6 +56,11 @@ class DaggerEngine(BasicEngine):
         for cmd in reversed(self._commands):
             self.send([cmd.get_inverse()])
 
+    def discard(self):
+        """Forget the stored circuit and invalidate the qubits which have been allocated in it."""
+        self._commands = []
+        invalidate_qubits(self, self._allocated_qubit_ids)
+
     def receive(self, command_list):
         """
         Receive a list of commands and store them for later inversion.
@@ -132,10 +138,13 @@ class Dagger:
         # If an error happens in this context, qubits might not have been
         # deallocated because that code section was not yet executed,
         # so don't check and raise an additional error.
-        if exc_type is not None:
-            return
-        # run dagger engine
-        self._dagger_eng.run()
-        self._dagger_eng = None
-        # remove dagger handler from engine list (i.e. skip it)
-        drop_engine_after(self.engine)
+        dagger_eng, self._dagger_eng = self._dagger_eng, None
+        try:
+            # run dagger engine
+            if exc_type is None:
+                dagger_eng.run()
+            else:
+                dagger_eng.discard()
+        finally:
+            # remove dagger handler from engine list (i.e. skip it)
+            drop_engines_up_to(self.engine, dagger_eng)
diff --git a/projectq/meta/_loop.py b/projectq/meta/_loop.py
index 5fd9415..5eff150 100755
--- a/projectq/meta/_loop.py
+++ b/projectq/meta/_loop.py
@@ -28,7 +28,7 @@ from projectq.cengines import BasicEngine
 from projectq.ops import Allocate, Deallocate
 
 from ._exceptions import QubitManagementError
-from ._util import drop_engine_after, insert_engine
+from ._util import drop_engines_up_to, insert_engine, invalidate_qubits
 
 
 class LoopTag:  # pylint: disable=too-few-public-methods
@@ -98,6 +98,7 @@ class LoopEngine(BasicEngine):
             # Unroll the loop
             # Check that local qubits have been deallocated:
             if self._deallocated_qubit_ids != self._allocated_qubit_ids:
+                self.discard()
                 raise QubitManagementError(error_message)
 
             if len(self._allocated_qubit_ids) == 0:
@@ -125,6 +126,12 @@ class LoopEngine(BasicEngine):
             if self._deallocated_qubit_ids != self._allocated_qubit_ids:
                 raise QubitManagementError(error_message)
 
+    def discard(self):
+        """Forget the stored commands and invalidate the qubits which have been allocated in them."""
+        if not self._next_engines_support_loop_tag:
+            self._cmd_list = []
+            invalidate_qubits(self, self._allocated_qubit_ids)
+
     def receive(self, command_list):  # pylint: disable=too-many-branches
         """
         Receive (and potentially temporarily store) all commands.
@@ -249,7 +256,15 @@ class Loop:
     def __exit__(self, exc_type, exc_value, exc_traceback):
         """Context manager exit function."""
         if self.num != 1:
-            # remove loop handler from engine list (i.e. skip it)
-            self._loop_eng.run()
-            self._loop_eng = None
-            drop_engine_after(self.engine)
+            loop_eng, self._loop_eng = self._loop_eng, None
+            try:
+                # If an error happens in this context, qubits might not have been
+                # deallocated because that code section was not yet executed,
+                # so don't check and raise an additional error.
+                if exc_type is None:
+                    loop_eng.run()
+                else:
+                    loop_eng.discard()
+            finally:
+                # remove loop handler from engine list (i.e. skip it)
+                drop_engines_up_to(self.engine, loop_eng)
diff --git a/projectq/meta/_util.py b/projectq/meta/_util.py
index 79f4dc4..af036a6 100755
--- a/projectq/meta/_util.py
+++ b/projectq/meta/_util.py
@@ -53,3 +53,30 @@ def drop_engine_after(prev_engine):
     dropped_engine.next_engine = None
     dropped_engine.main_engine = None
     return dropped_engine
+
+
+def drop_engines_up_to(prev_engine, engine):
+    """
+    Remove an engine and all engines which have been inserted in front of it.
+
+    Blocks which are left by an exception use it in order to leave no engine behind.
+
+    Args:
+        prev_engine (projectq.cengines.BasicEngine): The engine just before the first engine to drop.
+        engine (projectq.cengines.BasicEngine): The last engine to drop.
+    """
+    while drop_engine_after(prev_engine) is not engine:
+        pass
+
+
+def invalidate_qubits(engine, qubit_ids):
+    """
+    Invalidate qubits whose allocation has never been sent on, so that no deallocation is sent for them either.
+
+    Args:
+        engine (projectq.cengines.BasicEngine): Engine which discards the allocation commands.
+        qubit_ids (set): Ids of the qubits.
+    """
+    for qubit in list(engine.main_engine.active_qubits):
+        if qubit.id in qubit_ids:
+            qubit.id = -1
-- 
2.43.0


From 9809237c5fb4b8fced4afb960f351757634be46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 46/93] fix: circuit drawers report measurement results for the
 logical qubit behind a mapper

---
 projectq/backends/_circuits/_drawer.py            | 8 +++++++-
 projectq/backends/_circuits/_drawer_matplotlib.py | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index 071ad2c..cd9087d 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -16,8 +16,9 @@
 
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._to_latex import to_latex
 
@@ -232,6 +233,11 @@ class CircuitDrawer(BasicEngine):
                     else:
                         meas = self._default_measure
                     meas = int(meas)
+                    # Check if there was a mapper and redirect result
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                            break
                     self.main_engine.set_measurement_result(qubit, meas)
 
         all_lines = [qb.id for qr in cmd.all_qubits for qb in qr]
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 7c6b585..92d5c8a 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -18,8 +18,9 @@ import itertools
 import re
 
 from projectq.cengines import BasicEngine, LastEngineException
-from projectq.meta import get_control_count
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Deallocate, FlushGate, Measure
+from projectq.types import WeakQubitRef
 
 from ._plot import to_draw
 
@@ -122,6 +123,11 @@ class CircuitDrawerMatplotlib(BasicEngine):
                             measurement = input(prompt)
                     else:
                         measurement = self._default_measure
+                    # Check if there was a mapper and redirect result
+                    for tag in cmd.tags:
+                        if isinstance(tag, LogicalQubitIDTag):
+                            qubit = WeakQubitRef(qubit.engine, tag.logical_qubit_id)
+                            break
                     self.main_engine.set_measurement_result(qubit, int(measurement))
 
         targets = [qubit.id for qureg in cmd.qubits for qubit in qureg]
-- 
2.43.0


From a7299989c5acae81ebbc53ebf178cfbde3c3cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:42 +0000
Subject: [PATCH 47/93] fix: matplotlib drawer accepts any gate name and keeps
 what follows its parameters

---
 projectq/backends/_circuits/_drawer_matplotlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 92d5c8a..476ca22 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -28,10 +28,10 @@ from ._plot import to_draw
 
 
 def _format_gate_str(cmd):
-    param_str = ''
     gate_name = str(cmd.gate)
-    if '(' in gate_name:
-        (gate_name, param_str) = re.search(r'(.+)\((.*)\)', gate_name).groups()
+    match = re.search(r'(.+)\((.*)\)(.*)', gate_name, re.DOTALL)
+    if match is not None:
+        (gate_name, param_str, suffix) = match.groups()
         params = re.findall(r'([^,]+)', param_str)
         params_str_list = []
         for param in params:
@@ -43,7 +43,7 @@ def _format_gate_str(cmd):
                 else:
                     params_str_list.append(f"{param[:5]}...")
 
-        gate_name += f"({','.join(params_str_list)})"
+        gate_name += f"({','.join(params_str_list)}){suffix}"
     return gate_name
 
 
-- 
2.43.0


From 8ff9779fe328bd53131f707882db8033c2beafe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:07 +0000
Subject: [PATCH 48/93] fix: time evolution under the zero hamiltonian is the
 identity

---
 projectq/ops/_time_evolution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 8d56256..14dd3ef 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -121,6 +121,8 @@ class TimeEvolution(BasicGate):
                     tmp = self.hamiltonian.terms[term] / float(other.hamiltonian.terms[term])
                     if not abs(factor - tmp) <= (rel_tol * max(abs(factor), abs(tmp))):
                         raise NotMergeable("Cannot merge these two gates.")
+            if factor is None:
+                raise NotMergeable("Cannot merge these two gates.")
             # Terms are proportional to each other
             new_time = self.time + other.time / factor
             return TimeEvolution(time=new_time, hamiltonian=self.hamiltonian)
@@ -168,6 +170,9 @@ class TimeEvolution(BasicGate):
         qubits = self.make_tuple_of_qureg(qubits)
         if len(qubits) != 1:
             raise TypeError("Only one qubit or qureg allowed.")
+        # The zero hamiltonian does not change the state
+        if not self.hamiltonian.terms:
+            return
         # Check that if hamiltonian has only an identity term,
         # apply a global phase:
         if len(self.hamiltonian.terms) == 1 and () in self.hamiltonian.terms:
-- 
2.43.0


From 7775469ed6ae4310f3159e942e8b99ae331284ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 49/93] fix: account for the evolution time when deciding
 whether terms commute

---
 projectq/setups/decompositions/time_evolution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/time_evolution.py b/projectq/setups/decompositions/time_evolution.py
index 2b78e92..16c55ae 100644
--- a/projectq/setups/decompositions/time_evolution.py
+++ b/projectq/setups/decompositions/time_evolution.py
@@ -31,10 +31,12 @@ def _recognize_time_evolution_commuting_terms(cmd):
     if len(hamiltonian.terms) == 1:
         return False
     id_op = QubitOperator((), 0.0)
+    # The error of treating terms as commuting grows with the time as well
+    time = cmd.gate.time
     for term in hamiltonian.terms:
-        test_op = QubitOperator(term, hamiltonian.terms[term])
+        test_op = QubitOperator(term, time * hamiltonian.terms[term])
         for other in hamiltonian.terms:
-            other_op = QubitOperator(other, hamiltonian.terms[other])
+            other_op = QubitOperator(other, time * hamiltonian.terms[other])
             commutator = test_op * other_op - other_op * test_op
             if not commutator.isclose(id_op, rel_tol=1e-9, abs_tol=1e-9):
                 return False
-- 
2.43.0


From 031c4cc98c97b1e535cc2c8f087825d60a549beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:27 +0000
Subject: [PATCH 50/93] fix: StatePreparation: amplitudes whose squares
 underflow made the decomposition fail or emit NaN angles

---
 projectq/setups/decompositions/stateprep2cnot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index 80e399a..ddf495c 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -77,8 +77,9 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
                     if a0 == 0 and a1 == 0:
                         angles.append(0)
                     else:
-                        angles.append(-2.0 * math.acos(a0 / math.sqrt(a0**2 + a1**2)))
-                    abs_of_next_blocks.append(math.sqrt(a0**2 + a1**2))
+                        # NB: atan2 and hypot neither underflow nor lose precision for small amplitudes
+                        angles.append(-2.0 * math.atan2(a1, a0))
+                    abs_of_next_blocks.append(math.hypot(a0, a1))
                 UniformlyControlledRy(angles) | (
                     qureg[(qubit_idx + 1) :],  # noqa: E203
                     qubit,
-- 
2.43.0


From 42af777831b3f1dca25a1e396f34eb631f4a3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 51/93] fix: StatePreparation: vectors containing NaN passed
 the normalization test

---
 projectq/setups/decompositions/stateprep2cnot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/stateprep2cnot.py b/projectq/setups/decompositions/stateprep2cnot.py
index ddf495c..fa47ecd 100644
--- a/projectq/setups/decompositions/stateprep2cnot.py
+++ b/projectq/setups/decompositions/stateprep2cnot.py
@@ -40,7 +40,7 @@ def _decompose_state_preparation(cmd):  # pylint: disable=too-many-locals
     norm = 0.0
     for amplitude in final_state:
         norm += abs(amplitude) ** 2
-    if norm < 1 - 1e-10 or norm > 1 + 1e-10:
+    if not 1 - 1e-10 <= norm <= 1 + 1e-10:
         raise ValueError("final_state is not normalized.")
     with Control(eng, cmd.control_qubits):
         # As in the paper reference, we implement the inverse:
-- 
2.43.0


From f755b3429629069a82e0fcac481899128480df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 52/93] fix: ClassicalSimulator ignored the control state:
 negative controls acted like positive ones

---
 projectq/backends/_sim/_classical_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index f873d10..7b0c90d 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -227,7 +227,8 @@ class ClassicalSimulator(BasicEngine):
             return
 
         controls_mask = self._mask(cmd.control_qubits)
-        meets_controls = self._state & controls_mask == controls_mask
+        wanted = self._mask(qb for qb, value in zip(cmd.control_qubits, cmd.control_state) if value == '1')
+        meets_controls = self._state & controls_mask == wanted
 
         if isinstance(cmd.gate, XGate):
             if not (len(cmd.qubits) == 1 and len(cmd.qubits[0]) == 1):
-- 
2.43.0


From 045341ba672564820dcf1784d483635c376e20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 53/93] fix: UnitarySimulator: a rejected measurement ended the
 current unitary as if it had taken place

---
 projectq/backends/_unitary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 6d3952a..90e9f34 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -224,8 +224,6 @@ class UnitarySimulator(BasicEngine):
             self._is_valid = False
 
         elif isinstance(cmd.gate, MeasureGate):
-            self._is_valid = False
-
             if not self._is_flushed:
                 raise RuntimeError(
                     'Please make sure all previous gates are flushed before measurement so the state gets updated'
@@ -234,6 +232,7 @@ class UnitarySimulator(BasicEngine):
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
 
+            self._is_valid = False
             all_qubits = [qb for qr in cmd.qubits for qb in qr]
             measurements = self.measure_qubits([qb.id for qb in all_qubits])
 
-- 
2.43.0


From 5adcb5ea43eaaa2c65e91e53b922cf25bd15a2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 54/93] fix: a flush without new commands does not submit the
 last IBM or AQT job again

---
 projectq/backends/_aqt/_aqt.py | 4 ++--
 projectq/backends/_ibm/_ibm.py | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 9d5e5e2..840349e 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -232,8 +232,8 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         # finally: measurements
         # NOTE AQT DOESN'T SEEM TO HAVE MEASUREMENT INSTRUCTIONS (no
         # intermediate measurements are allowed, so implicit at the end)
-        # return if no operations.
-        if not self._circuit:
+        # return if no operations (or if the circuit has already been run).
+        if self._clear or not self._circuit:
             return
 
         n_qubit = max(self._allocated_qubits) + 1
diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 2a11aa5..0319e94 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -263,6 +263,9 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         Send the circuit via a non documented IBM API (using JSON written
         circuits) using the provided user data / ask for the user token.
         """
+        # nothing to do if there is no new circuit since the last run
+        if self._clear:
+            return
         # finally: add measurements (no intermediate measurements are allowed)
         for measured_id in self._measured_ids:
             qb_loc = self.main_engine.mapper.current_mapping[measured_id]
-- 
2.43.0


From 0a6549e73067f461e883aa2ea665f1b3e4ecb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 55/93] fix: IBM probabilities are relative to the number of
 shots of the job that was run

---
 projectq/backends/_ibm/_ibm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ibm/_ibm.py b/projectq/backends/_ibm/_ibm.py
index 0319e94..15aa7e4 100755
--- a/projectq/backends/_ibm/_ibm.py
+++ b/projectq/backends/_ibm/_ibm.py
@@ -302,12 +302,14 @@ class IBMBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     verbose=self._verbose,
                 )
             counts = res['data']['counts']
+            # number of shots of the job (a retrieved job might have been run with another value than num_runs)
+            num_shots = sum(counts.values())
             # Determine random outcome
             random_outcome = random.random()
             p_sum = 0.0
             measured = ""
             for state in counts:
-                probability = counts[state] * 1.0 / self._num_runs
+                probability = counts[state] * 1.0 / num_shots
                 state = f"{int(state, 0):b}"
                 state = state.zfill(max_qubit_id)
                 # states in ibmq are right-ordered, so need to reverse state string
-- 
2.43.0


From e3f5025fd9d803113add88a2dd62a167b0191416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 56/93] fix: the default device of the AQT backend is the AQT
 simulator

---
 projectq/backends/_aqt/_aqt_http_client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectq/backends/_aqt/_aqt_http_client.py b/projectq/backends/_aqt/_aqt_http_client.py
index b2c8d90..040659d 100644
--- a/projectq/backends/_aqt/_aqt_http_client.py
+++ b/projectq/backends/_aqt/_aqt_http_client.py
@@ -30,6 +30,9 @@ from .._exceptions import DeviceOfflineError, DeviceTooSmall, RequestTimeoutErro
 
 _API_URL = 'https://gateway.aqt.eu/marmot/'
 
+# Name used by the AQTBackend for the simulator (its default device)
+_DEVICE_ALIASES = {'simulator': 'aqt_simulator'}
+
 
 class AQT(Session):
     """Class managing the session to AQT's APIs."""
@@ -189,6 +192,7 @@ def retrieve(device, token, jobid, num_retries=3000, interval=1, verbose=False):
     Returns:
         (list) samples form the AQT server
     """
+    device = _DEVICE_ALIASES.get(device, device)
     aqt_session = AQT()
     aqt_session.authenticate(token)
     aqt_session.update_devices_list(verbose)
@@ -218,6 +222,7 @@ def send(
         (list) samples form the AQT server
 
     """
+    device = _DEVICE_ALIASES.get(device, device)
     try:
         aqt_session = AQT()
 
-- 
2.43.0


From 26d11929a702f0e4b3ecdae4ec8c54d9cfb6e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 57/93] fix: AQT angles are submitted with full precision

---
 projectq/backends/_aqt/_aqt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 840349e..8914666 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -155,7 +155,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
             instruction.append(u_name[str(gate)[0 : int(len(cmd.qubits) + 1)]])  # noqa: E203
-            instruction.append(round(angle, 2))
+            instruction.append(round(angle, 10))
             instruction.append(qubits)
             self._circuit.append(instruction)
             return
-- 
2.43.0


From 7fc3a8897150aaf1f1bc4e007abb5ad67cbd8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 58/93] fix: the number of qubits of an AWS Braket job covers
 all positions that are used

---
 projectq/backends/_awsbraket/_awsbraket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index 78fe5bd..a645678 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -288,6 +288,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         elif num_controls == 1:
             json_cmd['control'] = cmd.control_qubits[0].id
 
+        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
         qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
         if len(qubits) > 1:
             json_cmd['targets'] = qubits
@@ -403,7 +404,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             if not self._circuit:
                 return
 
-            n_qubit = len(self._allocated_qubits)
+            n_qubit = max(self._allocated_qubits) + 1
             info = {}
             info['circuit'] = self._circuithead + self._circuit.rstrip(', ') + self._circuittail
             info['nq'] = n_qubit
-- 
2.43.0


From 8b48c0276937b6da492590fc13a952ed196fcf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:14 +0000
Subject: [PATCH 59/93] fix: the IonQ backend reports an outcome according to
 its probability, not always the last one

---
 projectq/backends/_ionq/_ionq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index 4c59369..eb396f2 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -332,7 +332,8 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             state = _rearrange_result(int(state_int), num_measured)
             probability = probable_outcomes[state_int]
             p_sum += probability
-            if p_sum >= random_outcome and measured == "" or (idx == len(states) - 1):
+            star = ""
+            if measured == "" and (p_sum >= random_outcome or idx == len(states) - 1):
                 measured = state
                 star = "*"
             self._probabilities[state] = probability
-- 
2.43.0


From fd220c3603651b77531beb7ff5ea0d76793fe907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 60/93] fix: the number of qubits of an IonQ job covers all
 positions that are used

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index eb396f2..b7525d1 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -289,9 +289,12 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         if self._retrieve_execution is None:
             qubit_mapping = self.main_engine.mapper.current_mapping
             measured_ids = self._measured_ids[:]
+            positions = set(qubit_mapping.values())
+            for gate_dict in self._circuit:
+                positions.update(gate_dict['targets'], gate_dict.get('controls', []))
             info = {
                 'circuit': self._circuit,
-                'nq': len(qubit_mapping.keys()),
+                'nq': max(positions) + 1,
                 'shots': self._num_runs,
                 'meas_mapped': [qubit_mapping[qubit_id] for qubit_id in measured_ids],
                 'meas_qubit_ids': measured_ids,
-- 
2.43.0


From b14c10e54a2656460ba4e886c399be5eab10e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:22 +0000
Subject: [PATCH 61/93] fix: IonQ detects gates on measured qubits by position,
 whatever the qubit mapping is

---
 projectq/backends/_ionq/_ionq.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_ionq/_ionq.py b/projectq/backends/_ionq/_ionq.py
index b7525d1..40fa691 100644
--- a/projectq/backends/_ionq/_ionq.py
+++ b/projectq/backends/_ionq/_ionq.py
@@ -109,6 +109,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._interval = interval
         self._circuit = []
         self._measured_ids = []
+        self._measured_positions = set()
         self._probabilities = {}
         self._retrieve_execution = retrieve_execution
         self._clear = True
@@ -169,6 +170,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_positions = set()
             self._probabilities = {}
             self._clear = False
 
@@ -187,6 +189,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                     break
             # Add the qubit id
             self._measured_ids.append(logical_id)
+            self._measured_positions.add(cmd.qubits[0][0].id)
             return
 
         # Process the Command's gate type:
@@ -209,7 +212,7 @@ class IonQBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             gate_qubits = set(targets) | set(controls)
 
             # If any of them have already been measured...
-            already_measured = gate_qubits & set(self._measured_ids)
+            already_measured = gate_qubits & self._measured_positions
 
             # Boom!
             if len(already_measured) > 0:
-- 
2.43.0


From 4e9b47f907004da74529c0682db0cb7b735d15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 62/93] fix: the AQT and AWS Braket backends refuse gates on
 qubits that have been measured

---
 projectq/backends/_aqt/_aqt.py             | 7 ++++++-
 projectq/backends/_awsbraket/_awsbraket.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_aqt/_aqt.py b/projectq/backends/_aqt/_aqt.py
index 8914666..471233f 100644
--- a/projectq/backends/_aqt/_aqt.py
+++ b/projectq/backends/_aqt/_aqt.py
@@ -22,7 +22,7 @@ from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, Barrier, Deallocate, FlushGate, Measure, Rx, Rxx, Ry
 from projectq.types import WeakQubitRef
 
-from .._exceptions import InvalidCommandError
+from .._exceptions import InvalidCommandError, MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._aqt_http_client import retrieve, send
 
@@ -90,6 +90,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
         self._mapper = []
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._measured_positions = set()
         self._retrieve_execution = retrieve_execution
 
     def is_available(self, cmd):
@@ -127,6 +128,7 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
             self._clear = False
             self._circuit = []
             self._allocated_qubits = set()
+            self._measured_positions = set()
 
         gate = cmd.gate
         if gate == Allocate:
@@ -145,12 +147,15 @@ class AQTBackend(BasicEngine):  # pylint: disable=too-many-instance-attributes
                 logical_id = qb_id
                 self._mapper.append(qb_id)
             self._measured_ids += [logical_id]
+            self._measured_positions.add(qb_id)
             return
         if isinstance(gate, (Rx, Ry, Rxx)):
             qubits = []
             qubits.append(cmd.qubits[0][0].id)
             if len(cmd.qubits) == 2:
                 qubits.append(cmd.qubits[1][0].id)
+            if self._measured_positions.intersection(qubits):
+                raise MidCircuitMeasurementError(f"Mid-circuit measurement is not supported: {str(cmd)}")
             angle = gate.angle / math.pi
             instruction = []
             u_name = {'Rx': "X", 'Ry': "Y", 'Rxx': "MS"}
diff --git a/projectq/backends/_awsbraket/_awsbraket.py b/projectq/backends/_awsbraket/_awsbraket.py
index a645678..f6926e1 100755
--- a/projectq/backends/_awsbraket/_awsbraket.py
+++ b/projectq/backends/_awsbraket/_awsbraket.py
@@ -43,6 +43,7 @@ from projectq.ops import (
 )
 from projectq.types import WeakQubitRef
 
+from .._exceptions import MidCircuitMeasurementError
 from ._awsbraket_boto3_client import retrieve, send
 
 # TODO: Add MatrixGate to cover the unitary operation in the SV1 simulator
@@ -104,6 +105,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         self._circuit = ""
         self._measured_ids = []
         self._allocated_qubits = set()
+        self._measured_positions = set()
         self._retrieve_execution = retrieve_execution
 
         # Dictionary to translate the gates from ProjectQ to AWSBraket
@@ -266,6 +268,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
             self._clear = False
             self._circuit = ""
             self._allocated_qubits = set()
+            self._measured_positions = set()
 
         if gate == Allocate:
             self._allocated_qubits.add(cmd.qubits[0][0].id)
@@ -278,6 +281,7 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
                     logical_id = tag.logical_qubit_id
                     break
             self._measured_ids.append(logical_id if logical_id is not None else qb_id)
+            self._measured_positions.add(qb_id)
             return
 
         # All other supported gate types
@@ -288,7 +292,10 @@ class AWSBraketBackend(BasicEngine):  # pylint: disable=too-many-instance-attrib
         elif num_controls == 1:
             json_cmd['control'] = cmd.control_qubits[0].id
 
-        self._allocated_qubits.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+        positions = {qb.id for qureg in cmd.all_qubits for qb in qureg}
+        if self._measured_positions & positions:
+            raise MidCircuitMeasurementError(f"Mid-circuit measurement is not supported: {str(cmd)}")
+        self._allocated_qubits.update(positions)
         qubits = [qb.id for qureg in cmd.qubits for qb in qureg]
         if len(qubits) > 1:
             json_cmd['targets'] = qubits
-- 
2.43.0


From be525c6a497bdbaf67f9c5b44f6ff5bcac5d2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:29 +0000
Subject: [PATCH 63/93] fix: the Azure backend forgets the measured qubits of
 the previous circuit

---
 projectq/backends/_azure/_azure_quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 682caa6..d493618 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -140,6 +140,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             cmd (Command): Command to store
         """
         if self._clear:
+            self._measured_ids = []
             self._probabilities = {}
             self._clear = False
             self._circuit = None
-- 
2.43.0


From 13a647d536d214c9b6bf51b5d4c5d1d77aa9411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 64/93] fix: the Azure backend assigns the returned bits to the
 measured qubits

---
 projectq/backends/_azure/_azure_quantum.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index d493618..33a7b0b 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -352,16 +352,19 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 _rearrange_result(int(k), len(self._measured_ids)): v for k, v in res["histogram"].items()
             }
         elif self._provider_id == QUANTINUUM_PROVIDER_ID:
-            histogram = Counter(res["c"])
-            self._probabilities = {k: v / self._num_runs for k, v in histogram.items()}
+            # The bit-strings contain one bit per position: only keep the measured ones (in the order of measurement)
+            mapping = self.main_engine.mapper.current_mapping
+            histogram = Counter(''.join(c[mapping[qid]] for qid in self._measured_ids) for c in res["c"])
+            num_shots = sum(histogram.values())
+            self._probabilities = {k: v / num_shots for k, v in histogram.items()}
         else:  # pragma: no cover
             raise RuntimeError("Invalid Azure Quantum target.")
 
         # Set a single measurement result
         bitstring = np.random.choice(list(self._probabilities.keys()), p=list(self._probabilities.values()))
-        for qid in self._measured_ids:
+        for idx, qid in enumerate(self._measured_ids):
             qubit_ref = WeakQubitRef(self.main_engine, qid)
-            self.main_engine.set_measurement_result(qubit_ref, bitstring[qid])
+            self.main_engine.set_measurement_result(qubit_ref, int(bitstring[idx]))
 
     def receive(self, command_list):
         """Receive a command list from the ProjectQ engine pipeline.
-- 
2.43.0


From 31df6e9fb427df29cdcb33b70e0ece7a107b9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 65/93] fix: the number of qubits of an Azure job covers all
 positions that are used

---
 projectq/backends/_azure/_azure_quantum.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index 33a7b0b..bf55880 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -116,6 +116,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._positions = set()
         self._probabilities = {}
         self._clear = True
 
@@ -141,6 +142,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         """
         if self._clear:
             self._measured_ids = []
+            self._positions = set()
             self._probabilities = {}
             self._clear = False
             self._circuit = None
@@ -165,6 +167,8 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
             self._measured_ids.append(logical_id)
             return
 
+        self._positions.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+
         if self._provider_id == IONQ_PROVIDER_ID:
             if not self._circuit:
                 self._circuit = []
@@ -281,9 +285,14 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         return probability_dict
 
     @property
-    def _input_data(self):
+    def _num_qubits(self):
+        # NOTE: positions are not necessarily contiguous
         qubit_mapping = self.main_engine.mapper.current_mapping
-        qubits = len(qubit_mapping.keys())
+        return max(self._positions.union(qubit_mapping.values()), default=-1) + 1
+
+    @property
+    def _input_data(self):
+        qubits = self._num_qubits
 
         if self._provider_id == IONQ_PROVIDER_ID:
             return {"qubits": qubits, "circuit": self._circuit}
@@ -305,7 +314,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
     @property
     def _metadata(self):
         qubit_mapping = self.main_engine.mapper.current_mapping
-        num_qubits = len(qubit_mapping.keys())
+        num_qubits = self._num_qubits
         meas_map = [qubit_mapping[qubit_id] for qubit_id in self._measured_ids]
 
         return {"num_qubits": num_qubits, "meas_map": meas_map}
-- 
2.43.0


From 9812e85a87fab480ac13d02eb7f3c6fe67d2b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 66/93] fix: the Azure backend refuses gates on qubits that
 have been measured

---
 projectq/backends/_azure/_azure_quantum.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/projectq/backends/_azure/_azure_quantum.py b/projectq/backends/_azure/_azure_quantum.py
index bf55880..760e606 100644
--- a/projectq/backends/_azure/_azure_quantum.py
+++ b/projectq/backends/_azure/_azure_quantum.py
@@ -20,9 +20,16 @@ import numpy as np
 
 from projectq.cengines import BasicEngine
 from projectq.meta import LogicalQubitIDTag
-from projectq.ops import AllocateQubitGate, DeallocateQubitGate, FlushGate, MeasureGate
+from projectq.ops import (
+    AllocateQubitGate,
+    BarrierGate,
+    DeallocateQubitGate,
+    FlushGate,
+    MeasureGate,
+)
 from projectq.types import WeakQubitRef
 
+from .._exceptions import MidCircuitMeasurementError
 from .._utils import _rearrange_result
 from ._azure_quantum_client import retrieve, send
 from ._exceptions import AzureQuantumTargetNotFoundError
@@ -116,6 +123,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         self._retrieve_execution = retrieve_execution
         self._circuit = None
         self._measured_ids = []
+        self._measured_positions = set()
         self._positions = set()
         self._probabilities = {}
         self._clear = True
@@ -142,6 +150,7 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
         """
         if self._clear:
             self._measured_ids = []
+            self._measured_positions = set()
             self._positions = set()
             self._probabilities = {}
             self._clear = False
@@ -165,9 +174,13 @@ class AzureQuantumBackend(BasicEngine):  # pylint: disable=too-many-instance-att
                 raise RuntimeError('No LogicalQubitIDTag found in command!')
 
             self._measured_ids.append(logical_id)
+            self._measured_positions.add(cmd.qubits[0][0].id)
             return
 
-        self._positions.update(qb.id for qureg in cmd.all_qubits for qb in qureg)
+        positions = {qb.id for qureg in cmd.all_qubits for qb in qureg}
+        if self._measured_positions & positions and not isinstance(gate, BarrierGate):
+            raise MidCircuitMeasurementError(f'Mid-circuit measurement is not supported: {str(cmd)}')
+        self._positions.update(positions)
 
         if self._provider_id == IONQ_PROVIDER_ID:
             if not self._circuit:
-- 
2.43.0


From 7538e04df9a6438bc89330a1f80ab1a14f4de491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:03 +0000
Subject: [PATCH 67/93] fix: histogram accepts registers for backends with
 get_probabilities

---
 projectq/libs/hist/_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/libs/hist/_histogram.py b/projectq/libs/hist/_histogram.py
index d2bf255..11c1460 100644
--- a/projectq/libs/hist/_histogram.py
+++ b/projectq/libs/hist/_histogram.py
@@ -51,7 +51,7 @@ def histogram(backend, qureg):
         print("Consider calling histogram() with a sublist of the qubits.")
 
     if hasattr(backend, 'get_probabilities'):
-        probabilities = backend.get_probabilities(qureg)
+        probabilities = backend.get_probabilities(qubit_list)
     elif isinstance(backend, Simulator):
         outcome = [0] * len(qubit_list)
         n_outcomes = 1 << len(qubit_list)
-- 
2.43.0


From 6e4a1de916714c2d514e9b0796f3a76a81103cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 68/93] fix: the generated LaTeX contained unexpanded
 placeholders and doubled braces

---
 projectq/backends/_circuits/_to_latex.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index c2f870b..a7d0641 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -181,18 +181,18 @@ def _header(settings):
     gate_style += "]\n"
 
     gate_style += (
-        "\\tikzstyle{{operator}}=[basic,minimum size=1.5em]\n"
+        "\\tikzstyle{operator}=[basic,minimum size=1.5em]\n"
         f"\\tikzstyle{{phase}}=[fill=black,shape=circle,minimum size={settings['control']['size']}cm,"
         "inner sep=0pt,outer sep=0pt,draw=black"
     )
     if settings['control']['shadow']:
         gate_style += ",basicshadow"
     gate_style += (
-        "]\n\\tikzstyle{{none}}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
-        "\\tikzstyle{{measure}}=[operator,inner sep=0pt,"
+        "]\n\\tikzstyle{none}=[inner sep=0pt,outer sep=-.5pt,minimum height=0.5cm+1pt]\n"
+        "\\tikzstyle{measure}=[operator,inner sep=0pt,"
         f"minimum height={settings['gates']['MeasureGate']['height']}cm,"
         f"minimum width={settings['gates']['MeasureGate']['width']}cm]\n"
-        "\\tikzstyle{{xstyle}}=[circle,basic,minimum height="
+        "\\tikzstyle{xstyle}=[circle,basic,minimum height="
     )
     x_gate_radius = min(settings['gates']['XGate']['height'], settings['gates']['XGate']['width'])
     gate_style += f"{x_gate_radius}cm,minimum width={x_gate_radius}cm,inner sep=-1pt,{settings['lines']['style']}]\n"
@@ -449,7 +449,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         pos = self.pos[lines[0]]
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
-        dagger = '^{{\\dagger}}' if daggered else ''
+        dagger = '^{\\dagger}' if daggered else ''
         gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
@@ -756,7 +756,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         for line in lines:
             node1 = node_str.format(self._op(line), pos, line)
             node2 = (
-                "\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
+                f"\n\\node[none,minimum height={gate_height}cm,outer sep=0] ({self._op(line, offset=1)}) "
                 f"at ({pos + gate_width / 2.0},-{line}) {{}};"
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
-- 
2.43.0


From cf8d5443af2763ef2ab246065baa4fc33b6a8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:18 +0000
Subject: [PATCH 69/93] fix: the midpoint of a SqrtSwap gate was drawn under
 the name of another node

---
 projectq/backends/_circuits/_to_latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index a7d0641..2d364d5 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -450,7 +450,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         # pylint: disable=consider-using-f-string
         op_mid = f"line{'{}-{}'.format(*lines)}_gate{self.op_count[lines[0]]}"
         dagger = '^{\\dagger}' if daggered else ''
-        gate_str += f"\n\\node[xstyle] ({op}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
+        gate_str += f"\n\\node[xstyle] ({op_mid}) at ({pos},-{midpoint}){{\\scriptsize $\\frac{{1}}{{2}}{dagger}$}};"
 
         # add two vertical lines to connect circled 1/2
         gate_str += f"\n\\draw ({self._op(lines[0])}) edge[edgestyle] ({op_mid});"
-- 
2.43.0


From 686b31df359ac270bed8436fe294f5130e1f68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 70/93] fix: circuit drawings lost the earlier gates of a line
 whose number is used again

---
 projectq/backends/_circuits/_drawer.py            | 2 +-
 projectq/backends/_circuits/_drawer_matplotlib.py | 2 +-
 projectq/backends/_circuits/_to_latex.py          | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index cd9087d..d17d65b 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -213,7 +213,7 @@ class CircuitDrawer(BasicEngine):
             qubit_id = cmd.qubits[0][0].id
             if qubit_id not in self._map:
                 self._map[qubit_id] = qubit_id
-            self._qubit_lines[qubit_id] = []
+            self._qubit_lines.setdefault(qubit_id, [])
 
         if cmd.gate == Deallocate:
             qubit_id = cmd.qubits[0][0].id
diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 476ca22..96789b7 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -105,7 +105,7 @@ class CircuitDrawerMatplotlib(BasicEngine):
             qb_id = cmd.qubits[0][0].id
             if qb_id not in self._map:
                 self._map[qb_id] = qb_id
-            self._qubit_lines[qb_id] = []
+            self._qubit_lines.setdefault(qb_id, [])
             return
 
         if cmd.gate == Deallocate:
diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 2d364d5..227eaee 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -373,7 +373,8 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                     id_str = f"^{{\\textcolor{{red}}{{{cmds[i].id}}}}}"
                 xpos = self.pos[line]
                 try:
-                    if self.settings['gates']['AllocateQubitGate']['allocate_at_zero']:
+                    # a line that is used again continues where it ended
+                    if self.settings['gates']['AllocateQubitGate']['allocate_at_zero'] and not self.op_count[line]:
                         self.pos[line] -= self._gate_pre_offset(gate)
                         xpos = self._gate_pre_offset(gate)
                 except KeyError:
-- 
2.43.0


From fca264349fbdb73089ca1659786441f2d5ba555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:24 +0000
Subject: [PATCH 71/93] fix: LaTeX drawings failed or lost lines for qubit
 numbers and locations that are not 0, 1, 2, ...

---
 projectq/backends/_circuits/_drawer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer.py b/projectq/backends/_circuits/_drawer.py
index d17d65b..10e7a1f 100755
--- a/projectq/backends/_circuits/_drawer.py
+++ b/projectq/backends/_circuits/_drawer.py
@@ -193,7 +193,7 @@ class CircuitDrawer(BasicEngine):
                     " range of qubit ids have to be mapped "
                     "somewhere."
                 )
-        self._map = id_to_loc
+        self._map = dict(id_to_loc)
 
     def _print_cmd(self, cmd):
         """
@@ -270,12 +270,16 @@ class CircuitDrawer(BasicEngine):
         """
         qubit_lines = {}
 
+        # one row per qubit, without gaps, in the order of the locations
+        order = sorted(self._qubit_lines, key=lambda qb_id: (self._map[qb_id], qb_id))
+        rows = {qb_id: row for row, qb_id in enumerate(order)}
+
         for line, qubit_line in self._qubit_lines.items():
-            new_line = self._map[line]
+            new_line = rows[line]
             qubit_lines[new_line] = []
             for cmd in qubit_line:
-                lines = [self._map[qb_id] for qb_id in cmd.lines]
-                ctrl_lines = [self._map[qb_id] for qb_id in cmd.ctrl_lines]
+                lines = [rows[qb_id] for qb_id in cmd.lines]
+                ctrl_lines = [rows[qb_id] for qb_id in cmd.ctrl_lines]
                 gate = cmd.gate
                 new_cmd = CircuitItem(gate, lines, ctrl_lines)
                 if gate == Allocate:
@@ -284,7 +288,7 @@ class CircuitDrawer(BasicEngine):
 
         drawing_order = None
         if ordered:
-            drawing_order = self._drawing_order
+            drawing_order = [rows[qb_id] for qb_id in self._drawing_order]
 
         return to_latex(
             qubit_lines,
-- 
2.43.0


From 51254cd08f82b459f0873637724da70d2017d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 72/93] fix: gates on other lines were drawn in parallel
 although this was switched off

---
 projectq/backends/_circuits/_to_latex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 227eaee..9b079ac 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -314,7 +314,9 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 while not circuit[_line][gate_idx] == cmds[i]:
                     gate_idx += 1
 
-                tikz_code.append(self.to_tikz(_line, circuit, gate_idx))
+                tikz_code.append(
+                    self.to_tikz(_line, circuit, gate_idx, draw_gates_in_parallel=draw_gates_in_parallel)
+                )
 
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
-- 
2.43.0


From b742f50aed5d473dafa298e4165b2382ede50257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 73/93] fix: a gate drawn across a line that did not begin yet
 was connected to an undefined node

---
 projectq/backends/_circuits/_to_latex.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 9b079ac..15db814 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -232,6 +232,7 @@ def _body(circuit, settings, drawing_order=None, draw_gates_in_parallel=True):
         drawing_order = list(range(len(circuit)))
     else:
         to_where = 1
+        conv.ordered = True
 
     for line in drawing_order:
         code.append(
@@ -276,6 +277,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
         self.pos = [0.0] * num_lines
         self.op_count = [0] * num_lines
         self.is_quantum = [settings['lines']['init_quantum']] * num_lines
+        self.ordered = False
 
     def to_tikz(  # pylint: disable=too-many-branches,too-many-locals,too-many-statements
         self, line, circuit, end=None, draw_gates_in_parallel=True
@@ -321,6 +323,11 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 # we are taking care of gate 0 (the current one)
                 circuit[_line] = circuit[_line][1:]
 
+            # lines which the gate is drawn across have to begin first
+            for _line in range(min(lines), max(lines) + 1):
+                if not self.ordered and self.op_count[_line] == 0 and _line not in lines + ctrl_lines:
+                    tikz_code.append(self.to_tikz(_line, circuit, 1, draw_gates_in_parallel=draw_gates_in_parallel))
+
             all_lines = lines + ctrl_lines
             pos = max(self.pos[ll] for ll in range(min(all_lines), max(all_lines) + 1))
             for _line in range(min(all_lines), max(all_lines) + 1):
@@ -764,7 +771,7 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
             )
             node3 = node_str.format(self._op(line, offset=2), pos + gate_width, line)
             tex_str += node1 + node2 + node3
-            if line not in gate_lines:
+            if line not in gate_lines and self.op_count[line] > 0:
                 tex_str += self._line(self.op_count[line] - 1, self.op_count[line], line=line)
 
         tex_str += (
-- 
2.43.0


From 628bf26c9724cc632cf6039739c29fe1027dbf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:14 +0000
Subject: [PATCH 74/93] fix: matplotlib drawings failed or used wrong wires for
 qubit numbers that are not 0, 1, 2, ...

---
 projectq/backends/_circuits/_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index b450309..a32332d 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -105,7 +105,7 @@ def to_draw(qubit_lines, qubit_labels=None, drawing_order=None, **kwargs):
 
     if drawing_order is None:
         n_qubits = len(qubit_lines)
-        drawing_order = {qubit_id: n_qubits - qubit_id - 1 for qubit_id in list(qubit_lines)}
+        drawing_order = {qubit_id: n_qubits - idx - 1 for idx, qubit_id in enumerate(sorted(qubit_lines))}
     else:
         if set(drawing_order) != set(qubit_lines):
             raise RuntimeError("Qubit IDs in drawing_order do not match qubit IDs in qubit_lines!")
-- 
2.43.0


From b5e0b85a0224741036ff363928794415973dfaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 75/93] fix: matplotlib drawings put gates on top of the line
 connecting the qubits of another gate

---
 .../backends/_circuits/_drawer_matplotlib.py  | 46 ++++++++++++++++---
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/projectq/backends/_circuits/_drawer_matplotlib.py b/projectq/backends/_circuits/_drawer_matplotlib.py
index 96789b7..18c971c 100644
--- a/projectq/backends/_circuits/_drawer_matplotlib.py
+++ b/projectq/backends/_circuits/_drawer_matplotlib.py
@@ -176,6 +176,44 @@ class CircuitDrawerMatplotlib(BasicEngine):
             if not self.is_last_engine:
                 self.send([cmd])
 
+    def _layout(self, drawing_order):
+        """
+        Distribute the recorded gates over the columns of the figure.
+
+        A multi-qubit gate takes up its column on all the qubit axes between its topmost and bottommost ones, such that
+        no other gate is drawn on top of the line which connects its qubits.
+
+        Args:
+            drawing_order (dict): position of each qubit in the output graphic (or None to order them by qubit ID)
+
+        Returns:
+            A dictionary with the gates on each qubit axis, all having the same length.
+        """
+        if drawing_order is None or set(drawing_order) != set(self._qubit_lines):
+            drawing_order = {qubit_id: idx for idx, qubit_id in enumerate(sorted(self._qubit_lines))}
+
+        lines = {qubit_id: [] for qubit_id in self._qubit_lines}
+        for column in itertools.zip_longest(*self._qubit_lines.values()):
+            for item in column:
+                if item is None:
+                    continue
+                (_, targets, controls) = item
+                positions = [drawing_order[qubit_id] for qubit_id in targets + controls]
+                span = [
+                    line
+                    for qubit_id, line in lines.items()
+                    if min(positions) <= drawing_order[qubit_id] <= max(positions)
+                ]
+                depth = max(len(line) for line in span)
+                for line in span:
+                    line += [None] * (depth + 1 - len(line))
+                lines[targets[0]][depth] = item
+
+        max_depth = max((len(line) for line in lines.values()), default=0)
+        for line in lines.values():
+            line += [None] * (max_depth - len(line))
+        return lines
+
     def draw(self, qubit_labels=None, drawing_order=None, **kwargs):
         """
         Generate and returns the plot of the quantum circuit stored so far.
@@ -210,14 +248,8 @@ class CircuitDrawerMatplotlib(BasicEngine):
               - wire_height (1): Vertical spacing between two qubit
                 wires (roughly in inches)
         """
-        max_depth = max(len(line) for qubit_id, line in self._qubit_lines.items())
-        for qubit_id, line in self._qubit_lines.items():
-            depth = len(line)
-            if depth < max_depth:
-                self._qubit_lines[qubit_id] += [None] * (max_depth - depth)
-
         return to_draw(
-            self._qubit_lines,
+            self._layout(drawing_order),
             qubit_labels=qubit_labels,
             drawing_order=drawing_order,
             **kwargs,
-- 
2.43.0


From 20486187d215de875730dc29899f0e866772a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:51 +0000
Subject: [PATCH 76/93] fix: truth tables with leading zeros were passed on too
 short for their number of variables

---
 projectq/libs/revkit/_control_function.py | 2 +-
 projectq/libs/revkit/_phase.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectq/libs/revkit/_control_function.py b/projectq/libs/revkit/_control_function.py
index 40a07fe..c127e50 100644
--- a/projectq/libs/revkit/_control_function.py
+++ b/projectq/libs/revkit/_control_function.py
@@ -101,7 +101,7 @@ class ControlFunctionOracle:  # pylint: disable=too-few-public-methods
             raise AttributeError("Function truth table exceeds number of control qubits")
 
         # create truth table from function integer
-        hex_length = max(2 ** (len(qs) - 1) // 4, 1)
+        hex_length = max(2 ** (len(qs) - 1) // 4, 1) + 2  # including the prefix 0x
         revkit.tt(table=f"{self.function:#0{hex_length}x}")
 
         # create reversible circuit from truth table
diff --git a/projectq/libs/revkit/_phase.py b/projectq/libs/revkit/_phase.py
index 8d0eb29..949cbed 100644
--- a/projectq/libs/revkit/_phase.py
+++ b/projectq/libs/revkit/_phase.py
@@ -97,7 +97,7 @@ class PhaseOracle:  # pylint: disable=too-few-public-methods
             raise AttributeError("Function truth table exceeds number of control qubits")
 
         # create truth table from function integer
-        hex_length = max(2 ** (len(qs) - 1) // 4, 1)
+        hex_length = max(2 ** len(qs) // 4, 1) + 2  # including the prefix 0x
         revkit.tt(table=f"{self.function:#0{hex_length}x}")
 
         # create phase circuit from truth table
-- 
2.43.0


From 2f383e2ad235bd6bc665aad750aecf576800c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 77/93] fix: reject gates using a qubit twice or as control and
 target

---
 projectq/ops/_basics.py  | 3 +++
 projectq/ops/_command.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 0b5ab0c..774b588 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -181,6 +181,9 @@ class BasicGate:
         eng = engines[0]
         if not all(e is eng for e in engines):
             raise ValueError('All qubits must belong to the same engine!')
+        qubit_ids = [q.id for reg in qubits for q in reg]
+        if len(set(qubit_ids)) != len(qubit_ids):
+            raise ValueError('A gate cannot be applied to the same qubit more than once!')
         return Command(eng, self, qubits)
 
     def __or__(self, qubits):
diff --git a/projectq/ops/_command.py b/projectq/ops/_command.py
index a8112ec..561b4fc 100755
--- a/projectq/ops/_command.py
+++ b/projectq/ops/_command.py
@@ -289,6 +289,9 @@ class Command:  # pylint: disable=too-many-instance-attributes
 
         if not isinstance(qubits, list):
             raise ValueError('Control qubits must be a list of qubits!')
+        target_ids = {qubit.id for qureg in self.qubits for qubit in qureg}
+        if any(qubit.id in target_ids for qubit in qubits):
+            raise ValueError('A gate cannot be controlled by one of the qubits it is applied to!')
         all_control_qubits = self._control_qubits + [WeakQubitRef(qubit.engine, qubit.id) for qubit in qubits]
         all_control_states = self._control_state + canonical_ctrl_state(state, len(qubits))
 
-- 
2.43.0


From a5151bba3216886ed803904b366e522ef45dce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 78/93] fix: reject control qubits of another engine

---
 projectq/meta/_control.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 75b89c9..119615b 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -154,6 +154,8 @@ class Control:
             raise TypeError('Control qubits must be a list, not a tuple!')
         if isinstance(qubits, BasicQubit):
             qubits = [qubits]
+        if any(qubit.engine is not engine for qubit in qubits):
+            raise ValueError('The control qubits must belong to the engine of the controlled section!')
         self._qubits = qubits
         self._state = canonical_ctrl_state(ctrl_state, len(self._qubits))
         self._control_eng = None
-- 
2.43.0


From 4f2e7bb5ca3d20fe0023ceab184b3edbb798f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 79/93] fix: do not drop the qubits in excess when a gate is
 applied to too many qubits

---
 projectq/cengines/_replacer/_replacer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/projectq/cengines/_replacer/_replacer.py b/projectq/cengines/_replacer/_replacer.py
index 56ad4e6..dc602ea 100755
--- a/projectq/cengines/_replacer/_replacer.py
+++ b/projectq/cengines/_replacer/_replacer.py
@@ -132,7 +132,13 @@ class AutoReplacer(BasicEngine):
 
         Raises:
             Exception if no replacement is available in the loaded setup.
+            ValueError if a gate is applied to more qubits than it has been defined for.
         """
+        # NB: decomposition rules and backends ignore qubits in excess
+        matrix = getattr(cmd.gate, 'matrix', None)
+        if matrix is not None and len(matrix) < 1 << sum(len(qureg) for qureg in cmd.qubits):
+            raise ValueError(f'Too many qubits for the gate: {str(cmd)}')
+
         if self.is_available(cmd):  # pylint: disable=too-many-nested-blocks
             self.send([cmd])
         else:
-- 
2.43.0


From 08b948f76e0aa1ed41517784b6004da864f5f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 80/93] fix: do not ignore registers in excess of those a gate
 acts on

---
 .../backends/_sim/_cppkernels/simulator.hpp   |  9 ++++++
 projectq/libs/math/_default_rules.py          | 30 ++++++++-----------
 .../decompositions/amplitudeamplification.py  |  3 +-
 projectq/setups/decompositions/entangle.py    |  2 +-
 .../setups/decompositions/phaseestimation.py  |  3 +-
 .../decompositions/qft2crandhadamard.py       |  2 +-
 6 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index ae75e0d..2935790 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -292,6 +292,7 @@ public:
     template<class QuReg>
     inline void emulate_math_addConstant(std::int64_t a, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
+      require_one_register(quregs);
       emulate_math([a](std::vector<std::int64_t> &res){for(auto& x: res) x = x + a;}, quregs, ctrl, true);
     }
 
@@ -299,6 +300,7 @@ public:
     template<class QuReg>
     inline void emulate_math_addConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
+      require_one_register(quregs);
       a = reduce_mod(a, N);
       emulate_math([a,N](std::vector<std::int64_t> &res){for(auto& x: res) x = (x + a) % N;}, quregs, ctrl, true);
     }
@@ -307,6 +309,7 @@ public:
     template<class QuReg>
     inline void emulate_math_multiplyByConstantModN(std::int64_t a, std::int64_t N, const QuReg& quregs, const std::vector<unsigned>& ctrl)
     {
+      require_one_register(quregs);
       a = reduce_mod(a, N);
       emulate_math([a,N](std::vector<std::int64_t> &res){for(auto& x: res) x = (x * a) % N;}, quregs, ctrl, true);
     }
@@ -594,6 +597,12 @@ private:
         return ctrlmask;
     }
 
+    template <class QuReg>
+    static void require_one_register(QuReg const& quregs){
+        if (quregs.size() != 1)
+            throw std::invalid_argument("emulate_math(): The gate acts on one quantum register.");
+    }
+
     void require_known(const char *where, std::vector<unsigned> const& ids){
         if (!check_ids(ids))
             throw(std::runtime_error(std::string(where) + ": Unknown qubit id. Please make sure you have called eng.flush()."));
diff --git a/projectq/libs/math/_default_rules.py b/projectq/libs/math/_default_rules.py
index 4cc9bc8..80da702 100755
--- a/projectq/libs/math/_default_rules.py
+++ b/projectq/libs/math/_default_rules.py
@@ -48,7 +48,7 @@ from ._quantummath import (
 def _replace_addconstant(cmd):
     eng = cmd.engine
     const = cmd.gate.a
-    quint = cmd.qubits[0]
+    (quint,) = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         add_constant(eng, const, quint)
@@ -58,7 +58,7 @@ def _replace_addconstmodN(cmd):  # pylint: disable=invalid-name
     eng = cmd.engine
     const = cmd.gate.a
     N = cmd.gate.N
-    quint = cmd.qubits[0]
+    (quint,) = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         add_constant_modN(eng, const, N, quint)
@@ -68,13 +68,15 @@ def _replace_multiplybyconstantmodN(cmd):  # pylint: disable=invalid-name
     eng = cmd.engine
     const = cmd.gate.a
     N = cmd.gate.N
-    quint = cmd.qubits[0]
+    (quint,) = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         mul_by_constant_modN(eng, const, N, quint)
 
 
 def _replace_addquantum(cmd):
+    if len(cmd.qubits) not in (2, 3):
+        raise ValueError('The gate acts on two quantum registers and, optionally, a carry qubit')
     eng = cmd.engine
     if cmd.control_qubits == []:
         quint_a = cmd.qubits[0]
@@ -96,6 +98,8 @@ def _replace_addquantum(cmd):
 
 
 def _replace_inverse_add_quantum(cmd):
+    if len(cmd.qubits) not in (2, 3):
+        raise ValueError('The gate acts on two quantum registers and, optionally, a carry qubit')
     eng = cmd.engine
     quint_a = cmd.qubits[0]
     quint_b = cmd.qubits[1]
@@ -111,9 +115,7 @@ def _replace_inverse_add_quantum(cmd):
 
 def _replace_comparator(cmd):
     eng = cmd.engine
-    quint_a = cmd.qubits[0]
-    quint_b = cmd.qubits[1]
-    carry = cmd.qubits[2]
+    quint_a, quint_b, carry = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         comparator(eng, quint_a, quint_b, carry)
@@ -121,9 +123,7 @@ def _replace_comparator(cmd):
 
 def _replace_quantumdivision(cmd):
     eng = cmd.engine
-    quint_a = cmd.qubits[0]
-    quint_b = cmd.qubits[1]
-    quint_c = cmd.qubits[2]
+    quint_a, quint_b, quint_c = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         quantum_division(eng, quint_a, quint_b, quint_c)
@@ -131,9 +131,7 @@ def _replace_quantumdivision(cmd):
 
 def _replace_inversequantumdivision(cmd):
     eng = cmd.engine
-    quint_a = cmd.qubits[0]
-    quint_b = cmd.qubits[1]
-    quint_c = cmd.qubits[2]
+    quint_a, quint_b, quint_c = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         inverse_quantum_division(eng, quint_a, quint_b, quint_c)
@@ -141,9 +139,7 @@ def _replace_inversequantumdivision(cmd):
 
 def _replace_quantummultiplication(cmd):
     eng = cmd.engine
-    quint_a = cmd.qubits[0]
-    quint_b = cmd.qubits[1]
-    quint_c = cmd.qubits[2]
+    quint_a, quint_b, quint_c = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         quantum_multiplication(eng, quint_a, quint_b, quint_c)
@@ -151,9 +147,7 @@ def _replace_quantummultiplication(cmd):
 
 def _replace_inversequantummultiplication(cmd):
     eng = cmd.engine
-    quint_a = cmd.qubits[0]
-    quint_b = cmd.qubits[1]
-    quint_c = cmd.qubits[2]
+    quint_a, quint_b, quint_c = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         inverse_quantum_multiplication(eng, quint_a, quint_b, quint_c)
diff --git a/projectq/setups/decompositions/amplitudeamplification.py b/projectq/setups/decompositions/amplitudeamplification.py
index 9a5f2d8..59eac9b 100644
--- a/projectq/setups/decompositions/amplitudeamplification.py
+++ b/projectq/setups/decompositions/amplitudeamplification.py
@@ -81,8 +81,7 @@ def _decompose_QAA(cmd):  # pylint: disable=invalid-name
     eng = cmd.engine
 
     # System-qubit is the first qubit/qureg. Ancilla qubit is the second qubit
-    system_qubits = cmd.qubits[0]
-    qaa_ancilla = cmd.qubits[1]
+    system_qubits, qaa_ancilla = cmd.qubits
 
     # The Oracle and the Algorithm
     oracle = cmd.gate.oracle
diff --git a/projectq/setups/decompositions/entangle.py b/projectq/setups/decompositions/entangle.py
index 0f692f6..b17ef21 100755
--- a/projectq/setups/decompositions/entangle.py
+++ b/projectq/setups/decompositions/entangle.py
@@ -25,7 +25,7 @@ from projectq.ops import All, Entangle, H, X
 
 def _decompose_entangle(cmd):
     """Decompose the entangle gate."""
-    qureg = cmd.qubits[0]
+    (qureg,) = cmd.qubits
     eng = cmd.engine
 
     with Control(eng, cmd.control_qubits):
diff --git a/projectq/setups/decompositions/phaseestimation.py b/projectq/setups/decompositions/phaseestimation.py
index 5f7da7f..81be311 100644
--- a/projectq/setups/decompositions/phaseestimation.py
+++ b/projectq/setups/decompositions/phaseestimation.py
@@ -95,8 +95,7 @@ def _decompose_QPE(cmd):  # pylint: disable=invalid-name
     eng = cmd.engine
 
     # Ancillas is the first qubit/qureg. System-qubit is the second qubit/qureg
-    qpe_ancillas = cmd.qubits[0]
-    system_qubits = cmd.qubits[1]
+    qpe_ancillas, system_qubits = cmd.qubits
 
     with Control(eng, cmd.control_qubits):
         # Hadamard on the ancillas
diff --git a/projectq/setups/decompositions/qft2crandhadamard.py b/projectq/setups/decompositions/qft2crandhadamard.py
index de7346b..da90964 100755
--- a/projectq/setups/decompositions/qft2crandhadamard.py
+++ b/projectq/setups/decompositions/qft2crandhadamard.py
@@ -29,7 +29,7 @@ from projectq.ops import QFT, H, R
 
 
 def _decompose_QFT(cmd):  # pylint: disable=invalid-name
-    qb = cmd.qubits[0]
+    (qb,) = cmd.qubits
     eng = cmd.engine
     with Control(eng, cmd.control_qubits):
         for i in range(len(qb)):
-- 
2.43.0


From 896af6ba67d1d2a8cf3e025e8a8d789dbad9893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 81/93] fix: emulated quantum addition, comparison and division
 reject registers of wrong size

---
 projectq/libs/math/_gates.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/projectq/libs/math/_gates.py b/projectq/libs/math/_gates.py
index 7af0c44..09dd4d3 100755
--- a/projectq/libs/math/_gates.py
+++ b/projectq/libs/math/_gates.py
@@ -213,6 +213,18 @@ class MultiplyByConstantModN(BasicMathGate):
         return hash(str(self))
 
 
+def _check_addition_registers(qubits):
+    """Raise an exception if qubits are not two quantum registers of equal size and, optionally, a carry register."""
+    if len(qubits) not in (2, 3) or len(qubits[0]) != len(qubits[1]):
+        raise ValueError('The gate acts on two quantum registers of equal size and, optionally, a carry register!')
+
+
+def _check_division_registers(qubits):
+    """Raise an exception if qubits are not three quantum registers of equal size."""
+    if len(qubits) != 3 or len({len(qureg) for qureg in qubits}) != 1:
+        raise ValueError('The gate acts on three quantum registers of equal size!')
+
+
 class AddQuantumGate(BasicMathGate):
     """
     Add up two quantum numbers represented by quantum registers.
@@ -250,6 +262,7 @@ class AddQuantumGate(BasicMathGate):
 
     def get_math_function(self, qubits):
         """Get the math function associated with an AddQuantumGate."""
+        _check_addition_registers(qubits)
         n_qubits = len(qubits[0])
 
         def math_fun(a):  # pylint: disable=invalid-name
@@ -288,6 +301,8 @@ class _InverseAddQuantumGate(BasicMathGate):
         return AddQuantum
 
     def get_math_function(self, qubits):
+        _check_addition_registers(qubits)
+
         def math_fun(a):  # pylint: disable=invalid-name
             a[1] -= a[0]
             if len(a) == 3 and a[1] < 0:
@@ -383,6 +398,12 @@ class ComparatorQuantumGate(BasicMathGate):
 
         super().__init__(compare)
 
+    def get_math_function(self, qubits):
+        """Get the math function associated with a ComparatorQuantumGate."""
+        if len(qubits) != 3 or len(qubits[2]) != 1:
+            raise ValueError('The gate acts on two quantum registers and a single compare qubit!')
+        return super().get_math_function(qubits)
+
     def __str__(self):
         """Return a string representation of the object."""
         return "Comparator"
@@ -447,6 +468,11 @@ class DivideQuantumGate(BasicMathGate):
 
         super().__init__(division)
 
+    def get_math_function(self, qubits):
+        """Get the math function associated with a DivideQuantumGate."""
+        _check_division_registers(qubits)
+        return super().get_math_function(qubits)
+
     def get_inverse(self):
         """Return the inverse of this gate."""
         return _InverseDivideQuantumGate()
@@ -483,6 +509,11 @@ class _InverseDivideQuantumGate(BasicMathGate):
 
         super().__init__(inverse_division)
 
+    def get_math_function(self, qubits):
+        """Get the math function associated with a _InverseDivideQuantumGate."""
+        _check_division_registers(qubits)
+        return super().get_math_function(qubits)
+
     def __str__(self):
         """Return a string representation of the object."""
         return "_InverseDivideQuantum"
-- 
2.43.0


From 8b9547064eb5c55745173815956816e28ad0d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 82/93] fix: Measure applied to several qubits is rejected
 before any of them is measured

---
 projectq/ops/_gates.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/projectq/ops/_gates.py b/projectq/ops/_gates.py
index 10527a8..53cde4e 100755
--- a/projectq/ops/_gates.py
+++ b/projectq/ops/_gates.py
@@ -406,14 +406,12 @@ class MeasureGate(FastForwardingGate):
         Raises:
             RuntimeError: Since ProjectQ v0.6.0 if the gate is applied to multiple qubits.
         """
-        num_qubits = 0
-        for qureg in self.make_tuple_of_qureg(qubits):
-            for qubit in qureg:
-                num_qubits += 1
-                cmd = self.generate_command(([qubit],))
-                apply_command(cmd)
-        if num_qubits > 1:  # pragma: no cover
+        all_qubits = [qubit for qureg in self.make_tuple_of_qureg(qubits) for qubit in qureg]
+        if len(all_qubits) > 1:
             raise RuntimeError('Measure is a single qubit gate. Use All(Measure) | qureg instead')
+        for qubit in all_qubits:
+            cmd = self.generate_command(([qubit],))
+            apply_command(cmd)
 
 
 #: Shortcut (instance of) :class:`projectq.ops.MeasureGate`
-- 
2.43.0


From ab5d8bc2fb6dadadb356a26a646cbb40fb59164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 83/93] fix: reject angles and evolution times that are not
 finite

---
 projectq/ops/_basics.py                        | 4 ++++
 projectq/ops/_time_evolution.py                | 3 +++
 projectq/ops/_uniformly_controlled_rotation.py | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/projectq/ops/_basics.py b/projectq/ops/_basics.py
index 774b588..1553cfa 100755
--- a/projectq/ops/_basics.py
+++ b/projectq/ops/_basics.py
@@ -338,6 +338,8 @@ class BasicRotationGate(BasicGate):
             angle (float): Angle of rotation (saved modulo 4 * pi)
         """
         super().__init__()
+        if not math.isfinite(float(angle)):
+            raise ValueError(f'The angle must be finite: {angle}')
         rounded_angle = round(float(angle) % (4.0 * math.pi), ANGLE_PRECISION)
         if rounded_angle > 4 * math.pi - ANGLE_TOLERANCE:
             rounded_angle = 0.0
@@ -438,6 +440,8 @@ class BasicPhaseGate(BasicGate):
             angle (float): Angle of rotation (saved modulo 2 * pi)
         """
         super().__init__()
+        if not math.isfinite(float(angle)):
+            raise ValueError(f'The angle must be finite: {angle}')
         rounded_angle = round(float(angle) % (2.0 * math.pi), ANGLE_PRECISION)
         if rounded_angle > 2 * math.pi - ANGLE_TOLERANCE:
             rounded_angle = 0.0
diff --git a/projectq/ops/_time_evolution.py b/projectq/ops/_time_evolution.py
index 14dd3ef..2da004c 100644
--- a/projectq/ops/_time_evolution.py
+++ b/projectq/ops/_time_evolution.py
@@ -15,6 +15,7 @@
 """Definition of the time evolution gate."""
 
 import copy
+import math
 
 from ._basics import BasicGate, NotMergeable
 from ._command import apply_command
@@ -68,6 +69,8 @@ class TimeEvolution(BasicGate):
         super().__init__()
         if not isinstance(time, (float, int)):
             raise TypeError("time needs to be a (real) numeric type.")
+        if not math.isfinite(time):
+            raise ValueError("time needs to be finite.")
         if not isinstance(hamiltonian, QubitOperator):
             raise TypeError("hamiltonian needs to be QubitOperator object.")
         self.time = time
diff --git a/projectq/ops/_uniformly_controlled_rotation.py b/projectq/ops/_uniformly_controlled_rotation.py
index eb4b6f6..f43864c 100644
--- a/projectq/ops/_uniformly_controlled_rotation.py
+++ b/projectq/ops/_uniformly_controlled_rotation.py
@@ -49,6 +49,8 @@ class UniformlyControlledRy(BasicGate):
         super().__init__()
         rounded_angles = []
         for angle in angles:
+            if not math.isfinite(float(angle)):
+                raise ValueError(f'The angles must be finite: {angle}')
             new_angle = round(float(angle) % (4.0 * math.pi), ANGLE_PRECISION)
             if new_angle > 4 * math.pi - ANGLE_TOLERANCE:
                 new_angle = 0.0
@@ -111,6 +113,8 @@ class UniformlyControlledRz(BasicGate):
         super().__init__()
         rounded_angles = []
         for angle in angles:
+            if not math.isfinite(float(angle)):
+                raise ValueError(f'The angles must be finite: {angle}')
             new_angle = round(float(angle) % (4.0 * math.pi), ANGLE_PRECISION)
             if new_angle > 4 * math.pi - ANGLE_TOLERANCE:
                 new_angle = 0.0
-- 
2.43.0


From 38725307fdfc68a664e45b696ae3efc6fdee7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:56 +0000
Subject: [PATCH 84/93] fix: the Python and classical simulators reject math
 functions returning a wrong number of values

---
 projectq/backends/_sim/_classical_simulator.py | 2 ++
 projectq/backends/_sim/_pysim.py               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index 7b0c90d..fb43596 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -242,6 +242,8 @@ class ClassicalSimulator(BasicEngine):
             if meets_controls:
                 ins = [self._read_mapped_register(reg) for reg in cmd.qubits]
                 outs = cmd.gate.get_math_function(cmd.qubits)(ins)
+                if len(outs) != len(cmd.qubits):
+                    raise ValueError('The math function must return one value per quantum register!')
                 for reg, out in zip(cmd.qubits, outs):
                     self._write_mapped_register(reg, out & ((1 << len(reg)) - 1))
             return
diff --git a/projectq/backends/_sim/_pysim.py b/projectq/backends/_sim/_pysim.py
index 4485bf3..a910c5f 100755
--- a/projectq/backends/_sim/_pysim.py
+++ b/projectq/backends/_sim/_pysim.py
@@ -212,6 +212,8 @@ class Simulator:
                         arg_list[qr_i] |= ((i >> qb_loc) & 1) << qb_i
 
                 res = func(arg_list)
+                if len(res) != len(qb_locs):
+                    raise ValueError('The math function must return one value per quantum register!')
                 new_i = i
                 for qr_i, qr_loc in enumerate(qb_locs):
                     for qb_i, qb_loc in enumerate(qr_loc):
-- 
2.43.0


From adbd5ab8003d4fd32213333115691fcfa1733599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:11 +0000
Subject: [PATCH 85/93] fix: the local optimizer does not send commands again
 after a later engine raised an exception

---
 projectq/cengines/_optimize.py | 61 +++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/projectq/cengines/_optimize.py b/projectq/cengines/_optimize.py
index 2f84b2d..4b25e4e 100755
--- a/projectq/cengines/_optimize.py
+++ b/projectq/cengines/_optimize.py
@@ -57,33 +57,42 @@ class LocalOptimizer(BasicEngine):
     def _send_qubit_pipeline(self, idx, n_gates):
         """Send n gate operations of the qubit with index idx to the next engine."""
         il = self._l[idx]  # pylint: disable=invalid-name
-        for i in range(min(n_gates, len(il))):  # loop over first n operations
-            # send all gates before n-qubit gate for other qubits involved
-            # --> recursively call send_helper
-            other_involved_qubits = [qb for qreg in il[i].all_qubits for qb in qreg if qb.id != idx]
-            for qb in other_involved_qubits:
-                qubit_id = qb.id
-                try:
-                    gateloc = 0
-                    # find location of this gate within its list
-                    while self._l[qubit_id][gateloc] != il[i]:
-                        gateloc += 1
-
-                    gateloc = self._optimize(qubit_id, gateloc)
-
-                    # flush the gates before the n-qubit gate
-                    self._send_qubit_pipeline(qubit_id, gateloc)
-                    # delete the n-qubit gate, we're taking care of it
-                    # and don't want the other qubit to do so
+        n_sent = 0
+        try:
+            for i in range(min(n_gates, len(il))):  # loop over first n operations
+                # send all gates before n-qubit gate for other qubits involved
+                # --> recursively call send_helper
+                other_involved_qubits = [qb for qreg in il[i].all_qubits for qb in qreg if qb.id != idx]
+                ready_qubits = []
+                for qb in other_involved_qubits:
+                    qubit_id = qb.id
+                    try:
+                        gateloc = 0
+                        # find location of this gate within its list
+                        while self._l[qubit_id][gateloc] != il[i]:
+                            gateloc += 1
+
+                        gateloc = self._optimize(qubit_id, gateloc)
+
+                        # flush the gates before the n-qubit gate
+                        self._send_qubit_pipeline(qubit_id, gateloc)
+                        ready_qubits.append(qubit_id)
+                    except IndexError:  # pragma: no cover
+                        print("Invalid qubit pipeline encountered (in the process of shutting down?).")
+
+                # delete the n-qubit gate, we're taking care of it
+                # and don't want the other qubits to do so
+                for qubit_id in ready_qubits:
                     self._l[qubit_id] = self._l[qubit_id][1:]
-                except IndexError:  # pragma: no cover
-                    print("Invalid qubit pipeline encountered (in the process of shutting down?).")
-
-            # all qubits that need to be flushed have been flushed
-            # --> send on the n-qubit gate
-            self.send([il[i]])
-        # n operations have been sent on --> resize our gate list
-        self._l[idx] = self._l[idx][n_gates:]
+
+                # all qubits that need to be flushed have been flushed
+                # --> send on the n-qubit gate
+                n_sent = i + 1
+                self.send([il[i]])
+        finally:
+            # the operations that have been sent on must not be sent again (even if the next engines raised an
+            # exception) --> resize our gate list
+            self._l[idx] = self._l[idx][n_sent:]
 
     def _get_gate_indices(self, idx, i, qubit_ids):
         """
-- 
2.43.0


From 8bd6d4c7c3b093515319e271b8716bc583c2bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 86/93] fix: the classical simulator rejects measurements with
 control qubits

---
 projectq/backends/_sim/_classical_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_classical_simulator.py b/projectq/backends/_sim/_classical_simulator.py
index fb43596..75278a4 100755
--- a/projectq/backends/_sim/_classical_simulator.py
+++ b/projectq/backends/_sim/_classical_simulator.py
@@ -15,7 +15,7 @@
 """A simulator that only permits classical operations, for faster/easier testing."""
 
 from projectq.cengines import BasicEngine
-from projectq.meta import LogicalQubitIDTag
+from projectq.meta import LogicalQubitIDTag, get_control_count
 from projectq.ops import Allocate, BasicMathGate, Deallocate, FlushGate, Measure, XGate
 from projectq.types import WeakQubitRef
 
@@ -199,6 +199,8 @@ class ClassicalSimulator(BasicEngine):
             return
 
         if cmd.gate == Measure:
+            if get_control_count(cmd) != 0:
+                raise ValueError('Cannot have control qubits with a measurement gate!')
             for qureg in cmd.qubits:
                 for qubit in qureg:
                     # Check if a mapper assigned a different logical id
-- 
2.43.0


From 72c1331857df9fea55e05fecc2ef5da17b0d0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:24 +0000
Subject: [PATCH 87/93] fix: rejected commands leave the unitary of the unitary
 simulator alone

---
 projectq/backends/_unitary.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/projectq/backends/_unitary.py b/projectq/backends/_unitary.py
index 90e9f34..1368b67 100644
--- a/projectq/backends/_unitary.py
+++ b/projectq/backends/_unitary.py
@@ -232,9 +232,9 @@ class UnitarySimulator(BasicEngine):
             if get_control_count(cmd) != 0:
                 raise ValueError('Cannot have control qubits with a measurement gate!')
 
-            self._is_valid = False
             all_qubits = [qb for qr in cmd.qubits for qb in qr]
             measurements = self.measure_qubits([qb.id for qb in all_qubits])
+            self._is_valid = False
 
             for qb, res in zip(all_qubits, measurements):
                 # Check if a mapper assigned a different logical id
@@ -247,20 +247,22 @@ class UnitarySimulator(BasicEngine):
         elif isinstance(cmd.gate, FlushGate):
             self._flush()
         else:
-            if not self._is_valid:
-                self._start_new_unitary()
-
-            self._is_flushed = False
             mask_list = _qidmask(
                 [self._qubit_map[qb.id] for qr in cmd.qubits for qb in qr],
                 [self._qubit_map[qb.id] for qb in cmd.control_qubits],
                 [int(ctrl) for ctrl in cmd.control_state],
                 self._num_qubits,
             )
+            # The masks are disjoint
+            cache = np.identity(2**self._num_qubits, dtype=complex)
             for mask in mask_list:
-                cache = np.identity(2**self._num_qubits, dtype=complex)
                 cache[np.ix_(mask, mask)] = cmd.gate.matrix
-                self._unitary = cache @ self._unitary
+
+            if not self._is_valid:
+                self._start_new_unitary()
+
+            self._is_flushed = False
+            self._unitary = cache @ self._unitary
 
     def measure_qubits(self, ids):
         """
-- 
2.43.0


From d93da08e23f357329dce4333412f0267d9909311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 88/93] fix: MainEngine replaced errors that need several
 arguments by a TypeError

---
 projectq/cengines/_main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/projectq/cengines/_main.py b/projectq/cengines/_main.py
index 87ec1b3..dd5f885 100755
--- a/projectq/cengines/_main.py
+++ b/projectq/cengines/_main.py
@@ -305,9 +305,15 @@ class MainEngine(BasicEngine):  # pylint: disable=too-many-instance-attributes
             exc_type, exc_value, _ = sys.exc_info()
             # try:
             last_line = traceback.format_exc().splitlines()
-            compact_exception = exc_type(
-                str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
-            )
+            try:
+                compact_exception = exc_type(
+                    str(exc_value) + '\n raised in:\n' + repr(last_line[-3]) + "\n" + repr(last_line[-2])
+                )
+            except Exception:  # pylint: disable=broad-except
+                # This type of exception cannot be created from a message only
+                compact_exception = None
+            if compact_exception is None:
+                raise
             compact_exception.__cause__ = None
             raise compact_exception from err  # use verbose=True for more info
 
-- 
2.43.0


From c432dd2335af1606a8e1cbc544a38d8ef82bac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 89/93] fix: Control is not affected by later changes of the
 list of control qubits

---
 projectq/meta/_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projectq/meta/_control.py b/projectq/meta/_control.py
index 119615b..5a975c3 100755
--- a/projectq/meta/_control.py
+++ b/projectq/meta/_control.py
@@ -156,7 +156,8 @@ class Control:
             qubits = [qubits]
         if any(qubit.engine is not engine for qubit in qubits):
             raise ValueError('The control qubits must belong to the engine of the controlled section!')
-        self._qubits = qubits
+        # NB: own list, the block is conditioned on these qubits even if the list passed in is modified within
+        self._qubits = list(qubits)
         self._state = canonical_ctrl_state(ctrl_state, len(self._qubits))
         self._control_eng = None
 
-- 
2.43.0


From 4bc0c92153d9a90638823a395d3421685e527ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:56 +0000
Subject: [PATCH 90/93] fix: gates of a matplotlib drawing were drawn on top of
 each other

---
 projectq/backends/_circuits/_plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projectq/backends/_circuits/_plot.py b/projectq/backends/_circuits/_plot.py
index a32332d..43f37c6 100644
--- a/projectq/backends/_circuits/_plot.py
+++ b/projectq/backends/_circuits/_plot.py
@@ -169,7 +169,7 @@ def gate_width(axes, gate_str, plot_params):
         return 2 * plot_params['swap_delta'] / plot_params['units_per_inch']
 
     if gate_str == 'Measure':
-        return plot_params['mgate_width']
+        return plot_params['mgate_width'] / plot_params['units_per_inch']
 
     obj = axes.text(
         0,
@@ -177,12 +177,12 @@ def gate_width(axes, gate_str, plot_params):
         gate_str,
         visible=True,
         bbox={'edgecolor': 'k', 'facecolor': 'w', 'fill': True, 'lw': 1.0},
-        fontsize=14,
+        fontsize=plot_params['fontsize'],
     )
     obj.figure.canvas.draw()
     width = obj.get_window_extent(obj.figure.canvas.get_renderer()).width / axes.figure.dpi
     obj.remove()
-    return width + 2 * plot_params['gate_offset']
+    return width + 2 * plot_params['gate_offset'] / plot_params['units_per_inch']
 
 
 def calculate_gate_grid(axes, qubit_lines, plot_params):
@@ -283,6 +283,8 @@ def resize_figure(fig, axes, width, height, plot_params):
         A tuple with (figure, axes)
     """
     fig.set_size_inches(width, height)
+    # the limits below are in units of the whole figure
+    axes.set_position((0, 0, 1, 1))
 
     new_limits = plot_params['units_per_inch'] * np.array([width, height])
     axes.set_xlim(0, new_limits[0])
-- 
2.43.0


From 4365a86a861bcce8ff2f64d7a5924cd7798df826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:12 +0000
Subject: [PATCH 91/93] fix: lines behind a Swap or SqrtSwap gate were drawn as
 classical although the qubit is not

---
 projectq/backends/_circuits/_to_latex.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/projectq/backends/_circuits/_to_latex.py b/projectq/backends/_circuits/_to_latex.py
index 15db814..899acef 100755
--- a/projectq/backends/_circuits/_to_latex.py
+++ b/projectq/backends/_circuits/_to_latex.py
@@ -348,10 +348,20 @@ class _Circ2Tikz:  # pylint: disable=too-few-public-methods
                 add_str = self._cz_gate(lines + ctrl_lines)
             elif gate == Swap:
                 add_str = self._swap_gate(lines, ctrl_lines)
+                # whether a line is quantum is swapped as well
+                if not ctrl_lines:
+                    quantum = [self.is_quantum[_line] for _line in reversed(lines)]
+                else:
+                    quantum = [any(self.is_quantum[_line] for _line in all_lines)] * 2
+                self.is_quantum[lines[0]], self.is_quantum[lines[1]] = quantum
             elif gate == SqrtSwap:
                 add_str = self._sqrtswap_gate(lines, ctrl_lines, daggered=False)
+                for _line in lines:
+                    self.is_quantum[_line] = True
             elif gate == get_inverse(SqrtSwap):
                 add_str = self._sqrtswap_gate(lines, ctrl_lines, daggered=True)
+                for _line in lines:
+                    self.is_quantum[_line] = True
             elif gate == Measure:
                 # draw measurement gate
                 for _line in lines:
-- 
2.43.0


From a8e215e09df29abf5d684a7de3fc400123ab333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:52 +0000
Subject: [PATCH 92/93] fix: do not attach the tags of negatively controlled
 commands twice when replacing them

---
 projectq/setups/decompositions/controlstate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projectq/setups/decompositions/controlstate.py b/projectq/setups/decompositions/controlstate.py
index d9c8686..9d874b6 100755
--- a/projectq/setups/decompositions/controlstate.py
+++ b/projectq/setups/decompositions/controlstate.py
@@ -35,7 +35,9 @@ def _decompose_controlstate(cmd):
     # Resend the command with the `control_state` cleared
     cmd.control_state = '1' * len(cmd.control_state)
     orig_engine = cmd.engine
-    cmd.engine.receive([deepcopy(cmd)])  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd = deepcopy(cmd)  # NB: deepcopy required here to workaround infinite recursion detection
+    new_cmd.tags = []  # NB: the engine adds the tags of cmd to all the commands of the decomposition
+    cmd.engine.receive([new_cmd])
     Uncompute(orig_engine)
 
 
-- 
2.43.0


From 2e43bed7b8018eddb2af158e327096123cbdbbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:31 +0000
Subject: [PATCH 93/93] fix: keep the simulator header compilable as C++11

setup.py accepts compilers down to C++11, where a lambda parameter cannot be
declared auto.
---
 projectq/backends/_sim/_cppkernels/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projectq/backends/_sim/_cppkernels/simulator.hpp b/projectq/backends/_sim/_cppkernels/simulator.hpp
index 2935790..2de1e32 100755
--- a/projectq/backends/_sim/_cppkernels/simulator.hpp
+++ b/projectq/backends/_sim/_cppkernels/simulator.hpp
@@ -216,7 +216,7 @@ public:
         if (ids.size() < 1 || ids.size() > fusion_qubits_max_)
             throw std::invalid_argument("Gates with more than 5 qubits are not supported!");
         if (m.size() != (1UL << ids.size())
-                || std::any_of(m.begin(), m.end(), [&m](auto const& row){ return row.size() != m.size(); }))
+                || std::any_of(m.begin(), m.end(), [&m](typename M::value_type const& row){ return row.size() != m.size(); }))
             throw std::invalid_argument("apply_controlled_gate(): The matrix dimension does not match the number of qubits.");
 
         auto fused_gates = fused_gates_;
-- 
2.43.0

