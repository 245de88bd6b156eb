From 7414600736f7f5d97ed0798ed96cb24fc1dc02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 01/23] fix: keep a queued Ry ordered after a flushed Rx by an
 odd multiple of pi

---
 sparsesim/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..da091c2 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,13 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Enqueue the Pauli directly: going through `mcx` or `mcy` would
+            // commute it past any Ry still queued on the target, which must stay ordered after this rotation.
+            self.enqueue_op(
+                target,
+                ctls.into(),
+                if sign_flip { OpCode::Y } else { OpCode::X },
+            );
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From 86b42ef2816f4a0cba733b49adb40616548b42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 02/23] fix: let apply move a target to a location left free by
 a released qubit

---
 sparsesim/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index da091c2..23ac10d 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1241,14 +1241,17 @@ impl QuantumSim {
                     .id_map
                     .get(*target)
                     .unwrap_or_else(|| panic!("Unable to find qubit with id {target}"));
+                // The location may be unoccupied if a qubit was released earlier, in which case there
+                // is no other qubit to move.
                 let swap_id = self
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(id, _)| id);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 4f4ffad9c740e069a326ac0bc9889feea9ad96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 03/23] fix: reject release of an unallocated id when one qubit
 is live

---
 sparsesim/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 23ac10d..8d0118c 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -179,6 +179,10 @@ impl QuantumSim {
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
         if self.id_map.iter().count() == 1 {
+            assert!(
+                self.id_map.contains_key(id),
+                "Unable to find qubit with id {id}"
+            );
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
             // any accumulated phase dissappears.
-- 
2.43.0


From a00289b45b1533d19bf462df07a388cb8fd4142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 04/23] fix: drop zero-amplitude entries produced by
 multi-qubit exponentials

---
 sparsesim/src/exp.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sparsesim/src/exp.rs b/sparsesim/src/exp.rs
index 4368bc0..2d4f97d 100644
--- a/sparsesim/src/exp.rs
+++ b/sparsesim/src/exp.rs
@@ -164,16 +164,20 @@ impl QuantumSim {
                 if ctls.iter().all(|c| index.bit(*c)) {
                     let alt_index = index ^ &xy_mask;
                     if !mapped_state.contains_key(&alt_index) {
-                        self.state.push((index.clone(), value * id_coeff));
-                        self.state.push((
-                            alt_index,
-                            value
-                                * if (index & &yz_mask).count_ones() & 1 == 0 {
-                                    pauli_coeff
-                                } else {
-                                    -pauli_coeff
-                                },
-                        ));
+                        let new_value = value * id_coeff;
+                        if !new_value.is_nearly_zero() {
+                            self.state.push((index.clone(), new_value));
+                        }
+
+                        let new_value = value
+                            * if (index & &yz_mask).count_ones() & 1 == 0 {
+                                pauli_coeff
+                            } else {
+                                -pauli_coeff
+                            };
+                        if !new_value.is_nearly_zero() {
+                            self.state.push((alt_index, new_value));
+                        }
                     } else if index < &alt_index {
                         let parity = (index & &yz_mask).count_ones() & 1 != 0;
                         let alt_value = mapped_state[&alt_index] as Complex64;
-- 
2.43.0


From ca5bf397d431b3b5f6f32dba09fd6e94f5ed2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 05/23] fix: release the qubit array's reference, not an alias,
 in qubit_release_array

---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From d30c0422f59a7b1179c9e1a931d8711f48eb0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 06/23] fix: compute the IEEE remainder exactly, with ties to
 even

---
 stdlib/src/math.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..217c4d8 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,30 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    if x.is_nan() || y.is_nan() || x.is_infinite() || y == 0.0 {
+        return c_double::NAN;
+    }
+
+    // Compute x - n * y exactly, where n is the integer nearest to x / y with ties to even.
+    let y_abs = y.abs();
+    let mut rem = x.abs();
+    if y_abs <= c_double::MAX / 2.0 {
+        // The `%` operator is exact, so reduce to the range [0, 2 * |y|) while keeping the quotient's parity.
+        rem %= 2.0 * y_abs;
+    }
+    // Doubling a large remainder could overflow and halving a small divisor could round, so pick by magnitude.
+    let (scale, half) = if y_abs < 1.0 {
+        (2.0, y_abs)
+    } else {
+        (1.0, 0.5 * y_abs)
+    };
+    if rem * scale > half {
+        rem -= y_abs;
+        if rem * scale >= half {
+            rem -= y_abs;
+        }
+    }
+    if x.is_sign_negative() { -rem } else { rem }
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 4435384dec758cd53cee7ef1ae16ce0da5067db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 07/23] fix: bind assertmeasurementprobability__ctl with its
 two parameters

---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From eb5d898d7f2b0e940a5a81ee22d2919ba93cb334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 08/23] fix: normalise a collapsed state by the weight it keeps

---
 sparsesim/src/lib.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 8d0118c..5357aea 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -326,7 +326,7 @@ impl QuantumSim {
         let random_sample = self.rng.borrow_mut().random::<f64>();
         let prob = self.check_joint_probability(&[loc]);
         let res = random_sample < prob;
-        self.collapse(loc, res, prob);
+        self.collapse(loc, res);
         res
     }
 
@@ -356,7 +356,7 @@ impl QuantumSim {
         // either val is true and the probability is not zero or that val is false and
         // the 1.0 minus the probability is not zero.
         if (val && !prob.is_nearly_zero()) || (!val && !(1.0 - prob).is_nearly_zero()) {
-            self.collapse(loc, val, prob);
+            self.collapse(loc, val);
         }
         if val { prob } else { 1.0 - prob }
     }
@@ -387,7 +387,7 @@ impl QuantumSim {
         let random_sample = self.rng.borrow_mut().random::<f64>();
         let prob = self.check_joint_probability(&locs);
         let res = random_sample < prob;
-        self.joint_collapse(&locs, res, prob);
+        self.joint_collapse(&locs, res);
         res
     }
 
@@ -429,37 +429,26 @@ impl QuantumSim {
     /// Utility to collapse the probability at the given location based on the boolean value. This means
     /// that if the given value is 'true' then all keys in the sparse state where the given location
     /// has a zero bit will be reduced to zero and removed. Then the sparse state is normalized.
-    fn collapse(&mut self, loc: usize, val: bool, scaling_denominator: f64) {
-        self.joint_collapse(&[loc], val, scaling_denominator);
+    fn collapse(&mut self, loc: usize, val: bool) {
+        self.joint_collapse(&[loc], val);
     }
 
     /// Utility to collapse the joint probability of a particular set of locations in the sparse state.
     /// The entries that do not correspond to the given boolean value are removed, and then the whole
     /// state is normalized.
-    fn joint_collapse(&mut self, locs: &[usize], val: bool, scaling_denominator: f64) {
+    fn joint_collapse(&mut self, locs: &[usize], val: bool) {
         let mask = locs.iter().fold(BigUint::zero(), |accum, loc| {
             accum | (BigUint::one() << loc)
         });
 
-        // Normalize the new state using the accumulated scaling.
-        let scaling = 1.0
-            / (if val {
-                scaling_denominator
-            } else {
-                1.0 - scaling_denominator
-            })
-            .sqrt();
-        self.state = self
-            .state
-            .drain(..)
-            .filter_map(|(k, v)| {
-                if (&k & &mask).count_ones() & 1 == u64::from(val) {
-                    Some((k, v * scaling))
-                } else {
-                    None
-                }
-            })
-            .collect();
+        self.state
+            .retain(|(k, _)| (k & &mask).count_ones() & 1 == u64::from(val));
+
+        // Normalize by the weight of the entries that were kept. Deriving that weight from the probability of
+        // the other outcome would lose all precision when the kept outcome is unlikely.
+        let weight: f64 = self.state.iter().map(|(_, v)| v.norm_sqr()).sum();
+        let scaling = 1.0 / weight.sqrt();
+        self.state.iter_mut().for_each(|(_, v)| *v *= scaling);
     }
 
     /// Swaps the mapped ids for the given qubits.
-- 
2.43.0


From f08f461187cee0828dc7be196aafd0a390dda608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 09/23] fix: slice arrays by element index so large bounds and
 steps cannot overflow

---
 stdlib/src/range_support.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/stdlib/src/range_support.rs b/stdlib/src/range_support.rs
index 77ffea7..7b65765 100644
--- a/stdlib/src/range_support.rs
+++ b/stdlib/src/range_support.rs
@@ -30,29 +30,28 @@ pub unsafe extern "C" fn quantum__rt__array_slice_1d(
     range: Range,
 ) -> *const QirArray {
     let array = unsafe { &*arr };
-    let item_size: i64 = array
-        .elem_size
-        .try_into()
-        .expect("Array element size too large for `usize` type on this platform.");
     let mut slice = QirArray {
         elem_size: array.elem_size,
         data: Vec::new(),
     };
+    // Step over element indices rather than byte offsets, so that bounds and steps of any size cannot overflow.
     let iter: Box<dyn Iterator<Item = i64>> = if range.step > 0 {
-        Box::new(range.start * item_size..=range.end * item_size)
+        Box::new(range.start..=range.end)
     } else {
-        Box::new((range.end * item_size..=range.start * item_size).rev())
+        Box::new((range.end..=range.start).rev())
     };
 
-    let step: i64 = range.step.abs();
-    for i in iter.step_by((step * item_size).try_into().expect(
-        "Range step multiplied by item size is too large for `usize` type on this platform",
-    )) {
-        let index = i
-            .try_into()
+    let step = range.step.unsigned_abs();
+    for i in iter.step_by(
+        step.try_into()
+            .expect("Range step too large for `usize` type on this platform"),
+    ) {
+        let offset = usize::try_from(i)
+            .ok()
+            .and_then(|index| index.checked_mul(array.elem_size))
             .expect("Item index too large for `usize` type on this platform.");
         let mut copy = vec![0; array.elem_size];
-        copy.copy_from_slice(&array.data[index..index + array.elem_size]);
+        copy.copy_from_slice(&array.data[offset..offset + array.elem_size]);
         slice.data.append(&mut copy);
     }
 
-- 
2.43.0


From 4967b1a5219c7c81cdfb16769311295ddace210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 10/23] fix: draw doubles from ranges wider than the largest
 double

---
 stdlib/src/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 217c4d8..1212d2e 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -146,5 +146,9 @@ pub extern "C" fn __quantum__qis__drawrandomdouble__body(min: c_double, max: c_d
             __quantum__rt__fail(convert(&"Invalid Argument: minimum > maximum".to_string()));
         }
     }
+    if min.is_finite() && max.is_finite() && max - min > c_double::MAX / 2.0 {
+        // The width of the range is too large for the generator, so draw at a quarter of the scale.
+        return (4.0 * rand::rng().random_range(min / 4.0..=max / 4.0)).clamp(min, max);
+    }
     rand::rng().random_range(min..=max)
 }
-- 
2.43.0


From 8d04a61308cfb9f3ae034a46fe59e2353f43063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 11/23] fix: reject output recording declarations with the
 wrong number of parameters

---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..67a624a 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if !func.get_params().is_empty() {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -502,13 +515,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From 38cc90e64aaf2526ca3097f6d2f772bc4f811529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 12/23] fix: count array and tuple recording as current output
 recording

---
 runner/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 67a624a..b104485 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -496,6 +496,12 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__array_create_1d, 2);
 
     // New calls
+    for name in [
+        "__quantum__rt__array_record_output",
+        "__quantum__rt__tuple_record_output",
+    ] {
+        uses_legacy.push(declarations.contains_key(name).then_some(false));
+    }
     bind!(__quantum__rt__array_record_output, 2);
     bind!(__quantum__rt__tuple_record_output, 2);
 
-- 
2.43.0


From e3162f1aef7de552f9e24f3619bf6873bbe576ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 13/23] fix: bind __quantum__rt__message_record_output

---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index b104485..5314a03 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -603,6 +603,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__int_to_string, 1);
     bind!(__quantum__rt__memory_allocate, 1);
     bind!(__quantum__rt__message, 1);
+    bind!(__quantum__rt__message_record_output, 1);
     bind!(__quantum__rt__pauli_to_string, 1);
     bind!(__quantum__rt__qubit_allocate, 0);
     bind!(__quantum__rt__qubit_allocate_array, 1);
-- 
2.43.0


From 8db8f06f1c745d64f9cbb517b56f1f79d3890932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:33 +0000
Subject: [PATCH 14/23] fix: reject an entry point with parameters before
 writing output

---
 runner/src/lib.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 5314a03..eb42477 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -170,6 +170,9 @@ fn run_module(
     bind_functions(module, &execution_engine)?;
 
     let entry_point = choose_entry_point(module_functions(module), entry_point)?;
+    if entry_point.count_params() != 0 {
+        return Err("Entry point has parameters or a non-void return type.".to_owned());
+    }
     // TODO: need a cleaner way to get the attr strings for metadata
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
@@ -207,7 +210,7 @@ fn run_module(
         }
 
         __quantum__rt__initialize(null_mut());
-        unsafe { run_entry_point(&execution_engine, entry_point)? }
+        unsafe { run_entry_point(&execution_engine, entry_point) }
 
         // Write the saved output records to the output_writer
         OUTPUT.with(|output| {
@@ -241,17 +244,9 @@ fn load_file(path: impl AsRef<Path>, context: &Context) -> Result<Module<'_>, St
     }
 }
 
-unsafe fn run_entry_point(
-    execution_engine: &ExecutionEngine,
-    entry_point: FunctionValue,
-) -> Result<(), String> {
+unsafe fn run_entry_point(execution_engine: &ExecutionEngine, entry_point: FunctionValue) {
     unsafe {
-        if entry_point.count_params() == 0 {
-            execution_engine.run_function(entry_point, &[]);
-            Ok(())
-        } else {
-            Err("Entry point has parameters or a non-void return type.".to_owned())
-        }
+        execution_engine.run_function(entry_point, &[]);
     }
 }
 
-- 
2.43.0


From 670bf1b2d40bcd9a222ed11a7c34b73d6e72a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 15/23] fix: do not hold the output recorder while writing a
 shot's records

A writer that runs another program on the same thread, such as the Python
callback, made the nested run panic because the thread's recorder was still
borrowed.
---
 runner/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index eb42477..2242ef4 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -213,12 +213,11 @@ fn run_module(
         unsafe { run_entry_point(&execution_engine, entry_point) }
 
         // Write the saved output records to the output_writer
-        OUTPUT.with(|output| {
-            let mut output = output.borrow_mut();
-            output_writer
-                .write_all(output.drain().as_slice())
-                .expect("Failed to write output");
-        });
+        // Release the recorder before writing: the writer may run another program on this thread.
+        let records: Vec<u8> = OUTPUT.with(|output| output.borrow_mut().drain().collect());
+        output_writer
+            .write_all(&records)
+            .expect("Failed to write output");
 
         // Write the end of the shot
         output_writer
-- 
2.43.0


From 42563cce90905cfa24e1a24fa29a4e99a8444446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 16/23] fix: a call of run from a callback no longer redirects
 the outer call's records

run and run_bytes set the thread's recorder to standard output when no callback
is given. When the call came from another call's callback, the outer call's
remaining shots were then printed instead of delivered to its callback.
---
 pip/src/python.rs              | 24 ++++++++++++++++--------
 stdlib/src/output_recording.rs |  6 ++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pip/src/python.rs b/pip/src/python.rs
index 0be7795..32889ed 100644
--- a/pip/src/python.rs
+++ b/pip/src/python.rs
@@ -80,23 +80,27 @@ pub(crate) fn run(
     rng_seed: Option<u64>,
     output_fn: Option<Py<PyAny>>,
 ) -> PyResult<()> {
-    OUTPUT.with(|output| {
+    let outer_setting = OUTPUT.with(|output| {
         let mut output = output.borrow_mut();
+        let outer_setting = output.writes_to_std_out();
         output.use_std_out(output_fn.is_none());
+        outer_setting
     });
     let mut receiver = OptionalCallbackReceiver {
         callback: output_fn,
         py,
     };
-    runner::run_file(
+    let result = runner::run_file(
         path,
         entry_point.as_deref(),
         shots.unwrap_or(1),
         rng_seed,
         &mut receiver,
     )
-    .map_err(PyErr::new::<PyRuntimeError, _>)?;
-    Ok(())
+    .map_err(PyErr::new::<PyRuntimeError, _>);
+    // This may be a call from a callback: the outer call continues with its own setting.
+    OUTPUT.with(|output| output.borrow_mut().use_std_out(outer_setting));
+    result
 }
 
 #[pyfunction]
@@ -110,23 +114,27 @@ pub(crate) fn run_bytes(
     rng_seed: Option<u64>,
     output_fn: Option<Py<PyAny>>,
 ) -> PyResult<()> {
-    OUTPUT.with(|output| {
+    let outer_setting = OUTPUT.with(|output| {
         let mut output = output.borrow_mut();
+        let outer_setting = output.writes_to_std_out();
         output.use_std_out(output_fn.is_none());
+        outer_setting
     });
     let mut receiver = OptionalCallbackReceiver {
         callback: output_fn,
         py,
     };
-    runner::run_bytes(
+    let result = runner::run_bytes(
         &bytes,
         entry_point.as_deref(),
         shots.unwrap_or(1),
         rng_seed,
         &mut receiver,
     )
-    .map_err(PyErr::new::<PyRuntimeError, _>)?;
-    Ok(())
+    .map_err(PyErr::new::<PyRuntimeError, _>);
+    // This may be a call from a callback: the outer call continues with its own setting.
+    OUTPUT.with(|output| output.borrow_mut().use_std_out(outer_setting));
+    result
 }
 
 #[pyfunction]
diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 8a00ef9..79f9f52 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -61,6 +61,12 @@ impl OutputRecorder {
         self.use_std_out = use_std_out;
     }
 
+    /// Tells whether the output is written to stdout rather than stored in the buffer.
+    #[must_use]
+    pub fn writes_to_std_out(&self) -> bool {
+        self.use_std_out
+    }
+
     /// Writes the newline char(s) to the output.
     pub fn write_newline(&mut self) {
         self.write_all(LINE_ENDING).expect("Failed to write output");
-- 
2.43.0


From 4d5ea34fd2ca13b4258204a35588c18bf6c5eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 17/23] fix: report only string attributes of an entry point as
 metadata

An entry point carrying one of LLVM's own attributes (nounwind, noinline and the
like) made the runner panic in get_string_kind_id.
---
 runner/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2242ef4..9500f23 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -177,6 +177,8 @@ fn run_module(
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
         .iter()
+        // LLVM's own attributes (nounwind and the like) are not strings and have no text to report
+        .filter(|attr| attr.is_string())
         .map(|attr| {
             (
                 attr.get_string_kind_id()
-- 
2.43.0


From f94cbf021ca27a091cc63328d870c383e0e92c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 18/23] fix: reading recorded output consumes it

OutputRecorder's Read implementation returned the start of the buffer on every
call: records were delivered again and again and reading to the end never ended.
---
 stdlib/src/output_recording.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 79f9f52..6e6c77e 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -41,7 +41,9 @@ impl Write for OutputRecorder {
 
 impl Read for OutputRecorder {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        self.buffer.as_slice().read(buf)
+        let count = self.buffer.as_slice().read(buf)?;
+        self.buffer.drain(..count);
+        Ok(count)
     }
 }
 
-- 
2.43.0


From fa91280cb03fbeecf2657b3e18068e98ebf98f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 19/23] fix: refuse an array whose total size does not fit the
 address space

The product of element size and count wrapped in release builds and produced an array too small for its elements.
---
 stdlib/src/arrays.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index edc4953..164f7bc 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -21,13 +21,17 @@ pub struct QirArray {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__rt__array_create_1d(elem_size: u32, count: u64) -> *const QirArray {
-    let elem_size = elem_size
+    let elem_size: usize = elem_size
         .try_into()
         .expect("The `elem_size` argument should fit in the `usize` type for this platform.");
     let count: usize = count
         .try_into()
         .expect("The `count` argument should fit in the `usize` type for this platform.");
-    let data = vec![0_u8; elem_size * count];
+    // An unchecked product would wrap and silently create an array that is too small for its elements.
+    let size = elem_size
+        .checked_mul(count)
+        .expect("The total size of the array should fit in the `usize` type for this platform.");
+    let data = vec![0_u8; size];
     Rc::into_raw(Rc::new(QirArray { elem_size, data }))
 }
 
-- 
2.43.0


From 4ef9eca28db69eb744edcd08cfb6f4387a4caf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 20/23] fix: refuse a tuple whose size with its header does not
 fit the address space

The sum wrapped in release builds, and the header was written outside the allocation.
---
 stdlib/src/tuples.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/tuples.rs b/stdlib/src/tuples.rs
index 9f5a48f..2ce603f 100644
--- a/stdlib/src/tuples.rs
+++ b/stdlib/src/tuples.rs
@@ -14,7 +14,9 @@ pub extern "C" fn __quantum__rt__tuple_create(size: u64) -> *mut *const Vec<u8>
         0_u8;
         <usize as std::convert::TryFrom<u64>>::try_from(size)
             .expect("Tuple size too large for `usize` type on this platform.")
-            + size_of::<*const Vec<u8>>()
+            // An unchecked sum would wrap and silently create a tuple that is too small for its header.
+            .checked_add(size_of::<*const Vec<u8>>())
+            .expect("Tuple size too large for `usize` type on this platform.")
     ];
 
     unsafe {
-- 
2.43.0


From 5802ff5aab9c65bfcfa1b7415b0043c6ccefcd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 21/23] fix: write each output line and dump in one piece so
 threads cannot tear lines on stdout

---
 backend/src/lib.rs             | 16 +++++-------
 stdlib/src/output_recording.rs | 48 ++++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index a97e4c2..0e707ae 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -1028,19 +1028,17 @@ pub extern "C" fn __quantum__qis__dumpmachine__body(location: *mut c_void) {
     SIM_STATE.with(|sim_state| {
         let mut state = sim_state.borrow_mut();
 
+        // Written in one piece, so that output other threads write to stdout does not mix with it.
+        let mut dump = vec![];
         if !state.res.is_empty() {
-            OUTPUT.with(|output| {
-                let mut output = output.borrow_mut();
-                output
-                    .write_fmt(format_args!("Global Results: {}", state.res))
-                    .expect("Failed to write global results");
-                output.write_newline();
-            });
+            dump.extend_from_slice(format!("Global Results: {}", state.res).as_bytes());
+            dump.extend_from_slice(LINE_ENDING);
         }
+        dump.extend_from_slice(state.sim.dump().as_bytes());
         OUTPUT.with(|output| {
-            let mut output = output.borrow_mut();
             output
-                .write_all(state.sim.dump().as_bytes())
+                .borrow_mut()
+                .write_all(&dump)
                 .expect("Failed to write simulator state");
         });
     });
diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 6e6c77e..f854a5e 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -30,6 +30,15 @@ impl Write for OutputRecorder {
         }
     }
 
+    fn write_all(&mut self, buf: &[u8]) -> std::io::Result<()> {
+        // Other threads can write to stdout as well, so it must stay locked for the whole buffer.
+        if self.use_std_out {
+            std::io::stdout().write_all(buf)
+        } else {
+            self.buffer.write_all(buf)
+        }
+    }
+
     fn flush(&mut self) -> std::io::Result<()> {
         if self.use_std_out {
             std::io::stdout().flush()
@@ -84,17 +93,23 @@ thread_local! {
     pub static OUTPUT: std::cell::RefCell<Box<OutputRecorder>> = std::cell::RefCell::new(Box::default());
 }
 
-/// Records a string to the output.
-/// # Errors
-/// Returns an error if the write fails.
-pub fn record_output_str(val: &str) -> std::io::Result<()> {
+/// Writes a line to the output in one piece, so that lines written to stdout
+/// by several threads do not mix.
+fn write_line(mut line: Vec<u8>) {
+    line.extend_from_slice(LINE_ENDING);
     OUTPUT.with(|output| {
-        let mut output = output.borrow_mut();
         output
-            .write_all(val.as_bytes())
+            .borrow_mut()
+            .write_all(&line)
             .expect("Failed to write output");
-        output.write_newline();
     });
+}
+
+/// Records a string to the output.
+/// # Errors
+/// Returns an error if the write fails.
+pub fn record_output_str(val: &str) -> std::io::Result<()> {
+    write_line(val.as_bytes().to_vec());
     Ok(())
 }
 
@@ -103,19 +118,12 @@ pub fn record_output_str(val: &str) -> std::io::Result<()> {
 /// Returns an error if the write fails.
 pub unsafe fn record_output(ty: &str, val: &dyn Display, tag: *mut c_char) -> std::io::Result<()> {
     unsafe {
-        OUTPUT.with(|output| {
-            let mut output = output.borrow_mut();
-            output
-                .write_fmt(format_args!("OUTPUT\t{ty}\t{val}"))
-                .expect("Failed to write output");
-            if !tag.is_null() {
-                output.write_all(b"\t").expect("Failed to write output");
-                output
-                    .write_all(CStr::from_ptr(tag).to_bytes())
-                    .expect("Failed to write output");
-            }
-            output.write_newline();
-        });
+        let mut line = format!("OUTPUT\t{ty}\t{val}").into_bytes();
+        if !tag.is_null() {
+            line.push(b'\t');
+            line.extend_from_slice(CStr::from_ptr(tag).to_bytes());
+        }
+        write_line(line);
         Ok(())
     }
 }
-- 
2.43.0


From 52b25a71bc7336a5a716c4c0aaf96ebf4091f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 22/23] fix: clean up after callable_invoke what it set up,
 whatever the callee changed

---
 stdlib/src/callables.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/stdlib/src/callables.rs b/stdlib/src/callables.rs
index 5ac7ab7..6157131 100644
--- a/stdlib/src/callables.rs
+++ b/stdlib/src/callables.rs
@@ -43,16 +43,17 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
 ) {
     unsafe {
         let call = &*callable;
-        let index = usize::from(*call.is_adj.borrow())
-            + (if *call.ctls_count.borrow() > 0 { 2 } else { 0 });
+        let ctls_count = *call.ctls_count.borrow();
+        let index = usize::from(*call.is_adj.borrow()) + (if ctls_count > 0 { 2 } else { 0 });
 
         // Collect any nested controls into a single control list.
         let mut args_copy: *mut *const Vec<u8> = std::ptr::null_mut();
+        let mut owned_ctls: *const QirArray = std::ptr::null();
         if !args_tup.is_null() {
             // Copy the tuple so we can potentially edit it.
             args_copy = __quantum__rt__tuple_copy(args_tup.cast::<*const Vec<u8>>(), true);
 
-            if *call.ctls_count.borrow() > 0 {
+            if ctls_count > 0 {
                 // If there are any controls, increment the reference count on the control list. This is just
                 // to balance the decrement that will happen in the loop and at the end of invoking the callable
                 // to ensure the original, non-owned list does not get incorrectly cleaned up.
@@ -61,7 +62,7 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
                     1,
                 );
 
-                let mut ctl_count = *call.ctls_count.borrow();
+                let mut ctl_count = ctls_count;
                 while ctl_count > 1 {
                     let ctls = *args_copy.cast::<*const QirArray>();
                     let inner_tuple = *args_copy
@@ -86,6 +87,7 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
                     args_copy = new_args;
                     ctl_count -= 1;
                 }
+                owned_ctls = *args_copy.cast::<*const QirArray>();
             }
         }
 
@@ -97,8 +99,10 @@ pub unsafe extern "C" fn __quantum__rt__callable_invoke(
             args_copy.cast::<u8>(),
             res_tup,
         );
-        if *call.ctls_count.borrow() > 0 {
-            __quantum__rt__array_update_reference_count(*args_copy.cast::<*const QirArray>(), -1);
+        // The function may have changed the functors of the callable or its copy of the arguments, so clean up
+        // what was set up above.
+        if !owned_ctls.is_null() {
+            __quantum__rt__array_update_reference_count(owned_ctls, -1);
         }
         if !args_copy.is_null() {
             __quantum__rt__tuple_update_reference_count(args_copy, -1);
-- 
2.43.0


From 70082c41f19b7d1dcd71ce0304ab5be21702ccb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 23/23] fix: refuse entry points that return what the execution
 engine cannot receive

An entry point that returned a struct, array, vector, half or other composite or odd value crashed the process
instead of giving the error that the documentation promises.
---
 runner/src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 9500f23..a959c23 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -22,6 +22,7 @@ use inkwell::{
     module::Module,
     passes::{PassBuilderOptions, PassManager},
     targets::{CodeModel, InitializationConfig, RelocMode, Target, TargetMachine, TargetTriple},
+    types::BasicTypeEnum,
     values::FunctionValue,
 };
 use std::{
@@ -170,7 +171,7 @@ fn run_module(
     bind_functions(module, &execution_engine)?;
 
     let entry_point = choose_entry_point(module_functions(module), entry_point)?;
-    if entry_point.count_params() != 0 {
+    if entry_point.count_params() != 0 || !returns_at_most_one_register(entry_point) {
         return Err("Entry point has parameters or a non-void return type.".to_owned());
     }
     // TODO: need a cleaner way to get the attr strings for metadata
@@ -251,6 +252,21 @@ unsafe fn run_entry_point(execution_engine: &ExecutionEngine, entry_point: Funct
     }
 }
 
+/// Checks that the function returns nothing or a single number or pointer, which the caller can ignore.
+/// The execution engine is not able to call a function that returns anything else.
+fn returns_at_most_one_register(function: FunctionValue) -> bool {
+    let ty = function.get_type();
+    match ty.get_return_type() {
+        None | Some(BasicTypeEnum::PointerType(_)) => true,
+        Some(BasicTypeEnum::IntType(int)) => int.get_bit_width() <= 64,
+        Some(BasicTypeEnum::FloatType(float)) => {
+            let context = ty.get_context();
+            float == context.f32_type() || float == context.f64_type()
+        }
+        Some(_) => false,
+    }
+}
+
 fn choose_entry_point<'ctx>(
     functions: impl Iterator<Item = FunctionValue<'ctx>>,
     name: Option<&str>,
-- 
2.43.0

