From 2e40cab82ce913696dea17e044612fb701164a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 01/14] fix: modulus of an exact multiple of the divisor is
 zero

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..ffa9a39 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let r = a % b;
+    if r != T::zero() && r.is_sign_positive() != b.is_sign_positive() { b + r } else { r }
 }
-- 
2.43.0


From 609ef0a76e7a7fd127f0396f9359f1d1873ae64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 02/14] fix: a list can be its own index set in insert, replace
 and remove

---
 src/process.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..586ce95 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len() + 1)?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +698,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +728,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let index_set = ops::prep_index_set(&index, list.borrow().len())?;
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From 9206295444484fb882adc44af64a8697f7b89d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 03/14] fix: loops declare their variable under its translated
 name

---
 src/bytecode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 6a24123..9cb5f80 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -2064,7 +2064,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
                 self.ins.push(Instruction::PopValue.into());
             }
             ast::StmtKind::ForLoop { var, start, stop, stmts } => {
-                self.ins.push(Instruction::DeclareLocal { var: &var.name }.into());
+                self.ins.push(Instruction::DeclareLocal { var: &var.trans_name }.into());
 
                 self.append_expr(start, entity)?;
                 self.ins.push(Instruction::ToNumber.into());
@@ -2124,7 +2124,7 @@ impl<'a: 'b, 'b> ByteCodeBuilder<'a, 'b> {
                 }
             }
             ast::StmtKind::ForeachLoop { var, items, stmts } => {
-                self.ins.push(Instruction::DeclareLocal { var: &var.name }.into());
+                self.ins.push(Instruction::DeclareLocal { var: &var.trans_name }.into());
 
                 self.append_expr(items, entity)?;
                 self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Dynamic }.into()); // shallow copy the input list
-- 
2.43.0


From f8f4abd810e748f804eee84544511ab9e7aafe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 04/14] fix: calls of closures count against the call depth
 limit

---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 586ce95..28858e5 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -943,6 +943,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From bcf3f642cec05db3a7a3ddd2db37cf96ecf2ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:46 +0000
Subject: [PATCH 05/14] fix: point towards x and y are taken in the order they
 are given

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 28858e5..89d8f54 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1448,8 +1448,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From c5c1df359df6940d0917b1b51a1699dc07115141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 06/14] fix: sleeping for a very long time does not overflow
 the wake-up time

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 89d8f54..cac8d86 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1134,7 +1134,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From 38168a1660ba0528721aaa907bf7e6a615c06d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 07/14] fix: a script that restarts itself with a message does
 not crash the project

---
 src/project.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..d9a7ed4 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -360,6 +360,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     ProjectStep::Normal
                 }
                 ProcessStep::Broadcast { msg_type, barrier, targets } => {
+                    let mut receivers = vec![]; // prepare all receivers first, since starting one of them might stop the sender itself
                     for i in 0..self.scripts.len() {
                         if let Event::LocalMessage { msg_type: recv_type } = &self.scripts[i].event.0 {
                             if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {
@@ -370,13 +371,15 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                 }
 
                                 let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
-
-                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
-                                self.scripts[i].stop_all(&mut self.state);
-                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                                receivers.push((i, state));
                             }
                         }
                     }
+                    for (i, state) in receivers {
+                        all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
+                        self.scripts[i].stop_all(&mut self.state);
+                        self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);
+                    }
                     self.state.process_queue.push_front(proc_key); // keep executing same process, if it was a wait, it'll yield next step
                     ProjectStep::Normal
                 }
-- 
2.43.0


From c34b4b1fb5827b98f72713c82761f7784c92b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 08/14] fix: releasing a key does not crash the project

---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index d9a7ed4..bf56aa4 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // key down events are not held, so there is nothing to end
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From ee8c9482dde33ec6b743c5f6d60cd7c17a2bef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 09/14] fix: stopping a script does not strand the events
 queued for it

---
 src/project.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index bf56aa4..8034cbc 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -392,10 +392,14 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.stop_all(&mut self.state);
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From 942e06105d5b0e496e03fa15f12a4f97092c016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 10/14] fix: block locations with far-apart numbers are refused
 instead of overflowing

---
 src/bytecode.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bytecode.rs b/src/bytecode.rs
index 9cb5f80..cd999f6 100644
--- a/src/bytecode.rs
+++ b/src/bytecode.rs
@@ -1322,17 +1322,18 @@ impl Locations {
                 }
             }
             debug_assert!(values.len() >= 1);
-            value_map.push((pos, values));
+            value_map.push((pos, loc, values));
         }
 
-        let base_token = value_map.iter().flat_map(|x| &x.1).copied().min().unwrap_or(0);
+        let base_token = value_map.iter().flat_map(|x| &x.2).copied().min().unwrap_or(0);
 
         let mut value_data = Vec::with_capacity(value_map.len());
         let mut locs = Vec::with_capacity(value_map.len());
-        for (pos, toks) in value_map {
+        for (pos, loc, toks) in value_map {
             locs.push((pos, value_data.len()));
             for tok in toks {
-                encode_u64((tok - base_token + 1) as u64, &mut value_data, None);
+                let offset = tok.checked_sub(base_token).and_then(|x| x.checked_add(1)).ok_or(CompileError::InvalidLocation { loc })?;
+                encode_u64(offset as u64, &mut value_data, None);
             }
             encode_u64(0, &mut value_data, None); // null terminator
         }
-- 
2.43.0


From a3d9074ad545ac912a95d833d8a6c0851d31729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 11/14] fix: names of images and sounds from NetsBlox are
 unescaped

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..f635467 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).unwrap_or_else(|_| value.as_str().into()),
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From 1956850b7faae408b35286adff2a9131410577a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 12/14] fix: notes out of range are refused instead of
 wrapping, and names and frequencies ignore the accidental mark

---
 src/process.rs |  5 ++---
 src/runtime.rs | 13 +++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index cac8d86..7816272 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1531,9 +1531,8 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));
+            return res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index f635467..70de575 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1885,13 +1885,13 @@ impl Note {
                 None => break,
             }
         }
-        let mut octave = octave?;
+        let mut octave = octave? as i64;
         if note >= 3 {
             octave -= 1;
         }
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = 21 + note as i64 + 12 * octave + delta as i64;
+        u8::try_from(value).ok().and_then(|x| Self::from_midi(x, natural))
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
@@ -1899,12 +1899,13 @@ impl Note {
     }
     /// Computes the frequency of the note in Hz.
     pub fn get_frequency(self) -> Number {
-        Number::new(440.0 * libm::exp2((self.0 as f64 - 69.0) / 12.0)).unwrap()
+        Number::new(440.0 * libm::exp2((self.get_midi().0 as f64 - 69.0) / 12.0)).unwrap()
     }
     /// Gets the (English) name of the note.
     pub fn get_name(self, prefer_sharps: bool) -> CompactString {
-        let octave = self.0 as i32 / 12 - 1;
-        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((self.0 as usize + 3) % 12).unwrap();
+        let midi = self.get_midi().0;
+        let octave = midi as i32 / 12 - 1;
+        let note = if prefer_sharps { SHARP_NOTES } else { FLAT_NOTES }.split(' ').nth((midi as usize + 3) % 12).unwrap();
         format_compact!("{note}{octave}")
     }
 }
-- 
2.43.0


From 3a3943c3775643804c261ce9f4495640bc418b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 13/14] fix: random numbers between bounds beyond 64-bit
 integers stay between their bounds

---
 src/process.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 7816272..f64db34 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1854,7 +1854,12 @@ mod ops {
             BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
-                let res = if a == libm::round(a) && b == libm::round(b) {
+                let whole = a == libm::round(a) && b == libm::round(b);
+                let res = if a < i64::MIN as f64 || b >= i64::MAX as f64 { // too wide for integers, and possibly for sampling the range directly
+                    let t: f64 = system.rand(0.0..=1.0);
+                    let res = (a * (1.0 - t) + b * t).clamp(a, b);
+                    if whole { libm::round(res) } else { res }
+                } else if whole {
                     let (a, b) = (a as i64, b as i64);
                     system.rand(a..=b) as f64
                 } else {
-- 
2.43.0


From 91915924ac37ca3118e9bcb04e0aa1eb8f5dffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:58 +0000
Subject: [PATCH 14/14] fix: debug borrow checks of StdSystem panicked on going
 or pointing to a sprite, and on sprites that refer to themselves or their
 clones

---
 src/std_system.rs | 55 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 7d069a9..16adcbc 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -320,32 +320,44 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
     }
 
     #[cfg(debug_assertions)]
-    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>) {
-        fn check_symbols<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, symbols: &SymbolTable<'gc, C, StdSystem<C>>) {
+    fn check_runtime_borrows<'gc>(mc: &Mutation<'gc>, proc: &mut Process<'gc, C, Self>, lent: Option<*const Entity<'gc, C, Self>>) {
+        // an entity that the request or command itself borrows is not checked
+        fn check_value<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, value: &Value<'gc, C, StdSystem<C>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            match value {
+                Value::Bool(_) | Value::Number(_) | Value::Text(_) | Value::Audio(_) | Value::Image(_) | Value::Native(_) => (),
+                Value::List(x) => { x.borrow_mut(mc); }
+                Value::Closure(x) => { x.borrow_mut(mc); }
+                Value::Entity(x) => if lent != Some(x.as_ptr() as *const _) { x.borrow_mut(mc); }
+            }
+        }
+        fn check_symbols<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, symbols: &SymbolTable<'gc, C, StdSystem<C>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
             for symbol in symbols.iter() {
-                match &*symbol.1.get() {
-                    Value::Bool(_) | Value::Number(_) | Value::Text(_) | Value::Audio(_) | Value::Image(_) | Value::Native(_) => (),
-                    Value::List(x) => { x.borrow_mut(mc); }
-                    Value::Closure(x) => { x.borrow_mut(mc); }
-                    Value::Entity(x) => { x.borrow_mut(mc); }
-                }
+                check_value(mc, &*symbol.1.get(), lent);
             }
         }
-        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: &mut Entity<'gc, C, StdSystem<C>>) {
-            check_symbols(mc, &entity.fields);
-            if let Some(original) = entity.original {
-                check_entity(mc, &mut *original.borrow_mut(mc));
+        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: Gc<'gc, RefLock<Entity<'gc, C, StdSystem<C>>>>, lent: Option<*const Entity<'gc, C, StdSystem<C>>>) {
+            if lent == Some(entity.as_ptr() as *const _) { return }
+            let (fields, original) = {
+                // released before checking the fields, which can refer back to the entity
+                let entity = entity.borrow_mut(mc);
+                (entity.fields.iter().map(|x| x.1.get().clone()).collect::<Vec<_>>(), entity.original)
+            };
+            for field in fields.iter() {
+                check_value(mc, field, lent);
+            }
+            if let Some(original) = original {
+                check_entity(mc, original, lent);
             }
         }
 
         let global_context = proc.global_context.borrow_mut(mc);
-        check_symbols(mc, &global_context.globals);
+        check_symbols(mc, &global_context.globals, lent);
         for entry in proc.get_call_stack() {
-            check_symbols(mc, &entry.locals);
-            check_entity(mc, &mut entry.entity.borrow_mut(mc));
+            check_symbols(mc, &entry.locals, lent);
+            check_entity(mc, entry.entity, lent);
         }
         for entity in global_context.entities.iter() {
-            check_entity(mc, &mut *entity.1.borrow_mut(mc));
+            check_entity(mc, *entity.1, lent);
         }
     }
 }
@@ -363,7 +375,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_request<'gc>(&self, mc: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::RequestKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, None);
 
         Ok(match self.config.request.as_ref() {
             Some(handler) => {
@@ -378,7 +390,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Self::RequestKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, _proc);
+        Self::check_runtime_borrows(mc, _proc, None);
 
         Ok(match key.poll() {
             AsyncResult::Completed(Ok(x)) => AsyncResult::Completed(Ok(C::from_intermediate(mc, x))),
@@ -390,7 +402,10 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
 
     fn perform_command<'gc>(&self, mc: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Self::CommandKey, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(mc, proc);
+        Self::check_runtime_borrows(mc, proc, match &command {
+            Command::GotoEntity { target } | Command::PointTowardsEntity { target } => Some(*target as *const _),
+            _ => None,
+        });
 
         Ok(match self.config.command.as_ref() {
             Some(handler) => {
@@ -405,7 +420,7 @@ impl<C: CustomTypes<StdSystem<C>>> System<C> for StdSystem<C> {
     }
     fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &Self::CommandKey, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
         #[cfg(debug_assertions)]
-        Self::check_runtime_borrows(_mc, _proc);
+        Self::check_runtime_borrows(_mc, _proc, None);
 
         Ok(key.poll())
     }
-- 
2.43.0

