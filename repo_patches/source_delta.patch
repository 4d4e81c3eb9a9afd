From 810c11311a45cd2dab0623980ad56a17b487bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 01/54] Add runtime-monitor hooks behind cfg(vp_hooks)

---
 runtime/src/lib.rs            |   2 +
 runtime/src/story/mod.rs      |   2 +
 runtime/src/story/progress.rs |   8 +
 runtime/src/story/vp_hooks.rs | 427 ++++++++++++++++++++++++++++++++++
 4 files changed, 439 insertions(+)
 create mode 100644 runtime/src/story/vp_hooks.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..42942ec 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -45,6 +45,8 @@
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
 
+#![allow(unexpected_cfgs)]
+
 mod callstack;
 pub mod choice;
 mod choice_point;
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..b8b3c30 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -192,3 +192,5 @@ mod progress;
 mod state;
 mod tags;
 pub mod variable_observer;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..684e13e 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -119,6 +119,11 @@ impl Story {
                 break;
             }
 
+            #[cfg(vp_hooks)]
+            if self.async_continue_active && crate::story::vp_hooks::async_pause_now() {
+                break;
+            }
+
             // Run out of async time?
             if self.async_continue_active
                 && duration_stopwatch.as_ref().unwrap().elapsed().as_millis() as f32
@@ -342,6 +347,9 @@ impl Story {
     }
 
     pub(crate) fn step(&mut self) -> Result<(), StoryError> {
+        #[cfg(vp_hooks)]
+        crate::story::vp_hooks::on_step();
+
         let mut should_add_to_stream = true;
 
         // Get current content
diff --git a/runtime/src/story/vp_hooks.rs b/runtime/src/story/vp_hooks.rs
new file mode 100644
index 0000000..1fd251f
--- /dev/null
+++ b/runtime/src/story/vp_hooks.rs
@@ -0,0 +1,427 @@
+//! Instrumentation for the runtime monitors. Compiled only with
+//! `--cfg vp_hooks`; never part of a normal build.
+#![allow(missing_docs)]
+
+use std::{
+    cell::Cell,
+    collections::{HashMap, hash_map::DefaultHasher},
+    hash::{Hash, Hasher},
+    rc::Rc,
+};
+
+use crate::{
+    choice_point::ChoicePoint,
+    container::Container,
+    control_command::ControlCommand,
+    divert::Divert,
+    glue::Glue,
+    native_function_call::NativeFunctionCall,
+    object::{Object, RTObject},
+    path::Path,
+    story::Story,
+    tag::Tag,
+    value::Value,
+    value_type::ValueType,
+    variable_assigment::VariableAssignment,
+    variable_reference::VariableReference,
+    void::Void,
+};
+
+/// Panic payload used when the step fuel runs out.
+pub struct FuelExhausted;
+
+thread_local! {
+    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
+    static STEPS: Cell<u64> = const { Cell::new(0) };
+    static ASYNC_BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Limits the number of interpreter steps of this thread; reaching the limit
+/// unwinds with a [`FuelExhausted`] payload.
+pub fn set_fuel(steps: u64) {
+    FUEL.with(|f| f.set(steps));
+}
+
+/// Number of interpreter steps made by this thread so far.
+pub fn steps() -> u64 {
+    STEPS.with(|s| s.get())
+}
+
+/// Virtual clock: the next time-limited continue pauses after this many steps.
+pub fn set_async_budget(steps: u64) {
+    ASYNC_BUDGET.with(|b| b.set(steps));
+}
+
+pub(crate) fn on_step() {
+    STEPS.with(|s| s.set(s.get() + 1));
+    let left = FUEL.with(|f| f.get());
+    if left == 0 {
+        std::panic::panic_any(FuelExhausted);
+    }
+    if left != u64::MAX {
+        FUEL.with(|f| f.set(left - 1));
+    }
+}
+
+pub(crate) fn async_pause_now() -> bool {
+    ASYNC_BUDGET.with(|b| {
+        let left = b.get();
+        if left == u64::MAX {
+            return false;
+        }
+        let left = left.saturating_sub(1);
+        b.set(left);
+        left == 0
+    })
+}
+
+/// Result of walking the content tree.
+#[derive(Default)]
+pub struct Audit {
+    /// (path, kind, text) of every object, sorted.
+    pub entries: Vec<(String, String, String)>,
+    /// Properties that do not hold: (rule, path, detail).
+    pub failures: Vec<(String, String, String)>,
+    pub objects: usize,
+    pub pairs: usize,
+    pub relative_paths: usize,
+}
+
+fn value_text(v: &ValueType) -> (String, String) {
+    match v {
+        ValueType::Bool(b) => ("Bool".to_owned(), b.to_string()),
+        ValueType::Int(i) => ("Int".to_owned(), i.to_string()),
+        ValueType::Float(f) => ("Float".to_owned(), format!("{f} bits {:08x}", f.to_bits())),
+        ValueType::String(s) => (
+            "String".to_owned(),
+            format!(
+                "{:?} nl={} ws={}",
+                s.string, s.is_newline, s.is_inline_whitespace
+            ),
+        ),
+        ValueType::DivertTarget(p) => ("DivertTarget".to_owned(), p.to_string()),
+        ValueType::VariablePointer(p) => (
+            "VariablePointer".to_owned(),
+            format!("{} ci={}", p.variable_name, p.context_index),
+        ),
+        ValueType::List(l) => {
+            let mut items: Vec<String> = l
+                .items
+                .iter()
+                .map(|(k, v)| format!("{}={}", k.get_full_name(), v))
+                .collect();
+            items.sort();
+            let mut origins: Vec<String> = l
+                .origins
+                .borrow()
+                .iter()
+                .map(|o| o.get_name().to_owned())
+                .collect();
+            origins.sort();
+            let mut names = l.get_origin_names();
+            names.sort();
+            names.dedup();
+            (
+                "List".to_owned(),
+                format!("{items:?} origins={origins:?} names={names:?}"),
+            )
+        }
+    }
+}
+
+fn describe(o: &Rc<dyn RTObject>) -> (String, String) {
+    let any = o.as_any();
+    if let Some(c) = any.downcast_ref::<Container>() {
+        let mut names: Vec<&String> = c.named_content.keys().collect();
+        names.sort();
+        return (
+            "Container".to_owned(),
+            format!(
+                "name={:?} flags={} len={} named={:?}",
+                c.name,
+                c.get_count_flags(),
+                c.content.len(),
+                names
+            ),
+        );
+    }
+    if let Some(v) = any.downcast_ref::<Value>() {
+        return value_text(&v.value);
+    }
+    if let Some(d) = any.downcast_ref::<Divert>() {
+        return (
+            "Divert".to_owned(),
+            format!(
+                "{} cond={} ext={} args={} push={} type={} var={:?}",
+                d,
+                d.is_conditional,
+                d.is_external,
+                d.external_args,
+                d.pushes_to_stack,
+                d.stack_push_type as u8,
+                d.variable_divert_name
+            ),
+        );
+    }
+    if let Some(c) = any.downcast_ref::<ChoicePoint>() {
+        return (
+            "ChoicePoint".to_owned(),
+            format!("{} flags={}", c, c.get_flags()),
+        );
+    }
+    if let Some(c) = any.downcast_ref::<ControlCommand>() {
+        return (
+            "ControlCommand".to_owned(),
+            ControlCommand::get_name(c.command_type).to_string(),
+        );
+    }
+    if let Some(f) = any.downcast_ref::<NativeFunctionCall>() {
+        return ("Native".to_owned(), f.to_string());
+    }
+    if let Some(v) = any.downcast_ref::<VariableReference>() {
+        return ("VariableReference".to_owned(), v.to_string());
+    }
+    if let Some(v) = any.downcast_ref::<VariableAssignment>() {
+        return (
+            "VariableAssignment".to_owned(),
+            format!(
+                "{} global={} new={}",
+                v.variable_name, v.is_global, v.is_new_declaration
+            ),
+        );
+    }
+    if any.is::<Glue>() {
+        return ("Glue".to_owned(), String::new());
+    }
+    if any.is::<Void>() {
+        return ("Void".to_owned(), String::new());
+    }
+    if any.is::<Tag>() {
+        return ("Tag".to_owned(), o.to_string());
+    }
+    ("Other".to_owned(), o.to_string())
+}
+
+fn same(a: &Rc<dyn RTObject>, b: &Rc<dyn RTObject>) -> bool {
+    std::ptr::eq(
+        Rc::as_ptr(a) as *const (),
+        Rc::as_ptr(b) as *const (),
+    )
+}
+
+fn path_hash(p: &Path) -> u64 {
+    let mut h = DefaultHasher::new();
+    p.hash(&mut h);
+    h.finish()
+}
+
+impl Audit {
+    fn fail(&mut self, rule: &str, path: &Path, detail: String) {
+        if self.failures.len() < 200 {
+            self.failures
+                .push((rule.to_owned(), path.to_string(), detail));
+        }
+    }
+
+    fn text_round_trip(&mut self, what: &str, p: &Path) {
+        let text = p.to_string();
+        let back = Path::new_with_components_string(Some(&text));
+        if &back != p {
+            self.fail(
+                "text-round-trip",
+                p,
+                format!("{what}: parsing back gives a different path"),
+            );
+            return;
+        }
+        if back.is_relative() != p.is_relative() {
+            self.fail("stays-relative", p, what.to_string());
+        }
+        if back.to_string() != text {
+            self.fail(
+                "text-stable",
+                p,
+                format!("{what}: second text is {}", back),
+            );
+        }
+        if path_hash(&back) != path_hash(p) {
+            self.fail("equal-paths-hash-equally", p, what.to_string());
+        }
+    }
+}
+
+impl Story {
+    pub fn vp_set_story_seed(&mut self, seed: i32) {
+        self.get_state_mut().story_seed = seed;
+    }
+
+    pub fn vp_story_seed(&self) -> i32 {
+        self.get_state().story_seed
+    }
+
+    /// Walks the content tree. `max_pairs` bounds the number of ordered object
+    /// pairs whose relative paths are checked; pairs are taken by a fixed
+    /// stride so that near and far pairs both occur.
+    pub fn vp_audit(&self, max_pairs: usize, offset: usize) -> Audit {
+        let root = self.main_content_container.clone();
+        let mut audit = Audit::default();
+        let mut objs: Vec<Rc<dyn RTObject>> = Vec::new();
+        let mut seen: HashMap<*const (), ()> = HashMap::new();
+        let mut stack: Vec<Rc<dyn RTObject>> = vec![root.clone()];
+        while let Some(o) = stack.pop() {
+            if seen.insert(Rc::as_ptr(&o) as *const (), ()).is_some() {
+                continue;
+            }
+            objs.push(o.clone());
+            if let Ok(c) = o.clone().into_any().downcast::<Container>() {
+                let mut named: Vec<(&String, &Rc<Container>)> = c.named_content.iter().collect();
+                named.sort_by(|a, b| b.0.cmp(a.0));
+                for (k, n) in named {
+                    // the key it is registered under is the name its path uses
+                    if n.name.as_deref() != Some(k.as_str()) {
+                        let p = c.get_path();
+                        audit.fail("named-content-key", &p, format!("{k} vs {:?}", n.name));
+                    }
+                    stack.push(n.clone());
+                }
+                for n in c.content.iter().rev() {
+                    stack.push(n.clone());
+                }
+            }
+        }
+        audit.objects = objs.len();
+
+        for o in &objs {
+            let p = Object::get_path(o.as_ref());
+            let (kind, text) = describe(o);
+            audit.entries.push((p.to_string(), kind, text));
+
+            let r = root.content_at_path(&p, 0, -1);
+            if r.approximate {
+                audit.fail("resolves-exactly", &p, "approximate".to_owned());
+            } else if !same(&r.obj, o) {
+                audit.fail("resolves-to-itself", &p, "another object".to_owned());
+            }
+            audit.text_round_trip("object path", &p);
+            // through the text form, as a save does
+            let back = Path::new_with_components_string(Some(&p.to_string()));
+            let r = root.content_at_path(&back, 0, -1);
+            if r.approximate || !same(&r.obj, o) {
+                audit.fail("text-resolves-to-itself", &p, String::new());
+            }
+            // container path plus index, as a call-stack element is written
+            if let Some(parent) = o.get_object().get_parent() {
+                if let Some(i) = parent.content.iter().position(|x| same(x, o)) {
+                    let ptr = crate::pointer::Pointer::new(Some(parent.clone()), i as i32);
+                    let pp = ptr.get_path().unwrap();
+                    let back = Path::new_with_components_string(Some(&pp.to_string()));
+                    let r = root.content_at_path(&back, 0, -1);
+                    if r.approximate || !same(&r.obj, o) {
+                        audit.fail("pointer-resolves", &pp, String::new());
+                    }
+                    if let Ok(q) = Story::pointer_at_path(&root, &back) {
+                        match q.resolve() {
+                            Some(x) if same(&x, o) => {}
+                            _ => audit.fail("pointer-at-path", &pp, String::new()),
+                        }
+                    } else {
+                        audit.fail("pointer-at-path", &pp, "error".to_owned());
+                    }
+                }
+            }
+
+            // paths held by the content itself
+            let mut held: Option<(&str, Path)> = None;
+            if let Ok(d) = o.clone().into_any().downcast::<Divert>() {
+                if !d.has_variable_target() && !d.is_external {
+                    if let Some(t) = d.get_target_path_string() {
+                        let t = Path::new_with_components_string(Some(&t));
+                        held = Some(("divert", t));
+                    }
+                }
+            } else if let Ok(c) = o.clone().into_any().downcast::<ChoicePoint>() {
+                let t = Path::new_with_components_string(Some(&c.get_path_string_on_choice()));
+                held = Some(("choice point", t));
+            } else if let Ok(v) = o.clone().into_any().downcast::<VariableReference>() {
+                if let Some(t) = v.get_path_string_for_count() {
+                    let t = Path::new_with_components_string(Some(&t));
+                    held = Some(("read count", t));
+                }
+            }
+            if let Some((what, t)) = held {
+                audit.text_round_trip(what, &t);
+                let r = Object::resolve_path(o.clone(), &t);
+                if r.approximate {
+                    audit.fail("held-path-resolves", &p, format!("{what} to {t}"));
+                } else {
+                    let tp = Object::get_path(r.obj.as_ref());
+                    let r2 = root.content_at_path(&tp, 0, -1);
+                    if r2.approximate || !same(&r2.obj, &r.obj) {
+                        audit.fail("held-path-target", &p, format!("{what} to {t}"));
+                    }
+                }
+            }
+        }
+        audit.entries.sort();
+
+        // relative addressing between pairs of objects
+        let n = objs.len();
+        if n > 1 && max_pairs > 0 {
+            let total = n * n;
+            let stride = (total / max_pairs).max(1);
+            let mut k = offset % stride;
+            let mut done = 0;
+            while k < total && done < max_pairs {
+                let a = &objs[k / n];
+                let b = &objs[k % n];
+                k += stride;
+                if same(a, b) {
+                    continue;
+                }
+                done += 1;
+                let pa = Object::get_path(a.as_ref());
+                let pb = Object::get_path(b.as_ref());
+                if pa.is_empty() {
+                    continue;
+                }
+                let rel = Object::convert_path_to_relative(a, &pb);
+                audit.text_round_trip("relative path", &rel);
+                if rel.is_relative() {
+                    audit.relative_paths += 1;
+                }
+                let r = Object::resolve_path(a.clone(), &rel);
+                if r.approximate || !same(&r.obj, b) {
+                    audit.fail(
+                        "relative-resolves",
+                        &pa,
+                        format!("to {pb} as {rel}"),
+                    );
+                }
+                let c = Object::compact_path_string(a.clone(), &pb);
+                let c = Path::new_with_components_string(Some(&c));
+                let r = Object::resolve_path(a.clone(), &c);
+                if r.approximate || !same(&r.obj, b) {
+                    audit.fail("compact-resolves", &pa, format!("to {pb} as {c}"));
+                }
+                if rel.is_relative() {
+                    let abs = pa.path_by_appending_path(&rel);
+                    let r = root.content_at_path(&abs, 0, -1);
+                    if r.approximate || !same(&r.obj, b) {
+                        audit.fail(
+                            "appended-resolves",
+                            &pa,
+                            format!("to {pb} as {rel} gives {abs}"),
+                        );
+                    }
+                }
+                // equality agrees with the text form, and equal paths hash equally
+                let again = Path::new_with_components_string(Some(&pb.to_string()));
+                if (pa == pb) != (pa.to_string() == pb.to_string()) || again != pb {
+                    audit.fail("eq-agrees-with-text", &pa, format!("vs {pb}"));
+                }
+            }
+            audit.pairs = done;
+        }
+        audit
+    }
+}
-- 
2.43.0


From c8db5224a59c60af265e59ad1ebf4a76ee10bb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 02/54] fix: resolve nested inline conditionals and sequences
 to their own branches

---
 compiler/src/emitter/conditional.rs | 12 +++++++---
 compiler/src/emitter/expression.rs  |  4 +++-
 compiler/src/inline.rs              | 34 ++++++++++++++++++++++++++---
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..7d9b757 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -7,7 +7,11 @@ fn emit_condition(
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
         Condition::FunctionCall(name) => {
-            out.push(json!({"f()": name}));
+            let call = Expression::FunctionCall {
+                name: name.clone(),
+                args: Vec::new(),
+            };
+            emit_expression_ctx(&call, out, Some(context), Some(scope));
         }
         Condition::Expression(Expression::Variable(name))
             if scope.resolve_choice_label(name).is_some() =>
@@ -76,7 +80,7 @@ fn node_is_terminal(node: &Node) -> bool {
 fn recover_selected_text_inline_divert(selected_text: &str) -> Option<(String, String)> {
     let (text, target) = selected_text.rsplit_once("->")?;
     let target = target.trim();
-    if target.is_empty() || target.contains(' ') {
+    if target.is_empty() || target.contains([' ', '}', ')']) {
         return None;
     }
 
@@ -234,8 +238,10 @@ fn emit_switch_conditional(
     let mut branch_bodies: Vec<EmittedContainer> = Vec::new();
     for (branch_index, (_, body_nodes)) in branches.iter().enumerate() {
         let branch_array_index = switch_index + preamble_len + branch_index;
-        let branch_scope =
+        let mut branch_scope =
             scope.conditional_branch(&format!("{branch_array_index}.b"));
+        // The branch content follows the leading "pop".
+        branch_scope.param_offset = 1;
         let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..45e70cb 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -79,8 +79,10 @@ fn emit_sequence(
 
     let mut named = Map::new();
     for (index, branch) in sequence.branches.iter().enumerate() {
-        let branch_scope =
+        let mut branch_scope =
             scope.at_path(joined_path(&sequence_path, format!("s{index}")));
+        // The branch content follows the leading "pop".
+        branch_scope.param_offset = 1;
         let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..d85abc7 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -500,8 +500,11 @@ pub fn parse_inline_conditional(
     }
 
     let inner = &trimmed[1..trimmed.len() - 1];
-    let (condition, branch) = match inner.split_once(':') {
-        Some(parts) => parts,
+    if inner.starts_with(['&', '!', '~']) {
+        return Ok(None);
+    }
+    let (condition, branch) = match find_condition_colon(inner) {
+        Some(index) => (&inner[..index], &inner[index + 1..]),
         None => return Ok(None),
     };
 
@@ -513,13 +516,38 @@ pub fn parse_inline_conditional(
     )))
 }
 
+/// Position of the `:` that ends the condition of an inline conditional: outside any nested
+/// braces, parentheses or string, and before any `|` that separates alternatives.
+fn find_condition_colon(inner: &str) -> Option<usize> {
+    let bytes = inner.as_bytes();
+    let mut depth = 0usize;
+    let mut in_string = false;
+    let mut i = 0;
+    while i < bytes.len() {
+        match bytes[i] {
+            b'"' => in_string = !in_string,
+            _ if in_string => {}
+            b'{' | b'(' => depth += 1,
+            b'}' | b')' => depth = depth.saturating_sub(1),
+            b'|' if depth == 0 && bytes.get(i + 1) == Some(&b'|') => i += 1,
+            b'|' if depth == 0 => return None,
+            b':' if depth == 0 => return Some(i),
+            _ => {}
+        }
+        i += 1;
+    }
+    None
+}
+
 pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, CompilerError> {
     use crate::ast::Condition;
     match condition {
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()") {
+            if let Some(name) = condition.strip_suffix("()")
+                && name.trim().chars().all(|c| c.is_alphanumeric() || c == '_')
+            {
                 return Ok(Condition::FunctionCall(name.trim().to_owned()));
             }
 
-- 
2.43.0


From 43f91a5bdf69249e2156e3dc0847afbb48cc8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 03/54] fix: keep gathers inside labelled gathers and use the
 threaded form only where it can express the choices

---
 compiler/src/emitter/choice_threaded.rs |   4 +-
 compiler/src/emitter/choice_wrapped.rs  |  11 +-
 compiler/src/emitter/flow.rs            |  18 +---
 compiler/src/emitter/nodes.rs           | 135 +++++++-----------------
 4 files changed, 53 insertions(+), 115 deletions(-)

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index f0017e9..098a982 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -21,7 +21,7 @@ fn emit_choice_block(
                 section.choices,
                 section.continuation_nodes,
                 scope,
-                out.content.len(),
+                out.content.len() + scope.param_offset,
                 next_choice_index,
                 context,
                 fallback_continuation,
@@ -38,7 +38,7 @@ fn emit_choice_block(
                 context,
                 WrappedLoopChoiceBlockConfig {
                     loop_label,
-                    group_index: out.content.len(),
+                    group_index: out.content.len() + scope.param_offset,
                     fallback_continuation,
                 },
             )?;
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 29948b8..4768676 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -165,18 +165,19 @@ fn emit_wrapped_loop_choice_header(
     }));
 
     let mut s = Vec::new();
+    let text_scope = scope.at_path(joined_path(&scope.path, "s"));
     emit_choice_text_content(
         &choice.start_text,
         &choice.start_tags,
         &mut s,
-        scope,
+        &text_scope,
         context,
     )?;
     emit_choice_text_content(
         &choice.choice_only_text,
         &choice.choice_only_tags,
         &mut s,
-        scope,
+        &text_scope,
         context,
     )?;
     s.push(json!({"->": "$r", "var": true}));
@@ -202,6 +203,12 @@ fn emit_wrapped_loop_choice_body(
 ) -> Result<Value, CompilerError> {
     let mut branch_nodes = Vec::new();
     let mut body_already_emitted = false;
+    let mut branch_scope = branch_scope.clone();
+    if choice.has_start_content {
+        // The body follows the seven objects that print the start text (see below).
+        branch_scope.param_offset = 7;
+    }
+    let branch_scope = &branch_scope;
 
     if let Some(selected_text) = &choice.selected_text {
         let recovered_inline_divert = if choice.body.is_empty() {
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..8e55cd9 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -295,28 +295,12 @@ fn collect_choice_labels_recursive(
                 let sub_scope = scope.choice_branch(label);
                 let mut child_index = 0;
                 if *indent > 0 {
-                    let mut nested_labels = BTreeMap::new();
                     collect_choice_labels_recursive(
                         &nodes[i + 1..],
                         &sub_scope,
-                        &mut nested_labels,
+                        labels,
                         &mut child_index,
                     );
-                    let nested_prefix = format!("{}.", sub_scope.path);
-                    for (nested_label, path) in nested_labels {
-                        let path = path
-                            .strip_prefix(&nested_prefix)
-                            .and_then(|suffix| {
-                                let first = suffix.split('.').next()?;
-                                first
-                                    .strip_prefix("g-")?
-                                    .parse::<usize>()
-                                    .ok()
-                                    .map(|_| format!("{}.{}", scope.path, suffix))
-                            })
-                            .unwrap_or(path);
-                        labels.insert(nested_label, path);
-                    }
                     return;
                 }
                 let body_end = nodes[i + 1..]
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index d44c4c8..b36368a 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -6,37 +6,6 @@ fn emit_nodes(
     emit_nodes_with_continuation(nodes, scope, context, None)
 }
 
-/// Recursively replace `old_path` and its descendants with `new_path` in
-/// path-bearing runtime fields within a JSON value tree.
-fn fix_divert_paths(value: &mut Value, old_path: &str, new_path: &str) {
-    match value {
-        Value::Object(map) => {
-            for field in ["->", "x->", "*", "^->", "CNT?"] {
-                if let Some(v) = map.get_mut(field)
-                    && let Some(path) = v.as_str()
-                {
-                    if path == old_path {
-                        *v = Value::String(new_path.to_owned());
-                    } else if let Some(suffix) = path.strip_prefix(old_path)
-                        && suffix.starts_with('.')
-                    {
-                        *v = Value::String(format!("{new_path}{suffix}"));
-                    }
-                }
-            }
-            for v in map.values_mut() {
-                fix_divert_paths(v, old_path, new_path);
-            }
-        }
-        Value::Array(arr) => {
-            for v in arr.iter_mut() {
-                fix_divert_paths(v, old_path, new_path);
-            }
-        }
-        _ => {}
-    }
-}
-
 fn threaded_loop_label_for_choice_block(continuation: &[Node]) -> Option<(String, bool)> {
     let mut nodes = continuation;
     while !nodes.is_empty() && matches!(nodes[0], Node::Newline) {
@@ -152,6 +121,43 @@ fn choice_block_has_invisible_default(choices: &[Node]) -> bool {
     })
 }
 
+/// The threaded form shares one text between the choice and its outcome, so it can only express
+/// a choice whose text is the same in both, or a choice without start text.
+fn choice_can_be_threaded(node: &Node) -> bool {
+    let Node::Choice(choice) = node else {
+        return false;
+    };
+    !choice.has_start_content
+        || (!choice.has_choice_only_content
+            && choice.selected_text.as_deref() == Some(choice.start_text.as_str())
+            && choice.selected_tags.is_empty()
+            && !choice.start_text.contains('{'))
+}
+
+/// Labels are addressed by the path they have in the flat form.
+fn nodes_contain_label(nodes: &[Node]) -> bool {
+    nodes.iter().any(|node| match node {
+        Node::Choice(choice) => choice.label.is_some() || nodes_contain_label(&choice.body),
+        Node::GatherLabel { .. } => true,
+        Node::Conditional {
+            when_true,
+            when_false,
+            ..
+        } => {
+            nodes_contain_label(when_true)
+                || when_false.as_deref().is_some_and(nodes_contain_label)
+        }
+        Node::SwitchConditional { branches, .. } => branches
+            .iter()
+            .any(|(_, branch_nodes)| nodes_contain_label(branch_nodes)),
+        Node::Sequence(sequence) => sequence
+            .branches
+            .iter()
+            .any(|branch| nodes_contain_label(branch)),
+        _ => false,
+    })
+}
+
 fn should_use_threaded_anon_gather(
     choices: &[Node],
     continuation: &[Node],
@@ -170,6 +176,9 @@ fn should_use_threaded_anon_gather(
     if !scope.path.contains('.')
         || choice_block_contains_nested_choices(choices)
         || choice_block_has_invisible_default(choices)
+        || !choices.iter().all(choice_can_be_threaded)
+        || nodes_contain_label(choices)
+        || nodes_contain_label(continuation)
     {
         return false;
     }
@@ -231,24 +240,6 @@ fn analyze_weave_choice_section<'a>(
     }
 }
 
-/// Replace any divert to `self_path` immediately before the terminator of a
-/// JSON array with `"done"`, to avoid self-referential loops after hoisting.
-fn replace_self_divert_with_done(value: &mut Value, self_path: &str) {
-    let Value::Array(arr) = value else { return };
-    // The array ends with either null or a terminator object (last element).
-    // Check the element just before the terminator.
-    let n = arr.len();
-    if n < 2 {
-        return;
-    }
-    let candidate = n - 2; // element just before terminator
-    if let Value::Object(map) = &arr[candidate]
-        && map.get("->").and_then(Value::as_str) == Some(self_path)
-    {
-        arr[candidate] = json!("done");
-    }
-}
-
 fn emit_nodes_with_continuation(
     nodes: &[Node],
     scope: &EmitScope,
@@ -461,34 +452,12 @@ fn emit_nodes_with_continuation(
                 if *indent > 0 {
                     let remaining = &nodes[index + 1..];
                     let sub_scope = scope.choice_branch(label);
-                    let mut sub_container = emit_nodes_with_continuation(
+                    let sub_container = emit_nodes_with_continuation(
                         remaining,
                         &sub_scope,
                         context,
                         fallback_continuation,
                     )?;
-                    let g_keys: Vec<String> = sub_container
-                        .named
-                        .keys()
-                        .filter(|key| key.starts_with("g-"))
-                        .cloned()
-                        .collect();
-                    for key in &g_keys {
-                        let old_path = format!("{}.{}", sub_scope.path, key);
-                        let new_path = format!("{}.{}", scope.path, key);
-                        for value in sub_container.content.iter_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                        for value in sub_container.named.values_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                    }
-                    for key in g_keys {
-                        let mut value = sub_container.named.remove(&key).unwrap();
-                        let hoisted_path = format!("{}.{}", scope.path, key);
-                        replace_self_divert_with_done(&mut value, &hoisted_path);
-                        out.insert_named(key, value);
-                    }
                     let gather_path = format!("{}.{}", scope.path, label);
                     let count_flags = gather_count_flags(&gather_path, context);
                     out.push(sub_container.into_json_array(Some(label), count_flags)?);
@@ -555,28 +524,6 @@ fn emit_nodes_with_continuation(
                         sub_container.push(token);
                     }
 
-                    let g_keys: Vec<String> = sub_container
-                        .named
-                        .keys()
-                        .filter(|key| key.starts_with("g-"))
-                        .cloned()
-                        .collect();
-                    for key in &g_keys {
-                        let old_path = format!("{}.{}", sub_scope.path, key);
-                        let new_path = format!("{}.{}", scope.path, key);
-                        for value in sub_container.content.iter_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                        for value in sub_container.named.values_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                    }
-                    for key in g_keys {
-                        let mut value = sub_container.named.remove(&key).unwrap();
-                        let hoisted_path = format!("{}.{}", scope.path, key);
-                        replace_self_divert_with_done(&mut value, &hoisted_path);
-                        out.insert_named(key, value);
-                    }
 
                     let gather_path = format!("{}.{}", scope.path, gather_label);
                     let count_flags = gather_count_flags(&gather_path, context);
-- 
2.43.0


From 1b9395d76ac28d2d977d730cd23358dd7bf9d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 04/54] fix: compile conditional text, tunnels and tunnel
 returns on choice lines

---
 compiler/src/ast.rs                |  2 ++
 compiler/src/emitter/expression.rs | 12 ++++++++++--
 compiler/src/inline.rs             | 13 ++++++++++++-
 compiler/src/parser/choice.rs      | 11 ++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..8207f66 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -58,6 +58,8 @@ pub enum DynamicStringPart {
     Text(String),
     Expression(Expression),
     Sequence(Sequence),
+    /// An inline conditional.
+    Content(Vec<Node>),
 }
 
 #[derive(Debug, Clone, PartialEq, Default)]
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 45e70cb..9f229fa 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -247,7 +247,9 @@ fn emit_expression_ctx(
             let has_expressions = dynamic.parts.iter().any(|p| {
                 matches!(
                     p,
-                    DynamicStringPart::Expression(_) | DynamicStringPart::Sequence(_)
+                    DynamicStringPart::Expression(_)
+                        | DynamicStringPart::Sequence(_)
+                        | DynamicStringPart::Content(_)
                 )
             });
             if !has_expressions {
@@ -278,7 +280,7 @@ fn emit_expression_ctx(
                             out.push(json!("out"));
                             out.push(json!("/ev"));
                         }
-                        DynamicStringPart::Sequence(_) => {
+                        DynamicStringPart::Sequence(_) | DynamicStringPart::Content(_) => {
                             // Sequences inside string literals not supported here; emit raw
                             out.push(json!(format!("^{value}")));
                         }
@@ -504,6 +506,12 @@ fn emit_dynamic_string_parts(
             )?);
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
+        DynamicStringPart::Content(nodes) => {
+            let mut content_scope = scope.clone();
+            content_scope.param_offset += out.len();
+            out.extend(emit_nodes(nodes, &content_scope, context)?.content);
+            emit_dynamic_string_parts(&parts[1..], out, scope, context)
+        }
     }
 }
 
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index d85abc7..459bbb9 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -161,7 +161,11 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
             }
 
             let inner = &input[index + 1..end];
-            if let Some(sequence) = parse_inline_sequence(inner)? {
+            if parse_inline_conditional(&input[index..=end])?.is_some() {
+                parts.push(DynamicStringPart::Content(tokenize_inline_content(
+                    &input[index..=end],
+                )?));
+            } else if let Some(sequence) = parse_inline_sequence(inner)? {
                 parts.push(DynamicStringPart::Sequence(sequence));
             } else {
                 parts.push(DynamicStringPart::Expression(parse_expression(inner)?));
@@ -516,6 +520,13 @@ pub fn parse_inline_conditional(
     )))
 }
 
+/// Whether the inside of a leading `{...}` of a choice is a condition rather than text that varies.
+pub fn is_condition_only(inner: &str) -> bool {
+    find_condition_colon(inner).is_none()
+        && !inner.starts_with(['&', '!', '~'])
+        && !inner.replace("||", "").contains('|')
+}
+
 /// Position of the `:` that ends the condition of an inline conditional: outside any nested
 /// braces, parentheses or string, and before any `|` that separates alternatives.
 fn find_condition_colon(inner: &str) -> Option<usize> {
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..cc114df 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -132,7 +132,12 @@ pub fn parse_choice(
         body.push(node);
     }
     if let Some(divert) = choice_text.inline_target.clone() {
-        body.push(Node::Divert(divert));
+        if divert.target.contains("->") {
+            // A tunnel or a tunnel return: `* [text] -> tunnel ->`, `* [text] ->->`
+            body.extend(parse_divert_line(&format!("->{}", divert.target))?);
+        } else {
+            body.push(Node::Divert(divert));
+        }
     }
 
     while *line_index < lines.len() {
@@ -287,6 +292,10 @@ pub fn parse_choice_prefixes(
         let end = after_open.find('}').ok_or_else(|| {
             CompilerError::invalid_source("choice condition is missing '}'".to_owned())
         })?;
+        if !super::inline::is_condition_only(&after_open[..end]) {
+            // `* {cond: text}` and `* {a|b}` are choice text, not conditions.
+            break;
+        }
         conditions.push(super::inline::parse_condition(after_open[..end].trim())?);
         remainder = after_open[end + 1..].trim_start();
     }
-- 
2.43.0


From 1f01cd786549853a5f7ac3f42b590b61a751c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:01 +0000
Subject: [PATCH 05/54] fix: join choice text as written and keep an inline
 divert on its line

---
 compiler/src/emitter/choice.rs         |  8 ++----
 compiler/src/emitter/choice_wrapped.rs |  8 ++----
 compiler/src/inline.rs                 |  2 +-
 compiler/src/parser/choice.rs          | 35 ++++----------------------
 4 files changed, 10 insertions(+), 43 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 34deadf..4d305c9 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -76,13 +76,9 @@ fn emit_choice(
             // Skip the auto-newline for terminal diverts, and also for inline diverts that are
             // authored after inline selected text on the same source line (the selected text keeps
             // the trailing whitespace needed to join the diverted content).
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+                && choice.body_divert_is_inline;
+            if !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 4768676..a1daacf 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -239,13 +239,9 @@ fn emit_wrapped_loop_choice_body(
         }
         branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
         if !body_already_emitted && !choice.has_start_content {
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+                && choice.body_divert_is_inline;
+            if !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 459bbb9..5dd9685 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -396,7 +396,7 @@ pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
 
 pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Option<Divert>), CompilerError> {
     if let Some((text, divert_part)) = split_inline_divert(input) {
-        return Ok((text.trim_end(), Some(parse_divert(divert_part)?)));
+        return Ok((text, Some(parse_divert(divert_part)?)));
     }
 
     Ok((input, None))
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index cc114df..ab40fd9 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -8,8 +8,7 @@ use super::inline::parse_divert_line;
 use super::{
     Line, ParsedStatement,
     inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
-        split_text_and_tags,
+        parse_condition, parse_divert, split_inline_choice_divert, split_text_and_tags,
     },
 };
 
@@ -404,24 +403,10 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
 
     if let Some((before, after)) = trimmed.split_once("[]") {
         let display = before.trim_end().to_owned();
-        let raw_suffix = after.trim_start();
-        let had_space_before_inline_divert = split_inline_divert(raw_suffix)
-            .and_then(|(text, _)| text.chars().last())
-            .is_some_and(char::is_whitespace);
+        let raw_suffix = after;
         let (suffix, inline_target) = split_inline_choice_divert(raw_suffix)?;
-        let suffix = if inline_target.is_some() && had_space_before_inline_divert {
-            format!("{suffix} ")
-        } else {
-            suffix.to_owned()
-        };
         let (start_text, start_tags) = split_text_and_tags(&display)?;
-        let selected = if suffix.is_empty() {
-            Some(display.clone())
-        } else if suffix.starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'') {
-            Some(format!("{display}{suffix}"))
-        } else {
-            Some(format!("{display} {suffix}"))
-        };
+        let selected = Some(format!("{before}{suffix}"));
         let (selected_text, selected_tags) =
             split_text_and_tags(selected.as_deref().unwrap_or(""))?;
         return Ok(ParsedChoiceText {
@@ -445,7 +430,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         let close = open + 1 + close_rel;
         let start = &trimmed[..open];
         let choice_only = trimmed[open + 1..close].trim();
-        let end = trimmed[close + 1..].trim_start();
+        let end = &trimmed[close + 1..];
         let (end, inline_target) = split_inline_choice_divert(end)?;
         let (start_text, start_tags) = split_text_and_tags(start)?;
         let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
@@ -464,17 +449,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         };
         let choice_only_text = format!("{choice_only_text}{display_suffix}");
         let display = format!("{start_text}{choice_only_text}");
-        let selected_text = if end_text.is_empty() {
-            start_text.trim_end().to_owned()
-        } else if start_text.trim().is_empty() {
-            end_text
-        } else if end_text
-            .starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'' && c != '{')
-        {
-            format!("{}{}", start_text.trim_end(), end_text)
-        } else {
-            format!("{} {}", start_text.trim_end(), end_text)
-        };
+        let selected_text = format!("{start_text}{end_text}");
         let mut selected_tags = start_tags.clone();
         selected_tags.extend(end_tags);
         return Ok(ParsedChoiceText {
-- 
2.43.0


From e32aacd48441f839e602b08b973f5b7daeda0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:19 +0000
Subject: [PATCH 06/54] fix: keep path text, equality and hash consistent for
 relative paths

---
 runtime/src/path.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..158b5ae 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -53,6 +53,11 @@ impl Path {
         if cs.starts_with('.') {
             is_relative = true;
             cs = cs[1..].to_string();
+
+            // "." is the path to the object itself
+            if cs.is_empty() {
+                return Path::get_self();
+            }
         } else {
             is_relative = false;
         }
@@ -69,13 +74,12 @@ impl Path {
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
+        // The text is generated from the components when needed, so that
+        // equal paths always have the same text (and hash).
         Path {
             components,
             is_relative,
-            components_string: cs_cell,
+            ..Default::default()
         }
     }
 
@@ -133,7 +137,7 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
-- 
2.43.0


From 1e8100836cc001c260ac24fc64eee91cb1b959f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 07/54] fix: wrap integer arithmetic and report division by
 zero as an error

---
 runtime/src/native_function_call.rs | 45 ++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..ab81b49 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -252,8 +252,17 @@ impl NativeFunctionCall {
             return Ok(self.call_list_increment_operation(params));
         }
 
-        let v1 = params[0].clone().into_any().downcast::<Value>().unwrap();
-        let v2 = params[1].clone().into_any().downcast::<Value>().unwrap();
+        let (Ok(v1), Ok(v2)) = (
+            params[0].clone().into_any().downcast::<Value>(),
+            params[1].clone().into_any().downcast::<Value>(),
+        ) else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Can not call use '{}' operation on {} and {}",
+                Self::get_name(self.op),
+                params[0],
+                params[1]
+            )));
+        };
 
         // And/or with any other type requires coercion to bool
         if (self.op == Op::And || self.op == Op::Or)
@@ -297,9 +306,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +554,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +580,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +617,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(op2) => match op1.checked_div(op2) {
+                    Some(result) => Ok(Rc::new(Value::new::<i32>(result))),
+                    None => Err(Self::division_error(op1, op2)),
+                },
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +662,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -847,10 +859,23 @@ impl NativeFunctionCall {
         }
     }
 
+    fn division_error(op1: i32, op2: i32) -> StoryError {
+        let message = if op2 == 0 {
+            "Attempted to divide by zero".to_owned()
+        } else {
+            format!("Arithmetic overflow dividing {op1} by {op2}")
+        };
+
+        StoryError::InvalidStoryState(message)
+    }
+
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(op2) => match op1.checked_rem(op2) {
+                    Some(result) => Ok(Rc::new(Value::new::<i32>(result))),
+                    None => Err(Self::division_error(op1, op2)),
+                },
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +1009,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
-- 
2.43.0


From 2ac4568fe0d1af76c0767076f4a827a745586461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 08/54] fix: make list order, ties and origins deterministic
 and never mutate a shared list value

---
 runtime/src/ink_list.rs        | 34 +++++++++++++--------------
 runtime/src/list_definition.rs | 12 +++++-----
 runtime/src/value.rs           | 42 ++++++++++++++++++++++++++--------
 runtime/src/variables_state.rs | 21 +++++++++--------
 4 files changed, 68 insertions(+), 41 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..9075b0b 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,21 +59,19 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
         ink_list
     }
 
-    fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
+    pub(crate) fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
         let mut ordered: Vec<_> = self.items.iter().collect();
         ordered.sort_by(|a, b| {
-            if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
-            } else {
-                a.1.cmp(b.1)
-            }
+            a.1.cmp(b.1)
+                .then_with(|| a.0.get_origin_name().cmp(&b.0.get_origin_name()))
+                .then_with(|| a.0.get_item_name().cmp(b.0.get_item_name()))
         });
         ordered
     }
@@ -81,8 +79,8 @@ impl InkList {
     pub fn get_max_item(&self) -> Option<(&InkListItem, i32)> {
         let mut max: Option<(&InkListItem, i32)> = None;
 
-        for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
+        for (k, v) in self.get_ordered_items() {
+            if max.is_none_or(|max| *v > max.1) {
                 max = Some((k, *v));
             }
         }
@@ -93,8 +91,8 @@ impl InkList {
     pub fn get_min_item(&self) -> Option<(&InkListItem, i32)> {
         let mut min: Option<(&InkListItem, i32)> = None;
 
-        for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
+        for (k, v) in self.get_ordered_items() {
+            if min.is_none_or(|min| *v < min.1) {
                 min = Some((k, *v));
             }
         }
@@ -108,11 +106,13 @@ impl InkList {
 
     pub fn get_origin_names(&self) -> Vec<String> {
         if !self.items.is_empty() {
-            let mut names = Vec::new();
-
-            for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
-            }
+            let mut names: Vec<String> = self
+                .items
+                .keys()
+                .filter_map(|k| k.get_origin_name().cloned())
+                .collect();
+            names.sort();
+            names.dedup();
 
             return names;
         }
@@ -220,7 +220,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..7bc2532 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,11 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
-        for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
-            }
-        }
-        None
+        self.item_name_to_values
+            .iter()
+            .filter(|(_, value)| **value == val)
+            .map(|(item_name, _)| item_name)
+            .min()
+            .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..2c9eb22 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -1,4 +1,4 @@
-use std::fmt;
+use std::{fmt, rc::Rc};
 
 use crate::{
     ink_list::InkList,
@@ -187,13 +187,25 @@ impl Value {
         }
     }
 
-    pub fn retain_list_origins_for_assignment(old_value: &dyn RTObject, new_value: &dyn RTObject) {
-        if let Some(old_list) = Self::get_value::<&InkList>(old_value)
-            && let Some(new_list) = Self::get_value::<&InkList>(new_value)
-            && new_list.items.is_empty()
-        {
-            new_list.set_initial_origin_names(old_list.get_origin_names());
+    /// An empty list takes the origins of the list it replaces: returns the
+    /// value to assign in place of `new_value` when that is the case. It's a new
+    /// value since `new_value` can be shared with other variables or belong to
+    /// the content of the story.
+    pub fn retain_list_origins_for_assignment(
+        old_value: &dyn RTObject,
+        new_value: &dyn RTObject,
+    ) -> Option<Rc<Value>> {
+        let old_list = Self::get_value::<&InkList>(old_value)?;
+        let new_list = Self::get_value::<&InkList>(new_value)?;
+
+        if !new_list.items.is_empty() {
+            return None;
         }
+
+        let list = new_list.clone();
+        list.set_initial_origin_names(old_list.get_origin_names());
+
+        Some(Rc::new(Value::new::<InkList>(list)))
     }
 
     pub fn get_cast_ordinal(&self) -> u8 {
@@ -268,8 +280,20 @@ impl Value {
                 )),
             },
             ValueType::String(v) => match cast_dest_type {
-                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().unwrap()))),
-                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().unwrap()))),
+                CAST_INT => match v.string.parse::<i32>() {
+                    Ok(i) => Ok(Some(Self::new::<i32>(i))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Cannot convert the string '{}' to an int",
+                        v.string
+                    ))),
+                },
+                CAST_FLOAT => match v.string.parse::<f32>() {
+                    Ok(f) => Ok(Some(Self::new::<f32>(f))),
+                    Err(_) => Err(StoryError::InvalidStoryState(format!(
+                        "Cannot convert the string '{}' to a float",
+                        v.string
+                    ))),
+                },
                 CAST_STRING => Ok(None),
                 _ => Err(StoryError::InvalidStoryState(
                     "Cast not allowed for string".to_owned(),
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..3f9fc6e 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     rc::Rc,
 };
 
@@ -49,18 +49,18 @@ impl VariablesState {
         self.changed_variables_for_batch_obs = Some(HashSet::new());
     }
 
-    pub fn complete_variable_observation(&mut self) -> HashMap<String, ValueType> {
+    pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = HashMap::with_capacity(0);
+        let mut changed_vars = BTreeMap::new();
 
         // Finished observing variables in a batch - now send
         // notifications for changed variables all in one go.
         if let Some(changed_variables_for_batch_obs) = self.changed_variables_for_batch_obs.take() {
             for variable_name in changed_variables_for_batch_obs {
-                let current_value = self.global_variables.get(&variable_name).unwrap();
-
-                changed_vars.insert(variable_name, current_value.value.clone());
+                if let Some(current_value) = self.global_variables.get(&variable_name) {
+                    changed_vars.insert(variable_name, current_value.value.clone());
+                }
             }
         }
 
@@ -278,7 +278,7 @@ impl VariablesState {
     }
 
     // Returns true if global var has changed and we need to notify observers
-    fn set_global(&mut self, name: &str, value: Rc<Value>) -> bool {
+    fn set_global(&mut self, name: &str, mut value: Rc<Value>) -> bool {
         let mut old_value: Option<Rc<Value>> = None;
 
         if let Some(patch) = &self.patch {
@@ -289,8 +289,11 @@ impl VariablesState {
             old_value = self.global_variables.get(name).cloned();
         }
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
+        if let Some(old_value) = &old_value
+            && let Some(retained) =
+                Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref())
+        {
+            value = retained;
         }
 
         if let Some(patch) = &mut self.patch {
-- 
2.43.0


From 4b51bb7e832f8c3514c8c742a99c257df22b206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 09/54] fix: do not keep diverted-to content alive from diverts
 and resolve targets exactly

---
 runtime/src/choice_point.rs       |  6 ++-
 runtime/src/divert.rs             | 71 +++++++++++++++----------------
 runtime/src/variable_reference.rs |  7 +--
 3 files changed, 43 insertions(+), 41 deletions(-)

diff --git a/runtime/src/choice_point.rs b/runtime/src/choice_point.rs
index 05b1d32..f61c319 100644
--- a/runtime/src/choice_point.rs
+++ b/runtime/src/choice_point.rs
@@ -33,7 +33,11 @@ impl ChoicePoint {
     }
 
     pub fn get_choice_target(self: &Rc<Self>) -> Option<Rc<Container>> {
-        Object::resolve_path(self.clone(), &self.path_on_choice.borrow()).container()
+        Object::resolve_path(self.clone(), &self.path_on_choice.borrow())
+            .correct_obj()?
+            .into_any()
+            .downcast::<Container>()
+            .ok()
     }
 
     pub fn get_flags(&self) -> i32 {
diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..8e5cc5b 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,16 +1,22 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
     object::{Object, RTObject},
     path::{Component, Path},
-    pointer::{self, Pointer},
+    pointer::Pointer,
     push_pop::PushPopType,
+    story_error::StoryError,
 };
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    // Weak because the divert lives inside the content it points into
+    target_pointer: RefCell<Option<(Weak<Container>, i32)>>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +43,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new(None),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -79,40 +85,31 @@ impl Divert {
         }
     }
 
-    pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
-
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
-            }
+    pub fn get_target_pointer(self: &Rc<Self>) -> Result<Pointer, StoryError> {
+        if let Some((container, index)) = self.target_pointer.borrow().as_ref()
+            && let Some(container) = container.upgrade()
+        {
+            return Ok(Pointer::new(Some(container), *index));
         }
 
-        self.target_pointer.borrow().clone()
+        let (container, index) = self.resolve_target().ok_or_else(|| {
+            StoryError::InvalidStoryState(format!("Divert resolution failed: {self}"))
+        })?;
+        self.target_pointer
+            .replace(Some((Rc::downgrade(&container), index)));
+
+        Ok(Pointer::new(Some(container), index))
+    }
+
+    fn resolve_target(self: &Rc<Self>) -> Option<(Rc<Container>, i32)> {
+        let target_path = self.target_path.borrow().clone()?;
+        let last_component = target_path.get_last_component()?;
+        let target_obj = Object::resolve_path(self.clone(), &target_path).correct_obj()?;
+
+        match last_component.index {
+            Some(index) => Some((target_obj.get_object().get_parent()?, index as i32)),
+            None => Some((target_obj.into_any().downcast::<Container>().ok()?, 0)),
+        }
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
@@ -122,7 +119,7 @@ impl Divert {
         match current_target {
             Some(target_path) => {
                 if target_path.is_relative() {
-                    let target_obj = self.get_target_pointer().resolve();
+                    let target_obj = self.get_target_pointer().ok().and_then(|p| p.resolve());
 
                     if let Some(target_obj) = target_obj {
                         let resolved = Object::get_path(target_obj.as_ref());
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..b2ce32f 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,10 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
-                .container()
-                .unwrap())
+            Object::resolve_path(self.clone(), path)
+                .correct_obj()
+                .and_then(|obj| obj.into_any().downcast::<Container>().ok())
+                .ok_or_else(|| format!("Failed to find container for read count lookup at {path}"))
         } else {
             Err("Path for count is not set.".to_owned())
         }
-- 
2.43.0


From 5561f210d32766ed3be92d0395a24335664160d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 10/54] fix: report errors and warnings once, when the line
 they belong to completes

---
 runtime/src/story/mod.rs      | 21 ++++++++---
 runtime/src/story/progress.rs | 68 +++++++++++++++++------------------
 runtime/src/story_state.rs    | 47 ++++++++++++++++++------
 3 files changed, 86 insertions(+), 50 deletions(-)

diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index b8b3c30..06ac064 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -126,7 +126,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -136,10 +136,14 @@ mod misc {
                     ));
                 };
 
-            let seq_container = self.get_state().get_current_pointer().container.unwrap();
+            let Some(seq_container) = self.get_state().get_current_pointer().container else {
+                return Err(StoryError::InvalidStoryState(
+                    "No current container to shuffle the sequence of".to_owned(),
+                ));
+            };
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
@@ -148,6 +152,13 @@ mod misc {
                 ));
             };
 
+            if num_elements <= 0 || seq_count < 0 {
+                return Err(StoryError::InvalidStoryState(
+                    "Expected a number of elements and a count to get the shuffle index of"
+                        .to_owned(),
+                ));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
@@ -157,7 +168,9 @@ mod misc {
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
             let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 684e13e..03b6ef9 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,12 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,11 +83,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
@@ -205,57 +206,52 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // An unfinished line isn't reported yet, since it may be rewound and
+        // evaluated again.
+        let mut result = Ok(());
+        if !self.async_continue_active {
+            let errors = self.get_state().get_unreported_errors().to_vec();
+            let warnings = self.get_state().get_unreported_warnings().to_vec();
+
             match &self.on_error {
                 Some(on_err) => {
-                    if self.get_state().has_error() {
-                        for err in self.get_state().get_current_errors() {
-                            on_err.borrow_mut().error(err, ErrorType::Error);
-                        }
-                    }
+                    let on_err = on_err.clone();
+                    self.reset_errors();
 
-                    if self.get_state().has_warning() {
-                        for err in self.get_state().get_current_warnings() {
-                            on_err.borrow_mut().error(err, ErrorType::Warning);
-                        }
+                    for err in &errors {
+                        on_err.borrow_mut().error(err, ErrorType::Error);
                     }
 
-                    self.reset_errors();
+                    for err in &warnings {
+                        on_err.borrow_mut().error(err, ErrorType::Warning);
+                    }
                 }
-                // No error handler: throw for errors, silently discard warnings
+                // No error handler: throw for errors, warnings can only be read
                 None => {
-                    if self.get_state().has_error() {
+                    self.get_state_mut().mark_errors_as_reported();
+
+                    if !errors.is_empty() {
                         let mut sb = String::new();
                         sb.push_str("Ink had ");
-                        sb.push_str(&self.get_state().get_current_errors().len().to_string());
-                        if self.get_state().get_current_errors().len() == 1 {
+                        sb.push_str(&errors.len().to_string());
+                        if errors.len() == 1 {
                             sb.push_str(" error");
                         } else {
                             sb.push_str(" errors");
                         }
-                        if self.get_state().has_warning() {
+                        if !warnings.is_empty() {
                             sb.push_str(" and ");
-                            sb.push_str(
-                                self.get_state()
-                                    .get_current_warnings()
-                                    .len()
-                                    .to_string()
-                                    .as_str(),
-                            );
-                            if self.get_state().get_current_warnings().len() == 1 {
+                            sb.push_str(warnings.len().to_string().as_str());
+                            if warnings.len() == 1 {
                                 sb.push_str(" warning");
                             } else {
                                 sb.push_str(" warnings");
                             }
                         }
                         sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
-                        sb.push_str(self.get_state().get_current_errors()[0].as_str());
-                        return Err(StoryError::InvalidStoryState(sb));
+                        sb.push_str(errors[0].as_str());
+                        result = Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
-                    // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
                 }
             }
         }
@@ -267,7 +263,7 @@ impl Story {
             }
         }
 
-        Ok(())
+        result
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..9d39581 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -43,6 +43,9 @@ pub(crate) struct StoryState {
     main_content_container: Rc<Container>,
     current_errors: Vec<String>,
     current_warnings: Vec<String>,
+    // How many of the errors and warnings above the host was already told of
+    reported_errors: usize,
+    reported_warnings: usize,
     current_text: Option<String>,
     patch: Option<StatePatch>,
     named_flows: Option<HashMap<String, Flow>>,
@@ -78,6 +81,8 @@ impl StoryState {
             main_content_container,
             current_errors: Vec::with_capacity(0),
             current_warnings: Vec::with_capacity(0),
+            reported_errors: 0,
+            reported_warnings: 0,
             current_text: None,
             patch: None,
             named_flows: None,
@@ -97,7 +102,7 @@ impl StoryState {
     }
 
     pub fn can_continue(&self) -> bool {
-        !self.get_current_pointer().is_null() && !self.has_error()
+        !self.get_current_pointer().is_null() && self.get_unreported_errors().is_empty()
     }
 
     pub fn has_error(&self) -> bool {
@@ -171,6 +176,19 @@ impl StoryState {
         &self.current_warnings
     }
 
+    pub fn get_unreported_errors(&self) -> &[String] {
+        &self.current_errors[self.reported_errors..]
+    }
+
+    pub fn get_unreported_warnings(&self) -> &[String] {
+        &self.current_warnings[self.reported_warnings..]
+    }
+
+    pub fn mark_errors_as_reported(&mut self) {
+        self.reported_errors = self.current_errors.len();
+        self.reported_warnings = self.current_warnings.len();
+    }
+
     pub fn get_output_stream(&self) -> &Vec<Rc<dyn RTObject>> {
         &self.current_flow.output_stream
     }
@@ -369,8 +387,7 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
-                if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
+                if let Some(def) = self.list_definitions.get_list_definition(name) {
                     list.origins.borrow_mut().push(def.clone());
                 }
             }
@@ -816,6 +833,9 @@ impl StoryState {
             copy.current_warnings = self.current_warnings.clone();
         }
 
+        copy.reported_errors = self.reported_errors;
+        copy.reported_warnings = self.reported_warnings;
+
         // ref copy - exactly the same variables state!
         // we're expecting not to read it only while in patch mode
         // (though the callstack will be modified)
@@ -896,18 +916,23 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState("Tried to pop from an empty evaluation stack".to_owned())
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
-        let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let Some(start) = self.evaluation_stack.len().checked_sub(number_of_objects) else {
+            return Err(StoryError::InvalidStoryState(
+                "Tried to pop too many objects from the evaluation stack".to_owned(),
+            ));
+        };
 
-        obj
+        Ok(self.evaluation_stack.drain(start..).collect())
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1070,7 +1095,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
@@ -1474,5 +1499,7 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
+        self.mark_errors_as_reported();
     }
 }
-- 
2.43.0


From fdce9a19782f3d1dde2e4c96efeac7e49cda3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:44 +0000
Subject: [PATCH 11/54] fix: report story faults as errors instead of panicking

---
 runtime/src/callstack.rs                |  35 ++++---
 runtime/src/story/choices.rs            |  47 +++++-----
 runtime/src/story/control_logic.rs      | 118 +++++++++++++++---------
 runtime/src/story/external_functions.rs |   2 +-
 4 files changed, 122 insertions(+), 80 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..5513219 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -171,12 +171,10 @@ impl Thread {
         thread.insert("callstack".to_owned(), serde_json::Value::Array(cs_array));
         thread.insert("threadIndex".to_owned(), json!(self.thread_index));
 
-        if !self.previous_pointer.is_null() {
+        if let Some(previous_content_obj) = self.previous_pointer.resolve() {
             thread.insert(
                 "previousContentObject".to_owned(),
-                json!(
-                    Object::get_path(self.previous_pointer.resolve().unwrap().as_ref()).to_string()
-                ),
+                json!(Object::get_path(previous_content_obj.as_ref()).to_string()),
             );
         }
 
@@ -320,7 +318,7 @@ impl CallStack {
     pub fn set_temporary_variable(
         &mut self,
         name: String,
-        value: Rc<Value>,
+        mut value: Rc<Value>,
         declare_new: bool,
         mut context_index: i32,
     ) -> Result<(), StoryError> {
@@ -328,10 +326,15 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self
-            .get_callstack_mut()
-            .get_mut((context_index - 1) as usize)
-            .unwrap();
+        let Some(context_element) = usize::try_from(context_index - 1)
+            .ok()
+            .and_then(|index| self.get_callstack_mut().get_mut(index))
+        else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Could not find temporary variable to set: {}",
+                name
+            )));
+        };
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -342,8 +345,11 @@ impl CallStack {
 
         let old_value = context_element.temporary_variables.get(&name).cloned();
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
+        if let Some(old_value) = &old_value
+            && let Some(retained) =
+                Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref())
+        {
+            value = retained;
         }
 
         context_element.temporary_variables.insert(name, value);
@@ -377,10 +383,11 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        let context_element = self
+            .get_callstack()
+            .get(usize::try_from(context_index - 1).ok()?)?;
 
-        var_value.cloned()
+        context_element.temporary_variables.get(name).cloned()
     }
 
     pub fn push(
diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..0791051 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -55,7 +55,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -66,18 +66,22 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
-            let visit_count = self
-                .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+            let Some(target) = choice_point.get_choice_target() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Failed to find the content of the choice at {}",
+                    Object::get_path(choice_point.as_ref())
+                )));
+            };
+            let visit_count = self.get_state_mut().visit_count_for_container(&target);
             if visit_count > 0 {
                 show_choice = false;
             }
@@ -154,28 +158,25 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let Some(choice_only_str_val) = Value::get_value::<&StringValue>(obj.as_ref()) else {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Expected the text of a choice but found {}",
+                obj
+            )));
+        };
 
-        while !self.get_state().evaluation_stack.is_empty()
-            && self
-                .get_state()
-                .peek_evaluation_stack()
-                .unwrap()
-                .as_any()
-                .is::<Tag>()
+        while let Some(Ok(tag)) = self
+            .get_state()
+            .peek_evaluation_stack()
+            .map(|o| o.clone().into_any().downcast::<Tag>())
         {
-            let tag = self
-                .get_state_mut()
-                .pop_evaluation_stack()
-                .into_any()
-                .downcast::<Tag>()
-                .unwrap();
+            self.get_state_mut().pop_evaluation_stack()?;
             tags.insert(0, tag.get_text().clone()); // popped in reverse
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..5d85f74 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -3,7 +3,6 @@ use crate::{
     control_command::{CommandType, ControlCommand},
     divert::Divert,
     ink_list::InkList,
-    ink_list_item::InkListItem,
     native_function_call::NativeFunctionCall,
     object::RTObject,
     path::Path,
@@ -38,7 +37,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -78,14 +77,16 @@ impl Story {
                     )));
                 }
             } else if current_divert.is_external {
-                self.call_external_function(
-                    &current_divert.get_target_path_string().unwrap(),
-                    current_divert.external_args,
-                )?;
+                let function_name = current_divert
+                    .get_target_path()
+                    .map(|path| path.to_string())
+                    .unwrap_or_default();
+                self.call_external_function(&function_name, current_divert.external_args)?;
                 return Ok(true);
             } else {
+                let target_pointer = current_divert.get_target_pointer()?;
                 self.get_state_mut()
-                    .set_diverted_pointer(current_divert.get_target_pointer());
+                    .set_diverted_pointer(target_pointer);
             }
 
             if current_divert.pushes_to_stack {
@@ -123,7 +124,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +148,15 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let Some(obj) = self.get_state().peek_evaluation_stack().cloned() else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Tried to duplicate the top of an empty evaluation stack".to_owned(),
+                        ));
+                    };
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +167,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -216,7 +221,7 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap()
+                            expected.unwrap_or_else(|| "end of the function called by the game".to_owned())
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -301,7 +306,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +361,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -383,26 +388,31 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
-                    if random_range <= 0 {
+                    if max_value < min_value {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
                             min_value, max_value
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    // The range can exceed an i32, up to the 2^32 values of all of them
+                    let random_range = max_value as i64 - min_value as i64 + 1;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
-                    let chosen_value = (next_random % random_range as u32) as i32 + min_value;
+                    let chosen_value =
+                        (next_random as i64 % random_range + min_value as i64) as i32;
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -420,7 +430,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc = self.get_state().get_current_pointer().container.unwrap();
+                    let Some(cpc) = self.get_state().get_current_pointer().container else {
+                        return Err(StoryError::InvalidStoryState(
+                            "No current container to get the visit index of".to_owned(),
+                        ));
+                    };
                     let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
                     // not count
                     self.get_state_mut()
@@ -455,16 +469,23 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
 
+                    let Some(list_name_val) = list_name_val else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Expected the name of a List when creating a list element from a numerical value."
+                                .to_owned(),
+                        ));
+                    };
+
                     if int_val.is_none() {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
@@ -473,7 +494,7 @@ impl Story {
                     if let Some(found_list_def) = self
                         .list_definitions
                         .as_ref()
-                        .get_list_definition(list_name_val.as_ref().unwrap())
+                        .get_list_definition(list_name_val)
                     {
                         if let Some(found_item) =
                             found_list_def.get_item_with_value(int_val.unwrap())
@@ -487,7 +508,7 @@ impl Story {
                     } else {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Failed to find List called {}",
-                            list_name_val.as_ref().unwrap()
+                            list_name_val
                         )));
                     }
 
@@ -499,11 +520,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -518,7 +539,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -535,17 +556,25 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
-                            let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
+                            let mut sorted = list.get_ordered_items();
                             sorted.sort_by(|a, b| b.1.cmp(a.1));
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
+                            let Some(origin_name) = random_item.0.get_origin_name() else {
+                                return Err(StoryError::InvalidStoryState(format!(
+                                    "LIST_RANDOM picked the item {} that belongs to no list",
+                                    random_item.0
+                                )));
+                            };
                             let mut new_list = InkList::from_single_origin(
-                                random_item.0.get_origin_name().unwrap().clone(),
+                                origin_name.clone(),
                                 self.list_definitions.as_ref(),
                             )?;
                             new_list.items.insert(random_item.0.clone(), *random_item.1);
@@ -639,12 +668,17 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let Ok(assigned_val) = assigned_val.into_any().downcast::<Value>() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Can't assign to the variable '{}' because there is no value to assign. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                )));
+            };
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -659,10 +693,10 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let container = var_ref
+                    .get_container_for_count()
+                    .map_err(StoryError::InvalidStoryState)?;
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
@@ -692,7 +726,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..f86ca30 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
-- 
2.43.0


From 1437f5e4f297c74ffda8ced24482a2ea9597223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 12/54] fix: reject malformed saves and stories with an error
 and load a save whole or not at all

---
 runtime/src/callstack.rs       |  63 ++++++------
 runtime/src/choice.rs          |   3 +-
 runtime/src/flow.rs            |  94 +++++++++--------
 runtime/src/json/json_read.rs  | 181 ++++++++++++++++++++++-----------
 runtime/src/json/json_write.rs |  26 ++++-
 runtime/src/object.rs          |  28 +++--
 runtime/src/story_state.rs     | 179 ++++++++++++++++----------------
 runtime/src/variables_state.rs |  46 +++++----
 8 files changed, 369 insertions(+), 251 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5513219..e342991 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -63,25 +63,15 @@ impl Thread {
     ) -> Result<Thread, StoryError> {
         let mut thread = Thread::new();
 
-        thread.thread_index = j_obj
-            .get("threadIndex")
-            .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
-
-        if let Some(j_thread_callstack) = j_obj
-            .get("callstack")
-            .and_then(|callstack| callstack.as_array())
-        {
-            for j_el_tok in j_thread_callstack.iter() {
-                if let Some(j_element_obj) = j_el_tok.as_object() {
-                    let push_pop_type = PushPopType::from_value(
-                        j_element_obj
-                            .get("type")
-                            .and_then(|t| t.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?
-                            as usize,
-                    )?;
+        thread.thread_index = json_read::as_usize(json_read::get(j_obj, "threadIndex")?)?;
+
+        if let Some(j_thread_callstack) = j_obj.get("callstack") {
+            for j_el_tok in json_read::as_array(j_thread_callstack)? {
+                {
+                    let j_element_obj = json_read::as_object(j_el_tok)?;
+                    let push_pop_type = PushPopType::from_value(json_read::as_usize(
+                        json_read::get(j_element_obj, "type")?,
+                    )?)?;
 
                     let mut pointer = pointer::NULL.clone();
 
@@ -95,12 +85,15 @@ impl Thread {
                         );
 
                         pointer.container = thread_pointer_result.container();
-                        let pointer_index = j_element_obj
-                            .get("idx")
-                            .and_then(|i| i.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?
-                            as i32;
-                        pointer.index = pointer_index;
+                        pointer.index = json_read::as_i32(json_read::get(j_element_obj, "idx")?)?;
+
+                        if pointer.resolve().is_none() {
+                            return Err(StoryError::BadJson(format!(
+                                "The saved position {}.{} doesn't exist in the story",
+                                current_container_path_str.unwrap_or_default(),
+                                pointer.index
+                            )));
+                        }
 
                         if thread_pointer_result.approximate {
                             // TODO warning not accessible from here
@@ -127,6 +120,12 @@ impl Thread {
             }
         }
 
+        if thread.callstack.is_empty() {
+            return Err(StoryError::BadJson(
+                "A thread needs a position on its callstack".to_owned(),
+            ));
+        }
+
         if let Some(prev_content_obj_path) =
             j_obj.get("previousContentObject").and_then(|p| p.as_str())
         {
@@ -434,15 +433,19 @@ impl CallStack {
     ) -> Result<(), StoryError> {
         self.threads.clear();
 
-        let j_threads = j_obj.get("threads").unwrap();
-
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in json_read::as_array(json_read::get(j_obj, "threads")?)? {
+            let j_thread_obj = json_read::as_object(j_thread_tok)?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
             self.threads.push(thread);
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        if self.threads.is_empty() {
+            return Err(StoryError::BadJson(
+                "A callstack needs at least a thread".to_owned(),
+            ));
+        }
+
+        self.thread_counter = json_read::as_usize(json_read::get(j_obj, "threadCounter")?)?;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..251b6f3 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -55,12 +55,13 @@ impl Choice {
         text: &str,
         index: usize,
         original_thread_index: usize,
+        is_invisible_default: bool,
         choice_tags: Vec<String>,
     ) -> Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..b173c72 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -17,6 +17,8 @@ pub(crate) struct Flow {
     pub callstack: Rc<RefCell<CallStack>>,
     pub output_stream: Vec<Rc<dyn RTObject>>,
     pub current_choices: Vec<Rc<Choice>>,
+    // Only used while this isn't the current flow
+    pub evaluation_stack: Vec<Rc<dyn RTObject>>,
 }
 
 impl Flow {
@@ -26,6 +28,7 @@ impl Flow {
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container))),
             output_stream: Vec::new(),
             current_choices: Vec::new(),
+            evaluation_stack: Vec::new(),
         }
     }
 
@@ -34,37 +37,27 @@ impl Flow {
         main_content_container: Rc<Container>,
         j_obj: &Map<String, serde_json::Value>,
     ) -> Result<Flow, StoryError> {
-        let mut flow = Self {
-            name: name.to_string(),
-            callstack: Rc::new(RefCell::new(CallStack::new(main_content_container.clone()))),
-            output_stream: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+        let mut flow = Flow::new(name, main_content_container.clone());
+
+        flow.output_stream = json_read::jarray_to_runtime_obj_list(
+            json_read::as_array(json_read::get(j_obj, "outputStream")?)?,
+            false,
+        )?;
+        flow.current_choices = json_read::jarray_to_choices(json_read::as_array(json_read::get(
+            j_obj,
+            "currentChoices",
+        )?)?)?;
+
+        if let Some(evaluation_stack) = j_obj.get("evalStack") {
+            flow.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                json_read::as_array(evaluation_stack)?,
                 false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
-        };
+            )?;
+        }
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
-            j_obj
-                .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+            json_read::as_object(json_read::get(j_obj, "callstack")?)?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -85,6 +78,13 @@ impl Flow {
             json_write::write_list_rt_objs(&self.output_stream)?,
         );
 
+        if !self.evaluation_stack.is_empty() {
+            flow.insert(
+                "evalStack".to_owned(),
+                json_write::write_list_rt_objs(&self.evaluation_stack)?,
+            );
+        }
+
         // choiceThreads: optional
         // Has to come BEFORE the choices themselves are written out
         // since the originalThreadIndex of each choice needs to be set
@@ -133,25 +133,31 @@ impl Flow {
         j_choice_threads: Option<&serde_json::Value>,
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
-        for choice in self.current_choices.iter_mut() {
-            self.callstack
+        for choice in self.current_choices.iter() {
+            let thread_index = *choice.original_thread_index.borrow();
+            let active_thread = self
+                .callstack
                 .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
+                .get_thread_with_index(thread_index)
+                .cloned();
+
+            let thread = match active_thread {
+                Some(thread) => thread,
+                None => {
                     let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                        .and_then(|threads| threads.get(thread_index.to_string()))
+                        .ok_or_else(|| {
+                            StoryError::BadJson("Thread of a choice not found.".to_owned())
+                        })?;
+
+                    Thread::from_json(
+                        &main_content_container,
+                        json_read::as_object(j_saved_choice_thread)?,
+                    )?
+                }
+            };
+
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..e59cfb8 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -26,6 +26,48 @@ use crate::{
     void::Void,
 };
 
+fn bad_json(expected: &str, token: &serde_json::Value) -> StoryError {
+    StoryError::BadJson(format!("Expected {expected} but found: {token}"))
+}
+
+pub(crate) fn as_str(token: &serde_json::Value) -> Result<&str, StoryError> {
+    token.as_str().ok_or_else(|| bad_json("a string", token))
+}
+
+pub(crate) fn as_array(token: &serde_json::Value) -> Result<&Vec<serde_json::Value>, StoryError> {
+    token.as_array().ok_or_else(|| bad_json("an array", token))
+}
+
+pub(crate) fn as_object(
+    token: &serde_json::Value,
+) -> Result<&Map<String, serde_json::Value>, StoryError> {
+    token
+        .as_object()
+        .ok_or_else(|| bad_json("an object", token))
+}
+
+pub(crate) fn as_i32(token: &serde_json::Value) -> Result<i32, StoryError> {
+    token
+        .as_i64()
+        .and_then(|v| v.try_into().ok())
+        .ok_or_else(|| bad_json("a 32 bit integer", token))
+}
+
+pub(crate) fn as_usize(token: &serde_json::Value) -> Result<usize, StoryError> {
+    token
+        .as_u64()
+        .and_then(|v| v.try_into().ok())
+        .ok_or_else(|| bad_json("a non negative integer", token))
+}
+
+pub(crate) fn get<'a>(
+    obj: &'a Map<String, serde_json::Value>,
+    key: &str,
+) -> Result<&'a serde_json::Value, StoryError> {
+    obj.get(key)
+        .ok_or_else(|| StoryError::BadJson(format!("{key} not found.")))
+}
+
 pub fn load_from_string(
     s: &str,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
@@ -42,7 +84,7 @@ pub fn load_from_string(
         ));
     }
 
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version: i32 = as_i32(version_opt.unwrap())?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -97,10 +139,9 @@ pub fn jtoken_to_runtime_object(
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
             if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
-                Ok(Rc::new(Value::new::<i32>(val)))
+                Ok(Rc::new(Value::new::<i32>(as_i32(token)?)))
             } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
+                let val: f32 = token.as_f64().ok_or_else(|| bad_json("a number", token))? as f32;
                 Ok(Rc::new(Value::new::<f32>(val)))
             }
         }
@@ -109,13 +150,17 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if str == "\n" {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
+            // The only float that isn't a JSON number, in a saved state
+            if "NaN".eq(str) {
+                return Ok(Rc::new(Value::new::<f32>(f32::NAN)));
+            }
+
             // Glue
             if "<>".eq(str) {
                 return Ok(Rc::new(Glue::new()));
@@ -154,7 +199,7 @@ pub fn jtoken_to_runtime_object(
 
             if let Some(prop_value) = prop_value {
                 return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(as_str(prop_value)?)),
                 )));
             }
 
@@ -162,12 +207,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = as_str(v)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = as_i32(v)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -209,7 +254,7 @@ pub fn jtoken_to_runtime_object(
             }
 
             if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+                let target = as_str(prop_value.unwrap())?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -229,7 +274,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = as_usize(prop_value)?;
                     }
                 }
 
@@ -248,14 +293,14 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = as_str(cp)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = as_i32(f)?;
                 }
 
                 return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
+                    flags,
                     path_string_on_choice,
                 )));
             }
@@ -263,14 +308,12 @@ pub fn jtoken_to_runtime_object(
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(as_str(name)?)));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
-                return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
-                )));
+                return Ok(Rc::new(VariableReference::from_path_for_count(as_str(v)?)));
             }
 
             // // Variable assignment
@@ -293,7 +336,7 @@ pub fn jtoken_to_runtime_object(
             }
 
             if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+                let var_name = as_str(prop_value.unwrap())?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -308,32 +351,30 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(as_str(prop_value)?)));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = as_object(pv)?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
-
-                    let names = names_as_objs
+                    let names = as_array(o)?
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| as_str(e).map(str::to_string))
+                        .collect::<Result<Vec<String>, StoryError>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list.items.insert(item, as_i32(v)?);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -360,7 +401,15 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = match jarray.last() {
+        Some(serde_json::Value::Null) => None,
+        Some(last) => Some(as_object(last)?),
+        None => {
+            return Err(StoryError::BadJson(
+                "A container needs a final element".to_owned(),
+            ));
+        }
+    };
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -369,16 +418,15 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = as_i32(v)?,
+                "#n" => name = Some(as_str(v)?.to_string()),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| bad_json("a container", v))?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -416,12 +464,16 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+    let text = as_str(get(obj, "text")?)?;
+    let index = as_usize(get(obj, "index")?)?;
+    let source_path = as_str(get(obj, "originalChoicePath")?)?;
+    let original_thread_index = as_usize(get(obj, "originalThreadIndex")?)?;
+    let path_string_on_choice = as_str(get(obj, "targetPath")?)?;
+    let is_invisible_default = match obj.get("isInvisibleDefault") {
+        Some(v) => v.as_bool().ok_or_else(|| bad_json("a boolean", v))?,
+        None => false,
+    };
+    let choice_tags = jarray_to_tags(obj)?;
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
@@ -429,22 +481,36 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
         text,
         index,
         original_thread_index,
+        is_invisible_default,
         choice_tags,
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
-        for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+        for tag in as_array(pv)? {
+            tags.push(as_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
+}
+
+pub(crate) fn jarray_to_choices(
+    jarray: &[serde_json::Value],
+) -> Result<Vec<Rc<Choice>>, StoryError> {
+    jarray
+        .iter()
+        .map(|token| {
+            jtoken_to_runtime_object(token, None)?
+                .into_any()
+                .downcast::<Choice>()
+                .map_err(|_| bad_json("a choice", token))
+        })
+        .collect()
 }
 
 pub fn jtoken_to_list_definitions(
@@ -452,11 +518,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in as_object(def)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in as_object(list_def_json)? {
+            items.insert(k.clone(), as_i32(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -472,25 +538,26 @@ pub(crate) fn jobject_to_hashmap_values(
     let mut dict: HashMap<String, Rc<Value>> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(
-            k.clone(),
-            jtoken_to_runtime_object(v, None)?
-                .into_any()
-                .downcast::<Value>()
-                .unwrap(),
-        );
+        dict.insert(k.clone(), jtoken_to_value(v)?);
     }
 
     Ok(dict)
 }
 
+pub(crate) fn jtoken_to_value(token: &serde_json::Value) -> Result<Rc<Value>, StoryError> {
+    jtoken_to_runtime_object(token, None)?
+        .into_any()
+        .downcast::<Value>()
+        .map_err(|_| bad_json("a value", token))
+}
+
 pub(crate) fn jobject_to_int_hashmap(
     jobj: &Map<String, serde_json::Value>,
 ) -> Result<HashMap<String, i32>, StoryError> {
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), as_i32(v)?);
     }
 
     Ok(dict)
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..f85f021 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,7 +97,7 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
-        return Ok(json!(v));
+        return Ok(write_float(v));
     }
 
     if let Some(v) = Value::get_value::<&StringValue>(o.as_ref()) {
@@ -246,6 +246,18 @@ pub fn write_rt_container(
     Ok(serde_json::Value::Array(c_array))
 }
 
+// JSON has no way to write the numbers that aren't finite: infinity is written
+// as a number no f32 can hold, which reads back as infinity.
+fn write_float(v: f32) -> serde_json::Value {
+    if v.is_nan() {
+        json!("NaN")
+    } else if v.is_infinite() {
+        json!(f64::MAX.copysign(v.into()))
+    } else {
+        json!(v)
+    }
+}
+
 pub fn write_ink_list(list: &InkList) -> serde_json::Value {
     let mut jobj: Map<String, serde_json::Value> = Map::new();
 
@@ -266,6 +278,14 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // The items tell which lists they come from, an empty list doesn't
+    if list.items.is_empty() {
+        let origins = list.get_origin_names();
+        if !origins.is_empty() {
+            jobj.insert("origins".to_owned(), json!(origins));
+        }
+    }
+
     serde_json::Value::Object(jobj)
 }
 
@@ -284,6 +304,10 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
         json!(choice.target_path.to_string()),
     );
 
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
     serde_json::Value::Object(jobj)
diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d175b05..48049ea 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -64,16 +64,24 @@ impl Object {
                     }
 
                     if !child_valid_name {
-                        comps.push(Component::new_i(
-                            c.content
-                                .iter()
-                                .position(|r| {
-                                    let a = r.as_ref() as *const _ as *const ();
-                                    let b = child as *const _ as *const ();
-                                    std::ptr::eq(a, b)
-                                })
-                                .unwrap(),
-                        ));
+                        let is_child = |r: &dyn RTObject| {
+                            let a = r as *const _ as *const ();
+                            let b = child as *const _ as *const ();
+                            std::ptr::eq(a, b)
+                        };
+
+                        comps.push(
+                            match c.content.iter().position(|r| is_child(r.as_ref())) {
+                                Some(index) => Component::new_i(index),
+                                // Named by its parent only
+                                None => Component::new(
+                                    c.named_content
+                                        .iter()
+                                        .find(|(_, r)| is_child(r.as_ref()))
+                                        .map_or("", |(name, _)| name.as_str()),
+                                ),
+                            },
+                        );
                     }
 
                     container = c.get_object().get_parent();
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 9d39581..8f3c578 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -811,18 +811,13 @@ impl StoryState {
         }
 
         // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
+        // which never holds the current flow
         // (Assuming we're in multi-flow mode at all. If we're not then
         // the above copy is simply the default flow copy and we're done)
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
 
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
@@ -944,10 +939,11 @@ impl StoryState {
         path: &Path,
         incrementing_turn_index: bool,
     ) -> Result<(), StoryError> {
+        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
+
         // Changing direction, assume we need to clear current set of choices
         self.current_flow.current_choices.clear();
 
-        let mut new_pointer = Story::pointer_at_path(&self.main_content_container, path)?;
         if !new_pointer.is_null() && new_pointer.index == -1 {
             new_pointer.index = 0;
         }
@@ -1035,15 +1031,31 @@ impl StoryState {
             .get_current_element_mut()
             .current_pointer = Pointer::start_of(func_container);
 
-        self.pass_arguments_to_evaluation_stack(arguments)?;
+        self.pass_arguments_to_evaluation_stack(arguments)
+    }
+
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        let supported = arguments.into_iter().flatten().all(|arg| {
+            !matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            )
+        });
 
-        Ok(())
+        if supported {
+            Ok(())
+        } else {
+            Err(StoryError::BadArgument("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList.".to_owned()))
+        }
     }
 
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
     ) -> Result<(), StoryError> {
+        StoryState::check_arguments(arguments)?;
+
         // Pass arguments onto the evaluation stack
         if let Some(arguments) = arguments {
             for arg in arguments {
@@ -1053,10 +1065,7 @@ impl StoryState {
                     ValueType::Float(v) => Value::new::<f32>(*v),
                     ValueType::List(v) => Value::new::<InkList>(v.clone()),
                     ValueType::String(v) => Value::new::<&str>(&v.string),
-                    _ => {
-                        return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
-                        int, float, string, bool or InkList.".to_owned()));
-                    }
+                    ValueType::DivertTarget(_) | ValueType::VariablePointer(_) => continue,
                 };
 
                 self.push_evaluation_stack(Rc::new(value));
@@ -1136,7 +1145,7 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                Object::get_path(container)
             )));
         }
 
@@ -1178,7 +1187,13 @@ impl StoryState {
             }
         };
 
+        // Values still waiting to be used belong to the flow that was evaluating them
+        std::mem::swap(&mut self.evaluation_stack, &mut next_flow.evaluation_stack);
         std::mem::swap(&mut self.current_flow, &mut next_flow);
+        std::mem::swap(
+            &mut self.current_flow.evaluation_stack,
+            &mut next_flow.evaluation_stack,
+        );
         named_flows.insert(next_flow.name.clone(), next_flow);
 
         self.variables_state
@@ -1222,10 +1237,22 @@ impl StoryState {
     }
 
     pub fn load_json(&mut self, save_string: &str) -> Result<(), StoryError> {
-        match serde_json::from_str(save_string) {
-            Ok(value) => self.load_json_obj(value),
-            Err(_) => Err(StoryError::BadJson("State not in JSON format.".to_owned())),
-        }
+        let j_object: serde_json::Value = serde_json::from_str(save_string)
+            .map_err(|_| StoryError::BadJson("State not in JSON format.".to_owned()))?;
+
+        // Only replace this state when all of it could be loaded
+        let mut loaded = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+        loaded.story_seed = self.story_seed;
+        loaded
+            .variables_state
+            .set_default_globals_from(&self.variables_state);
+        loaded.load_json_obj(j_object)?;
+        *self = loaded;
+
+        Ok(())
     }
 
     fn write_json(&self) -> Result<serde_json::Value, StoryError> {
@@ -1302,9 +1329,9 @@ impl StoryState {
             }
         };
 
-        if let Some(version) = j_save_version.as_i64()
-            && version < MIN_COMPATIBLE_LOAD_VERSION as i64
-        {
+        let version = json_read::as_i32(j_save_version)?;
+
+        if version < MIN_COMPATIBLE_LOAD_VERSION as i32 {
             return Err(StoryError::BadJson(format!(
                 "Ink save format isn't compatible with the current version (saw '{}', but minimum is {}), so can't load.",
                 version, MIN_COMPATIBLE_LOAD_VERSION
@@ -1318,57 +1345,37 @@ impl StoryState {
                 .as_object()
                 .ok_or_else(|| StoryError::BadJson("Invalid flows object".to_string()))?;
 
-            // Single default flow
-            if flows_obj_dict.len() == 1 {
-                self.named_flows = None;
-            }
-            // Multi-flow, need to create flows dict
-            else if self.named_flows.is_none() {
-                self.named_flows = Some(HashMap::new());
-            }
-            // Multi-flow, already have a flows dict
-            else {
-                self.named_flows.as_mut().unwrap().clear();
-            }
-
             // Load up each flow (there may only be one)
-            for (named_flow_name, named_flow_obj) in flows_obj_dict.iter() {
-                let name = named_flow_name.clone();
-                let flow_obj = named_flow_obj
+            let mut flows: HashMap<String, Flow> = HashMap::new();
+            for (name, flow_obj) in flows_obj_dict.iter() {
+                let flow_obj = flow_obj
                     .as_object()
                     .ok_or_else(|| StoryError::BadJson("Invalid flow object".to_string()))?;
 
-                // Load up this flow using JSON data
-                let flow = Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-
-                if flows_obj_dict.len() == 1 {
-                    self.current_flow =
-                        Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-                } else {
-                    self.named_flows
-                        .as_mut()
-                        .ok_or_else(|| {
-                            StoryError::BadJson("Named flows should be initialized".to_string())
-                        })?
-                        .insert(name, flow);
-                }
+                flows.insert(
+                    name.clone(),
+                    Flow::from_json(name, self.main_content_container.clone(), flow_obj)?,
+                );
             }
 
-            if let Some(named_flows) = &mut self.named_flows
-                && named_flows.len() > 1
-                && let Some(current_flow_name) = j_object.get("currentFlowName")
-                && let Some(curr_flow_name) = current_flow_name.as_str()
-                && let Some(curr_flow) = named_flows.get(curr_flow_name)
-            {
-                self.current_flow = curr_flow.clone();
-                named_flows.remove(curr_flow_name);
-            }
+            let current_flow_name = match flows.len() {
+                1 => flows.keys().next().cloned(),
+                _ => j_object
+                    .get("currentFlowName")
+                    .and_then(|name| name.as_str())
+                    .map(str::to_string),
+            };
+
+            self.current_flow = current_flow_name
+                .and_then(|name| flows.remove(&name))
+                .ok_or_else(|| StoryError::BadJson("Current flow not found".to_string()))?;
+            self.named_flows = if flows.is_empty() { None } else { Some(flows) };
         }
         // Old format: individually load up callstack, output stream, choices in
         // current/default flow
         else {
             self.named_flows = None;
-            self.current_flow.name = "default".to_owned(); // Replace with the default flow name
+            self.current_flow.name = DEFAULT_FLOW_NAME.to_owned();
             self.current_flow.callstack.borrow_mut().load_json(
                 &self.main_content_container,
                 j_object
@@ -1379,19 +1386,14 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    json_read::as_array(output_stream_obj)?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices =
+                    json_read::jarray_to_choices(json_read::as_array(current_choices_obj)?)?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1415,11 +1417,13 @@ impl StoryState {
 
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
             self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+                json_read::jarray_to_runtime_obj_list(json_read::as_array(eval_stack_obj)?, false)?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
-            let divert_path = Path::new_with_components_string(current_divert_target_path.as_str());
+            let divert_path = Path::new_with_components_string(Some(json_read::as_str(
+                current_divert_target_path,
+            )?));
             self.diverted_pointer =
                 Story::pointer_at_path(&self.main_content_container, &divert_path)?.clone();
         }
@@ -1439,25 +1443,16 @@ impl StoryState {
         }
 
         if let Some(current_turn_index) = j_object.get("turnIdx") {
-            self.current_turn_index = current_turn_index
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
-                as i32;
+            self.current_turn_index = json_read::as_i32(current_turn_index)?;
         }
 
         if let Some(story_seed) = j_object.get("storySeed") {
-            self.story_seed = story_seed
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
-                as i32;
+            self.story_seed = json_read::as_i32(story_seed)?;
         }
 
         // Not optional, but bug in inkjs means it's actually missing in inkjs saves
         if let Some(previous_random_obj) = j_object.get("previousRandom") {
-            self.previous_random = previous_random_obj
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
-                as i32;
+            self.previous_random = json_read::as_i32(previous_random_obj)?;
         } else {
             self.previous_random = 0;
         }
@@ -1477,16 +1472,24 @@ impl StoryState {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if self
+            .named_flows
+            .as_mut()
+            .and_then(|flows| flows.remove(flow_name))
+            .is_none()
+        {
+            return Err(StoryError::BadArgument(format!(
+                "Flow '{flow_name}' doesn't exist"
+            )));
+        }
+
         self.alive_flow_names_dirty = true;
 
         Ok(())
     }
 
     pub(crate) fn switch_to_default_flow_internal(&mut self) {
-        if self.named_flows.is_some() {
-            self.switch_flow_internal(DEFAULT_FLOW_NAME);
-        }
+        self.switch_flow_internal(DEFAULT_FLOW_NAME);
     }
 
     pub(crate) fn add_error(&mut self, message: String, is_warning: bool) {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 3f9fc6e..efd86dd 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -17,6 +17,10 @@ use crate::{
     variable_assigment::VariableAssignment,
 };
 
+// How many pointers to pointers to follow: pointers are resolved when they are
+// created, so only corrupt content has more than a few (or a circle) of them.
+const MAX_POINTER_CHAIN: usize = 100;
+
 #[derive(Clone)]
 pub(crate) struct VariablesState {
     pub global_variables: HashMap<String, Rc<Value>>,
@@ -44,6 +48,10 @@ impl VariablesState {
         }
     }
 
+    pub fn set_default_globals_from(&mut self, other: &VariablesState) {
+        self.default_global_variables = other.default_global_variables.clone();
+    }
+
     pub fn start_variable_observation(&mut self) {
         self.batch_observing_variable_changes = true;
         self.changed_variables_for_batch_obs = Some(HashSet::new());
@@ -122,7 +130,7 @@ impl VariablesState {
             // Assign to an existing variable pointer
             // Then assign to the variable that the pointer is pointing to by name.
             // De-reference variable reference to point to
-            loop {
+            for _ in 0..MAX_POINTER_CHAIN {
                 let existing_pointer = self.get_raw_variable_with_name(&name, context_index);
 
                 match existing_pointer {
@@ -319,19 +327,20 @@ impl VariablesState {
     }
 
     pub fn get_variable_with_name(&self, name: &str, context_index: i32) -> Option<Rc<Value>> {
-        let var_value = self.get_raw_variable_with_name(name, context_index);
+        let mut var_value = self.get_raw_variable_with_name(name, context_index)?;
         // Get value from pointer?
-        if let Some(vv) = var_value.clone()
-            && let Some(var_pointer) = Value::get_value::<&VariablePointerValue>(vv.as_ref())
-        {
-            return self.value_at_variable_pointer(var_pointer);
+        for _ in 0..MAX_POINTER_CHAIN {
+            let Some(pointer) = Value::get_value::<&VariablePointerValue>(var_value.as_ref())
+            else {
+                return Some(var_value);
+            };
+
+            let target =
+                self.get_raw_variable_with_name(&pointer.variable_name, pointer.context_index)?;
+            var_value = target;
         }
 
-        var_value
-    }
-
-    fn value_at_variable_pointer(&self, pointer: &VariablePointerValue) -> Option<Rc<Value>> {
-        self.get_variable_with_name(&pointer.variable_name, pointer.context_index)
+        None
     }
 
     pub fn set_callstack(&mut self, callstack: Rc<RefCell<CallStack>>) {
@@ -367,11 +376,13 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::Float(val) => match default_val.value {
-                ValueType::Float(default_val) => *val == default_val,
+                ValueType::Float(default_val) => val.to_bits() == default_val.to_bits(),
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
@@ -399,13 +410,8 @@ impl VariablesState {
             let loaded_token = jobj.get(k);
 
             if let Some(loaded_token) = loaded_token {
-                self.global_variables.insert(
-                    k.to_string(),
-                    json_read::jtoken_to_runtime_object(loaded_token, None)?
-                        .into_any()
-                        .downcast::<Value>()
-                        .unwrap(),
-                );
+                self.global_variables
+                    .insert(k.to_string(), json_read::jtoken_to_value(loaded_token)?);
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
             }
-- 
2.43.0


From 79ce78a9ca71d20dc71a4695f3cea274becbbf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:06 +0000
Subject: [PATCH 13/54] fix: leave the story unchanged by refused host calls
 and separate the state of flows

---
 runtime/src/story/choices.rs            |  3 ++
 runtime/src/story/external_functions.rs | 13 +++++----
 runtime/src/story/flow.rs               | 16 +++++++++--
 runtime/src/story/mod.rs                |  2 ++
 runtime/src/story/navigation.rs         | 28 +++++++++++++++----
 runtime/src/story/progress.rs           | 14 ++++++++++
 runtime/src/story/state.rs              | 17 ++++++++++--
 runtime/src/story/tags.rs               |  7 ++++-
 runtime/src/story/variable_observer.rs  | 37 ++++++++-----------------
 9 files changed, 94 insertions(+), 43 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index 0791051..329c7d2 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
@@ -23,6 +25,7 @@ impl Story {
         // can create multiple leading edges for the story, each of
         // which has its own context.
         let choice_to_choose = choices.get(choice_index).unwrap();
+        Story::pointer_at_path(&self.main_content_container, &choice_to_choose.target_path)?;
         self.get_state()
             .get_callstack()
             .borrow_mut()
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index f86ca30..8b8e14d 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
@@ -195,7 +195,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -230,7 +230,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -265,14 +265,15 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
         if let Some(divert) = divert
             && divert.is_external
+            && let Some(name) = divert.get_target_path()
         {
-            let name = divert.get_target_path_string().unwrap();
+            let name = name.to_string();
 
             if !self.externals.contains_key(&name) {
                 if self.allow_external_function_fallbacks {
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..106cc7b 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -1,4 +1,4 @@
-use crate::{story::Story, story_error::StoryError};
+use crate::{pointer, story::Story, story_error::StoryError};
 
 /// # Flow
 /// Methods to work with flows and the call-stack.
@@ -6,7 +6,10 @@ impl Story {
     pub(crate) fn reset_callstack(&mut self) -> Result<(), StoryError> {
         self.if_async_we_cant("ResetCallstack")?;
 
-        self.get_state_mut().force_end();
+        let state = self.get_state_mut();
+        state.force_end();
+        state.evaluation_stack.clear();
+        state.set_diverted_pointer(pointer::NULL.clone());
 
         Ok(())
     }
@@ -29,12 +32,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
-    /// later.
+    /// later. Does nothing in the middle of a
+    /// [`continue_async`](Story::continue_async).
     pub fn switch_to_default_flow(&mut self) {
+        if self.async_continue_active {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 06ac064..5929c96 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -40,6 +40,7 @@ pub struct Story {
     pub(crate) has_validated_externals: bool,
     pub(crate) allow_external_function_fallbacks: bool,
     pub(crate) saw_lookahead_unsafe_function_after_new_line: bool,
+    pub(crate) remaining_global_decl_steps: Option<usize>,
     pub(crate) externals: HashMap<String, ExternalFunctionDef>,
 }
 mod misc {
@@ -74,6 +75,7 @@ mod misc {
                 async_continue_active: false,
                 async_saving: false,
                 saw_lookahead_unsafe_function_after_new_line: false,
+                remaining_global_decl_steps: None,
                 state_snapshot_at_last_new_line: None,
                 on_error: None,
                 prev_containers: Vec::new(),
diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..d809f73 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,6 +69,15 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
+        let target_path = Path::new_with_components_string(Some(path));
+        if target_path.is_empty() || self.content_at_path(&target_path).approximate {
+            return Err(StoryError::BadArgument(format!(
+                "Failed to find content at path '{path}'"
+            )));
+        }
+
+        StoryState::check_arguments(args)?;
+
         if reset_call_stack {
             self.reset_callstack()?;
         } else {
@@ -108,7 +118,7 @@ impl Story {
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target_path, true)?;
 
         Ok(())
     }
@@ -142,7 +152,14 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        StoryState::check_arguments(args)?;
+
+        if !self.has_validated_externals {
+            self.validate_external_bindings()?;
+        }
+
         // Snapshot the output stream
+        let previous_pointer = self.get_state().get_previous_pointer();
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
 
@@ -151,16 +168,17 @@ impl Story {
             .start_function_evaluation_from_game(func_container.unwrap(), args)?;
 
         // Evaluate the function, and collect the string output
-        while self.can_continue() {
-            let text = self.cont()?;
-
-            text_output.push_str(&text);
+        let mut result = Ok(());
+        while result.is_ok() && self.can_continue() {
+            result = self.cont().map(|text| text_output.push_str(&text));
         }
 
         // Restore the output stream in case this was called
         // during main story evaluation.
         self.get_state_mut()
             .reset_output(Some(output_stream_before));
+        result?;
+        self.get_state().set_previous_pointer(previous_pointer);
 
         // Finish evaluation, and see whether anything was produced
         self.get_state_mut()
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 03b6ef9..0f3cc41 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -346,6 +346,14 @@ impl Story {
         #[cfg(vp_hooks)]
         crate::story::vp_hooks::on_step();
 
+        if let Some(remaining) = self.remaining_global_decl_steps.as_mut() {
+            *remaining = remaining.checked_sub(1).ok_or_else(|| {
+                StoryError::InvalidStoryState(
+                    "The declarations of the global variables never end".to_owned(),
+                )
+            })?;
+        }
+
         let mut should_add_to_stream = true;
 
         // Get current content
@@ -393,6 +401,12 @@ impl Story {
         // that was diverted to rather than called as a function)
         let mut current_content_obj = pointer.resolve();
 
+        if current_content_obj.is_none() {
+            return Err(StoryError::InvalidStoryState(
+                "There is no content at this position".to_owned(),
+            ));
+        }
+
         let is_logic_or_flow_control = self.perform_logic_and_flow_control(&current_content_obj)?;
 
         // Has flow been forced to end by flow control above?
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..8fb76eb 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -3,6 +3,10 @@ use crate::{
     value_type::ValueType,
 };
 
+// Declaring the globals takes a few steps for each of them: it only takes more
+// when the content loops.
+const MAX_GLOBAL_DECL_STEPS: usize = 100_000;
+
 /// # State
 /// Methods to read and write story state.
 impl Story {
@@ -31,7 +35,10 @@ impl Story {
 
             // Continue, but without validating external bindings,
             // since we may be doing this reset at initialisation time.
-            self.continue_internal(0.0)?;
+            self.remaining_global_decl_steps = Some(MAX_GLOBAL_DECL_STEPS);
+            let result = self.continue_internal(0.0);
+            self.remaining_global_decl_steps = None;
+            result?;
 
             self.get_state().set_current_pointer(original_pointer);
         }
@@ -50,13 +57,15 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
             .set(variable_name, value_type.clone())?;
 
-        if notify_observers {
-            self.notify_variable_changed(variable_name, value_type);
+        if notify_observers && let Some(value) = self.get_variable(variable_name) {
+            self.notify_variable_changed(variable_name, &value);
         }
 
         Ok(())
@@ -118,6 +127,8 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("load a state")?;
+
         self.get_state_mut().load_json(json_state)
     }
 
diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..38548c4 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,12 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let found = self.content_at_path(&path);
+        let Some(mut flow_container) = found.container().filter(|_| !found.approximate) else {
+            return Err(StoryError::BadArgument(format!(
+                "Failed to find a knot or stitch at path '{path_string}'"
+            )));
+        };
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..bfa4c63 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -62,35 +62,22 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("remove a variable observer")?;
 
-        // Remove observer for this specific variable
-        match specific_variable_name {
-            Some(specific_variable_name) => {
-                if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+        let mut removed = false;
 
-                    if v.is_empty() {
-                        self.variable_observers.remove(specific_variable_name);
-                    }
-                }
+        self.variable_observers.retain(|name, observers| {
+            if specific_variable_name.is_none_or(|specific| specific == name) {
+                let count = observers.len();
+                observers.retain(|o| !Rc::ptr_eq(o, observer));
+                removed |= observers.len() < count;
             }
-            None => {
-                // Remove observer for all variables
-                let mut keys_to_remove = Vec::new();
-
-                for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
 
-                    if v.is_empty() {
-                        keys_to_remove.push(k.to_string());
-                    }
-                }
+            !observers.is_empty()
+        });
 
-                for key_to_remove in keys_to_remove.iter() {
-                    self.variable_observers.remove(key_to_remove);
-                }
-            }
+        if !removed {
+            return Err(StoryError::BadArgument(
+                "Cannot remove a variable observer that isn't observing".to_owned(),
+            ));
         }
 
         Ok(())
-- 
2.43.0


From 5c66859eeb63be222f7bb965bfe7ffa700ff1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 14/54] fix: escape every control character and the path of a
 failed divert in the tool's JSON output

---
 rinklecate/src/player.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..5d0393f 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -139,9 +139,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                     if let Err(e) = story.choose_path_string(&path, true, None) {
                         if opts.json_output {
                             println!(
-                                "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
+                                "{{\"issues\": [\"{}\"]}}",
+                                escape_json_string(&format!("Error diverting to '{path}': {e}"))
                             );
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
@@ -271,6 +270,8 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            // JSON allows no other control character inside a string
+            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From e49c6fadada9271798d63324e9fc28cca3217bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:53 +0000
Subject: [PATCH 15/54] fix: make the streaming loader accept the same stories
 as the default one, and reject malformed ones

---
 runtime/src/json/json_read_stream.rs | 661 ++++++++++++---------------
 runtime/src/json/json_tokenizer.rs   | 455 +++++++++---------
 2 files changed, 520 insertions(+), 596 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..695f216 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -27,7 +27,7 @@ use crate::{
     void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::json_tokenizer::{JsonTokenizer, JsonValue, Number};
 
 pub fn load_from_string(
     s: &str,
@@ -40,18 +40,59 @@ pub fn load_from_string(
 fn parse(
     tok: &mut JsonTokenizer,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
-    tok.expect('{')?;
+    let mut version: Option<i32> = None;
+    let mut root: Option<Rc<Container>> = None;
+    let mut list_defs: Option<ListDefinitionsOrigin> = None;
 
-    let version_key = tok.read_obj_key()?;
+    tok.begin_object()?;
+    let mut first = true;
 
-    if version_key != "inkVersion" {
+    while tok.next_element(first, '}')? {
+        first = false;
+
+        match tok.read_obj_key()?.as_str() {
+            "inkVersion" => version = Some(check_version(tok.read_value()?.as_integer()?)?),
+            "root" => match tok.read_value()? {
+                JsonValue::Array => root = Some(jarray_to_container(tok, None)?),
+                _ => {
+                    return Err(StoryError::BadJson(
+                        "Root node for ink is not a container?".to_owned(),
+                    ));
+                }
+            },
+            "listDefs" => list_defs = Some(jtoken_to_list_definitions(tok)?),
+            _ => {
+                let value = tok.read_value()?;
+                tok.skip_value(&value)?;
+            }
+        }
+    }
+
+    tok.expect_end()?;
+
+    let Some(version) = version else {
         return Err(StoryError::BadJson(
             "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
         ));
-    }
+    };
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    let Some(root) = root else {
+        return Err(StoryError::BadJson(
+            "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
+        ));
+    };
 
+    let Some(list_defs) = list_defs else {
+        return Err(StoryError::BadJson(
+            "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
+                .to_owned(),
+        ));
+    };
+
+    Ok((version, root, Rc::new(list_defs)))
+}
+
+fn check_version(version: i32) -> Result<i32, StoryError> {
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
             "Version of ink used to build story was newer than the current version of the engine"
@@ -63,99 +104,94 @@ fn parse(
         ));
     }
 
-    tok.expect(',')?;
-
-    let root_key = tok.read_obj_key()?;
+    Ok(version)
+}
 
-    if root_key != "root" {
-        return Err(StoryError::BadJson(
-            "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
+/// The value of a property of an object.
+enum Property<'a> {
+    Token(JsonValue),
+    Container(Rc<Container>),
+    List(HashMap<String, i32>),
+    /// The position of an array: the origins of a list, or a container of
+    /// that name, which the other properties tell.
+    Origins(JsonTokenizer<'a>),
+}
 
-    let root_value = tok.read_value()?;
-    let main_content_container = match jtoken_to_runtime_object(tok, root_value, None)? {
-        ArrayElement::RTObject(rt_obj) => rt_obj,
-        _ => {
-            return Err(StoryError::BadJson(
-                "Root node for ink is not a container?".to_owned(),
-            ));
+impl Property<'_> {
+    fn token(&self) -> Result<&JsonValue, StoryError> {
+        match self {
+            Property::Token(value) => Ok(value),
+            Property::List(_) => Err(JsonValue::Object.unexpected("a string or number").into()),
+            _ => Err(JsonValue::Array.unexpected("a string or number").into()),
         }
-    };
+    }
 
-    let main_content_container = main_content_container.into_any().downcast::<Container>();
+    fn as_str(&self) -> Result<&str, StoryError> {
+        Ok(self.token()?.as_str()?)
+    }
 
-    if main_content_container.is_err() {
-        return Err(StoryError::BadJson(
-            "Root node for ink is not a container?".to_owned(),
-        ));
-    };
+    fn as_integer(&self) -> Result<i32, StoryError> {
+        Ok(self.token()?.as_integer()?)
+    }
+}
 
-    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
+type Properties<'a> = HashMap<String, Property<'a>>;
 
-    tok.expect(',')?;
-    let list_defs_key = tok.read_obj_key()?;
+fn read_properties<'a>(tok: &mut JsonTokenizer<'a>) -> Result<Properties<'a>, StoryError> {
+    let mut properties = Properties::new();
+    let mut first = true;
 
-    if list_defs_key != "listDefs" {
-        return Err(StoryError::BadJson(
-            "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
-                .to_owned(),
-        ));
-    }
+    while tok.next_element(first, '}')? {
+        first = false;
 
-    let list_defs = Rc::new(jtoken_to_list_definitions(tok)?);
+        let key = tok.read_obj_key()?;
+        let value = tok.read_value()?;
 
-    tok.expect('}')?;
+        let property = match value {
+            JsonValue::Array if key == "origins" => {
+                let position = *tok;
+                tok.skip_value(&value)?;
+                Property::Origins(position)
+            }
+            JsonValue::Array => Property::Container(jarray_to_container(tok, Some(key.clone()))?),
+            JsonValue::Object if key == "list" => Property::List(parse_list(tok)?),
+            JsonValue::Object => return Err(value.unexpected("a value or a container").into()),
+            value => Property::Token(value),
+        };
 
-    Ok((version, main_content_container, list_defs))
-}
+        properties.insert(key, property);
+    }
 
-enum ArrayElement {
-    RTObject(Rc<dyn RTObject>),
-    LastElement(i32, Option<String>, HashMap<String, Rc<Container>>),
-    NullElement,
+    Ok(properties)
 }
 
-type RuntimeObjectList = Vec<Rc<dyn RTObject>>;
-type RuntimeObjectListResult = Result<(RuntimeObjectList, Option<ArrayElement>), StoryError>;
-
-fn jtoken_to_runtime_object(
-    tok: &mut JsonTokenizer,
-    value: JsonValue,
-    name: Option<String>,
-) -> Result<ArrayElement, StoryError> {
+fn token_to_runtime_object(value: JsonValue) -> Result<Rc<dyn RTObject>, StoryError> {
     match value {
-        JsonValue::Null => Ok(ArrayElement::NullElement),
-        JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
-        JsonValue::Number(value) => {
-            if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
-            } else {
-                let val: f32 = value.as_float().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
-            }
-        }
+        JsonValue::Boolean(value) => Ok(Rc::new(Value::new::<bool>(value))),
+        JsonValue::Number(Number::Int(_)) => Ok(Rc::new(Value::new::<i32>(value.as_integer()?))),
+        JsonValue::Number(Number::Float(value)) => Ok(Rc::new(Value::new::<f32>(value as f32))),
         JsonValue::String(value) => {
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if str == "\n" {
+                return Ok(Rc::new(Value::new::<&str>("\n")));
+            }
+
+            // The only float that isn't a JSON number, in a saved state
+            if "NaN".eq(str) {
+                return Ok(Rc::new(Value::new::<f32>(f32::NAN)));
             }
 
             // Glue
             if "<>".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Glue::new())));
+                return Ok(Rc::new(Glue::new()));
             }
 
             if let Some(control_command) = ControlCommand::new_from_name(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(control_command)));
+                return Ok(Rc::new(control_command));
             }
 
             // Native functions
@@ -167,12 +203,12 @@ fn jtoken_to_runtime_object(
                 call_str = "^";
             }
             if let Some(native_function_call) = NativeFunctionCall::new_from_name(call_str) {
-                return Ok(ArrayElement::RTObject(Rc::new(native_function_call)));
+                return Ok(Rc::new(native_function_call));
             }
 
             // Void
             if "void".eq(str) {
-                return Ok(ArrayElement::RTObject(Rc::new(Void::new())));
+                return Ok(Rc::new(Void::new()));
             }
 
             Err(StoryError::BadJson(format!(
@@ -180,348 +216,221 @@ fn jtoken_to_runtime_object(
                 str
             )))
         }
-        JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(tok, name)?)),
-        JsonValue::Object => {
-            let prop = tok.read_obj_key()?;
-            let prop_value = tok.read_value()?;
-
-            // Divert target value to path
-            if prop == "^->" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
-                ))));
-            }
-
-            // // VariablePointerValue
-            if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
-                let mut contex_index = -1;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ptr));
-            }
-
-            // // Divert
-            let mut is_divert = false;
-            let mut pushes_to_stack = false;
-            let mut div_push_type = PushPopType::Function;
-            let mut external = false;
-
-            if prop == "->" {
-                is_divert = true;
-            } else if prop == "f()" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Function;
-            } else if prop == "->t->" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Tunnel;
-            } else if prop == "x()" {
-                is_divert = true;
-                external = true;
-                pushes_to_stack = false;
-                div_push_type = PushPopType::Function;
-            }
-
-            if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
-
-                let mut var_divert_name: Option<String> = None;
-                let mut target_path: Option<String> = None;
-
-                let mut conditional = false;
-                let mut external_args = 0;
-
-                while tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    let prop = tok.read_obj_key()?;
-                    let prop_value = tok.read_value()?;
-
-                    // Variable target
-                    if prop == "var" {
-                        var_divert_name = Some(target.clone());
-                    } else if prop == "c" {
-                        conditional = true;
-                    } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
-                    }
-                }
-
-                if var_divert_name.is_none() {
-                    target_path = Some(target);
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Divert::new(
-                    pushes_to_stack,
-                    div_push_type,
-                    external,
-                    external_args,
-                    conditional,
-                    var_divert_name,
-                    target_path.as_deref(),
-                ))));
-            }
-
-            // Choice
-            if prop == "*" {
-                let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(ChoicePoint::new(
-                    flags,
-                    path_string_on_choice,
-                ))));
-            }
-
-            // Variable reference
-            if prop == "VAR?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
-
-            if prop == "CNT?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
-                )));
-            }
-
-            // Variable assignment
-            let mut is_var_ass = false;
-            let mut is_global_var = false;
-
-            if prop == "VAR=" {
-                is_var_ass = true;
-                is_global_var = true;
-            } else if prop == "temp=" {
-                is_var_ass = true;
-                is_global_var = false;
-            }
-
-            if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
-                let mut is_new_decl = true;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("re")?;
-                    let _ = tok.read_boolean()?;
-                    is_new_decl = false;
-                }
-
-                let var_ass = Rc::new(VariableAssignment::new(
-                    var_name,
-                    is_new_decl,
-                    is_global_var,
-                ));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ass));
-            }
+        value => Err(value.unexpected("content").into()),
+    }
+}
 
-            // // Legacy Tag
-            if prop == "#" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
+fn properties_to_runtime_object(obj: Properties) -> Result<Rc<dyn RTObject>, StoryError> {
+    // Divert target value to path
+    if let Some(path) = obj.get("^->") {
+        return Ok(Rc::new(Value::new::<Path>(
+            Path::new_with_components_string(Some(path.as_str()?)),
+        )));
+    }
 
-            // List value
-            if prop == "list" {
-                let list_content = parse_list(tok)?;
-                let mut raw_list = InkList::new();
+    // VariablePointerValue
+    if let Some(name) = obj.get("^var") {
+        let contex_index = match obj.get("ci") {
+            Some(index) => index.as_integer()?,
+            None => -1,
+        };
+
+        return Ok(Rc::new(Value::new_variable_pointer(
+            name.as_str()?,
+            contex_index,
+        )));
+    }
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("origins")?;
+    // Divert
+    for (key, pushes_to_stack, div_push_type, external) in [
+        ("->", false, PushPopType::Function, false),
+        ("f()", true, PushPopType::Function, false),
+        ("->t->", true, PushPopType::Tunnel, false),
+        ("x()", false, PushPopType::Function, true),
+    ] {
+        let Some(target) = obj.get(key) else {
+            continue;
+        };
+
+        let target = target.as_str()?;
+        let is_variable = obj.contains_key("var");
+        let conditional = obj.contains_key("c");
+
+        let external_args = match obj.get("exArgs") {
+            Some(args) if external => args.token()?.as_usize()?,
+            _ => 0,
+        };
+
+        return Ok(Rc::new(Divert::new(
+            pushes_to_stack,
+            div_push_type,
+            external,
+            external_args,
+            conditional,
+            is_variable.then(|| target.to_string()),
+            (!is_variable).then_some(target),
+        )));
+    }
 
-                    // read array of strings
-                    tok.expect('[')?;
+    // Choice
+    if let Some(path) = obj.get("*") {
+        let flags = match obj.get("flg") {
+            Some(flags) => flags.as_integer()?,
+            None => 0,
+        };
 
-                    let mut names = Vec::new();
-                    while tok.peek()? != ']' {
-                        let name = tok.read_string()?;
-                        names.push(name);
+        return Ok(Rc::new(ChoicePoint::new(flags, path.as_str()?)));
+    }
 
-                        if tok.peek()? != ']' {
-                            tok.expect(',')?;
-                        }
-                    }
+    // Variable reference
+    if let Some(name) = obj.get("VAR?") {
+        return Ok(Rc::new(VariableReference::new(name.as_str()?)));
+    }
 
-                    tok.expect(']')?;
+    if let Some(path) = obj.get("CNT?") {
+        return Ok(Rc::new(VariableReference::from_path_for_count(
+            path.as_str()?,
+        )));
+    }
 
-                    raw_list.set_initial_origin_names(names);
-                }
+    // Variable assignment
+    for (key, is_global) in [("VAR=", true), ("temp=", false)] {
+        if let Some(name) = obj.get(key) {
+            return Ok(Rc::new(VariableAssignment::new(
+                name.as_str()?,
+                !obj.contains_key("re"),
+                is_global,
+            )));
+        }
+    }
 
-                for (k, v) in list_content {
-                    let item = InkListItem::from_full_name(k.as_str());
-                    raw_list.items.insert(item, v);
-                }
+    // Legacy Tag
+    if let Some(text) = obj.get("#") {
+        return Ok(Rc::new(Tag::new(text.as_str()?)));
+    }
 
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<InkList>(
-                    raw_list,
-                ))));
-            }
+    // List value
+    if let Some(Property::List(items)) = obj.get("list") {
+        let mut raw_list = InkList::new();
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
+        match obj.get("origins") {
+            Some(Property::Origins(position)) => {
+                raw_list.set_initial_origin_names(parse_names(*position)?);
             }
+            Some(Property::Token(value)) => return Err(value.unexpected("an array").into()),
+            _ => {}
+        }
 
-            // Last Element
-            let mut flags = 0;
-            let mut name: Option<String> = None;
-            let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
-
-            let mut p = prop.clone();
-            let mut pv = prop_value;
-
-            loop {
-                if p == "#f" {
-                    flags = pv.as_integer().unwrap();
-                } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
-                } else {
-                    let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
-
-                    let named_content_item = match named_content_item {
-                        ArrayElement::RTObject(rt_obj) => rt_obj,
-                        _ => {
-                            return Err(StoryError::BadJson(
-                                "Named content is not a runtime object".to_owned(),
-                            ));
-                        }
-                    };
+        for (k, v) in items {
+            let item = InkListItem::from_full_name(k.as_str());
+            raw_list.items.insert(item, *v);
+        }
 
-                    let named_sub_container = named_content_item
-                        .into_any()
-                        .downcast::<Container>()
-                        .unwrap();
+        return Ok(Rc::new(Value::new::<InkList>(raw_list)));
+    }
 
-                    named_only_content.insert(p, named_sub_container);
-                }
+    Err(StoryError::BadJson(format!(
+        "Failed to convert token to runtime RTObject: {:?}",
+        obj.keys().collect::<Vec<&String>>()
+    )))
+}
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    p = tok.read_obj_key()?;
-                    pv = tok.read_value()?;
-                } else if tok.peek()? == '}' {
-                    tok.expect('}')?;
-                    return Ok(ArrayElement::LastElement(flags, name, named_only_content));
-                } else {
-                    break;
-                }
-            }
+fn parse_names(mut tok: JsonTokenizer) -> Result<Vec<String>, StoryError> {
+    let mut names = Vec::new();
 
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                prop
-            )))
-        }
+    while tok.next_element(names.is_empty(), ']')? {
+        names.push(tok.read_value()?.as_str()?.to_string());
     }
+
+    Ok(names)
 }
 
 fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
     let mut list_content: HashMap<String, i32> = HashMap::new();
 
-    while tok.peek()? != '}' {
+    while tok.next_element(list_content.is_empty(), '}')? {
         let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
+        let value = tok.read_value()?.as_integer()?;
         list_content.insert(key, value);
-
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
     }
 
-    tok.expect('}')?;
-
     Ok(list_content)
 }
 
 fn jarray_to_container(
     tok: &mut JsonTokenizer,
     name: Option<String>,
-) -> Result<Rc<dyn RTObject>, StoryError> {
-    let (content, named) = jarray_to_runtime_obj_list(tok)?;
-
-    // Final object in the array is always a combination of
-    //  - named content
-    //  - a "#f" key with the countFlags
+) -> Result<Rc<Container>, StoryError> {
+    let mut content: Vec<Rc<dyn RTObject>> = Vec::new();
+    let mut first = true;
+
+    while tok.next_element(first, ']')? {
+        first = false;
+
+        let obj: Rc<dyn RTObject> = match tok.read_value()? {
+            // Final object in the array is always a combination of
+            //  - named content
+            //  - a "#f" key with the countFlags
+            // (if either exists at all, otherwise null)
+            JsonValue::Null => {
+                if tok.next_element(true, ']')? {
+                    return Err(StoryError::BadJson(
+                        "Only the last element can be null".to_owned(),
+                    ));
+                }
 
-    // (if either exists at all, otherwise null)
-    // let terminating_obj = jarray[jarray.len() - 1].as_object();
-    let mut name: Option<String> = name;
-    let mut flags = 0;
-    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
+                return Ok(Container::new(name, 0, content, HashMap::new()));
+            }
+            JsonValue::Object => {
+                let properties = read_properties(tok)?;
 
-    if let Some(ArrayElement::LastElement(f, n, named_content)) = named {
-        flags = f;
+                if tok.peek()? == ']' {
+                    tok.next_element(true, ']')?;
+                    return finish_container(name, content, properties);
+                }
 
-        if n.is_some() {
-            name = n;
-        }
+                properties_to_runtime_object(properties)?
+            }
+            JsonValue::Array => jarray_to_container(tok, None)?,
+            value => token_to_runtime_object(value)?,
+        };
 
-        named_only_content = named_content;
+        content.push(obj);
     }
 
-    let container = Container::new(name, flags, content, named_only_content);
-    Ok(container)
+    Err(StoryError::BadJson(
+        "A container needs a final element".to_owned(),
+    ))
 }
 
-fn jarray_to_runtime_obj_list(tok: &mut JsonTokenizer) -> RuntimeObjectListResult {
-    let mut list: RuntimeObjectList = Vec::new();
-    let mut last_element: Option<ArrayElement> = None;
-
-    while tok.peek()? != ']' {
-        let val = tok.read_value()?;
-        let runtime_obj = jtoken_to_runtime_object(tok, val, None)?;
+fn finish_container(
+    mut name: Option<String>,
+    content: Vec<Rc<dyn RTObject>>,
+    terminating_obj: Properties,
+) -> Result<Rc<Container>, StoryError> {
+    let mut flags = 0;
+    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
 
-        match runtime_obj {
-            ArrayElement::LastElement(flags, name, named_only_content) => {
-                last_element = Some(ArrayElement::LastElement(flags, name, named_only_content));
-                break;
+    for (k, v) in terminating_obj {
+        match (k.as_str(), v) {
+            ("#f", v) => flags = v.as_integer()?,
+            ("#n", v) => name = Some(v.as_str()?.to_string()),
+            (_, Property::Container(container)) => {
+                named_only_content.insert(k, container);
             }
-            ArrayElement::RTObject(rt_obj) => list.push(rt_obj),
-            ArrayElement::NullElement => {
-                // Only the last element can be null
-                if tok.peek()? != ']' {
-                    return Err(StoryError::BadJson(
-                        "Only the last element can be null".to_owned(),
-                    ));
-                }
+            (_, Property::Origins(mut position)) => {
+                let container = jarray_to_container(&mut position, Some(k.clone()))?;
+                named_only_content.insert(k, container);
+            }
+            _ => {
+                return Err(StoryError::BadJson(
+                    "Named content is not a container".to_owned(),
+                ));
             }
-        }
-
-        if tok.peek()? != ']' {
-            tok.expect(',')?;
         }
     }
 
-    tok.expect(']')?;
-
-    Ok((list, last_element))
+    Ok(Container::new(name, flags, content, named_only_content))
 }
 
 fn jtoken_to_list_definitions(
@@ -529,23 +438,17 @@ fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    tok.expect('{')?;
+    tok.begin_object()?;
 
-    while tok.peek()? != '}' {
+    while tok.next_element(all_defs.is_empty(), '}')? {
         let name = tok.read_obj_key()?;
-        tok.expect('{')?;
+        tok.begin_object()?;
 
         let items = parse_list(tok)?;
         let def = ListDefinition::new(name, items);
         all_defs.push(def);
-
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
     }
 
-    tok.expect('}')?;
-
     Ok(ListDefinitionsOrigin::new(&mut all_defs))
 }
 
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..af2e2a1 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -1,33 +1,13 @@
 //! Tokenizer for the streamed JSON parser.
-use std::io::{self, Read};
+use std::io;
+
+/// How deep arrays and objects can nest, the same as the Serde based parser.
+const MAX_DEPTH: usize = 127;
 
 #[derive(Debug)]
 pub(super) enum Number {
-    Int(i32),
-    Float(f32),
-}
-
-impl Number {
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
-        }
-    }
-
-    pub(super) fn as_float(&self) -> Option<f32> {
-        match self {
-            Number::Int(n) => Some(*n as f32),
-            Number::Float(n) => Some(*n),
-        }
-    }
-
-    pub(super) fn is_integer(&self) -> bool {
-        match self {
-            Number::Int(_) => true,
-            Number::Float(_) => false,
-        }
-    }
+    Int(i64),
+    Float(f64),
 }
 
 #[derive(Debug)]
@@ -41,269 +21,310 @@ pub(super) enum JsonValue {
 }
 
 impl JsonValue {
-    pub(super) fn as_str(&self) -> Option<&str> {
+    pub(super) fn as_str(&self) -> io::Result<&str> {
         match self {
-            JsonValue::String(s) => Some(s),
+            JsonValue::String(s) => Ok(s),
+            _ => Err(self.unexpected("a string")),
+        }
+    }
+
+    pub(super) fn as_integer(&self) -> io::Result<i32> {
+        match self {
+            JsonValue::Number(Number::Int(n)) => i32::try_from(*n).ok(),
             _ => None,
         }
+        .ok_or_else(|| self.unexpected("a 32 bit integer"))
     }
 
-    pub(super) fn as_integer(&self) -> Option<i32> {
+    pub(super) fn as_usize(&self) -> io::Result<usize> {
         match self {
-            JsonValue::Number(n) => n.as_integer(),
+            JsonValue::Number(Number::Int(n)) => usize::try_from(*n).ok(),
             _ => None,
         }
+        .ok_or_else(|| self.unexpected("a non negative integer"))
+    }
+
+    pub(super) fn unexpected(&self, expected: &str) -> io::Error {
+        invalid(format!("Expected {expected} but found: {self:?}"))
     }
 }
 
+fn invalid(msg: String) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, msg)
+}
+
+fn unexpected_eof() -> io::Error {
+    io::Error::new(io::ErrorKind::UnexpectedEof, "Unexpected end of file")
+}
+
+/// A position in the text of a JSON document. A copy can be kept to read the
+/// same value again.
+#[derive(Clone, Copy)]
 pub(super) struct JsonTokenizer<'a> {
-    json: &'a [u8],
-    lookahead: Option<char>,
-    skip_whitespaces: bool,
+    json: &'a str,
+    depth: usize,
 }
 
 impl<'a> JsonTokenizer<'a> {
     pub(super) fn new_from_str(s: &'a str) -> JsonTokenizer<'a> {
-        JsonTokenizer {
-            json: s.as_bytes(),
-            lookahead: None,
-            skip_whitespaces: true,
-        }
+        JsonTokenizer { json: s, depth: 0 }
     }
 
-    pub(super) fn read(&mut self) -> io::Result<char> {
-        let c = match self.lookahead {
-            Some(c) => {
-                self.lookahead = None;
-                c
-            }
-            None => self.read_no_lookahead()?,
-        };
-
-        Ok(c)
+    fn skip_whitespaces(&mut self) {
+        self.json = self.json.trim_start_matches([' ', '\t', '\n', '\r']);
     }
 
-    fn read_no_lookahead(&mut self) -> io::Result<char> {
-        let c = loop {
-            let c = self.read_utf8_char()?;
-
-            if !self.skip_whitespaces || !c.is_whitespace() {
-                break c;
-            }
-        };
+    fn read(&mut self) -> io::Result<char> {
+        let c = self.json.chars().next().ok_or_else(unexpected_eof)?;
+        self.json = &self.json[c.len_utf8()..];
 
         Ok(c)
     }
 
-    fn read_utf8_char(&mut self) -> io::Result<char> {
-        let mut temp_buf = [0; 1];
-        let mut utf8_char = Vec::new();
-
-        // Read bytes until a valid UTF-8 character is formed
-        loop {
-            self.json.read_exact(&mut temp_buf)?;
-            utf8_char.push(temp_buf[0]);
-
-            if let Ok(utf8_str) = std::str::from_utf8(&utf8_char)
-                && let Some(ch) = utf8_str.chars().next()
-            {
-                return Ok(ch);
-            }
-
-            // If we have read 4 bytes and still not a valid character, return an error
-            if utf8_char.len() >= 4 {
-                return Err(io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "Invalid UTF-8 sequence",
-                ));
-            }
-        }
+    fn peek_byte(&self) -> Option<u8> {
+        self.json.as_bytes().first().copied()
     }
 
+    /// The next character that isn't a whitespace.
     pub(super) fn peek(&mut self) -> io::Result<char> {
-        match self.lookahead {
-            Some(c) => Ok(c),
-            None => {
-                let c = self.read_no_lookahead()?;
-                self.lookahead = Some(c);
-                Ok(c)
-            }
-        }
+        self.skip_whitespaces();
+        self.json.chars().next().ok_or_else(unexpected_eof)
     }
 
-    pub(super) fn read_boolean(&mut self) -> io::Result<bool> {
-        let string = self.read_until_separator()?;
+    pub(super) fn expect(&mut self, c: char) -> io::Result<()> {
+        self.skip_whitespaces();
+        let c2 = self.read()?;
 
-        match string.trim() {
-            "true" => Ok(true),
-            "false" => Ok(false),
-            _ => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid boolean format",
-            )),
+        if c2 == c {
+            Ok(())
+        } else {
+            Err(invalid(format!("Expected '{}', found '{}'", c, c2)))
         }
     }
 
-    pub(super) fn read_null(&mut self) -> io::Result<()> {
-        let string = self.read_until_separator()?;
+    pub(super) fn expect_end(&mut self) -> io::Result<()> {
+        self.skip_whitespaces();
 
-        if string.trim() == "null" {
+        if self.json.is_empty() {
             Ok(())
         } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Invalid null format",
-            ))
+            Err(invalid("Unexpected text after the end".to_owned()))
         }
     }
 
-    pub(super) fn read_number(&mut self) -> io::Result<Number> {
-        let number_str = self.read_until_separator()?;
-        let number_str = number_str.trim();
+    fn begin(&mut self) -> io::Result<()> {
+        self.read()?;
+        self.depth += 1;
 
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
+        if self.depth > MAX_DEPTH {
+            return Err(invalid("Nested too deeply".to_owned()));
         }
 
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Invalid number format: '{}'", number_str),
-            )),
-        }
+        Ok(())
     }
 
-    pub(super) fn read_string(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-        let mut escape = false;
-
-        self.expect('"')?;
-        self.skip_whitespaces = false;
-
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
-                }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
-            }
-        }
-
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+    pub(super) fn begin_object(&mut self) -> io::Result<()> {
+        match self.read_value()? {
+            JsonValue::Object => Ok(()),
+            other => Err(other.unexpected("an object")),
         }
     }
 
-    fn read_until_separator(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-
-        self.skip_whitespaces = false;
+    /// After an opening bracket or an element: whether there is another
+    /// element. When there isn't, the closing bracket has been read.
+    pub(super) fn next_element(&mut self, first: bool, close: char) -> io::Result<bool> {
+        if self.peek()? == close {
+            self.read()?;
+            self.depth -= 1;
+            return Ok(false);
+        }
 
-        while !self.next_is_separator() {
-            let c = self.read()?;
-            result.push(c);
+        if !first {
+            self.expect(',')?;
         }
 
-        self.skip_whitespaces = true;
+        Ok(true)
+    }
 
-        Ok(result)
+    pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
+        self.skip_whitespaces();
+        let s = self.read_string()?;
+        self.expect(':')?;
+        Ok(s)
     }
 
-    fn next_is_separator(&mut self) -> bool {
-        match self.peek() {
-            Ok(c) => c == ',' || c == '}' || c == ']',
-            Err(_) => true,
+    /// Reads a value. Of an array or an object, only the opening bracket.
+    pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
+        match self.peek()? {
+            '[' => {
+                self.begin()?;
+                Ok(JsonValue::Array)
+            }
+            '{' => {
+                self.begin()?;
+                Ok(JsonValue::Object)
+            }
+            '"' => Ok(JsonValue::String(self.read_string()?)),
+            't' => self.read_word("true", JsonValue::Boolean(true)),
+            'f' => self.read_word("false", JsonValue::Boolean(false)),
+            'n' => self.read_word("null", JsonValue::Null),
+            _ => Ok(JsonValue::Number(self.read_number()?)),
         }
     }
 
-    pub(super) fn expect(&mut self, c: char) -> io::Result<()> {
-        while let Ok(c2) = self.read() {
-            if !c2.is_whitespace() {
-                if c2 == c {
-                    return Ok(());
-                } else {
-                    return Err(io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        format!("Expected '{}', found '{}'", c, c2),
-                    ));
+    /// Skips what remains of a value returned by `read_value`.
+    pub(super) fn skip_value(&mut self, value: &JsonValue) -> io::Result<()> {
+        let mut first = true;
+
+        match value {
+            JsonValue::Array => {
+                while self.next_element(first, ']')? {
+                    first = false;
+                    let element = self.read_value()?;
+                    self.skip_value(&element)?;
+                }
+            }
+            JsonValue::Object => {
+                while self.next_element(first, '}')? {
+                    first = false;
+                    self.read_obj_key()?;
+                    let element = self.read_value()?;
+                    self.skip_value(&element)?;
                 }
             }
+            _ => {}
         }
 
-        Err(io::Error::new(
-            io::ErrorKind::UnexpectedEof,
-            "Unexpected end of file",
-        ))
+        Ok(())
     }
 
-    pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
-        let s = self.read_string();
-        self.expect(':')?;
-        s
+    fn read_word(&mut self, word: &str, value: JsonValue) -> io::Result<JsonValue> {
+        match self.json.strip_prefix(word) {
+            Some(rest) => {
+                self.json = rest;
+                Ok(value)
+            }
+            None => Err(invalid(format!("Expected '{word}'"))),
+        }
     }
 
-    pub(super) fn expect_obj_key(&mut self, expected: &str) -> io::Result<()> {
-        let s = self.read_string()?;
-        if s != expected {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Expected '{}', found '{}'", expected, s),
-            ));
+    fn read_digits(&mut self) -> io::Result<()> {
+        let rest = self.json.trim_start_matches(|c: char| c.is_ascii_digit());
+
+        if rest.len() == self.json.len() {
+            return Err(invalid("Invalid number format".to_owned()));
         }
-        let _ = self.expect(':');
+
+        self.json = rest;
         Ok(())
     }
 
-    pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
-        //self.skip_whitespaces()?;
-        match self.peek()? {
-            '[' => {
-                self.read()?;
-                Ok(JsonValue::Array)
-            }
-            '{' => {
+    fn read_number(&mut self) -> io::Result<Number> {
+        let start = self.json;
+        let mut is_integer = true;
+
+        if self.peek_byte() == Some(b'-') {
+            self.read()?;
+        }
+
+        // Nothing can follow a leading zero
+        if self.peek_byte() == Some(b'0') {
+            self.read()?;
+        } else {
+            self.read_digits()?;
+        }
+
+        if self.peek_byte() == Some(b'.') {
+            is_integer = false;
+            self.read()?;
+            self.read_digits()?;
+        }
+
+        if matches!(self.peek_byte(), Some(b'e' | b'E')) {
+            is_integer = false;
+            self.read()?;
+
+            if matches!(self.peek_byte(), Some(b'+' | b'-')) {
                 self.read()?;
-                Ok(JsonValue::Object)
-            }
-            '"' => {
-                let s = self.read_string()?;
-                Ok(JsonValue::String(s))
             }
-            't' | 'f' => {
-                let b = self.read_boolean()?;
-                Ok(JsonValue::Boolean(b))
-            }
-            'n' => {
-                self.read_null()?;
-                Ok(JsonValue::Null)
+
+            self.read_digits()?;
+        }
+
+        let number_str = &start[..start.len() - self.json.len()];
+
+        if is_integer
+            && number_str != "-0"
+            && let Ok(num) = number_str.parse::<i64>()
+        {
+            return Ok(Number::Int(num));
+        }
+
+        match number_str.parse::<f64>() {
+            Ok(num) if num.is_finite() => Ok(Number::Float(num)),
+            _ => Err(invalid(format!("Invalid number format: '{}'", number_str))),
+        }
+    }
+
+    fn read_string(&mut self) -> io::Result<String> {
+        let mut result = String::new();
+
+        if self.read()? != '"' {
+            return Err(invalid("Expected a string".to_owned()));
+        }
+
+        loop {
+            match self.read()? {
+                '"' => return Ok(result),
+                '\\' => result.push(self.read_escape()?),
+                c if c < ' ' => {
+                    return Err(invalid("Control character in a string".to_owned()));
+                }
+                c => result.push(c),
             }
-            _ => {
-                let n = self.read_number()?;
-                Ok(JsonValue::Number(n))
+        }
+    }
+
+    fn read_escape(&mut self) -> io::Result<char> {
+        Ok(match self.read()? {
+            'b' => '\u{8}',
+            'f' => '\u{c}',
+            'n' => '\n',
+            'r' => '\r',
+            't' => '\t',
+            'u' => {
+                let first = self.read_hex4()?;
+
+                // A character outside the basic plane takes two escapes
+                let code = if (0xD800..0xDC00).contains(&first) && self.json.starts_with("\\u") {
+                    self.json = &self.json[2..];
+                    let second = self.read_hex4()?;
+
+                    if !(0xDC00..0xE000).contains(&second) {
+                        return Err(invalid("Lone surrogate in a string".to_owned()));
+                    }
+
+                    0x10000 + ((first - 0xD800) << 10) + (second - 0xDC00)
+                } else {
+                    first
+                };
+
+                char::from_u32(code)
+                    .ok_or_else(|| invalid("Lone surrogate in a string".to_owned()))?
             }
+            c @ ('"' | '\\' | '/') => c,
+            c => return Err(invalid(format!("Invalid escape '\\{}'", c))),
+        })
+    }
+
+    fn read_hex4(&mut self) -> io::Result<u32> {
+        let mut code = 0;
+
+        for _ in 0..4 {
+            let digit = self.read()?.to_digit(16);
+            code = code * 16 + digit.ok_or_else(|| invalid("Invalid unicode escape".to_owned()))?;
         }
+
+        Ok(code)
     }
 }
-- 
2.43.0


From d7295dc397af7f750dd0574cea25a309391c8308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 16/54] fix: fail before a story's strings or counters grow out
 of bounds

---
 runtime/src/callstack.rs            |  4 ++--
 runtime/src/native_function_call.rs |  4 +++-
 runtime/src/story/control_logic.rs  |  6 ++++--
 runtime/src/story/mod.rs            |  5 ++++-
 runtime/src/story_state.rs          | 10 +++++-----
 runtime/src/value_type.rs           | 14 ++++++++++++++
 6 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index e342991..164f137 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -242,7 +242,7 @@ impl CallStack {
 
     pub fn push_thread(&mut self) {
         let mut new_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         new_thread.thread_index = self.thread_counter;
         self.threads.push(new_thread);
     }
@@ -309,7 +309,7 @@ impl CallStack {
 
     pub fn fork_thread(&mut self) -> Thread {
         let mut forked_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         forked_thread.thread_index = self.thread_counter;
         forked_thread
     }
diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index ab81b49..6b85d4d 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -5,7 +5,7 @@ use crate::{
     object::{Object, RTObject},
     story_error::StoryError,
     value::Value,
-    value_type::ValueType,
+    value_type::{StringValue, ValueType},
     void::Void,
 };
 
@@ -593,6 +593,8 @@ impl NativeFunctionCall {
             },
             ValueType::String(op1) => match &params[1].value {
                 ValueType::String(op2) => {
+                    StringValue::check_length(op1.string.len() + op2.string.len())?;
+
                     let mut sb = String::new();
                     sb.push_str(&op1.string);
                     sb.push_str(&op2.string);
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 5d85f74..0c42979 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -287,6 +287,7 @@ impl Story {
                     let mut sb = String::new();
                     while let Some(c) = content_stack_for_string.pop_back() {
                         sb.push_str(&c.to_string());
+                        StringValue::check_length(sb.len())?;
                     }
 
                     // Return to expression evaluation (from content mode)
@@ -303,7 +304,7 @@ impl Story {
                 CommandType::Turns => {
                     let current_turn = self.get_state().current_turn_index;
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
+                        .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn.wrapping_add(1))));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
                     let target = self.get_state_mut().pop_evaluation_stack()?;
@@ -435,7 +436,8 @@ impl Story {
                             "No current container to get the visit index of".to_owned(),
                         ));
                     };
-                    let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
+                    let visits = self.get_state_mut().visit_count_for_container(&cpc);
+                    let count = visits.wrapping_sub(1); // index
                     // not count
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(count)));
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 5929c96..518ef2a 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -154,7 +154,10 @@ mod misc {
                 ));
             };
 
-            if num_elements <= 0 || seq_count < 0 {
+            // Every element has a divert in the container of the sequence
+            let max_elements = seq_container.content.len();
+
+            if num_elements <= 0 || num_elements as usize > max_elements || seq_count < 0 {
                 return Err(StoryError::InvalidStoryState(
                     "Expected a number of elements and a count to get the shuffle index of"
                         .to_owned(),
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 8f3c578..e7b72f6 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -419,7 +419,7 @@ impl StoryState {
 
         if has_patch {
             let curr_count = self.visit_count_for_container(container);
-            let new_count = curr_count + 1;
+            let new_count = curr_count.wrapping_add(1);
             self.patch
                 .as_mut()
                 .unwrap()
@@ -432,7 +432,7 @@ impl StoryState {
                 count = existing_count;
             }
 
-            count += 1;
+            count = count.wrapping_add(1);
             self.visit_counts.insert(container_path_str, count);
         }
     }
@@ -951,7 +951,7 @@ impl StoryState {
         self.set_current_pointer(new_pointer);
 
         if incrementing_turn_index {
-            self.current_turn_index += 1;
+            self.current_turn_index = self.current_turn_index.wrapping_add(1);
         }
 
         Ok(())
@@ -1152,14 +1152,14 @@ impl StoryState {
         if let Some(patch) = self.patch.as_ref()
             && let Some(index) = patch.get_turn_index(container)
         {
-            return Ok(self.current_turn_index - index);
+            return Ok(self.current_turn_index.wrapping_sub(*index));
         }
 
         let container_path_str = Object::get_path(container).to_string();
 
         if self.turn_indices.contains_key(&container_path_str) {
             let index = *self.turn_indices.get(&container_path_str).unwrap();
-            Ok(self.current_turn_index - index)
+            Ok(self.current_turn_index.wrapping_sub(index))
         } else {
             Ok(-1)
         }
diff --git a/runtime/src/value_type.rs b/runtime/src/value_type.rs
index fa5bf4b..cafb4cd 100644
--- a/runtime/src/value_type.rs
+++ b/runtime/src/value_type.rs
@@ -193,6 +193,20 @@ pub struct StringValue {
 }
 
 impl StringValue {
+    /// The longest string a story can build. A story that doubles a string
+    /// over and over has to fail before the memory runs out.
+    pub(crate) const MAX_LENGTH: usize = 1 << 24;
+
+    pub(crate) fn check_length(length: usize) -> Result<(), StoryError> {
+        if length > Self::MAX_LENGTH {
+            return Err(StoryError::InvalidStoryState(
+                "The string is too long.".to_owned(),
+            ));
+        }
+
+        Ok(())
+    }
+
     pub fn is_non_whitespace(&self) -> bool {
         !self.is_newline && !self.is_inline_whitespace
     }
-- 
2.43.0


From bc98bb12e6e288882983c4cff5eea3a404df0ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 17/54] fix: expressions with non-ASCII text are read by
 character, not by byte

---
 compiler/src/parser/expression.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..c64f8e6 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -49,17 +49,17 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
-                CompilerError::invalid_source("expected divert target after '->'".to_owned())
-            })?;
-            tokens.push(Token::DivertTarget(parsed.to_owned()));
             // advance past the arrow and the target identifier
             index += 2; // skip "->"
             while index < chars.len() && chars[index].is_whitespace() {
                 index += 1;
             }
-            index += parsed.len(); // skip the target name
+            let rest: String = chars[index..].iter().collect();
+            let parsed = parse_path_identifier(&rest).ok_or_else(|| {
+                CompilerError::invalid_source("expected divert target after '->'".to_owned())
+            })?;
+            tokens.push(Token::DivertTarget(parsed.to_owned()));
+            index += parsed.len(); // skip the target name (always ASCII)
             continue;
         }
 
@@ -179,16 +179,16 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +202,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +211,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -294,9 +294,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
-- 
2.43.0


From efe47b116be3d36baa1cf2bb2d4ea305ab8ee241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 18/54] fix: conditions are ordinary expressions: an empty list
 and a list item are no longer taken for a call or a read count

---
 compiler/src/emitter/conditional.rs | 20 --------------------
 compiler/src/inline.rs              | 13 ++++++-------
 2 files changed, 6 insertions(+), 27 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 7d9b757..df3f78a 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -13,26 +13,6 @@ fn emit_condition(
             };
             emit_expression_ctx(&call, out, Some(context), Some(scope));
         }
-        Condition::Expression(Expression::Variable(name))
-            if scope.resolve_choice_label(name).is_some() =>
-        {
-            // Labels are stored as absolute paths now
-            out.push(json!({"CNT?": scope.resolve_choice_label(name).unwrap()}));
-        }
-        Condition::Expression(Expression::Variable(name))
-            if context.qualified_choice_labels.contains_key(name) =>
-        {
-            out.push(json!({"CNT?": context.qualified_choice_labels[name]}));
-        }
-        Condition::Expression(Expression::Variable(name))
-            if context.top_flow_names.contains(name) || scope.child_flow_names.contains(name) =>
-        {
-            out.push(json!({"CNT?": scope.resolve_divert_target(name, context)}));
-        }
-        // Fully-qualified path like knot.stitch.label — treat as CNT? visit count
-        Condition::Expression(Expression::Variable(name)) if name.contains('.') => {
-            out.push(json!({"CNT?": name}));
-        }
         Condition::Expression(expression) => {
             emit_expression_ctx(expression, out, Some(context), Some(scope))
         }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 5dd9685..b7ca091 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -556,13 +556,12 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()")
-                && name.trim().chars().all(|c| c.is_alphanumeric() || c == '_')
-            {
-                return Ok(Condition::FunctionCall(name.trim().to_owned()));
-            }
-
-            Ok(Condition::Expression(parse_expression(condition)?))
+            Ok(match parse_expression(condition)? {
+                Expression::FunctionCall { name, args } if args.is_empty() => {
+                    Condition::FunctionCall(name)
+                }
+                expression => Condition::Expression(expression),
+            })
         }
     }
 }
-- 
2.43.0


From de661dc9d5912b7c4507d0c97314e06ff6eb020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 19/54] fix: LIST items can have negative values and '(item) =
 value'; assignments are told by what follows the name

---
 compiler/src/ast.rs                 |  2 +-
 compiler/src/emitter/context.rs     |  6 ++--
 compiler/src/parser/declarations.rs | 54 ++++++++++++++++++-----------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 8207f66..4ab514c 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -87,7 +87,7 @@ pub struct GlobalVariable {
 pub struct ListDeclaration {
     pub name: String,
     /// All items in order: (item_name, value_number, initially_selected)
-    pub items: Vec<(String, u32, bool)>,
+    pub items: Vec<(String, i32, bool)>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..2a04bae 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -106,7 +106,7 @@ struct EmitContext {
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
     /// For each list name, a map from bare item name → (qualified name, value)
-    list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
+    list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
     /// Count flags required by explicit references to flow containers.
@@ -312,7 +312,7 @@ impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
-            let items: Vec<(String, u32)> = list_decl
+            let items: Vec<(String, i32)> = list_decl
                 .items
                 .iter()
                 .map(|(name, value, _)| (format!("{}.{}", list_decl.name, name), *value))
@@ -384,7 +384,7 @@ impl EmitContext {
 
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
-    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
+    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
         // If already qualified (contains '.'), use as-is
         if bare_name.contains('.') {
             for items in self.list_items.values() {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..80f01c3 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -49,13 +49,14 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut value: i32 = 1;
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
             continue;
         }
-        // Strip optional parens (marks the item as initially selected)
+        // Strip optional parens (marks the item as initially selected), which
+        // surround either the name or the whole item: `(name) = 2`, `(name = 2)`
         let (inner, selected) =
             if let Some(inner) = item.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
                 (inner.trim(), true)
@@ -63,20 +64,26 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
                 (item, false)
             };
         // Check for explicit value assignment: `name = number`
-        if let Some((item_name, item_value)) = inner.split_once('=') {
-            let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
-                CompilerError::invalid_source(format!(
-                    "invalid LIST item value: '{}'",
-                    item_value.trim()
-                ))
-            })?;
-            value = explicit_value;
-            items.push((item_name, value, selected));
-        } else {
-            items.push((inner.to_owned(), value, selected));
-        }
-        value += 1;
+        let (item_name, explicit_value) = match inner.split_once('=') {
+            Some((item_name, item_value)) => {
+                let explicit_value: i32 = item_value.trim().parse().map_err(|_| {
+                    CompilerError::invalid_source(format!(
+                        "invalid LIST item value: '{}'",
+                        item_value.trim()
+                    ))
+                })?;
+                (item_name.trim(), Some(explicit_value))
+            }
+            None => (inner, None),
+        };
+        let (item_name, selected) =
+            match item_name.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
+                Some(item_name) => (item_name.trim(), true),
+                None => (item_name, selected),
+            };
+        let item_value = explicit_value.unwrap_or(value);
+        items.push((item_name.to_owned(), item_value, selected));
+        value = item_value.wrapping_add(1);
     }
 
     Ok(ListDeclaration { name, items })
@@ -110,15 +117,20 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    // Check for a standalone function call (no '=' in the statement, but has '()')
-    // e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
-    if !input.contains('=')
+    // What follows the name tells a standalone function call, such as
+    // `~ derp(2, 3, 4)` or `~ merchant_init()`, from an assignment: the
+    // arguments and the assigned expression can contain any operator.
+    let after_name = parse_path_identifier(input)
+        .map_or(input, |name| &input[name.len()..])
+        .trim_start();
+
+    if after_name.starts_with('(')
         && let Ok(Some((name, args))) = parse_call_like(input)
     {
         return Ok(Node::VoidCall { name, args });
     }
 
-    if input.contains("+=") {
+    if after_name.starts_with("+=") {
         let (name, expression) = split_assignment(input, "+=")?;
         return Ok(Node::Assignment {
             variable_name: name,
@@ -127,7 +139,7 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    if input.contains("-=") {
+    if after_name.starts_with("-=") {
         let (name, expression) = split_assignment(input, "-=")?;
         return Ok(Node::Assignment {
             variable_name: name,
-- 
2.43.0


From 66c43cb1baa58a5bc2b876cb2861be37dd4c5d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 20/54] fix: constants and list items are resolved wherever an
 expression can stand, and constants can refer to constants

---
 compiler/src/consts.rs             | 56 +++++++++++++++++++++++++++---
 compiler/src/emitter/context.rs    |  6 +++-
 compiler/src/emitter/expression.rs | 15 +++++---
 compiler/src/emitter/flow.rs       |  8 ++++-
 compiler/src/emitter/mod.rs        |  2 +-
 compiler/src/lib.rs                |  2 +-
 6 files changed, 76 insertions(+), 13 deletions(-)

diff --git a/compiler/src/consts.rs b/compiler/src/consts.rs
index 2a37218..b8f9f20 100644
--- a/compiler/src/consts.rs
+++ b/compiler/src/consts.rs
@@ -1,12 +1,17 @@
 use std::collections::HashMap;
 
-use crate::ast::{Choice, Condition, Expression, Flow, Node, ParsedStory};
+use crate::{
+    ast::{Choice, Condition, Expression, Flow, Node, ParsedStory},
+    error::CompilerError,
+};
 
-pub(crate) fn resolve(mut story: ParsedStory) -> ParsedStory {
+pub(crate) fn resolve(mut story: ParsedStory) -> Result<ParsedStory, CompilerError> {
     if story.consts.is_empty() {
-        return story;
+        return Ok(story);
     }
 
+    resolve_consts(&mut story.consts)?;
+
     for global in &mut story.globals {
         resolve_expression(&mut global.initial_value, &story.consts);
     }
@@ -16,7 +21,50 @@ pub(crate) fn resolve(mut story: ParsedStory) -> ParsedStory {
     for flow in &mut story.flows {
         resolve_flow(flow, &consts);
     }
-    story
+    Ok(story)
+}
+
+/// Constants can refer to other constants, whose values are resolved first.
+fn resolve_consts(consts: &mut HashMap<String, Expression>) -> Result<(), CompilerError> {
+    let mut resolved = HashMap::new();
+
+    while resolved.len() < consts.len() {
+        let ready: Vec<String> = consts
+            .iter()
+            .filter(|(name, value)| {
+                !resolved.contains_key(*name)
+                    && !refers_to(value, &|other| {
+                        consts.contains_key(other) && !resolved.contains_key(other)
+                    })
+            })
+            .map(|(name, _)| name.clone())
+            .collect();
+
+        if ready.is_empty() {
+            return Err(CompilerError::invalid_source(
+                "CONST declarations refer to each other in a cycle".to_owned(),
+            ));
+        }
+
+        for name in ready {
+            let mut value = consts[&name].clone();
+            resolve_expression(&mut value, &resolved);
+            resolved.insert(name, value);
+        }
+    }
+
+    *consts = resolved;
+    Ok(())
+}
+
+fn refers_to(expression: &Expression, test: &dyn Fn(&str) -> bool) -> bool {
+    match expression {
+        Expression::Variable(name) => test(name),
+        Expression::Binary { left, right, .. } => refers_to(left, test) || refers_to(right, test),
+        Expression::Negate(inner) | Expression::Not(inner) => refers_to(inner, test),
+        Expression::FunctionCall { args, .. } => args.iter().any(|arg| refers_to(arg, test)),
+        _ => false,
+    }
 }
 
 fn resolve_flow(flow: &mut Flow, consts: &HashMap<String, Expression>) {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 2a04bae..70fb287 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,7 +40,7 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
+            emit_global_declarations(story.globals(), story.list_declarations(), &context)?
                 .into_json_array(None, None)?,
         );
     }
@@ -109,6 +109,9 @@ struct EmitContext {
     list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
+    /// CONST declarations, for the expressions inside text that is only parsed
+    /// when it's emitted (choice text, tags, strings)
+    constants: HashMap<String, Expression>,
     /// Count flags required by explicit references to flow containers.
     flow_count_flags: BTreeMap<String, i32>,
     /// Fully-qualified authored label targets (e.g. `knot.stitch.choice`) mapped
@@ -375,6 +378,7 @@ impl EmitContext {
                 .collect(),
             list_items,
             external_functions: story.external_functions.iter().cloned().collect(),
+            constants: story.consts.clone(),
             flow_count_flags,
             qualified_choice_labels,
             function_ref_param_positions,
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 9f229fa..a7b1e6d 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -223,10 +223,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
@@ -290,7 +286,16 @@ fn emit_expression_ctx(
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
-            if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
+            if let Some(value) = context.and_then(|ctx| ctx.constants.get(name)) {
+                emit_expression_ctx(value, out, context, scope);
+                return;
+            }
+            // A dotted name is a list item (`list.item`) before it is a path
+            if name.contains('.')
+                && context.is_some_and(|ctx| ctx.resolve_list_item(name).is_some())
+            {
+                out.push(json!({"VAR?": name}))
+            } else if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
                 out.push(json!({"CNT?": path}))
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 8e55cd9..ba72534 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,7 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +27,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            None,
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bada2f3..294c5c1 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -1,4 +1,4 @@
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 
 use bladeink::story::INK_VERSION_CURRENT;
 use serde_json::{Map, Value, json};
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..d9e1c3f 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -103,7 +103,7 @@ impl Compiler {
             .as_deref()
             .unwrap_or("<source>");
         let parsed_story = includes::parse_story_with_includes(source, &file_handler, source_name)?;
-        let parsed_story = consts::resolve(parsed_story);
+        let parsed_story = consts::resolve(parsed_story)?;
         validator::validate(&parsed_story)?;
         emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
             .map_err(|e| CompilerError::invalid_source(e.to_string()))
-- 
2.43.0


From 5f6c9dabc3e2cf0efa714e7fb1ef951dc59c14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 21/54] fix: a label is found from anywhere in its knot

---
 compiler/src/emitter/context.rs    | 18 ++++++++++++++++++
 compiler/src/emitter/expression.rs |  4 +++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 70fb287..e0ff4ff 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -538,6 +538,10 @@ impl EmitScope {
             return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
         }
 
+        if let Some(label_target) = self.resolve_label(target, context) {
+            return label_target.to_owned();
+        }
+
         if let Some(abs) = context.unqualified_flow_targets.get(target) {
             return abs.clone();
         }
@@ -555,6 +559,20 @@ impl EmitScope {
         self.choice_label_targets.get(label).map(String::as_str)
     }
 
+    /// A label of this weave, or else one anywhere in the same knot.
+    fn resolve_label<'a>(&'a self, label: &str, context: &'a EmitContext) -> Option<&'a str> {
+        if let Some(path) = self.resolve_choice_label(label) {
+            return Some(path);
+        }
+        let knot = format!("{}.", self.top_flow_name.as_deref()?);
+        let suffix = format!(".{label}");
+        context
+            .qualified_choice_labels
+            .iter()
+            .find(|(name, _)| name.starts_with(&knot) && name.ends_with(&suffix))
+            .map(|(_, path)| path.as_str())
+    }
+
     fn resolve_qualified_choice_label(
         &self,
         target: &str,
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index a7b1e6d..bc30457 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -295,7 +295,9 @@ fn emit_expression_ctx(
                 && context.is_some_and(|ctx| ctx.resolve_list_item(name).is_some())
             {
                 out.push(json!({"VAR?": name}))
-            } else if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
+            } else if let (Some(s), Some(ctx)) = (scope, context)
+                && let Some(path) = s.resolve_label(name, ctx)
+            {
                 out.push(json!({"CNT?": path}))
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
-- 
2.43.0


From 4d0b9b8610e1e9de453d8f8025f086c4a0f40f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 22/54] fix: choices: a divert on its own line below a choice
 and a quotation closed inside the brackets

---
 compiler/src/emitter/choice.rs         | 1 +
 compiler/src/emitter/choice_wrapped.rs | 1 +
 compiler/src/parser/choice.rs          | 7 +++++--
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 4d305c9..ca51ad5 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -53,6 +53,7 @@ fn emit_choice(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
             branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index a1daacf..2ae4289 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -219,6 +219,7 @@ fn emit_wrapped_loop_choice_body(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
             branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index ab40fd9..f47a696 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -436,9 +436,12 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
         let (end_text, end_tags) = split_text_and_tags(end)?;
         // Append closing punctuation from `end` to choice_only_text only when the
-        // `end` segment is plain text that starts with closing punctuation (like `."` or `,'`).
+        // `end` segment is plain text that starts with closing punctuation (like `."` or `,'`)
+        // and the choice text doesn't close its quotation itself.
         // Do NOT pull chars from an expression like `{foo}`.
-        let display_suffix: String = if !end.trim_start().starts_with('{') {
+        let display_suffix: String = if !end.trim_start().starts_with('{')
+            && !choice_only_text.ends_with(['\'', '"', ')', ']'])
+        {
             end_text
                 .chars()
                 .take_while(|c| c.is_ascii_punctuation())
-- 
2.43.0


From 5bb306c184a27bf4ce51d12aec1d9cce79aa1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 23/54] fix: '-else:' starts the else branch however it is
 spaced

---
 compiler/src/parser/conditional.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..b2779e1 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -70,7 +70,7 @@ pub fn parse_conditional(
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
             && !first_body.starts_with("->")
-            && !first_body.starts_with("- else:")
+            && else_branch(first_body).is_none()
         {
             // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
             let branch_content = first_body.trim_start_matches('-').trim_start();
@@ -164,20 +164,10 @@ pub fn parse_conditional(
             return Ok(nodes);
         }
 
-        if trimmed == "- else:" {
+        // `- else:`, with or without content on the same line
+        if let Some(rest) = else_branch(trimmed) {
             in_else = true;
             *line_index += 1;
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
-            continue;
-        }
-
-        // `- else: inline_content` on a single line
-        if let Some(else_content) = trimmed.strip_prefix("- else:") {
-            in_else = true;
-            *line_index += 1;
-            let rest = else_content.trim();
             if !rest.is_empty() {
                 when_false.extend(tokenize_inline_content(rest)?);
             }
@@ -309,7 +299,7 @@ pub fn parse_multi_branch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(trimmed) {
                 current_condition = None;
                 if !rest.trim().is_empty() {
                     current_nodes.extend(tokenize_inline_content(rest.trim())?);
@@ -494,7 +484,7 @@ fn parse_switch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(trimmed) {
                 current_case = None; // else branch
                 let rest = rest.trim();
                 if !rest.is_empty() {
@@ -579,6 +569,13 @@ fn parse_switch_conditional(
     Ok(result)
 }
 
+/// The content after the colon of an `- else:` line, however it is spaced.
+fn else_branch(trimmed: &str) -> Option<&str> {
+    let rest = trimmed.strip_prefix('-')?.trim_start();
+    let rest = rest.strip_prefix("else")?.trim_start();
+    Some(rest.strip_prefix(':')?.trim())
+}
+
 /// If `trimmed` is exactly `}` or starts with `} ` / `}<>` etc., return the tail after `}`.
 /// Returns `None` if the line is not a closing brace line.
 fn closing_brace_tail(trimmed: &str) -> Option<&str> {
-- 
2.43.0


From 83d412250e9a91779d358caa0c4c79411a856f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 24/54] fix: white space inside inline alternatives is text,
 and glue works in choice text and tags

---
 compiler/src/emitter/expression.rs |  8 ++------
 compiler/src/inline.rs             | 22 ++++++++++++++++------
 compiler/src/parser/conditional.rs |  4 ++--
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index bc30457..4bd42d9 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -548,9 +548,7 @@ fn emit_choice_text_segment(
     out.push(json!("str"));
     if !text.is_empty() {
         // Parse the text for inline {expr} and {&sequence} interpolations
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
+        let dynamic = parse_dynamic_string(text)?;
         let has_inline = dynamic
             .parts
             .iter()
@@ -580,9 +578,7 @@ fn emit_choice_text_content(
     }
 
     if !text.is_empty() {
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
+        let dynamic = parse_dynamic_string(text)?;
         let has_inline = dynamic
             .parts
             .iter()
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index b7ca091..b6270e7 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -104,11 +104,10 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             if let Some((condition, branch_text)) = parse_inline_conditional(inline)? {
                 // Split on top-level '|' to get optional false branch.
                 let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                // Use trim_end (not trim) to preserve the leading space that authors
-                // write after ':' — inklecate keeps it as part of the text token.
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
+                // White space inside the branches is part of their text.
+                let when_true = tokenize_inline_content(branches[0])?;
                 let when_false = if branches.len() > 1 {
-                    Some(tokenize_inline_content(branches[1].trim_end())?)
+                    Some(tokenize_inline_content(branches[1])?)
                 } else {
                     None
                 };
@@ -151,6 +150,15 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
     let mut chars = input.char_indices().peekable();
 
     while let Some((index, ch)) = chars.next() {
+        if input[index..].starts_with("<>") {
+            if !text.is_empty() {
+                parts.push(DynamicStringPart::Text(std::mem::take(&mut text)));
+            }
+            parts.push(DynamicStringPart::Content(vec![Node::Glue]));
+            chars.next();
+            continue;
+        }
+
         if ch == '{' {
             let end = find_matching_brace(input, index).ok_or_else(|| {
                 CompilerError::invalid_source("unterminated inline brace expression".to_owned())
@@ -589,8 +597,10 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
     }
 
     let mut branches = Vec::new();
-    for part in parts {
-        branches.push(tokenize_inline_content(part.trim())?);
+    for (index, part) in parts.into_iter().enumerate() {
+        // White space after the opening brace is skipped, any other is text
+        let part = if index == 0 { part.trim_start() } else { part };
+        branches.push(tokenize_inline_content(part)?);
     }
 
     Ok(Some(Sequence { mode, branches }))
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index b2779e1..a75b96d 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -32,9 +32,9 @@ pub fn parse_conditional(
         // Split the branch text by top-level `|` to get true and false branches
         use super::inline::split_top_level_pipe;
         let branches: Vec<&str> = split_top_level_pipe(branch_text);
-        let when_true = tokenize_inline_content(branches[0].trim_end())?;
+        let when_true = tokenize_inline_content(branches[0])?;
         let when_false = if branches.len() > 1 {
-            Some(tokenize_inline_content(branches[1].trim_end())?)
+            Some(tokenize_inline_content(branches[1])?)
         } else {
             None
         };
-- 
2.43.0


From c356a295793c95f077c60df46c1850de027e18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 25/54] fix: the arrows, brackets and tags of a choice line
 mean what they mean anywhere else

Text before a divert ends in one space, the first arrow starts the diverts, tunnels and
tunnel returns after choice text are followed, white space inside brackets is text, and tags
before the bracket are also tags of the chosen line.
---
 compiler/src/ast.rs                    |  5 +-
 compiler/src/emitter/choice.rs         | 91 +++++---------------------
 compiler/src/emitter/choice_wrapped.rs | 65 ++----------------
 compiler/src/emitter/conditional.rs    | 10 ---
 compiler/src/emitter/nodes.rs          |  3 +-
 compiler/src/inline.rs                 | 50 ++++++--------
 compiler/src/parser/choice.rs          | 89 ++++++-------------------
 compiler/src/parser/declarations.rs    |  8 +--
 compiler/src/parser/mod.rs             |  2 +-
 9 files changed, 72 insertions(+), 251 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 4ab514c..6c8f3e3 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -114,8 +114,9 @@ pub struct Choice {
     pub selected_tags: Vec<DynamicString>,
     /// Nesting level of this choice: 1 for `*`/`+`, 2 for `**`/`++`, etc.
     pub nesting_level: usize,
-    /// True when the divert in body came from an inline `-> target` on the choice line itself.
-    pub body_divert_is_inline: bool,
+    /// How many nodes of the body come from the divert, tunnels or tunnel return at the end of
+    /// the choice line itself.
+    pub inline_divert_count: usize,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index ca51ad5..fdb11d4 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -43,81 +43,11 @@ fn emit_choice(
     out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
 
     let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
     if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && choice.body_divert_is_inline
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
-        }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted {
-            // Skip the auto-newline for terminal diverts, and also for inline diverts that are
-            // authored after inline selected text on the same source line (the selected text keeps
-            // the trailing whitespace needed to join the diverted content).
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && choice.body_divert_is_inline;
-            if !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        // choice-only with single divert body:
-        // - inline divert (same line): "^ " then divert then "\n" (inklecate behavior)
-        // - body divert (indented line): "\n" then divert
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && branch_nodes.is_empty()
-        && !choice.body.is_empty()
-    {
-        // choice-only with multi-node body: "\n" then body
-        branch_nodes.push(Node::Newline);
-        branch_nodes.extend(choice.body.clone());
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content && choice.body.is_empty()
-    {
-        // choice-only with completely empty body: inklecate always opens the c-N
-        // container with a "\n" (representing the line break after the user selects).
-        branch_nodes.push(Node::Newline);
-        body_already_emitted = true;
-    }
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
+        branch_nodes.extend(tokenize_inline_content(selected_text)?);
     }
+    branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
+    push_choice_line_end(&mut branch_nodes, choice);
 
     // Check if branch body contains nested choices (at any position)
     let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
@@ -160,3 +90,18 @@ fn emit_choice(
 
     Ok(())
 }
+
+/// The arrows that end the choice line, the end of the line, and the body below it.
+fn push_choice_line_end(branch_nodes: &mut Vec<Node>, choice: &Choice) {
+    let (inline_diverts, body) = choice.body.split_at(choice.inline_divert_count);
+    if !inline_diverts.is_empty()
+        && branch_nodes.is_empty()
+        && choice.has_choice_only_content
+        && !choice.has_start_content
+    {
+        branch_nodes.push(Node::Text(" ".to_owned()));
+    }
+    branch_nodes.extend(inline_diverts.iter().cloned());
+    branch_nodes.push(Node::Newline);
+    branch_nodes.extend(body.iter().cloned());
+}
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 2ae4289..444b45f 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -202,70 +202,18 @@ fn emit_wrapped_loop_choice_body(
     context: &EmitContext,
 ) -> Result<Value, CompilerError> {
     let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
     let mut branch_scope = branch_scope.clone();
     if choice.has_start_content {
-        // The body follows the seven objects that print the start text (see below).
-        branch_scope.param_offset = 7;
-    }
-    let branch_scope = &branch_scope;
-
-    if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && choice.body_divert_is_inline
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else if !choice.has_start_content {
+        // The body follows the six objects that print the start text (see below).
+        branch_scope.param_offset = 6;
+    } else {
+        if let Some(selected_text) = &choice.selected_text {
             branch_nodes.extend(tokenize_inline_content(selected_text)?);
         }
         branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted && !choice.has_start_content {
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && choice.body_divert_is_inline;
-            if !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content {
-        branch_nodes.push(Node::Newline);
-    }
-
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
     }
+    let branch_scope = &branch_scope;
+    push_choice_line_end(&mut branch_nodes, choice);
 
     let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
     let mut branch_container = if has_nested_choices {
@@ -323,7 +271,6 @@ fn emit_wrapped_loop_choice_body(
         json!({"temp=": "$r"}),
         json!({"->": format!("{}.{}.s", config.choices_prefix, config.header_idx)}),
         Value::Array(vec![json!({"#n": "$r2"})]),
-        json!("\n"),
     ];
     out.append(&mut arr);
     out.push(last);
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index df3f78a..5cc40bc 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -57,16 +57,6 @@ fn node_is_terminal(node: &Node) -> bool {
     }
 }
 
-fn recover_selected_text_inline_divert(selected_text: &str) -> Option<(String, String)> {
-    let (text, target) = selected_text.rsplit_once("->")?;
-    let target = target.trim();
-    if target.is_empty() || target.contains([' ', '}', ')']) {
-        return None;
-    }
-
-    Some((text.trim_end().to_owned(), target.to_owned()))
-}
-
 fn choice_flags(choice: &Choice) -> i32 {
     let mut flags = 0;
     if !choice.conditions.is_empty() {
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index b36368a..06b622f 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -130,7 +130,7 @@ fn choice_can_be_threaded(node: &Node) -> bool {
     !choice.has_start_content
         || (!choice.has_choice_only_content
             && choice.selected_text.as_deref() == Some(choice.start_text.as_str())
-            && choice.selected_tags.is_empty()
+            && choice.selected_tags == choice.start_tags
             && !choice.start_text.contains('{'))
 }
 
@@ -193,6 +193,7 @@ fn analyze_weave_choice_section<'a>(
 ) -> WeaveChoiceSection<'a> {
     if let Some((loop_label, strip_label)) = threaded_loop_label_for_choice_block(continuation)
         && should_use_wrapped_choice_for_label(&loop_label, scope)
+        && choices.iter().all(choice_can_be_threaded)
     {
         let mut continuation_tail = skip_leading_newlines(continuation);
         if strip_label
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index b6270e7..3144ac2 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -82,7 +82,9 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
         // Divert or tunnel: -> target  or  -> target ->
         if ch == '-' && content[index..].starts_with("->") {
             if !text.is_empty() {
-                nodes.push(Node::Text(std::mem::take(&mut text)));
+                // One space separates the text from what follows the divert.
+                let before = std::mem::take(&mut text);
+                nodes.push(Node::Text(format!("{} ", before.trim_end_matches([' ', '\t']))));
             }
             let divert_str = content[index..].trim();
             let mut divert_nodes = parse_divert_line(divert_str)?;
@@ -370,44 +372,32 @@ fn split_top_level_divert_segments(input: &str) -> Vec<&str> {
     segments
 }
 
-pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
-    // Find the last "->" that is not inside braces/parens
-    let bytes = content.as_bytes();
-    let len = content.len();
+/// Splits a choice's text from the divert, tunnels or tunnel return that end its line.
+pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Vec<Node>), CompilerError> {
     let mut depth = 0usize;
-    let mut arrow_pos: Option<usize> = None;
-
-    let mut i = 0;
-    while i < len {
-        match bytes[i] {
-            b'{' | b'(' => depth += 1,
-            b'}' | b')' => depth = depth.saturating_sub(1),
-            b'-' if depth == 0 && i + 1 < len && bytes[i + 1] == b'>' => {
-                arrow_pos = Some(i);
-                i += 2;
-                continue;
+    let mut escaped = false;
+    for (index, ch) in input.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            '-' if depth == 0 && input[index..].starts_with("->") => {
+                return Ok((&input[..index], parse_choice_diverts(&input[index..])?));
             }
             _ => {}
         }
-        i += 1;
     }
 
-    let index = arrow_pos?;
-    let (text, rest) = content.split_at(index);
-    let divert = rest.strip_prefix("->")?.trim();
-    if divert.is_empty() {
-        None
-    } else {
-        Some((text, divert))
-    }
+    Ok((input, Vec::new()))
 }
 
-pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Option<Divert>), CompilerError> {
-    if let Some((text, divert_part)) = split_inline_divert(input) {
-        return Ok((text, Some(parse_divert(divert_part)?)));
+/// The nodes of the arrows ending a choice line; a lone `->` leaves the choice to its body.
+pub fn parse_choice_diverts(input: &str) -> Result<Vec<Node>, CompilerError> {
+    match input.trim() {
+        "" | "->" => Ok(Vec::new()),
+        diverts => parse_divert_line(diverts),
     }
-
-    Ok((input, None))
 }
 
 pub fn split_text_and_tags(input: &str) -> Result<(String, Vec<DynamicString>), CompilerError> {
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index f47a696..bc8eb47 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -1,14 +1,12 @@
 use crate::{
-    ast::{Choice, Condition, Divert, DynamicString, Node},
+    ast::{Choice, Condition, DynamicString, Node},
     error::CompilerError,
 };
 
-use super::inline::parse_divert_line;
-
 use super::{
     Line, ParsedStatement,
     inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_text_and_tags,
+        parse_choice_diverts, parse_condition, split_inline_choice_divert, split_text_and_tags,
     },
 };
 
@@ -19,9 +17,8 @@ pub struct ParsedChoiceText {
     pub choice_only_text: String,
     pub has_start_content: bool,
     pub has_choice_only_content: bool,
-    pub inline_target: Option<Divert>,
-    /// Additional body nodes emitted BEFORE inline_target (e.g. for ->-> target(args))
-    pub inline_body_nodes: Vec<Node>,
+    /// The divert, tunnels or tunnel return at the end of the choice line
+    pub inline_diverts: Vec<Node>,
     pub start_tags: Vec<DynamicString>,
     pub choice_only_tags: Vec<DynamicString>,
     pub selected_tags: Vec<DynamicString>,
@@ -122,23 +119,12 @@ pub fn parse_choice(
         }
     }
 
-    let mut body = Vec::new();
+    let mut body = choice_text.inline_diverts;
+    let inline_divert_count = body.len();
     // Once we absorb a same-level gather, everything that follows at our indent
     // (choices, text, etc.) becomes part of this choice's body continuation.
     let mut absorbed_gather = false;
 
-    for node in choice_text.inline_body_nodes.clone() {
-        body.push(node);
-    }
-    if let Some(divert) = choice_text.inline_target.clone() {
-        if divert.target.contains("->") {
-            // A tunnel or a tunnel return: `* [text] -> tunnel ->`, `* [text] ->->`
-            body.extend(parse_divert_line(&format!("->{}", divert.target))?);
-        } else {
-            body.push(Node::Divert(divert));
-        }
-    }
-
     while *line_index < lines.len() {
         let body_line = &lines[*line_index];
         let body_trimmed = body_line.content.trim();
@@ -233,7 +219,7 @@ pub fn parse_choice(
         choice_only_tags: choice_text.choice_only_tags,
         selected_tags: choice_text.selected_tags,
         nesting_level,
-        body_divert_is_inline: choice_text.inline_target.is_some(),
+        inline_divert_count,
     })]))
 }
 
@@ -312,30 +298,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         .map(str::trim_start)
         .unwrap_or(trimmed);
 
-    if trimmed.starts_with("->->") {
-        // `* ->-> target(args)` — tunnel return with optional new destination
-        let nodes = parse_divert_line(trimmed)?;
-        return Ok(ParsedChoiceText {
-            display_text: String::new(),
-            selected_text: None,
-            start_text: String::new(),
-            choice_only_text: String::new(),
-            has_start_content: false,
-            has_choice_only_content: false,
-            inline_target: None,
-            inline_body_nodes: nodes,
-            start_tags: Vec::new(),
-            choice_only_tags: Vec::new(),
-            selected_tags: Vec::new(),
-        });
-    }
-
-    if let Some(target) = trimmed.strip_prefix("->") {
-        let inline_target = if target.trim().is_empty() {
-            None
-        } else {
-            Some(parse_divert(target.trim())?)
-        };
+    if trimmed.starts_with("->") {
         return Ok(ParsedChoiceText {
             display_text: String::new(),
             selected_text: None,
@@ -343,8 +306,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
             choice_only_text: String::new(),
             has_start_content: false,
             has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
+            inline_diverts: parse_choice_diverts(trimmed)?,
             start_tags: Vec::new(),
             choice_only_tags: Vec::new(),
             selected_tags: Vec::new(),
@@ -364,11 +326,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         };
         let (choice_only_text, choice_only_tags) = split_text_and_tags(&label)?;
         if after_label.is_empty() || after_label.starts_with("->") {
-            let inline_target = after_label
-                .strip_prefix("->")
-                .map(str::trim)
-                .map(parse_divert)
-                .transpose()?;
+            let inline_diverts = parse_choice_diverts(after_label)?;
             return Ok(ParsedChoiceText {
                 display_text: choice_only_text.clone(),
                 selected_text: None,
@@ -376,15 +334,14 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
                 choice_only_text,
                 has_start_content: false,
                 has_choice_only_content: true,
-                inline_target,
-                inline_body_nodes: Vec::new(),
+                inline_diverts,
                 start_tags: Vec::new(),
                 choice_only_tags,
                 selected_tags: Vec::new(),
             });
         }
 
-        let (selected_text, inline_target) = split_inline_choice_divert(after_label)?;
+        let (selected_text, inline_diverts) = split_inline_choice_divert(after_label)?;
         let (selected_text, selected_tags) = split_text_and_tags(selected_text)?;
         return Ok(ParsedChoiceText {
             display_text: choice_only_text.clone(),
@@ -393,8 +350,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
             choice_only_text,
             has_start_content: false,
             has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
+            inline_diverts,
             start_tags: Vec::new(),
             choice_only_tags,
             selected_tags,
@@ -404,7 +360,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     if let Some((before, after)) = trimmed.split_once("[]") {
         let display = before.trim_end().to_owned();
         let raw_suffix = after;
-        let (suffix, inline_target) = split_inline_choice_divert(raw_suffix)?;
+        let (suffix, inline_diverts) = split_inline_choice_divert(raw_suffix)?;
         let (start_text, start_tags) = split_text_and_tags(&display)?;
         let selected = Some(format!("{before}{suffix}"));
         let (selected_text, selected_tags) =
@@ -416,8 +372,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
             choice_only_text: String::new(),
             has_start_content: true,
             has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
+            inline_diverts,
             start_tags,
             choice_only_tags: Vec::new(),
             selected_tags,
@@ -429,9 +384,9 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     {
         let close = open + 1 + close_rel;
         let start = &trimmed[..open];
-        let choice_only = trimmed[open + 1..close].trim();
+        let choice_only = &trimmed[open + 1..close];
         let end = &trimmed[close + 1..];
-        let (end, inline_target) = split_inline_choice_divert(end)?;
+        let (end, inline_diverts) = split_inline_choice_divert(end)?;
         let (start_text, start_tags) = split_text_and_tags(start)?;
         let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
         let (end_text, end_tags) = split_text_and_tags(end)?;
@@ -462,15 +417,14 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
             choice_only_text,
             has_start_content: !start.trim().is_empty(),
             has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
+            inline_diverts,
             start_tags,
             choice_only_tags,
             selected_tags,
         });
     }
 
-    let (trimmed, inline_target) = split_inline_choice_divert(trimmed)?;
+    let (trimmed, inline_diverts) = split_inline_choice_divert(trimmed)?;
     let (start_text, start_tags) = split_text_and_tags(trimmed)?;
     Ok(ParsedChoiceText {
         display_text: start_text.clone(),
@@ -483,10 +437,9 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         choice_only_text: String::new(),
         has_start_content: !start_text.is_empty(),
         has_choice_only_content: false,
-        inline_target,
-        inline_body_nodes: Vec::new(),
+        inline_diverts,
+        selected_tags: start_tags.clone(),
         start_tags,
         choice_only_tags: Vec::new(),
-        selected_tags: Vec::new(),
     })
 }
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 80f01c3..abfc98b 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -8,13 +8,7 @@ fn parse_content_line(
         line.content
     };
 
-    let mut nodes = Vec::new();
-    if let Some((text_part, divert_part)) = split_inline_divert(content) {
-        nodes.extend(tokenize_inline_content(text_part)?);
-        nodes.push(Node::Divert(parse_divert(divert_part)?));
-    } else {
-        nodes.extend(tokenize_inline_content(content)?);
-    }
+    let mut nodes = tokenize_inline_content(content)?;
 
     if line.had_newline {
         // Trim trailing whitespace from the last text node (inklecate behavior)
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..f287c57 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -14,7 +14,7 @@ use self::{
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
     inline::{
-        parse_divert, parse_divert_line, parse_dynamic_string, split_inline_divert,
+        parse_divert, parse_divert_line, parse_dynamic_string,
         tokenize_inline_content,
     },
     sequence::{looks_like_sequence, parse_sequence},
-- 
2.43.0


From 42cffb2f2ccc8de1d0b822bdfec11c98b9f9a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 26/54] fix: the line of a tunnel or a thread ends when play
 comes back to it

---
 compiler/src/parser/statement.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..6909902 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -296,14 +296,20 @@ pub fn parse_statement(
     if let Some(rest) = thread_rest {
         *line_index += 1;
         let divert = parse_divert(rest).map_err(|e| e.with_line(ln))?;
-        return Ok(ParsedStatement::Nodes(vec![Node::ThreadDivert(divert)]));
+        return Ok(ParsedStatement::Nodes(vec![
+            Node::ThreadDivert(divert),
+            Node::Newline,
+        ]));
     }
 
     if trimmed.starts_with("->") {
         *line_index += 1;
-        return Ok(ParsedStatement::Nodes(
-            parse_divert_line(trimmed).map_err(|e| e.with_line(ln))?,
-        ));
+        let mut nodes = parse_divert_line(trimmed).map_err(|e| e.with_line(ln))?;
+        // Play comes back to the end of this line after a tunnel.
+        if nodes.iter().any(|node| matches!(node, Node::TunnelDivert { .. })) {
+            nodes.push(Node::Newline);
+        }
+        return Ok(ParsedStatement::Nodes(nodes));
     }
 
     *line_index += 1;
-- 
2.43.0


From 1ab5b1749f8fd3b30bf30e07bc41a4b3446c12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 27/54] fix: containers whose counts are read are marked from
 the emitted references, which have to resolve

---
 compiler/src/emitter/choice.rs          |  16 +--
 compiler/src/emitter/choice_threaded.rs |   2 +-
 compiler/src/emitter/choice_wrapped.rs  |  14 +--
 compiler/src/emitter/context.rs         | 136 +-----------------------
 compiler/src/emitter/flow.rs            |  46 ++++----
 compiler/src/emitter/link.rs            | 134 +++++++++++++++++++++++
 compiler/src/emitter/mod.rs             |   1 +
 compiler/src/emitter/nodes.rs           |   6 +-
 8 files changed, 161 insertions(+), 194 deletions(-)
 create mode 100644 compiler/src/emitter/link.rs

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index fdb11d4..9b14c4f 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -68,21 +68,7 @@ fn emit_choice(
     ) {
         branch_container.push(token);
     }
-    let extra_flags = context
-        .flow_count_flags
-        .get(&choice_ptr)
-        .copied()
-        .unwrap_or(0);
-    let mut flags = 0;
-    if choice.once_only || context.count_all_visits || (extra_flags & COUNT_VISITS != 0) {
-        flags |= COUNT_VISITS;
-    }
-    if extra_flags & COUNT_TURNS != 0 {
-        flags |= COUNT_TURNS;
-    }
-    // CountStartOnly (4) is always set for choices but only serialized when
-    // accompanied by Visits or Turns (lone CountStartOnly is meaningless).
-    let count_flags = if flags > 0 { Some(flags | 4) } else { None };
+    let count_flags = choice_count_flags(choice, context);
     out.insert_named(
         branch_name,
         branch_container.into_json_array(None, count_flags)?,
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index 098a982..e00fee5 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -126,7 +126,7 @@ fn emit_choice_block(
                 gather_container.push(token);
             }
             let count_flags = if gather_label.is_some() {
-                gather_count_flags(&g_n_path, context)
+                gather_count_flags(context)
             } else {
                 None
             };
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 444b45f..3045e16 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -242,19 +242,7 @@ fn emit_wrapped_loop_choice_body(
         branch_container.push(token);
     }
 
-    let extra_flags = context
-        .flow_count_flags
-        .get(&branch_scope.path)
-        .copied()
-        .unwrap_or(0);
-    let mut flags = 0;
-    if choice.once_only || context.count_all_visits || (extra_flags & COUNT_VISITS != 0) {
-        flags |= COUNT_VISITS;
-    }
-    if extra_flags & COUNT_TURNS != 0 {
-        flags |= COUNT_TURNS;
-    }
-    let branch_count_flags = if flags > 0 { Some(flags | 4) } else { None };
+    let branch_count_flags = choice_count_flags(choice, context);
     if !choice.has_start_content {
         return branch_container.into_json_array(None, branch_count_flags);
     }
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index e0ff4ff..0f2f9d5 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -65,6 +65,7 @@ pub fn story_to_json_value(
             Value::Object(named_content)
         }
     ]);
+    link_story(&mut root_value)?;
     compact_story_paths(&mut root_value);
 
     let mut output = serde_json::Map::new();
@@ -113,7 +114,6 @@ struct EmitContext {
     /// when it's emitted (choice text, tags, strings)
     constants: HashMap<String, Expression>,
     /// Count flags required by explicit references to flow containers.
-    flow_count_flags: BTreeMap<String, i32>,
     /// Fully-qualified authored label targets (e.g. `knot.stitch.choice`) mapped
     /// to their emitted runtime paths (e.g. `knot.stitch.c-0`).
     qualified_choice_labels: BTreeMap<String, String>,
@@ -207,109 +207,7 @@ impl EmittedContainer {
 
 const COUNT_VISITS: i32 = 1;
 const COUNT_TURNS: i32 = 2;
-
-fn add_flow_count_flags(targets: &mut BTreeMap<String, i32>, target: &str, flags: i32) {
-    *targets.entry(target.to_owned()).or_default() |= flags;
-}
-
-fn collect_flow_count_flags_from_flows_into(
-    flows: &[Flow],
-    targets: &mut BTreeMap<String, i32>,
-) {
-    for flow in flows {
-        collect_flow_count_flags_from_nodes(&flow.nodes, targets);
-        collect_flow_count_flags_from_flows_into(&flow.children, targets);
-    }
-}
-
-fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<String, i32>) {
-    for node in nodes {
-        match node {
-            Node::OutputExpression(expr) => {
-                collect_flow_count_flags_from_expr(expr, targets);
-            }
-            Node::Choice(choice) => {
-                for cond in &choice.conditions {
-                    if let Condition::Expression(e) = cond {
-                        collect_flow_count_flags_from_expr(e, targets);
-                    }
-                }
-                collect_flow_count_flags_from_nodes(&choice.body, targets);
-            }
-            Node::Conditional {
-                condition,
-                when_true,
-                when_false,
-            } => {
-                if let Condition::Expression(e) = condition {
-                    collect_flow_count_flags_from_expr(e, targets);
-                }
-                collect_flow_count_flags_from_nodes(when_true, targets);
-                if let Some(nodes) = when_false {
-                    collect_flow_count_flags_from_nodes(nodes, targets);
-                }
-            }
-            Node::SwitchConditional { value, branches } => {
-                collect_flow_count_flags_from_expr(value, targets);
-                for (opt_expr, branch_nodes) in branches {
-                    if let Some(e) = opt_expr {
-                        collect_flow_count_flags_from_expr(e, targets);
-                    }
-                    collect_flow_count_flags_from_nodes(branch_nodes, targets);
-                }
-            }
-            Node::Assignment { expression, .. } => {
-                collect_flow_count_flags_from_expr(expression, targets);
-            }
-            Node::ReturnExpr(e) => {
-                collect_flow_count_flags_from_expr(e, targets);
-            }
-            Node::VoidCall { args, .. } => {
-                for arg in args {
-                    if let Expression::DivertTarget(target) = arg {
-                        add_flow_count_flags(targets, target, COUNT_VISITS | COUNT_TURNS);
-                    } else {
-                        collect_flow_count_flags_from_expr(arg, targets);
-                    }
-                }
-            }
-            _ => {}
-        }
-    }
-}
-
-fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<String, i32>) {
-    match expr {
-        Expression::FunctionCall { name, args } => {
-            let direct_flags = match name.as_str() {
-                "TURNS_SINCE" => COUNT_TURNS,
-                "READ_COUNT" => COUNT_VISITS,
-                _ => COUNT_VISITS | COUNT_TURNS,
-            };
-            for arg in args {
-                if let Expression::DivertTarget(target) = arg {
-                    add_flow_count_flags(targets, target, direct_flags);
-                } else {
-                    collect_flow_count_flags_from_expr(arg, targets);
-                }
-            }
-        }
-        // A bare variable used as a condition (e.g., {label_name}) is treated as
-        // a visit-count check at emission time (CNT?).  Flag the target so that
-        // it gets COUNT_VISITS even when count_all_visits is false.
-        Expression::Variable(name) => {
-            add_flow_count_flags(targets, name, COUNT_VISITS);
-        }
-        Expression::Negate(inner) | Expression::Not(inner) => {
-            collect_flow_count_flags_from_expr(inner, targets);
-        }
-        Expression::Binary { left, right, .. } => {
-            collect_flow_count_flags_from_expr(left, targets);
-            collect_flow_count_flags_from_expr(right, targets);
-        }
-        _ => {}
-    }
-}
+const COUNT_START_ONLY: i32 = 4;
 
 impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
@@ -324,35 +222,6 @@ impl EmitContext {
         }
         let qualified_choice_labels = collect_story_choice_labels(story);
         let unqualified_flow_targets = collect_unqualified_flow_targets(story);
-        let mut raw_flow_count_flags = BTreeMap::new();
-        collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
-        collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
-        let mut flow_count_flags = BTreeMap::new();
-        for (target, flags) in raw_flow_count_flags {
-            // First try unqualified flow targets (knots/stitches)
-            if let Some(resolved) = unqualified_flow_targets.get(&target) {
-                add_flow_count_flags(&mut flow_count_flags, resolved, flags);
-            } else if target.contains('.') {
-                // Already qualified path
-                add_flow_count_flags(&mut flow_count_flags, &target, flags);
-            } else {
-                // Try to resolve through qualified choice labels (gather labels).
-                // A bare name like "ans_agent" may correspond to one or more
-                // qualified keys like "interrogation.0.ans_agent".
-                let mut resolved_any = false;
-                let suffix = format!(".{target}");
-                for (qualified_key, runtime_path) in &qualified_choice_labels {
-                    if qualified_key.ends_with(&suffix) || qualified_key == &target {
-                        add_flow_count_flags(&mut flow_count_flags, runtime_path, flags);
-                        resolved_any = true;
-                    }
-                }
-                if !resolved_any {
-                    // Unresolved — store as-is (may be a global variable, not a flow).
-                    add_flow_count_flags(&mut flow_count_flags, &target, flags);
-                }
-            }
-        }
         let function_ref_param_positions = story
             .flows()
             .iter()
@@ -379,7 +248,6 @@ impl EmitContext {
             list_items,
             external_functions: story.external_functions.iter().cloned().collect(),
             constants: story.consts.clone(),
-            flow_count_flags,
             qualified_choice_labels,
             function_ref_param_positions,
             unqualified_flow_targets,
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index ba72534..3d20254 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -61,7 +61,7 @@ fn emit_flow(flow: &Flow, context: &EmitContext) -> Result<Value, CompilerError>
         );
     }
 
-    container.into_json_array(None, Some(flow_count_flags(&scope.path, context)))
+    container.into_json_array(None, Some(flow_count_flags(context)))
 }
 
 fn emit_nested_flow(
@@ -86,7 +86,7 @@ fn emit_nested_flow(
         );
     }
 
-    container.into_json_array(None, Some(flow_count_flags(&scope.path, context)))
+    container.into_json_array(None, Some(flow_count_flags(context)))
 }
 
 fn emit_flow_nodes(
@@ -113,36 +113,28 @@ fn flow_nodes_scope(flow: &Flow, scope: &EmitScope) -> EmitScope {
     scope.at_path(joined_path(&scope.path, flow.parameters.len()))
 }
 
-fn flow_count_flags(path: &str, context: &EmitContext) -> i32 {
-    let mut flags = context
-        .flow_count_flags
-        .get(path)
-        .copied()
-        .unwrap_or_default();
+/// What a knot or stitch counts whether or not its counts are read.
+fn flow_count_flags(context: &EmitContext) -> i32 {
     if context.count_all_visits {
-        flags |= COUNT_VISITS;
+        COUNT_VISITS
+    } else {
+        0
     }
-    flags
 }
 
-/// Compute count flags for a gather container at the given runtime path.
-/// Returns `Some(flags)` when the container needs visit/turn counting, or `None`.
-/// Gather containers need the CountStartOnly bit (4) in addition to visit/turn flags.
-fn gather_count_flags(path: &str, context: &EmitContext) -> Option<i32> {
-    const COUNT_START_ONLY: i32 = 4;
-    let mut flags = context
-        .flow_count_flags
-        .get(path)
-        .copied()
-        .unwrap_or_default();
-    if context.count_all_visits {
-        flags |= COUNT_VISITS;
-    }
-    if flags > 0 {
-        Some(flags | COUNT_START_ONLY)
+/// The same for a labelled gather, which is counted when it is entered at its start.
+fn gather_count_flags(context: &EmitContext) -> Option<i32> {
+    Some(flow_count_flags(context) | COUNT_START_ONLY)
+}
+
+/// The same for a choice; the engine counts the once-only ones to know which are used up.
+fn choice_count_flags(choice: &Choice, context: &EmitContext) -> Option<i32> {
+    let visits = if choice.once_only {
+        COUNT_VISITS
     } else {
-        None
-    }
+        flow_count_flags(context)
+    };
+    Some(visits | COUNT_START_ONLY)
 }
 
 fn prepend_parameters(container: &mut EmittedContainer, parameters: &[String]) {
diff --git a/compiler/src/emitter/link.rs b/compiler/src/emitter/link.rs
new file mode 100644
index 0000000..21da673
--- /dev/null
+++ b/compiler/src/emitter/link.rs
@@ -0,0 +1,134 @@
+/// A reference to content found in the emitted story.
+struct ContentReference {
+    target: String,
+    /// What the target's container has to count because of it.
+    count_flags: i64,
+}
+
+/// Marks the containers whose visits or turns are read as counting them, and checks that
+/// everything that refers to content refers to content that exists.
+fn link_story(root: &mut Value) -> Result<(), CompilerError> {
+    let mut references = Vec::new();
+    collect_references(root, &RuntimePath::absolute(""), &mut references);
+    for reference in references {
+        let Some(content) = content_at_path(root, &reference.target) else {
+            return Err(CompilerError::invalid_source(format!(
+                "could not resolve the reference to '{}'",
+                reference.target
+            )));
+        };
+        if reference.count_flags != 0
+            && let Value::Array(values) = content
+            && let Some(terminator) = values.last_mut()
+        {
+            if terminator.is_null() {
+                *terminator = json!({});
+            }
+            let flags = terminator["#f"].as_i64().unwrap_or_default() | reference.count_flags;
+            terminator["#f"] = json!(flags);
+        }
+    }
+    drop_unused_count_flags(root);
+    Ok(())
+}
+
+fn collect_references(
+    container: &Value,
+    container_path: &RuntimePath,
+    references: &mut Vec<ContentReference>,
+) {
+    let Value::Array(values) = container else {
+        return;
+    };
+    let Some((terminator, content)) = values.split_last() else {
+        return;
+    };
+
+    for (index, child) in content.iter().enumerate() {
+        let child_path = container_path.appended(
+            embedded_container_name(child)
+                .map(str::to_owned)
+                .unwrap_or_else(|| index.to_string()),
+        );
+        let Value::Object(fields) = child else {
+            collect_references(child, &child_path, references);
+            continue;
+        };
+        let variable_target = fields.get("var").and_then(Value::as_bool) == Some(true);
+        for (field, value) in fields {
+            let count_flags = match field.as_str() {
+                "CNT?" => COUNT_VISITS,
+                "^->" => match content.get(index + 1).and_then(Value::as_str) {
+                    Some("turns") => COUNT_TURNS,
+                    Some("readc") => COUNT_VISITS,
+                    _ => COUNT_VISITS | COUNT_TURNS,
+                },
+                "->" | "f()" | "->t->" if !variable_target => 0,
+                "*" => 0,
+                _ => continue,
+            };
+            let Some(target) = value.as_str() else {
+                continue;
+            };
+            // Where a choice's text goes back to is not something the author can count.
+            let internal = field == "^->" && target.rsplit('.').next().is_some_and(|name| name.starts_with('$'));
+            let target = RuntimePath::parse(target, target.starts_with('.')).resolve_from(&child_path);
+            references.push(ContentReference {
+                target: target.to_string(),
+                count_flags: if internal { 0 } else { i64::from(count_flags) },
+            });
+        }
+    }
+
+    let Value::Object(named) = terminator else {
+        return;
+    };
+    for (name, child) in named {
+        collect_references(child, &container_path.appended(name.clone()), references);
+    }
+}
+
+fn content_at_path<'a>(root: &'a mut Value, path: &str) -> Option<&'a mut Value> {
+    let mut current = root;
+    for component in path.split('.') {
+        let values = current.as_array_mut()?;
+        let last = values.len().checked_sub(1)?;
+        let index = match component.parse::<usize>() {
+            Ok(index) => Some(index).filter(|index| *index < last),
+            Err(_) => values[..last]
+                .iter()
+                .position(|child| embedded_container_name(child) == Some(component)),
+        };
+        current = match index {
+            Some(index) => &mut values[index],
+            None => values[last].get_mut(component).filter(|named| named.is_array())?,
+        };
+    }
+    Some(current)
+}
+
+/// Counting only entries at the start means nothing for a container that counts nothing.
+fn drop_unused_count_flags(container: &mut Value) {
+    let Value::Array(values) = container else {
+        return;
+    };
+    for child in values.iter_mut() {
+        drop_unused_count_flags(child);
+    }
+    let Some(Value::Object(terminator)) = values.last_mut() else {
+        return;
+    };
+    for child in terminator.values_mut() {
+        drop_unused_count_flags(child);
+    }
+    if terminator
+        .get("#f")
+        .and_then(Value::as_i64)
+        .is_some_and(|flags| flags & i64::from(COUNT_VISITS | COUNT_TURNS) == 0)
+    {
+        terminator.shift_remove("#f");
+        if terminator.is_empty() {
+            *values.last_mut().unwrap() = Value::Null;
+        }
+    }
+}
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 294c5c1..bf9a154 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -22,3 +22,4 @@ include!("choice.rs");
 include!("expression.rs");
 include!("conditional.rs");
 include!("path.rs");
+include!("link.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 06b622f..6eb1904 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -459,8 +459,7 @@ fn emit_nodes_with_continuation(
                         context,
                         fallback_continuation,
                     )?;
-                    let gather_path = format!("{}.{}", scope.path, label);
-                    let count_flags = gather_count_flags(&gather_path, context);
+                    let count_flags = gather_count_flags(context);
                     out.push(sub_container.into_json_array(Some(label), count_flags)?);
                     break;
                 }
@@ -526,8 +525,7 @@ fn emit_nodes_with_continuation(
                     }
 
 
-                    let gather_path = format!("{}.{}", scope.path, gather_label);
-                    let count_flags = gather_count_flags(&gather_path, context);
+                    let count_flags = gather_count_flags(context);
                     if is_first {
                         out.push(
                             sub_container
-- 
2.43.0


From 89736c331b9905c4e40decd981b79d926e7351a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 28/54] fix: the branches of multi-branch and switch blocks
 start on a new line

---
 compiler/src/parser/conditional.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index a75b96d..5173540 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -264,6 +264,7 @@ pub fn parse_multi_branch_conditional(
             if current_condition.is_some() || !current_nodes.is_empty() {
                 branches.push((current_condition.take(), current_nodes));
             }
+            start_on_new_line(&mut branches);
             let mut nodes = fold_conditional_branches(branches)?;
             // Parse any inline content after `}` (e.g. `} <> more text`)
             if !tail.is_empty() {
@@ -416,6 +417,13 @@ pub fn parse_multi_branch_conditional(
     ))
 }
 
+/// The content of a branch of a block is on lines of its own.
+fn start_on_new_line<T>(branches: &mut [(Option<T>, Vec<Node>)]) {
+    for (_, nodes) in branches {
+        nodes.insert(0, Node::Newline);
+    }
+}
+
 pub fn fold_conditional_branches(
     mut branches: Vec<(Option<crate::ast::Condition>, Vec<Node>)>,
 ) -> Result<Vec<Node>, CompilerError> {
@@ -559,6 +567,7 @@ fn parse_switch_conditional(
         }
     }
 
+    start_on_new_line(&mut branches);
     let mut result = vec![Node::SwitchConditional { value, branches }];
     if !closing_tail.is_empty() {
         result.extend(tokenize_inline_content(&closing_tail)?);
-- 
2.43.0


From 7b2beb9b180490f3432ba067723e8f7d9e8d7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 29/54] fix: '~ x += f()' ends its line like '~ x = f()'

---
 compiler/src/emitter/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 4bd42d9..8dd5671 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -202,6 +202,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
         AssignMode::SubtractAssign => {
             out.push(json!("ev"));
@@ -219,6 +222,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
     }
 }
-- 
2.43.0


From cd3d3dd9b182e56bae80a3b3c923957746f59d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 30/54] fix: an exhausted once-only alternative leaves nothing
 on the evaluation stack

---
 compiler/src/emitter/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 8dd5671..7f99e8c 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -63,7 +63,7 @@ fn emit_sequence(
     }
     out.push(json!("/ev"));
 
-    for (index, _) in sequence.branches.iter().enumerate() {
+    for index in 0..branch_count {
         out.push(json!("ev"));
         out.push(json!("du"));
         out.push(json!(index as i32));
-- 
2.43.0


From d6792464358547047e08660487a838eb7dc3c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 31/54] fix: alternatives in the start text of a choice count
 once for the choice and its line

---
 compiler/src/emitter/choice.rs | 135 ++++++++++++++++++++++++++++++---
 compiler/src/parser/choice.rs  |  14 ++--
 2 files changed, 132 insertions(+), 17 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 9b14c4f..7410990 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -11,8 +11,20 @@ fn emit_choice(
         || !choice.choice_only_text.is_empty()
         || !choice.choice_only_tags.is_empty()
         || !choice.conditions.is_empty();
+    let branch_name = format!("c-{choice_index}");
+    let mut branch_scope = scope.choice_branch(&branch_name);
+    let choice_ptr = branch_scope.path.clone();
+    let shared_start = shared_start_content(choice)?;
 
-    if has_ev_content {
+    if shared_start.is_some() {
+        let header_path = joined_path(&scope.path, out.content.len() + scope.param_offset);
+        out.push(emit_shared_start_header(
+            choice,
+            &scope.at_path(header_path),
+            &choice_ptr,
+            context,
+        )?);
+    } else if has_ev_content {
         out.push(json!("ev"));
         emit_choice_text_segment(
             &choice.start_text,
@@ -37,16 +49,27 @@ fn emit_choice(
         out.push(json!("/ev"));
     }
 
-    let branch_name = format!("c-{choice_index}");
-    let branch_scope = scope.choice_branch(&branch_name);
-    let choice_ptr = branch_scope.path.clone();
-    out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
-
+    let mut start_content = Vec::new();
     let mut branch_nodes = Vec::new();
-    if let Some(selected_text) = &choice.selected_text {
-        branch_nodes.extend(tokenize_inline_content(selected_text)?);
+    if let Some(shared) = &shared_start {
+        start_content = vec![
+            json!("ev"),
+            json!({"^->": joined_path(&choice_ptr, "$r2")}),
+            json!("/ev"),
+            json!({"temp=": "$r"}),
+            json!({"->": joined_path(&scope.path, out.content.len() - 1 + scope.param_offset) + ".s"}),
+            json!([{"#n": "$r2"}]),
+        ];
+        branch_scope.param_offset = start_content.len();
+        branch_nodes.extend(tokenize_inline_content(shared.end_text)?);
+        branch_nodes.extend(shared.end_tags.iter().cloned().map(Node::Tag));
+    } else {
+        out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
+        if let Some(selected_text) = &choice.selected_text {
+            branch_nodes.extend(tokenize_inline_content(selected_text)?);
+        }
+        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
     }
-    branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
     push_choice_line_end(&mut branch_nodes, choice);
 
     // Check if branch body contains nested choices (at any position)
@@ -68,6 +91,7 @@ fn emit_choice(
     ) {
         branch_container.push(token);
     }
+    branch_container.content.splice(0..0, start_content);
     let count_flags = choice_count_flags(choice, context);
     out.insert_named(
         branch_name,
@@ -77,6 +101,99 @@ fn emit_choice(
     Ok(())
 }
 
+/// What a choice line prints after the start text it has in common with the choice.
+struct SharedStart<'a> {
+    end_text: &'a str,
+    end_tags: &'a [DynamicString],
+}
+
+/// Alternatives in the start text count how often it is shown, as a choice or as a line, so the
+/// two have to share it.
+fn shared_start_content(choice: &Choice) -> Result<Option<SharedStart<'_>>, CompilerError> {
+    let Some(selected_text) = &choice.selected_text else {
+        return Ok(None);
+    };
+    let (Some(end_text), Some(end_tags)) = (
+        selected_text.strip_prefix(choice.start_text.as_str()),
+        choice.selected_tags.strip_prefix(&choice.start_tags[..]),
+    ) else {
+        return Ok(None);
+    };
+    let counts = nodes_contain_sequence(&tokenize_inline_content(&choice.start_text)?)
+        || choice.start_tags.iter().any(|tag| {
+            tag.parts.iter().any(|part| match part {
+                DynamicStringPart::Sequence(_) => true,
+                DynamicStringPart::Content(nodes) => nodes_contain_sequence(nodes),
+                _ => false,
+            })
+        });
+    if !counts {
+        return Ok(None);
+    }
+    Ok(Some(SharedStart { end_text, end_tags }))
+}
+
+fn nodes_contain_sequence(nodes: &[Node]) -> bool {
+    nodes.iter().any(|node| match node {
+        Node::Sequence(_) => true,
+        Node::Conditional {
+            when_true,
+            when_false,
+            ..
+        } => {
+            nodes_contain_sequence(when_true)
+                || when_false.as_deref().is_some_and(nodes_contain_sequence)
+        }
+        _ => false,
+    })
+}
+
+fn emit_shared_start_header(
+    choice: &Choice,
+    scope: &EmitScope,
+    choice_ptr: &str,
+    context: &EmitContext,
+) -> Result<Value, CompilerError> {
+    let start_path = joined_path(&scope.path, "s");
+    let mut header = vec![
+        json!("ev"),
+        json!({"^->": joined_path(&scope.path, "$r1")}),
+        json!({"temp=": "$r"}),
+        json!("str"),
+        json!({"->": start_path}),
+        json!([{"#n": "$r1"}]),
+        json!("/str"),
+    ];
+    emit_choice_text_segment(
+        &choice.choice_only_text,
+        &choice.choice_only_tags,
+        &mut header,
+        scope,
+        context,
+    )?;
+    for (index, condition) in choice.conditions.iter().enumerate() {
+        emit_condition(condition, &mut header, scope, context)?;
+        if index > 0 {
+            header.push(json!("&&"));
+        }
+    }
+    header.push(json!("/ev"));
+    header.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
+
+    let mut start = Vec::new();
+    emit_choice_text_content(
+        &choice.start_text,
+        &choice.start_tags,
+        &mut start,
+        &scope.at_path(start_path),
+        context,
+    )?;
+    start.push(json!({"->": "$r", "var": true}));
+    start.push(Value::Null);
+    header.push(json!({"s": start}));
+    Ok(Value::Array(header))
+}
+
 /// The arrows that end the choice line, the end of the line, and the body below it.
 fn push_choice_line_end(branch_nodes: &mut Vec<Node>, choice: &Choice) {
     let (inline_diverts, body) = choice.body.split_at(choice.inline_divert_count);
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index bc8eb47..41ca0d1 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -358,16 +358,14 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     }
 
     if let Some((before, after)) = trimmed.split_once("[]") {
-        let display = before.trim_end().to_owned();
-        let raw_suffix = after;
-        let (suffix, inline_diverts) = split_inline_choice_divert(raw_suffix)?;
-        let (start_text, start_tags) = split_text_and_tags(&display)?;
-        let selected = Some(format!("{before}{suffix}"));
-        let (selected_text, selected_tags) =
-            split_text_and_tags(selected.as_deref().unwrap_or(""))?;
+        let (end, inline_diverts) = split_inline_choice_divert(after)?;
+        let (start_text, start_tags) = split_text_and_tags(before)?;
+        let (end_text, end_tags) = split_text_and_tags(end)?;
+        let mut selected_tags = start_tags.clone();
+        selected_tags.extend(end_tags);
         return Ok(ParsedChoiceText {
             display_text: start_text.clone(),
-            selected_text: Some(selected_text),
+            selected_text: Some(format!("{start_text}{end_text}")),
             start_text,
             choice_only_text: String::new(),
             has_start_content: true,
-- 
2.43.0


From e525cc88bd88778c7a2b952a89e6d027e9f7ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 32/54] fix: a divert ends the tags of its line; several tags
 on a line of their own

---
 compiler/src/inline.rs           | 33 +++++++++++++++++++++++++++-----
 compiler/src/parser/mod.rs       |  2 +-
 compiler/src/parser/statement.rs |  6 +++---
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 3144ac2..86c5162 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -32,11 +32,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             if !text.is_empty() {
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
-            // Multiple tags on one line: "text #tag1 #tag2 #tag3"
-            let tag_str = content[index + 1..].trim_start();
-            for tag in split_hash_tags(tag_str)? {
-                nodes.push(Node::Tag(tag));
-            }
+            nodes.append(&mut parse_tags(&content[index + 1..])?);
             break;
         }
 
@@ -146,6 +142,33 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
     Ok(nodes)
 }
 
+/// The tags after the first `#` of a line ("tag1 #tag2 #tag3") and the divert that may follow them.
+pub fn parse_tags(input: &str) -> Result<Vec<Node>, CompilerError> {
+    let mut depth = 0usize;
+    let mut end = input.len();
+    for (index, ch) in input.char_indices() {
+        match ch {
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            '-' | '<' if depth == 0 => {
+                let rest = &input[index..];
+                if rest.starts_with("->") || rest.starts_with("<-") {
+                    end = index;
+                    break;
+                }
+            }
+            _ => {}
+        }
+    }
+
+    let mut nodes: Vec<Node> = split_hash_tags(input[..end].trim_start())?
+        .into_iter()
+        .map(Node::Tag)
+        .collect();
+    nodes.append(&mut tokenize_inline_content(&input[end..])?);
+    Ok(nodes)
+}
+
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
     let mut parts = Vec::new();
     let mut text = String::new();
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index f287c57..f9d646d 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -14,7 +14,7 @@ use self::{
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
     inline::{
-        parse_divert, parse_divert_line, parse_dynamic_string,
+        parse_divert, parse_divert_line, parse_tags,
         tokenize_inline_content,
     },
     sequence::{looks_like_sequence, parse_sequence},
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6909902..dead0a8 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -134,9 +134,9 @@ pub fn parse_statement(
 
     if let Some(rest) = trimmed.strip_prefix('#') {
         *line_index += 1;
-        return Ok(ParsedStatement::Nodes(vec![Node::Tag(
-            parse_dynamic_string(rest.trim_start()).map_err(|e| e.with_line(ln))?,
-        )]));
+        return Ok(ParsedStatement::Nodes(
+            parse_tags(rest).map_err(|e| e.with_line(ln))?,
+        ));
     }
 
     if trimmed.starts_with('*') || trimmed.starts_with('+') {
-- 
2.43.0


From dd6fa81a67f7ae896da39caa56180b5b9aca251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:18 +0000
Subject: [PATCH 33/54] fix: a tunnel or thread on a line of its own writes no
 line end (reverts 42cffb2)

---
 compiler/src/parser/statement.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index dead0a8..1b5a7e6 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -296,20 +296,14 @@ pub fn parse_statement(
     if let Some(rest) = thread_rest {
         *line_index += 1;
         let divert = parse_divert(rest).map_err(|e| e.with_line(ln))?;
-        return Ok(ParsedStatement::Nodes(vec![
-            Node::ThreadDivert(divert),
-            Node::Newline,
-        ]));
+        return Ok(ParsedStatement::Nodes(vec![Node::ThreadDivert(divert)]));
     }
 
     if trimmed.starts_with("->") {
         *line_index += 1;
-        let mut nodes = parse_divert_line(trimmed).map_err(|e| e.with_line(ln))?;
-        // Play comes back to the end of this line after a tunnel.
-        if nodes.iter().any(|node| matches!(node, Node::TunnelDivert { .. })) {
-            nodes.push(Node::Newline);
-        }
-        return Ok(ParsedStatement::Nodes(nodes));
+        return Ok(ParsedStatement::Nodes(
+            parse_divert_line(trimmed).map_err(|e| e.with_line(ln))?,
+        ));
     }
 
     *line_index += 1;
-- 
2.43.0


From c178cac0235b7ace3e2341efc3e6097437a5a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 34/54] fix: what follows a gather marker is parsed as the
 statement it is

---
 compiler/src/parser/statement.rs | 132 +++++++++----------------------
 1 file changed, 36 insertions(+), 96 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 1b5a7e6..42d1656 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -174,108 +174,48 @@ pub fn parse_statement(
             (None, gather_content)
         };
 
-        // Handle "- * choice" or "- + choice": a gather point immediately followed by a
-        // choice on the same line.  *line_index has already been advanced past this line,
-        // so we build a synthetic slice with the choice content as line 0, followed by
-        // the remaining (not-yet-consumed) lines, and call parse_choice on it.
+        // What follows the marker and the label is a statement of its own ("- * choice",
+        // "- {condition:", "- ~ x = 1", "- -> tunnel ->"): parse it as the first line of a
+        // synthetic slice that goes on with the remaining (not-yet-consumed) lines, if the
+        // statement can have more than one.
+        let mut nodes = Vec::new();
         if gather_content.starts_with('*') || gather_content.starts_with('+') {
-            let synthetic = Line {
-                content: gather_content,
-                indent: line.indent,
-                had_newline: line.had_newline,
-            };
-            let tail: Vec<Line<'_>> = lines[*line_index..]
-                .iter()
-                .map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                })
-                .collect();
-            let combined: Vec<Line<'_>> = std::iter::once(synthetic).chain(tail).collect();
-            let mut local_idx: usize = 0;
-            let choice_stmt = parse_choice(&combined, &mut local_idx, &parse_statement)
-                .map_err(|e| e.with_line(ln))?;
-            // local_idx lines were consumed from `combined`; combined[0] mapped to the
-            // already-consumed original line, combined[1..] maps to lines[*line_index..].
-            *line_index += local_idx.saturating_sub(1);
-            let choice_nodes = match choice_stmt {
-                ParsedStatement::Nodes(ns) => ns,
-                other => return Ok(other),
-            };
-            let mut result = vec![Node::GatherPoint];
-            if let Some(label) = gather_label {
-                result.push(Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                });
-            }
-            result.extend(choice_nodes);
-            return Ok(ParsedStatement::Nodes(result));
+            nodes.push(Node::GatherPoint);
         }
-
-        // If gather_content starts a multi-line conditional or sequence, parse it as such.
-        // Build a synthetic slice: the first entry uses gather_content as its content, then
-        // the remaining (not-yet-consumed) lines follow.  We track how many lines the
-        // sub-parser consumed and advance the outer line_index accordingly.
-        if looks_like_conditional(gather_content) || looks_like_sequence(gather_content) {
-            // Synthetic opening line using gather_content.
-            let synthetic = Line {
-                content: gather_content,
+        if let Some(label) = gather_label {
+            nodes.push(Node::GatherLabel {
+                label,
+                level: gather_level,
                 indent: line.indent,
-                had_newline: line.had_newline,
-            };
-            // Build the combined slice: [synthetic] ++ lines[*line_index..]
-            let combined: Vec<Line<'_>> = std::iter::once(synthetic)
-                .chain(lines[*line_index..].iter().map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                }))
-                .collect();
-            let mut local_idx: usize = 0;
-            let nodes = if looks_like_sequence(gather_content) {
-                parse_sequence(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            } else {
-                parse_conditional(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            };
-            // local_idx now points past whatever the sub-parser consumed in `combined`.
-            // combined[0] was the synthetic gather line (already consumed above via += 1).
-            // combined[1..] maps to lines[*line_index..], so advance by local_idx - 1.
-            if local_idx > 0 {
-                *line_index += local_idx - 1;
-            }
-            let mut result = Vec::new();
-            if let Some(label) = gather_label {
-                result.push(Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                });
-            }
-            result.extend(nodes);
-            return Ok(ParsedStatement::Nodes(result));
+            });
         }
-
-        let gather_line = Line {
+        if gather_content.is_empty() {
+            return Ok(ParsedStatement::Nodes(nodes));
+        }
+        let tail = if gather_content.starts_with(['*', '+', '{']) {
+            &lines[*line_index..]
+        } else {
+            &[]
+        };
+        let combined: Vec<Line<'_>> = std::iter::once(Line {
             content: gather_content,
             indent: line.indent,
-            // Don't emit a newline for a label-only gather line (no content after the label)
-            had_newline: line.had_newline && !gather_content.is_empty(),
-        };
-        let mut nodes = parse_content_line(&gather_line, true).map_err(|e| e.with_line(ln))?;
-        if let Some(label) = gather_label {
-            nodes.insert(
-                0,
-                Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                },
-            );
+            had_newline: line.had_newline,
+        })
+        .chain(tail.iter().map(|l| Line {
+            content: l.content,
+            indent: l.indent,
+            had_newline: l.had_newline,
+        }))
+        .collect();
+        let mut local_idx: usize = 0;
+        let statement =
+            parse_statement(&combined, &mut local_idx, true).map_err(|e| e.with_line(ln))?;
+        // combined[0] is the gather's own line, combined[1..] are lines[*line_index..].
+        *line_index += local_idx.saturating_sub(1);
+        match statement {
+            ParsedStatement::Nodes(rest) => nodes.extend(rest),
+            other => return Ok(other),
         }
         return Ok(ParsedStatement::Nodes(nodes));
     }
-- 
2.43.0


From 4ec413f7f0e5a0d33088e95c18ceba84637112de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 35/54] fix: '->-> target' leaves the tunnel

---
 compiler/src/emitter/nodes.rs     |  8 ++++++--
 compiler/src/inline.rs            | 26 +++++---------------------
 compiler/src/validator/diverts.rs |  4 +++-
 3 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 6eb1904..32155b0 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -311,8 +311,12 @@ fn emit_nodes_with_continuation(
                 for arg in args {
                     emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
                 }
-                let resolved = scope.resolve_divert_target(target, context);
-                out.push(json!({"^->": resolved}));
+                if scope.is_variable_divert(target, context) {
+                    out.push(json!({"VAR?": target}));
+                } else {
+                    let resolved = scope.resolve_divert_target(target, context);
+                    out.push(json!({"^->": resolved}));
+                }
                 out.push(json!("/ev"));
                 out.push(json!("->->"));
             }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 86c5162..386a78d 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -245,31 +245,15 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         return Ok(vec![Node::TunnelReturn]);
     }
 
-    // `->-> target (args)`: tunnel return, continuing to `target` with args
+    // `->-> target`, `->-> target (args)`: tunnel return, continuing to `target`
     // e.g. `->-> elsewhere (8)` emits args + {"^->": target} then `->->`
-    // Only applies when explicit args are provided (parenthesized).
-    // `->-> escape` with no parens falls through to the regular path.
     if let Some(rest) = trimmed.strip_prefix("->->") {
         let rest = rest.trim();
-        if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
-            // Parse `target` or `target(args)` from `rest`
-            let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
-                let tname = rest[..open].trim().to_owned();
-                let args_str = &rest[open + 1..close];
-                let mut args = Vec::new();
-                for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                    if !arg_str.trim().is_empty() {
-                        args.push(parse_expression(arg_str.trim())?);
-                    }
-                }
-                (tname, args)
-            } else {
-                (rest.to_owned(), Vec::new())
-            };
+        if !rest.is_empty() && !rest.starts_with("->") {
+            let Divert { target, arguments } = parse_divert(rest)?;
             return Ok(vec![Node::TunnelOnwardsWithTarget {
-                target: target_name,
-                args,
+                target,
+                args: arguments,
             }]);
         }
     }
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index d0931ac..00a23ee 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -9,7 +9,9 @@ impl ValidationContext {
     fn validate_node_divert(&self, node: &Node) -> Result<(), CompilerError> {
         match node {
             Node::Divert(d) => self.check_divert(d)?,
-            Node::TunnelDivert { target, .. } => self.check_target(target)?,
+            Node::TunnelDivert { target, .. } | Node::TunnelOnwardsWithTarget { target, .. } => {
+                self.check_target(target)?
+            }
             Node::ThreadDivert(d) => self.check_divert(d)?,
             Node::Choice(c) => {
                 for n in &c.body {
-- 
2.43.0


From a09bdac8d3a7cb6e350591f8d8756b6f1a86a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 36/54] fix: the tags of a choice's start text come before the
 text after it

---
 compiler/src/emitter/choice.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 7410990..f310437 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -65,10 +65,21 @@ fn emit_choice(
         branch_nodes.extend(shared.end_tags.iter().cloned().map(Node::Tag));
     } else {
         out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
-        if let Some(selected_text) = &choice.selected_text {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
+        match split_selected(choice) {
+            // the tags of the start text come before the text that follows it
+            Some((end_text, end_tags)) if !choice.start_tags.is_empty() => {
+                branch_nodes.extend(tokenize_inline_content(&choice.start_text)?);
+                branch_nodes.extend(choice.start_tags.iter().cloned().map(Node::Tag));
+                branch_nodes.extend(tokenize_inline_content(end_text)?);
+                branch_nodes.extend(end_tags.iter().cloned().map(Node::Tag));
+            }
+            _ => {
+                if let Some(selected_text) = &choice.selected_text {
+                    branch_nodes.extend(tokenize_inline_content(selected_text)?);
+                }
+                branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
+            }
         }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
     }
     push_choice_line_end(&mut branch_nodes, choice);
 
@@ -107,16 +118,19 @@ struct SharedStart<'a> {
     end_tags: &'a [DynamicString],
 }
 
+/// The text and the tags that the line of a chosen choice has after its start text.
+fn split_selected(choice: &Choice) -> Option<(&str, &[DynamicString])> {
+    let text = choice.selected_text.as_ref()?;
+    Some((
+        text.strip_prefix(choice.start_text.as_str())?,
+        choice.selected_tags.strip_prefix(&choice.start_tags[..])?,
+    ))
+}
+
 /// Alternatives in the start text count how often it is shown, as a choice or as a line, so the
 /// two have to share it.
 fn shared_start_content(choice: &Choice) -> Result<Option<SharedStart<'_>>, CompilerError> {
-    let Some(selected_text) = &choice.selected_text else {
-        return Ok(None);
-    };
-    let (Some(end_text), Some(end_tags)) = (
-        selected_text.strip_prefix(choice.start_text.as_str()),
-        choice.selected_tags.strip_prefix(&choice.start_tags[..]),
-    ) else {
+    let Some((end_text, end_tags)) = split_selected(choice) else {
         return Ok(None);
     };
     let counts = nodes_contain_sequence(&tokenize_inline_content(&choice.start_text)?)
-- 
2.43.0


From 7bd78461a1081f351a17cd1049fafd153d0772bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 37/54] fix: names of variables and list items that nothing
 declares are compile errors

---
 compiler/src/emitter/link.rs | 107 ++++++++++++++++++++++++++++++++++-
 1 file changed, 106 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/link.rs b/compiler/src/emitter/link.rs
index 21da673..1a110cc 100644
--- a/compiler/src/emitter/link.rs
+++ b/compiler/src/emitter/link.rs
@@ -5,9 +5,114 @@ struct ContentReference {
     count_flags: i64,
 }
 
+/// The variables of a story.
+struct DeclaredNames {
+    globals: BTreeSet<String>,
+    /// Temporary variables and parameters, by the knot or function they belong to.
+    temporaries: BTreeMap<String, BTreeSet<String>>,
+}
+
+impl DeclaredNames {
+    fn new(story: &ParsedStory, root: &Value) -> Self {
+        let mut globals: BTreeSet<String> =
+            story.globals().iter().map(|global| global.name.clone()).collect();
+        for list in story.list_declarations() {
+            globals.insert(list.name.clone());
+            for (item, _, _) in &list.items {
+                globals.insert(item.clone());
+                globals.insert(format!("{}.{item}", list.name));
+            }
+        }
+        let mut names = Self {
+            globals,
+            temporaries: BTreeMap::new(),
+        };
+        for_each_object(root, None, &mut |owner, fields| {
+            if !fields.contains_key("re")
+                && let Some(name) = fields.get("temp=").and_then(Value::as_str)
+            {
+                let temporaries = names.temporaries.entry(owner.to_owned()).or_default();
+                temporaries.insert(name.to_owned());
+            }
+            Ok(())
+        })
+        .ok();
+        names
+    }
+
+    fn contains(&self, owner: &str, name: &str) -> bool {
+        self.globals.contains(name)
+            || self.temporaries.get(owner).is_some_and(|names| names.contains(name))
+    }
+}
+
+/// Checks that every variable and list item the story names is declared.
+fn check_names(
+    story: &ParsedStory,
+    context: &EmitContext,
+    root: &Value,
+) -> Result<(), CompilerError> {
+    let names = DeclaredNames::new(story, root);
+    for_each_object(root, None, &mut |owner, fields| {
+        let variable_target = fields.get("var").and_then(Value::as_bool) == Some(true);
+        for (field, value) in fields {
+            match field.as_str() {
+                "VAR?" | "VAR=" | "temp=" | "^var" => {}
+                "->" | "f()" | "->t->" if variable_target => {}
+                "list" => {
+                    for item in value.as_object().into_iter().flat_map(Map::keys) {
+                        if context.resolve_list_item(item).is_none() {
+                            return Err(CompilerError::invalid_source(format!(
+                                "could not find the list item '{item}'"
+                            )));
+                        }
+                    }
+                    continue;
+                }
+                _ => continue,
+            }
+            let name = value.as_str().unwrap_or_default();
+            if !names.contains(owner, name) {
+                return Err(CompilerError::invalid_source(format!(
+                    "Unresolved variable: {name}"
+                )));
+            }
+        }
+        Ok(())
+    })
+}
+
+/// Visits the objects of a container that are not containers' terminators, with the name of the
+/// knot or function they are in.
+fn for_each_object(
+    container: &Value,
+    owner: Option<&str>,
+    visit: &mut dyn FnMut(&str, &Map<String, Value>) -> Result<(), CompilerError>,
+) -> Result<(), CompilerError> {
+    let Some((terminator, content)) = container.as_array().and_then(|values| values.split_last())
+    else {
+        return Ok(());
+    };
+    for child in content {
+        match child {
+            Value::Object(fields) => visit(owner.unwrap_or_default(), fields)?,
+            _ => for_each_object(child, owner.or(Some("")), visit)?,
+        }
+    }
+    for (name, child) in terminator.as_object().into_iter().flatten() {
+        for_each_object(child, owner.or(Some(name)), visit)?;
+    }
+    Ok(())
+}
+
 /// Marks the containers whose visits or turns are read as counting them, and checks that
 /// everything that refers to content refers to content that exists.
-fn link_story(root: &mut Value) -> Result<(), CompilerError> {
+fn link_story(
+    story: &ParsedStory,
+    context: &EmitContext,
+    root: &mut Value,
+) -> Result<(), CompilerError> {
+    check_names(story, context, root)?;
     let mut references = Vec::new();
     collect_references(root, &RuntimePath::absolute(""), &mut references);
     for reference in references {
-- 
2.43.0


From a2933c3e30031f82a4f654f25fe10d7aa2513d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 38/54] fix: strings are parsed, and their sequences compiled,
 like any text

---
 compiler/src/emitter/conditional.rs |  20 +++--
 compiler/src/emitter/context.rs     |   2 +-
 compiler/src/emitter/expression.rs  | 112 +++++++++++-----------------
 compiler/src/emitter/flow.rs        |   2 +-
 compiler/src/emitter/nodes.rs       |  16 ++--
 5 files changed, 69 insertions(+), 83 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 5cc40bc..2bc59b6 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -11,10 +11,10 @@ fn emit_condition(
                 name: name.clone(),
                 args: Vec::new(),
             };
-            emit_expression_ctx(&call, out, Some(context), Some(scope));
+            emit_expression_ctx(&call, out, Some(context), Some(scope))?;
         }
         Condition::Expression(expression) => {
-            emit_expression_ctx(expression, out, Some(context), Some(scope))
+            emit_expression_ctx(expression, out, Some(context), Some(scope))?;
         }
     }
 
@@ -97,10 +97,16 @@ fn emit_conditional(
     // First pass: emit only condition tokens to determine their lengths,
     // so we can compute the absolute index of each branch array in the parent.
     let mut cond_tokens_list: Vec<Option<Vec<Value>>> = Vec::new();
+    let mut branch_start = conditional_index;
     for (branch_condition, _) in branches.iter() {
         let cond_tokens = if let Some(cond) = branch_condition {
             let mut tokens = Vec::new();
-            emit_condition(cond, &mut tokens, scope, context)?;
+            // The tokens follow the branch's "ev".
+            let mut cond_scope = scope.clone();
+            cond_scope.param_offset = branch_start + 1;
+            emit_condition(cond, &mut tokens, &cond_scope, context)?;
+            // "ev", "/ev" and the branch array
+            branch_start += tokens.len() + 3;
             Some(tokens)
         } else {
             None
@@ -196,7 +202,9 @@ fn emit_switch_conditional(
 
     // Build value expression tokens: ev, <value_tokens>, /ev
     let mut value_tokens = Vec::new();
-    emit_expression_ctx(value, &mut value_tokens, Some(context), Some(scope));
+    let mut value_scope = scope.clone();
+    value_scope.param_offset = switch_index + 1; // after the "ev"
+    emit_expression_ctx(value, &mut value_tokens, Some(context), Some(&value_scope))?;
     let preamble_len = value_tokens.len() + 2; // ev + value_tokens + /ev
 
     let num_branches = branches.len();
@@ -249,7 +257,9 @@ fn emit_switch_conditional(
         if let Some(case_expr) = case_expr {
             // Case branch: [du, ev, case_tokens, ==, /ev, {->:.^.b, c:true}, {b:[...]}]
             let mut case_tokens = Vec::new();
-            emit_expression_ctx(case_expr, &mut case_tokens, Some(context), Some(scope));
+            let mut case_scope = scope.at_path(joined_path(&scope.path, branch_array_index));
+            case_scope.param_offset = 2; // after the "du" and the "ev"
+            emit_expression_ctx(case_expr, &mut case_tokens, Some(context), Some(&case_scope))?;
             let mut branch_array = vec![json!("du"), json!("ev")];
             branch_array.extend(case_tokens);
             branch_array.push(json!("=="));
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 0f2f9d5..70afe15 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -65,7 +65,7 @@ pub fn story_to_json_value(
             Value::Object(named_content)
         }
     ]);
-    link_story(&mut root_value)?;
+    link_story(story, &context, &mut root_value)?;
     compact_story_paths(&mut root_value);
 
     let mut output = serde_json::Map::new();
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 7f99e8c..5655c0d 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -111,23 +111,23 @@ fn emit_divert(
     divert: &Divert,
     scope: &EmitScope,
     context: &EmitContext,
-) {
+) -> Result<(), CompilerError> {
     let resolved_target = scope.resolve_divert_target(&divert.target, context);
 
     if resolved_target == "END" {
         out.push(json!("end"));
-        return;
+        return Ok(());
     }
 
     if resolved_target == "DONE" {
         out.push(json!("done"));
-        return;
+        return Ok(());
     }
 
     if !divert.arguments.is_empty() {
         out.push(json!("ev"));
         for argument in &divert.arguments {
-            emit_expression_ctx(argument, &mut out.content, Some(context), Some(scope));
+            emit_expression_ctx(argument, &mut out.content, Some(context), Some(scope))?;
         }
         out.push(json!("/ev"));
     }
@@ -137,6 +137,8 @@ fn emit_divert(
     } else {
         out.push(json!({"->": resolved_target}));
     }
+
+    Ok(())
 }
 
 fn expression_has_function_call(expr: &Expression) -> bool {
@@ -157,7 +159,7 @@ fn emit_assignment(
     out: &mut EmittedContainer,
     context: &EmitContext,
     scope: Option<&EmitScope>,
-) {
+) -> Result<(), CompilerError> {
     // When the target variable is a parameter of the enclosing function/knot, it lives
     // in the temp-variable frame, so inklecate uses `{"temp=": name, "re": true}` rather
     // than `{"VAR=": name, "re": true}`.
@@ -166,7 +168,7 @@ fn emit_assignment(
     match mode {
         AssignMode::Set => {
             out.push(json!("ev"));
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            emit_expression_ctx(expression, &mut out.content, Some(context), scope)?;
             out.push(json!("/ev"));
             if is_param {
                 out.push(json!({"temp=": variable_name, "re": true}));
@@ -179,7 +181,7 @@ fn emit_assignment(
         }
         AssignMode::TempSet => {
             out.push(json!("ev"));
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            emit_expression_ctx(expression, &mut out.content, Some(context), scope)?;
             out.push(json!("/ev"));
             out.push(json!({"temp=": variable_name}));
             if expression_has_function_call(expression) {
@@ -193,8 +195,8 @@ fn emit_assignment(
                 &mut out.content,
                 Some(context),
                 scope,
-            );
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            )?;
+            emit_expression_ctx(expression, &mut out.content, Some(context), scope)?;
             out.push(json!("+"));
             if is_param {
                 out.push(json!({"temp=": variable_name, "re": true}));
@@ -213,8 +215,8 @@ fn emit_assignment(
                 &mut out.content,
                 Some(context),
                 scope,
-            );
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            )?;
+            emit_expression_ctx(expression, &mut out.content, Some(context), scope)?;
             out.push(json!("-"));
             if is_param {
                 out.push(json!({"temp=": variable_name, "re": true}));
@@ -227,6 +229,8 @@ fn emit_assignment(
             }
         }
     }
+
+    Ok(())
 }
 
 fn emit_expression_ctx(
@@ -234,67 +238,35 @@ fn emit_expression_ctx(
     out: &mut Vec<Value>,
     context: Option<&EmitContext>,
     scope: Option<&EmitScope>,
-) {
+) -> Result<(), CompilerError> {
     match expression {
         Expression::Bool(value) => out.push(json!(value)),
         Expression::Int(value) => out.push(json!(value)),
         Expression::Float(value) => out.push(float_to_json(*value)),
         Expression::Str(value) => {
             // Parse the string content for {expr} interpolations
-            let dynamic = parse_dynamic_string(value).unwrap_or_else(|_| DynamicString {
-                parts: vec![DynamicStringPart::Text(value.clone())],
-            });
+            let dynamic = parse_dynamic_string(value)?;
             out.push(json!("str"));
-            // If there are no expression parts (plain string or empty), emit as literal text
-            let has_expressions = dynamic.parts.iter().any(|p| {
-                matches!(
-                    p,
-                    DynamicStringPart::Expression(_)
-                        | DynamicStringPart::Sequence(_)
-                        | DynamicStringPart::Content(_)
-                )
-            });
+            let has_expressions = dynamic
+                .parts
+                .iter()
+                .any(|part| !matches!(part, DynamicStringPart::Text(_)));
             if !has_expressions {
                 // Plain string (possibly empty) — emit as single text token
-                let text: String = dynamic
-                    .parts
-                    .iter()
-                    .filter_map(|p| {
-                        if let DynamicStringPart::Text(t) = p {
-                            Some(t.as_str())
-                        } else {
-                            None
-                        }
-                    })
-                    .collect();
-                out.push(json!(format!("^{text}")));
+                out.push(json!(format!("^{value}")));
+            } else if let (Some(scope), Some(context)) = (scope, context) {
+                emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
             } else {
-                for part in &dynamic.parts {
-                    match part {
-                        DynamicStringPart::Text(t) => {
-                            if !t.is_empty() {
-                                out.push(json!(format!("^{t}")));
-                            }
-                        }
-                        DynamicStringPart::Expression(expr) => {
-                            out.push(json!("ev"));
-                            emit_expression_ctx(expr, out, context, scope);
-                            out.push(json!("out"));
-                            out.push(json!("/ev"));
-                        }
-                        DynamicStringPart::Sequence(_) | DynamicStringPart::Content(_) => {
-                            // Sequences inside string literals not supported here; emit raw
-                            out.push(json!(format!("^{value}")));
-                        }
-                    }
-                }
+                return Err(CompilerError::unsupported_feature(format!(
+                    "the string \"{value}\" is not constant"
+                )));
             }
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
             if let Some(value) = context.and_then(|ctx| ctx.constants.get(name)) {
-                emit_expression_ctx(value, out, context, scope);
-                return;
+                emit_expression_ctx(value, out, context, scope)?;
+                return Ok(());
             }
             // A dotted name is a list item (`list.item`) before it is a path
             if name.contains('.')
@@ -337,13 +309,13 @@ fn emit_expression_ctx(
                 Expression::Int(n) => out.push(json!(-n)),
                 Expression::Float(f) => out.push(float_to_json(-f)),
                 other => {
-                    emit_expression_ctx(other, out, context, scope);
+                    emit_expression_ctx(other, out, context, scope)?;
                     out.push(json!("_"));
                 }
             }
         }
         Expression::Not(expr) => {
-            emit_expression_ctx(expr, out, context, scope);
+            emit_expression_ctx(expr, out, context, scope)?;
             out.push(json!("!"));
         }
         Expression::FunctionCall { name, args } => {
@@ -355,16 +327,16 @@ fn emit_expression_ctx(
                 } else if args.len() == 1 {
                     // list(n) → "^list_name", n, "listInt"
                     out.push(json!(format!("^{name}")));
-                    emit_expression_ctx(&args[0], out, context, scope);
+                    emit_expression_ctx(&args[0], out, context, scope)?;
                     out.push(json!("listInt"));
                 } else {
                     // Fallback: treat as user function call
                     for arg in args {
-                        emit_expression_ctx(arg, out, context, scope);
+                        emit_expression_ctx(arg, out, context, scope)?;
                     }
                     out.push(json!({"f()": name}));
                 }
-                return;
+                return Ok(());
             }
             // Map built-in Ink function names to runtime tokens
             // Built-ins are emitted as plain strings; user functions as {"f()": name}
@@ -393,7 +365,7 @@ fn emit_expression_ctx(
                 _ => None,
             };
             for (index, arg) in args.iter().enumerate() {
-                emit_call_argument(name, index, arg, out, context, scope);
+                emit_call_argument(name, index, arg, out, context, scope)?;
             }
             if let Some(token) = builtin_token {
                 out.push(json!(token));
@@ -432,8 +404,8 @@ fn emit_expression_ctx(
             operator,
             right,
         } => {
-            emit_expression_ctx(left, out, context, scope);
-            emit_expression_ctx(right, out, context, scope);
+            emit_expression_ctx(left, out, context, scope)?;
+            emit_expression_ctx(right, out, context, scope)?;
             out.push(json!(match operator {
                 BinaryOperator::Add => "+",
                 BinaryOperator::Subtract => "-",
@@ -454,6 +426,8 @@ fn emit_expression_ctx(
             }));
         }
     }
+
+    Ok(())
 }
 
 fn emit_call_argument(
@@ -463,7 +437,7 @@ fn emit_call_argument(
     out: &mut Vec<Value>,
     context: Option<&EmitContext>,
     scope: Option<&EmitScope>,
-) {
+) -> Result<(), CompilerError> {
     let is_ref_arg = context
         .and_then(|ctx| ctx.function_ref_param_positions.get(function_name))
         .and_then(|positions| positions.get(arg_index))
@@ -473,8 +447,10 @@ fn emit_call_argument(
     if is_ref_arg && let Expression::Variable(name) = arg {
         out.push(json!({"^var": name, "ci": -1}));
     } else {
-        emit_expression_ctx(arg, out, context, scope);
+        emit_expression_ctx(arg, out, context, scope)?;
     }
+
+    Ok(())
 }
 
 fn emit_dynamic_string(
@@ -505,7 +481,7 @@ fn emit_dynamic_string_parts(
         }
         DynamicStringPart::Expression(expression) => {
             out.push(json!("ev"));
-            emit_expression_ctx(expression, out, Some(context), Some(scope));
+            emit_expression_ctx(expression, out, Some(context), Some(scope))?;
             out.push(json!("out"));
             out.push(json!("/ev"));
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 3d20254..4c1bb20 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -32,7 +32,7 @@ fn emit_global_declarations(
             &mut container.content,
             Some(context),
             None,
-        );
+        )?;
         container.push(json!({ "VAR=": global.name }));
     }
 
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 32155b0..ab5cfa9 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -261,7 +261,7 @@ fn emit_nodes_with_continuation(
             Node::Text(text) => out.push(json!(format!("^{text}"))),
             Node::OutputExpression(expression) => {
                 out.push(json!("ev"));
-                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope));
+                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope))?;
                 out.push(json!("out"));
                 out.push(json!("/ev"));
             }
@@ -282,14 +282,14 @@ fn emit_nodes_with_continuation(
                 )?;
                 continue;
             }
-            Node::Divert(divert) => emit_divert(&mut out, divert, scope, context),
+            Node::Divert(divert) => emit_divert(&mut out, divert, scope, context)?,
             Node::TunnelDivert { target, args, .. } => {
                 let resolved_target = scope.resolve_divert_target(target, context);
                 let is_var = scope.is_variable_divert(target, context);
                 if !args.is_empty() {
                     out.push(json!("ev"));
                     for arg in args {
-                        emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                        emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope))?;
                     }
                     out.push(json!("/ev"));
                 }
@@ -309,7 +309,7 @@ fn emit_nodes_with_continuation(
                 // ->-> target(args): push args + divert target, then ->->
                 out.push(json!("ev"));
                 for arg in args {
-                    emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                    emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope))?;
                 }
                 if scope.is_variable_divert(target, context) {
                     out.push(json!({"VAR?": target}));
@@ -330,7 +330,7 @@ fn emit_nodes_with_continuation(
                             let resolved = scope.resolve_divert_target(target, context);
                             out.push(json!({"^->": resolved}));
                         } else {
-                            emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                            emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope))?;
                         }
                     }
                     out.push(json!("/ev"));
@@ -353,7 +353,7 @@ fn emit_nodes_with_continuation(
             }
             Node::ReturnExpr(expression) => {
                 out.push(json!("ev"));
-                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope));
+                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope))?;
                 out.push(json!("/ev"));
                 out.push(json!("~ret"));
             }
@@ -390,7 +390,7 @@ fn emit_nodes_with_continuation(
                 &mut out,
                 context,
                 Some(scope),
-            ),
+            )?,
             Node::VoidCall { name, args } => {
                 out.push(json!("ev"));
                 for (index, arg) in args.iter().enumerate() {
@@ -401,7 +401,7 @@ fn emit_nodes_with_continuation(
                         &mut out.content,
                         Some(context),
                         Some(scope),
-                    );
+                    )?;
                 }
                 // Only SEED_RANDOM makes sense as a void call (it has a side effect).
                 // All other built-ins return a value and are meaningless as void statements.
-- 
2.43.0


From e19e7b26f21653e18aa15ebd6582f65ee86270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 39/54] fix: sources nested too deeply are compile errors

---
 compiler/src/consts.rs            | 34 ++++++++++++++++++
 compiler/src/emitter/context.rs   |  2 ++
 compiler/src/emitter/flow.rs      | 38 +++++++++++---------
 compiler/src/emitter/mod.rs       |  1 +
 compiler/src/emitter/nodes.rs     |  9 +++++
 compiler/src/inline.rs            |  5 +++
 compiler/src/lib.rs               |  1 +
 compiler/src/nesting.rs           | 58 +++++++++++++++++++++++++++++++
 compiler/src/parser/expression.rs | 35 +++++++++++++++++++
 compiler/src/parser/mod.rs        |  1 +
 compiler/src/parser/statement.rs  | 10 ++++++
 11 files changed, 177 insertions(+), 17 deletions(-)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/consts.rs b/compiler/src/consts.rs
index b8f9f20..db3c9ad 100644
--- a/compiler/src/consts.rs
+++ b/compiler/src/consts.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use crate::{
     ast::{Choice, Condition, Expression, Flow, Node, ParsedStory},
     error::CompilerError,
+    nesting::MAX_OPERATORS,
 };
 
 pub(crate) fn resolve(mut story: ParsedStory) -> Result<ParsedStory, CompilerError> {
@@ -26,6 +27,14 @@ pub(crate) fn resolve(mut story: ParsedStory) -> Result<ParsedStory, CompilerErr
 
 /// Constants can refer to other constants, whose values are resolved first.
 fn resolve_consts(consts: &mut HashMap<String, Expression>) -> Result<(), CompilerError> {
+    for (name, value) in consts.iter() {
+        if contains_logic(value) {
+            return Err(CompilerError::invalid_source(format!(
+                "the string of CONST '{name}' cannot contain any logic"
+            )));
+        }
+    }
+
     let mut resolved = HashMap::new();
 
     while resolved.len() < consts.len() {
@@ -49,6 +58,11 @@ fn resolve_consts(consts: &mut HashMap<String, Expression>) -> Result<(), Compil
         for name in ready {
             let mut value = consts[&name].clone();
             resolve_expression(&mut value, &resolved);
+            if operators(&value) > MAX_OPERATORS {
+                return Err(CompilerError::unsupported_feature(format!(
+                    "the value of CONST '{name}' has too many operators"
+                )));
+            }
             resolved.insert(name, value);
         }
     }
@@ -67,6 +81,26 @@ fn refers_to(expression: &Expression, test: &dyn Fn(&str) -> bool) -> bool {
     }
 }
 
+fn contains_logic(expression: &Expression) -> bool {
+    match expression {
+        Expression::Str(text) => text.contains('{'),
+        Expression::Binary { left, right, .. } => contains_logic(left) || contains_logic(right),
+        Expression::Negate(inner) | Expression::Not(inner) => contains_logic(inner),
+        Expression::FunctionCall { args, .. } => args.iter().any(contains_logic),
+        _ => false,
+    }
+}
+
+/// How many operations an expression consists of.
+fn operators(expression: &Expression) -> usize {
+    match expression {
+        Expression::Binary { left, right, .. } => 1 + operators(left) + operators(right),
+        Expression::Negate(inner) | Expression::Not(inner) => 1 + operators(inner),
+        Expression::FunctionCall { args, .. } => 1 + args.iter().map(operators).sum::<usize>(),
+        _ => 0,
+    }
+}
+
 fn resolve_flow(flow: &mut Flow, consts: &HashMap<String, Expression>) {
     resolve_nodes(&mut flow.nodes, consts);
     for child in &mut flow.children {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 70afe15..3d3d52f 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -65,6 +65,8 @@ pub fn story_to_json_value(
             Value::Object(named_content)
         }
     ]);
+    // The root is nested in the object returned below.
+    check_json_depth(&root_value, 2)?;
     link_story(story, &context, &mut root_value)?;
     compact_story_paths(&mut root_value);
 
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 4c1bb20..507c101 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -156,7 +156,7 @@ fn prepend_parameters(container: &mut EmittedContainer, parameters: &[String]) {
 /// in a second choice block referencing a label from the first block).
 fn collect_all_choice_labels(nodes: &[Node], scope: &EmitScope) -> BTreeMap<String, String> {
     let mut labels = BTreeMap::new();
-    collect_choice_labels_recursive(nodes, scope, &mut labels, &mut 0);
+    collect_choice_labels_recursive(nodes, &scope.path, &mut labels, &mut 0);
     labels
 }
 
@@ -212,23 +212,27 @@ fn collect_qualified_choice_labels_for_scope(
 
 fn collect_choice_labels_recursive(
     nodes: &[Node],
-    scope: &EmitScope,
+    path: &str,
     labels: &mut BTreeMap<String, String>,
     choice_index: &mut usize,
 ) {
+    if path.matches('.').count() > MAX_JSON_DEPTH {
+        // Too deep to be emitted
+        return;
+    }
     let mut i = 0;
     while i < nodes.len() {
         match &nodes[i] {
             Node::Choice(choice) => {
                 let branch_index = *choice_index;
                 if let Some(label) = &choice.label {
-                    labels.insert(label.clone(), format!("{}.c-{branch_index}", scope.path));
+                    labels.insert(label.clone(), format!("{path}.c-{branch_index}"));
                 }
-                let branch_scope = scope.choice_branch(&format!("c-{branch_index}"));
+                let branch_path = joined_path(path, format!("c-{branch_index}"));
                 let mut nested_choice_index = 0;
                 collect_choice_labels_recursive(
                     &choice.body,
-                    &branch_scope,
+                    &branch_path,
                     labels,
                     &mut nested_choice_index,
                 );
@@ -246,14 +250,14 @@ fn collect_choice_labels_recursive(
                             if let Some(label) = &c.label {
                                 labels.insert(
                                     label.clone(),
-                                    format!("{}.c-{branch_index}", scope.path),
+                                    format!("{path}.c-{branch_index}"),
                                 );
                             }
-                            let branch_scope = scope.choice_branch(&format!("c-{branch_index}"));
+                            let branch_path = joined_path(path, format!("c-{branch_index}"));
                             let mut nested_choice_index = 0;
                             collect_choice_labels_recursive(
                                 &c.body,
-                                &branch_scope,
+                                &branch_path,
                                 labels,
                                 &mut nested_choice_index,
                             );
@@ -267,17 +271,17 @@ fn collect_choice_labels_recursive(
                 let continuation = &nodes[i..];
                 if !continuation.is_empty() {
                     let g_name = format!("g-{}", block_start_ci);
-                    let (child_scope, continuation) =
+                    let (child_path, continuation) =
                         if let Some(Node::GatherLabel { label, .. }) = continuation.first() {
-                            labels.insert(label.clone(), format!("{}.{}", scope.path, label));
-                            (scope.choice_branch(label), &continuation[1..])
+                            labels.insert(label.clone(), format!("{path}.{label}"));
+                            (joined_path(path, label), &continuation[1..])
                         } else {
-                            (scope.choice_branch(&g_name), continuation)
+                            (joined_path(path, &g_name), continuation)
                         };
                     let mut child_index = 0;
                     collect_choice_labels_recursive(
                         continuation,
-                        &child_scope,
+                        &child_path,
                         labels,
                         &mut child_index,
                     );
@@ -289,13 +293,13 @@ fn collect_choice_labels_recursive(
                 level,
                 indent,
             } => {
-                labels.insert(label.clone(), format!("{}.{}", scope.path, label));
-                let sub_scope = scope.choice_branch(label);
+                labels.insert(label.clone(), format!("{path}.{label}"));
+                let sub_path = joined_path(path, label);
                 let mut child_index = 0;
                 if *indent > 0 {
                     collect_choice_labels_recursive(
                         &nodes[i + 1..],
-                        &sub_scope,
+                        &sub_path,
                         labels,
                         &mut child_index,
                     );
@@ -316,7 +320,7 @@ fn collect_choice_labels_recursive(
                     .map_or(nodes.len(), |offset| i + 1 + offset);
                 collect_choice_labels_recursive(
                     &nodes[i + 1..body_end],
-                    &sub_scope,
+                    &sub_path,
                     labels,
                     &mut child_index,
                 );
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bf9a154..86b4c46 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,7 @@ use crate::{
     },
     error::CompilerError,
     inline::{parse_dynamic_string, tokenize_inline_content},
+    nesting::{MAX_JSON_DEPTH, check_json_depth, nested},
 };
 
 include!("context.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index ab5cfa9..8fbd1ae 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -246,6 +246,15 @@ fn emit_nodes_with_continuation(
     scope: &EmitScope,
     context: &EmitContext,
     fallback_continuation: Option<&str>,
+) -> Result<EmittedContainer, CompilerError> {
+    nested(|| emit_nested_nodes(nodes, scope, context, fallback_continuation))
+}
+
+fn emit_nested_nodes(
+    nodes: &[Node],
+    scope: &EmitScope,
+    context: &EmitContext,
+    fallback_continuation: Option<&str>,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut out = EmittedContainer::default();
     let mut next_choice_index = 0;
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 386a78d..7ef133b 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,16 @@
 use crate::{
     ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting::nested,
 };
 
 use crate::parser::expression::{parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    nested(|| tokenize_nested_content(content))
+}
+
+fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index d9e1c3f..17d195e 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..b4cd7d8
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,58 @@
+//! Bounds how deeply a source nests: the compiler recurses along with it, and the runtime
+//! does not load a story nested deeper than [`MAX_JSON_DEPTH`].
+
+use std::cell::Cell;
+
+use serde_json::Value;
+
+use crate::error::CompilerError;
+
+const MAX_NESTING: usize = 64;
+
+/// Most operators of one expression, whose tree they may nest one in the other.
+pub(crate) const MAX_OPERATORS: usize = 200;
+
+/// Most arrays and objects nested in each other that the runtime reads.
+pub(crate) const MAX_JSON_DEPTH: usize = 127;
+
+thread_local! {
+    static LEVEL: Cell<usize> = const { Cell::new(0) };
+}
+
+struct Level;
+
+impl Drop for Level {
+    fn drop(&mut self) {
+        LEVEL.set(LEVEL.get() - 1);
+    }
+}
+
+/// Runs `inner`, which handles one more level of nested source.
+pub(crate) fn nested<T>(
+    inner: impl FnOnce() -> Result<T, CompilerError>,
+) -> Result<T, CompilerError> {
+    if LEVEL.get() >= MAX_NESTING {
+        return Err(too_deep());
+    }
+    LEVEL.set(LEVEL.get() + 1);
+    let _level = Level;
+    inner()
+}
+
+/// Rejects a story that the runtime would not read.
+pub(crate) fn check_json_depth(value: &Value, depth: usize) -> Result<(), CompilerError> {
+    match value {
+        Value::Array(_) | Value::Object(_) if depth > MAX_JSON_DEPTH => Err(too_deep()),
+        Value::Array(values) => values
+            .iter()
+            .try_for_each(|value| check_json_depth(value, depth + 1)),
+        Value::Object(fields) => fields
+            .values()
+            .try_for_each(|value| check_json_depth(value, depth + 1)),
+        _ => Ok(()),
+    }
+}
+
+fn too_deep() -> CompilerError {
+    CompilerError::unsupported_feature("the story is nested too deeply")
+}
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index c64f8e6..5c6306e 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{BinaryOperator, Expression},
     error::CompilerError,
+    nesting::{MAX_OPERATORS, nested},
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -36,6 +37,31 @@ pub enum Token {
     Caret,
 }
 
+impl Token {
+    fn is_binary_operator(&self) -> bool {
+        match self {
+            Self::Ident(name) => name == "mod",
+            Self::Plus
+            | Self::Minus
+            | Self::Star
+            | Self::Slash
+            | Self::Percent
+            | Self::EqualEqual
+            | Self::NotEqual
+            | Self::Greater
+            | Self::GreaterEqual
+            | Self::Less
+            | Self::LessEqual
+            | Self::AndAnd
+            | Self::OrOr
+            | Self::Has
+            | Self::Hasnt
+            | Self::Caret => true,
+            _ => false,
+        }
+    }
+}
+
 pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
     let mut tokens = Vec::new();
     let chars: Vec<char> = input.chars().collect();
@@ -228,6 +254,11 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
 
 pub fn parse_expression(input: &str) -> Result<Expression, CompilerError> {
     let tokens = tokenize_expression(input)?;
+    if tokens.iter().filter(|token| token.is_binary_operator()).count() > MAX_OPERATORS {
+        return Err(CompilerError::unsupported_feature(
+            "the expression has too many operators",
+        ));
+    }
     let mut parser = ExpressionParser::new(tokens);
     let expression = parser.parse_expression()?;
 
@@ -496,6 +527,10 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        nested(|| self.parse_operand())
+    }
+
+    fn parse_operand(&mut self) -> Result<Expression, CompilerError> {
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index f9d646d..4344fd3 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting::nested,
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 42d1656..6fea2cc 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -2,6 +2,16 @@ pub fn parse_statement(
     lines: &[Line<'_>],
     line_index: &mut usize,
     strip_leading_whitespace: bool,
+) -> Result<ParsedStatement, CompilerError> {
+    let ln = *line_index + 1;
+    nested(|| parse_nested_statement(lines, line_index, strip_leading_whitespace))
+        .map_err(|e| e.with_line(ln))
+}
+
+fn parse_nested_statement(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    strip_leading_whitespace: bool,
 ) -> Result<ParsedStatement, CompilerError> {
     let line = &lines[*line_index];
     let trimmed = line.content.trim();
-- 
2.43.0


From c9cd45c2fc69247e4be4c1ac337d42cd57105181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 40/54] fix: long and deeply nested strings do not exhaust the
 compiler's stack

---
 compiler/src/emitter/expression.rs | 61 ++++++++++++++----------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 5655c0d..4172f93 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -255,7 +255,8 @@ fn emit_expression_ctx(
                 // Plain string (possibly empty) — emit as single text token
                 out.push(json!(format!("^{value}")));
             } else if let (Some(scope), Some(context)) = (scope, context) {
-                emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
+                // The logic of a string can contain strings.
+                nested(|| emit_dynamic_string_parts(&dynamic.parts, out, scope, context))?;
             } else {
                 return Err(CompilerError::unsupported_feature(format!(
                     "the string \"{value}\" is not constant"
@@ -468,40 +469,36 @@ fn emit_dynamic_string_parts(
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    if parts.is_empty() {
-        return Ok(());
-    }
-
-    match &parts[0] {
-        DynamicStringPart::Text(text) => {
-            if !text.is_empty() {
-                out.push(json!(format!("^{text}")));
+    for part in parts {
+        match part {
+            DynamicStringPart::Text(text) => {
+                if !text.is_empty() {
+                    out.push(json!(format!("^{text}")));
+                }
+            }
+            DynamicStringPart::Expression(expression) => {
+                out.push(json!("ev"));
+                emit_expression_ctx(expression, out, Some(context), Some(scope))?;
+                out.push(json!("out"));
+                out.push(json!("/ev"));
+            }
+            DynamicStringPart::Sequence(sequence) => {
+                out.push(emit_sequence(
+                    sequence,
+                    scope,
+                    out.len() + scope.param_offset,
+                    context,
+                )?);
+            }
+            DynamicStringPart::Content(nodes) => {
+                let mut content_scope = scope.clone();
+                content_scope.param_offset += out.len();
+                out.extend(emit_nodes(nodes, &content_scope, context)?.content);
             }
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Expression(expression) => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, out, Some(context), Some(scope))?;
-            out.push(json!("out"));
-            out.push(json!("/ev"));
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Sequence(sequence) => {
-            out.push(emit_sequence(
-                sequence,
-                scope,
-                out.len() + scope.param_offset,
-                context,
-            )?);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Content(nodes) => {
-            let mut content_scope = scope.clone();
-            content_scope.param_offset += out.len();
-            out.extend(emit_nodes(nodes, &content_scope, context)?.content);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
     }
+
+    Ok(())
 }
 
 fn emit_tag(
-- 
2.43.0


From 799c7c080427de868d433230d84dba9396c44c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 41/54] fix: a divert with unbalanced parentheses is a compile
 error

---
 compiler/src/inline.rs | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 7ef133b..1b7b7e5 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -273,20 +273,8 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
 
     // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
-        if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
-            let target = segment[..open].trim().to_owned();
-            let args_str = &segment[open + 1..close];
-            let mut args = Vec::new();
-            for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                if !arg_str.trim().is_empty() {
-                    args.push(parse_expression(arg_str.trim())?);
-                }
-            }
-            Ok((target, args))
-        } else {
-            Ok((segment.to_string(), Vec::new()))
-        }
+        let Divert { target, arguments } = parse_divert(segment)?;
+        Ok((target, arguments))
     }
 
     // `-> tunnel2 ->->`: tunnel to `tunnel2` then return from current tunnel
@@ -534,7 +522,7 @@ pub fn parse_inline_conditional(
 pub fn is_condition_only(inner: &str) -> bool {
     find_condition_colon(inner).is_none()
         && !inner.starts_with(['&', '!', '~'])
-        && !inner.replace("||", "").contains('|')
+        && split_top_level_pipe(&inner.replace("||", "")).len() == 1
 }
 
 /// Position of the `:` that ends the condition of an inline conditional: outside any nested
-- 
2.43.0


From 06ab9885514cd10d63418f251b3c3e09b7df8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 42/54] fix: names that nothing can refer to are compile
 errors, and only names label choices and gathers

---
 compiler/src/parser/choice.rs     | 21 +++++----
 compiler/src/parser/expression.rs | 18 ++++++++
 compiler/src/parser/header.rs     |  5 ++-
 compiler/src/parser/statement.rs  | 13 ++----
 compiler/src/validator/context.rs |  1 +
 compiler/src/validator/mod.rs     |  2 +
 compiler/src/validator/names.rs   | 72 +++++++++++++++++++++++++++++++
 7 files changed, 113 insertions(+), 19 deletions(-)
 create mode 100644 compiler/src/validator/names.rs

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 41ca0d1..1a91228 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -5,6 +5,7 @@ use crate::{
 
 use super::{
     Line, ParsedStatement,
+    expression::is_identifier,
     inline::{
         parse_choice_diverts, parse_condition, split_inline_choice_divert, split_text_and_tags,
     },
@@ -258,6 +259,13 @@ pub(super) fn gather_nesting_level(trimmed: &str) -> usize {
     level
 }
 
+/// The label in parentheses at the start of a choice or a gather, and what follows it.
+pub(super) fn parse_label(input: &str) -> Option<(&str, &str)> {
+    let (label, rest) = input.strip_prefix('(')?.split_once(')')?;
+    let label = label.trim();
+    is_identifier(label).then(|| (label, rest.trim_start()))
+}
+
 pub fn parse_choice_prefixes(
     input: &str,
 ) -> Result<(Option<String>, Vec<Condition>, &str), CompilerError> {
@@ -265,18 +273,15 @@ pub fn parse_choice_prefixes(
     let mut label = None;
     let mut conditions = Vec::new();
 
-    if let Some(after_open) = remainder.strip_prefix('(') {
-        let end = after_open.find(')').ok_or_else(|| {
-            CompilerError::invalid_source("choice label is missing ')'".to_owned())
-        })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+    if let Some((name, rest)) = parse_label(remainder) {
+        label = Some(name.to_owned());
+        remainder = rest;
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
-        let end = after_open.find('}').ok_or_else(|| {
+        let end = super::inline::find_matching_brace(remainder, 0).ok_or_else(|| {
             CompilerError::invalid_source("choice condition is missing '}'".to_owned())
-        })?;
+        })? - 1;
         if !super::inline::is_condition_only(&after_open[..end]) {
             // `* {cond: text}` and `* {a|b}` are choice text, not conditions.
             break;
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 5c6306e..91a816a 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -84,6 +84,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
             let parsed = parse_path_identifier(&rest).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
+            check_path(parsed)?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
             index += parsed.len(); // skip the target name (always ASCII)
             continue;
@@ -207,6 +208,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 }
                 let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
+                    check_path(&token_text)?;
                     tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
                     let value = token_text.parse::<f32>().map_err(|error| {
@@ -229,6 +231,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     index += 1;
                 }
                 let ident: String = chars[start..index].iter().collect();
+                check_path(&ident)?;
                 match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
@@ -292,6 +295,20 @@ pub fn parse_path_identifier(text: &str) -> Option<&str> {
     if end == 0 { None } else { Some(&text[..end]) }
 }
 
+/// Whether something can be declared under this name: a number is a position in the story.
+pub fn is_identifier(name: &str) -> bool {
+    name.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
+        && !name.chars().all(|ch| ch.is_ascii_digit())
+}
+
+/// Rejects a path with a component that cannot be a name.
+pub fn check_path(path: &str) -> Result<(), CompilerError> {
+    if path.split('.').all(is_identifier) {
+        return Ok(());
+    }
+    Err(CompilerError::invalid_source(format!("'{path}' is not a name")))
+}
+
 pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>, CompilerError> {
     let trimmed = text.trim();
     let open = match trimmed.find('(') {
@@ -310,6 +327,7 @@ pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>,
     let name = parse_path_identifier(trimmed[..open].trim())
         .ok_or_else(|| CompilerError::invalid_source("invalid divert target".to_owned()))?
         .to_owned();
+    check_path(&name)?;
     let mut arguments = Vec::new();
     for argument in split_top_level_commas(&trimmed[open + 1..close]) {
         if !argument.trim().is_empty() {
diff --git a/compiler/src/parser/header.rs b/compiler/src/parser/header.rs
index 0c3daf9..143b5f6 100644
--- a/compiler/src/parser/header.rs
+++ b/compiler/src/parser/header.rs
@@ -3,7 +3,10 @@ pub fn parse_header(line: &str) -> Option<Header> {
 
     if trimmed.starts_with("===") || trimmed.starts_with("==") {
         let inner = trimmed.trim_matches('=').trim();
-        if let Some(rest) = inner.strip_prefix("function") {
+        if let Some(rest) = inner
+            .strip_prefix("function")
+            .filter(|rest| rest.starts_with(char::is_whitespace))
+        {
             let (name, parameters, ref_parameters, divert_parameters) =
                 parse_header_signature(rest.trim())?;
             return Some(Header::Function {
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6fea2cc..30648e4 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -172,16 +172,9 @@ fn parse_nested_statement(
         }
 
         // Check for gather label: (label_name) at the start
-        let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
-                let label = gather_content[1..end].trim().to_owned();
-                let rest = gather_content[end + 1..].trim_start();
-                (Some(label), rest)
-            } else {
-                (None, gather_content)
-            }
-        } else {
-            (None, gather_content)
+        let (gather_label, gather_content) = match choice::parse_label(gather_content) {
+            Some((label, rest)) => (Some(label.to_owned()), rest),
+            None => (None, gather_content),
         };
 
         // What follows the marker and the label is a statement of its own ("- * choice",
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index 25289e5..3991d33 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -1,4 +1,5 @@
 pub fn validate(story: &ParsedStory) -> Result<(), CompilerError> {
+    validate_declared_names(story)?;
     let ctx = ValidationContext::build(story);
     ctx.validate_story(story)
 }
diff --git a/compiler/src/validator/mod.rs b/compiler/src/validator/mod.rs
index 9a08811..7d59adc 100644
--- a/compiler/src/validator/mod.rs
+++ b/compiler/src/validator/mod.rs
@@ -5,6 +5,7 @@ use std::collections::{BTreeMap, BTreeSet};
 use crate::{
     ast::{AssignMode, Condition, Divert, Expression, Flow, Node, ParsedStory},
     error::CompilerError,
+    parser::expression::is_identifier,
 };
 
 include!("context.rs");
@@ -12,3 +13,4 @@ include!("structure.rs");
 include!("diverts.rs");
 include!("variables.rs");
 include!("symbols.rs");
+include!("names.rs");
diff --git a/compiler/src/validator/names.rs b/compiler/src/validator/names.rs
new file mode 100644
index 0000000..d847c1e
--- /dev/null
+++ b/compiler/src/validator/names.rs
@@ -0,0 +1,72 @@
+/// Checks that whatever the story declares can be referred to by its name.
+fn validate_declared_names(story: &ParsedStory) -> Result<(), CompilerError> {
+    for global in story.globals() {
+        check_declared_name(&global.name)?;
+    }
+    for name in story.consts.keys() {
+        check_declared_name(name)?;
+    }
+    for list in story.list_declarations() {
+        check_declared_name(&list.name)?;
+        for (item, _, _) in &list.items {
+            check_declared_name(item)?;
+        }
+    }
+    validate_names_in_nodes(story.root())?;
+    story.flows().iter().try_for_each(validate_names_in_flow)
+}
+
+fn validate_names_in_flow(flow: &Flow) -> Result<(), CompilerError> {
+    check_declared_name(&flow.name)?;
+    for parameter in &flow.parameters {
+        check_declared_name(parameter)?;
+    }
+    validate_names_in_nodes(&flow.nodes)?;
+    flow.children.iter().try_for_each(validate_names_in_flow)
+}
+
+fn validate_names_in_nodes(nodes: &[Node]) -> Result<(), CompilerError> {
+    for node in nodes {
+        match node {
+            Node::GatherLabel { label, .. } => check_declared_name(label)?,
+            Node::Assignment {
+                variable_name,
+                mode: AssignMode::TempSet,
+                ..
+            } => check_declared_name(variable_name)?,
+            Node::Choice(choice) => {
+                if let Some(label) = &choice.label {
+                    check_declared_name(label)?;
+                }
+                validate_names_in_nodes(&choice.body)?;
+            }
+            Node::Conditional {
+                when_true,
+                when_false,
+                ..
+            } => {
+                validate_names_in_nodes(when_true)?;
+                validate_names_in_nodes(when_false.as_deref().unwrap_or_default())?;
+            }
+            Node::SwitchConditional { branches, .. } => {
+                for (_, body) in branches {
+                    validate_names_in_nodes(body)?;
+                }
+            }
+            Node::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    validate_names_in_nodes(branch)?;
+                }
+            }
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
+fn check_declared_name(name: &str) -> Result<(), CompilerError> {
+    if is_identifier(name) {
+        return Ok(());
+    }
+    Err(CompilerError::invalid_source(format!("'{name}' cannot be declared: it is not a name")))
+}
-- 
2.43.0


From a2fe03d5c938510ecf1cb91df020645e5dfb2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 43/54] fix: a name declared twice is a compile error

---
 compiler/src/validator/names.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/compiler/src/validator/names.rs b/compiler/src/validator/names.rs
index d847c1e..1c580fb 100644
--- a/compiler/src/validator/names.rs
+++ b/compiler/src/validator/names.rs
@@ -11,7 +11,11 @@ fn validate_declared_names(story: &ParsedStory) -> Result<(), CompilerError> {
         for (item, _, _) in &list.items {
             check_declared_name(item)?;
         }
+        check_unique("list item", list.items.iter().map(|(item, _, _)| item))?;
     }
+    let lists = story.list_declarations().iter().map(|list| &list.name);
+    check_unique("variable", story.globals().iter().map(|global| &global.name).chain(lists))?;
+    check_unique("knot", story.flows().iter().map(|flow| &flow.name))?;
     validate_names_in_nodes(story.root())?;
     story.flows().iter().try_for_each(validate_names_in_flow)
 }
@@ -22,6 +26,7 @@ fn validate_names_in_flow(flow: &Flow) -> Result<(), CompilerError> {
         check_declared_name(parameter)?;
     }
     validate_names_in_nodes(&flow.nodes)?;
+    check_unique("stitch", flow.children.iter().map(|stitch| &stitch.name))?;
     flow.children.iter().try_for_each(validate_names_in_flow)
 }
 
@@ -64,6 +69,21 @@ fn validate_names_in_nodes(nodes: &[Node]) -> Result<(), CompilerError> {
     Ok(())
 }
 
+fn check_unique<'a>(
+    kind: &str,
+    names: impl Iterator<Item = &'a String>,
+) -> Result<(), CompilerError> {
+    let mut seen = BTreeSet::new();
+    for name in names {
+        if !seen.insert(name) {
+            return Err(CompilerError::invalid_source(format!(
+                "The {kind} '{name}' has already been declared."
+            )));
+        }
+    }
+    Ok(())
+}
+
 fn check_declared_name(name: &str) -> Result<(), CompilerError> {
     if is_identifier(name) {
         return Ok(());
-- 
2.43.0


From 5ee8d0d13ce14b6940bd439886efc02db1666a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 44/54] fix: initial values that the runtime cannot compute are
 compile errors

---
 compiler/src/emitter/context.rs | 34 ++++++++++++++++++++++++++++++---
 compiler/src/emitter/mod.rs     |  2 +-
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 3d3d52f..2c64e6e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -70,11 +70,39 @@ pub fn story_to_json_value(
     link_story(story, &context, &mut root_value)?;
     compact_story_paths(&mut root_value);
 
+    let list_defs = Value::Object(list_defs);
+    if let Some(declarations) = root_value[2].get("global decl") {
+        check_initial_values(declarations, &list_defs)?;
+    }
+
+    Ok(story_value(root_value, list_defs))
+}
+
+fn story_value(root: Value, list_defs: Value) -> Value {
     let mut output = serde_json::Map::new();
     output.insert("inkVersion".to_owned(), json!(INK_VERSION_CURRENT));
-    output.insert("root".to_owned(), root_value);
-    output.insert("listDefs".to_owned(), Value::Object(list_defs));
-    Ok(Value::Object(output))
+    output.insert("root".to_owned(), root);
+    output.insert("listDefs".to_owned(), list_defs);
+    Value::Object(output)
+}
+
+/// The runtime computes the initial values of the global variables when it loads the story,
+/// which has to succeed and cannot involve the story's content.
+fn check_initial_values(declarations: &Value, list_defs: &Value) -> Result<(), CompilerError> {
+    let uses_content = |token: &Value| ["f()", "x()", "CNT?", "->"].iter().any(|field| token.get(field).is_some());
+    if declarations.as_array().is_some_and(|tokens| tokens.iter().any(uses_content)) {
+        return Err(CompilerError::invalid_source(
+            "the initial value of a global variable must be constant",
+        ));
+    }
+
+    let root = json!([["done", null], "done", { "global decl": declarations }]);
+    let story = story_value(root, list_defs.clone());
+    Story::new(&story.to_string()).map(|_| ()).map_err(|error| {
+        CompilerError::invalid_source(format!(
+            "the initial value of a global variable cannot be computed: {error}"
+        ))
+    })
 }
 
 #[derive(Debug, Default)]
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 86b4c46..d29e31d 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -1,6 +1,6 @@
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 
-use bladeink::story::INK_VERSION_CURRENT;
+use bladeink::story::{INK_VERSION_CURRENT, Story};
 use serde_json::{Map, Value, json};
 
 use crate::{
-- 
2.43.0


From 68dd6060efa5cbc4c6436951aa70d39afe6b424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 45/54] fix: a line saved inside a function no longer changes
 how the rest of it is trimmed

The start of a function in the output isn't part of a save. A loaded function
was taken to start at the beginning of the output, although a line can only
have ended once the function has written text.
---
 runtime/src/callstack.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 164f137..9bb2328 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -108,6 +108,10 @@ impl Thread {
 
                     let mut el = Element::new(push_pop_type, pointer, in_expression_evaluation);
 
+                    // A story is saved where a line ends, which a function
+                    // only does once it has written its first text.
+                    el.function_start_in_output_stream = -1;
+
                     if let Some(temps) = j_element_obj.get("temp").and_then(|temp| temp.as_object())
                     {
                         el.temporary_variables = json_read::jobject_to_hashmap_values(temps)?;
-- 
2.43.0


From 3d198301c228e55e385409e436e2b65d60d6626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 46/54] fix: a comment may follow the file name of an INCLUDE

---
 compiler/src/includes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/includes.rs b/compiler/src/includes.rs
index 704390e..51803a9 100644
--- a/compiler/src/includes.rs
+++ b/compiler/src/includes.rs
@@ -3,7 +3,7 @@ use std::path::{Path, PathBuf};
 use crate::{
     ast::{Node, ParsedStory},
     error::CompilerError,
-    parser::Parser,
+    parser::{Parser, strip_inline_comment},
 };
 
 const MAX_INCLUDE_DEPTH: usize = 32;
@@ -46,7 +46,7 @@ where
     let mut segments = Vec::new();
     let mut current_lines = Vec::new();
     for line in source.lines() {
-        if let Some(filename) = line.trim().strip_prefix("INCLUDE ") {
+        if let Some(filename) = strip_inline_comment(line).trim().strip_prefix("INCLUDE ") {
             push_ink_segment(&mut segments, &mut current_lines);
             segments.push(Segment::Include(filename.trim().to_owned()));
         } else {
-- 
2.43.0


From ae32359f801bd45b1296ac63febf30ce770fc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 47/54] fix: text before a thread keeps one space, as before a
 divert

---
 compiler/src/inline.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 1b7b7e5..8c382c1 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -10,6 +10,12 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
     nested(|| tokenize_nested_content(content))
 }
 
+/// One space separates the text from what follows the divert.
+fn text_before_divert(text: &mut String) -> Node {
+    let before = std::mem::take(text);
+    Node::Text(format!("{} ", before.trim_end_matches([' ', '\t'])))
+}
+
 fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
     let mut nodes = Vec::new();
     let mut text = String::new();
@@ -53,7 +59,7 @@ fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
         // Thread divert inline: <- target  or  <- target(args)
         if ch == '<' && content[index..].starts_with("<-") {
             if !text.is_empty() {
-                nodes.push(Node::Text(std::mem::take(&mut text)));
+                nodes.push(text_before_divert(&mut text));
             }
             let after = &content[index + 2..]; // skip "<-"
             let trimmed_after = after.trim_start();
@@ -83,9 +89,7 @@ fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
         // Divert or tunnel: -> target  or  -> target ->
         if ch == '-' && content[index..].starts_with("->") {
             if !text.is_empty() {
-                // One space separates the text from what follows the divert.
-                let before = std::mem::take(&mut text);
-                nodes.push(Node::Text(format!("{} ", before.trim_end_matches([' ', '\t']))));
+                nodes.push(text_before_divert(&mut text));
             }
             let divert_str = content[index..].trim();
             let mut divert_nodes = parse_divert_line(divert_str)?;
-- 
2.43.0


From 3008f6ede1c2710635a7cd88a132ab19e048004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:30 +0000
Subject: [PATCH 48/54] fix: layout does not change the meaning of a program

Indentation, blank lines, a branch's text on its header line, spacing after
'~', TODO notes and declarations inside blocks are read as Ink defines them.
---
 compiler/src/parser/choice.rs       |   2 +-
 compiler/src/parser/conditional.rs  | 182 +++++++++-------------------
 compiler/src/parser/declarations.rs |  16 +--
 compiler/src/parser/lines.rs        | 143 ++++++++++++++++++----
 compiler/src/parser/sequence.rs     |  85 ++-----------
 compiler/src/parser/statement.rs    |  71 ++++-------
 compiler/src/parser/story.rs        |  41 +++++--
 7 files changed, 246 insertions(+), 294 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 1a91228..5162571 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -224,7 +224,7 @@ pub fn parse_choice(
     })]))
 }
 
-fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
+pub(super) fn choice_marker_nesting_level(trimmed_start: &str) -> Option<usize> {
     let marker = trimmed_start.chars().next()?;
     if marker != '*' && marker != '+' {
         return None;
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 5173540..d50f983 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -65,9 +65,11 @@ pub fn parse_conditional(
     })?;
 
     // Detect switch-style: `{ expr: \n - Case1: ... }` — look ahead at next body line
-    let first_body_line_index = *line_index + 1;
-    let is_switch = rest_after_colon.trim().is_empty() && first_body_line_index < lines.len() && {
-        let first_body = lines[first_body_line_index].content.trim();
+    let first_body = lines[*line_index + 1..]
+        .iter()
+        .map(|line| line.content.trim())
+        .find(|content| !content.is_empty());
+    let is_switch = rest_after_colon.trim().is_empty() && first_body.is_some_and(|first_body| {
         if first_body.starts_with('-')
             && !first_body.starts_with("->")
             && else_branch(first_body).is_none()
@@ -78,7 +80,7 @@ pub fn parse_conditional(
         } else {
             false
         }
-    };
+    });
 
     if is_switch {
         let value = parse_expression(condition_text.trim())?;
@@ -167,13 +169,10 @@ pub fn parse_conditional(
         // `- else:`, with or without content on the same line
         if let Some(rest) = else_branch(trimmed) {
             in_else = true;
-            *line_index += 1;
-            if !rest.is_empty() {
-                when_false.extend(tokenize_inline_content(rest)?);
-            }
             if body_line.had_newline {
                 when_false.push(Node::Newline);
             }
+            when_false.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
             continue;
         }
 
@@ -181,8 +180,6 @@ pub fn parse_conditional(
         if let Some(branch_content) = trimmed.strip_prefix('-')
             && !branch_content.starts_with('>')
         {
-            *line_index += 1;
-            let rest = branch_content.trim();
             // Second (or later) `- ` switches to the else branch
             if seen_branch_dash {
                 in_else = true;
@@ -193,29 +190,11 @@ pub fn parse_conditional(
             } else {
                 &mut when_true
             };
-            if !rest.is_empty() {
-                // If the branch content starts with `~`, treat it as a tilde statement,
-                // not as inline text. e.g. `- ~ x = 5` inside `{true: ... }`.
-                if rest.starts_with('~') {
-                    // Create a synthetic single-line array for parse_stmt
-                    let synthetic = [Line {
-                        content: rest,
-                        had_newline: false,
-                        indent: 0,
-                    }];
-                    let mut idx = 0;
-                    if let ParsedStatement::Nodes(mut nodes) =
-                        parse_stmt(&synthetic, &mut idx, true)?
-                    {
-                        target.append(&mut nodes);
-                    }
-                } else {
-                    target.extend(tokenize_inline_content(rest)?);
-                }
-            }
-            if body_line.had_newline {
+            let rest = branch_content.trim();
+            if rest.is_empty() && body_line.had_newline {
                 target.push(Node::Newline);
             }
+            target.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
             continue;
         }
 
@@ -302,13 +281,7 @@ pub fn parse_multi_branch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(trimmed) {
                 current_condition = None;
-                if !rest.trim().is_empty() {
-                    current_nodes.extend(tokenize_inline_content(rest.trim())?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                }
-                *line_index += 1;
+                current_nodes.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
                 continue;
             }
 
@@ -349,52 +322,14 @@ pub fn parse_multi_branch_conditional(
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
                     current_condition = None;
-                    if !header.trim().is_empty() {
-                        current_nodes.extend(tokenize_inline_content(header.trim())?);
-                        if line.had_newline {
-                            current_nodes.push(Node::Newline);
-                        }
-                    }
-                    *line_index += 1;
+                    current_nodes.extend(parse_branch_start(
+                        lines, line_index, header, parse_stmt,
+                    )?);
                     continue;
                 }
             };
             current_condition = Some(parse_condition(condition.trim())?);
-            let rest_trimmed = rest.trim();
-            if !rest_trimmed.is_empty() {
-                if rest_trimmed.starts_with('*') || rest_trimmed.starts_with('+') {
-                    // The branch body starts with a choice — parse it via a temporary line.
-                    // Do NOT advance line_index yet; build tmp_lines = [choice_line, real_next_lines...]
-                    let choice_line = Line {
-                        content: rest_trimmed,
-                        indent: line.indent + 1,
-                        had_newline: false,
-                    };
-                    let next_line_index = *line_index + 1;
-                    let remaining_lines: Vec<Line<'_>> = std::iter::once(choice_line)
-                        .chain(lines[next_line_index..].iter().map(|l| Line {
-                            content: l.content,
-                            indent: l.indent,
-                            had_newline: l.had_newline,
-                        }))
-                        .collect();
-                    let mut tmp_idx = 0usize;
-                    let stmt = parse_stmt(&remaining_lines, &mut tmp_idx, true)?;
-                    // Advance: 1 for the branch header line + however many real lines the choice consumed
-                    *line_index += 1 + (tmp_idx.saturating_sub(1));
-                    if let ParsedStatement::Nodes(mut nodes) = stmt {
-                        current_nodes.append(&mut nodes);
-                    }
-                } else {
-                    current_nodes.extend(tokenize_inline_content(rest_trimmed)?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                    *line_index += 1;
-                }
-            } else {
-                *line_index += 1;
-            }
+            current_nodes.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
             continue;
         }
 
@@ -417,6 +352,44 @@ pub fn parse_multi_branch_conditional(
     ))
 }
 
+/// Parses the statement that follows the header of a branch on the same line, if there is one, and
+/// moves on to the line after it.
+pub fn parse_branch_start(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    rest: &str,
+    parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
+) -> Result<Vec<Node>, CompilerError> {
+    let line = &lines[*line_index];
+    let rest = rest.trim();
+    *line_index += 1;
+    if rest.is_empty() {
+        return Ok(Vec::new());
+    }
+
+    // choices and blocks go on in the lines that follow
+    let tail = if rest.starts_with(['*', '+', '{']) {
+        &lines[*line_index..]
+    } else {
+        &[]
+    };
+    let first = Line {
+        content: rest,
+        indent: line.indent + 1,
+        had_newline: line.had_newline,
+    };
+    let combined: Vec<Line<'_>> = std::iter::once(first).chain(tail.iter().cloned()).collect();
+    let mut index = 0;
+    let statement = parse_stmt(&combined, &mut index, true)?;
+    *line_index += index.saturating_sub(1);
+    match statement {
+        ParsedStatement::Nodes(nodes) => Ok(nodes),
+        _ => Err(CompilerError::unsupported_feature(
+            "global declarations are not supported inside conditionals".to_owned(),
+        )),
+    }
+}
+
 /// The content of a branch of a block is on lines of its own.
 fn start_on_new_line<T>(branches: &mut [(Option<T>, Vec<Node>)]) {
     for (_, nodes) in branches {
@@ -494,21 +467,7 @@ fn parse_switch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(trimmed) {
                 current_case = None; // else branch
-                let rest = rest.trim();
-                if !rest.is_empty() {
-                    let inline_line = Line {
-                        content: rest,
-                        had_newline: line.had_newline,
-                        indent: 0,
-                    };
-                    let inline_lines = std::slice::from_ref(&inline_line);
-                    let mut idx = 0;
-                    let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                    if let ParsedStatement::Nodes(mut nodes) = statement {
-                        current_nodes.append(&mut nodes);
-                    }
-                }
-                *line_index += 1;
+                current_nodes.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
                 continue;
             }
 
@@ -517,39 +476,14 @@ fn parse_switch_conditional(
                 None => {
                     // Bare default branch `- content` with no colon
                     current_case = None;
-                    if !header.trim().is_empty() {
-                        let inline_line = Line {
-                            content: header.trim(),
-                            had_newline: line.had_newline,
-                            indent: 0,
-                        };
-                        let inline_lines = std::slice::from_ref(&inline_line);
-                        let mut idx = 0;
-                        let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                        if let ParsedStatement::Nodes(mut nodes) = statement {
-                            current_nodes.append(&mut nodes);
-                        }
-                    }
-                    *line_index += 1;
+                    current_nodes.extend(parse_branch_start(
+                        lines, line_index, header, parse_stmt,
+                    )?);
                     continue;
                 }
             };
             current_case = Some(parse_expression(case_text.trim())?);
-            let rest = rest.trim();
-            if !rest.is_empty() {
-                let inline_line = Line {
-                    content: rest,
-                    had_newline: line.had_newline,
-                    indent: 0,
-                };
-                let inline_lines = std::slice::from_ref(&inline_line);
-                let mut idx = 0;
-                let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                if let ParsedStatement::Nodes(mut nodes) = statement {
-                    current_nodes.append(&mut nodes);
-                }
-            }
-            *line_index += 1;
+            current_nodes.extend(parse_branch_start(lines, line_index, rest, parse_stmt)?);
             continue;
         }
 
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index abfc98b..37441ea 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -1,14 +1,7 @@
 fn parse_content_line(
     line: &Line<'_>,
-    strip_leading_whitespace: bool,
 ) -> Result<Vec<Node>, CompilerError> {
-    let content = if strip_leading_whitespace || line.indent > 0 {
-        line.content.trim_start()
-    } else {
-        line.content
-    };
-
-    let mut nodes = tokenize_inline_content(content)?;
+    let mut nodes = tokenize_inline_content(line.content.trim_start())?;
 
     if line.had_newline {
         // Trim trailing whitespace from the last text node (inklecate behavior)
@@ -85,10 +78,9 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
 
 fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
     // Strip optional `temp` keyword (marks the assignment as a local/temporary variable)
-    let (input, is_temp) = if let Some(rest) = input.strip_prefix("temp ") {
-        (rest.trim_start(), true)
-    } else {
-        (input, false)
+    let (input, is_temp) = match input.strip_prefix("temp") {
+        Some(rest) if rest.starts_with(char::is_whitespace) => (rest.trim_start(), true),
+        _ => (input, false),
     };
 
     // x++ sugar for x += 1
diff --git a/compiler/src/parser/lines.rs b/compiler/src/parser/lines.rs
index 7e080a7..f8dceec 100644
--- a/compiler/src/parser/lines.rs
+++ b/compiler/src/parser/lines.rs
@@ -1,3 +1,114 @@
+/// White space at the start of a line means nothing in Ink: the level of a line follows from the
+/// choice and gather markers and from the blocks around it. This gives every line the indentation
+/// that shows its level.
+fn indent_by_level(lines: &mut [Line<'_>]) {
+    const STEP: usize = 4;
+
+    /// A block in braces, or (the first one) the flow itself.
+    struct Level {
+        header: usize,
+        /// where the content of the block begins
+        base: usize,
+        /// where the content after the last choice or gather begins
+        content: usize,
+        /// the number of markers that stands for the outermost choices
+        outermost: Option<usize>,
+    }
+    let flow = || Level {
+        header: 0,
+        base: 0,
+        content: 0,
+        outermost: Some(1),
+    };
+
+    let mut levels = vec![flow()];
+    for line in lines.iter_mut() {
+        let trimmed = line.content.trim();
+        if parse_header(trimmed).is_some() {
+            levels = vec![flow()];
+            line.indent = 0;
+            continue;
+        }
+        let mut closed = 0;
+        if trimmed.starts_with('}') && levels.len() > 1 {
+            closed = levels.pop().map_or(0, |level| level.header);
+        }
+        let nested = levels.len() > 1;
+        let level = levels.last_mut().expect("the flow itself is never closed");
+
+        // "- " in a block begins one of its branches, and a gather otherwise
+        let mut rest = trimmed;
+        if trimmed.starts_with('}') {
+            line.indent = closed;
+        } else if trimmed.starts_with('-') && !trimmed.starts_with("->") {
+            if nested {
+                level.content = level.base;
+                level.outermost = None;
+                line.indent = level.header;
+                rest = trimmed.trim_start_matches('-').trim_start();
+                if let Some(choice) = rest.find(": *").or_else(|| rest.find(": +")) {
+                    rest = &rest[choice + 2..];
+                }
+            } else {
+                level.content = level.base + STEP * (choice::gather_nesting_level(trimmed) - 1);
+                line.indent = level.content;
+                rest = trimmed.trim_start_matches(['-', ' ', '\t']);
+                rest = choice::parse_label(rest).map_or(rest, |(_, rest)| rest);
+            }
+        } else {
+            line.indent = level.content;
+        }
+        if let Some(markers) = choice::choice_marker_nesting_level(rest) {
+            let outermost = *level.outermost.get_or_insert(markers);
+            let indent = level.base + STEP * markers.saturating_sub(outermost);
+            if rest.len() == trimmed.len() {
+                line.indent = indent;
+            }
+            level.content = indent + STEP;
+        }
+
+        let text = trimmed.strip_prefix('}').unwrap_or(trimmed);
+        let (opened, closed) = unmatched_braces(text);
+        for _ in 0..closed {
+            if levels.len() > 1 {
+                levels.pop();
+            }
+        }
+        for _ in 0..opened {
+            levels.push(Level {
+                header: line.indent,
+                base: line.indent + STEP,
+                content: line.indent + STEP,
+                outermost: None,
+            });
+        }
+    }
+}
+
+/// The numbers of braces that a line leaves open, and that it closes without having opened them.
+fn unmatched_braces(text: &str) -> (usize, usize) {
+    let (mut opened, mut closed) = (0, 0);
+    let mut escaped = false;
+    for c in text.chars() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            '{' => opened += 1,
+            '}' if opened > 0 => opened -= 1,
+            '}' => closed += 1,
+            _ => {}
+        }
+    }
+    (opened, closed)
+}
+
+/// `TODO: ...` is a note of the author to himself.
+fn is_author_note(trimmed: &str) -> bool {
+    trimmed
+        .strip_prefix("TODO")
+        .is_some_and(|rest| rest.trim_start().starts_with(':'))
+}
+
 pub fn split_lines(source: &str) -> Vec<Line<'_>> {
     let mut lines: Vec<Line<'_>> = source
         .split_inclusive('\n')
@@ -5,9 +116,14 @@ pub fn split_lines(source: &str) -> Vec<Line<'_>> {
             let content = line.strip_suffix('\n').unwrap_or(line);
             // Strip trailing inline comments (// ...) but not inside strings
             let content = strip_inline_comment(content);
+            let content = if is_author_note(content.trim()) {
+                ""
+            } else {
+                content
+            };
             Line {
                 content,
-                indent: count_indent_columns(content),
+                indent: 0,
                 had_newline: line.ends_with('\n'),
             }
         })
@@ -20,31 +136,10 @@ pub fn split_lines(source: &str) -> Vec<Line<'_>> {
         last_line.had_newline = true;
     }
 
+    indent_by_level(&mut lines);
     lines
 }
 
-fn count_indent_columns(content: &str) -> usize {
-    let mut columns = 0usize;
-
-    for ch in content.chars() {
-        match ch {
-            ' ' => columns += 1,
-            '\t' => {
-                const TAB_STOP: usize = 4;
-                let offset = columns % TAB_STOP;
-                columns += if offset == 0 {
-                    TAB_STOP
-                } else {
-                    TAB_STOP - offset
-                };
-            }
-            _ => break,
-        }
-    }
-
-    columns
-}
-
 /// Strip all `/* ... */` block comments from a string.
 fn strip_block_comments(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
@@ -67,7 +162,7 @@ fn strip_block_comments(s: &str) -> String {
 }
 
 /// Strip trailing `// comment` from a line, respecting string literals.
-fn strip_inline_comment(line: &str) -> &str {
+pub(crate) fn strip_inline_comment(line: &str) -> &str {
     let mut in_string = false;
     let bytes = line.as_bytes();
     let mut i = 0;
diff --git a/compiler/src/parser/sequence.rs b/compiler/src/parser/sequence.rs
index 173ed7c..7ae0a33 100644
--- a/compiler/src/parser/sequence.rs
+++ b/compiler/src/parser/sequence.rs
@@ -3,7 +3,9 @@ use crate::{
     error::CompilerError,
 };
 
-use super::{Line, ParsedStatement, inline::tokenize_inline_content};
+use super::{
+    Line, ParsedStatement, conditional::parse_branch_start, inline::tokenize_inline_content,
+};
 
 pub fn looks_like_sequence(content: &str) -> bool {
     if !content.starts_with('{') || !content.contains(':') {
@@ -89,74 +91,13 @@ pub fn parse_sequence(
         let branch_text = trimmed.strip_prefix('-').ok_or_else(|| {
             CompilerError::invalid_source("sequence branch must start with '-'".to_owned())
         })?;
-        *line_index += 1;
-
         let inline_text = branch_text.trim_start();
+        let is_choice = inline_text.starts_with(['*', '+']);
 
-        let mut branch_nodes = if inline_text.starts_with('*') || inline_text.starts_with('+') {
-            // The branch header contains a choice.  Pre-collect the body lines that belong
-            // to this branch so the choice parser can absorb them into `Choice.body` rather
-            // than leaving them as orphaned sibling nodes after the choice.
-            let body_start = *line_index;
-            let mut body_end = *line_index;
-            while body_end < lines.len() {
-                let t = lines[body_end].content.trim();
-                if t == "}"
-                    || is_sequence_branch_header(t)
-                    || super::parse_header(lines[body_end].content).is_some()
-                {
-                    break;
-                }
-                body_end += 1;
-            }
-            let choice_indent = body_line.indent + 1;
-            let mut synthetic_lines: Vec<Line<'_>> = Vec::with_capacity(1 + body_end - body_start);
-            synthetic_lines.push(Line {
-                content: inline_text,
-                had_newline: body_line.had_newline,
-                indent: choice_indent,
-            });
-            for line in &lines[body_start..body_end] {
-                synthetic_lines.push(line.clone());
-            }
-            let mut idx = 0;
-            let nodes = match parse_stmt(&synthetic_lines, &mut idx, true)? {
-                ParsedStatement::Nodes(nodes) => nodes,
-                _ => Vec::new(),
-            };
-            // Advance line_index past all consumed body lines
-            *line_index = body_end;
-            nodes
-        } else {
-            // Non-choice branch: parse the inline text on the branch header line.
-            // If it starts with '~' it is a statement (assignment, return, etc.)
-            // and must be parsed as such; otherwise tokenize it as inline content.
-            let mut nodes = if inline_text.is_empty() {
-                Vec::new()
-            } else if inline_text.starts_with('~') {
-                let synthetic = [Line {
-                    content: inline_text,
-                    had_newline: body_line.had_newline,
-                    indent: body_line.indent + 1,
-                }];
-                let mut idx = 0;
-                match parse_stmt(&synthetic, &mut idx, true)? {
-                    ParsedStatement::Nodes(n) => n,
-                    _ => Vec::new(),
-                }
-            } else {
-                tokenize_inline_content(inline_text)?
-            };
-            if body_line.had_newline {
-                nodes.insert(0, Node::Newline);
-                // Only add the trailing Newline when there is inline content.
-                // When inline_text is empty (dash on its own line), the body lines
-                // already produce their own trailing Newline; adding one here would
-                // produce an extra blank line between the leading \n and the content.
-                if !inline_text.is_empty() {
-                    nodes.push(Node::Newline);
-                }
-            }
+        let mut branch_nodes = parse_branch_start(lines, line_index, inline_text, parse_stmt)?;
+        if body_line.had_newline {
+            branch_nodes.insert(0, Node::Newline);
+        }
             // Collect body lines (stops at }, next branch header, or knot/stitch header)
             while *line_index < lines.len() {
                 let next_trimmed = lines[*line_index].content.trim();
@@ -176,17 +117,11 @@ pub fn parse_sequence(
                             "global declarations are not supported inside sequences".to_owned(),
                         ));
                     }
-                    ParsedStatement::Nodes(mut n) => nodes.append(&mut n),
+                    ParsedStatement::Nodes(mut n) => branch_nodes.append(&mut n),
                 }
             }
-            nodes
-        };
 
-        // For choice branches the had_newline wrapping is handled by the choice parser
-        // (the synthetic line carries the flag).  For non-choice branches it was already
-        // applied above, so we only need to apply it here for choice branches.
-        if (inline_text.starts_with('*') || inline_text.starts_with('+')) && body_line.had_newline {
-            branch_nodes.insert(0, Node::Newline);
+        if is_choice && body_line.had_newline {
             branch_nodes.push(Node::Newline);
         }
 
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 30648e4..d6822e5 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -1,3 +1,9 @@
+fn is_declaration(trimmed: &str) -> bool {
+    ["EXTERNAL ", "VAR ", "CONST ", "LIST "]
+        .iter()
+        .any(|keyword| trimmed.starts_with(keyword))
+}
+
 pub fn parse_statement(
     lines: &[Line<'_>],
     line_index: &mut usize,
@@ -18,7 +24,7 @@ fn parse_nested_statement(
     // 1-based line number for error messages; captured before any sub-parser advances the index.
     let ln = *line_index + 1;
 
-    if trimmed.is_empty() || trimmed.starts_with("//") {
+    if trimmed.is_empty() || trimmed.starts_with("//") || is_author_note(trimmed) {
         *line_index += 1;
         return Ok(ParsedStatement::Nodes(Vec::new()));
     }
@@ -79,28 +85,12 @@ fn parse_nested_statement(
 
     if let Some(rest) = trimmed.strip_prefix("LIST ") {
         *line_index += 1;
-        // Collect continuation lines (indented) that are part of the same LIST declaration.
+        // The declaration goes on with the next line where an item has to follow, or a comma does.
         let mut full = rest.to_owned();
         while *line_index < lines.len() {
             let next = lines[*line_index].content.trim();
-            // Stop if line is non-empty and doesn't start with whitespace (new statement)
-            if !lines[*line_index].content.starts_with([' ', '\t']) && !next.is_empty() {
-                break;
-            }
-            // Skip blank/whitespace-only continuation lines only if we're still expecting more items
-            // (accumulated text ends with a comma). This handles remnants of stripped block comments
-            // that appeared between list items on separate lines.
-            if next.is_empty() {
-                let trimmed_full = full.trim_end();
-                if trimmed_full.ends_with(',') {
-                    *line_index += 1;
-                    continue;
-                } else {
-                    break;
-                }
-            }
-            // Stop at line-comments
-            if next.starts_with("//") {
+            let open = full.trim_end().ends_with([',', '=']);
+            if !open && !next.starts_with(',') || parse_header(next).is_some() {
                 break;
             }
             full.push(' ');
@@ -114,32 +104,23 @@ fn parse_nested_statement(
         ));
     }
 
-    if trimmed == "~ return" || trimmed == "~return" {
+    if let Some(rest) = trimmed.strip_prefix('~') {
+        let rest = rest.trim_start();
         *line_index += 1;
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnVoid]));
-    }
-
-    if let Some(rest) = trimmed
-        .strip_prefix("~ return ")
-        .or_else(|| trimmed.strip_prefix("~return "))
-    {
-        *line_index += 1;
-        // Try as bool first (legacy), otherwise parse as expression
-        let expr = match parse_bool(rest.trim()) {
-            Ok(b) => Expression::Bool(b),
-            Err(_) => parse_expression(rest.trim()).map_err(|e| e.with_line(ln))?,
+        let returned = rest
+            .strip_prefix("return")
+            .filter(|value| !value.starts_with(|c: char| c.is_alphanumeric() || c == '_'))
+            .map(str::trim);
+        let node = match returned {
+            Some("") => Node::ReturnVoid,
+            // Try as bool first (legacy), otherwise parse as expression
+            Some(value) => Node::ReturnExpr(match parse_bool(value) {
+                Ok(b) => Expression::Bool(b),
+                Err(_) => parse_expression(value).map_err(|e| e.with_line(ln))?,
+            }),
+            None => parse_assignment(rest).map_err(|e| e.with_line(ln))?,
         };
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnExpr(expr)]));
-    }
-
-    if let Some(rest) = trimmed
-        .strip_prefix("~ ")
-        .or_else(|| trimmed.strip_prefix('~'))
-    {
-        *line_index += 1;
-        return Ok(ParsedStatement::Nodes(vec![
-            parse_assignment(rest).map_err(|e| e.with_line(ln))?,
-        ]));
+        return Ok(ParsedStatement::Nodes(vec![node]));
     }
 
     if let Some(rest) = trimmed.strip_prefix('#') {
@@ -250,7 +231,7 @@ fn parse_nested_statement(
     }
 
     *line_index += 1;
-    parse_content_line(line, strip_leading_whitespace)
+    parse_content_line(line)
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln))
 }
diff --git a/compiler/src/parser/story.rs b/compiler/src/parser/story.rs
index 5d9e422..ef4c637 100644
--- a/compiler/src/parser/story.rs
+++ b/compiler/src/parser/story.rs
@@ -11,7 +11,7 @@ impl<'a> Parser<'a> {
         }
 
         let normalized = self.source.replace("\r\n", "\n");
-        let lines = split_lines(&normalized);
+        let mut lines = split_lines(&normalized);
 
         if lines.is_empty() {
             return Err(CompilerError::invalid_source(
@@ -27,6 +27,28 @@ impl<'a> Parser<'a> {
         let mut flows = Vec::new();
         let mut current_flow: Option<FlowBuilder> = None;
         let mut current_stitch: Option<FlowBuilder> = None;
+
+        // Global declarations can stand anywhere, and belong to no flow wherever they stand.
+        let mut line_index = 0;
+        while line_index < lines.len() {
+            if !is_declaration(lines[line_index].content.trim()) {
+                line_index += 1;
+                continue;
+            }
+            let start = line_index;
+            match parse_statement(&lines, &mut line_index, false)? {
+                ParsedStatement::Global(global) => globals.push(global),
+                ParsedStatement::Const(c) => {
+                    consts.insert(c.name.clone(), c.initial_value);
+                }
+                ParsedStatement::List(list_decl) => list_declarations.push(list_decl),
+                ParsedStatement::ExternalFunction(name) => external_functions.push(name),
+                ParsedStatement::Nodes(_) => {}
+            }
+            for line in &mut lines[start..line_index] {
+                line.content = "";
+            }
+        }
         let mut line_index = 0;
 
         while line_index < lines.len() {
@@ -123,18 +145,11 @@ impl<'a> Parser<'a> {
                 continue;
             }
 
-            let statement = parse_statement(&lines, &mut line_index, false)?;
-            match statement {
-                ParsedStatement::Global(global) => globals.push(global),
-                ParsedStatement::Const(c) => {
-                    consts.insert(c.name.clone(), c.initial_value);
-                }
-                ParsedStatement::List(list_decl) => list_declarations.push(list_decl),
-                ParsedStatement::ExternalFunction(name) => external_functions.push(name),
-                ParsedStatement::Nodes(mut nodes) => {
-                    target_nodes(&mut root, current_flow.as_mut(), current_stitch.as_mut())
-                        .append(&mut nodes)
-                }
+            if let ParsedStatement::Nodes(mut nodes) =
+                parse_statement(&lines, &mut line_index, false)?
+            {
+                target_nodes(&mut root, current_flow.as_mut(), current_stitch.as_mut())
+                    .append(&mut nodes);
             }
         }
 
-- 
2.43.0


From d22850ee0b225dc957c483ef05a75cd05e04b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 49/54] fix: colons in strings and in inline logic do not end
 the condition of a branch

---
 compiler/src/parser/conditional.rs |  7 ++++---
 compiler/src/parser/lines.rs       | 16 ++++++++++++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index d50f983..687fb22 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -7,6 +7,7 @@ use super::{
     Line, ParsedStatement,
     expression::parse_expression,
     inline::{parse_condition, parse_inline_conditional, tokenize_inline_content},
+    split_condition,
 };
 
 pub fn looks_like_conditional(content: &str) -> bool {
@@ -60,7 +61,7 @@ pub fn parse_conditional(
         .trim()
         .strip_prefix('{')
         .ok_or_else(|| CompilerError::invalid_source("expected conditional block".to_owned()))?;
-    let (condition_text, rest_after_colon) = header.split_once(':').ok_or_else(|| {
+    let (condition_text, rest_after_colon) = split_condition(header).ok_or_else(|| {
         CompilerError::invalid_source("conditional block is missing ':'".to_owned())
     })?;
 
@@ -317,7 +318,7 @@ pub fn parse_multi_branch_conditional(
                 continue;
             }
 
-            let (condition, rest) = match header.split_once(':') {
+            let (condition, rest) = match split_condition(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
@@ -471,7 +472,7 @@ fn parse_switch_conditional(
                 continue;
             }
 
-            let (case_text, rest) = match header.split_once(':') {
+            let (case_text, rest) = match split_condition(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch `- content` with no colon
diff --git a/compiler/src/parser/lines.rs b/compiler/src/parser/lines.rs
index f8dceec..bd47bc5 100644
--- a/compiler/src/parser/lines.rs
+++ b/compiler/src/parser/lines.rs
@@ -102,6 +102,22 @@ fn unmatched_braces(text: &str) -> (usize, usize) {
     (opened, closed)
 }
 
+/// The condition of a branch and what follows its colon; colons inside strings and braces are not it.
+fn split_condition(header: &str) -> Option<(&str, &str)> {
+    let mut in_string = false;
+    let mut depth = 0usize;
+    let colon = header.char_indices().find(|(_, c)| {
+        match c {
+            '"' => in_string = !in_string,
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        *c == ':' && !in_string && depth == 0
+    });
+    colon.map(|(index, _)| (&header[..index], &header[index + 1..]))
+}
+
 /// `TODO: ...` is a note of the author to himself.
 fn is_author_note(trimmed: &str) -> bool {
     trimmed
-- 
2.43.0


From b64a8ba30dc3932e014a7d61c03c2cc94c051b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 50/54] fix: parentheses and escaped braces do not change where
 inline logic ends

---
 compiler/src/inline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 8c382c1..b29f4c3 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -465,8 +465,8 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
                 }
                 continue;
             }
-            '{' | '(' => depth += 1,
-            '}' | ')' => depth -= 1,
+            '{' => depth += 1,
+            '}' => depth -= 1,
             '|' if depth == 0 => {
                 result.push(&input[start..i]);
                 start = i + 1;
@@ -482,8 +482,11 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
 
 pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     let mut depth = 0;
+    let mut escaped = false;
     for (index, ch) in content[start..].char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
             '{' => depth += 1,
             '}' => {
                 depth -= 1;
-- 
2.43.0


From 157d8723f3980ed3091283fec36c5af9eb4d6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 51/54] fix: escapes in the text and tags of choices, and
 choice text on a later line than its conditions

---
 compiler/src/emitter/expression.rs |  44 ++++-------
 compiler/src/inline.rs             |  59 ++++++++------
 compiler/src/parser/choice.rs      | 119 ++++++++++-------------------
 3 files changed, 89 insertions(+), 133 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 4172f93..ef91644 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -247,20 +247,18 @@ fn emit_expression_ctx(
             // Parse the string content for {expr} interpolations
             let dynamic = parse_dynamic_string(value)?;
             out.push(json!("str"));
-            let has_expressions = dynamic
-                .parts
-                .iter()
-                .any(|part| !matches!(part, DynamicStringPart::Text(_)));
-            if !has_expressions {
-                // Plain string (possibly empty) — emit as single text token
-                out.push(json!(format!("^{value}")));
-            } else if let (Some(scope), Some(context)) = (scope, context) {
+            match (dynamic.parts.as_slice(), scope, context) {
+                ([], _, _) => out.push(json!("^")),
+                ([DynamicStringPart::Text(text)], _, _) => out.push(json!(format!("^{text}"))),
                 // The logic of a string can contain strings.
-                nested(|| emit_dynamic_string_parts(&dynamic.parts, out, scope, context))?;
-            } else {
-                return Err(CompilerError::unsupported_feature(format!(
-                    "the string \"{value}\" is not constant"
-                )));
+                (parts, Some(scope), Some(context)) => {
+                    nested(|| emit_dynamic_string_parts(parts, out, scope, context))?
+                }
+                _ => {
+                    return Err(CompilerError::unsupported_feature(format!(
+                        "the string \"{value}\" is not constant"
+                    )));
+                }
             }
             out.push(json!("/str"));
         }
@@ -528,15 +526,7 @@ fn emit_choice_text_segment(
     if !text.is_empty() {
         // Parse the text for inline {expr} and {&sequence} interpolations
         let dynamic = parse_dynamic_string(text)?;
-        let has_inline = dynamic
-            .parts
-            .iter()
-            .any(|p| !matches!(p, DynamicStringPart::Text(_)));
-        if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
-        } else {
-            out.push(json!(format!("^{text}")));
-        }
+        emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
     }
     for tag in tags {
         emit_tag(tag, out, scope, context)?;
@@ -558,15 +548,7 @@ fn emit_choice_text_content(
 
     if !text.is_empty() {
         let dynamic = parse_dynamic_string(text)?;
-        let has_inline = dynamic
-            .parts
-            .iter()
-            .any(|p| !matches!(p, DynamicStringPart::Text(_)));
-        if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
-        } else {
-            out.push(json!(format!("^{text}")));
-        }
+        emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
     }
     for tag in tags {
         emit_tag(tag, out, scope, context)?;
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index b29f4c3..d4f1b86 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -10,6 +10,28 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
     nested(|| tokenize_nested_content(content))
 }
 
+/// The character that `\` and the given one stand for; `\n` is a newline.
+fn unescape(escaped: char) -> char {
+    if escaped == 'n' { '\n' } else { escaped }
+}
+
+/// The first place of a character outside of braces that isn't escaped.
+pub fn find_unescaped(input: &str, wanted: char) -> Option<usize> {
+    let mut depth = 0usize;
+    let mut escaped = false;
+    for (index, ch) in input.char_indices() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            _ if ch == wanted && depth == 0 => return Some(index),
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+    }
+    None
+}
+
 /// One space separates the text from what follows the divert.
 fn text_before_divert(text: &mut String) -> Node {
     let before = std::mem::take(text);
@@ -27,12 +49,7 @@ fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
         if ch == '\\' {
             if let Some((_, next_ch)) = chars.peek().copied() {
                 chars.next();
-                // \n inside inline content produces a newline
-                if next_ch == 'n' {
-                    text.push('\n');
-                } else {
-                    text.push(next_ch);
-                }
+                text.push(unescape(next_ch));
                 continue;
             }
             // trailing backslash — emit nothing (or push it; shouldn't happen)
@@ -154,9 +171,12 @@ fn tokenize_nested_content(content: &str) -> Result<Vec<Node>, CompilerError> {
 /// The tags after the first `#` of a line ("tag1 #tag2 #tag3") and the divert that may follow them.
 pub fn parse_tags(input: &str) -> Result<Vec<Node>, CompilerError> {
     let mut depth = 0usize;
+    let mut escaped = false;
     let mut end = input.len();
     for (index, ch) in input.char_indices() {
         match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
             '{' => depth += 1,
             '}' => depth = depth.saturating_sub(1),
             '-' | '<' if depth == 0 => {
@@ -184,6 +204,11 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
     let mut chars = input.char_indices().peekable();
 
     while let Some((index, ch)) = chars.next() {
+        if ch == '\\' {
+            text.extend(chars.next().map(|(_, escaped)| unescape(escaped)));
+            continue;
+        }
+
         if input[index..].starts_with("<>") {
             if !text.is_empty() {
                 parts.push(DynamicStringPart::Text(std::mem::take(&mut text)));
@@ -405,10 +430,10 @@ pub fn parse_choice_diverts(input: &str) -> Result<Vec<Node>, CompilerError> {
 }
 
 pub fn split_text_and_tags(input: &str) -> Result<(String, Vec<DynamicString>), CompilerError> {
-    if let Some((text, tag_text)) = input.split_once('#') {
+    if let Some(index) = find_unescaped(input, '#') {
         // There may be multiple tags: `tag1 #tag2 #tag3`
-        let tags = split_hash_tags(tag_text)?;
-        return Ok((text.to_owned(), tags));
+        let tags = split_hash_tags(&input[index + 1..])?;
+        return Ok((input[..index].to_owned(), tags));
     }
 
     Ok((input.to_owned(), Vec::new()))
@@ -420,20 +445,8 @@ fn split_hash_tags(input: &str) -> Result<Vec<DynamicString>, CompilerError> {
     let mut tags = Vec::new();
     let mut rest = input;
     loop {
-        // Find the next # that is not inside braces
-        let mut depth = 0usize;
-        let mut split_at = None;
-        for (i, ch) in rest.char_indices() {
-            match ch {
-                '{' => depth += 1,
-                '}' => depth = depth.saturating_sub(1),
-                '#' if depth == 0 && i > 0 => {
-                    split_at = Some(i);
-                    break;
-                }
-                _ => {}
-            }
-        }
+        let skipped = usize::from(rest.starts_with('#'));
+        let split_at = find_unescaped(&rest[skipped..], '#').map(|index| index + skipped);
         if let Some(idx) = split_at {
             tags.push(parse_dynamic_string(rest[..idx].trim_start())?);
             rest = &rest[idx + 1..];
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 5162571..feb09d1 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -7,7 +7,7 @@ use super::{
     Line, ParsedStatement,
     expression::is_identifier,
     inline::{
-        parse_choice_diverts, parse_condition, split_inline_choice_divert, split_text_and_tags,
+        find_unescaped, parse_choice_diverts, split_inline_choice_divert, split_text_and_tags,
     },
 };
 
@@ -46,80 +46,33 @@ pub fn parse_choice(
         remainder = rest.trim_start();
         nesting_level += 1;
     }
-    let (label, mut conditions, remainder) = parse_choice_prefixes(remainder)?;
-    let mut choice_text = parse_choice_text(remainder)?;
-    let mut is_invisible_default =
-        choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
-
+    let (label, mut conditions, mut remainder) = parse_choice_prefixes(remainder)?;
     *line_index += 1;
 
     let choice_indent = line.indent;
 
-    // Look ahead at indented body lines: if they start with `{ condition }` (optionally followed
-    // by display text), absorb the condition and, if text is present, set it as the start_text.
-    // This implements multi-line choice conditions:
+    // After a line of conditions, more of them and the choice's text can follow on the next lines:
     //   * { cond1 }
-    //     { cond2 }  display text   OR   plain display text
-    // Only scan when there is no start text yet on the header line.
-    // We scan when: the header has conditions OR we absorb body conditions.
-    let header_has_conditions = !conditions.is_empty();
-    if choice_text.start_text.is_empty() && choice_text.choice_only_text.is_empty() {
-        let mut absorbed_body_conditions = false;
-        while *line_index < lines.len() {
-            let peek = &lines[*line_index];
-            let peek_trimmed = peek.content.trim();
-            // Must be indented deeper than choice
-            if peek.indent <= choice_indent {
-                break;
-            }
-            // If starts with `{`, it only counts as an additional choice condition when the
-            // choice was already established as conditional on the header or by an earlier body
-            // condition line. Otherwise it's normal body content, such as `{5}` in a default
-            // choice body.
-            if peek_trimmed.starts_with('{') && (header_has_conditions || absorbed_body_conditions)
-            {
-                // Find the matching `}`
-                if let Some(close) = peek_trimmed.find('}') {
-                    let cond_str = &peek_trimmed[1..close];
-                    let after_close = peek_trimmed[close + 1..].trim();
-                    conditions.push(parse_condition(cond_str.trim())?);
-                    absorbed_body_conditions = true;
-                    *line_index += 1;
-                    if !after_close.is_empty() {
-                        // Remaining text after `{ cond }` becomes the display text
-                        choice_text.display_text = after_close.to_owned();
-                        choice_text.start_text = after_close.to_owned();
-                        choice_text.selected_text = Some(after_close.to_owned());
-                        choice_text.has_start_content = true;
-                        is_invisible_default = false;
-                        break;
-                    }
-                    // Pure condition line — continue looking for more conditions/text
-                } else {
-                    break;
-                }
-            } else if absorbed_body_conditions || header_has_conditions {
-                // After conditions (header or body), a plain text line becomes start text.
-                // Skip if it looks like a gather, divert, or sub-choice.
-                if peek_trimmed.starts_with('-')
-                    || peek_trimmed.starts_with('*')
-                    || peek_trimmed.starts_with('+')
-                {
-                    break;
-                }
-                choice_text.display_text = peek_trimmed.to_owned();
-                choice_text.start_text = peek_trimmed.to_owned();
-                choice_text.selected_text = Some(peek_trimmed.to_owned());
-                choice_text.has_start_content = true;
-                is_invisible_default = false;
-                *line_index += 1;
-                break;
-            } else {
-                break;
-            }
+    //     { cond2 }  display text
+    while remainder.trim().is_empty() && !conditions.is_empty() && *line_index < lines.len() {
+        let next = lines[*line_index].content.trim();
+        if lines[*line_index].indent <= choice_indent
+            || next.is_empty()
+            || gather_nesting_level(next) > 0
+            || next.starts_with(['*', '+'])
+        {
+            break;
         }
+        *line_index += 1;
+        let (more_conditions, rest) = parse_conditions(next)?;
+        conditions.extend(more_conditions);
+        remainder = rest;
     }
 
+    let choice_text = parse_choice_text(remainder)?;
+    let is_invisible_default =
+        choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
+
     let mut body = choice_text.inline_diverts;
     let inline_divert_count = body.len();
     // Once we absorb a same-level gather, everything that follows at our indent
@@ -269,14 +222,18 @@ pub(super) fn parse_label(input: &str) -> Option<(&str, &str)> {
 pub fn parse_choice_prefixes(
     input: &str,
 ) -> Result<(Option<String>, Vec<Condition>, &str), CompilerError> {
-    let mut remainder = input.trim_start();
-    let mut label = None;
-    let mut conditions = Vec::new();
+    let input = input.trim_start();
+    let (label, remainder) = match parse_label(input) {
+        Some((name, rest)) => (Some(name.to_owned()), rest),
+        None => (None, input),
+    };
+    let (conditions, remainder) = parse_conditions(remainder)?;
+    Ok((label, conditions, remainder))
+}
 
-    if let Some((name, rest)) = parse_label(remainder) {
-        label = Some(name.to_owned());
-        remainder = rest;
-    }
+fn parse_conditions(input: &str) -> Result<(Vec<Condition>, &str), CompilerError> {
+    let mut remainder = input;
+    let mut conditions = Vec::new();
 
     while let Some(after_open) = remainder.strip_prefix('{') {
         let end = super::inline::find_matching_brace(remainder, 0).ok_or_else(|| {
@@ -290,7 +247,7 @@ pub fn parse_choice_prefixes(
         remainder = after_open[end + 1..].trim_start();
     }
 
-    Ok((label, conditions, remainder))
+    Ok((conditions, remainder))
 }
 
 pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError> {
@@ -319,7 +276,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     }
 
     if let Some(choice_only) = input.strip_prefix('[') {
-        let end = choice_only.find(']').ok_or_else(|| {
+        let end = find_unescaped(choice_only, ']').ok_or_else(|| {
             CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
         })?;
         let label = choice_only[..end].trim().to_owned();
@@ -362,7 +319,11 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         });
     }
 
-    if let Some((before, after)) = trimmed.split_once("[]") {
+    let open = find_unescaped(trimmed, '[');
+    if let Some(open) = open
+        && let Some(after) = trimmed[open..].strip_prefix("[]")
+    {
+        let before = &trimmed[..open];
         let (end, inline_diverts) = split_inline_choice_divert(after)?;
         let (start_text, start_tags) = split_text_and_tags(before)?;
         let (end_text, end_tags) = split_text_and_tags(end)?;
@@ -382,8 +343,8 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         });
     }
 
-    if let Some(open) = trimmed.find('[')
-        && let Some(close_rel) = trimmed[open + 1..].find(']')
+    if let Some(open) = open
+        && let Some(close_rel) = find_unescaped(&trimmed[open + 1..], ']')
     {
         let close = open + 1 + close_rel;
         let start = &trimmed[..open];
-- 
2.43.0


From 934062fb1072b3a9122aa4628f93f91999c30b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 52/54] fix: text with a colon or with parentheses can be an
 alternative of inline logic

---
 compiler/src/inline.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index d4f1b86..292cf96 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -493,6 +493,21 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
     result
 }
 
+/// Whether every `|` of an expression stands inside parentheses.
+fn pipes_in_parentheses(expression: &str) -> bool {
+    let mut depth = 0usize;
+    let mut in_string = false;
+    expression.chars().all(|ch| {
+        match ch {
+            '"' => in_string = !in_string,
+            '(' if !in_string => depth += 1,
+            ')' if !in_string => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        ch != '|' || depth > 0 || in_string
+    })
+}
+
 pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     let mut depth = 0;
     let mut escaped = false;
@@ -530,8 +545,13 @@ pub fn parse_inline_conditional(
         None => return Ok(None),
     };
 
+    // What isn't an expression is text with a colon in it
+    let Ok(condition) = parse_condition(condition.trim()) else {
+        return Ok(None);
+    };
+
     Ok(Some((
-        parse_condition(condition.trim())?,
+        condition,
         // Do NOT trim the leading whitespace from the branch text: inklecate preserves
         // the space that authors write after ':' (e.g. `{cond: text}` → `" text"`).
         branch,
@@ -596,6 +616,15 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
         (SequenceMode::Stopping, false, content)
     };
 
+    // `(a || b)` is an expression, `(a|b)` is text with alternatives
+    if !explicit_mode
+        && content.contains("||")
+        && pipes_in_parentheses(content)
+        && parse_expression(content).is_ok()
+    {
+        return Ok(None);
+    }
+
     let parts = split_top_level_pipe(rest);
     // A sequence needs at least 2 branches, UNLESS an explicit mode prefix was
     // given (e.g. {! ->tunnel->}), in which case a single branch is valid.
-- 
2.43.0


From e831860cf7db9a98690802277ca056835e746d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 53/54] fix: the words of a sequence's kind may stand in either
 order

---
 compiler/src/parser/sequence.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/compiler/src/parser/sequence.rs b/compiler/src/parser/sequence.rs
index 7ae0a33..37c44cb 100644
--- a/compiler/src/parser/sequence.rs
+++ b/compiler/src/parser/sequence.rs
@@ -23,13 +23,14 @@ pub fn looks_like_sequence(content: &str) -> bool {
 }
 
 pub fn parse_sequence_mode(input: &str) -> Result<SequenceMode, CompilerError> {
-    match input {
-        "stopping" => Ok(SequenceMode::Stopping),
-        "once" => Ok(SequenceMode::Once),
-        "cycle" => Ok(SequenceMode::Cycle),
-        "shuffle" => Ok(SequenceMode::Shuffle),
-        "shuffle once" => Ok(SequenceMode::ShuffleOnce),
-        "stopping shuffle" => Ok(SequenceMode::ShuffleStopping),
+    let words: Vec<&str> = input.split_whitespace().collect();
+    match words.as_slice() {
+        ["stopping"] => Ok(SequenceMode::Stopping),
+        ["once"] => Ok(SequenceMode::Once),
+        ["cycle"] => Ok(SequenceMode::Cycle),
+        ["shuffle"] => Ok(SequenceMode::Shuffle),
+        ["shuffle", "once"] | ["once", "shuffle"] => Ok(SequenceMode::ShuffleOnce),
+        ["shuffle", "stopping"] | ["stopping", "shuffle"] => Ok(SequenceMode::ShuffleStopping),
         _ => Err(CompilerError::unsupported_feature(format!(
             "unsupported sequence mode '{input}'"
         ))),
-- 
2.43.0


From 70d6de90b33ceade03a8653d14ed2ddd37b2da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 54/54] vp_hooks: audit the tails of paths and the way from a
 container to itself

---
 runtime/src/story/vp_hooks.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/runtime/src/story/vp_hooks.rs b/runtime/src/story/vp_hooks.rs
index 1fd251f..1312489 100644
--- a/runtime/src/story/vp_hooks.rs
+++ b/runtime/src/story/vp_hooks.rs
@@ -303,6 +303,22 @@ impl Story {
                 audit.fail("resolves-to-itself", &p, "another object".to_owned());
             }
             audit.text_round_trip("object path", &p);
+            // the paths met on the way down to it
+            let mut tail = p.clone();
+            for _ in 0..=p.len() {
+                tail = tail.get_tail();
+                audit.text_round_trip("rest of a path", &tail);
+            }
+            // the way from a container to itself
+            if o.clone().into_any().downcast::<Container>().is_ok() && !p.is_empty() {
+                let rel = Object::convert_path_to_relative(o, &p);
+                audit.text_round_trip("path to itself", &rel);
+                let rel = Path::new_with_components_string(Some(&rel.to_string()));
+                let r = Object::resolve_path(o.clone(), &rel);
+                if r.approximate || !same(&r.obj, o) {
+                    audit.fail("relative-to-itself", &p, rel.to_string());
+                }
+            }
             // through the text form, as a save does
             let back = Path::new_with_components_string(Some(&p.to_string()));
             let r = root.content_at_path(&back, 0, -1);
-- 
2.43.0

