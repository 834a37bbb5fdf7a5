From 83c51c43420b13ce7df4351288a9d5cf155f1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 001/105] fix: cond clause without body returns the value of
 its test

---
 src/c/cond.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..30f54ca 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -26,7 +26,8 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      // A clause without expressions yields the value of its test
+      return pred;
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
-- 
2.43.0


From 0d8338c7df66136874b2ee148bb48d36e6b41031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 002/105] fix: named let evaluates its whole body, not only the
 first expression

---
 src/c/let.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..8909978 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -43,7 +43,7 @@ SCM *expand_let(SCM *expr) {
     */
     assert(l->next->next->next);
     auto argl = l->next->next->data;
-    auto body = l->next->next->next->data;
+    auto body = l->next->next->next;
     
     // Handle empty bindings list for named let: (let name () body)
     SCM *params = scm_nil();
@@ -67,10 +67,14 @@ SCM *expand_let(SCM *expr) {
       printf("args ");
       print_ast(args);
       printf("\n");
-      print_ast(body);
+      print_list(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    // (lambda params . body): keep every body expression
+    auto lambda_l = make_list(scm_sym_lambda());
+    lambda_l->next = make_list(params);
+    lambda_l->next->next = body;
+    auto val = wrap(lambda_l);
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From 18264bf6bb3a6dedb7cbdfc47ade6e518f36a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 003/105] fix: do binds its own variables, afresh for every
 iteration, and accepts any true test value

---
 src/c/do.cc | 108 +++++++++++++---------------------------------------
 1 file changed, 26 insertions(+), 82 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..686c2dc 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,68 +1,21 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Helper function to update do loop variables
-// All update expressions are evaluated first (in parallel), then all variables are updated
-// This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return;
-    }
+// Helper function to step the do loop variables
+// Every iteration gets a fresh environment: all step expressions are evaluated in the
+// environment of the previous iteration (parallel binding semantics), and closures made
+// in one iteration keep that iteration's bindings.
+static SCM_Environment *step_do_variables(SCM_Environment *env, SCM_Environment *do_env, SCM_List *var_update_list) {
+  auto next_env = make_env(env);
+  for (auto it = var_update_list->next; it; it = it->next) {
+    // it->data is (var_name var_update_step)
+    auto var_update_expr = cast<SCM_List>(it->data);
     auto var_name = cast<SCM_Symbol>(var_update_expr->data);
     auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
     auto new_var_val = eval_with_env(do_env, var_update_step);
     if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return;
+      return nullptr;  // Evaluation error
     }
-    
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval do step ... ");
       print_ast(var_update_step);
@@ -70,19 +23,9 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
       print_ast(new_var_val);
       printf("\n");
     }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
-  }
-  
-  // Second pass: update all variables with the pre-computed values
-  // This happens AFTER all update expressions have been evaluated
-  // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+    scm_env_insert(next_env, var_name, new_var_val, /*search_parent=*/false);
   }
-  
-  delete[] updates;
+  return next_env;
 }
 
 // Helper function for do special form
@@ -139,23 +82,21 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Check for optional update step
-    SCM *var_update_step = nullptr;
+    // A variable without a step keeps its value
+    SCM *var_update_step = var_init_expr->data;
     if (var_init_expr->next->next) {
       var_update_step = var_init_expr->next->next->data;
     }
 
     // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
+    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
-    // Store update step if provided
-    if (var_update_step) {
-      // Store as a list: (var_name var_update_step)
-      SCM *var_name_wrapped = wrap(var_name);
-      SCM *pair = scm_list2(var_name_wrapped, var_update_step);
-      var_update_it->next = make_list(pair);
-      var_update_it = var_update_it->next;
-      var_update_it->next = nullptr;
-    }
+    // Store as a list: (var_name var_update_step)
+    SCM *var_name_wrapped = wrap(var_name);
+    SCM *pair = scm_list2(var_name_wrapped, var_update_step);
+    var_update_it->next = make_list(pair);
+    var_update_it = var_update_it->next;
+    var_update_it->next = nullptr;
     var_init_it = var_init_it->next;
   }
 
@@ -187,7 +128,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   
   // Main loop: continue while test condition is false
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
@@ -203,7 +144,10 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = step_do_variables(env, do_env, &var_update_dummy);
+    if (!do_env) {
+      return nullptr;  // Evaluation error
+    }
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From f5582b0037c17f13f84fd0ced25c8f158d2b0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 004/105] fix: procedure definitions in a body are local, and
 redefine a global builtin at top level

---
 src/c/define.cc | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..42d5144 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,31 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Bind the name of a (define (name args...) body...) form
+static void bind_procedure_name(SCM_Environment *env, SCM_Symbol *proc_name, SCM *val) {
+  if (env->parent && !env->module) {
+    // Inside a lambda/let body: local binding
+    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    return;
+  }
+  SCM *current_mod = scm_current_module();
+  if (!env->parent && current_mod == g_root_module) {
+    // A global binding hides the one of the root module, so it is the one to update
+    auto global_entry = scm_env_search_entry(&g_env, proc_name, /*search_parent=*/false);
+    if (global_entry) {
+      global_entry->value = val;
+      return;
+    }
+  }
+  // If current module exists, define in module
+  if (current_mod && is_module(current_mod)) {
+    SCM_Module *module = cast<SCM_Module>(current_mod);
+    scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
+  } else {
+    scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+  }
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -118,14 +143,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
-    } else {
-      scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
-    }
+    bind_procedure_name(env, proc_name, ret);
     return ret;
   }
   
@@ -156,14 +174,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
-    } else {
-      scm_env_insert(env, proc_name, val, /*search_parent=*/false);
-    }
+    bind_procedure_name(env, proc_name, val);
     return scm_none();
   } else {
     // Should not happen, but handle it
-- 
2.43.0


From 8d3eed2c97306b76b8e8012efee9c433d2c13de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 005/105] fix: each evaluation of an argument list builds a
 fresh list

---
 src/c/eval.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..bc38702 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -18,16 +18,24 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
-  SCM_List dummy = make_list_dummy();
-  SCM_List *it = &dummy;
+  // Collect the values in reverse and build the result at the end: a continuation captured
+  // by one of the expressions can return more than once, and a later pass must not change
+  // the list an earlier pass has returned.
+  SCM_List *reversed = nullptr;
   while (l) {
     auto val = eval_with_env(env, l->data);
-    auto next = make_list(val);
-    it->next = next;
-    it = it->next;
+    auto node = make_list(val);
+    node->next = reversed;
+    reversed = node;
     l = l->next;
   }
-  return dummy.next;
+  SCM_List *result = nullptr;
+  for (; reversed; reversed = reversed->next) {
+    auto node = make_list(reversed->data);
+    node->next = result;
+    result = node;
+  }
+  return result;
 }
 
 
-- 
2.43.0


From e3d44bd949f33049c49b64edea44b9781a6f9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 006/105] fix: arguments are evaluated before parameters are
 bound, and required parameters before a rest parameter are checked

---
 src/c/procedure.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..bc2facf 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -97,12 +97,15 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
 
 // Helper function to apply procedure with arguments
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+  // Evaluate all arguments before binding any of them: a continuation captured by an
+  // argument expression can return more than once, and every call needs its own environment
+  SCM_List *arg_values = eval_list_with_env(env, args);
   auto proc_env = make_env(proc->env);
   auto args_l = proc->args;
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
+  SCM_List *args_iter = arg_values;  // Use separate iterator for the loop
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
@@ -145,7 +148,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
+      SCM *arg_val = args_iter->data;
       SCM_List *node = make_list(arg_val);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -179,7 +182,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -194,7 +197,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       SCM_List rest_args_dummy = make_list_dummy();
       SCM_List *rest_args_tail = &rest_args_dummy;
       while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
+        SCM *arg_val = args_iter->data;
         SCM_List *node = make_list(arg_val);
         rest_args_tail->next = node;
         rest_args_tail = node;
@@ -226,7 +229,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -239,8 +242,10 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch (a rest parameter takes any number of further arguments,
+  // but the parameters before it are required)
+  bool missing_required = has_rest_param && !only_rest_param && current_param != penultimate_param->next;
+  if (missing_required || (!has_rest_param && (args_iter || current_param))) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From b55e1111b1223734373ce0ab66472821ca2be1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 007/105] fix: apply evaluates its leading arguments only once

---
 src/c/apply.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..208ff25 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -290,7 +290,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Wrap the value in quote to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
-- 
2.43.0


From 16b2323248c1daf5d705d6054ec454f3cd4e1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 008/105] fix: for-each does not stop at an element that is the
 empty list

---
 src/c/for_each.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..f9e4807 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,10 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted (an element that is the empty list
+// does not end the list)
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
-- 
2.43.0


From 17f4d495f1bd7606b27958c11d5e28e42773fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 009/105] fix: for-each passes one argument per list to
 procedures with a rest parameter

---
 src/c/for_each.cc | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index f9e4807..f053a88 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -37,21 +37,12 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
+  // One argument per list, whatever parameters (optional, rest) the procedure takes
+  arg_count = count_list_length(l->next->next);
   
   l = l->next->next;
 
-- 
2.43.0


From 1b921fca7d95929b3df6b9a2b60039e6cdb51872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 010/105] fix: map keeps its state where the collector and
 re-entered continuations see it unchanged

---
 src/c/map.cc | 97 ++++++++++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 57 deletions(-)

diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..1f76d3b 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -40,60 +40,48 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: first argument must be a procedure");
   }
   
-  // Collect all list arguments
-  SCM_List *list_args_head = l->next->next;
-  int num_lists = 0;
-  SCM_List *temp = list_args_head;
-  while (temp) {
-    num_lists++;
-    temp = temp->next;
-  }
-  
-  if (num_lists == 0) {
+  if (!l->next->next) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
-  temp = list_args_head;
-  for (int i = 0; i < num_lists; i++) {
-    // Always evaluate list arguments
-    SCM *list_arg = eval_with_env(env, temp->data);
-    // Check if list_arg is a list
-    if (!is_pair(list_arg) && !is_nil(list_arg)) {
+  // Evaluate all list arguments. The positions reached in the lists and the results are kept
+  // in lists that are never modified, not in an array: the collector has to see them, and a
+  // continuation captured by a call of proc can return more than once.
+  SCM_List *cursors = eval_list_with_env(env, l->next->next);
+  for (SCM_List *it = cursors; it; it = it->next) {
+    if (!is_pair(it->data) && !is_nil(it->data)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
-    temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
-  
-  // Continue until the shortest list is exhausted
-  bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
-      all_non_empty = false;
+  SCM_List *reversed = nullptr;
+  while (true) {
+    // Stop when the shortest list is exhausted
+    bool all_non_empty = true;
+    for (SCM_List *it = cursors; it; it = it->next) {
+      if (is_nil(it->data)) {
+        all_non_empty = false;
+        break;
+      }
+    }
+    if (!all_non_empty) {
       break;
     }
-  }
-  
-  while (all_non_empty) {
-    // Collect one element from each list
+    
+    // Collect one element from each list, and the rest of each list
     // Wrap each element in quote to prevent evaluation
     SCM_List args_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
-    
-    for (int i = 0; i < num_lists; i++) {
-      // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
-      SCM_List *node = make_list(quoted_elem);
-      args_tail->next = node;
-      args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
+    SCM_List rest_dummy = make_list_dummy();
+    SCM_List *rest_tail = &rest_dummy;
+    for (SCM_List *it = cursors; it; it = it->next) {
+      SCM_List *list = cast<SCM_List>(it->data);
+      args_tail->next = make_list(scm_list2(scm_sym_quote(), list->data));
+      args_tail = args_tail->next;
+      rest_tail->next = make_list(list->next ? wrap(list->next) : scm_nil());
+      rest_tail = rest_tail->next;
     }
+    cursors = rest_dummy.next;
     
     // Apply proc to collected arguments
     SCM *result;
@@ -111,25 +99,20 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
       eval_error("map: first argument must be a procedure");
     }
     
-    // Add result to result list
+    // Add result to the reversed result list
     SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
-    
-    // Check if all lists still have elements
-    all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
-        all_non_empty = false;
-        break;
-      }
-    }
+    node->next = reversed;
+    reversed = node;
   }
   
-  delete[] list_ptrs;
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  SCM_List *result_list = nullptr;
+  for (; reversed; reversed = reversed->next) {
+    SCM_List *node = make_list(reversed->data);
+    node->next = result_list;
+    result_list = node;
+  }
+  if (result_list) {
+    return wrap(result_list);
   }
   return scm_nil();
 }
-- 
2.43.0


From dcbd8b69cc164c96ca1a0ab33bb6c1223d0c318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 011/105] fix: arithmetic reports arguments that are not
 numbers as errors and computes with fractions

---
 src/c/number.cc | 52 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..2b309fe 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -6,8 +6,26 @@
 // Forward declaration
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
+static void check_number(SCM *arg) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
+    type_error(arg, "number");
+  }
+}
+
+// The numerator and denominator of an exact number
+static void exact_parts(SCM *arg, int64_t &numerator, int64_t &denominator) {
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = (SCM_Rational *)arg->value;
+    numerator = rat->numerator;
+    denominator = rat->denominator;
+  } else {
+    numerator = (int64_t)arg->value;
+    denominator = 1;
+  }
+}
+
 SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("negative?: expected number");
     return nullptr;
   }
@@ -19,7 +37,7 @@ SCM *scm_c_is_negative(SCM *arg) {
 }
 
 SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("positive?: expected number");
     return nullptr;
   }
@@ -80,6 +98,8 @@ SCM *scm_c_is_zero(SCM *arg) {
 
 // Type promotion: if either operand is float, promote both to float
 static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   return is_float(lhs) || is_float(rhs);
 }
 
@@ -102,15 +122,18 @@ struct BinaryOperator {
         return scm_from_double(ret);
       }
     } else {
-      // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
-      int64_t n_lhs = (int64_t)lhs->value;
-      int64_t n_rhs = (int64_t)rhs->value;
-      auto ret = Op::run(n_lhs, n_rhs);
+      // Exact operation, over a common denominator (multiplication of
+      // fractions does not get here)
+      int64_t n_lhs, d_lhs, n_rhs, d_rhs;
+      exact_parts(lhs, n_lhs, d_lhs);
+      exact_parts(rhs, n_rhs, d_rhs);
+      auto ret = Op::run(n_lhs * d_rhs, n_rhs * d_lhs);
       if constexpr (std::is_same_v<decltype(ret), bool>) {
         return ret ? scm_bool_true() : scm_bool_false();
       } else {
+        if (d_lhs != 1 || d_rhs != 1) {
+          return scm_make_ratio(ret, d_lhs * d_rhs);
+        }
         SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
         data->type = SCM::NUM;
         data->value = (void *)ret;
@@ -240,6 +263,10 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->value = (void *)(-val);
     return data;
   }
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = (SCM_Rational *)arg->value;
+    return scm_make_ratio(-rat->numerator, rat->denominator);
+  }
   eval_error("negate: expected number");
   return nullptr;
 }
@@ -274,7 +301,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
+    if (!is_num(args->data) && !is_float(args->data) && !is_ratio(args->data)) {
       eval_error("-: expected number");
       return nullptr;
     }
@@ -292,6 +319,8 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs);
+  check_number(rhs);
   // Handle ratio (rational number) multiplication
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // Convert both to numerator/denominator form
@@ -492,7 +521,10 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  check_number(arg);
+  if (!is_num(arg)) {
+    return scm_to_double(arg) < 0 ? scm_c_negate_number(arg) : arg;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-- 
2.43.0


From a1c62a0cf9dbb2a918373a6b4d2fd204e1a4c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 012/105] fix: max and min return the exact extreme argument

---
 src/c/number.cc | 88 ++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 60 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 2b309fe..7201740 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -695,40 +695,24 @@ SCM *scm_c_max(SCM_List *args) {
     eval_error("max: requires at least 1 argument");
     return nullptr;
   }
-  
-  SCM *first = args->data;
-  if (!is_num(first) && !is_float(first) && !is_ratio(first)) {
-    eval_error("max: expected number");
-    return nullptr;
-  }
-  
-  double max_val = scm_to_double(first);
-  bool all_int = is_num(first);
-  
-  SCM_List *current = args->next;
-  while (current) {
+
+  SCM *result = args->data;
+  check_number(result);
+  bool inexact = is_float(result);
+  for (SCM_List *current = args->next; current; current = current->next) {
     SCM *arg = current->data;
-    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-      eval_error("max: expected number");
-      return nullptr;
-    }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val > max_val) {
-      max_val = val;
+    check_number(arg);
+    inexact = inexact || is_float(arg);
+    if (is_true(scm_c_gt_number(arg, result))) {
+      result = arg;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
   }
-  
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
+
+  // One inexact argument makes the result inexact
+  if (inexact && !is_float(result)) {
+    return scm_from_double(scm_to_double(result));
   }
-  return scm_from_double(max_val);
+  return result;
 }
 
 // min: Return the minimum of the arguments
@@ -737,40 +721,24 @@ SCM *scm_c_min(SCM_List *args) {
     eval_error("min: requires at least 1 argument");
     return nullptr;
   }
-  
-  SCM *first = args->data;
-  if (!is_num(first) && !is_float(first) && !is_ratio(first)) {
-    eval_error("min: expected number");
-    return nullptr;
-  }
-  
-  double min_val = scm_to_double(first);
-  bool all_int = is_num(first);
-  
-  SCM_List *current = args->next;
-  while (current) {
+
+  SCM *result = args->data;
+  check_number(result);
+  bool inexact = is_float(result);
+  for (SCM_List *current = args->next; current; current = current->next) {
     SCM *arg = current->data;
-    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-      eval_error("min: expected number");
-      return nullptr;
-    }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val < min_val) {
-      min_val = val;
+    check_number(arg);
+    inexact = inexact || is_float(arg);
+    if (is_true(scm_c_lt_number(arg, result))) {
+      result = arg;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
   }
-  
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
+
+  // One inexact argument makes the result inexact
+  if (inexact && !is_float(result)) {
+    return scm_from_double(scm_to_double(result));
   }
-  return scm_from_double(min_val);
+  return result;
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-- 
2.43.0


From 0d65c2ccc3dce08743548ef66107ee09aeeaa868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 013/105] fix: expt computes exact powers of any number, also
 for negative exponents

---
 src/c/number.cc | 77 +++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 7201740..be74241 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -742,57 +742,46 @@ SCM *scm_c_min(SCM_List *args) {
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
-  int64_t n1 = (int64_t)base->value;
-  int64_t n2 = (int64_t)exp->value;
-  
-  // Handle special cases
-  if (n1 == 0 && n2 == 0) {
-    // 0^0 = 1
-    return _create_num(1);
+  check_number(base);
+  check_number(exp);
+  if (!is_num(exp)) {
+    return scm_from_double(std::pow(scm_to_double(base), scm_to_double(exp)));
   }
-  else if (n1 == 0) {
+  int64_t n = (int64_t)exp->value;
+  if (n == 0) {
+    // x^0 = 1, also for 0
+    return is_float(base) ? scm_from_double(1.0) : _create_num(1);
+  }
+  if (is_num(base) && (int64_t)base->value == 0) {
     // 0^n = 0 (for n != 0)
     return _create_num(0);
   }
-  else if (n2 == 0) {
-    // n^0 = 1
-    return _create_num(1);
-  }
-  
-  // Handle negative exponent
-  bool is_negative = false;
-  if (n2 < 0) {
-    is_negative = true;
-    n2 = -n2;
-  }
-  
-  // Calculate base^n2
-  int64_t ret = n1;
-  for (int64_t i = 0; i < n2 - 1; ++i) {
-    ret *= n1;
-  }
-  
-  // Handle negative exponent result
-  if (is_negative) {
-    // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
+
+  // Calculate base^|n| by repeated squaring
+  uint64_t left = n < 0 ? -(uint64_t)n : (uint64_t)n;
+  SCM *square = base;
+  SCM *ret = nullptr;
+  while (true) {
+    if (left & 1) {
+      ret = ret ? scm_c_mul_number(ret, square) : square;
     }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
+    left >>= 1;
+    if (!left) {
+      break;
     }
+    square = scm_c_mul_number(square, square);
   }
-  
-  return _create_num(ret);
+  if (n > 0) {
+    return ret;
+  }
+
+  // Negative exponent: the reciprocal
+  if (is_float(ret)) {
+    return scm_from_double(1.0 / ptr_to_double(ret->value));
+  }
+  int64_t numerator, denominator;
+  exact_parts(ret, numerator, denominator);
+  return scm_make_ratio(denominator, numerator);
 }
 
 SCM *scm_c_div(SCM_List *args) {
-- 
2.43.0


From b860fe37ac930d97681b44992f327fc29463265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 014/105] fix: odd? and even? are exact for large integers

---
 src/c/number.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/number.cc b/src/c/number.cc
index be74241..14bd24e 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -53,6 +53,9 @@ SCM *scm_c_is_odd(SCM *arg) {
     eval_error("odd?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 != 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -71,6 +74,9 @@ SCM *scm_c_is_even(SCM *arg) {
     eval_error("even?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 == 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
-- 
2.43.0


From bf3f79c07a1f5b8cfbb6e062a3900bfa982a16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 015/105] fix: malformed special forms are reported as errors
 instead of aborting the process

---
 src/c/case.cc     |  4 +++-
 src/c/cond.cc     |  6 ++++--
 src/c/define.cc   |  1 +
 src/c/do.cc       |  2 +-
 src/c/dynwind.cc  |  2 +-
 src/c/eval.cc     |  7 ++++---
 src/c/eval.h      |  7 +++++++
 src/c/for_each.cc |  2 +-
 src/c/let.cc      | 33 ++++++++++++++++++---------------
 9 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..a535f39 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,7 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  check_syntax(l->next, "case");  // Must have at least key expression
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,7 +35,9 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    check_syntax(is_pair(clause_it->data), "case");
     auto clause = cast<SCM_List>(clause_it->data);
+    check_syntax(clause->next, "case");
     
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval case clause ");
diff --git a/src/c/cond.cc b/src/c/cond.cc
index 30f54ca..df890c0 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,9 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "cond");
   for (auto it = l->next; it; it = it->next) {
+    check_syntax(is_pair(it->data), "cond");
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -18,6 +19,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       printf("\n");
     }
     if (is_sym_val(clause->data, "else")) {
+      check_syntax(clause->next, "cond");
       return eval_with_list(env, clause->next);
     }
     auto pred = eval_with_env(env, clause->data);
@@ -36,7 +38,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        check_syntax(clause->next->next, "cond");
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index 42d5144..440ca3a 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -27,6 +27,7 @@ static void bind_procedure_name(SCM_Environment *env, SCM_Symbol *proc_name, SCM
 }
 
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next && (is_sym(l->next->data) || is_pair(l->next->data)), "define");
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
     SCM_Symbol *varname = cast<SCM_Symbol>(l->next->data);
diff --git a/src/c/do.cc b/src/c/do.cc
index 686c2dc..f30456a 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -32,7 +32,7 @@ static SCM_Environment *step_do_variables(SCM_Environment *env, SCM_Environment
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  check_syntax(l->next && l->next->next, "do");
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..d7b197b 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -177,7 +177,7 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index bc38702..e114cff 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -78,7 +78,7 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  check_syntax(l->next && is_sym(l->next->data) && l->next->next, "set!");
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -130,6 +130,7 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  check_syntax(l->next, "lambda");
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -174,7 +175,7 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next && l->next->next, "if");
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -240,7 +241,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  check_syntax(l->next, "call/cc");
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..488d0ce 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -2,6 +2,13 @@
 
 #include "error.h"
 
+// Reject a malformed special form
+inline void check_syntax(bool ok, const char *form) {
+  if (!ok) {
+    eval_error("%s: bad syntax", form);
+  }
+}
+
 // do special form
 SCM *eval_do(SCM_Environment *env, SCM_List *l);
 
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index f053a88..44e1fc1 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -33,7 +33,7 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  check_syntax(l->next, "for-each");
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
diff --git a/src/c/let.cc b/src/c/let.cc
index 8909978..2216064 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -1,10 +1,16 @@
 #include "pscm.h"
 #include "eval.h"
 
+// A binding must be a list of a symbol and an expression
+static void check_binding(SCM *binding, const char *form) {
+  check_syntax(is_pair(binding), form);
+  auto b = cast<SCM_List>(binding);
+  check_syntax(is_sym(b->data) && b->next, form);
+}
+
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +47,7 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    check_syntax(l->next->next->next, "let");
     auto argl = l->next->next->data;
     auto body = l->next->next->next;
     
@@ -55,6 +61,9 @@ SCM *expand_let(SCM *expr) {
         eval_error("let: bindings must be a list");
         return nullptr;
       }
+      for (auto it = cast<SCM_List>(argl); it; it = it->next) {
+        check_binding(it->data, "let");
+      }
       params = map(argl, car);
       args = map(argl, cadr);
     }
@@ -191,13 +200,11 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "let");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_binding(argl->data, "let");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -249,8 +256,7 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "let*");
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -358,8 +364,7 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  check_syntax(l->next && l->next->next, "letrec");
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -381,13 +386,11 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    check_syntax(is_pair(func_args), "letrec");
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_binding(argl->data, "letrec");
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From be5df0727867b432df9aa5b819b5f622ec470271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 016/105] fix: values passes one value unchanged, and
 continuations receive several values

call-with-values spread any list a producer returned, and a continuation
invoked with several arguments dropped all but the first. Only a list made by
values from other than one argument counts as multiple values now.
---
 src/c/apply.cc  | 70 +++----------------------------------------------
 src/c/eval.cc   |  7 ++---
 src/c/eval.h    |  4 +++
 src/c/values.cc | 26 +++++++++++++-----
 4 files changed, 29 insertions(+), 78 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 208ff25..3db8928 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -185,72 +185,6 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     eval_error("apply: first argument must be a procedure");
   }
   
-  // Special handling for continuation: it accepts a single argument (a list)
-  if (is_cont(proc)) {
-    if (!l->next->next) {
-      eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
-    }
-    // For continuation, if there's only one argument after proc, use it directly
-    // Otherwise, collect all arguments (before the last one) and the last list
-    if (!l->next->next->next) {
-      // Only one argument: (apply cont things) -> use things directly
-      SCM *arg = eval_with_env(env, l->next->next->data);
-      if (!is_pair(arg) && !is_nil(arg)) {
-        eval_error("apply: last argument must be a list");
-      }
-      scm_dynthrow(proc, arg);
-      return nullptr;
-    }
-    
-    // Multiple arguments: collect them
-    SCM_List *args_before_last = l->next->next;
-    SCM_List *last_arg_node = nullptr;
-    
-    // Find the last argument (which should be a list)
-    SCM_List *current = args_before_last;
-    while (current->next) {
-      current = current->next;
-    }
-    last_arg_node = current;
-    
-    // Evaluate the last argument (should be a list)
-    SCM *last_arg = eval_with_env(env, last_arg_node->data);
-    if (!is_pair(last_arg) && !is_nil(last_arg)) {
-      eval_error("apply: last argument must be a list");
-    }
-    
-    // Build combined list: args_before_last elements + last_arg elements
-    SCM_List args_dummy = make_list_dummy();
-    SCM_List *args_tail = &args_dummy;
-    
-    // Add all arguments before the last one
-    current = args_before_last;
-    while (current != last_arg_node) {
-      SCM *arg_val = eval_with_env(env, current->data);
-      SCM_List *node = make_list(arg_val);
-      args_tail->next = node;
-      args_tail = node;
-      current = current->next;
-    }
-    
-    // Append all elements from the last argument list
-    if (is_pair(last_arg)) {
-      SCM_List *last_list = cast<SCM_List>(last_arg);
-      while (last_list) {
-        SCM *elem = last_list->data;
-        SCM_List *node = make_list(elem);
-        args_tail->next = node;
-        args_tail = node;
-        last_list = last_list->next;
-      }
-    }
-    
-    // Pass the combined list to continuation
-    SCM *combined_list = args_dummy.next ? wrap(args_dummy.next) : scm_nil();
-    scm_dynthrow(proc, combined_list);
-    return nullptr;  // Never reached, but satisfies compiler
-  }
-  
   // Collect all arguments before the last one
   SCM_List *args_before_last = l->next->next;
   SCM_List *last_arg_node = nullptr;
@@ -396,6 +330,10 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     func_call.data = proc;
     func_call.next = evaled_args;
     return eval_with_func(func_obj, &func_call);
+  } else if (is_cont(proc)) {
+    // A continuation receives the arguments as values
+    scm_dynthrow(proc, scm_c_values(eval_list_with_env(env, args_dummy.next)));
+    return nullptr; // Never reached
   } else {
     eval_error("apply: first argument must be a procedure");
     return nullptr; // Never reached
diff --git a/src/c/eval.cc b/src/c/eval.cc
index e114cff..ad168ac 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -554,11 +554,8 @@ entry:
     }
   }
   else if (is_cont(l->data)) {
-    SCM *cont_arg = scm_nil();
-    if (l->next) {
-      cont_arg = eval_with_env(env, l->next->data);
-    }
-    scm_dynthrow(l->data, cont_arg);
+    // A continuation receives its arguments as values
+    scm_dynthrow(l->data, scm_c_values(eval_list_with_env(env, l->next)));
     return nullptr;  // Never reached, but satisfies compiler
   }
   else if (is_proc(l->data)) {
diff --git a/src/c/eval.h b/src/c/eval.h
index 488d0ce..fd61de1 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -23,9 +23,13 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l);
 
 // call-with-values special form
 SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l);
+SCM *scm_c_values(SCM_List *args);
 
 // dynamic-wind special form
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l);
+long scm_wind_depth(SCM_List *chain);
+void scm_unwind_to(SCM_List *target);
+void scm_rewind_to(SCM_List *target);
 
 // cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast);
diff --git a/src/c/values.cc b/src/c/values.cc
index a7e255a..f19d2e0 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -1,12 +1,23 @@
 #include "pscm.h"
 #include "eval.h"
 
-// values: Return its arguments as a list
+// The list made by the latest call of values with other than one argument. It tells
+// call-with-values multiple values from a single value that is a list.
+static SCM *g_multiple_values = nullptr;
+
+// values: Return its arguments as a list, or its argument if there is one
 // This is used by call-with-values to return multiple values
 SCM *scm_c_values(SCM_List *args) {
+  if (args && !args->next) {
+    return args->data;
+  }
   // Return the arguments as a list
   if (!args) {
-    return scm_nil();
+    g_multiple_values = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
+    g_multiple_values->type = SCM::NIL;
+    g_multiple_values->value = nullptr;
+    g_multiple_values->source_loc = nullptr;
+    return g_multiple_values;
   }
   // args is a list where each node's data is an argument
   // We need to extract the data from each node to build the result list
@@ -18,7 +29,8 @@ SCM *scm_c_values(SCM_List *args) {
     tail = tail->next;
     current = current->next;
   }
-  return dummy.next ? wrap(dummy.next) : scm_nil();
+  g_multiple_values = wrap(dummy.next);
+  return g_multiple_values;
 }
 
 // Helper function for call-with-values special form
@@ -51,12 +63,11 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
     values_result = eval_with_func(func, &func_call);
   }
   
-  // values_result should be a list of values
-  // If it's not a pair, wrap it in a list
+  // Multiple values are a list made by values
   SCM_List *values_list;
-  if (is_pair(values_result)) {
+  if (values_result == g_multiple_values && is_pair(values_result)) {
     values_list = cast<SCM_List>(values_result);
-  } else if (is_nil(values_result)) {
+  } else if (values_result == g_multiple_values) {
     values_list = nullptr;
   } else {
     // Single value, wrap in list
@@ -86,5 +97,6 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
 }
 
 void init_values() {
+  gc_register_root(&g_multiple_values, "g_multiple_values");
   scm_define_vararg_function("values", scm_c_values);
 }
-- 
2.43.0


From e340265e66b8e17ec13c103f0cf4375164eb435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 017/105] fix: throw and continuations keep the wind chain and
 the active catches consistent

A throw left the dynamic-winds between it and the catch without running their
out guards and left them on the wind chain; it also left inner catches on the
catch stack, whose frames are gone. A continuation did not restore the catches
of its computation, and with nested dynamic-winds compared the wrong ends of
the wind chains and ran guards in the wrong order. Lazy catches read their
handler from the wrong table.
---
 src/c/continuation.cc |  17 ++-
 src/c/dynwind.cc      | 205 ++++++++-----------------------
 src/c/pscm.h          |   1 +
 src/c/pscm_types.h    |   1 +
 src/c/throw.cc        | 273 ++++++++++++------------------------------
 src/c/throw.h         |   5 +
 6 files changed, 141 insertions(+), 361 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..a9b6984 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -11,11 +12,6 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
-// Forward declaration
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
-
 // no_sanitize("address"): this function reads the entire C stack (from
 // cont_base to the current stack top), crossing multiple independent stack
 // frames. This is UB per the C standard and ASan detects it as
@@ -49,7 +45,10 @@ SCM *scm_make_continuation(int *first) {
 #endif
   
   // Save current wind chain
-  cont->wind_chain = copy_wind_chain(g_wind_chain);
+  cont->wind_chain = g_wind_chain;
+
+  // Save the active catches
+  cont->catches = scm_save_catches();
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
@@ -59,6 +58,7 @@ SCM *scm_make_continuation(int *first) {
     return data;
   }
   else {
+    scm_restore_catches(cont->catches);
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
@@ -100,9 +100,8 @@ void copy_stack_and_call(SCM_Continuation *cont, SCM *args, long *dst) {
 void scm_dynthrow(SCM *cont, SCM *args) {
   auto continuation = cast<SCM_Continuation>(cont);
 
-  // Handle wind chain: unwind current to common prefix, then rewind to continuation's wind chain
-  SCM_List *common = unwind_wind_chain(continuation->wind_chain);
-  rewind_wind_chain(common, continuation->wind_chain);
+  // Leave the dynamic-winds that are active now and enter those of the continuation
+  scm_rewind_to(continuation->wind_chain);
 
   long *dst = continuation->stack_src;
   long stack_top_element;
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index d7b197b..022cc44 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -1,178 +1,67 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 
-// Forward declarations for functions used by continuation.cc
-SCM_List *copy_wind_chain(SCM_List *chain);
-SCM_List *unwind_wind_chain(SCM_List *target);
-void rewind_wind_chain(SCM_List *common, SCM_List *target);
-
-// Helper function to copy a wind chain
-SCM_List *copy_wind_chain(SCM_List *chain) {
-  if (!chain) {
-    return nullptr;
-  }
-  auto new_chain = make_list(chain->data);
-  auto current = chain->next;
-  auto new_current = new_chain;
-  while (current) {
-    new_current->next = make_list(current->data);
-    new_current = new_current->next;
-    current = current->next;
+// The wind chain is a list of (in_guard out_guard) entries, innermost first. Its nodes are never
+// modified, so a continuation can keep the chain and chains of nested dynamic-winds share their tails.
+long scm_wind_depth(SCM_List *chain) {
+  long depth = 0;
+  for (; chain; chain = chain->next) {
+    depth++;
   }
-  return new_chain;
+  return depth;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+// Longest common tail of two wind chains
+static SCM_List *common_wind_chain(SCM_List *a, SCM_List *b) {
+  long da = scm_wind_depth(a);
+  long db = scm_wind_depth(b);
+  for (; da > db; da--) {
+    a = a->next;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+  for (; db > da; db--) {
+    b = b->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
-  }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  while (a != b) {
+    a = a->next;
+    b = b->next;
   }
-  
-  return common;
+  return a;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
-SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->next && pair->next->data) {
-        // Call out_guard
-        SCM *out_guard = pair->next->data;
-        if (is_proc(out_guard)) {
-          auto proc = cast<SCM_Procedure>(out_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    to_unwind = to_unwind->next;
-  }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
-  return common;
+static void call_guard(SCM *guard) {
+  apply_procedure(&g_env, cast<SCM_Procedure>(guard), nullptr);
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
-void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
-  SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
-    auto new_entry = make_list(c->data);
-    new_entry->next = to_rewind;
-    to_rewind = new_entry;
-    c = c->next;
+// Leave the dynamic-winds that are not in target, innermost first. An out guard runs outside of
+// the dynamic-wind it belongs to.
+void scm_unwind_to(SCM_List *target) {
+  SCM_List *common = common_wind_chain(g_wind_chain, target);
+  while (g_wind_chain != common) {
+    SCM_List *entry = cast<SCM_List>(g_wind_chain->data);
+    g_wind_chain = g_wind_chain->next;
+    scm_drop_inner_catches(g_wind_chain);
+    call_guard(entry->next->data);
   }
-  
-  // Rewind entries (call in_guard) and add to wind chain
-  while (to_rewind) {
-    SCM *entry = to_rewind->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data) {
-        // Call in_guard
-        SCM *in_guard = pair->data;
-        if (is_proc(in_guard)) {
-          auto proc = cast<SCM_Procedure>(in_guard);
-          apply_procedure(&g_env, proc, nullptr);
-        }
-      }
-    }
-    
-    // Add to wind chain
-    auto new_entry = make_list(entry);
-    new_entry->next = g_wind_chain;
-    g_wind_chain = new_entry;
-    
-    to_rewind = to_rewind->next;
+}
+
+// Enter the dynamic-winds of target that are not in the current wind chain, outermost first
+static void enter_winds(SCM_List *target) {
+  if (target == g_wind_chain) {
+    return;
   }
+  enter_winds(target->next);
+  SCM_List *entry = cast<SCM_List>(target->data);
+  call_guard(entry->data);
+  g_wind_chain = target;
+}
+
+// Go from the current wind chain to target
+void scm_rewind_to(SCM_List *target) {
+  scm_unwind_to(target);
+  enter_winds(target);
 }
 
 // Dynamic-wind special form handler
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..c85b8cf 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -193,6 +193,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   cont->stack_data = stack_data;
   cont->wind_chain = nullptr;
   cont->saved_module = nullptr;
+  cont->catches = nullptr;
   cont->stack_src = src_addr;
   return cont;
 }
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..d549f77 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  struct catch_info *catches; // Innermost active catch when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..61870fd 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,33 +9,67 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
-
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
   jmp_buf buf;           // Jump buffer
   SCM *throw_tag;        // Thrown tag
   SCM *throw_args;       // Thrown arguments
-  bool active;           // Whether this catch is active
 };
 
-// Catch information structure
+// Catch information structure. It lives in the stack frame of scm_c_catch, so that copying the
+// stack for a continuation copies the handlers that are active inside it as well.
 struct catch_info {
   SCM *tag;              // Catch tag (symbol or #t)
-  struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
+  struct jmp_buf_and_retval *jbr;  // Jump buffer and return value (nullptr for a lazy catch)
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  SCM_List *wind_chain;   // Wind chain when the catch was entered
+  SCM *eval_context;      // Evaluation context when the catch was entered
+  struct catch_info *prev; // Next outer catch
 };
 
-// Structure to hold lazy catch handler information
-struct lazy_catch_data {
-  SCM *tag;
-  scm_t_catch_handler handler;
-  void *handler_data;
-  int lazy_catch_p;
-};
+// Innermost active catch (shared between scm_c_catch and scm_throw)
+static struct catch_info *g_catch_top = nullptr;
+
+static void push_catch(struct catch_info *info, SCM *tag, struct jmp_buf_and_retval *jbr,
+                       scm_t_catch_handler handler, void *handler_data) {
+  info->tag = tag;
+  info->jbr = jbr;
+  info->handler = handler;
+  info->handler_data = handler_data;
+  info->wind_chain = g_wind_chain;
+  info->eval_context = g_current_eval_context;
+  info->prev = g_catch_top;
+  g_catch_top = info;
+}
+
+// A continuation saves the active catches and makes them active again when it is invoked
+struct catch_info *scm_save_catches() {
+  return g_catch_top;
+}
+
+// Called when the stack of the continuation is in place. Catches outside of the copied part of
+// the stack are those of the caller.
+void scm_restore_catches(struct catch_info *saved) {
+  struct catch_info *outer = g_catch_top;
+  while (outer && (long *)outer < cont_base) {
+    outer = outer->prev;
+  }
+  struct catch_info **link = &saved;
+  while (*link && (long *)*link < cont_base) {
+    link = &(*link)->prev;
+  }
+  *link = outer;
+  g_catch_top = saved;
+}
+
+// Drop the catches that were entered inside the dynamic-wind whose outer wind chain is given
+void scm_drop_inner_catches(SCM_List *wind_chain) {
+  long depth = scm_wind_depth(wind_chain);
+  while (g_catch_top && scm_wind_depth(g_catch_top->wind_chain) > depth) {
+    g_catch_top = g_catch_top->prev;
+  }
+}
 
 // Helper function to check if two tags match
 static bool tags_match(SCM *tag, SCM *key) {
@@ -62,129 +96,52 @@ SCM *scm_c_catch(SCM *tag,
   struct jmp_buf_and_retval jbr;
   jbr.throw_tag = nullptr;
   jbr.throw_args = nullptr;
-  jbr.active = false;
-  
+
   // Allocate catch_info on stack (so it's protected from GC)
   struct catch_info info;
-  info.tag = tag;
-  info.jbr = &jbr;
-  info.handler = handler;
-  info.handler_data = handler_data;
-  
-  // Create a pair (tag . catch_info) to store in wind chain
-  // We'll use a special marker to distinguish catch entries from wind entries
-  // For simplicity, we'll store the catch_info pointer in a list
-  // Format: (tag . (jbr_ptr . (handler_ptr . handler_data_ptr)))
-  // Actually, we need to store pointers, so let's use a simpler approach:
-  // Store catch_info pointer directly (it's on stack, so it's safe)
-  
-  // Create entry: (tag . catch_info_ptr)
-  // We'll use a list where data is tag and next->data is catch_info pointer
-  // But SCM_List stores SCM*, not void*. So we need another approach.
-  // Let's create a special SCM object to hold the catch_info pointer.
-  // Actually, for now, let's just store it in a global list temporarily.
-  // Better: use a hash table or similar. But for simplicity, let's use a list.
-  
-  // For now, we'll use a simpler approach: store catch_info in a static array
-  // and use an index. But that's not scalable.
-  
-  // Better approach: create a wrapper SCM object that holds the catch_info pointer
-  // But we don't have a way to create custom SCM objects easily.
-  
-  // Simplest approach for now: use a global list of active catch_info structures
-  // We'll add the catch_info to a list when entering catch, remove when exiting.
-  // But we need to be careful about nested catches.
-  
-  // Actually, let's use a different approach: store catch_info in the wind chain
-  // by creating a special marker. We can use a special symbol or a special list structure.
-  
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
+  push_catch(&info, tag, &jbr, handler, handler_data);
 
-  // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
-  
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
-    
-    SCM *throw_tag = jbr.throw_tag;
-    SCM *throw_args = jbr.throw_args;
-    
+    g_catch_top = info.prev;
+    g_current_eval_context = info.eval_context;
+
     // Call handler
-    SCM *result = handler(handler_data, throw_tag, throw_args);
-    return result;
+    return info.handler(info.handler_data, jbr.throw_tag, jbr.throw_args);
   } else {
     // Normal execution - call body
-    jbr.active = true;
     SCM *result = body(body_data);
-    jbr.active = false;
-    
-    // Pop from stack
-    g_catch_stack_top--;
-    
+
+    g_catch_top = info.prev;
+
     return result;
   }
 }
 
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args) {
-  // First, check for lazy catch handlers in the wind chain
-  SCM_List *wind_current = g_wind_chain;
-  
-  // Static storage for lazy catch data (same as in scm_c_with_throw_handler)
-  static struct lazy_catch_data lazy_catch_storage[100];
-  
-  while (wind_current) {
-    SCM *entry = wind_current->data;
-    if (is_pair(entry)) {
-      SCM_List *pair = cast<SCM_List>(entry);
-      if (pair->data && tags_match(pair->data, key)) {
-        // Check if this is a lazy catch entry
-        if (pair->next && is_pair(pair->next->data)) {
-          SCM_List *marker_pair = cast<SCM_List>(pair->next->data);
-          if (marker_pair->data && is_sym(marker_pair->data)) {
-            SCM_Symbol *marker = cast<SCM_Symbol>(marker_pair->data);
-            if (strcmp(marker->data, "__lazy_catch__") == 0) {
-              // This is a lazy catch entry
-              if (marker_pair->next && marker_pair->next->data) {
-                SCM *index_list = marker_pair->next->data;
-                if (is_pair(index_list)) {
-                  SCM_List *index_pair = cast<SCM_List>(index_list);
-                  if (index_pair->data && is_num(index_pair->data)) {
-                    int storage_index = (int)(int64_t)index_pair->data->value;
-                    if (storage_index >= 0 && storage_index < 100) {
-                      struct lazy_catch_data *lcd = &lazy_catch_storage[storage_index];
-                      // Call the handler
-                      return lcd->handler(lcd->handler_data, key, args);
-                    }
-                  }
-                }
-              }
-            }
-          }
-        }
-      }
+  // Search from the most recent catch outwards
+  struct catch_info *saved = g_catch_top;
+  for (struct catch_info *info = g_catch_top; info; info = info->prev) {
+    if (!tags_match(info->tag, key)) {
+      continue;
     }
-    wind_current = wind_current->next;
-  }
-  
-  // Then, find matching catch in the catch stack (normal catch with stack unwinding)
-  // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
-      info->jbr->throw_tag = key;
-      info->jbr->throw_args = args;
-      longjmp(info->jbr->buf, 1);
+    if (!info->jbr) {
+      // Lazy catch: the handler runs in the context of the throw, with the catches around the
+      // lazy catch active. If it returns, the search goes on.
+      g_catch_top = info->prev;
+      info->handler(info->handler_data, key, args);
+      g_catch_top = saved;
+      continue;
     }
+    // Leave the dynamic-winds inside the catch, then jump. A guard may itself leave.
+    scm_unwind_to(info->wind_chain);
+    info->jbr->throw_tag = key;
+    info->jbr->throw_args = args;
+    longjmp(info->jbr->buf, 1);
   }
-  
+
   // No matching catch found - call uncaught throw handler
   scm_uncaught_throw(key, args);
   return nullptr;  // Never reached
@@ -320,88 +277,16 @@ SCM *scm_ithrow(SCM *key, SCM *args, int noreturn) {
   return scm_throw(key, args);
 }
 
-// Helper function to check if a wind chain entry is a lazy catch handler
-static bool is_lazy_catch_entry(SCM *entry, SCM *tag) {
-  // Check if entry is a pair and matches the tag
-  if (!is_pair(entry)) {
-    return false;
-  }
-  
-  SCM_List *pair = cast<SCM_List>(entry);
-  if (!pair->data || !is_sym(pair->data)) {
-    return false;
-  }
-  
-  // Check if tag matches
-  return tags_match(pair->data, tag);
-}
-
 // With throw handler (for lazy catch) - does not unwind stack
 SCM *scm_c_with_throw_handler(SCM *tag,
                               scm_t_catch_body body, void *body_data,
                               scm_t_catch_handler handler, void *handler_data,
                               int lazy_catch_p) {
-  // Create lazy catch data structure
-  struct lazy_catch_data lcd;
-  lcd.tag = tag;
-  lcd.handler = handler;
-  lcd.handler_data = handler_data;
-  lcd.lazy_catch_p = lazy_catch_p;
-  
-  // Create a marker entry for the wind chain: (tag . lazy_catch_data_ptr)
-  // We'll use a special list structure to store this
-  // Format: (tag . (handler_ptr . handler_data_ptr))
-  // Actually, we need to store the lazy_catch_data pointer, but SCM_List only stores SCM*
-  // So we'll use a different approach: store it in a static array and use an index
-  // Or better: create a wrapper that we can store in the wind chain
-  
-  // For simplicity, we'll create a list entry: (tag . handler_info)
-  // where handler_info is a list containing the handler function pointer and data
-  // But we can't store function pointers directly in SCM objects.
-  
-  // Better approach: use a global array to store lazy_catch_data structures
-  // and store the index in the wind chain entry
-  static struct lazy_catch_data lazy_catch_storage[100];
-  static int lazy_catch_storage_top = 0;
-  
-  if (lazy_catch_storage_top >= 100) {
-    eval_error("scm_c_with_throw_handler: too many nested lazy catches");
-    return nullptr;
-  }
-  
-  int storage_index = lazy_catch_storage_top++;
-  lazy_catch_storage[storage_index] = lcd;
-  
-  // Create wind chain entry: (tag . storage_index)
-  // We'll use a special marker to distinguish lazy catch entries
-  // Format: (tag . (lazy_catch_marker . storage_index))
-  SCM_Symbol *lazy_catch_marker_sym = make_sym("__lazy_catch__");
-  SCM *lazy_catch_marker = wrap(lazy_catch_marker_sym);
-  SCM *index_scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  index_scm->type = SCM::NUM;
-  index_scm->value = (void*)(int64_t)storage_index;
-  index_scm->source_loc = nullptr;
-  
-  SCM_List *marker_pair = make_list(lazy_catch_marker);
-  marker_pair->next = make_list(index_scm);
-  
-  SCM_List *wind_entry = make_list(tag);
-  wind_entry->next = marker_pair;
-  SCM *wind_entry_wrapped = wrap(wind_entry);
-  
-  // Add to wind chain
-  SCM_List *old_wind_chain = g_wind_chain;
-  SCM_List *new_wind_entry = make_list(wind_entry_wrapped);
-  new_wind_entry->next = g_wind_chain;
-  g_wind_chain = new_wind_entry;
-  
-  // Call body
+  (void)lazy_catch_p;
+  struct catch_info info;
+  push_catch(&info, tag, nullptr, handler, handler_data);
   SCM *result = body(body_data);
-  
-  // Remove from wind chain
-  g_wind_chain = old_wind_chain;
-  lazy_catch_storage_top--;  // Free the storage slot
-  
+  g_catch_top = info.prev;
   return result;
 }
 
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..282fcf2 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -11,6 +11,11 @@ typedef SCM *(*scm_t_catch_body)(void *data);
 // Catch handler function type
 typedef SCM *(*scm_t_catch_handler)(void *data, SCM *tag, SCM *args);
 
+// Active catches across continuations and dynamic-winds
+struct catch_info *scm_save_catches();
+void scm_restore_catches(struct catch_info *saved);
+void scm_drop_inner_catches(SCM_List *wind_chain);
+
 // Core catch function (C API)
 SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
-- 
2.43.0


From b6d7a676c4b6f45abde94afc33a97e5fa03f8f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 018/105] fix: apply, map, for-each, call/cc, call-with-values
 and dynamic-wind are ordinary procedures

They were recognised by name at the head of a form, so a local or redefined
procedure of that name was ignored, for-each, call-with-values and dynamic-wind
could not be passed on, and an alias of call/cc did not evaluate its operand.
Callbacks of primitives get their argument values without evaluating them
again, and can be continuations.
---
 src/c/apply.cc    | 301 ++++++++--------------------------------------
 src/c/delay.cc    |  19 +--
 src/c/dynwind.cc  |  29 +++--
 src/c/eval.cc     |  82 +++----------
 src/c/eval.h      |   4 +
 src/c/for_each.cc |  26 ++--
 src/c/init.cc     |   2 +
 src/c/map.cc      |  20 +--
 src/c/port.cc     | 105 ++--------------
 src/c/pscm.h      |   2 +
 src/c/throw.cc    |  22 +---
 src/c/values.cc   |  37 ++----
 12 files changed, 134 insertions(+), 515 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 3db8928..3f641bd 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -12,28 +12,38 @@ SCM *scm_c_apply(SCM_List *args) {
   return nullptr;
 }
 
+// Call a procedure of any kind with argument values. They are not evaluated again.
+SCM *scm_call_with_list(SCM *proc, SCM_List *args) {
+  if (is_proc(proc)) {
+    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
+    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
+    return apply_procedure_with_values(env, proc_obj, args);
+  }
+  if (is_cont(proc)) {
+    scm_dynthrow(proc, scm_c_values(args));
+  }
+  if (!is_func(proc) && !is_smob(proc)) {
+    eval_error("expected a procedure");
+    return nullptr;
+  }
+  // Some functions evaluate their operands themselves
+  SCM_List *call = make_list(proc);
+  SCM_List *tail = call;
+  for (; args; args = args->next) {
+    tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
+    tail = tail->next;
+  }
+  return eval_with_env(&g_env, wrap(call));
+}
+
 // scm_call_0: Call procedure with 0 arguments
 SCM *scm_call_0(SCM *proc) {
   if (!proc) {
     eval_error("scm_call_0: procedure is null");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = nullptr;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_0: expected procedure or function");
-    return nullptr;
-  }
+  SCM_List *args = nullptr;
+  return scm_call_with_list(proc, args);
 }
 
 // scm_call_1: Call procedure with 1 argument
@@ -42,24 +52,8 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     eval_error("scm_call_1: procedure is null");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_1: expected procedure or function");
-    return nullptr;
-  }
+  SCM_List *args = make_list(arg1);
+  return scm_call_with_list(proc, args);
 }
 
 // scm_call_2: Call procedure with 2 arguments
@@ -68,26 +62,9 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     eval_error("scm_call_2: procedure is null");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_2: expected procedure or function");
-    return nullptr;
-  }
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  return scm_call_with_list(proc, args);
 }
 
 // scm_call_3: Call procedure with 3 arguments
@@ -96,28 +73,10 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     eval_error("scm_call_3: procedure is null");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    SCM_List *args = make_list(arg1);
-    args->next = make_list(arg2);
-    args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    SCM_List *arg_list = make_list(arg1);
-    arg_list->next = make_list(arg2);
-    arg_list->next->next = make_list(arg3);
-    dummy_list.next = arg_list;
-    dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_call_3: expected procedure or function");
-    return nullptr;
-  }
+  SCM_List *args = make_list(arg1);
+  args->next = make_list(arg2);
+  args->next->next = make_list(arg3);
+  return scm_call_with_list(proc, args);
 }
 
 // scm_apply_0: Apply procedure with arguments in a list
@@ -135,28 +94,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
     eval_error("scm_apply_0: args must be a list or nil");
     return nullptr;
   }
-  
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List dummy_list;
-    dummy_list.data = proc;
-    dummy_list.next = args_list;
-    dummy_list.is_dotted = false;
-    // For functions, arguments are already evaluated (this is C API)
-    // So we need to use apply_procedure_with_values if it's a procedure,
-    // or handle it specially for functions
-    // Actually, eval_with_func expects arguments in a specific format
-    // Let's check if we need to use apply_procedure_with_values for procedures
-    // For now, use eval_with_func which should work if args are already evaluated
-    return eval_with_func(func_obj, &dummy_list);
-  } else {
-    eval_error("scm_apply_0: expected procedure or function");
-    return nullptr;
-  }
+  return scm_call_with_list(proc, args_list);
 }
 
 void init_apply() {
@@ -171,172 +109,37 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
   }
   
-  // Arguments are NOT evaluated when coming from eval.cc (whether as symbol or function value)
-  // They are only evaluated when this is a recursive call from within eval_apply itself
-  // For now, always evaluate arguments
-  bool args_evaluated = false;
-  
   // Evaluate the procedure
   SCM *proc = eval_with_env(env, l->next->data);
   
-  // When args are evaluated, proc might already be a procedure or continuation
-  // But we still need to check
-  if (!is_proc(proc) && !is_func(proc) && !is_cont(proc)) {
+  if (!is_callable(proc) && !is_smob(proc)) {
     eval_error("apply: first argument must be a procedure");
   }
   
-  // Collect all arguments before the last one
-  SCM_List *args_before_last = l->next->next;
-  SCM_List *last_arg_node = nullptr;
-  
-  // Find the last argument (which should be a list)
-  if (!args_before_last) {
+  SCM_List *operands = l->next->next;
+  if (!operands) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
   }
   
-  SCM_List *current = args_before_last;
-  while (current->next) {
-    current = current->next;
+  // Evaluate the arguments from left to right
+  SCM_List *values = eval_list_with_env(env, operands);
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (; values->next; values = values->next) {
+    tail->next = make_list(values->data);
+    tail = tail->next;
   }
-  last_arg_node = current;
   
-  // Evaluate or use the last argument (should be a list)
-  SCM *last_arg;
-  if (args_evaluated) {
-    // Arguments are already evaluated
-    last_arg = last_arg_node->data;
-  } else {
-    // Evaluate the last argument (should be a list)
-    last_arg = eval_with_env(env, last_arg_node->data);
-  }
+  // The last argument should be a list
+  SCM *last_arg = values->data;
   if (!is_pair(last_arg) && !is_nil(last_arg)) {
     eval_error("apply: last argument must be a list");
   }
-  
-  // Build the combined argument list
-  // First, evaluate or use all arguments before the last one
-  SCM_List args_dummy = make_list_dummy();
-  SCM_List *args_tail = &args_dummy;
-  
-  current = args_before_last;
-  while (current != last_arg_node) {
-    SCM *arg_val;
-    if (args_evaluated) {
-      arg_val = current->data; // Already evaluated
-    } else {
-      // Wrap the value in quote to prevent double evaluation
-      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
-    }
-    SCM_List *node = make_list(arg_val);
-    args_tail->next = node;
-    args_tail = node;
-    current = current->next;
-  }
-  
-  // Then append all elements from the last argument list
   if (is_pair(last_arg)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg);
-    while (last_list) {
-      SCM *elem;
-      if (args_evaluated) {
-        // Arguments are already evaluated, use directly
-        elem = last_list->data;
-      } else {
-        // Wrap each element in quote to prevent double evaluation
-        elem = scm_list2(scm_sym_quote(), last_list->data);
-      }
-      SCM_List *node = make_list(elem);
-      args_tail->next = node;
-      args_tail = node;
-      last_list = last_list->next;
-    }
-  } else if (args_evaluated && !is_nil(last_arg)) {
-    // When args are evaluated and last_arg is not a pair, it might be a single value
-    // This shouldn't happen for apply, but handle it gracefully
-    SCM_List *node = make_list(last_arg);
-    args_tail->next = node;
-  }
-  
-  // Apply the procedure with the combined arguments
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    return apply_procedure(env, proc_obj, args_dummy.next);
-  } else if (is_func(proc)) {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    // Special handling for apply: if apply is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "apply") == 0) {
-      // This is apply being applied - construct a call list and use eval_apply
-      // args_dummy.next contains the arguments for apply: (proc arg1 arg2 ... args-list)
-      // We need to mark that arguments are already evaluated
-      SCM_List apply_call;
-      apply_call.data = proc;
-      apply_call.next = args_dummy.next;
-      // Mark that arguments are already evaluated by setting args_evaluated flag
-      // But we can't pass that flag, so we need to detect it in eval_apply
-      // Actually, we can detect it by checking if l->data is a function (not a symbol)
-      return eval_apply(env, &apply_call);
-    }
-    // Special handling for map: if map is being applied, we need to handle it specially
-    if (func_obj->name && strcmp(func_obj->name->data, "map") == 0) {
-      // This is map being applied - construct a call list and use eval_map
-      // args_dummy.next contains the arguments for map: (proc list1 list2 ...)
-      SCM_List map_call;
-      map_call.data = proc;
-      map_call.next = args_dummy.next;
-      return eval_map(env, &map_call);
+    for (SCM_List *it = cast<SCM_List>(last_arg); it; it = it->next) {
+      tail->next = make_list(it->data);
+      tail = tail->next;
     }
-    // Special handling for call-with-current-continuation: if it's being applied, handle it specially
-    if (func_obj->name && (strcmp(func_obj->name->data, "call-with-current-continuation") == 0 || 
-                           strcmp(func_obj->name->data, "call/cc") == 0)) {
-      // This is call-with-current-continuation being applied
-      // args_dummy.next should contain a single argument (the procedure)
-      if (!args_dummy.next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        return nullptr;
-      }
-      // The argument might be wrapped in quote, so we need to evaluate it
-      SCM *proc_arg_expr = args_dummy.next->data;
-      SCM *proc_arg = eval_with_env(env, proc_arg_expr);
-      if (!proc_arg) {
-        eval_error("call-with-current-continuation: failed to evaluate argument");
-        return nullptr;
-      }
-      if (!is_proc(proc_arg) && !is_func(proc_arg)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        return nullptr;
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        return cont;
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      if (is_proc(proc_arg)) {
-        return apply_procedure(env, cast<SCM_Procedure>(proc_arg), cont_list);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc_arg;
-        func_call.next = evaled_args;
-        return eval_with_func(cast<SCM_Function>(proc_arg), &func_call);
-      }
-    }
-    SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = evaled_args;
-    return eval_with_func(func_obj, &func_call);
-  } else if (is_cont(proc)) {
-    // A continuation receives the arguments as values
-    scm_dynthrow(proc, scm_c_values(eval_list_with_env(env, args_dummy.next)));
-    return nullptr; // Never reached
-  } else {
-    eval_error("apply: first argument must be a procedure");
-    return nullptr; // Never reached
   }
+  return scm_call_with_list(proc, dummy.next);
 }
-
diff --git a/src/c/delay.cc b/src/c/delay.cc
index 8d4e83e..d04f33b 100644
--- a/src/c/delay.cc
+++ b/src/c/delay.cc
@@ -75,24 +75,7 @@ SCM *scm_c_force(SCM *promise_scm) {
   // This allows re-entrant `force` calls during evaluation to set the
   // final value first, just like the R5RS `make-promise` reference
   // implementation.
-  SCM *result = nullptr;
-  if (is_proc(thunk)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(thunk);
-    // Call procedure with no arguments in the environment where it was created
-    SCM_List *no_args = nullptr;
-    SCM_Environment *proc_env = proc->env ? proc->env : &g_env;
-    result = apply_procedure(proc_env, proc, no_args);
-  } else if (is_func(thunk)) {
-    SCM_Function *func = cast<SCM_Function>(thunk);
-    // Build a call list: (thunk)
-    SCM_List call;
-    call.data = thunk;
-    call.next = nullptr;
-    call.is_dotted = false;
-    result = eval_with_func(func, &call);
-  } else {
-    eval_error("force: invalid promise thunk");
-  }
+  SCM *result = scm_call_with_list(thunk, nullptr);
 
   // Re-entrant `force` may have completed and set the final value while
   // we were evaluating `thunk`. In that case, do not overwrite it; just
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 022cc44..d24a755 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -31,10 +31,6 @@ static SCM_List *common_wind_chain(SCM_List *a, SCM_List *b) {
   return a;
 }
 
-static void call_guard(SCM *guard) {
-  apply_procedure(&g_env, cast<SCM_Procedure>(guard), nullptr);
-}
-
 // Leave the dynamic-winds that are not in target, innermost first. An out guard runs outside of
 // the dynamic-wind it belongs to.
 void scm_unwind_to(SCM_List *target) {
@@ -43,7 +39,7 @@ void scm_unwind_to(SCM_List *target) {
     SCM_List *entry = cast<SCM_List>(g_wind_chain->data);
     g_wind_chain = g_wind_chain->next;
     scm_drop_inner_catches(g_wind_chain);
-    call_guard(entry->next->data);
+    scm_call_with_list(entry->next->data, nullptr);
   }
 }
 
@@ -54,7 +50,7 @@ static void enter_winds(SCM_List *target) {
   }
   enter_winds(target->next);
   SCM_List *entry = cast<SCM_List>(target->data);
-  call_guard(entry->data);
+  scm_call_with_list(entry->data, nullptr);
   g_wind_chain = target;
 }
 
@@ -74,13 +70,12 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   SCM *out_guard_val = eval_with_env(env, l->next->next->next->data);
   
   // Verify they are procedures
-  if (!is_proc(in_guard_val) || !is_proc(thunk_val) || !is_proc(out_guard_val)) {
+  if (!is_callable(in_guard_val) || !is_callable(thunk_val) || !is_callable(out_guard_val)) {
     eval_error("dynamic-wind: all arguments must be procedures");
   }
   
   // Call in_guard
-  auto in_guard_proc = cast<SCM_Procedure>(in_guard_val);
-  apply_procedure(env, in_guard_proc, nullptr);
+  scm_call_with_list(in_guard_val, nullptr);
   
   // Create wind entry: (in_guard . out_guard)
   auto wind_entry = make_list(in_guard_val);
@@ -94,15 +89,23 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   g_wind_chain = new_wind_entry;
   
   // Call thunk
-  auto thunk_proc = cast<SCM_Procedure>(thunk_val);
-  SCM *result = apply_procedure(env, thunk_proc, nullptr);
+  SCM *result = scm_call_with_list(thunk_val, nullptr);
   
   // Restore old wind chain
   g_wind_chain = old_wind_chain;
   
   // Call out_guard
-  auto out_guard_proc = cast<SCM_Procedure>(out_guard_val);
-  apply_procedure(env, out_guard_proc, nullptr);
+  scm_call_with_list(out_guard_val, nullptr);
   
   return result;
 }
+
+// dynamic-wind as a value: eval handles the call itself
+SCM *scm_c_dynamic_wind(SCM_List *args) {
+  eval_error("dynamic-wind: internal error - should be handled as special form");
+  return nullptr;
+}
+
+void init_dynamic_wind() {
+  scm_define_vararg_function("dynamic-wind", scm_c_dynamic_wind);
+}
diff --git a/src/c/eval.cc b/src/c/eval.cc
index ad168ac..5840b2c 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -403,13 +403,6 @@ entry:
       ast = expand_letrec(ast);
       goto entry;
     }
-    else if (is_sym_val(l->data, "call/cc") || is_sym_val(l->data, "call-with-current-continuation")) {
-      auto ret = eval_call_cc(env, l, &ast);
-      if (ret) {
-        RETURN_WITH_CONTEXT(ret);
-      }
-      goto entry;
-    }
     else if (is_sym_val(l->data, "lambda")) {
       SCM *result = eval_lambda(env, l);
       RETURN_WITH_CONTEXT(result);
@@ -481,34 +474,10 @@ entry:
       }
       RETURN_WITH_CONTEXT(result);
     }
-    else if (is_sym_val(l->data, "for-each")) {
-      SCM *result = eval_for_each(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
     else if (is_sym_val(l->data, "do")) {
       SCM *result = eval_do(env, l);
       RETURN_WITH_CONTEXT(result);
     }
-    else if (is_sym_val(l->data, "map")) {
-      SCM *result = eval_map(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    else if (is_sym_val(l->data, "map-in-order")) {
-      SCM *result = eval_map(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    else if (is_sym_val(l->data, "apply")) {
-      SCM *result = eval_apply(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    else if (is_sym_val(l->data, "call-with-values")) {
-      SCM *result = eval_call_with_values(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    else if (is_sym_val(l->data, "dynamic-wind")) {
-      SCM *result = eval_dynamic_wind(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
     else {
       // Variable reference: resolve symbol and build call expression
       // (val was already looked up above for macro check)
@@ -621,6 +590,18 @@ entry:
       SCM *result = eval_map(env, l);
       RETURN_WITH_CONTEXT(result);
     }
+    if (func->name && strcmp(func->name->data, "for-each") == 0) {
+      SCM *result = eval_for_each(env, l);
+      RETURN_WITH_CONTEXT(result);
+    }
+    if (func->name && strcmp(func->name->data, "call-with-values") == 0) {
+      SCM *result = eval_call_with_values(env, l);
+      RETURN_WITH_CONTEXT(result);
+    }
+    if (func->name && strcmp(func->name->data, "dynamic-wind") == 0) {
+      SCM *result = eval_dynamic_wind(env, l);
+      RETURN_WITH_CONTEXT(result);
+    }
     if (func->name && strcmp(func->name->data, "map-in-order") == 0) {
       // For map-in-order, when called as a function value, arguments are already evaluated
       // We need to pass them to eval_map, which will handle them correctly
@@ -630,44 +611,11 @@ entry:
     }
     if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
                        strcmp(func->name->data, "call/cc") == 0)) {
-      // For call-with-current-continuation, when called as a function value, arguments are already evaluated
-      // We need to handle it specially, similar to how it's handled as a special form
-      // l->data is the call-with-current-continuation function, l->next contains the already-evaluated arguments
-      if (!l->next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // The argument is already evaluated, so we can use it directly
-      // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
-      if (!is_proc(proc) && !is_func(proc)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        RETURN_WITH_CONTEXT(cont);
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      SCM_List proc_call;
-      proc_call.data = proc;
-      proc_call.next = cont_list;
-      if (is_proc(proc)) {
-        SCM *result = apply_procedure(env, cast<SCM_Procedure>(proc), cont_list);
-        RETURN_WITH_CONTEXT(result);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc;
-        func_call.next = evaled_args;
-        SCM *result = eval_with_func(cast<SCM_Function>(proc), &func_call);
+      SCM *result = eval_call_cc(env, l, &ast);
+      if (result) {
         RETURN_WITH_CONTEXT(result);
       }
+      goto entry;
     }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
diff --git a/src/c/eval.h b/src/c/eval.h
index fd61de1..f2130ec 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -24,6 +24,10 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l);
 // call-with-values special form
 SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l);
 SCM *scm_c_values(SCM_List *args);
+SCM *scm_call_with_list(SCM *proc, SCM_List *args);
+inline bool is_callable(SCM *p) {
+  return is_proc(p) || is_func(p) || is_cont(p);
+}
 
 // dynamic-wind special form
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 44e1fc1..6616a28 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -37,7 +37,7 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
-  if (!is_proc(f) && !is_func(f)) {
+  if (!is_callable(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
@@ -99,22 +99,14 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
     args_dummy.data = f;
     auto args_tail = &args_dummy;
     
-    // Build argument list with quoted arguments and advance list pointers
+    // Build argument list and advance list pointers
     for (int i = 0; i < arg_count; i++) {
-      // Wrap argument in quote to avoid re-evaluation
-      auto quoted_arg = scm_list2(scm_sym_quote(), arg_lists[i]->data);
-      auto arg_node = make_list(quoted_arg);
+      auto arg_node = make_list(arg_lists[i]->data);
       args_tail->next = arg_node;
       args_tail = arg_node;
       arg_lists[i] = arg_lists[i]->next;
     }
 
-    // Build and evaluate call expression
-    SCM call_expr;
-    call_expr.type = SCM::LIST;
-    call_expr.value = &args_dummy;
-    call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-    
     if (debug_enabled) {
       SCM_DEBUG_EVAL("for-each ");
       print_ast(f);
@@ -133,9 +125,19 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
       printf("\n");
     }
     
-    eval_with_env(env, &call_expr);
+    scm_call_with_list(f, args_dummy.next);
   }
 
   return scm_none();
 }
 
+
+// for-each as a value: eval handles the call itself
+SCM *scm_c_for_each(SCM_List *args) {
+  eval_error("for-each: internal error - should be handled as special form");
+  return nullptr;
+}
+
+void init_for_each() {
+  scm_define_vararg_function("for-each", scm_c_for_each);
+}
diff --git a/src/c/init.cc b/src/c/init.cc
index 7870fc8..0279098 100644
--- a/src/c/init.cc
+++ b/src/c/init.cc
@@ -28,6 +28,8 @@ void init_scm() {
   init_eval();
   init_macro();  // Initialize macro functions (macroexpand-1, macroexpand)
   init_values();
+  init_for_each();
+  init_dynamic_wind();
   init_hash_table();
   init_procedure();
   init_vector();
diff --git a/src/c/map.cc b/src/c/map.cc
index 1f76d3b..29f3770 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -36,7 +36,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   SCM *proc = eval_with_env(env, l->next->data);
   
   // Check if proc is a procedure
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("map: first argument must be a procedure");
   }
   
@@ -69,14 +69,13 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     }
     
     // Collect one element from each list, and the rest of each list
-    // Wrap each element in quote to prevent evaluation
     SCM_List args_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
     SCM_List rest_dummy = make_list_dummy();
     SCM_List *rest_tail = &rest_dummy;
     for (SCM_List *it = cursors; it; it = it->next) {
       SCM_List *list = cast<SCM_List>(it->data);
-      args_tail->next = make_list(scm_list2(scm_sym_quote(), list->data));
+      args_tail->next = make_list(list->data);
       args_tail = args_tail->next;
       rest_tail->next = make_list(list->next ? wrap(list->next) : scm_nil());
       rest_tail = rest_tail->next;
@@ -84,20 +83,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     cursors = rest_dummy.next;
     
     // Apply proc to collected arguments
-    SCM *result;
-    if (is_proc(proc)) {
-      SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-      result = apply_procedure(env, proc_obj, args_dummy.next);
-    } else if (is_func(proc)) {
-      SCM_Function *func_obj = cast<SCM_Function>(proc);
-      SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
-      SCM_List func_call;
-      func_call.data = proc;
-      func_call.next = evaled_args;
-      result = eval_with_func(func_obj, &func_call);
-    } else {
-      eval_error("map: first argument must be a procedure");
-    }
+    SCM *result = scm_call_with_list(proc, args_dummy.next);
     
     // Add result to the reversed result list
     SCM_List *node = make_list(result);
diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..03d947f 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -24,19 +24,7 @@ static SCM *call_soft_port_thunk(SCM *proc) {
     return nullptr;
   }
   
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    return apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, nullptr);
-  } else if (is_func(proc)) {
-    SCM_Function *func = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = nullptr;
-    func_call.is_dotted = false;
-    return eval_with_func(func, &func_call);
-  }
-  
-  return nullptr;
+  return scm_call_with_list(proc, nullptr);
 }
 
 // EOF object singleton
@@ -372,20 +360,7 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     // Call the procedure with the character
     SCM *char_obj = scm_from_char(ch);
-    SCM_List proc_args;
-    proc_args.data = char_obj;
-    proc_args.next = nullptr;
-    proc_args.is_dotted = false;
-    if (is_proc(write_char_proc)) {
-      SCM_Procedure *proc = cast<SCM_Procedure>(write_char_proc);
-      apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-    } else if (is_func(write_char_proc)) {
-      SCM_Function *func = cast<SCM_Function>(write_char_proc);
-      SCM_List func_call;
-      func_call.data = write_char_proc;
-      func_call.next = &proc_args;
-      eval_with_func(func, &func_call);
-    }
+    scm_call_with_list(write_char_proc, make_list(char_obj));
   }
 }
 
@@ -926,7 +901,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-input-file: second argument must be a procedure");
     return nullptr;
   }
@@ -938,22 +913,7 @@ SCM *scm_c_call_with_input_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = scm_call_with_list(proc, make_list(port));
   
   // Close the port
   scm_c_close_input_port(port);
@@ -976,7 +936,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-output-file: second argument must be a procedure");
     return nullptr;
   }
@@ -988,22 +948,7 @@ SCM *scm_c_call_with_output_file(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = scm_call_with_list(proc, make_list(port));
   
   // Close the port
   scm_c_close_output_port(port);
@@ -1026,7 +971,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
     return nullptr;
   }
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-input-string: second argument must be a procedure");
     return nullptr;
   }
@@ -1038,22 +983,7 @@ SCM *scm_c_call_with_input_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = scm_call_with_list(proc, make_list(port));
   
   // Port is automatically cleaned up (no explicit close needed for string ports)
   
@@ -1069,7 +999,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   
   SCM *proc = args->data;
   
-  if (!is_proc(proc) && !is_func(proc)) {
+  if (!is_callable(proc)) {
     eval_error("call-with-output-string: argument must be a procedure");
     return nullptr;
   }
@@ -1081,22 +1011,7 @@ SCM *scm_c_call_with_output_string(SCM_List *args) {
   }
   
   // Call the procedure with the port
-  SCM_List proc_args;
-  proc_args.data = port;
-  proc_args.next = nullptr;
-  proc_args.is_dotted = false;
-  
-  SCM *result;
-  if (is_proc(proc)) {
-    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
-    result = apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
-  } else {
-    SCM_Function *func_obj = cast<SCM_Function>(proc);
-    SCM_List func_call;
-    func_call.data = proc;
-    func_call.next = &proc_args;
-    result = eval_with_func(func_obj, &func_call);
-  }
+  SCM *result = scm_call_with_list(proc, make_list(port));
   
   // Get the output string
   SCM *output_str = scm_c_get_output_string(port);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c85b8cf..9d3297c 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -960,6 +960,8 @@ void init_delay();
 void init_eval();
 void init_macro();
 void init_values();
+void init_for_each();
+void init_dynamic_wind();
 void init_hash_table();
 void init_procedure();
 void init_vector();
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 61870fd..05e0878 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -308,25 +308,12 @@ SCM *scm_internal_lazy_catch(SCM *tag,
 
 // Body function for Scheme catch (thunk)
 static SCM *scm_body_thunk(void *body_data) {
-  SCM *thunk = (SCM *)body_data;
-  if (!is_proc(thunk)) {
-    eval_error("catch: thunk must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(thunk);
-  // Use the procedure's environment if available, otherwise use g_env
-  // The procedure's environment captures the lexical scope where it was defined
-  SCM_Environment *env = proc->env ? proc->env : &g_env;
-  return apply_procedure(env, proc, nullptr);
+  return scm_call_with_list((SCM *)body_data, nullptr);
 }
 
 // Handler function for Scheme catch
 static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
   SCM *handler = (SCM *)handler_data;
-  if (!is_proc(handler)) {
-    eval_error("catch: handler must be a procedure");
-  }
-  SCM_Procedure *proc = cast<SCM_Procedure>(handler);
-  
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
   if (args) {
@@ -345,8 +332,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
     }
   }
   
-  // Use apply_procedure_with_values because arguments are already evaluated
-  return apply_procedure_with_values(proc->env, proc, arg_list);
+  return scm_call_with_list(handler, arg_list);
 }
 
 // Scheme-callable catch function
@@ -366,10 +352,10 @@ SCM *scm_c_catch_scheme(SCM_List *args) {
   }
   
   // Verify thunk and handler are procedures
-  if (!is_proc(thunk)) {
+  if (!is_callable(thunk)) {
     eval_error("catch: thunk must be a procedure");
   }
-  if (!is_proc(handler)) {
+  if (!is_callable(handler)) {
     eval_error("catch: handler must be a procedure");
   }
   
diff --git a/src/c/values.cc b/src/c/values.cc
index f19d2e0..591b69d 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -44,24 +44,13 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Evaluate producer
   SCM *producer = eval_with_env(env, l->next->data);
-  if (!is_proc(producer) && !is_func(producer)) {
+  if (!is_callable(producer)) {
     eval_error("call-with-values: first argument must be a procedure");
     return nullptr;
   }
   
   // Call producer to get values
-  SCM *values_result;
-  if (is_proc(producer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(producer);
-    values_result = apply_procedure(env, proc, nullptr);
-  } else {
-    // Function - need to call it
-    SCM_Function *func = cast<SCM_Function>(producer);
-    SCM_List func_call;
-    func_call.data = producer;
-    func_call.next = nullptr;
-    values_result = eval_with_func(func, &func_call);
-  }
+  SCM *values_result = scm_call_with_list(producer, nullptr);
   
   // Multiple values are a list made by values
   SCM_List *values_list;
@@ -76,27 +65,23 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
   
   // Get consumer
   SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_proc(consumer) && !is_func(consumer)) {
+  if (!is_callable(consumer)) {
     eval_error("call-with-values: second argument must be a procedure");
     return nullptr;
   }
   
   // Apply consumer to the values
-  // Build argument list from values_list
-  if (is_proc(consumer)) {
-    SCM_Procedure *proc = cast<SCM_Procedure>(consumer);
-    return apply_procedure_with_values(env, proc, values_list);
-  } else {
-    // Function - need to call it with the values
-    SCM_Function *func = cast<SCM_Function>(consumer);
-    SCM_List func_call;
-    func_call.data = consumer;
-    func_call.next = values_list;
-    return eval_with_func(func, &func_call);
-  }
+  return scm_call_with_list(consumer, values_list);
+}
+
+// call-with-values as a value: eval handles the call itself
+SCM *scm_c_call_with_values(SCM_List *args) {
+  eval_error("call-with-values: internal error - should be handled as special form");
+  return nullptr;
 }
 
 void init_values() {
+  scm_define_vararg_function("call-with-values", scm_c_call_with_values);
   gc_register_root(&g_multiple_values, "g_multiple_values");
   scm_define_vararg_function("values", scm_c_values);
 }
-- 
2.43.0


From ba27e24cb952c1bbadab5a7b3f9f0922828f99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 019/105] fix: invoking a continuation reads the active catches
 before it overwrites the stack

---
 src/c/continuation.cc |  1 +
 src/c/throw.cc        | 17 ++++++++++-------
 src/c/throw.h         |  1 +
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index a9b6984..dd98ae5 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -108,6 +108,7 @@ void scm_dynthrow(SCM *cont, SCM *args) {
   if (dst <= &stack_top_element) {
     grow_stack(cont, args);
   }
+  scm_drop_stack_catches();
   copy_stack_and_call(continuation, args, dst);
 }
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 05e0878..581b827 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -48,18 +48,21 @@ struct catch_info *scm_save_catches() {
   return g_catch_top;
 }
 
-// Called when the stack of the continuation is in place. Catches outside of the copied part of
-// the stack are those of the caller.
-void scm_restore_catches(struct catch_info *saved) {
-  struct catch_info *outer = g_catch_top;
-  while (outer && (long *)outer < cont_base) {
-    outer = outer->prev;
+// Called before a continuation overwrites the stack: only the catches outside of the part of the
+// stack that continuations copy stay active
+void scm_drop_stack_catches() {
+  while (g_catch_top && (long *)g_catch_top < cont_base) {
+    g_catch_top = g_catch_top->prev;
   }
+}
+
+// Called when the stack of the continuation is in place
+void scm_restore_catches(struct catch_info *saved) {
   struct catch_info **link = &saved;
   while (*link && (long *)*link < cont_base) {
     link = &(*link)->prev;
   }
-  *link = outer;
+  *link = g_catch_top;
   g_catch_top = saved;
 }
 
diff --git a/src/c/throw.h b/src/c/throw.h
index 282fcf2..33afa48 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -13,6 +13,7 @@ typedef SCM *(*scm_t_catch_handler)(void *data, SCM *tag, SCM *args);
 
 // Active catches across continuations and dynamic-winds
 struct catch_info *scm_save_catches();
+void scm_drop_stack_catches();
 void scm_restore_catches(struct catch_info *saved);
 void scm_drop_inner_catches(SCM_List *wind_chain);
 
-- 
2.43.0


From 6367d5b0b5d8a4d0adc421a3657c17e0820e91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 020/105] fix: a handler receives no extra argument for a throw
 without arguments

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 581b827..9888488 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -319,7 +319,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
   SCM *handler = (SCM *)handler_data;
   // Build argument list: (tag . args)
   SCM_List *arg_list = make_list(tag);
-  if (args) {
+  if (args && !is_nil(args)) {
     if (is_pair(args)) {
       SCM_List *args_list = cast<SCM_List>(args);
       SCM_List *current = args_list;
-- 
2.43.0


From 88f710cf7074b9ac286cc556f67ba8f58a78cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 021/105] fix: native higher-order procedures receive evaluated
 arguments, and evaluation does not modify the form

---
 src/c/apply.cc        | 53 ++++++++++---------------------
 src/c/continuation.cc | 23 ++++++++++----
 src/c/dynwind.cc      | 19 ++----------
 src/c/eval.cc         | 72 +++----------------------------------------
 src/c/eval.h          | 13 --------
 src/c/for_each.cc     | 27 +++++++---------
 src/c/function.cc     | 17 ----------
 src/c/map.cc          | 43 ++++----------------------
 src/c/values.cc       | 29 ++++-------------
 9 files changed, 64 insertions(+), 232 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 3f641bd..4aaed84 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -1,17 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Wrapper function for apply as a builtin function
-// This function is called when apply is used as a value (not as a special form)
-// It receives already-evaluated arguments, but apply needs to handle evaluation itself
-// So we create a dummy function that will be handled specially in eval.cc
-SCM *scm_c_apply(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("apply: internal error - should be handled as special form");
-  return nullptr;
-}
-
 // Call a procedure of any kind with argument values. They are not evaluated again.
 SCM *scm_call_with_list(SCM *proc, SCM_List *args) {
   if (is_proc(proc)) {
@@ -26,8 +15,11 @@ SCM *scm_call_with_list(SCM *proc, SCM_List *args) {
     eval_error("expected a procedure");
     return nullptr;
   }
-  // Some functions evaluate their operands themselves
   SCM_List *call = make_list(proc);
+  if (is_func(proc)) {
+    call->next = args;
+    return eval_with_func(cast<SCM_Function>(proc), call);
+  }
   SCM_List *tail = call;
   for (; args; args = args->next) {
     tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
@@ -97,49 +89,38 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   return scm_call_with_list(proc, args_list);
 }
 
-void init_apply() {
-  scm_define_vararg_function("apply", scm_c_apply);
-}
-
-// Helper function for apply special form
 // (apply proc arg1 arg2 ... args-list) -> apply proc to (arg1 arg2 ... args-list elements)
-// When called as a function value, l->next contains already-evaluated arguments
-SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
-  if (!l->next) {
+SCM *scm_c_apply(SCM_List *args) {
+  if (!args || !args->next) {
     eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
+    return nullptr;
   }
-  
-  // Evaluate the procedure
-  SCM *proc = eval_with_env(env, l->next->data);
-  
+  SCM *proc = args->data;
   if (!is_callable(proc) && !is_smob(proc)) {
     eval_error("apply: first argument must be a procedure");
   }
-  
-  SCM_List *operands = l->next->next;
-  if (!operands) {
-    eval_error("apply: requires at least 2 arguments (procedure and arguments list)");
-  }
-  
-  // Evaluate the arguments from left to right
-  SCM_List *values = eval_list_with_env(env, operands);
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
-  for (; values->next; values = values->next) {
-    tail->next = make_list(values->data);
+  SCM_List *it = args->next;
+  for (; it->next; it = it->next) {
+    tail->next = make_list(it->data);
     tail = tail->next;
   }
   
   // The last argument should be a list
-  SCM *last_arg = values->data;
+  SCM *last_arg = it->data;
   if (!is_pair(last_arg) && !is_nil(last_arg)) {
     eval_error("apply: last argument must be a list");
   }
   if (is_pair(last_arg)) {
-    for (SCM_List *it = cast<SCM_List>(last_arg); it; it = it->next) {
+    for (it = cast<SCM_List>(last_arg); it; it = it->next) {
       tail->next = make_list(it->data);
       tail = tail->next;
     }
   }
   return scm_call_with_list(proc, dummy.next);
 }
+
+void init_apply() {
+  scm_define_vararg_function("apply", scm_c_apply);
+}
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index dd98ae5..78bad40 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -126,13 +126,24 @@ void grow_stack(SCM *cont, SCM *args) {
   scm_dynthrow(cont, args);
 }
 
-// Wrapper function for call-with-current-continuation as a builtin function
-// This function is called when call-with-current-continuation is used as a value (not as a special form)
+// call-with-current-continuation: call the procedure with the continuation of the call
 SCM *scm_c_call_with_current_continuation(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("call-with-current-continuation: internal error - should be handled as special form");
-  return nullptr;
+  if (!args || args->next || !is_callable(args->data)) {
+    eval_error("call-with-current-continuation: requires 1 argument (procedure)");
+    return nullptr;
+  }
+  int first;
+  auto cont = scm_make_continuation(&first);
+  SCM_DEBUG_CONT("jump back: ");
+  if (!first) {
+    if (debug_enabled) {
+      printf("cont is ");
+      print_ast(cont);
+      printf("\n");
+    }
+    return cont;
+  }
+  return scm_call_with_list(args->data, make_list(cont));
 }
 
 void init_continuation() {
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index d24a755..bbc2276 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -60,15 +60,8 @@ void scm_rewind_to(SCM_List *target) {
   enter_winds(target);
 }
 
-// Dynamic-wind special form handler
-SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  check_syntax(l->next && l->next->next && l->next->next->next, "dynamic-wind");
-  
-  // Evaluate the three arguments: in_guard, thunk, out_guard
-  SCM *in_guard_val = eval_with_env(env, l->next->data);
-  SCM *thunk_val = eval_with_env(env, l->next->next->data);
-  SCM *out_guard_val = eval_with_env(env, l->next->next->next->data);
-  
+// dynamic-wind: Call the thunk between calls of the guards
+SCM *scm_c_dynamic_wind(SCM *in_guard_val, SCM *thunk_val, SCM *out_guard_val) {
   // Verify they are procedures
   if (!is_callable(in_guard_val) || !is_callable(thunk_val) || !is_callable(out_guard_val)) {
     eval_error("dynamic-wind: all arguments must be procedures");
@@ -100,12 +93,6 @@ SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
   return result;
 }
 
-// dynamic-wind as a value: eval handles the call itself
-SCM *scm_c_dynamic_wind(SCM_List *args) {
-  eval_error("dynamic-wind: internal error - should be handled as special form");
-  return nullptr;
-}
-
 void init_dynamic_wind() {
-  scm_define_vararg_function("dynamic-wind", scm_c_dynamic_wind);
+  scm_define_function("dynamic-wind", 3, 0, 0, scm_c_dynamic_wind);
 }
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 5840b2c..e78ca21 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -239,30 +239,6 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
   return scm_bool_false();
 }
 
-// Helper function for call/cc special form
-static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  check_syntax(l->next, "call/cc");
-  auto proc = eval_with_env(env, l->next->data);
-  int first;
-  auto cont = scm_make_continuation(&first);
-  SCM_DEBUG_CONT("jump back: ");
-  if (!first) {
-    if (debug_enabled) {
-      printf("cont is ");
-      print_ast(cont);
-      printf("\n");
-    }
-    return cont;
-  }
-  *ast = scm_list2(proc, cont);
-  if (debug_enabled) {
-    print_ast(*ast);
-    printf("\n");
-  }
-  return nullptr; // Signal to continue evaluation
-}
-
-
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -575,48 +551,6 @@ entry:
   }
   else if (is_func(l->data)) {
     auto func = cast<SCM_Function>(l->data);
-    // Special handling for apply: it needs access to environment and handles argument evaluation itself
-    if (func->name && strcmp(func->name->data, "apply") == 0) {
-      // For apply, when called as a function value, arguments are already evaluated
-      // We need to pass them to eval_apply, which will handle them correctly
-      // l->data is the apply function, l->next contains the already-evaluated arguments
-      SCM *result = eval_apply(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && strcmp(func->name->data, "map") == 0) {
-      // For map, when called as a function value, arguments are already evaluated
-      // We need to pass them to eval_map, which will handle them correctly
-      // l->data is the map function, l->next contains the already-evaluated arguments
-      SCM *result = eval_map(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && strcmp(func->name->data, "for-each") == 0) {
-      SCM *result = eval_for_each(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && strcmp(func->name->data, "call-with-values") == 0) {
-      SCM *result = eval_call_with_values(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && strcmp(func->name->data, "dynamic-wind") == 0) {
-      SCM *result = eval_dynamic_wind(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && strcmp(func->name->data, "map-in-order") == 0) {
-      // For map-in-order, when called as a function value, arguments are already evaluated
-      // We need to pass them to eval_map, which will handle them correctly
-      // l->data is the map-in-order function, l->next contains the already-evaluated arguments
-      SCM *result = eval_map(env, l);
-      RETURN_WITH_CONTEXT(result);
-    }
-    if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
-                       strcmp(func->name->data, "call/cc") == 0)) {
-      SCM *result = eval_call_cc(env, l, &ast);
-      if (result) {
-        RETURN_WITH_CONTEXT(result);
-      }
-      goto entry;
-    }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
       SCM_DEBUG_EVAL(" ");
@@ -627,8 +561,10 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    // The form may be evaluated again, so it is not modified
+    auto call = make_list(l->data);
+    call->next = func_argl;
+    SCM *result = eval_with_func(func, call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
diff --git a/src/c/eval.h b/src/c/eval.h
index f2130ec..a787973 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -12,25 +12,12 @@ inline void check_syntax(bool ok, const char *form) {
 // do special form
 SCM *eval_do(SCM_Environment *env, SCM_List *l);
 
-// map special form
-SCM *eval_map(SCM_Environment *env, SCM_List *l);
-
-// for-each special form
-SCM *eval_for_each(SCM_Environment *env, SCM_List *l);
-
-// apply special form
-SCM *eval_apply(SCM_Environment *env, SCM_List *l);
-
-// call-with-values special form
-SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l);
 SCM *scm_c_values(SCM_List *args);
 SCM *scm_call_with_list(SCM *proc, SCM_List *args);
 inline bool is_callable(SCM *p) {
   return is_proc(p) || is_func(p) || is_cont(p);
 }
 
-// dynamic-wind special form
-SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l);
 long scm_wind_depth(SCM_List *chain);
 void scm_unwind_to(SCM_List *target);
 void scm_rewind_to(SCM_List *target);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 6616a28..ceff434 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -17,8 +17,6 @@ static inline bool is_list_exhausted(SCM_List *list) {
   return list == nullptr;
 }
 
-// Helper function for for-each special form
-// 
 // for-each applies a procedure to elements of one or more lists in order.
 // Unlike map, for-each returns an unspecified value (none).
 //
@@ -32,9 +30,12 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - proc: procedure or function to apply
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
-SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  check_syntax(l->next, "for-each");
-  auto f = eval_with_env(env, l->next->data);
+SCM *scm_c_for_each(SCM_List *l) {
+  if (!l || !l->next) {
+    eval_error("for-each: requires at least 2 arguments (procedure and list)");
+    return nullptr;
+  }
+  auto f = l->data;
   int arg_count;
   
   if (!is_callable(f)) {
@@ -42,11 +43,11 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   // One argument per list, whatever parameters (optional, rest) the procedure takes
-  arg_count = count_list_length(l->next->next);
+  arg_count = count_list_length(l->next);
   
-  l = l->next->next;
+  l = l->next;
 
-  // Evaluate all argument lists and store them
+  // Store all argument lists
   // Use stack allocation with a reasonable limit to avoid heap allocation issues with continuations
   const int MAX_FOR_EACH_ARGS = 10;
   if (arg_count > MAX_FOR_EACH_ARGS) {
@@ -60,8 +61,8 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
       eval_error("args count not match, require %d, but got %d", arg_count, i);
       return nullptr;
     }
-    auto evaluated_list = eval_with_env(env, l->data);
-    // Validate that evaluated result is a list
+    auto evaluated_list = l->data;
+    // Validate that the argument is a list
     if (!is_pair(evaluated_list) && !is_nil(evaluated_list)) {
       eval_error("for-each: argument %d must be a list", i + 1);
       return nullptr;
@@ -132,12 +133,6 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
 }
 
 
-// for-each as a value: eval handles the call itself
-SCM *scm_c_for_each(SCM_List *args) {
-  eval_error("for-each: internal error - should be handled as special form");
-  return nullptr;
-}
-
 void init_for_each() {
   scm_define_vararg_function("for-each", scm_c_for_each);
 }
diff --git a/src/c/function.cc b/src/c/function.cc
index 5151adf..6330209 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -82,23 +82,6 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   }
   if (func->n_args == -2) {
     // Variable argument function (like list)
-    // Special handling for apply, map, and map-in-order: they need access to environment
-    // But we can't access env here, so these should be handled in eval.cc
-    // If they reach here, it's an error
-    if (func->name) {
-      if (strcmp(func->name->data, "apply") == 0) {
-        eval_error("apply: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map") == 0) {
-        eval_error("map: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map-in-order") == 0) {
-        eval_error("map-in-order: internal error - should be handled as special form");
-        return nullptr;
-      }
-    }
     typedef SCM *(*func_var)(SCM_List *);
     auto f = (func_var)func->func_ptr;
     return f(l->next);
diff --git a/src/c/map.cc b/src/c/map.cc
index 29f3770..8bfecab 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -1,53 +1,22 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Wrapper function for map as a builtin function
-// This function is called when map is used as a value (not as a special form)
+// map: Apply a procedure to corresponding elements of lists, and collect the results
 SCM *scm_c_map(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map: internal error - should be handled as special form");
-  return nullptr;
-}
-
-// map-in-order: Like map, but guarantees order (in pscm, map already preserves order)
-// This is essentially an alias for map, but provided for Guile compatibility
-// Wrapper function for map-in-order as a builtin function
-// This function is called when map-in-order is used as a value (not as a special form)
-SCM *scm_c_map_in_order(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map-in-order: internal error - should be handled as special form");
-  return nullptr;
-}
-
-// Helper function for map special form
-SCM *eval_map(SCM_Environment *env, SCM_List *l) {
-  if (!l->next || !l->next->next) {
+  if (!args || !args->next) {
     eval_error("map: requires at least 2 arguments (procedure and list)");
   }
-  
-  // When map is called as a special form (from eval.cc with symbol), arguments are NOT evaluated
-  // When map is called as a function value (from eval.cc with function), arguments are also NOT evaluated yet
-  // We always need to evaluate arguments first
-  // The only case where arguments might be pre-evaluated is when called from apply, but apply handles that
-  
-  // Evaluate the procedure argument
-  SCM *proc = eval_with_env(env, l->next->data);
+  SCM *proc = args->data;
   
   // Check if proc is a procedure
   if (!is_callable(proc)) {
     eval_error("map: first argument must be a procedure");
   }
   
-  if (!l->next->next) {
-    eval_error("map: requires at least one list argument");
-  }
-  
-  // Evaluate all list arguments. The positions reached in the lists and the results are kept
+  // The positions reached in the lists and the results are kept
   // in lists that are never modified, not in an array: the collector has to see them, and a
   // continuation captured by a call of proc can return more than once.
-  SCM_List *cursors = eval_list_with_env(env, l->next->next);
+  SCM_List *cursors = args->next;
   for (SCM_List *it = cursors; it; it = it->next) {
     if (!is_pair(it->data) && !is_nil(it->data)) {
       eval_error("map: list arguments must be lists");
@@ -105,5 +74,5 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
 
 void init_map() {
   scm_define_vararg_function("map", scm_c_map);
-  scm_define_vararg_function("map-in-order", scm_c_map_in_order);
+  scm_define_vararg_function("map-in-order", scm_c_map);
 }
diff --git a/src/c/values.cc b/src/c/values.cc
index 591b69d..6356b22 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -33,21 +33,17 @@ SCM *scm_c_values(SCM_List *args) {
   return g_multiple_values;
 }
 
-// Helper function for call-with-values special form
 // (call-with-values producer consumer)
 // Calls producer, gets multiple values (as a list), then applies consumer to those values
-SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
-  if (!l->next || !l->next->next) {
-    eval_error("call-with-values: requires 2 arguments (producer and consumer)");
-    return nullptr;
-  }
-  
-  // Evaluate producer
-  SCM *producer = eval_with_env(env, l->next->data);
+SCM *scm_c_call_with_values(SCM *producer, SCM *consumer) {
   if (!is_callable(producer)) {
     eval_error("call-with-values: first argument must be a procedure");
     return nullptr;
   }
+  if (!is_callable(consumer)) {
+    eval_error("call-with-values: second argument must be a procedure");
+    return nullptr;
+  }
   
   // Call producer to get values
   SCM *values_result = scm_call_with_list(producer, nullptr);
@@ -63,25 +59,12 @@ SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
     values_list = make_list(values_result);
   }
   
-  // Get consumer
-  SCM *consumer = eval_with_env(env, l->next->next->data);
-  if (!is_callable(consumer)) {
-    eval_error("call-with-values: second argument must be a procedure");
-    return nullptr;
-  }
-  
   // Apply consumer to the values
   return scm_call_with_list(consumer, values_list);
 }
 
-// call-with-values as a value: eval handles the call itself
-SCM *scm_c_call_with_values(SCM_List *args) {
-  eval_error("call-with-values: internal error - should be handled as special form");
-  return nullptr;
-}
-
 void init_values() {
-  scm_define_vararg_function("call-with-values", scm_c_call_with_values);
+  scm_define_function("call-with-values", 2, 0, 0, scm_c_call_with_values);
   gc_register_root(&g_multiple_values, "g_multiple_values");
   scm_define_vararg_function("values", scm_c_values);
 }
-- 
2.43.0


From 472d7a04778c9f5f204ef0b01941ea11b76dba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 022/105] fix: append builds improper lists and rejects
 arguments that are not lists

---
 src/c/list.cc | 106 +++++++++++---------------------------------------
 1 file changed, 22 insertions(+), 84 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..7b296e1 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -114,98 +114,36 @@ SCM *scm_append(SCM_List *args) {
     return scm_nil();
   }
   
-  // If only one argument, return it
-  if (!args->next) {
-    return args->data;
-  }
-  
-  // Special case: (append '() non-list) -> non-list
-  // Check if first argument is nil and second is not a list
-  if (is_nil(args->data) && args->next) {
-    if (!args->next->next) {
-      // Only two arguments: (append '() x) -> x
-      return args->next->data;
-    }
-  }
-  
-  // Find the last argument to check if it's a dotted pair
-  // We need to check the actual value, not the expression, so we check after
-  // processing all arguments
-  SCM_List *last_arg = args;
-  while (last_arg->next) {
-    last_arg = last_arg->next;
-  }
-  // Check if the last argument evaluates to a dotted pair
-  // This is done after we've processed all arguments, so we can check the actual value
-  bool last_is_dotted_pair = false;
-  SCM *last_cdr = nullptr;
-  if (is_pair(last_arg->data)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg->data);
-    if (_is_dotted_pair(last_list)) {
-      last_is_dotted_pair = true;
-      // Find the last node to get the cdr
-      SCM_List *last_node = last_list;
-      while (last_node->next) {
-        last_node = last_node->next;
-      }
-      last_cdr = last_node->data;
-    }
-  }
-  
-  // Build result by concatenating all lists
+  // All arguments but the last are copied
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
-  
   SCM_List *current = args;
-  while (current) {
-    if (is_pair(current->data)) {
-      SCM_List *src = cast<SCM_List>(current->data);
-      if (current == last_arg && last_is_dotted_pair) {
-        // Last argument is a dotted pair: copy car, but preserve the cdr
-        // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-        }
-        // The cdr (d) will be appended below, creating the dotted pair structure
-      } else {
-        // Regular list: copy all elements
-        while (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-          src = src->next;
-        }
-      }
-    } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
-      SCM_List *node = _copy_list_element(current->data);
-      tail->next = node;
-      tail = node;
+  for (; current->next; current = current->next) {
+    if (is_nil(current->data)) {
+      continue;
+    }
+    if (!is_pair(current->data) || _is_dotted_pair(cast<SCM_List>(current->data))) {
+      eval_error("append: expected list");
+      return nullptr;
+    }
+    for (SCM_List *src = cast<SCM_List>(current->data); src; src = src->next) {
+      tail->next = _copy_list_element(src->data);
+      tail = tail->next;
     }
-    current = current->next;
   }
   
-  // If last argument was a dotted pair, append its cdr as the final cdr
-  // This creates a dotted pair structure: the last node's next points to a node with the cdr,
-  // and that node's next is nullptr, and is_dotted = true
-  if (last_is_dotted_pair && last_cdr) {
-    // Create a node for the cdr, but don't update tail
-    // This makes tail->next point to a node with data=cdr and next=nullptr
-    // which is the structure for a dotted pair
-    SCM_List *node = _copy_list_element(last_cdr);
-    node->is_dotted = true;  // Mark as dotted pair's cdr
-    tail->next = node;
-    // tail remains pointing to the previous node, so tail->next->next == nullptr
-    // This creates the dotted pair structure
+  // The last argument becomes the tail of the result, whatever it is
+  SCM *last = current->data;
+  if (!dummy.next) {
+    return last;
   }
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (is_pair(last)) {
+    tail->next = cast<SCM_List>(last);
+  } else if (!is_nil(last)) {
+    tail->next = _copy_list_element(last);
+    tail->next->is_dotted = true;  // Mark as dotted pair's cdr
   }
-  return scm_nil();
+  return wrap(dummy.next);
 }
 
 // list-head: Copy the first k elements from lst into a new list
-- 
2.43.0


From 76838bbc5830a14dcec79cccea1e2cc870213d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 023/105] fix: built-in procedures with optional arguments
 reject too many arguments

---
 src/c/continuation.cc | 10 +++++-----
 src/c/function.cc     |  7 +++++++
 src/c/hash_table.cc   |  2 +-
 src/c/module.cc       |  1 +
 src/c/port.cc         | 20 ++++++++++----------
 src/c/pscm.h          |  4 +++-
 src/c/pscm_types.h    |  1 +
 src/c/string.cc       | 12 ++++++------
 src/c/throw.cc        |  2 +-
 src/c/vector.cc       |  2 +-
 10 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 78bad40..98b9158 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -127,8 +127,8 @@ void grow_stack(SCM *cont, SCM *args) {
 }
 
 // call-with-current-continuation: call the procedure with the continuation of the call
-SCM *scm_c_call_with_current_continuation(SCM_List *args) {
-  if (!args || args->next || !is_callable(args->data)) {
+SCM *scm_c_call_with_current_continuation(SCM *proc) {
+  if (!is_callable(proc)) {
     eval_error("call-with-current-continuation: requires 1 argument (procedure)");
     return nullptr;
   }
@@ -143,10 +143,10 @@ SCM *scm_c_call_with_current_continuation(SCM_List *args) {
     }
     return cont;
   }
-  return scm_call_with_list(args->data, make_list(cont));
+  return scm_call_with_list(proc, make_list(cont));
 }
 
 void init_continuation() {
-  scm_define_vararg_function("call-with-current-continuation", scm_c_call_with_current_continuation);
-  scm_define_vararg_function("call/cc", scm_c_call_with_current_continuation);
+  scm_define_function("call-with-current-continuation", 1, 0, 0, scm_c_call_with_current_continuation);
+  scm_define_function("call/cc", 1, 0, 0, scm_c_call_with_current_continuation);
 }
diff --git a/src/c/function.cc b/src/c/function.cc
index 6330209..fdc6441 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -82,6 +82,13 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   }
   if (func->n_args == -2) {
     // Variable argument function (like list)
+    int n = 0;
+    for (SCM_List *it = l->next; it; it = it->next) {
+      n++;
+    }
+    if (func->max_args >= 0 && n > func->max_args) {
+      throw_wrong_number_of_args(func, l->next, nullptr);
+    }
     typedef SCM *(*func_var)(SCM_List *);
     auto f = (func_var)func->func_ptr;
     return f(l->next);
diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..414cd64 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -501,7 +501,7 @@ SCM *scm_c_hash_fold_wrapper(SCM *proc, SCM *init, SCM *table) {
 
 void init_hash_table() {
   // Register hash table functions
-  scm_define_vararg_function("make-hash-table", scm_c_make_hash_table_wrapper);
+  scm_define_vararg_function("make-hash-table", scm_c_make_hash_table_wrapper, 1);
   scm_define_function("hash-set!", 3, 0, 0, scm_c_hash_set_equal);
   scm_define_function("hashq-set!", 3, 0, 0, scm_c_hash_set_eq);
   scm_define_function("hashv-set!", 3, 0, 0, scm_c_hash_set_eqv);
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..2a44837 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -543,6 +543,7 @@ SCM *scm_c_define_gsubr(const char *name, int req, int opt, int rst,
   func_name->data[func_name->len] = '\0';
   func->name = func_name;
   func->func_ptr = (void *)fcn;
+  func->max_args = -1;
 
   if (rst) {
     func->n_args = -2;   // vararg
diff --git a/src/c/port.cc b/src/c/port.cc
index 03d947f..2231696 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -1110,18 +1110,18 @@ void init_port() {
   scm_define_function("get-output-string", 1, 0, 0, scm_c_get_output_string);
   
   // Port operations
-  scm_define_vararg_function("read", scm_c_read);
-  scm_define_vararg_function("read-char", scm_c_read_char);
-  scm_define_vararg_function("peek-char", scm_c_peek_char);
+  scm_define_vararg_function("read", scm_c_read, 1);
+  scm_define_vararg_function("read-char", scm_c_read_char, 1);
+  scm_define_vararg_function("peek-char", scm_c_peek_char, 1);
   scm_define_function("eof-object?", 1, 0, 0, scm_c_is_eof_object);
-  scm_define_vararg_function("char-ready?", scm_c_char_ready);
+  scm_define_vararg_function("char-ready?", scm_c_char_ready, 1);
   
   // Port predicates
   scm_define_function("input-port?", 1, 0, 0, scm_c_is_input_port);
   scm_define_function("output-port?", 1, 0, 0, scm_c_is_output_port);
   
   // Port write operations
-  scm_define_vararg_function("write-char", scm_c_write_char);
+  scm_define_vararg_function("write-char", scm_c_write_char, 2);
   
   // Current ports
   scm_define_function("current-error-port", 0, 0, 0, scm_current_error_port);
@@ -1130,13 +1130,13 @@ void init_port() {
   scm_define_function("set-current-input-port", 1, 0, 0, scm_set_current_input_port);
   scm_define_function("current-output-port", 0, 0, 0, scm_current_output_port);
   scm_define_function("set-current-output-port", 1, 0, 0, scm_set_current_output_port);
-  scm_define_vararg_function("force-output", scm_force_output);
+  scm_define_vararg_function("force-output", scm_force_output, 1);
   
   // Port wrappers
-  scm_define_vararg_function("call-with-input-file", scm_c_call_with_input_file);
-  scm_define_vararg_function("call-with-output-file", scm_c_call_with_output_file);
-  scm_define_vararg_function("call-with-input-string", scm_c_call_with_input_string);
-  scm_define_vararg_function("call-with-output-string", scm_c_call_with_output_string);
+  scm_define_vararg_function("call-with-input-file", scm_c_call_with_input_file, 2);
+  scm_define_vararg_function("call-with-output-file", scm_c_call_with_output_file, 2);
+  scm_define_vararg_function("call-with-input-string", scm_c_call_with_input_string, 2);
+  scm_define_vararg_function("call-with-output-string", scm_c_call_with_output_string, 1);
   
   // Soft ports
   scm_define_vararg_function("make-soft-port", scm_c_make_soft_port);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 9d3297c..c894c51 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1041,6 +1041,7 @@ SCM_Function *_create_func(const char *name, F func_ptr) {
   func_name->data[func_name->len] = '\0'; // Ensure null termination
   func->name = func_name;
   func->func_ptr = (void *)func_ptr;
+  func->max_args = -1;
   return func;
 }
 
@@ -1062,8 +1063,9 @@ void scm_define_generic_function(const char *name, F func_ptr, SCM *init_val) {
 }
 
 template <typename F>
-void scm_define_vararg_function(const char *name, F func_ptr) {
+void scm_define_vararg_function(const char *name, F func_ptr, int max_args = -1) {
   auto func = _create_func(name, func_ptr);
+  func->max_args = max_args;
   func->n_args = -2; // Special value for variable argument functions
   func->generic = nullptr;
   auto data = wrap(func);
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index d549f77..be931c8 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -83,6 +83,7 @@ struct SCM_Procedure {
 struct SCM_Function {
   SCM_Symbol *name;
   int n_args;
+  int max_args; // limit for variable argument functions, negative if there is none
   void *func_ptr;
   SCM *generic;
 };
diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..8c01670 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1106,7 +1106,7 @@ char *scm_to_locale_stringn(SCM *str, size_t *lenp) {
 
 void init_string() {
   scm_define_function("string-length", 1, 0, 0, scm_c_string_length);
-  scm_define_vararg_function("make-string", scm_c_make_string);
+  scm_define_vararg_function("make-string", scm_c_make_string, 2);
   scm_define_function("string-ref", 2, 0, 0, scm_c_string_ref);
   scm_define_function("string-set!", 3, 0, 0, scm_c_string_set);
   scm_define_function("string=?", 2, 0, 0, scm_c_string_eq);
@@ -1124,9 +1124,9 @@ void init_string() {
   scm_define_vararg_function("string-append", scm_c_string_append);
   scm_define_function("string->list", 1, 0, 0, scm_c_string_to_list);
   scm_define_function("list->string", 1, 0, 0, scm_c_list_to_string);
-  scm_define_vararg_function("display", scm_c_display);
-  scm_define_vararg_function("write", scm_c_write);
-  scm_define_vararg_function("newline", scm_c_newline);
-  scm_define_vararg_function("string->number", scm_c_string_to_number);
-  scm_define_vararg_function("number->string", scm_c_number_to_string);
+  scm_define_vararg_function("display", scm_c_display, 2);
+  scm_define_vararg_function("write", scm_c_write, 2);
+  scm_define_vararg_function("newline", scm_c_newline, 1);
+  scm_define_vararg_function("string->number", scm_c_string_to_number, 2);
+  scm_define_vararg_function("number->string", scm_c_number_to_string, 2);
 }
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 9888488..f8e45f6 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -437,7 +437,7 @@ void init_throw() {
   g_error_key = wrap(make_sym("error"));
   
   // Register Scheme functions
-  scm_define_vararg_function("catch", scm_c_catch_scheme);
+  scm_define_vararg_function("catch", scm_c_catch_scheme, 3);
   scm_define_vararg_function("throw", scm_c_throw_scheme);
 }
 
diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..c28a5ca 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -201,7 +201,7 @@ SCM *scm_c_list_to_vector(SCM *list) {
 }
 
 void init_vector() {
-  scm_define_vararg_function("make-vector", scm_c_make_vector);
+  scm_define_vararg_function("make-vector", scm_c_make_vector, 2);
   scm_define_vararg_function("vector", scm_c_vector);
   scm_define_function("vector-length", 1, 0, 0, scm_c_vector_length);
   scm_define_function("vector-ref", 2, 0, 0, scm_c_vector_ref);
-- 
2.43.0


From 4c9abaa6e837e9aa13af9ae82d25ed8836bd787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 024/105] fix: lists that merely begin with quote or unquote
 are printed completely

---
 src/c/print.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..22680a9 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -318,11 +318,14 @@ static bool _is_dotted_pair(SCM_List *l) {
   return last->is_dotted;
 }
 
-// Helper function to check if a list starts with a specific symbol
+// Helper function to check if a list starts with a specific symbol, followed by exactly one element
 static bool _list_starts_with(SCM_List *l, const char *sym_name) {
   if (!l || !l->data || !is_sym(l->data)) {
     return false;
   }
+  if (!l->next || l->next->next || l->next->is_dotted) {
+    return false;
+  }
   SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
   return strcmp(sym->data, sym_name) == 0;
 }
-- 
2.43.0


From 5c5c88c92dd1937854cb1428b8867d91160f6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 025/105] fix: a macro use evaluates exactly what the
 transformer returns for its operands

---
 src/c/eval.cc  |  28 +-----
 src/c/eval.h   |   1 -
 src/c/macro.cc | 227 ++-----------------------------------------------
 3 files changed, 10 insertions(+), 246 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index e78ca21..5d44450 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -319,23 +319,8 @@ entry:
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
       SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      // Evaluate the expansion in place of the call
+      ast = expanded;
       goto entry;
     }
 
@@ -590,14 +575,7 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expanded;
     goto entry;
   }
   else {
diff --git a/src/c/eval.h b/src/c/eval.h
index a787973..5404998 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -36,7 +36,6 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l);
 
 // Macro expansion and definition
 SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, SCM *original_call);
-SCM *expand_macros(SCM_Environment *env, SCM *ast);
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l);
 
 // Define special form
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..b7db000 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -1,141 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Helper function to expand a macro call
+// Helper function to expand a macro call: the transformer receives the operands as they are written
 SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, SCM *original_call) {
-  // Create macro environment (use macro's definition environment)
-  SCM_Environment *macro_env = make_env(macro->env);
-
-  // Bind macro arguments (pass syntax objects directly, without evaluation)
-  SCM_List *macro_args = macro->transformer->args;
-  SCM_List *actual_args = args;
-  
-  // Check if the last parameter is a rest parameter (dotted pair: (a b . c) or (. rest))
-  // Similar to apply_procedure, we need to handle rest parameters specially
-  bool has_rest_param = false;
-  SCM_Symbol *rest_param_sym = nullptr;
-  SCM_List *penultimate_param = nullptr;
-  bool only_rest_param = false;  // True if the only parameter is a rest parameter
-  if (macro_args) {
-    // Check if the last parameter is a rest parameter by checking is_dotted flag
-    SCM_List *last_param = macro_args;
-    SCM_List *penultimate = nullptr;
-    while (last_param->next) {
-      penultimate = last_param;
-      last_param = last_param->next;
-    }
-    
-    // Check if last parameter is marked as dotted (rest parameter)
-    if (last_param->is_dotted && is_sym(last_param->data)) {
-      has_rest_param = true;
-      rest_param_sym = cast<SCM_Symbol>(last_param->data);
-      penultimate_param = penultimate;
-      only_rest_param = (penultimate == nullptr);  // Only rest param if no penultimate
-    }
-  }
-  
-  // Bind regular parameters
-  SCM_List *current_param = macro_args;
-  
-  // Special case: only rest parameter (e.g., (define-macro (test . args) ...))
-  if (only_rest_param) {
-    // Bind all arguments to the rest parameter (as syntax objects, not evaluated)
-    SCM_List rest_args_dummy = make_list_dummy();
-    SCM_List *rest_args_tail = &rest_args_dummy;
-    while (actual_args) {
-      // Pass the argument as-is (syntax object), not evaluated
-      SCM_List *node = make_list(actual_args->data);
-      rest_args_tail->next = node;
-      rest_args_tail = node;
-      actual_args = actual_args->next;
-    }
-    SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
-    scm_env_insert(macro_env, rest_param_sym, rest_args, /*search_parent=*/false);
-    if (debug_enabled) {
-      SCM_DEBUG_EVAL("bind macro rest arg ");
-      printf("%s to ", rest_param_sym->data);
-      print_ast(rest_args);
-      printf("\n");
-    }
-  } else {
-    // Bind regular parameters and handle rest parameter if present
-    while (actual_args && current_param) {
-      // Check if this is the penultimate parameter before rest parameter
-      if (has_rest_param && current_param == penultimate_param) {
-        // Bind the penultimate parameter
-        assert(is_sym(current_param->data));
-        auto param_sym = cast<SCM_Symbol>(current_param->data);
-        // Pass the argument as-is (syntax object), not evaluated
-        scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
-        if (debug_enabled) {
-          SCM_DEBUG_EVAL("bind macro arg ");
-          printf("%s to ", param_sym->data);
-          print_ast(actual_args->data);
-          printf("\n");
-        }
-        actual_args = actual_args->next;
-        current_param = current_param->next;
-        
-        // Now bind all remaining arguments to the rest parameter
-        SCM_List rest_args_dummy = make_list_dummy();
-        SCM_List *rest_args_tail = &rest_args_dummy;
-        while (actual_args) {
-          // Pass the argument as-is (syntax object), not evaluated
-          SCM_List *node = make_list(actual_args->data);
-          rest_args_tail->next = node;
-          rest_args_tail = node;
-          actual_args = actual_args->next;
-        }
-        SCM *rest_args = rest_args_dummy.next ? wrap(rest_args_dummy.next) : scm_nil();
-        scm_env_insert(macro_env, rest_param_sym, rest_args, /*search_parent=*/false);
-        if (debug_enabled) {
-          SCM_DEBUG_EVAL("bind macro rest arg ");
-          printf("%s to ", rest_param_sym->data);
-          print_ast(rest_args);
-          printf("\n");
-        }
-        break;
-      }
-      
-      if (!is_sym(current_param->data)) {
-        fprintf(stderr, "\nError binding macro parameter");
-        if (macro->name) {
-          fprintf(stderr, " in macro '%s'", macro->name->data);
-        }
-        fprintf(stderr, "\n  Expected a symbol, got: ");
-        print_ast(current_param->data);
-        fprintf(stderr, "\n  Parameter list: ");
-        print_ast(wrap(macro->transformer->args));
-        fprintf(stderr, "\n");
-        fflush(stderr);
-        eval_error("macro: malformed parameter in lambda list (expected symbol)");
-        return nullptr;
-      }
-      auto param_sym = cast<SCM_Symbol>(current_param->data);
-      // Pass the argument as-is (syntax object), not evaluated
-      scm_env_insert(macro_env, param_sym, actual_args->data, /*search_parent=*/false);
-      if (debug_enabled) {
-        SCM_DEBUG_EVAL("bind macro arg ");
-        printf("%s to ", param_sym->data);
-        print_ast(actual_args->data);
-        printf("\n");
-      }
-      actual_args = actual_args->next;
-      current_param = current_param->next;
-    }
-  }
-  
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (actual_args || current_param)) {
-    report_arg_mismatch(macro->transformer->args, args, "Macro", original_call, macro->name);
-    return nullptr;
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (SCM_List *it = args; it; it = it->next) {
+    tail->next = make_list(it->data);
+    tail = tail->next;
   }
-
-  // Call the macro transformer (evaluate in macro environment).
-  // The transformer's proc->env was set to a module-aware environment
-  // by make_proc, so module-private variables are found through the
-  // normal environment parent chain during eval_with_list.
-  SCM *expanded = eval_with_list(macro_env, macro->transformer->body);
+  SCM *expanded = scm_call_with_list(wrap(macro->transformer), dummy.next);
 
   // Basic safety check: expanded should not be null
   if (!expanded) {
@@ -163,86 +37,6 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
   return expanded;
 }
 
-// Helper function to expand macros in an expression
-SCM *expand_macros(SCM_Environment *env, SCM *ast) {
-  // Basic safety check: null check
-  if (!ast) {
-    return ast;
-  }
-  
-  if (!is_pair(ast)) {
-    return ast; // Atoms don't need expansion
-  }
-
-  SCM_List *l = cast<SCM_List>(ast);
-  if (!l || !l->data) {
-    return ast;
-  }
-
-  // Check if this is a macro call
-  if (is_sym(l->data)) {
-    SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
-    SCM *val = scm_env_exist(env, sym);
-
-    if (val && is_macro(val)) {
-      // Found a macro, expand it
-      SCM_Macro *macro = cast<SCM_Macro>(val);
-      SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      
-      // Basic safety check: if expansion failed, return original
-      if (!expanded) {
-        return ast;
-      }
-      
-      // Recursively expand the result
-      return expand_macros(env, expanded);
-    }
-  }
-
-  // Recursively expand each element in the list
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
-  SCM_List *current = l;
-
-  while (current) {
-    if (!current->data) {
-      // Skip null data
-      current = current->next;
-      continue;
-    }
-    
-    SCM *expanded = expand_macros(env, current->data);
-    
-    // Basic safety check: if expansion returned null, skip this element
-    if (!expanded) {
-      current = current->next;
-      continue;
-    }
-    
-    SCM_List *node = make_list(expanded);
-    // Preserve dotted-pair structure: copy is_dotted flag from original node.
-    // This is critical for forms like (lambda (x y . z) ...) where the
-    // parameter list is represented using the is_dotted flag on the cdr node.
-    node->is_dotted = current->is_dotted;
-    tail->next = node;
-    tail = node;
-    current = current->next;
-  }
-
-  if (dummy.next) {
-    SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-    scm->type = SCM::LIST;
-    scm->value = dummy.next;
-    scm->source_loc = nullptr;  // Initialize to nullptr
-    // Copy source location from original list
-    copy_source_location(scm, ast);
-    return scm;
-  }
-  SCM *result = scm_nil();
-  copy_source_location(result, ast);
-  return result;
-}
-
 // Helper function for define-macro special form
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   if (!l->next) {
@@ -304,14 +98,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From e50523bedb8df00bdc26831f5931b370c682406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 026/105] fix: the reader reads a list tail written after a dot
 as the rest of the list

---
 src/c/parse.cc | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..8fb5c9d 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1030,6 +1030,16 @@ static SCM *parse_unquote_in_list(Parser *p) {
   return scm;
 }
 
+// Let the datum after a dot end the list: (a . (b c)) is (a b c), (a . ()) is (a)
+static void set_list_tail(SCM_List *tail, SCM *cdr) {
+  if (is_pair(cdr)) {
+    tail->next = cast<SCM_List>(cdr);
+  } else if (!is_nil(cdr)) {
+    tail->next = make_list(cdr);
+    tail->next->is_dotted = true;  // Mark as dotted pair's cdr
+  }
+}
+
 // Parse a list
 static SCM *parse_list(Parser *p) {
   if (*p->pos != '(') {
@@ -1118,20 +1128,7 @@ static SCM *parse_list(Parser *p) {
           parse_error(p, "expected expression after dot");
         }
         
-        // Create node for cdr and mark it as dotted pair
-        if (is_pair(cdr)) {
-          // When cdr is a pair, wrap it in a node to store it
-          // This allows us to mark the wrapper as dotted, while keeping the
-          // cdr list itself unmarked (if it's a proper list)
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark the wrapper node as dotted
-          // The cdr list itself (cdr) is not modified - its internal structure
-          // remains unchanged. The printing code will check if cdr is a proper
-          // list and expand it: (a b . (c d)) -> (a b c d)
-        } else {
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark as dotted pair's cdr
-        }
+        set_list_tail(tail, cdr);
         skip_whitespace(p);
         break;
       }
@@ -1152,14 +1149,7 @@ static SCM *parse_list(Parser *p) {
         parse_error(p, "expected expression after dot");
       }
       
-      // Create node for cdr and mark it as dotted pair
-      if (is_pair(cdr)) {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      } else {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      }
+      set_list_tail(tail, cdr);
       skip_whitespace(p);
       break;
     }
-- 
2.43.0


From 859f91db736721b61c05ca8453ea6a586250bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 027/105] fix: quasiquote treats only unquote forms with one
 operand as such

---
 src/c/quasiquote.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..9db4a0d 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -20,6 +20,11 @@ static void quasiquote_error(const char *format, ...) {
   eval_error("%s", msg);
 }
 
+// A form like (unquote a b) or (unquote . a) is only data
+static bool has_at_most_one_operand(SCM_List *l) {
+  return !l->next || (!l->next->next && !l->next->is_dotted);
+}
+
 // Helper function to check if expr is (unquote ...)
 static bool is_unquote_form(SCM *expr) {
   if (!is_pair(expr)) {
@@ -28,7 +33,7 @@ static bool is_unquote_form(SCM *expr) {
   SCM_List *l = cast<SCM_List>(expr);
   if (l->data && is_sym(l->data)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
-    return strcmp(sym->data, "unquote") == 0;
+    return strcmp(sym->data, "unquote") == 0 && has_at_most_one_operand(l);
   }
   return false;
 }
@@ -41,7 +46,7 @@ static bool is_unquote_splicing_form(SCM *expr) {
   SCM_List *l = cast<SCM_List>(expr);
   if (l->data && is_sym(l->data)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
-    return strcmp(sym->data, "unquote-splicing") == 0;
+    return strcmp(sym->data, "unquote-splicing") == 0 && has_at_most_one_operand(l);
   }
   return false;
 }
@@ -54,7 +59,7 @@ static bool is_quasiquote_form(SCM *expr) {
   SCM_List *l = cast<SCM_List>(expr);
   if (l->data && is_sym(l->data)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
-    return strcmp(sym->data, "quasiquote") == 0;
+    return strcmp(sym->data, "quasiquote") == 0 && has_at_most_one_operand(l);
   }
   return false;
 }
-- 
2.43.0


From 1694e411a28d0eb53507c5bbecb8af5879ae0a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 028/105] fix: local macro definitions are local; nested
 splices keep a dotted tail

---
 src/c/macro.cc      | 4 ++--
 src/c/quasiquote.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index b7db000..69ffad0 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -70,7 +70,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
     } else if (env->parent) {
-      scm_env_insert(env, name, macro_scm);
+      scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     } else {
       auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
       if (global_entry) {
@@ -115,7 +115,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else if (env->parent) {
-    scm_env_insert(env, name, macro_scm);
+    scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
   } else {
     auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
     if (global_entry) {
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 9db4a0d..98f1b4a 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -304,7 +304,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         SCM *expanded_car = quasi(env, p_list->data, depth - 1);
         if (rest_is_dotted && rest_cdr_data) {
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          return scm_list2(expanded_car, expanded_cdr);
+          return scm_cons(expanded_car, expanded_cdr);
         } else {
           SCM *rest = get_list_rest(p);
           SCM *expanded_cdr = quasi(env, rest, depth);
-- 
2.43.0


From 7dee66c91caf93d83fffdab9cb897e0124aaef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 029/105] fix: the value of an operator is not evaluated again;
 only procedures can be called

---
 src/c/eval.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 5d44450..cf6d856 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -239,6 +239,13 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
   return scm_bool_false();
 }
 
+// The value of an operator is not evaluated again: a symbol or a list is no procedure
+static void check_operator(SCM *f) {
+  if (!is_callable(f) && !is_smob(f) && !is_macro(f)) {
+    eval_error("not a procedure: value of type %s", get_type_name(f->type));
+  }
+}
+
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -477,6 +484,7 @@ entry:
         return nullptr;
       }
       
+      check_operator(val);
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -555,6 +563,7 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    check_operator(f);
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 18be94ce72c94b70b417a11e755d01536675d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 030/105] fix: a local variable hides a macro of the same name
 in every inner scope

---
 src/c/eval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index cf6d856..8e05433 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -290,6 +290,10 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     SCM *val = scm_env_exist(env, sym);
+    // A variable of an enclosing procedure hides a macro of the module or the top level
+    for (SCM_Environment *e = env->parent; !val && e && e != &g_env && !e->module; e = e->parent) {
+      val = scm_env_exist(e, sym);
+    }
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
-- 
2.43.0


From 7af64cf332bc198207e71640c14b892993b82de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:32 +0000
Subject: [PATCH 031/105] fix: reader accepts an unquote form as the operand of
 ,@

---
 src/c/parse.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 8fb5c9d..5beafed 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -955,7 +955,12 @@ static SCM *parse_unquote_in_list(Parser *p) {
     p->pos += 2; // consume ,@
     p->column += 2;
     
-    SCM *expr = parse_expr(p);
+    // The operand may itself be an unquote form: ,@,x in nested quasiquotes
+    skip_whitespace(p);
+    SCM *expr = parse_unquote_in_list(p);
+    if (!expr) {
+      expr = parse_expr(p);
+    }
     if (!expr) {
       parse_error(p, "expected expression after unquote-splicing");
     }
-- 
2.43.0


From 1ba8b66bdbb9432d16450592721dd8835edb894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 032/105] fix: list operations end at a dotted tail and reject
 improper lists; last-pair returns the last pair

---
 src/c/apply.cc     |   2 +-
 src/c/for_each.cc  |   2 +-
 src/c/list.cc      | 127 +++++++++++++--------------------------------
 src/c/map.cc       |   2 +-
 src/c/predicate.cc |  37 +------------
 src/c/pscm.h       |  29 ++++++++++-
 src/c/vector.cc    |   2 +-
 7 files changed, 70 insertions(+), 131 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 4aaed84..0722abf 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -109,7 +109,7 @@ SCM *scm_c_apply(SCM_List *args) {
   
   // The last argument should be a list
   SCM *last_arg = it->data;
-  if (!is_pair(last_arg) && !is_nil(last_arg)) {
+  if (!is_proper_list(last_arg)) {
     eval_error("apply: last argument must be a list");
   }
   if (is_pair(last_arg)) {
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index ceff434..310cfe2 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -63,7 +63,7 @@ SCM *scm_c_for_each(SCM_List *l) {
     }
     auto evaluated_list = l->data;
     // Validate that the argument is a list
-    if (!is_pair(evaluated_list) && !is_nil(evaluated_list)) {
+    if (!is_proper_list(evaluated_list)) {
       eval_error("for-each: argument %d must be a list", i + 1);
       return nullptr;
     }
diff --git a/src/c/list.cc b/src/c/list.cc
index 7b296e1..671c1ed 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -70,14 +70,6 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   if (is_pair(cdr_val)) {
     // If cdr is a list, append it
     l->next = cast<SCM_List>(cdr_val);
-    // Check if the appended list is a dotted pair
-    // If so, preserve the is_dotted flag
-    SCM_List *last = l->next;
-    while (last->next) {
-      last = last->next;
-    }
-    // If the last node of cdr is dotted, keep it dotted
-    // Otherwise, it's a proper list, so no change needed
   } else if (is_nil(cdr_val)) {
     // If cdr is nil, just return the list with car
     // (already done, l->next is nullptr)
@@ -94,19 +86,6 @@ static SCM_List *_copy_list_element(SCM *data) {
   return make_list(data);
 }
 
-// Helper function to check if a list is a dotted pair by checking is_dotted flag
-static bool _is_dotted_pair(SCM_List *l) {
-  if (!l || !l->next) {
-    return false;
-  }
-  // Find the last node and check its is_dotted flag
-  SCM_List *last = l;
-  while (last->next) {
-    last = last->next;
-  }
-  return last->is_dotted;
-}
-
 // append function: (append list1 list2 ...) -> concatenated list
 // If the last argument is a dotted pair, the result will also be a dotted pair
 SCM *scm_append(SCM_List *args) {
@@ -122,7 +101,7 @@ SCM *scm_append(SCM_List *args) {
     if (is_nil(current->data)) {
       continue;
     }
-    if (!is_pair(current->data) || _is_dotted_pair(cast<SCM_List>(current->data))) {
+    if (!is_proper_list(current->data)) {
       eval_error("append: expected list");
       return nullptr;
     }
@@ -153,7 +132,11 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
     return nullptr;
   }
   
-  size_t count = (size_t)(int64_t)k->value;
+  int64_t count = (int64_t)k->value;
+  if (count < 0) {
+    eval_error("list-head: index must be non-negative");
+    return nullptr;
+  }
   
   // If k is 0, return empty list regardless of lst
   if (count == 0) {
@@ -174,7 +157,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
-    current = current->next;
+    current = next_pair(current);
     count--;
   }
   
@@ -191,31 +174,24 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
 
 // list-tail: Return the tail of lst beginning with its kth element (shared structure)
 SCM *scm_c_list_tail(SCM *lst, SCM *k) {
-  if (!is_pair(lst) && !is_nil(lst)) {
-    eval_error("list-tail: first argument must be a pair or nil");
-    return nullptr;
-  }
   if (!is_num(k)) {
     eval_error("list-tail: second argument must be a number");
     return nullptr;
   }
   
-  size_t count = (size_t)(int64_t)k->value;
-  SCM_List *current = cast<SCM_List>(lst);
-  
-  while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+  int64_t count = (int64_t)k->value;
+  if (count < 0) {
+    eval_error("list-tail: index must be non-negative");
+    return nullptr;
+  }
+  for (; count > 0; count--) {
+    if (!is_pair(lst)) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
-    current = current->next;
-    count--;
-  }
-  
-  if (current) {
-    return wrap(current);
+    lst = cdr(lst);
   }
-  return scm_nil();
+  return lst;
 }
 
 // set-car!: Store value in the car field of pair
@@ -263,39 +239,28 @@ SCM *scm_c_last_pair(SCM *lst) {
   }
   
   SCM_List *tortoise = cast<SCM_List>(lst);
-  SCM_List *hare = cast<SCM_List>(lst);
-  
-  // Floyd's cycle detection algorithm
-  while (true) {
-    // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
-    }
-    hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return hare (last pair)
-      return wrap(hare);
-    }
-    hare = hare->next;
-    
-    // Move tortoise one step
-    tortoise = tortoise->next;
-    
-    // Check for cycle
-    if (hare == tortoise) {
-      eval_error("last-pair: circular structure detected");
-      return nullptr;
+  SCM_List *last = tortoise;
+  
+  // Floyd's cycle detection algorithm: the tortoise moves at half the speed
+  for (bool step = false; SCM_List *next = next_pair(last); step = !step) {
+    last = next;
+    if (step) {
+      tortoise = tortoise->next;
+      if (tortoise == last) {
+        eval_error("last-pair: circular structure detected");
+        return nullptr;
+      }
     }
   }
+  return last == cast<SCM_List>(lst) ? lst : wrap(last);
 }
 
 SCM *scm_c_reverse(SCM *lst) {
   if (is_nil(lst)) {
     return scm_nil();
   }
-  if (!is_pair(lst)) {
-    eval_error("reverse: argument must be a pair or nil");
+  if (!is_proper_list(lst)) {
+    eval_error("reverse: argument must be a list");
     return nullptr;
   }
   
@@ -307,10 +272,7 @@ SCM *scm_c_reverse(SCM *lst) {
     new_node->next = result;
     result = new_node;
     
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   if (result) {
@@ -347,10 +309,7 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
       return current->data;
     }
     i++;
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   eval_error("list-ref: index out of range");
@@ -365,7 +324,7 @@ SCM *scm_c_length(SCM *lst) {
     result->source_loc = nullptr;
     return result;
   }
-  if (!is_pair(lst)) {
+  if (!is_proper_list(lst)) {
     eval_error("length: argument must be a list");
     return nullptr;
   }
@@ -375,10 +334,7 @@ SCM *scm_c_length(SCM *lst) {
   
   while (current) {
     count++;
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   SCM *result = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -437,10 +393,7 @@ SCM *scm_c_memq(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   // Not found, return #f
@@ -465,10 +418,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   // Not found, return #f
@@ -493,10 +443,7 @@ SCM *scm_c_member(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    current = next_pair(current);
   }
   
   // Not found, return #f
diff --git a/src/c/map.cc b/src/c/map.cc
index 8bfecab..d44018d 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -18,7 +18,7 @@ SCM *scm_c_map(SCM_List *args) {
   // continuation captured by a call of proc can return more than once.
   SCM_List *cursors = args->next;
   for (SCM_List *it = cursors; it; it = it->next) {
-    if (!is_pair(it->data) && !is_nil(it->data)) {
+    if (!is_proper_list(it->data)) {
       eval_error("map: list arguments must be lists");
     }
   }
diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..0cb7202 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -78,42 +78,7 @@ SCM *scm_c_is_vector(SCM *arg) {
 
 SCM *scm_c_is_list(SCM *arg) {
   assert(arg);
-  // nil is a proper list
-  if (is_nil(arg)) {
-    return scm_bool_true();
-  }
-  // If not a pair, it's not a list
-  if (!is_pair(arg)) {
-    return scm_bool_false();
-  }
-  // Traverse the list to check if it's a proper list
-  // A proper list ends with a node where next=nullptr and is_dotted=false
-  // (cdr of the last node returns nil)
-  SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
-  
-  while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
-    // Check if this node is a dotted pair marker
-    if (l->is_dotted) {
-      // This is a dotted pair, not a proper list
-      return scm_bool_false();
-    }
-    // If next is nullptr, we've reached the end of a proper list
-    if (!l->next) {
-      // Proper list ends with next=nullptr and is_dotted=false
-      return scm_bool_true();
-    }
-    // Move to next node
-    l = l->next;
-  }
-  // Should not reach here, but if we do, it's not a proper list
-  return scm_bool_false();
+  return is_proper_list(arg) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_not(SCM *arg) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c894c51..02e55d4 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -588,6 +588,33 @@ inline SCM *wrap(SCM_Smob *smob) {
   return data;
 }
 
+// The pair that follows l, or nullptr where the list, proper or dotted, ends
+inline SCM_List *next_pair(SCM_List *l) {
+  return l->next && !l->next->is_dotted ? l->next : nullptr;
+}
+
+// Whether scm is a finite list that ends with the empty list
+inline bool is_proper_list(SCM *scm) {
+  if (is_nil(scm)) {
+    return true;
+  }
+  if (!is_pair(scm)) {
+    return false;
+  }
+  SCM_List *slow = cast<SCM_List>(scm);
+  SCM_List *last = slow;
+  for (bool step = false; SCM_List *next = next_pair(last); step = !step) {
+    last = next;
+    if (step) {
+      slow = slow->next;
+      if (slow == last) {
+        return false; // circular
+      }
+    }
+  }
+  return !last->next;
+}
+
 inline SCM *car(SCM *data) {
   if (!data || !is_pair(data)) {
     type_error(data, "pair");
@@ -633,7 +660,7 @@ inline SCM *cadr(SCM *data) {
     type_error(data, "pair");
   }
   auto l = cast<SCM_List>(data);
-  if (!l || !l->next) {
+  if (!l || !next_pair(l)) {
     type_error(data, "pair with at least 2 elements");
   }
   SCM *result = l->next->data;
diff --git a/src/c/vector.cc b/src/c/vector.cc
index c28a5ca..5701da8 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -166,7 +166,7 @@ SCM *scm_c_list_to_vector(SCM *list) {
     return wrap(vec);
   }
   
-  if (!is_pair(list)) {
+  if (!is_proper_list(list)) {
     eval_error("list->vector: expected list");
     return nullptr;
   }
-- 
2.43.0


From 4ef9fe23cf1d4b5f6cacc659124e99b34df5d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 033/105] fix: eq? and eqv? identify a pair by its node;
 equality of promises, ports and smobs is total

---
 src/c/eq.cc  | 101 ++++-----------------------------------------------
 src/c/pscm.h |   1 +
 2 files changed, 9 insertions(+), 93 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..b8190a2 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -16,7 +16,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
   if (is_sym(lhs) && is_sym(rhs)) {
     auto sym1 = cast<SCM_Symbol>(lhs);
     auto sym2 = cast<SCM_Symbol>(rhs);
-    return strcmp(sym1->data, sym2->data) == 0;
+    return sym1->len == sym2->len && memcmp(sym1->data, sym2->data, sym1->len) == 0;
   }
   
   // Handle strings
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
@@ -91,23 +91,6 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
   return (!l1 && !l2);
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _list_eq(SCM *lhs, SCM *rhs) {
-  auto l1 = cast<SCM_List>(lhs);
-  auto l2 = cast<SCM_List>(rhs);
-  while (l1 && l2) {
-    if (!_eq(l1->data, l2->data)) {
-      return false;
-    }
-    l1 = l1->next;
-    l2 = l2->next;
-  }
-  if (l1 || l2) {
-    return false;
-  }
-  return true;
-}
-
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
   auto v1 = cast<SCM_Vector>(lhs);
@@ -128,83 +111,11 @@ static bool _vector_equal(SCM *lhs, SCM *rhs) {
   return true;
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _vector_eq(SCM *lhs, SCM *rhs) {
-  auto v1 = cast<SCM_Vector>(lhs);
-  auto v2 = cast<SCM_Vector>(rhs);
-  
-  // Vectors must have the same length
-  if (v1->length != v2->length) {
-    return false;
-  }
-  
-  // Compare each element recursively
-  for (size_t i = 0; i < v1->length; i++) {
-    if (!_eq(v1->elements[i], v2->elements[i])) {
-      return false;
-    }
-  }
-  
-  return true;
-}
-
+// Structural equality, the relation of equal?
 bool _eq(SCM *lhs, SCM *rhs) {
   assert(lhs);
   assert(rhs);
-  // Special case: allow NUM <-> FLOAT comparison
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-
-  switch (lhs->type) {
-  case SCM::NONE:
-  case SCM::NIL:
-    return true;
-  case SCM::LIST:
-    // For backward compatibility with existing tests, use deep comparison for lists
-    // In strict R4RS, eq? should use pointer equality (lhs == rhs) for lists
-    return _list_eq(lhs, rhs);
-  case SCM::PROC:
-  case SCM::CONT:
-  case SCM::FUNC:
-    return lhs == rhs;
-  case SCM::NUM:
-  case SCM::FLOAT:
-    return _number_eq(lhs, rhs);
-  case SCM::CHAR:
-    // Character comparison
-    if (rhs->type == SCM::CHAR) {
-      char ch_lhs = ptr_to_char(lhs->value);
-      char ch_rhs = ptr_to_char(rhs->value);
-      return ch_lhs == ch_rhs;
-    }
-    return false;
-  case SCM::BOOL:
-    return is_true(lhs) == is_true(rhs);
-  case SCM::SYM:
-  case SCM::STR:
-    return _sym_eq(lhs, rhs);
-  case SCM::VECTOR:
-    return _vector_eq(lhs, rhs);
-  case SCM::MACRO:
-    // Macros are compared by reference (same as procedures)
-    return lhs == rhs;
-  case SCM::HASH_TABLE:
-    // Hash tables are compared by reference
-    return lhs == rhs;
-  case SCM::RATIO:
-    // Ratios are compared numerically
-    return _number_eq(lhs, rhs);
-  default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
-  }
+  return _equal_recursive(lhs, rhs);
 }
 
 // eq?: Pointer equality (identity)
@@ -230,6 +141,8 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::NIL:
     return scm_bool_true();
   case SCM::LIST:
+    // Several wrappers can refer to the same pair
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::VECTOR:
   case SCM::PROC:
   case SCM::CONT:
@@ -284,6 +197,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::NIL:
     return scm_bool_true();
   case SCM::LIST:
+    // Several wrappers can refer to the same pair
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::VECTOR:
   case SCM::PROC:
   case SCM::CONT:
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 02e55d4..8d38d98 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -807,6 +807,7 @@ void init_apply();
  */
 bool _eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
 
 /*
-- 
2.43.0


From fe548fe644a422b17414823835bc545ca34056b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 034/105] fix: association lists use the equality of their
 procedure, keep list values and reject improper lists

---
 src/c/alist.cc | 123 +++++++++++++++----------------------------------
 1 file changed, 37 insertions(+), 86 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..c73c1f0 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,38 +1,37 @@
 #include "pscm.h"
-#include <type_traits>
-bool _eq(SCM *lhs, SCM *rhs);
+#include "eval.h"
 
-// Helper function for eq? comparison (pointer/identity equality)
-// This implements the eq? predicate semantics: two objects are eq? if they are the same object
-// For symbols, use content-based comparison (same as hash_table.cc scm_cmp_eq)
-// because in Guile, symbols are interned so eq? compares by content
+// The pairs of an association list are looked up with eq?, eqv? or equal?
+// (assq and assq-set! distinguish strings of the same content)
 static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) {
-    return true;
-  }
-  if (lhs->type != rhs->type) {
-    return false;
+  if (is_str(lhs) && is_str(rhs)) {
+    return lhs->value == rhs->value;
   }
-  // For symbols, compare by content (same as hash_table.cc scm_cmp_eq)
-  // This allows assq to work correctly with symbols
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
+  return is_true(scm_c_is_eq(lhs, rhs));
+}
+
+static bool is_eqv_value(SCM *lhs, SCM *rhs) {
+  return is_true(scm_c_is_eqv(lhs, rhs));
+}
+
+static SCM_List *check_alist(SCM *alist, const char *name) {
+  if (is_nil(alist)) {
+    return nullptr;
   }
-  // For strings, compare pointers (value field points to the same object)
-  if (is_str(lhs)) {
-    return lhs->value == rhs->value;
+  if (!is_proper_list(alist)) {
+    eval_error("%s: expected list", name);
   }
-  // For numbers, compare values
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
+  return cast<SCM_List>(alist);
+}
+
+// The first pair of alist whose car is key, or #f
+static SCM *find_pair(SCM *key, SCM *alist, bool (*cmp)(SCM *, SCM *), const char *name) {
+  for (SCM_List *l = check_alist(alist, name); l; l = l->next) {
+    if (is_pair(l->data) && cmp(key, cast<SCM_List>(l->data)->data)) {
+      return l->data;
+    }
   }
-  // For other types, use pointer comparison
-  return lhs == rhs;
+  return scm_bool_false();
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -48,38 +47,12 @@ SCM *scm_c_acons(SCM *key, SCM *value, SCM *alist) {
 
 // assq: (assq key alist) -> pair or #f (using eq? for comparison)
 SCM *scm_c_assq(SCM *key, SCM *alist) {
-  if (is_nil(alist)) {
-    return scm_bool_false();
-  }
-  auto l = cast<SCM_List>(alist);
-  while (l) {
-    if (is_pair(l->data)) {
-      auto pair = cast<SCM_List>(l->data);
-      if (pair->data && is_eq_pointer(key, pair->data)) {
-        return l->data; // Return the pair
-      }
-    }
-    l = l->next;
-  }
-  return scm_bool_false();
+  return find_pair(key, alist, is_eq_pointer, "assq");
 }
 
 // assoc: (assoc key alist) -> pair or #f (using equal? for comparison)
 SCM *scm_c_assoc(SCM *key, SCM *alist) {
-  if (is_nil(alist)) {
-    return scm_bool_false();
-  }
-  auto l = cast<SCM_List>(alist);
-  while (l) {
-    if (is_pair(l->data)) {
-      auto pair = cast<SCM_List>(l->data);
-      if (pair->data && _eq(key, pair->data)) {
-        return l->data; // Return the pair
-      }
-    }
-    l = l->next;
-  }
-  return scm_bool_false();
+  return find_pair(key, alist, _eq, "assoc");
 }
 
 // assoc-ref: (assoc-ref alist key) -> value or #f
@@ -88,12 +61,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
   if (!pair || is_nil(pair) || (is_bool(pair) && is_false(pair))) {
     return scm_bool_false();
   }
-  // Return the cdr of the pair
-  auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return cdr(pair);
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
@@ -103,7 +71,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
     return scm_c_acons(key, value, scm_nil());
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = check_alist(alist, "assoc-set!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool found = false;
@@ -111,7 +79,7 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (!found && _eq(key, pair->data)) {
         // Found matching key, replace with new pair
         SCM *new_pair = scm_cons(key, value);
         SCM_List *node = make_list(new_pair);
@@ -157,7 +125,7 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
     return scm_c_acons(key, value, scm_nil());
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = check_alist(alist, "assq-set!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool found = false;
@@ -165,7 +133,7 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (pair->data && is_eq_pointer(key, pair->data)) {
+      if (!found && is_eq_pointer(key, pair->data)) {
         // Found matching key, replace with new pair
         SCM *new_pair = scm_cons(key, value);
         SCM_List *node = make_list(new_pair);
@@ -210,7 +178,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
     return scm_nil();
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = check_alist(alist, "assoc-remove!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool removed = false;
@@ -218,7 +186,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
   while (l) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
-      if (!removed && pair->data && _eq(key, pair->data)) {
+      if (!removed && _eq(key, pair->data)) {
         // Skip this pair (remove it) - only remove first match
         removed = true;
       } else {
@@ -243,24 +211,7 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
-  assert(key);
-  assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
-  if (is_nil(alist)) {
-    return scm_bool_false();
-  }
-  auto l = cast<SCM_List>(alist);
-  auto it = l;
-  while (it) {
-    if (it->data && is_pair(it->data)) {
-      auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
-        return it->data;
-      }
-    }
-    it = it->next;
-  }
-  return scm_bool_false();
+  return find_pair(key, alist, is_eqv_value, "assv");
 }
 
 void init_alist() {
-- 
2.43.0


From 96e1b3e50df147e54991ccf0e63d90f084fd0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:15 +0000
Subject: [PATCH 035/105] fix: memv and case compare with eqv?

---
 src/c/case.cc | 11 ++++++-----
 src/c/list.cc | 28 +---------------------------
 2 files changed, 7 insertions(+), 32 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index a535f39..64267eb 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -1,18 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
-
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_true(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
@@ -53,6 +50,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     
     // Regular clause: (datum1 datum2 ...)
     // Check if key matches any datum in this clause
+    if (is_nil(clause->data)) {
+      continue;
+    }
+    check_syntax(is_proper_list(clause->data), "case");
     auto datums = cast<SCM_List>(clause->data);
     
     if (value_in_datums(key, datums)) {
diff --git a/src/c/list.cc b/src/c/list.cc
index 671c1ed..d2c45d8 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -344,32 +344,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -414,7 +388,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
-    if (current->data && _eqv(obj, current->data)) {
+    if (current->data && is_true(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-- 
2.43.0


From 917077d0863706e8b70b1e07d9d54b38007ef7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 036/105] fix: exact arithmetic does not overflow in
 intermediate results; / checks every divisor; expt rejects 0 to a negative
 power

---
 src/c/number.cc | 74 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 14bd24e..3657c38 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -3,8 +3,14 @@
 #include <type_traits>
 #include <cmath>
 
+// Exact intermediate results are computed with 128 bits: the reduced result can
+// be a fraction of 64-bit integers when they do not fit in 64 bits
+using Wide = __int128;
+
 // Forward declaration
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
+static SCM *make_ratio(Wide numerator, Wide denominator);
+SCM *_create_num(int64_t val);
 
 static void check_number(SCM *arg) {
   if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
@@ -133,16 +139,16 @@ struct BinaryOperator {
       int64_t n_lhs, d_lhs, n_rhs, d_rhs;
       exact_parts(lhs, n_lhs, d_lhs);
       exact_parts(rhs, n_rhs, d_rhs);
-      auto ret = Op::run(n_lhs * d_rhs, n_rhs * d_lhs);
+      auto ret = Op::run((Wide)n_lhs * d_rhs, (Wide)n_rhs * d_lhs);
       if constexpr (std::is_same_v<decltype(ret), bool>) {
         return ret ? scm_bool_true() : scm_bool_false();
       } else {
         if (d_lhs != 1 || d_rhs != 1) {
-          return scm_make_ratio(ret, d_lhs * d_rhs);
+          return make_ratio(ret, (Wide)d_lhs * d_rhs);
         }
         SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
         data->type = SCM::NUM;
-        data->value = (void *)ret;
+        data->value = (void *)(int64_t)ret;
         return data;
       }
     }
@@ -234,7 +240,7 @@ SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs == d_rhs) ? scm_bool_true() : scm_bool_false();
   }
-  return BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<EqOp<bool, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
@@ -244,7 +250,7 @@ SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs + d_rhs);
   }
-  return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<AddOp<Wide, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
@@ -254,7 +260,7 @@ SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs - d_rhs);
   }
-  return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<MinusOp<Wide, Wide>>::run(lhs, rhs);
 }
 
 // Unary minus: negate a number (supports both int and float)
@@ -361,7 +367,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
     }
     
     // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
-    return scm_make_ratio(num1 * num2, den1 * den2);
+    return make_ratio((Wide)num1 * num2, (Wide)den1 * den2);
   }
   
   // Handle float promotion directly
@@ -370,7 +376,7 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs * d_rhs);
   }
-  return BinaryOperator<MulOp<int64_t, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<MulOp<Wide, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
@@ -379,7 +385,7 @@ SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs <= d_rhs) ? scm_bool_true() : scm_bool_false();
   }
-  return BinaryOperator<LtEqOp<bool, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<LtEqOp<bool, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
@@ -388,7 +394,7 @@ SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs >= d_rhs) ? scm_bool_true() : scm_bool_false();
   }
-  return BinaryOperator<GtEqOp<bool, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<GtEqOp<bool, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
@@ -397,7 +403,7 @@ SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs < d_rhs) ? scm_bool_true() : scm_bool_false();
   }
-  return BinaryOperator<LtOp<bool, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<LtOp<bool, Wide>>::run(lhs, rhs);
 }
 
 SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
@@ -406,7 +412,7 @@ SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return (d_lhs > d_rhs) ? scm_bool_true() : scm_bool_false();
   }
-  return BinaryOperator<GtOp<bool, int64_t>>::run(lhs, rhs);
+  return BinaryOperator<GtOp<bool, Wide>>::run(lhs, rhs);
 }
 
 // Multi-argument comparison functions (chain comparisons)
@@ -559,7 +565,7 @@ bool _number_eq(SCM *lhs, SCM *rhs) {
     double d_rhs = scm_to_double(rhs);
     return d_lhs == d_rhs;
   }
-  auto ret = BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
+  auto ret = BinaryOperator<EqOp<bool, Wide>>::run(lhs, rhs);
   return is_true(ret);
 }
 
@@ -571,11 +577,11 @@ SCM *_create_num(int64_t val) {
 }
 
 // Helper function to compute GCD
-static int64_t gcd(int64_t a, int64_t b) {
+static Wide gcd(Wide a, Wide b) {
   a = a < 0 ? -a : a;
   b = b < 0 ? -b : b;
   while (b != 0) {
-    int64_t temp = b;
+    Wide temp = b;
     b = a % b;
     a = temp;
   }
@@ -657,6 +663,10 @@ SCM *scm_c_lcm(SCM_List *args) {
 
 // Create a rational number (fraction)
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
+  return make_ratio(numerator, denominator);
+}
+
+static SCM *make_ratio(Wide numerator, Wide denominator) {
   if (denominator == 0) {
     eval_error("make-ratio: division by zero");
     return nullptr;
@@ -674,13 +684,17 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
   }
   
   // Simplify the fraction using GCD
-  int64_t g = gcd(numerator, denominator);
+  Wide g = gcd(numerator, denominator);
   numerator /= g;
   denominator /= g;
   
   // If denominator is 1, return an integer
   if (denominator == 1) {
-    return _create_num(numerator);
+    return _create_num((int64_t)numerator);
+  }
+  if (numerator != (int64_t)numerator || denominator != (int64_t)denominator) {
+    eval_error("fraction out of range");
+    return nullptr;
   }
   
   // Create rational number
@@ -759,7 +773,11 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
     return is_float(base) ? scm_from_double(1.0) : _create_num(1);
   }
   if (is_num(base) && (int64_t)base->value == 0) {
-    // 0^n = 0 (for n != 0)
+    // 0^n = 0 (for n > 0)
+    if (n < 0) {
+      eval_error("expt: division by zero");
+      return nullptr;
+    }
     return _create_num(0);
   }
 
@@ -882,7 +900,13 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        check_number(current->data);
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
@@ -894,8 +918,8 @@ SCM *scm_c_div(SCM_List *args) {
     }
     
     // (result_num/result_den) / (div_num/div_den) = (result_num * div_den) / (result_den * div_num)
-    result_num = result_num * div_den;
-    result_den = result_den * div_num;
+    SCM *result = make_ratio((Wide)result_num * div_den, (Wide)result_den * div_num);
+    exact_parts(result, result_num, result_den);
     
     current = current->next;
   }
@@ -921,7 +945,7 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
-  return _create_num(num1 / num2);
+  return _create_num((int64_t)((Wide)num1 / num2));
 }
 
 SCM *scm_c_modulo(SCM *n1, SCM *n2) {
@@ -942,8 +966,7 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
-  int64_t m = num1 / num2;
-  int64_t ret = num1 - num2 * m;
+  int64_t ret = (int64_t)((Wide)num1 % num2);
   
   // Adjust sign according to Scheme's modulo semantics
   if (ret > 0 && num2 < 0) {
@@ -973,8 +996,7 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
-  int64_t m = num1 / num2;
-  return _create_num(num1 - num2 * m);
+  return _create_num((int64_t)((Wide)num1 % num2));
 }
 
 void init_number() {
-- 
2.43.0


From 63a782f4ddf25b9e4d56f5e5279cd2fc89d8e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 037/105] fix: integers and floats are compared exactly

---
 src/c/number.cc | 97 ++++++++++++++-----------------------------------
 1 file changed, 27 insertions(+), 70 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 3657c38..1c477e1 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -198,49 +198,30 @@ struct MulOp<double, double> {
   }
 };
 
-template <typename Ret, typename T>
-struct LtEqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs <= rhs;
-  }
-};
-
-template <typename Ret, typename T>
-struct GtEqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs >= rhs;
-  }
-};
-
-template <typename Ret, typename T>
-struct GtOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs > rhs;
-  }
-};
-
-template <typename Ret, typename T>
-struct LtOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs < rhs;
-  }
-};
-
-template <typename Ret, typename T>
-struct EqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs == rhs;
-  }
-};
-
-SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
-  // Use double comparison for mixed types
+// -1, 0 or 1 as lhs is less than, equal to or greater than rhs; 2 if they are not ordered
+static int compare_numbers(SCM *lhs, SCM *rhs) {
+  Wide n_lhs, n_rhs;
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
-    return (d_lhs == d_rhs) ? scm_bool_true() : scm_bool_false();
+    if (d_lhs != d_rhs || !(is_num(lhs) || is_num(rhs))) {
+      return d_lhs < d_rhs ? -1 : d_lhs > d_rhs ? 1 : d_lhs == d_rhs ? 0 : 2;
+    }
+    // An integer of more than 53 bits is rounded to a float: compare exactly
+    n_lhs = is_num(lhs) ? (Wide)(int64_t)lhs->value : (Wide)d_lhs;
+    n_rhs = is_num(rhs) ? (Wide)(int64_t)rhs->value : (Wide)d_rhs;
+  } else {
+    int64_t num_lhs, den_lhs, num_rhs, den_rhs;
+    exact_parts(lhs, num_lhs, den_lhs);
+    exact_parts(rhs, num_rhs, den_rhs);
+    n_lhs = (Wide)num_lhs * den_rhs;
+    n_rhs = (Wide)num_rhs * den_lhs;
   }
-  return BinaryOperator<EqOp<bool, Wide>>::run(lhs, rhs);
+  return n_lhs < n_rhs ? -1 : n_lhs > n_rhs ? 1 : 0;
+}
+
+SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
+  return compare_numbers(lhs, rhs) == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
@@ -380,39 +361,21 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
 }
 
 SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs <= d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<LtEqOp<bool, Wide>>::run(lhs, rhs);
+  int order = compare_numbers(lhs, rhs);
+  return order == -1 || order == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs >= d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<GtEqOp<bool, Wide>>::run(lhs, rhs);
+  int order = compare_numbers(lhs, rhs);
+  return order == 1 || order == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs < d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<LtOp<bool, Wide>>::run(lhs, rhs);
+  return compare_numbers(lhs, rhs) == -1 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs > d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<GtOp<bool, Wide>>::run(lhs, rhs);
+  return compare_numbers(lhs, rhs) == 1 ? scm_bool_true() : scm_bool_false();
 }
 
 // Multi-argument comparison functions (chain comparisons)
@@ -560,13 +523,7 @@ SCM *scm_c_sqrt(SCM *arg) {
 }
 
 bool _number_eq(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return d_lhs == d_rhs;
-  }
-  auto ret = BinaryOperator<EqOp<bool, Wide>>::run(lhs, rhs);
-  return is_true(ret);
+  return compare_numbers(lhs, rhs) == 0;
 }
 
 SCM *_create_num(int64_t val) {
-- 
2.43.0


From d37c0259ff03935349b6ec846a859efa76b8a3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 038/105] fix: the reader reads fractions and decimals that
 start with a point, and rounds decimals correctly

---
 src/c/parse.cc | 127 ++++++++++++++++++-------------------------------
 src/c/pscm.h   |   1 +
 2 files changed, 46 insertions(+), 82 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 5beafed..ae88d6a 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -308,120 +308,83 @@ static char consume(Parser *p) {
   return c;
 }
 
-// Parse a number (only if it starts with a digit, or +/- followed by a digit)
+// Parse a number: an integer, a fraction (1/2) or a decimal (1.5, .5, 1e3)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
   int start_line = p->line;
   int start_column = p->column;
-  bool negative = false;
   
-  // Only parse as number if it starts with a digit, or +/- followed by a digit
-  if (*p->pos == '-') {
-    // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
-      return nullptr; // Not a number, let it be parsed as symbol
-    }
-    negative = true;
-    p->pos++;
-    p->column++;
-  } else if (*p->pos == '+') {
-    // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
-      return nullptr; // Not a number, let it be parsed as symbol
-    }
-    p->pos++;
-    p->column++;
-  } else if (!isdigit((unsigned char)*p->pos)) {
-    return nullptr;
+  // Only parse as number if it starts with a digit (after a sign or a decimal point)
+  const char *digits = *start == '-' || *start == '+' ? start + 1 : start;
+  const char *pos = digits;
+  if (!isdigit((unsigned char)*pos) && !(*pos == '.' && isdigit((unsigned char)pos[1]))) {
+    return nullptr; // Not a number, let it be parsed as symbol
   }
   
   // Parse integer part
-  long int_part = 0;
-  while (isdigit((unsigned char)*p->pos)) {
-    int_part = int_part * 10 + (*p->pos - '0');
-    p->pos++;
-    p->column++;
+  unsigned long magnitude = 0;
+  while (isdigit((unsigned char)*pos)) {
+    magnitude = magnitude * 10 + (*pos - '0');
+    pos++;
+  }
+  long int_part = (long)(*start == '-' ? -magnitude : magnitude);
+  
+  // Fraction
+  if (*pos == '/' && isdigit((unsigned char)pos[1])) {
+    long denominator = 0;
+    for (pos++; isdigit((unsigned char)*pos); pos++) {
+      denominator = denominator * 10 + (*pos - '0');
+    }
+    if (denominator == 0) {
+      parse_error(p, "division by zero in a fraction");
+    }
+    p->column += (int)(pos - start);
+    p->pos = pos;
+    SCM *ratio = scm_make_ratio(int_part, denominator);
+    set_source_location(ratio, p->filename, start_line, start_column);
+    return ratio;
   }
   
   // Check for decimal point
   bool is_float = false;
-  double float_value = (double)int_part;
-  
-  if (*p->pos == '.') {
+  if (*pos == '.') {
     is_float = true;
-    p->pos++;
-    p->column++;
-  
-    // Parse fractional part
-    double fractional = 0.0;
-    double divisor = 1.0;
-    while (isdigit((unsigned char)*p->pos)) {
-      fractional = fractional * 10 + (*p->pos - '0');
-      divisor *= 10;
-      p->pos++;
-      p->column++;
+    pos++;
+    while (isdigit((unsigned char)*pos)) {
+      pos++;
     }
-    float_value += fractional / divisor;
   }
   
   // Check for exponent (scientific notation)
-  if (*p->pos == 'e' || *p->pos == 'E') {
+  if (*pos == 'e' || *pos == 'E') {
     is_float = true;
-    p->pos++;
-    p->column++;
-    
-    // Parse exponent sign
-    bool exp_negative = false;
-    if (*p->pos == '-') {
-      exp_negative = true;
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '+') {
-      p->pos++;
-      p->column++;
+    pos++;
+    if (*pos == '-' || *pos == '+') {
+      pos++;
     }
-    
-    // Parse exponent value
-    long exp = 0;
-    if (!isdigit((unsigned char)*p->pos)) {
+    if (!isdigit((unsigned char)*pos)) {
       parse_error(p, "expected digit after exponent marker");
     }
-    while (isdigit((unsigned char)*p->pos)) {
-      exp = exp * 10 + (*p->pos - '0');
-      p->pos++;
-      p->column++;
-    }
-    
-    // Apply exponent
-    double multiplier = 1.0;
-    for (long i = 0; i < exp; i++) {
-      multiplier *= 10.0;
-    }
-    if (exp_negative) {
-      float_value /= multiplier;
-    } else {
-      float_value *= multiplier;
-    }
-  }
-  
-  // Apply sign
-  if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
+    while (isdigit((unsigned char)*pos)) {
+      pos++;
     }
   }
   
   // Create SCM object
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   if (is_float) {
+    char *text = new char[pos - start + 1];
+    memcpy(text, start, pos - start);
+    text[pos - start] = '\0';
     scm->type = SCM::FLOAT;
-    scm->value = double_to_ptr(float_value);
+    scm->value = double_to_ptr(strtod(text, nullptr));
+    delete[] text;
   } else {
     scm->type = SCM::NUM;
     scm->value = (void *)int_part;
   }
+  p->column += (int)(pos - start);
+  p->pos = pos;
   scm->source_loc = nullptr;
   set_source_location(scm, p->filename, start_line, start_column);
   return scm;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 8d38d98..ff3b000 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -814,6 +814,7 @@ SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
  * Functions in number.cc (internal comparison functions)
  */
 bool _number_eq(SCM *lhs, SCM *rhs);
+SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 /*
  * Functions in predicate.cc
-- 
2.43.0


From 46623bd760252f24d6ac180d64233daec88c04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 039/105] fix: the reader accepts the octal escapes that write
 produces

---
 src/c/parse.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index ae88d6a..d9d4013 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -625,6 +625,11 @@ static SCM *parse_vector(Parser *p) {
   return scm;
 }
 
+// Whether the three octal digits of a character (\ooo, as it is written) are at src
+static bool octal_escape(const char *src) {
+  return src[0] >= '0' && src[0] <= '3' && src[1] >= '0' && src[1] <= '7' && src[2] >= '0' && src[2] <= '7';
+}
+
 // Parse a string
 static SCM *parse_string(Parser *p) {
   if (*p->pos != '"') {
@@ -686,7 +691,7 @@ static SCM *parse_string(Parser *p) {
       escape = false;
       // Escape sequence counts as one character
       actual_len++;
-      src++;
+      src += octal_escape(src) ? 3 : 1;
     } else if (*src == '\\') {
       escape = true;
       src++;
@@ -711,7 +716,14 @@ static SCM *parse_string(Parser *p) {
         case 'r': *dst++ = '\r'; break;
         case '\\': *dst++ = '\\'; break;
         case '"': *dst++ = '"'; break;
-        default: *dst++ = *src; break;
+        default:
+          if (octal_escape(src)) {
+            *dst++ = (char)((src[0] - '0') * 64 + (src[1] - '0') * 8 + (src[2] - '0'));
+            src += 2;
+          } else {
+            *dst++ = *src;
+          }
+          break;
       }
       src++;
     } else if (*src == '\\') {
-- 
2.43.0


From 5553e9fb0f55a007ce07d1035ec1a355dafaed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 040/105] fix: display of a string prints all of it

---
 src/c/print.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 22680a9..ae24dfd 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -155,7 +155,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
-- 
2.43.0


From 482113bb8b24f5ebaeea7c30dd128fe541ae4af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 041/105] fix: number->string keeps the 14 digits that print
 shows

---
 src/c/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 8c01670..7ad7796 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -567,7 +567,7 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       // Integer value stored as float: print with .0 to show it's a float
       str_len = snprintf(str_data, 64, "%.1f", val);
     } else {
-      str_len = snprintf(str_data, 64, "%g", val);
+      str_len = snprintf(str_data, 64, "%.14g", val); // as print does
     }
   } else if (is_ratio(num_scm)) {
     if (radix != 10) {
-- 
2.43.0


From ad90e5d9b81e9865aeae16c15b22ba792e89c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 042/105] fix: list->string rejects improper lists

---
 src/c/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 7ad7796..6bdb58f 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -751,7 +751,7 @@ SCM *scm_c_list_to_string(SCM *lst) {
     return scm;
   }
   
-  if (!is_pair(lst)) {
+  if (!is_proper_list(lst)) {
     eval_error("list->string: expected list");
     return nullptr;
   }
-- 
2.43.0


From e7d8c1334abcf896cbae2055600fe26fb4e86ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 043/105] fix: string comparisons look at every byte, as
 unsigned

---
 src/c/string.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 6bdb58f..da97729 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -322,7 +322,7 @@ SCM *scm_c_string_eq(SCM *str1, SCM *str2) {
     return scm_bool_false();
   }
   
-  if (strncmp(s1->data, s2->data, s1->len) == 0) {
+  if (memcmp(s1->data, s2->data, s1->len) == 0) {
     return scm_bool_true();
   }
   return scm_bool_false();
@@ -807,7 +807,7 @@ SCM *scm_c_string_lt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -831,7 +831,7 @@ SCM *scm_c_string_gt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -855,7 +855,7 @@ SCM *scm_c_string_le(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -879,7 +879,7 @@ SCM *scm_c_string_ge(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -909,8 +909,8 @@ SCM *scm_c_string_ci_eq(SCM *str1, SCM *str2) {
   }
   
   for (int i = 0; i < s1->len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 != c2) {
       return scm_bool_false();
     }
@@ -933,8 +933,8 @@ SCM *scm_c_string_ci_lt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -961,8 +961,8 @@ SCM *scm_c_string_ci_gt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
@@ -989,8 +989,8 @@ SCM *scm_c_string_ci_le(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -1017,8 +1017,8 @@ SCM *scm_c_string_ci_ge(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
-- 
2.43.0


From 76f8b292031c5d6ff3c9fdb8f0dfab8e0e787011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 044/105] fix: number->string of the smallest integer

---
 src/c/string.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index da97729..ba6072a 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -477,17 +477,11 @@ static char* int_to_string_radix(int64_t val, int radix) {
   }
   
   // Handle negative numbers
-  bool negative = false;
-  int64_t uval;
-  if (val < 0) {
-    negative = true;
-    uval = -val;
-  } else {
-    uval = val;
-  }
+  bool negative = val < 0;
+  uint64_t uval = negative ? 0 - (uint64_t)val : (uint64_t)val;
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
-- 
2.43.0


From 8171125557b7939713419d44c06c7fdda862b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 045/105] fix: string->number accepts exactly the syntax of
 numbers

---
 src/c/string.cc | 122 +++++++++++++++++++++++++++++-------------------
 1 file changed, 74 insertions(+), 48 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index ba6072a..f95838b 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,7 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <string>
 
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
@@ -381,6 +382,77 @@ SCM *scm_c_string(SCM_List *args) {
   return scm;
 }
 
+// Parse digits in the given radix, at least one; false if there is none or the value does not fit
+static bool parse_digits(const char **pos, int radix, uint64_t *value) {
+  const char *start = *pos;
+  uint64_t result = 0;
+  for (;; (*pos)++) {
+    unsigned char c = (unsigned char)**pos;
+    int digit = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : radix;
+    if (digit >= radix) {
+      break;
+    }
+    if (result > (UINT64_MAX - digit) / radix) {
+      return false;
+    }
+    result = result * radix + digit;
+  }
+  *value = result;
+  return *pos != start;
+}
+
+// Parse the text of a number: an integer or a fraction in the given radix, or a decimal in radix 10
+// Returns nullptr if it is not the text of a number
+static SCM *parse_number_text(const std::string &text, int radix) {
+  const char *start = text.c_str();
+  const char *end = start + text.size();
+  bool negative = *start == '-';
+  const char *digits = *start == '-' || *start == '+' ? start + 1 : start;
+  const char *pos = digits;
+  
+  uint64_t magnitude;
+  if (parse_digits(&pos, radix, &magnitude) && (pos == end || *pos == '/')) {
+    uint64_t denominator = 1;
+    if (*pos == '/') {
+      pos++;
+      if (!parse_digits(&pos, radix, &denominator) || denominator == 0 || denominator > INT64_MAX) {
+        return nullptr;
+      }
+    }
+    if (pos != end || magnitude > (uint64_t)INT64_MAX + negative) {
+      return nullptr;
+    }
+    return scm_make_ratio((int64_t)(negative ? 0 - magnitude : magnitude), (int64_t)denominator);
+  }
+  if (radix != 10) {
+    return nullptr;
+  }
+  
+  // Decimal: digits with an optional decimal point and exponent
+  pos = digits;
+  int digit_count = 0;
+  for (; isdigit((unsigned char)*pos); pos++) digit_count++;
+  bool is_decimal = *pos == '.';
+  if (is_decimal) {
+    for (pos++; isdigit((unsigned char)*pos); pos++) digit_count++;
+  }
+  if (digit_count > 0 && (*pos == 'e' || *pos == 'E')) {
+    is_decimal = true;
+    pos++;
+    if (*pos == '-' || *pos == '+') {
+      pos++;
+    }
+    if (!isdigit((unsigned char)*pos)) {
+      return nullptr;
+    }
+    while (isdigit((unsigned char)*pos)) pos++;
+  }
+  if (digit_count == 0 || !is_decimal || pos != end) {
+    return nullptr;
+  }
+  return scm_from_double(strtod(start, nullptr));
+}
+
 // string->number: Convert a string to a number
 // (string->number string [radix]) -> number or #f
 SCM *scm_c_string_to_number(SCM_List *args) {
@@ -417,54 +489,8 @@ SCM *scm_c_string_to_number(SCM_List *args) {
     return scm_bool_false();
   }
   
-  // Create a null-terminated string for parsing
-  char *str = new char[s->len + 1];
-  memcpy(str, s->data, s->len);
-  str[s->len] = '\0';
-  
-  // Try to parse as number
-  // For now, we'll use a simple approach: try strtol/strtod
-  // This doesn't handle all Scheme number formats, but covers basic cases
-  char *endptr;
-  
-  // Check if it's a float (contains '.', 'e', or 'E')
-  bool is_float_str = false;
-  for (int i = 0; i < s->len; i++) {
-    if (str[i] == '.' || str[i] == 'e' || str[i] == 'E') {
-      is_float_str = true;
-      break;
-    }
-  }
-  
-  SCM *result = nullptr;
-  
-  if (is_float_str && radix == 10) {
-    // Parse as float
-    double val = strtod(str, &endptr);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      result = scm_from_double(val);
-    }
-  } else {
-    // Parse as integer
-    long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      // Create number directly
-      SCM *num = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-      num->type = SCM::NUM;
-      num->value = (void *)(int64_t)val;
-      num->source_loc = nullptr;
-      result = num;
-    }
-  }
-  
-  delete[] str;
-  return result;
+  SCM *result = parse_number_text(std::string(s->data, s->len), radix);
+  return result ? result : scm_bool_false();
 }
 
 // Helper function to convert integer to string in given radix
-- 
2.43.0


From 3f060a0fb21ee81b65e132f9d728c1a99695e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 046/105] fix: make-string and make-vector report a length they
 cannot allocate

---
 src/c/string.cc | 14 +++++++++++++-
 src/c/vector.cc | 13 ++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index f95838b..8bb3ee4 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,8 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <limits.h>
+#include <new>
 #include <string>
 
 // string-length: Return the number of characters in string
@@ -31,6 +33,11 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
     return nullptr;
   }
   
+  if (len >= INT_MAX) {
+    eval_error("make-string: length out of range");
+    return nullptr;
+  }
+  
   // Get optional character (default to space)
   char fill_char = ' ';
   if (char_scm) {
@@ -42,8 +49,13 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   }
   
   // Create string
+  char *data = new (std::nothrow) char[len + 1];
+  if (!data) {
+    eval_error("make-string: out of memory");
+    return nullptr;
+  }
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  s->data = new char[len + 1];
+  s->data = data;
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
diff --git a/src/c/vector.cc b/src/c/vector.cc
index 5701da8..c493535 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <new>
 
 // Helper function for make-vector implementation
 static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
@@ -17,15 +18,21 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   SCM *fill = fill_scm ? fill_scm : scm_none();
   
   // Create vector
+  SCM **elements = nullptr;
+  if (len > 0) {
+    elements = new (std::nothrow) SCM*[len];
+    if (!elements) {
+      eval_error("make-vector: out of memory");
+      return nullptr;
+    }
+  }
   SCM_Vector *vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
   vec->length = (size_t)len;
+  vec->elements = elements;
   if (len > 0) {
-    vec->elements = new SCM*[len];
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
-  } else {
-    vec->elements = nullptr;
   }
   
   return wrap(vec);
-- 
2.43.0


From a82d2769b1defa62cf4f4119c4b3724dce41500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 047/105] fix: hash functions agree with eq?, eqv? and equal?

---
 src/c/hash_table.cc | 150 ++++++++++++++++++--------------------------
 1 file changed, 60 insertions(+), 90 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 414cd64..a42c280 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -11,119 +11,89 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
+// Hash of an atom, the same for all atoms that are eq?, eqv? or equal?
+static unsigned long hash_atom(SCM *key) {
+  switch (key->type) {
+  case SCM::SYM: {
     auto sym = cast<SCM_Symbol>(key);
     return hash_string_content(sym->data, sym->len);
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
-}
-
-// Hash function for eqv? (value equality for numbers/chars)
-static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  case SCM::STR: {
+    auto str = cast<SCM_String>(key);
+    return hash_string_content(str->data, str->len);
   }
-  if (is_char(key)) {
-    return (unsigned char)ptr_to_char(key->value);
+  case SCM::NUM:
+  case SCM::FLOAT: {
+    // Integers and floats of the same value are equal
+    double val = is_num(key) ? (double)(int64_t)key->value : ptr_to_double(key->value);
+    if (val >= -9223372036854775808.0 && val < 9223372036854775808.0 && val == (double)(int64_t)val) {
+      return (unsigned long)(int64_t)val;
+    }
+    return hash_string_content((const char *)&val, sizeof(val));
+  }
+  case SCM::RATIO: {
+    auto rat = cast<SCM_Rational>(key);
+    double val = (double)rat->numerator / (double)rat->denominator;
+    return hash_string_content((const char *)&val, sizeof(val));
   }
-  if (is_bool(key)) {
+  case SCM::CHAR:
+    return (unsigned char)ptr_to_char(key->value);
+  case SCM::BOOL:
     return is_true(key) ? 1 : 0;
+  case SCM::NONE:
+  case SCM::NIL:
+  case SCM::SMOB:
+    // All of these can be equal to another object of their type
+    return (unsigned long)key->type;
+  default:
+    return (unsigned long)(uintptr_t)key;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+}
+
+// Hash function for eq? and eqv?
+static unsigned long scm_hash_code_eqv(SCM *key) {
+  // Several wrappers can refer to the same pair
+  return is_pair(key) ? (unsigned long)(uintptr_t)key->value : hash_atom(key);
+}
+
+static unsigned long scm_hash_code_eq(SCM *key) {
+  return scm_hash_code_eqv(key);
 }
 
 // Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
+// At most *budget atoms are taken into account
+static unsigned long hash_content(SCM *key, int *budget) {
   unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
+  if (is_vector(key)) {
+    auto vec = cast<SCM_Vector>(key);
+    --*budget;
+    for (size_t i = 0; i < vec->length && *budget > 0; i++) {
+      hash = hash * 31 + hash_content(vec->elements[i], budget);
     }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
+    return hash + vec->length + 1;
   }
-  return hash;
+  while (is_pair(key) && *budget > 0) {
+    auto l = cast<SCM_List>(key);
+    --*budget;
+    hash = hash * 31 + hash_content(l->data, budget);
+    key = !l->next ? scm_nil() : l->next->is_dotted ? l->next->data : wrap(l->next);
+  }
+  --*budget;
+  return *budget < 0 || is_pair(key) ? hash : hash * 31 + hash_atom(key);
 }
 
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
-  if (is_str(key)) {
-    auto str = cast<SCM_String>(key);
-    return hash_string_content(str->data, str->len);
-  }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  // For lists, use content-based hash
-  if (is_pair(key)) {
-    return hash_list_content(key);
-  }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  int budget = 64;
+  return hash_content(key, &budget);
 }
 
 // Comparison functions
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
-- 
2.43.0


From 895c1b6d8d0aab8a1310073da82cb6c594877a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 048/105] fix: hash table entries are ordinary pairs, and
 hash-create-handle! keeps an existing one

---
 src/c/hash_table.cc | 76 ++++++---------------------------------------
 src/c/module.cc     | 36 ++-------------------
 2 files changed, 12 insertions(+), 100 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index a42c280..49222e9 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -115,17 +115,6 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
   return hash_table;
 }
 
-// Helper function to update existing entry's value
-static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
-}
-
 // Helper function to find entry in bucket
 static SCM_List *find_entry_in_bucket(SCM *bucket, SCM *key, bool (*cmp_func)(SCM *, SCM *)) {
   if (!bucket || is_nil(bucket)) {
@@ -146,24 +135,11 @@ static SCM_List *find_entry_in_bucket(SCM *bucket, SCM *key, bool (*cmp_func)(SC
 
 // Helper function to insert entry into bucket at head
 // Returns the entry pair (key . value)
-// Note: We must create a proper dotted pair (key . value) even when value is a list.
-// Using scm_cons would expand value if it's a list, which breaks hash table semantics.
 static SCM *insert_entry_to_bucket(SCM_HashTable *hash_table, size_t idx, 
                                     SCM *key, SCM *value) {
-  // Create a proper dotted pair (key . value) structure
-  // This ensures value is stored correctly even when it's a list
-  SCM_List *entry_pair = make_list(key);
-  if (is_nil(value)) {
-    // For nil values, create a node containing nil so hash-ref can find it
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;
-  } else {
-    // For non-nil values, wrap in a dotted pair node
-    entry_pair->next = make_list(value);
-    entry_pair->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  SCM *entry_pair = scm_cons(key, value);
   
-  auto entry_node = make_list(wrap(entry_pair));
+  auto entry_node = make_list(entry_pair);
   if (hash_table->buckets[idx] && !is_nil(hash_table->buckets[idx])) {
     entry_node->next = cast<SCM_List>(hash_table->buckets[idx]);
   } else {
@@ -171,7 +147,7 @@ static SCM *insert_entry_to_bucket(SCM_HashTable *hash_table, size_t idx,
   }
   hash_table->buckets[idx] = wrap(entry_node);
   hash_table->size++;
-  return wrap(entry_pair);
+  return entry_pair;
 }
 
 // Helper function to remove entry from bucket
@@ -246,7 +222,7 @@ SCM *scm_c_hash_set(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
+    scm_c_set_cdr(wrap(entry), value);
     return value;
   }
   
@@ -267,15 +243,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return cdr(wrap(entry));
   }
   
   return scm_bool_false();
@@ -314,9 +282,7 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
@@ -359,34 +325,10 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
-            SCM *key = entry->data;
-            SCM *value = entry->next->data;
-            
+          if (entry->data) {
             // Call proc with (key value result)
-            // Build call expression: (proc key value result)
-            // Wrap arguments in quote to prevent re-evaluation (same as for_each.cc)
-            SCM_List args_dummy = make_list_dummy();
-            args_dummy.data = proc;
-            auto args_tail = &args_dummy;
-            // Wrap key in quote
-            SCM *quoted_key = scm_list2(scm_sym_quote(), key);
-            args_tail->next = make_list(quoted_key);
-            args_tail = args_tail->next;
-            // Wrap value in quote
-            SCM *quoted_value = scm_list2(scm_sym_quote(), value);
-            args_tail->next = make_list(quoted_value);
-            args_tail = args_tail->next;
-            // Wrap result in quote
-            SCM *quoted_result = scm_list2(scm_sym_quote(), result);
-            args_tail->next = make_list(quoted_result);
-            
-            // Build and evaluate call expression (same as for_each.cc)
-            SCM call_expr;
-            call_expr.type = SCM::LIST;
-            call_expr.value = &args_dummy;
-            call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-            result = eval_with_env(&g_env, &call_expr);
+            SCM_List *args = make_list(entry->data, cdr(l->data), result);
+            result = scm_call_with_list(proc, args);
           }
         }
         l = l->next;
diff --git a/src/c/module.cc b/src/c/module.cc
index 2a44837..c5a1b99 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -74,14 +74,7 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   if (handle && handle != scm_bool_false() && is_pair(handle)) {
     // Handle exists (it's a pair, not #f)
     // handle is the entry pair (key . value) wrapped
-    auto pair = cast<SCM_List>(handle);
-    // pair->data is the key, pair->next->data is the value
-    if (pair->next) {
-      return pair->next->data;  // Return value (can be #f)
-    } else {
-      // value is nil (entry->next is nullptr)
-      return scm_nil();
-    }
+    return cdr(handle);  // Return value (can be #f)
   }
   
   return nullptr;  // Not found
@@ -997,32 +990,9 @@ SCM *scm_c_module_map(SCM_List *args) {
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
-            SCM *key = entry->data;  // Symbol
-            SCM *value = entry->next->data;  // Variable value
-            
+          if (entry->data) {
             // Call proc with (key value)
-            // Build call expression: (proc key value)
-            SCM_List args_dummy = make_list_dummy();
-            args_dummy.data = proc;
-            auto args_tail = &args_dummy;
-            
-            // Wrap key in quote to prevent re-evaluation
-            SCM *quoted_key = scm_list2(scm_sym_quote(), key);
-            args_tail->next = make_list(quoted_key);
-            args_tail = args_tail->next;
-            
-            // Wrap value in quote
-            SCM *quoted_value = scm_list2(scm_sym_quote(), value);
-            args_tail->next = make_list(quoted_value);
-            
-            // Build and evaluate call expression
-            SCM call_expr;
-            call_expr.type = SCM::LIST;
-            call_expr.value = &args_dummy;
-            call_expr.source_loc = nullptr;  // Mark as temporary to skip call stack tracking
-            
-            SCM *proc_result = eval_with_env(&g_env, &call_expr);
+            SCM *proc_result = scm_call_with_list(proc, make_list(entry->data, cdr(l->data)));
             
             // Append result to result list
             SCM_List *new_node = make_list(proc_result);
-- 
2.43.0


From 1be8942c59cd3248b8b259be5f1f32b7c9308309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 049/105] fix: make-hash-table reports a size it cannot
 allocate

---
 src/c/hash_table.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 49222e9..9e656ec 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -190,16 +190,26 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
+    if ((int64_t)size_arg->value < 0) {
+      eval_error("make-hash-table: size must be non-negative");
+      return nullptr;
+    }
     capacity = (size_t)(int64_t)size_arg->value;
     if (capacity == 0) {
       capacity = 31;
     }
   }
   
+  SCM **buckets = (SCM **)calloc(capacity, sizeof(SCM *));
+  if (!buckets) {
+    eval_error("make-hash-table: out of memory");
+    return nullptr;
+  }
+  
   auto hash_table = (SCM_HashTable *)gc_alloc(GC_HASH, sizeof(SCM_HashTable));
   hash_table->capacity = capacity;
   hash_table->size = 0;
-  hash_table->buckets = (SCM **)calloc(capacity, sizeof(SCM *));
+  hash_table->buckets = buckets;
   // Initialize all buckets to nil
   // Note: calloc initializes to 0, but we need scm_nil() which may not be 0
   for (size_t i = 0; i < capacity; i++) {
-- 
2.43.0


From 1059530574da728a6dfa5b1d90e3cc4e2af1bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:49 +0000
Subject: [PATCH 050/105] fix: hash of a pair with a vector tail

---
 src/c/hash_table.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 9e656ec..f48cbeb 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -78,8 +78,10 @@ static unsigned long hash_content(SCM *key, int *budget) {
     hash = hash * 31 + hash_content(l->data, budget);
     key = !l->next ? scm_nil() : l->next->is_dotted ? l->next->data : wrap(l->next);
   }
-  --*budget;
-  return *budget < 0 || is_pair(key) ? hash : hash * 31 + hash_atom(key);
+  if (is_pair(key) || --*budget < 0) {
+    return hash;
+  }
+  return hash * 31 + (is_vector(key) ? hash_content(key, budget) : hash_atom(key));
 }
 
 static unsigned long scm_hash_code_equal(SCM *key) {
-- 
2.43.0


From 27672469790e265d2fd70a652cf47b93dfb0d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 051/105] fix: a symbol is printed to its end

---
 src/c/print.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index ae24dfd..5b95a7b 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -123,10 +123,9 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     auto sym = cast<SCM_Symbol>(ast);
     // Keywords (symbols starting with ':') should be printed as #:keyword-name
     if (sym->data && sym->data[0] == ':') {
-      printf("#%s", sym->data);
-    } else {
-      printf("%s", sym->data);
+      printf("#");
     }
+    fwrite(sym->data, 1, sym->len, stdout);
     return;
   }
   if (is_str(ast)) {
-- 
2.43.0


From e3c487714a9037c1a68b5483c1fd9be8a7054041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 052/105] fix: write puts symbols that would not read back in
 #{...}#

---
 src/c/print.cc | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 5b95a7b..f711477 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "smob.h"
 #include "error.h"
+#include <ctype.h>
 
 // Print context to track if we're inside a quasiquote expression
 struct PrintContext {
@@ -27,6 +28,22 @@ static void init_print_state(scm_print_state *pstate, bool write_mode) {
   pstate->highlight_objects = nullptr;
 }
 
+// Whether the reader reads the name of a symbol as that symbol
+static bool is_plain_symbol(SCM_Symbol *sym) {
+  const char *name = sym->data;
+  for (int i = 0; i < sym->len; i++) {
+    if (!isalnum((unsigned char)name[i]) && (!name[i] || !strchr("!$%&*+-./:<=>?@^_~|", name[i]))) {
+      return false;
+    }
+  }
+  if (strcmp(name, "1+") == 0 || strcmp(name, "1-") == 0 || strcmp(name, "...") == 0) {
+    return true;
+  }
+  // Numbers, and the dot of a pair
+  const char *start = *name == '+' || *name == '-' ? name + 1 : name;
+  return *name && *name != '.' && !isdigit((unsigned char)*start) && !(*start == '.' && isdigit((unsigned char)start[1]));
+}
+
 // Forward declarations
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx);
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx);
@@ -122,10 +139,13 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
   if (is_sym(ast)) {
     auto sym = cast<SCM_Symbol>(ast);
     // Keywords (symbols starting with ':') should be printed as #:keyword-name
-    if (sym->data && sym->data[0] == ':') {
+    bool quoted = write_mode && !is_plain_symbol(sym);
+    if (sym->data && sym->data[0] == ':' && !quoted) {
       printf("#");
     }
+    printf("%s", quoted ? "#{" : "");
     fwrite(sym->data, 1, sym->len, stdout);
+    printf("%s", quoted ? "}#" : "");
     return;
   }
   if (is_str(ast)) {
-- 
2.43.0


From d67923887d59228a7e11041248ac2f1ba17f5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 053/105] fix: a float that rounds to an integer is printed as
 a float

---
 src/c/print.cc  | 32 ++++++++++++++++++++++----------
 src/c/pscm.h    |  1 +
 src/c/string.cc |  7 +------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index f711477..29cf06c 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -12,6 +12,25 @@ struct PrintContext {
   PrintContext(bool in_qq, bool in_unq = false) : in_quasiquote(in_qq), in_unquote(in_unq) {}
 };
 
+// Text of a float, as print and number->string show it
+int format_double(double val, char *text, size_t size) {
+  // Always show at least one decimal place for floats to preserve the float representation
+  // Match Guile's precision: use %.14g for better precision (14 significant digits)
+  int len;
+  if (val >= -9223372036854775808.0 && val < 9223372036854775808.0 && val == (double)(int64_t)val) {
+    // Integer value stored as float: print with .0 to show it's a float
+    len = snprintf(text, size, "%.1f", val);
+  } else {
+    // Use %.14g to match Guile's precision (14 significant digits)
+    // This will show enough precision for sqrt(2) = 1.4142135623731
+    len = snprintf(text, size, "%.14g", val);
+    if (strspn(text, "-0123456789") == (size_t)len) {
+      len += snprintf(text + len, size - len, ".0"); // rounded to an integer
+    }
+  }
+  return len;
+}
+
 // Helper function to initialize a print state (compatible with Guile 1.8)
 static void init_print_state(scm_print_state *pstate, bool write_mode) {
   pstate->handle = nullptr;
@@ -97,16 +116,9 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
   }
   if (is_float(ast)) {
     double val = ptr_to_double(ast->value);
-    // Always show at least one decimal place for floats to preserve the float representation
-    // Match Guile's precision: use %.14g for better precision (14 significant digits)
-    if (val == (double)(int64_t)val) {
-      // Integer value stored as float: print with .0 to show it's a float
-      printf("%.1f", val);
-    } else {
-      // Use %.14g to match Guile's precision (14 significant digits)
-      // This will show enough precision for sqrt(2) = 1.4142135623731
-      printf("%.14g", val);
-    }
+    char text[64];
+    format_double(val, text, sizeof(text));
+    printf("%s", text);
     return;
   }
   if (is_ratio(ast)) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index ff3b000..ca274b4 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -740,6 +740,7 @@ SCM *reduce(F f, SCM *init_val, SCM_List *l) {
 /*
  * Functions in print.cc
  */
+int format_double(double val, char *text, size_t size);
 void print_ast(SCM *ast, bool write_mode = false);
 void print_list(SCM_List *l);
 
diff --git a/src/c/string.cc b/src/c/string.cc
index 8bb3ee4..47d162c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -595,12 +595,7 @@ SCM *scm_c_number_to_string(SCM_List *args) {
     // Use snprintf to format float
     // Allocate enough space (64 bytes should be enough for most floats)
     str_data = new char[64];
-    if (val == (double)(int64_t)val) {
-      // Integer value stored as float: print with .0 to show it's a float
-      str_len = snprintf(str_data, 64, "%.1f", val);
-    } else {
-      str_len = snprintf(str_data, 64, "%.14g", val); // as print does
-    }
+    str_len = format_double(val, str_data, 64);
   } else if (is_ratio(num_scm)) {
     if (radix != 10) {
       eval_error("number->string: radix can only be 10 for rational numbers");
-- 
2.43.0


From 58b9e352c949329b29632ebb252b8b99851941a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 054/105] fix: the null character has a name that reads back

---
 src/c/parse.cc | 2 ++
 src/c/print.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index d9d4013..8c39341 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -487,6 +487,8 @@ static SCM *parse_char(Parser *p) {
       name_lower[3] = '\0';
       if (strcmp(name_lower, "tab") == 0) {
         ch = '\t';
+      } else if (strcmp(name_lower, "nul") == 0) {
+        ch = '\0';
       } else {
         // Not a named character, treat the first character as the character value
         p->pos = name_start;
diff --git a/src/c/print.cc b/src/c/print.cc
index 29cf06c..38093ee 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -139,6 +139,8 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
         printf("#\\newline");
       } else if (ch == '\t') {
         printf("#\\ht");
+      } else if (ch == '\0') {
+        printf("#\\nul");
       } else {
         printf("#\\%c", ch);
       }
-- 
2.43.0


From e0df6662c67d5b59991727aedcfc69e4e49f0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 055/105] fix: a character literal ends at a delimiter

---
 src/c/parse.cc | 147 ++++++++++---------------------------------------
 1 file changed, 29 insertions(+), 118 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 8c39341..65ece2c 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -6,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 
 // Simple Scheme parser implementation from scratch
 
@@ -308,6 +309,11 @@ static char consume(Parser *p) {
   return c;
 }
 
+// Whether a character ends the symbol, number or character literal before it
+static bool is_delimiter(char c) {
+  return c == '\0' || isspace((unsigned char)c) || strchr("()\";'`,", c) != nullptr;
+}
+
 // Parse a number: an integer, a fraction (1/2) or a decimal (1.5, .5, 1e3)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
@@ -408,127 +414,32 @@ static SCM *parse_char(Parser *p) {
     parse_error(p, "unexpected end of input in character literal");
   }
   
-  char ch;
-  
-  // Check for whitespace character (space, tab, newline)
-  // This handles #\ followed by a space character
-  if (isspace((unsigned char)*p->pos)) {
-    if (*p->pos == ' ') {
-      ch = ' ';
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '\n') {
-      ch = '\n';
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '\t') {
-      ch = '\t';
-      p->pos++;
-      p->column++;
-    } else {
-      // Other whitespace, just use it as-is
-      ch = *p->pos;
-      p->pos++;
-      p->column++;
-    }
-  }
-  // Check for named characters (case-insensitive)
-  else if (isalpha((unsigned char)*p->pos)) {
-    const char *name_start = p->pos;
-    while (isalpha((unsigned char)*p->pos)) {
-      p->pos++;
-      p->column++;
-    }
-    
-    int len = p->pos - name_start;
-    // Check for common named characters (case-insensitive)
-    // Use case-insensitive comparison
-    if (len == 5) {
-      // Check for "space" (case-insensitive: space, Space, SPACE, etc.)
-      char name_lower[6];
-      for (int i = 0; i < 5; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[5] = '\0';
-      if (strcmp(name_lower, "space") == 0) {
-        ch = ' ';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
+  // One character of any kind, or the name of a character (case-insensitive)
+  const char *name = p->pos;
+  size_t len = 1;
+  while (!isspace((unsigned char)name[0]) && !is_delimiter(name[len])) {
+    len++;
+  }
+  
+  char ch = name[0];
+  if (len > 1) {
+    static const struct {
+      const char *name;
+      char ch;
+    } names[] = { { "space", ' ' }, { "newline", '\n' }, { "tab", '\t' }, { "ht", '\t' }, { "nul", '\0' } };
+    bool found = false;
+    for (auto &n : names) {
+      if (strlen(n.name) == len && strncasecmp(n.name, name, len) == 0) {
+        ch = n.ch;
+        found = true;
       }
-    } else if (len == 7) {
-      // Check for "newline" (case-insensitive)
-      char name_lower[8];
-      for (int i = 0; i < 7; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[7] = '\0';
-      if (strcmp(name_lower, "newline") == 0) {
-        ch = '\n';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else if (len == 3) {
-      // Check for "tab" (case-insensitive)
-      // Also support "ht" for compatibility, though it's 2 characters
-      char name_lower[4];
-      for (int i = 0; i < 3; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[3] = '\0';
-      if (strcmp(name_lower, "tab") == 0) {
-        ch = '\t';
-      } else if (strcmp(name_lower, "nul") == 0) {
-        ch = '\0';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else if (len == 2) {
-      // Check for "ht" (horizontal tab, R4RS standard name)
-      char name_lower[3];
-      for (int i = 0; i < 2; i++) {
-        name_lower[i] = (char)tolower((unsigned char)name_start[i]);
-      }
-      name_lower[2] = '\0';
-      if (strcmp(name_lower, "ht") == 0) {
-        ch = '\t';
-      } else {
-        // Not a named character, treat the first character as the character value
-        p->pos = name_start;
-        p->column = start_column + 2;
-        ch = *p->pos;
-        p->pos++;
-        p->column++;
-      }
-    } else {
-      // Not a named character, treat the first character as the character value
-      // This handles cases like #\A where A is a letter
-      p->pos = name_start;
-      p->column = start_column + 2;
-      ch = *p->pos;
-      p->pos++;
-      p->column++;
     }
-  } else {
-    // Single character (non-letter or any single char after #\)
-    ch = *p->pos;
-    p->pos++;
-    p->column++;
+    if (!found) {
+      parse_error(p, "unknown character name");
+    }
   }
+  p->pos += len;
+  p->column += (int)len;
   
   SCM *scm = scm_from_char(ch);
   set_source_location(scm, p->filename, start_line, start_column);
-- 
2.43.0


From 7030fa9876c43d5b2517b525db33dac8712b7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 056/105] fix: numbers and symbols end at a delimiter

---
 src/c/parse.cc | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 65ece2c..7d514f6 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -341,6 +341,9 @@ static SCM *parse_number(Parser *p) {
     for (pos++; isdigit((unsigned char)*pos); pos++) {
       denominator = denominator * 10 + (*pos - '0');
     }
+    if (!is_delimiter(*pos)) {
+      return nullptr;
+    }
     if (denominator == 0) {
       parse_error(p, "division by zero in a fraction");
     }
@@ -369,13 +372,17 @@ static SCM *parse_number(Parser *p) {
       pos++;
     }
     if (!isdigit((unsigned char)*pos)) {
-      parse_error(p, "expected digit after exponent marker");
+      return nullptr; // No digits after the exponent marker
     }
     while (isdigit((unsigned char)*pos)) {
       pos++;
     }
   }
   
+  if (!is_delimiter(*pos)) {
+    return nullptr; // A symbol such as 1+ or 2nd
+  }
+  
   // Create SCM object
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   if (is_float) {
@@ -671,9 +678,7 @@ static SCM *parse_symbol(Parser *p) {
   int len = 0;
   
   // Check for special literals first
-  if (strncmp(p->pos, "#t", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#t", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_true();
@@ -681,9 +686,7 @@ static SCM *parse_symbol(Parser *p) {
     return result;
   }
   
-  if (strncmp(p->pos, "#f", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#f", 2) == 0 && is_delimiter(p->pos[2])) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_false();
@@ -714,6 +717,12 @@ static SCM *parse_symbol(Parser *p) {
   if (len == 0) {
     return nullptr;
   }
+  if (!is_delimiter(*p->pos)) {
+    parse_error(p, "unexpected character in a symbol");
+  }
+  if (len == 1 && *start == '.') {
+    parse_error(p, "unexpected dot");
+  }
   
   // Build symbol name, filtering out backslash escape characters
   char *sym_data = new char[len + 1];
@@ -1165,21 +1174,6 @@ static SCM *parse_expr(Parser *p) {
     return result;
   }
   
-  // Special case: check for 1+ and 1- symbols before parsing as number
-  // These are valid Scheme identifiers that start with a digit
-  if ((strncmp(p->pos, "1+", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) ||
-      (strncmp(p->pos, "1-", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';'))) {
-    // Parse as symbol instead of number
-    result = parse_symbol(p);
-    if (result) {
-      return result;
-    }
-  }
-  
   // Number
   result = parse_number(p);
   if (result) {
-- 
2.43.0


From b52aa0b86852fd3ca628d5e2b03eeaadf3ef1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 057/105] fix: the reader accepts an unquote at the top level

---
 src/c/parse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 7d514f6..83f85a0 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1100,6 +1100,11 @@ static SCM *parse_expr(Parser *p) {
     return parse_quasiquote(p);
   }
   
+  // Unquote (comma)
+  if (*p->pos == ',') {
+    return parse_unquote_in_list(p);
+  }
+  
   // List
   if (*p->pos == '(') {
     return parse_list(p);
-- 
2.43.0


From 54c774ad11bd9fb995b2d1b5cd94d93d5f9ff27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 058/105] fix: a parse error does not leave pointers into the
 text behind

---
 src/c/parse.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 83f85a0..9f07085 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -67,6 +67,13 @@ static void pop_parse_stack() {
   }
 }
 
+// Forget all parse contexts: they point into a text that is no longer being parsed
+static void clear_parse_stack() {
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+}
+
 // Print the parse stack
 static void print_parse_stack(Parser *p) {
   if (!g_parse_stack) {
@@ -255,6 +262,7 @@ static void parse_error(Parser *p, const char *msg) {
   }
   
   fflush(stderr);
+  clear_parse_stack();
   eval_error("Parse error: %s", msg);
 }
 
@@ -1213,6 +1221,7 @@ SCM *parse(const char *s) {
   p.line = 1;
   p.column = 1;
   
+  clear_parse_stack();
   SCM *result = parse_expr(&p);
   if (!result) {
     // Provide more context about what we were trying to parse
@@ -1305,6 +1314,7 @@ SCM_List *parse_file(const char *filename) {
   p.line = 1;
   p.column = 1;
   
+  clear_parse_stack();
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   
@@ -1363,6 +1373,7 @@ SCM_List *parse_string(const char *str) {
   p.line = 1;
   p.column = 1;
   
+  clear_parse_stack();
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   
-- 
2.43.0


From 5e360733f2f66df07b9beccb4c6de02baeae6808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 059/105] fix: a text nested too deeply is a parse error

---
 src/c/parse.cc | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 9f07085..87b2d2f 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -17,8 +17,11 @@ struct Parser {
   const char *filename;
   int line;
   int column;
+  int depth;       // how many data enclose the one being parsed
 };
 
+static const int MAX_DATUM_DEPTH = 10000;  // deeper data would overflow the stack
+
 // Parse stack for tracking nested parsing context
 struct ParseStackFrame {
   const char *context_type;      // "list", "vector", "string", "quasiquote", etc.
@@ -462,6 +465,7 @@ static SCM *parse_char(Parser *p) {
 }
 
 // Forward declarations
+static SCM *parse_datum(Parser *p);
 static SCM *parse_expr(Parser *p);
 static SCM *parse_unquote_in_list(Parser *p);
 
@@ -787,15 +791,8 @@ static SCM *parse_quote(Parser *p) {
     return scm;
   }
   
-  // After quote, we need to parse the expression
-  // But in list context (like in quasiquote), we might have ',name
-  // which should be parsed as (quote ,name) where ,name is an unquote
-  // So we need to check for unquote first
-  SCM *quoted = parse_unquote_in_list(p);
-  if (!quoted) {
-    // parse_expr will skip whitespace, which is correct for most cases
-    quoted = parse_expr(p);
-  }
+  // After quote, we need to parse the expression (',name is (quote (unquote name)))
+  SCM *quoted = parse_expr(p);
   if (!quoted) {
     pop_parse_stack();  // Pop before error
     parse_error(p, "expected expression after quote");
@@ -825,11 +822,7 @@ static SCM *parse_quasiquote(Parser *p) {
   p->column++;
   
   // After quasiquote, we might have unquote directly (like `,expr)
-  // Check for unquote first
-  SCM *quoted = parse_unquote_in_list(p);
-  if (!quoted) {
-    quoted = parse_expr(p);
-  }
+  SCM *quoted = parse_expr(p);
   if (!quoted) {
     pop_parse_stack();  // Pop before error
     parse_error(p, "expected expression after quasiquote");
@@ -862,10 +855,7 @@ static SCM *parse_unquote_in_list(Parser *p) {
     
     // The operand may itself be an unquote form: ,@,x in nested quasiquotes
     skip_whitespace(p);
-    SCM *expr = parse_unquote_in_list(p);
-    if (!expr) {
-      expr = parse_expr(p);
-    }
+    SCM *expr = parse_expr(p);
     if (!expr) {
       parse_error(p, "expected expression after unquote-splicing");
     }
@@ -891,7 +881,7 @@ static SCM *parse_unquote_in_list(Parser *p) {
   // Check for quote after comma (,'name syntax)
   if (*p->pos == '\'') {
     // Parse the quote, which will handle the unquote inside
-    SCM *quoted = parse_quote(p);
+    SCM *quoted = parse_expr(p);
     if (!quoted) {
       parse_error(p, "expected expression after unquote");
     }
@@ -910,7 +900,7 @@ static SCM *parse_unquote_in_list(Parser *p) {
   // This happens in nested quasiquotes: `(a `(b ,,name d) e)
   if (*p->pos == ',') {
     // Recursively parse the inner unquote
-    SCM *inner_unquote = parse_unquote_in_list(p);
+    SCM *inner_unquote = parse_expr(p);
     if (!inner_unquote) {
       parse_error(p, "expected expression after nested unquote");
     }
@@ -1089,6 +1079,15 @@ static SCM *parse_list(Parser *p) {
 
 // Parse an expression
 static SCM *parse_expr(Parser *p) {
+  if (++p->depth > MAX_DATUM_DEPTH) {
+    parse_error(p, "data nested too deeply");
+  }
+  SCM *result = parse_datum(p);
+  p->depth--;
+  return result;
+}
+
+static SCM *parse_datum(Parser *p) {
   skip_whitespace(p);
   
   if (*p->pos == '\0') {
@@ -1220,6 +1219,7 @@ SCM *parse(const char *s) {
   p.filename = nullptr;
   p.line = 1;
   p.column = 1;
+  p.depth = 0;
   
   clear_parse_stack();
   SCM *result = parse_expr(&p);
@@ -1313,6 +1313,7 @@ SCM_List *parse_file(const char *filename) {
   p.filename = filename;
   p.line = 1;
   p.column = 1;
+  p.depth = 0;
   
   clear_parse_stack();
   SCM_List dummy = make_list_dummy();
@@ -1372,6 +1373,7 @@ SCM_List *parse_string(const char *str) {
   p.filename = nullptr;  // No filename for string input
   p.line = 1;
   p.column = 1;
+  p.depth = 0;
   
   clear_parse_stack();
   SCM_List dummy = make_list_dummy();
-- 
2.43.0


From 71ba73f994a860dce9de156b3f543bd5fd447753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 060/105] fix: loading something that is not a regular file

---
 src/c/parse.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 87b2d2f..36e48cd 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1286,15 +1286,27 @@ static char *read_file_content(const char *filename) {
     return nullptr;
   }
   
-  // Get file size
-  fseek(f, 0, SEEK_END);
-  long size = ftell(f);
-  fseek(f, 0, SEEK_SET);
-  
-  // Allocate buffer
-  char *buffer = new char[size + 1];
-  size_t read = fread(buffer, 1, size, f);
-  buffer[read] = '\0';
+  // Read it in pieces: its size is not known if it is not a regular file
+  size_t size = 0, capacity = 4096;
+  char *buffer = new char[capacity];
+  size_t read;
+  while ((read = fread(buffer + size, 1, capacity - 1 - size, f)) > 0) {
+    size += read;
+    if (size == capacity - 1) {
+      char *larger = new char[capacity * 2];
+      memcpy(larger, buffer, size);
+      delete[] buffer;
+      buffer = larger;
+      capacity *= 2;
+    }
+  }
+  buffer[size] = '\0';
+  if (ferror(f)) {
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    fclose(f);
+    delete[] buffer;
+    return nullptr;
+  }
   fclose(f);
   
   return buffer;
-- 
2.43.0


From dcaeaf8fd19568f7691933d85aaa94a3f3eecf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 061/105] fix: loading a file without expressions

---
 src/c/load.cc  | 10 ++++++----
 src/c/parse.cc |  5 ++++-
 src/c/pscm.h   |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/c/load.cc b/src/c/load.cc
index 12cb3c8..69c8976 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -26,8 +26,9 @@ SCM *scm_c_primitive_load(const char *filename) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
   
   // Use existing parse_file helper to get list of expressions
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  bool readable = true;
+  SCM_List *expr_list = parse_file(filename, &readable);
+  if (!readable) {
     eval_error("primitive-load: failed to load file: %s", filename);
   }
 
@@ -42,8 +43,9 @@ SCM *scm_c_primitive_load(const char *filename) {
 SCM *scm_c_primitive_load_with_env(const char *filename, SCM_Environment *env) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
 
-  SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  bool readable = true;
+  SCM_List *expr_list = parse_file(filename, &readable);
+  if (!readable) {
     eval_error("primitive-load: failed to load file: %s", filename);
     return nullptr;
   }
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 36e48cd..782412e 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1313,8 +1313,11 @@ static char *read_file_content(const char *filename) {
 }
 
 // Parse file and return list of expressions
-SCM_List *parse_file(const char *filename) {
+SCM_List *parse_file(const char *filename, bool *readable) {
   char *content = read_file_content(filename);
+  if (readable) {
+    *readable = content != nullptr;
+  }
   if (!content) {
     return nullptr;
   }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index ca274b4..3dc64db 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -756,7 +756,7 @@ SCM *scm_c_display(SCM_List *args);
  * Functions in parse.cc
  */
 SCM *parse(const char *s);
-SCM_List *parse_file(const char *filename);
+SCM_List *parse_file(const char *filename, bool *readable = nullptr);  // readable: whether the file could be read
 SCM_List *parse_string(const char *str);  // Parse string and return list of expressions
 
 /*
-- 
2.43.0


From 11abcfd387b2b8db837633ac7b446ad8d8b707db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 062/105] fix: pscm_parse_file reports an error in the file to
 the host

---
 src/c/pscm_api.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..97a965b 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -106,7 +106,26 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  struct Request {
+    const char *filename;
+    SCM_List *exprs;
+  } request = { filename, nullptr };
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        Request *request = (Request *)data;
+        bool readable = true;
+        SCM_List *exprs = parse_file(request->filename, &readable);
+        if (!readable) {
+          eval_error("cannot read file: %s", request->filename);
+        }
+        request->exprs = exprs;
+        return nullptr;
+      },
+      &request,
+      scm_api_catch_handler,
+      nullptr);
+  return request.exprs;
 }
 
 // Get the global environment
-- 
2.43.0


From 21d9b571b0189558a11b074d6c20a758f4f991a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 063/105] fix: output to a port keeps null characters, and a
 failing print does not leave stdout redirected

---
 src/c/string.cc | 116 ++++++++++++++++++++++--------------------------
 1 file changed, 52 insertions(+), 64 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 47d162c..cdff5e7 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <cstring>
 #include <ctype.h>
 #include <limits.h>
@@ -131,18 +132,17 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 }
 
 // Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
+static void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
   if (!port || port->is_closed) {
     return;
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
     if (port->file) {
-      fputs(str, port->file);
+      fwrite(str, 1, len, port->file);
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
-    while (port->output_len + len + 1 >= port->output_capacity) {
+    while (port->output_len + (int)len + 1 >= port->output_capacity) {
       port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
       port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
     }
@@ -172,6 +172,46 @@ static void write_char_to_port_string(SCM_Port *port, char ch) {
   }
 }
 
+// Print an object into memory; the caller frees the text
+static char *print_to_memory(SCM *obj, bool write_mode, size_t *len) {
+  struct Request {
+    SCM *obj;
+    bool write_mode;
+    FILE *old_stdout;
+    char *text;
+    size_t len;
+  } request = { obj, write_mode, stdout, nullptr, 0 };
+  
+  FILE *file = open_memstream(&request.text, &request.len);
+  if (!file) {
+    eval_error("cannot print to memory");
+    return nullptr;
+  }
+  stdout = file;
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        Request *request = (Request *)data;
+        print_ast(request->obj, request->write_mode);
+        return nullptr;
+      },
+      &request,
+      [](void *data, SCM *tag, SCM *args) -> SCM * {
+        // An object whose print function throws
+        Request *request = (Request *)data;
+        fclose(stdout);
+        stdout = request->old_stdout;
+        free(request->text);
+        scm_throw(tag, args);
+        return nullptr;
+      },
+      &request);
+  stdout = request.old_stdout;
+  fclose(file);
+  *len = request.len;
+  return request.text;
+}
+
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
 SCM *scm_c_display(SCM_List *args) {
@@ -196,36 +236,10 @@ SCM *scm_c_display(SCM_List *args) {
       eval_error("display: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, false);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, false);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("display: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    size_t len = 0;
+    char *text = print_to_memory(obj, false, &len);
+    write_string_to_port(port, text, len);
+    free(text);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
   }
@@ -256,36 +270,10 @@ SCM *scm_c_write(SCM_List *args) {
       eval_error("write: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, true);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, true);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("write: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    size_t len = 0;
+    char *text = print_to_memory(obj, true, &len);
+    write_string_to_port(port, text, len);
+    free(text);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
   }
-- 
2.43.0


From 96e95028eb206f20309ad90e46c476376a0e298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 064/105] fix: every output operation works on soft ports, also
 on those for reading and writing

---
 src/c/port.cc   | 61 +++++++++++++++++++++++++++++++++++++------------
 src/c/string.cc | 56 +++++++++------------------------------------
 2 files changed, 58 insertions(+), 59 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 2231696..920b593 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -45,6 +45,14 @@ bool is_eof_object(SCM *obj) {
          (obj && obj->type == SCM::NONE && obj->value == (void*)0xDEADBEEF);
 }
 
+// Whether a port can be written to. Soft ports can be both input and output ports.
+bool scm_port_can_write(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'w') != nullptr;
+  }
+  return !port->is_input;
+}
+
 // open-input-file: Open a file for input
 SCM *scm_c_open_input_file(SCM *filename) {
   if (!is_str(filename)) {
@@ -143,7 +151,7 @@ SCM *scm_c_close_output_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!scm_port_can_write(p)) {
     eval_error("close-output-port: expected output port");
     return nullptr;
   }
@@ -349,7 +357,7 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && scm_port_can_write(port)) {
     // Call procedure at index 0 (accept one character for output)
     if (!port->soft_procedures || port->soft_procedures->length < 1) {
       return;
@@ -364,6 +372,37 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
   }
 }
 
+// Write a text to a port
+void scm_port_write(SCM_Port *port, const char *str, size_t len) {
+  if (!port || port->is_closed) {
+    return;
+  }
+  
+  if (port->port_type == PORT_FILE_OUTPUT) {
+    if (port->file) {
+      fwrite(str, 1, len, port->file);
+    }
+  } else if (port->port_type == PORT_STRING_OUTPUT) {
+    while (port->output_len + (int)len + 1 >= port->output_capacity) {
+      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
+      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
+    }
+    memcpy(port->output_buffer + port->output_len, str, len);
+    port->output_len += len;
+    port->output_buffer[port->output_len] = '\0';
+  } else if (port->port_type == PORT_SOFT && scm_port_can_write(port)) {
+    // Call procedure at index 1 (accept a string for output)
+    if (!port->soft_procedures || port->soft_procedures->length < 2) {
+      return;
+    }
+    SCM *write_string_proc = port->soft_procedures->elements[1];
+    if (!write_string_proc || is_falsy(write_string_proc)) {
+      return;
+    }
+    scm_call_with_list(write_string_proc, make_list(scm_from_c_string_port(str, (int)len)));
+  }
+}
+
 // Helper function to flush a port
 static void flush_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -374,7 +413,7 @@ static void flush_port(SCM_Port *port) {
     if (port->file) {
       fflush(port->file);
     }
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && scm_port_can_write(port)) {
     // Call procedure at index 2 (flush output thunk)
     if (!port->soft_procedures || port->soft_procedures->length < 3) {
       return;
@@ -419,7 +458,7 @@ SCM *scm_set_current_error_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!scm_port_can_write(p)) {
     eval_error("set-current-error-port: expected output port");
     return nullptr;
   }
@@ -493,7 +532,7 @@ SCM *scm_set_current_output_port(SCM *port) {
     return nullptr;
   }
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!scm_port_can_write(p)) {
     eval_error("set-current-output-port: expected output port");
     return nullptr;
   }
@@ -522,7 +561,7 @@ SCM *scm_force_output(SCM_List *args) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!scm_port_can_write(p)) {
     eval_error("force-output: expected output port");
     return nullptr;
   }
@@ -795,7 +834,7 @@ SCM *scm_c_is_output_port(SCM *obj) {
     return scm_bool_false();
   }
   SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_false() : scm_bool_true();
+  return scm_port_can_write(port) ? scm_bool_true() : scm_bool_false();
 }
 
 // write-char: Write a character to a port
@@ -824,13 +863,7 @@ SCM *scm_c_write_char(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    // For soft ports, check modes string instead of is_input
-    if (port->port_type == PORT_SOFT) {
-      if (!port->soft_modes || strchr(port->soft_modes, 'w') == nullptr) {
-        eval_error("write-char: expected output port");
-        return nullptr;
-      }
-    } else if (port->is_input) {
+    if (!scm_port_can_write(port)) {
       eval_error("write-char: expected output port");
       return nullptr;
     }
diff --git a/src/c/string.cc b/src/c/string.cc
index cdff5e7..ecd8987 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -131,46 +131,10 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
-// Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fwrite(str, 1, len, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    while (port->output_len + (int)len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    memcpy(port->output_buffer + port->output_len, str, len);
-    port->output_len += len;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
-
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
+// Functions in port.cc
+bool scm_port_can_write(SCM_Port *port);
+void scm_port_write(SCM_Port *port, const char *str, size_t len);
+void write_char_to_port_string(SCM_Port *port, char ch);
 
 // Print an object into memory; the caller frees the text
 static char *print_to_memory(SCM *obj, bool write_mode, size_t *len) {
@@ -232,14 +196,15 @@ SCM *scm_c_display(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!scm_port_can_write(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
     size_t len = 0;
     char *text = print_to_memory(obj, false, &len);
-    write_string_to_port(port, text, len);
+    SCM_String *printed = cast<SCM_String>(scm_from_c_string(text, (int)len));
     free(text);
+    scm_port_write(port, printed->data, printed->len);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
   }
@@ -266,14 +231,15 @@ SCM *scm_c_write(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!scm_port_can_write(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
     size_t len = 0;
     char *text = print_to_memory(obj, true, &len);
-    write_string_to_port(port, text, len);
+    SCM_String *printed = cast<SCM_String>(scm_from_c_string(text, (int)len));
     free(text);
+    scm_port_write(port, printed->data, printed->len);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
   }
@@ -293,7 +259,7 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!scm_port_can_write(port)) {
       eval_error("newline: expected output port");
       return nullptr;
     }
-- 
2.43.0


From e50f3a3c204603baa452431be7df9ec6091d3a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 065/105] fix: peek-char and read work on soft ports

---
 src/c/port.cc      | 10 ++++++++++
 src/c/pscm_types.h |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/c/port.cc b/src/c/port.cc
index 920b593..90d0997 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -271,6 +271,10 @@ static int read_char_from_port(SCM_Port *port) {
     }
     return (unsigned char)port->string_data[port->string_pos++];
   } else if (port->port_type == PORT_SOFT && port->is_input) {
+    if (port->soft_has_peeked) {
+      port->soft_has_peeked = false;
+      return port->soft_peeked;
+    }
     // Call procedure at index 3 (get one character)
     if (!port->soft_procedures || port->soft_procedures->length < 4) {
       return EOF;
@@ -335,6 +339,12 @@ static int peek_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos];
+  } else if (port->port_type == PORT_SOFT && port->is_input) {
+    if (!port->soft_has_peeked) {
+      port->soft_peeked = read_char_from_port(port);
+      port->soft_has_peeked = true;
+    }
+    return port->soft_peeked;
   }
   
   return EOF;
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index be931c8..0bb1da9 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -164,6 +164,8 @@ struct SCM_Port {
   // [5] = (optional) thunk for computing number of characters available
   SCM_Vector *soft_procedures;  // Vector of procedures for soft port
   char *soft_modes;              // Modes string for soft port ("r", "w", "rw")
+  bool soft_has_peeked;          // Whether a character was peeked from the soft port and not read yet
+  int soft_peeked;               // That character, or EOF
 };
 
 struct SCM_Environment {
-- 
2.43.0


From d44755f4465a56266d7675fd4c31b9c593993366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 066/105] fix: read takes exactly one datum from a port

---
 src/c/port.cc | 228 +++++++++++++++++++++++++-------------------------
 1 file changed, 113 insertions(+), 115 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 90d0997..4410b0f 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -580,144 +580,142 @@ SCM *scm_force_output(SCM_List *args) {
   return scm_none();
 }
 
-// Helper function to read a complete expression from port
-// This reads characters until we have a complete expression
-static SCM *read_expr_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return scm_eof_object();
+// The text of the datum that is being read from a port
+struct DatumText {
+  char *data;
+  size_t len;
+  size_t capacity;
+};
+
+static void append_char(DatumText *text, int ch) {
+  if (text->len + 1 >= text->capacity) {
+    text->capacity *= 2;
+    text->data = (char *)realloc(text->data, text->capacity);
   }
-  
-  // Build a buffer with the expression
-  // Use dynamic allocation for large expressions
-  size_t buffer_size = 4096;
-  char *buffer = (char *)malloc(buffer_size);
-  if (!buffer) {
-    eval_error("read: out of memory");
-    return scm_eof_object();
+  text->data[text->len++] = (char)ch;
+  text->data[text->len] = '\0';
+}
+
+static bool is_datum_delimiter(int ch) {
+  return ch == EOF || isspace(ch) || strchr("()\";'`,", ch) != nullptr;
+}
+
+// Move the rest of a symbol, number or name from the port to the text
+static void take_token(SCM_Port *port, DatumText *text) {
+  while (!is_datum_delimiter(peek_char_from_port(port))) {
+    append_char(text, read_char_from_port(port));
   }
-  int pos = 0;
-  int paren_depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool started = false;
-  
-  // Skip leading whitespace and comments
+}
+
+// Move the text of one datum from the port to the text, without what follows it.
+// Returns false if the port ends before the end of the datum.
+static bool take_datum(SCM_Port *port, DatumText *text) {
+  int depth = 0;
   while (true) {
-    int ch = peek_char_from_port(port);
+    int ch = read_char_from_port(port);
     if (ch == EOF) {
-      if (!started) {
-        return scm_eof_object();
-      }
-      break;
+      return false;
     }
-    
-    // Skip whitespace
     if (isspace(ch)) {
-      read_char_from_port(port);  // Consume whitespace
+      append_char(text, ch);
       continue;
     }
-    
-    // Skip comments (lines starting with ;)
     if (ch == ';') {
-      // Read until end of line
-      while (true) {
-        int comment_ch = read_char_from_port(port);
-        if (comment_ch == EOF || comment_ch == '\n' || comment_ch == '\r') {
-          // Skip the newline if we read it
-          if (comment_ch == '\r') {
-            int next_ch = peek_char_from_port(port);
-            if (next_ch == '\n') {
-              read_char_from_port(port);
-            }
-          }
-          break;
-        }
+      // Comment: read until the end of the line
+      while (ch != EOF && ch != '\n') {
+        ch = read_char_from_port(port);
       }
+      append_char(text, '\n');
       continue;
     }
     
-    // Found non-whitespace, non-comment character
-    started = true;
-    break;
-  }
-  
-  if (!started) {
-    return scm_eof_object();
-  }
-  
-  // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
-    int ch = read_char_from_port(port);
-    if (ch == EOF) {
-      if (paren_depth == 0 && !in_string) {
-        break;
-      }
-      // Incomplete expression
-      free(buffer);
-      return scm_eof_object();
-    }
-    
-    // Resize buffer if needed
-    if (pos >= (int)buffer_size - 1) {
-      buffer_size *= 2;
-      char *new_buffer = (char *)realloc(buffer, buffer_size);
-      if (!new_buffer) {
-        free(buffer);
-        eval_error("read: out of memory");
-        return scm_eof_object();
+    append_char(text, ch);
+    if (ch == '\'' || ch == '`' || ch == ',') {
+      if (ch == ',' && peek_char_from_port(port) == '@') {
+        append_char(text, read_char_from_port(port));
       }
-      buffer = new_buffer;
-    }
-    
-    buffer[pos++] = (char)ch;
-    
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (ch == '\\' && in_string) {
-      escaped = true;
-      continue;
-    }
-    
-    if (ch == '"') {
-      in_string = !in_string;
-      continue;
+      continue; // the datum is what follows
     }
-    
-    if (in_string) {
+    if (ch == '(') {
+      depth++;
       continue;
     }
-    
-    if (ch == '(') {
-      paren_depth++;
-    } else if (ch == ')') {
-      paren_depth--;
-      if (paren_depth < 0) {
-        // Too many closing parens
-        break;
+    if (ch == ')') {
+      depth--;
+    } else if (ch == '"') {
+      bool escaped = false;
+      do {
+        ch = read_char_from_port(port);
+        if (ch == EOF) {
+          return false;
+        }
+        append_char(text, ch);
+        if (escaped) {
+          escaped = false;
+        } else if (ch == '\\') {
+          escaped = true;
+        } else if (ch == '"') {
+          break;
+        }
+      } while (true);
+    } else if (ch == '#' && peek_char_from_port(port) == '(') {
+      continue; // a vector
+    } else if (ch == '#' && peek_char_from_port(port) == '\\') {
+      // Character: any character may follow the backslash
+      append_char(text, read_char_from_port(port));
+      ch = read_char_from_port(port);
+      if (ch == EOF) {
+        return false;
       }
-      if (paren_depth == 0) {
-        // Complete expression
-        break;
+      append_char(text, ch);
+      if (!isspace(ch)) {
+        take_token(port, text);
       }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
-      break;
+    } else if (ch == '#' && peek_char_from_port(port) == '{') {
+      // Symbol #{...}#
+      int braces = 0;
+      do {
+        ch = read_char_from_port(port);
+        if (ch == EOF) {
+          return false;
+        }
+        append_char(text, ch);
+        if (ch == '{') {
+          braces++;
+        } else if (ch == '}') {
+          braces--;
+        }
+      } while (braces > 0);
+      take_token(port, text);
+    } else {
+      take_token(port, text);
+    }
+    
+    if (depth <= 0) {
+      return true;
     }
   }
+}
+
+// Helper function to read a complete expression from port
+// This reads characters until we have a complete expression
+static SCM *read_expr_from_port(SCM_Port *port) {
+  if (port->is_closed) {
+    return scm_eof_object();
+  }
   
-  buffer[pos] = '\0';
-  
-  // Parse the expression
-  SCM *result = parse(buffer);
-  
-  // Free the buffer
-  free(buffer);
+  DatumText text = { (char *)malloc(4096), 0, 4096 };
+  bool complete = take_datum(port, &text);
+  if (!complete) {
+    // End of input, perhaps in the middle of a datum
+    free(text.data);
+    return scm_eof_object();
+  }
   
-  return result;
+  // The parser may throw: let the text live in a string that is collected
+  SCM_String *s = cast<SCM_String>(scm_from_c_string_port(text.data, (int)text.len));
+  free(text.data);
+  return parse(s->data);
 }
 
 // read-char: Read a character from a port
-- 
2.43.0


From 10542ad19a5d28d340befe4d96a513909ddec18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 067/105] fix: closing a standard port does not close the file
 of the process

---
 src/c/port.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 4410b0f..d274104 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -111,6 +111,16 @@ SCM *scm_c_open_output_file(SCM *filename) {
   return wrap_port(port);
 }
 
+// Close the file of a port. The standard files stay open: the process goes on using them.
+static void close_file(SCM_Port *port) {
+  if (port->file == stdin || port->file == stdout || port->file == stderr) {
+    fflush(port->file);
+  } else {
+    fclose(port->file);
+  }
+  port->file = nullptr;
+}
+
 // close-input-port: Close an input port
 SCM *scm_c_close_input_port(SCM *port) {
   if (!is_port(port)) {
@@ -135,8 +145,7 @@ SCM *scm_c_close_input_port(SCM *port) {
       call_soft_port_thunk(close_proc);
     }
   } else if (p->file) {
-    fclose(p->file);
-    p->file = nullptr;
+    close_file(p);
   }
   p->is_closed = true;
   
@@ -167,8 +176,7 @@ SCM *scm_c_close_output_port(SCM *port) {
       call_soft_port_thunk(close_proc);
     }
   } else if (p->file) {
-    fclose(p->file);
-    p->file = nullptr;
+    close_file(p);
   } else if (p->output_buffer) {
     // For string output ports, buffer is kept for get-output-string
   }
-- 
2.43.0


From b3f2be431fa531327dd9c386b979f8a939c318d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 068/105] fix: the use of a closed port is an error

---
 src/c/port.cc   | 24 ++++++++++++++++++++++--
 src/c/string.cc | 10 ++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index d274104..72e2c07 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -53,6 +53,15 @@ bool scm_port_can_write(SCM_Port *port) {
   return !port->is_input;
 }
 
+// Report the use of a closed port
+bool scm_port_check_open(SCM_Port *port, const char *name) {
+  if (port->is_closed) {
+    eval_error("%s: port is closed", name);
+    return false;
+  }
+  return true;
+}
+
 // open-input-file: Open a file for input
 SCM *scm_c_open_input_file(SCM *filename) {
   if (!is_str(filename)) {
@@ -708,8 +717,8 @@ static bool take_datum(SCM_Port *port, DatumText *text) {
 // Helper function to read a complete expression from port
 // This reads characters until we have a complete expression
 static SCM *read_expr_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return scm_eof_object();
+  if (!scm_port_check_open(port, "read")) {
+    return nullptr;
   }
   
   DatumText text = { (char *)malloc(4096), 0, 4096 };
@@ -758,6 +767,10 @@ SCM *scm_c_read_char(SCM_List *args) {
     return nullptr;
   }
   
+  if (!scm_port_check_open(port, "read-char")) {
+    return nullptr;
+  }
+  
   int ch = read_char_from_port(port);
   if (ch == EOF) {
     return scm_eof_object();
@@ -792,6 +805,10 @@ SCM *scm_c_peek_char(SCM_List *args) {
     return nullptr;
   }
   
+  if (!scm_port_check_open(port, "peek-char")) {
+    return nullptr;
+  }
+  
   int ch = peek_char_from_port(port);
   if (ch == EOF) {
     return scm_eof_object();
@@ -883,6 +900,9 @@ SCM *scm_c_write_char(SCM_List *args) {
       eval_error("write-char: expected output port");
       return nullptr;
     }
+    if (!scm_port_check_open(port, "write-char")) {
+      return nullptr;
+    }
     write_char_to_port_string(port, ch);
   } else {
     // Write to stdout
diff --git a/src/c/string.cc b/src/c/string.cc
index ecd8987..51bcc9b 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -133,6 +133,7 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 
 // Functions in port.cc
 bool scm_port_can_write(SCM_Port *port);
+bool scm_port_check_open(SCM_Port *port, const char *name);
 void scm_port_write(SCM_Port *port, const char *str, size_t len);
 void write_char_to_port_string(SCM_Port *port, char ch);
 
@@ -200,6 +201,9 @@ SCM *scm_c_display(SCM_List *args) {
       eval_error("display: expected output port");
       return nullptr;
     }
+    if (!scm_port_check_open(port, "display")) {
+      return nullptr;
+    }
     size_t len = 0;
     char *text = print_to_memory(obj, false, &len);
     SCM_String *printed = cast<SCM_String>(scm_from_c_string(text, (int)len));
@@ -235,6 +239,9 @@ SCM *scm_c_write(SCM_List *args) {
       eval_error("write: expected output port");
       return nullptr;
     }
+    if (!scm_port_check_open(port, "write")) {
+      return nullptr;
+    }
     size_t len = 0;
     char *text = print_to_memory(obj, true, &len);
     SCM_String *printed = cast<SCM_String>(scm_from_c_string(text, (int)len));
@@ -263,6 +270,9 @@ SCM *scm_c_newline(SCM_List *args) {
       eval_error("newline: expected output port");
       return nullptr;
     }
+    if (!scm_port_check_open(port, "newline")) {
+      return nullptr;
+    }
     write_char_to_port_string(port, '\n');
   } else {
     // No arguments: output to stdout
-- 
2.43.0


From eab62fab4edb07694e35a70908a72f844ad4c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 069/105] fix: the current input and output ports are used when
 no port is given

---
 src/c/port.cc   | 28 +++++++++++++++++-----------
 src/c/string.cc |  7 +++++++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 72e2c07..02d3a62 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -497,6 +497,7 @@ SCM *scm_set_current_error_port(SCM *port) {
 // Global current input/output ports
 static SCM *g_current_input_port = nullptr;
 static SCM *g_current_output_port = nullptr;
+static SCM *g_stdout_port = nullptr;  // the initial current output port
 
 SCM *scm_current_input_port() {
   if (!g_current_input_port) {
@@ -549,10 +550,17 @@ SCM *scm_current_output_port() {
     port->soft_procedures = nullptr;
     port->soft_modes = nullptr;
     g_current_output_port = wrap_port(port);
+    g_stdout_port = g_current_output_port;
   }
   return g_current_output_port;
 }
 
+// The port for output without a port argument, or nullptr if it goes to stdout
+SCM *scm_default_output_port() {
+  SCM *port = scm_current_output_port();
+  return port == g_stdout_port && !cast<SCM_Port>(port)->is_closed ? nullptr : port;
+}
+
 SCM *scm_set_current_output_port(SCM *port) {
   if (!is_port(port)) {
     eval_error("set-current-output-port: expected port");
@@ -576,8 +584,9 @@ SCM *scm_force_output(SCM_List *args) {
   }
   
   if (!port || is_nil(port)) {
-    // Default to current output port (stdout)
-    // For now, just flush stdout
+    port = scm_default_output_port();
+  }
+  if (!port) {
     fflush(stdout);
     return scm_none();
   }
@@ -745,9 +754,7 @@ SCM *scm_c_read_char(SCM_List *args) {
   }
   
   if (!port_arg || is_nil(port_arg)) {
-    // Use stdin
-    eval_error("read-char: stdin port not yet implemented");
-    return nullptr;
+    port_arg = scm_current_input_port();
   }
   
   if (!is_port(port_arg)) {
@@ -789,9 +796,7 @@ SCM *scm_c_peek_char(SCM_List *args) {
   }
   
   if (!port_arg || is_nil(port_arg)) {
-    // Use stdin
-    eval_error("peek-char: stdin port not yet implemented");
-    return nullptr;
+    port_arg = scm_current_input_port();
   }
   
   if (!is_port(port_arg)) {
@@ -827,9 +832,7 @@ SCM *scm_c_read(SCM_List *args) {
   }
   
   if (!port_arg || is_nil(port_arg)) {
-    // Use stdin - for now, use parse from string
-    eval_error("read: stdin port not yet implemented");
-    return nullptr;
+    port_arg = scm_current_input_port();
   }
   
   if (!is_port(port_arg)) {
@@ -881,6 +884,8 @@ SCM *scm_c_write_char(SCM_List *args) {
   SCM *port_arg = nullptr;
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
+  } else {
+    port_arg = scm_default_output_port();
   }
   
   if (!is_char(char_arg)) {
@@ -1217,5 +1222,6 @@ void register_port_roots() {
   gc_register_root(&g_current_error_port, "g_current_error_port");
   gc_register_root(&g_current_input_port, "g_current_input_port");
   gc_register_root(&g_current_output_port, "g_current_output_port");
+  gc_register_root(&g_stdout_port, "g_stdout_port");
 }
 
diff --git a/src/c/string.cc b/src/c/string.cc
index 51bcc9b..b072268 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -132,6 +132,7 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
 }
 
 // Functions in port.cc
+SCM *scm_default_output_port();
 bool scm_port_can_write(SCM_Port *port);
 bool scm_port_check_open(SCM_Port *port, const char *name);
 void scm_port_write(SCM_Port *port, const char *str, size_t len);
@@ -189,6 +190,8 @@ SCM *scm_c_display(SCM_List *args) {
   SCM *port_arg = nullptr;
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
+  } else {
+    port_arg = scm_default_output_port();
   }
   
   if (port_arg) {
@@ -227,6 +230,8 @@ SCM *scm_c_write(SCM_List *args) {
   SCM *port_arg = nullptr;
   if (args->next && args->next->data && !is_nil(args->next->data)) {
     port_arg = args->next->data;
+  } else {
+    port_arg = scm_default_output_port();
   }
   
   if (port_arg) {
@@ -258,6 +263,8 @@ SCM *scm_c_newline(SCM_List *args) {
   SCM *port_arg = nullptr;
   if (args && args->data && !is_nil(args->data)) {
     port_arg = args->data;
+  } else {
+    port_arg = scm_default_output_port();
   }
   
   if (port_arg) {
-- 
2.43.0


From 964873946dab13d77f54346581cfbe8f07cee937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 070/105] fix: a keyword is read as the symbol that is written
 as it

---
 src/c/module.cc | 12 ++++++++++--
 src/c/parse.cc  | 10 +++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index c5a1b99..dcb5a00 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -714,6 +714,11 @@ SCM *scm_c_module_p(SCM *obj) {
   return is_module(obj) ? scm_bool_true() : scm_bool_false();
 }
 
+// Whether an option of define-module is a keyword rather than a name of the option before it
+static bool is_keyword(SCM *scm) {
+  return is_sym(scm) && cast<SCM_Symbol>(scm)->data[0] == ':';
+}
+
 // define-module special form
 SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
   // Syntax: (define-module name [options ...])
@@ -764,6 +769,9 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
     SCM *kw = opts->data;
     if (is_sym(kw)) {
       const char *kw_name = cast<SCM_Symbol>(kw)->data;
+      if (kw_name[0] == ':') {
+        kw_name++;
+      }
 
       if (strcmp(kw_name, "use-module") == 0 && opts->next) {
         // #:use-module (mod-name)
@@ -783,7 +791,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
       else if (strcmp(kw_name, "export") == 0) {
         // #:export sym ...
         opts = opts->next;
-        while (opts && opts->data && is_sym(opts->data)) {
+        while (opts && opts->data && is_sym(opts->data) && !is_keyword(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
           opts = opts->next;
@@ -806,7 +814,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           SCM_List sym_list_dummy = make_list_dummy();
           SCM_List *sym_list_tail = &sym_list_dummy;
           while (sym_tail) {
-            if (sym_tail->data && is_sym(sym_tail->data)) {
+            if (sym_tail->data && is_sym(sym_tail->data) && !is_keyword(sym_tail->data)) {
               SCM_List *node = make_list(sym_tail->data);
               sym_list_tail->next = node;
               sym_list_tail = node;
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 782412e..c88faec 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1123,14 +1123,14 @@ static SCM *parse_datum(Parser *p) {
   }
   
   // #:keyword syntax (Guile style keywords like #:use-module, #:export, etc.)
+  // A keyword is a symbol whose name starts with a colon
   if (p->pos[0] == '#' && p->pos[1] == ':') {
-    p->pos += 2; // skip #:
-    // Read the keyword name as a symbol
-    SCM *result = parse_symbol(p);
-    if (!result) {
+    if (is_delimiter(p->pos[2])) {
       parse_error(p, "expected identifier after #:");
     }
-    return result;
+    p->pos++; // skip #
+    p->column++;
+    return parse_symbol(p);
   }
 
   // #{...}# symbol reader syntax (Guile 1.8)
-- 
2.43.0


From 114e0422add650c9e03a375e19ab152ee17efa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 071/105] fix: a symbol with unbalanced braces in its name
 reads back as it is written

---
 src/c/parse.cc | 23 ++++++++++++++++++-----
 src/c/port.cc  |  9 ++++++++-
 src/c/print.cc | 15 ++++++++++++---
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index c88faec..fa856ca 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1142,9 +1142,16 @@ static SCM *parse_datum(Parser *p) {
     p->column += 2;
     const char *content_start = p->pos;
     int brace_depth = 1;
+    // A backslash takes away the meaning of the character after it
     while (*p->pos && brace_depth > 0) {
-      if (*p->pos == '{') brace_depth++;
-      else if (*p->pos == '}') brace_depth--;
+      if (*p->pos == '\\' && p->pos[1]) {
+        p->pos++;
+        p->column++;
+      } else if (*p->pos == '{') {
+        brace_depth++;
+      } else if (*p->pos == '}') {
+        brace_depth--;
+      }
       if (brace_depth > 0) {
         if (*p->pos == '\n') { p->line++; p->column = 0; }
         else p->column++;
@@ -1166,9 +1173,15 @@ static SCM *parse_datum(Parser *p) {
     p->column++;
 
     char *name = new char[content_len + 1];
-    memcpy(name, content_start, content_len);
-    name[content_len] = '\0';
-    SCM *sym = create_sym(name, content_len);
+    int name_len = 0;
+    for (int i = 0; i < content_len; i++) {
+      if (content_start[i] == '\\' && i + 1 < content_len) {
+        i++;
+      }
+      name[name_len++] = content_start[i];
+    }
+    name[name_len] = '\0';
+    SCM *sym = create_sym(name, name_len);
     set_source_location(sym, p->filename, sym_start_line, sym_start_col);
     delete[] name;
     return sym;
diff --git a/src/c/port.cc b/src/c/port.cc
index 02d3a62..fa307c8 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -706,7 +706,14 @@ static bool take_datum(SCM_Port *port, DatumText *text) {
           return false;
         }
         append_char(text, ch);
-        if (ch == '{') {
+        if (ch == '\\') {
+          // A backslash takes away the meaning of the character after it
+          ch = read_char_from_port(port);
+          if (ch == EOF) {
+            return false;
+          }
+          append_char(text, ch);
+        } else if (ch == '{') {
           braces++;
         } else if (ch == '}') {
           braces--;
diff --git a/src/c/print.cc b/src/c/print.cc
index 38093ee..20cda74 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -157,9 +157,18 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     if (sym->data && sym->data[0] == ':' && !quoted) {
       printf("#");
     }
-    printf("%s", quoted ? "#{" : "");
-    fwrite(sym->data, 1, sym->len, stdout);
-    printf("%s", quoted ? "}#" : "");
+    if (quoted) {
+      printf("#{");
+      for (int i = 0; i < sym->len; i++) {
+        if (strchr("{}\\", sym->data[i])) {
+          putchar('\\');
+        }
+        putchar(sym->data[i]);
+      }
+      printf("}#");
+    } else {
+      fwrite(sym->data, 1, sym->len, stdout);
+    }
     return;
   }
   if (is_str(ast)) {
-- 
2.43.0


From ff6a7533fe56fc039df48def5c0e2431b19befbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 072/105] fix: the symbol : is written as it is read

---
 src/c/print.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 20cda74..190978a 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -154,7 +154,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     auto sym = cast<SCM_Symbol>(ast);
     // Keywords (symbols starting with ':') should be printed as #:keyword-name
     bool quoted = write_mode && !is_plain_symbol(sym);
-    if (sym->data && sym->data[0] == ':' && !quoted) {
+    if (sym->len > 1 && sym->data[0] == ':' && !quoted) {
       printf("#");
     }
     if (quoted) {
-- 
2.43.0


From 108f2f8b2340abe8c84233846f7d465387c9b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 073/105] fix: a word on the stack that points next to the heap
 does not crash the collector

---
 src/c/gc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..c6bcdac 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -311,6 +311,15 @@ void gc_register_root(SCM **ptr, const char *name) {
 // Conservative root scanning
 // =========================================================================
 
+// Whether PTR is in the part of a heap segment that blocks were allocated from.
+// (The segments need not be adjacent: there may be anything between them.)
+static bool is_in_segment(const char *ptr) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (ptr >= seg->start && ptr < seg->bump) return true;
+  }
+  return false;
+}
+
 static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (!ptr) return;
   char *cptr = (char *)ptr;
@@ -322,6 +331,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
 
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
+  if (!is_in_segment((const char *)block_addr)) return;
 
   GCBlock *block = (GCBlock *)block_addr;
   if (block->gc_magic == GC_MAGIC) {
-- 
2.43.0


From e069db462033acbd1d391338356c90dd9e2b4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 074/105] fix: a stale pointer to a reclaimed block does not
 make the collector trace it

---
 src/c/gc.cc | 3 +++
 src/c/gc.h  | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c6bcdac..5e18f8c 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -116,6 +116,8 @@ static void trace_ptr(void *ptr, MarkStack *stack) {
 
 void push_if_unmarked(GCBlock *block, MarkStack *stack) {
   if (!is_valid_block(block)) return;
+  // A stale pointer to a block that was reclaimed
+  if (block->type_tag == GC_FREE) return;
   if (!block->mark) {
     block->mark = 1;
     stack->push_back(block);
@@ -140,6 +142,7 @@ static int size_to_bucket(size_t size) {
 
 static void free_to_list(GCBlock *block) {
   int b = size_to_bucket(block->size);
+  block->type_tag = GC_FREE;
   block->next_free = free_lists[b];
   free_lists[b] = block;
 }
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..59ab813 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -42,7 +42,9 @@ enum TypeTag : uint8_t {
   GC_MACRO,    // struct SCM_Macro
   GC_VARIABLE, // struct SCM_Variable
   GC_SMOB,     // struct SCM_Smob
-  GC_TYPE_COUNT
+  GC_TYPE_COUNT,
+
+  GC_FREE = 0xFF // a block on a free list
 };
 
 // Mark stack type
-- 
2.43.0


From 51ca0e0c3b1c6a5db55133e3ab6193941df220e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 075/105] fix: the collector keeps what the stack of a
 continuation refers to

---
 src/c/gc.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 5e18f8c..d42ee98 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -97,6 +97,7 @@ static void trace_promise(GCBlock *, MarkStack *);
 static void trace_macro(GCBlock *, MarkStack *);
 static void trace_variable(GCBlock *, MarkStack *);
 static void trace_smob(GCBlock *, MarkStack *);
+static void mark_if_valid_block(void *, MarkStack *);
 
 // =========================================================================
 // Helper: convert an arbitrary pointer to a GCBlock and push if valid
@@ -561,7 +562,16 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // The saved stack and registers are scanned as the current ones are.
+  if (cont->stack_data) {
+    void **words = (void **)cont->stack_data;
+    for (size_t i = 0; i < cont->stack_len; i++) {
+      mark_if_valid_block(words[i], stack);
+    }
+  }
+  for (size_t i = 0; i + sizeof(void *) <= sizeof(jmp_buf); i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)((char *)&cont->cont_jump_buffer + i), stack);
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 26fbc4128a6462016c624dc37721f633d667d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:34 +0000
Subject: [PATCH 076/105] fix: the sweep does not stop at a block whose size is
 not aligned

---
 src/c/gc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index d42ee98..a6c9513 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -245,7 +245,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
     block->size = class_size;
 
   } else {
-    // Large-object bucket (first-fit).
+    // Large-object bucket (first-fit).  The size is kept aligned, because the
+    // sweep finds the next block by it.
+    size_t alloc_size = (size + 15) & ~(size_t)15;
     GCBlock *prev = nullptr;
     block = free_lists[LARGE_BUCKET];
     while (block) {
@@ -264,8 +266,8 @@ void *gc_alloc(TypeTag tag, size_t size) {
 
     if (!block) {
       // No suitable free block -- bump-allocate fresh.
-      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + size);
-      block->size = size;
+      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + alloc_size);
+      block->size = alloc_size;
     } else {
       // Use the block as-is with its original size.  The sequential
       // layout during sweep depends on each block's size field
-- 
2.43.0


From 6a6e98a5193c42dd8174337874f9e00a591ee3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 077/105] fix: use-modules does not print the name of the
 module

---
 src/c/module.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index dcb5a00..4e68446 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -861,7 +861,6 @@ SCM *eval_use_modules(SCM_Environment *env, SCM_List *l) {
     if (is_pair(spec_scm)) {
       SCM_List *name = cast<SCM_List>(spec_scm);
       SCM *module_scm = scm_resolve_module(name);
-      print_list(name); printf("\n");
       SCM_Module *module = cast<SCM_Module>(module_scm);
       
       // Get module's public interface
-- 
2.43.0


From d9da11977b049bdad3c817f54ef375565068fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 078/105] fix: what is defined inside a procedure of a module
 is local to it

---
 src/c/macro.cc | 6 ++++--
 src/c/pscm.h   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 69ffad0..1342927 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -66,7 +66,8 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     // a parent chain, so env->parent alone doesn't distinguish module
     // scope from lambda scope).
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    bool top_level = !env->parent || env->module;
+    if (top_level && current_mod && is_module(current_mod) && current_mod != g_root_module) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
     } else if (env->parent) {
@@ -111,7 +112,8 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
   // Module-aware insertion: check module first
   SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+  bool top_level = !env->parent || env->module;
+  if (top_level && current_mod && is_module(current_mod) && current_mod != g_root_module) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else if (env->parent) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 3dc64db..62367e7 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -201,7 +201,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
 inline SCM_Environment *make_env(SCM_Environment *parent) {
   auto env = (SCM_Environment *)gc_alloc(GC_ENV, sizeof(SCM_Environment));
   env->parent = parent;
-  env->module = parent ? parent->module : nullptr;
+  env->module = nullptr;
   env->dummy.data = nullptr;
   env->dummy.next = nullptr;
   return env;
-- 
2.43.0


From ab815deb48d66675c402b74d1805ae38ed421f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 079/105] fix: code of a module finds the names of its module
 wherever it is called from, and those before the built-in ones

---
 src/c/environment.cc | 77 +++++++++++++------------------------
 src/c/eval.cc        | 90 +++++++++++++++++++++-----------------------
 src/c/gc.cc          |  1 +
 src/c/module.cc      | 42 +++++++++++++++++++--
 src/c/pscm.h         |  3 ++
 src/c/pscm_types.h   |  1 +
 6 files changed, 112 insertions(+), 102 deletions(-)

diff --git a/src/c/environment.cc b/src/c/environment.cc
index 98ccd7b..0679acf 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -55,63 +55,40 @@ SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym) {
 }
 
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
-  // 1. First search in lexical environment (local bindings, no parent search)
-  // This ensures local bindings in let/lambda take precedence
-  auto ret = scm_env_exist(env, sym);
-  if (ret) {
-    return ret;
-  }
-  
-  // 2. Search in parent environments (let/lambda bindings)
-  // This must come before module search to ensure lexical scoping works correctly
-  // Parent environments (from let/lambda) should take precedence over module bindings
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-  if (entry) {
-    return entry->value;  // Value can be null (e.g., for #f)
-  }
-
-  // 2.5. Search the module baked into the environment chain (if any).
-  // This finds module-private variables (e.g. cur-props in tm-define.scm)
-  // during evaluation of code loaded inside that module.  The module is
-  // set by make_module_environment when the module's file is loaded.
-  // We walk the parent chain to find the first non-null module pointer;
-  // child environments inherit it from make_module_environment via make_env.
-  {
-    SCM_Environment *e = env;
-    while (e) {
-      if (e->module) {
-        SCM *var = module_search_variable(e->module, sym);
-        if (var) {
-          return var;
-        }
-        break;  // found a module but symbol wasn't in it; don't check again
-      }
-      e = e->parent;
+  // 1. Search the lexical environment (let/lambda bindings), up to the top level
+  SCM_Environment *e = env;
+  while (e && e != &g_env) {
+    auto entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
+    if (entry) {
+      return entry->value;  // Value can be null (e.g., for #f)
+    }
+    if (e->module) {
+      break;
     }
+    e = e->parent;
   }
 
-  // 3. If current module exists, search in module (module bindings override global)
-  // This is important: when define is used in a module, it should shadow global bindings
-  // But module bindings come after lexical bindings (let/lambda)
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod)) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    SCM *var = module_search_variable(module, sym);
+  // 2. The module the code belongs to: its own bindings and those of the modules it uses
+  // hide global ones.  A global binding hides one of the root module.
+  SCM_Module *module = scm_env_module(env);
+  bool is_root = module == cast<SCM_Module>(g_root_module);
+  if (!is_root) {
+    SCM *var = module_search_bindings(module, sym);
     if (var) {
       return var;  // Found (value can be #f)
     }
   }
-  
-  // 4. Finally, search in global environment (g_env) if we haven't found it yet
-  // This ensures built-in functions registered via scm_define_function are accessible
-  // This is needed because when env != &g_env, we need to check g_env for built-ins
-  // When env == &g_env, we've already searched it in step 1 and 2, so this is a fallback
-  // for cases where the symbol might be in g_env but not found in the current search path
-  if (env != &g_env) {
-    auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
-    if (global_entry) {
-      return global_entry->value;  // Value can be null (e.g., for #f)
-    }
+
+  // 3. The global environment: built-in functions registered via scm_define_function
+  auto global_entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+  if (global_entry) {
+    return global_entry->value;  // Value can be null (e.g., for #f)
+  }
+
+  // 4. The bindings of the root module, the binder, and what is loaded on demand
+  SCM *var = module_search_variable(module, sym);
+  if (var) {
+    return var;  // Found (value can be #f)
   }
 
   // Try to get source location from current eval context for debugging
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 8e05433..850f380 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -88,37 +88,37 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     return nullptr;
   }
   
-  // First try to update in current environment (no parent search)
-  // This ensures set! updates the binding in the current lexical scope
-  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
+  // First the variables of the enclosing procedures, then those of the module the code belongs to
+  SCM_Environment::Entry *entry = nullptr;
+  SCM_Environment *e = env;
+  while (e && e != &g_env && !entry) {
+    entry = scm_env_search_entry(e, sym, /*search_parent=*/false);
+    if (e->module) {
+      break;
+    }
+    e = e->parent;
+  }
+  SCM_Module *module = scm_env_module(env);
+  SCM_Module *var_module = nullptr;
+  if (!entry && module != cast<SCM_Module>(g_root_module)) {
+    var_module = module_find_variable_module(module, sym);
+  }
+  if (!entry && !var_module) {
+    entry = scm_env_search_entry(&g_env, sym, /*search_parent=*/false);
+  }
+  if (!entry && !var_module) {
+    var_module = module_find_variable_module(module, sym);
+  }
   if (entry) {
     entry->value = val;
+  } else if (var_module) {
+    // Variable exists in a module, update it
+    scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
   } else {
-    // Not found in current environment, search in parent environments
-    // This handles cases where set! is used to update a binding in a parent scope
-    entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
-    if (entry) {
-      entry->value = val;
-    } else {
-      // Not found in environment, check if it's in the current module
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
-        if (var_module) {
-          // Variable exists in a module, update it
-          scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-        } else {
-          // Variable not found in any module, create new binding in environment
-          scm_env_insert(env, sym, val, /*search_parent=*/false);
-        }
-      } else {
-        // No module, create new binding in environment
-        scm_env_insert(env, sym, val, /*search_parent=*/false);
-      }
-    }
+    // Variable not found in any module, create new binding in environment
+    scm_env_insert(env, sym, val, /*search_parent=*/false);
   }
-  
+
   if (debug_enabled) {
     SCM_DEBUG_EVAL("set! ");
     printf("%s to ", sym->data);
@@ -250,6 +250,12 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
 
+  // Code at the top level belongs to the current module
+  if (env == &g_env || env->module) {
+    SCM *current = scm_current_module();
+    env = current == g_root_module ? &g_env : scm_module_environment(cast<SCM_Module>(current));
+  }
+
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
 
@@ -291,28 +297,14 @@ entry:
     // Check if this is a macro call (before checking special forms)
     SCM *val = scm_env_exist(env, sym);
     // A variable of an enclosing procedure hides a macro of the module or the top level
-    for (SCM_Environment *e = env->parent; !val && e && e != &g_env && !e->module; e = e->parent) {
-      val = scm_env_exist(e, sym);
+    for (SCM_Environment *e = env; !val && e->parent && e->parent != &g_env && !e->module; e = e->parent) {
+      val = scm_env_exist(e->parent, sym);
     }
-    if (!val) {
-      // Search module obarray + use chain for macros imported via use-modules.
-      // Only when we're in a non-root module (root has everything in g_env already).
-      SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM *var = module_obarray_lookup(module, sym);
-        if (!var) {
-          // Search uses list
-          SCM_List *uses = module->uses;
-          while (uses && !var) {
-            SCM *use_mod = uses->data;
-            if (is_module(use_mod))
-              var = module_obarray_lookup(cast<SCM_Module>(use_mod), sym);
-            uses = uses->next;
-          }
-        }
-        val = var;
-      }
+    // Macros of the module the code belongs to and of the modules it uses
+    SCM_Module *module = scm_env_module(env);
+    bool is_root = module == cast<SCM_Module>(g_root_module);
+    if (!val && !is_root) {
+      val = module_search_bindings(module, sym);
     }
     // Fallback: search global environment for macros defined at top
     // level (e.g., texmacs-module in boot.scm). These go into g_env
@@ -324,6 +316,8 @@ entry:
       SCM *g_val = scm_env_exist(&g_env, sym);
       if (g_val && is_macro(g_val)) {
         val = g_val;
+      } else if (!g_val && is_root) {
+        val = module_search_bindings(module, sym);
       }
     }
     if (val && is_macro(val)) {
diff --git a/src/c/gc.cc b/src/c/gc.cc
index a6c9513..44f6b94 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -589,6 +589,7 @@ static void trace_module(GCBlock *block, MarkStack *stack) {
   trace_ptr(mod->public_interface,   stack); // SCM_Module*
   trace_ptr(mod->exports,            stack); // SCM_List*
   trace_ptr(mod->autoload_specs,     stack); // SCM_List*
+  trace_ptr(mod->environment,        stack); // SCM_Environment*
 }
 
 // --- GC_PORT ----------------------------------------------------------
diff --git a/src/c/module.cc b/src/c/module.cc
index 4e68446..fed3e46 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -34,6 +34,7 @@ SCM *scm_make_module(SCM_List *name, int obarray_size) {
   module->public_interface = nullptr;
   module->exports = nullptr;
   module->autoload_specs = nullptr;
+  module->environment = nullptr;
 
   return wrap(module);
 }
@@ -63,6 +64,27 @@ SCM *scm_set_current_module(SCM *module) {
   return old;
 }
 
+// The environment in which the code at the top level of a module is evaluated
+SCM_Environment *scm_module_environment(SCM_Module *module) {
+  if (!module->environment) {
+    module->environment = make_module_environment(module, &g_env);
+  }
+  return module->environment;
+}
+
+// The module in which the free names of code with the given environment are looked up
+SCM_Module *scm_env_module(SCM_Environment *env) {
+  if (env == &g_env) {
+    return cast<SCM_Module>(scm_current_module());
+  }
+  for (SCM_Environment *e = env; e; e = e->parent) {
+    if (e->module) {
+      return e->module;
+    }
+  }
+  return cast<SCM_Module>(g_root_module);
+}
+
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -80,10 +102,9 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
-// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
+// Search the bindings that exist: those of the module, of the modules it uses and of the root module
 // Returns the value if found (can be #f), or nullptr if not found
-// This allows us to distinguish between "not found" and "value is #f"
-SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
+SCM *module_search_bindings(SCM_Module *module, SCM_Symbol *sym) {
   // 1. Check module obarray
   SCM *var = module_obarray_lookup(module, sym);
   if (var) {
@@ -113,6 +134,19 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     }
   }
 
+  return nullptr;  // Not found
+}
+
+// Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
+// Returns the value if found (can be #f), or nullptr if not found
+// This allows us to distinguish between "not found" and "value is #f"
+SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
+  // 1.-3. Existing bindings
+  SCM *var = module_search_bindings(module, sym);
+  if (var) {
+    return var;
+  }
+
   // 4. Call binder (if exists), with recursion guard
   if (module->binder && !g_in_binder_call) {
     g_in_binder_call = true;
@@ -400,7 +434,7 @@ SCM *scm_resolve_module(SCM_List *name) {
     // file (including macro transformers) capture the module's obarray
     // in their environment chain via proc->env.
     SCM_Module *mod = cast<SCM_Module>(module);
-    SCM_Environment *module_env = make_module_environment(mod, &g_env);
+    SCM_Environment *module_env = scm_module_environment(mod);
 
     // Set current module for define forms (they check scm_current_module
     // to decide where to insert bindings).
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 62367e7..b9e04d7 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1059,6 +1059,9 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 // Module helper functions (for internal use, but may be used by other modules)
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
+SCM *module_search_bindings(SCM_Module *module, SCM_Symbol *sym);
+SCM_Environment *scm_module_environment(SCM_Module *module);
+SCM_Module *scm_env_module(SCM_Environment *env);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
 
 template <typename F>
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 0bb1da9..dae3ca7 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -134,6 +134,7 @@ struct SCM_Module {
   SCM_Module *public_interface; // Public interface module (points to another module object)
   SCM_List *exports;            // List of exported symbols (for public interface)
   SCM_List *autoload_specs;     // List of (mod-name . sym-list) for autoload
+  SCM_Environment *environment; // The environment of the code of the module; nullptr until first needed
 };
 
 // Variable object (wraps a value, similar to Guile's variable cells)
-- 
2.43.0


From b2e19fc14a2083f14b90981b892bcfd61cd7fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 080/105] fix: an export shares the binding, also one that is
 made or changed later

---
 src/c/module.cc | 63 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 11 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index fed3e46..fcbd0ff 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -85,18 +85,56 @@ SCM_Module *scm_env_module(SCM_Environment *env) {
   return cast<SCM_Module>(g_root_module);
 }
 
+// The public interface of a module lists the names it exports; their bindings are those of the module
+static bool is_interface(SCM_Module *module) {
+  return module->public_interface && module->public_interface->public_interface == module && module->kind &&
+         strcmp(module->kind->data, "interface") == 0;
+}
+
+// The module whose obarray holds the binding of a name that an interface exports, or nullptr
+static SCM_Module *exported_variable_module(SCM_Module *interface, SCM_Symbol *sym) {
+  SCM *handle = scm_c_hash_get_handle_eq(wrap(interface->obarray), wrap(sym));
+  if (!handle || !is_pair(handle)) {
+    return nullptr;
+  }
+  // Modules that use each other may export a name which none of them defines
+  struct Search {
+    SCM_Module *interface;
+    Search *outer;
+  };
+  static Search *g_searches = nullptr;
+  for (Search *s = g_searches; s; s = s->outer) {
+    if (s->interface == interface) {
+      return nullptr;
+    }
+  }
+  Search search = { interface, g_searches };
+  g_searches = &search;
+  SCM_Module *owner = module_find_variable_module(interface->public_interface, sym);
+  g_searches = search.outer;
+  return owner;
+}
+
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
-  
+  if (is_interface(module)) {
+    SCM_Module *owner = exported_variable_module(module, sym);
+    if (owner) {
+      return module_obarray_lookup(owner, sym);
+    }
+  }
+
   SCM *handle = scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
   // hash-get-handle returns #f if key not found, or (key . value) if found
   // We check if handle is #f (not found) vs. a pair (found, value could be #f)
   if (handle && handle != scm_bool_false() && is_pair(handle)) {
     // Handle exists (it's a pair, not #f)
     // handle is the entry pair (key . value) wrapped
-    return cdr(handle);  // Return value (can be #f)
+    SCM *value = cdr(handle);
+    // A name that is exported but not defined yet
+    return value == scm_none() && is_interface(module) ? nullptr : value;  // Return value (can be #f)
   }
   
   return nullptr;  // Not found
@@ -232,7 +270,8 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
     if (is_module(use_module_scm)) {
       SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
       if (module_obarray_lookup(use_module, sym)) {
-        return use_module;  // Found in use module
+        // Found in use module; the binding of an exported name is that of the module which exports it
+        return is_interface(use_module) ? exported_variable_module(use_module, sym) : use_module;
       }
     }
     uses = uses->next;
@@ -495,10 +534,7 @@ static SCM_Module *scm_ensure_public_interface(SCM_Module *module) {
   while (exp) {
     if (exp->data && is_sym(exp->data)) {
       SCM_Symbol *sym = cast<SCM_Symbol>(exp->data);
-      SCM *val = module_obarray_lookup(module, sym);
-      if (val) {
-        scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-      }
+      scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), scm_none());
     }
     exp = exp->next;
   }
@@ -521,9 +557,9 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym) {
   // re-export after use-modules works: the symbol may live in a used
   // module's obarray, not the current module's own obarray.
   SCM *val = module_search_variable(module, sym);
-  if (val) {
-    scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-  }
+  // An existing binding is found through the module; only what its binder returned is kept here
+  bool bound = !val || module_find_variable_module(module, sym);
+  scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), bound ? scm_none() : val);
 }
 
 // Update module's public interface
@@ -1033,7 +1069,12 @@ SCM *scm_c_module_map(SCM_List *args) {
           auto entry = cast<SCM_List>(l->data);
           if (entry->data) {
             // Call proc with (key value)
-            SCM *proc_result = scm_call_with_list(proc, make_list(entry->data, cdr(l->data)));
+            SCM *value = module_obarray_lookup(mod, cast<SCM_Symbol>(entry->data));
+            if (!value) {
+              l = l->next;
+              continue;
+            }
+            SCM *proc_result = scm_call_with_list(proc, make_list(entry->data, value));
             
             // Append result to result list
             SCM_List *new_node = make_list(proc_result);
-- 
2.43.0


From 4f66b3ef571fa7efb0dc39a979432f468a5e73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 081/105] fix: the list forms of #:export and #:autoload, and
 options after #:autoload

---
 src/c/module.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index fcbd0ff..baa7926 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -859,8 +859,17 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         opts = opts->next;
       }
       else if (strcmp(kw_name, "export") == 0) {
-        // #:export sym ...
+        // #:export sym ... or #:export (sym ...)
         opts = opts->next;
+        if (opts && is_pair(opts->data)) {
+          for (SCM_List *s = cast<SCM_List>(opts->data); s; s = s->next) {
+            if (s->data && is_sym(s->data)) {
+              scm_module_export(cast<SCM_Module>(module_scm), cast<SCM_Symbol>(s->data));
+            }
+          }
+          opts = opts->next;
+          continue;
+        }
         while (opts && opts->data && is_sym(opts->data) && !is_keyword(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
@@ -879,12 +888,16 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         if (is_pair(mod_name_spec)) {
           SCM_List *mod_name = cast<SCM_List>(mod_name_spec);
           // Collect symbols from opts->next->next onward
+          // or the list of them
           SCM_List *sym_tail = opts->next->next;
+          if (sym_tail && is_pair(sym_tail->data)) {
+            sym_tail = cast<SCM_List>(sym_tail->data);
+          }
           // Build symbol list: (sym1 sym2 ...)
           SCM_List sym_list_dummy = make_list_dummy();
           SCM_List *sym_list_tail = &sym_list_dummy;
-          while (sym_tail) {
-            if (sym_tail->data && is_sym(sym_tail->data) && !is_keyword(sym_tail->data)) {
+          while (sym_tail && !(sym_tail->data && is_keyword(sym_tail->data))) {
+            if (sym_tail->data && is_sym(sym_tail->data)) {
               SCM_List *node = make_list(sym_tail->data);
               sym_list_tail->next = node;
               sym_list_tail = node;
-- 
2.43.0


From 67742e5056785193846b5719dda0232347f1384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 082/105] fix: a failing load of a module goes back to the
 module it was started in

---
 src/c/module.cc | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index baa7926..5f7a5da 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -480,7 +481,27 @@ SCM *scm_resolve_module(SCM_List *name) {
     scm_set_current_module(module);
 
     // Load and evaluate file in module-aware environment
-    scm_c_primitive_load_with_env(found_path, module_env);
+    struct Request {
+      char *path;
+      SCM_Environment *env;
+      SCM *old_module;
+    } request = { full_path, module_env, old_module };
+    scm_c_catch(
+        scm_bool_true(),
+        [](void *data) -> SCM * {
+          Request *request = (Request *)data;
+          return scm_c_primitive_load_with_env(request->path, request->env);
+        },
+        &request,
+        [](void *data, SCM *tag, SCM *args) -> SCM * {
+          // The load failed: go back to the module it was started in
+          Request *request = (Request *)data;
+          free(request->path);
+          scm_set_current_module(request->old_module);
+          scm_throw(tag, args);
+          return nullptr;
+        },
+        &request);
 
     // Restore current module
     scm_set_current_module(old_module);
@@ -1168,6 +1189,13 @@ SCM *scm_c_module_use(SCM_List *args) {
   return scm_none();
 }
 
+// Handler of errors for what was started in another module
+static SCM *restore_module_and_rethrow(void *old_module, SCM *tag, SCM *args) {
+  scm_set_current_module((SCM *)old_module);
+  scm_throw(tag, args);
+  return nullptr;
+}
+
 // Temporarily set current module, call func, restore on exit (Guile 1.8 compatible).
 SCM *scm_c_call_with_current_module(SCM *module,
                                     SCM *(*func)(void *), void *data) {
@@ -1177,7 +1205,7 @@ SCM *scm_c_call_with_current_module(SCM *module,
   }
   SCM *old = scm_set_current_module(module);
 
-  SCM *result = func(data);
+  SCM *result = scm_c_catch(scm_bool_true(), func, data, restore_module_and_rethrow, old);
 
   scm_set_current_module(old);
   return result;
@@ -1202,7 +1230,20 @@ SCM *scm_c_define_module(const char *name,
   if (init) {
     SCM *old = scm_current_module();
     g_current_module = module;
-    init(data);
+    struct Request {
+      void (*init)(void *);
+      void *data;
+    } request = { init, data };
+    scm_c_catch(
+        scm_bool_true(),
+        [](void *data) -> SCM * {
+          Request *request = (Request *)data;
+          request->init(request->data);
+          return nullptr;
+        },
+        &request,
+        restore_module_and_rethrow,
+        old);
     g_current_module = old;
   }
 
-- 
2.43.0


From 747791eb8586994237236eb18f24cfa7c914fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 083/105] fix: module-bound? of a variable whose value is false

---
 src/c/module.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 5f7a5da..91ac8e7 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -796,9 +796,8 @@ SCM *scm_c_module_bound_p(SCM *module, SCM *symbol) {
   
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *sym = cast<SCM_Symbol>(symbol);
-  SCM *var = scm_module_variable(mod, sym, false);
-  
-  return var && !is_falsy(var) ? scm_bool_true() : scm_bool_false();
+  // A variable whose value is #f is bound, too
+  return module_search_variable(mod, sym) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_module_p(SCM *obj) {
-- 
2.43.0


From fed0ede75ca91b3871b674062c95823e597363fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 084/105] fix: a module that is used before it exports
 something shows only what it exports

---
 src/c/module.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 91ac8e7..22af406 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -92,6 +92,11 @@ static bool is_interface(SCM_Module *module) {
          strcmp(module->kind->data, "interface") == 0;
 }
 
+// What a used module makes visible: all its names, until it exports some
+static SCM_Module *used_interface(SCM_Module *module) {
+  return module->public_interface && !is_interface(module) ? module->public_interface : module;
+}
+
 // The module whose obarray holds the binding of a name that an interface exports, or nullptr
 static SCM_Module *exported_variable_module(SCM_Module *interface, SCM_Symbol *sym) {
   SCM *handle = scm_c_hash_get_handle_eq(wrap(interface->obarray), wrap(sym));
@@ -155,7 +160,7 @@ SCM *module_search_bindings(SCM_Module *module, SCM_Symbol *sym) {
   while (uses) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
+      SCM_Module *use_module = used_interface(cast<SCM_Module>(use_module_scm));
       var = module_obarray_lookup(use_module, sym);
       if (var) {
         return var;  // Found (value can be #f)
@@ -269,7 +274,7 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
   while (uses) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
-      SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
+      SCM_Module *use_module = used_interface(cast<SCM_Module>(use_module_scm));
       if (module_obarray_lookup(use_module, sym)) {
         // Found in use module; the binding of an exported name is that of the module which exports it
         return is_interface(use_module) ? exported_variable_module(use_module, sym) : use_module;
-- 
2.43.0


From 44d722a22c6b37cdaa1eaa51853a3ebcfebd4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 085/105] fix: two references to one object are eq?, whatever
 wrappers they use

---
 src/c/eq.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index b8190a2..401592c 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -150,8 +150,8 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eq? uses pointer equality
-    return scm_bool_false();
+    // Identity: several wrappers can refer to the same object
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -170,7 +170,7 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   }
 }
 
@@ -206,8 +206,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, eqv? uses pointer equality (same as eq?)
-    return scm_bool_false();
+    // Identity: several wrappers can refer to the same object
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -226,7 +226,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   }
 }
 
@@ -259,8 +259,8 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
   case SCM::MACRO:
   case SCM::HASH_TABLE:
   case SCM::PORT:
-    // For compound types, equal? uses pointer equality (same as eq?)
-    return false;
+    // Identity: several wrappers can refer to the same object
+    return lhs->value == rhs->value;
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -296,7 +296,7 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
       }
     }
   default:
-    return false;
+    return lhs->value == rhs->value;
   }
 }
 
-- 
2.43.0


From 43e3e8ab32ae4e3de0224b6a797114518c028033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 086/105] fix: a module binder that failed is called again the
 next time

---
 src/c/module.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 22af406..b4ad3f3 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -198,7 +198,24 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
     // Arguments are already evaluated values, not AST nodes
     // Use apply_procedure_with_values to pass them directly without re-evaluation
     SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
-    SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
+    struct Request {
+      SCM_Procedure *binder;
+      SCM_List *args;
+    } request = { module->binder, cast<SCM_List>(args) };
+    SCM *result = scm_c_catch(
+        scm_bool_true(),
+        [](void *data) -> SCM * {
+          Request *request = (Request *)data;
+          return apply_procedure_with_values(&g_env, request->binder, request->args);
+        },
+        &request,
+        [](void *data, SCM *tag, SCM *args) -> SCM * {
+          // The binder failed: it is called again the next time
+          g_in_binder_call = false;
+          scm_throw(tag, args);
+          return nullptr;
+        },
+        nullptr);
     g_in_binder_call = false;
     if (result && !is_falsy(result)) {
       // Binder returns a variable object, unwrap it to get the value
-- 
2.43.0


From 5e9415fa1bc0b45a779bec50f78d59ba36cb6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 087/105] fix: a host definition in the initial module replaces
 a global one of that name

---
 src/c/module.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index b4ad3f3..8baab8a 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -622,6 +622,15 @@ SCM *scm_c_set_current_module(SCM *module) {
   return scm_set_current_module(module);
 }
 
+// Insert or overwrite the binding of a module. In the root module a global binding comes first.
+static void module_define(SCM_Module *mod, SCM_Symbol *sym, SCM *val) {
+  if (mod == cast<SCM_Module>(g_root_module) && scm_env_search_entry(&g_env, sym, /*search_parent=*/false)) {
+    scm_env_insert(&g_env, sym, val, /*search_parent=*/false);
+    return;
+  }
+  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+}
+
 // Define a variable in the current module (Guile 1.8 compatible).
 // Inserts or overwrites the binding in the module's obarray.
 // Returns a variable object wrapping the value.
@@ -630,7 +639,7 @@ SCM *scm_c_define(const char *name, SCM *val) {
   SCM *module = scm_current_module();
   SCM_Module *mod = cast<SCM_Module>(module);
 
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
 
   return scm_make_variable(val);
 }
@@ -712,7 +721,7 @@ SCM *scm_c_module_define(SCM *module, const char *name, SCM *val) {
   }
   SCM_Symbol *sym = make_sym(name);
   SCM_Module *mod = cast<SCM_Module>(module);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
   return scm_make_variable(val);
 }
 
@@ -746,7 +755,7 @@ SCM *scm_module_define(SCM *module, SCM *sym, SCM *val) {
   }
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *s = cast<SCM_Symbol>(sym);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(s), val);
+  module_define(mod, s, val);
   return scm_make_variable(val);
 }
 
-- 
2.43.0


From fd474e0b7b35f1840d281c494870a9f7bb8a65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 088/105] fix: the host finds what the code of a module finds,
 also global names

---
 src/c/module.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 8baab8a..4c1f4c0 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -706,7 +706,7 @@ SCM *scm_c_module_lookup(SCM *module, const char *name) {
   }
   SCM_Symbol *sym = make_sym(name);
   SCM_Module *mod = cast<SCM_Module>(module);
-  SCM *val = module_search_variable(mod, sym);
+  SCM *val = scm_env_search(scm_module_environment(mod), sym);
   if (!val) {
     eval_error("scm_c_module_lookup: unbound variable: %s", name);
     return nullptr;
@@ -736,7 +736,7 @@ SCM *scm_module_lookup(SCM *module, SCM *sym) {
   }
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *s = cast<SCM_Symbol>(sym);
-  SCM *val = module_search_variable(mod, s);
+  SCM *val = scm_env_search(scm_module_environment(mod), s);
   if (!val) {
     eval_error("module-lookup: unbound variable");
     return nullptr;
-- 
2.43.0


From 469eb0a1d3a76aa618938bda0e7568883627731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 089/105] fix: procedures of the host get at least the required
 and at most the optional arguments

---
 src/c/function.cc  | 2 +-
 src/c/module.cc    | 3 ++-
 src/c/pscm.h       | 1 +
 src/c/pscm_types.h | 1 +
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c/function.cc b/src/c/function.cc
index fdc6441..e63688d 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -86,7 +86,7 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
     for (SCM_List *it = l->next; it; it = it->next) {
       n++;
     }
-    if (func->max_args >= 0 && n > func->max_args) {
+    if (n < func->min_args || (func->max_args >= 0 && n > func->max_args)) {
       throw_wrong_number_of_args(func, l->next, nullptr);
     }
     typedef SCM *(*func_var)(SCM_List *);
diff --git a/src/c/module.cc b/src/c/module.cc
index 4c1f4c0..f784227 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -658,7 +658,8 @@ SCM *scm_c_define_gsubr(const char *name, int req, int opt, int rst,
   func_name->data[func_name->len] = '\0';
   func->name = func_name;
   func->func_ptr = (void *)fcn;
-  func->max_args = -1;
+  func->min_args = req;
+  func->max_args = rst ? -1 : req + opt;
 
   if (rst) {
     func->n_args = -2;   // vararg
diff --git a/src/c/pscm.h b/src/c/pscm.h
index b9e04d7..e927379 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1074,6 +1074,7 @@ SCM_Function *_create_func(const char *name, F func_ptr) {
   func_name->data[func_name->len] = '\0'; // Ensure null termination
   func->name = func_name;
   func->func_ptr = (void *)func_ptr;
+  func->min_args = 0;
   func->max_args = -1;
   return func;
 }
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index dae3ca7..2c51440 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -83,6 +83,7 @@ struct SCM_Procedure {
 struct SCM_Function {
   SCM_Symbol *name;
   int n_args;
+  int min_args; // required arguments of variable argument functions
   int max_args; // limit for variable argument functions, negative if there is none
   void *func_ptr;
   SCM *generic;
-- 
2.43.0


From bc83369200b4e55a036302a8eefa0b321625fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:53 +0000
Subject: [PATCH 090/105] fix: errors of host operations outside of an
 evaluation are reported to the host instead of ending the process

---
 src/c/pscm.h      |  4 ++--
 src/c/pscm_api.cc | 44 ++++++++++++++++++++++++++++++++------------
 src/c/throw.cc    |  4 ++++
 src/c/throw.h     |  3 +++
 4 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/c/pscm.h b/src/c/pscm.h
index e927379..01180fb 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -108,11 +108,11 @@ inline bool is_promise(SCM *scm) {
 }
 
 inline bool is_port(SCM *scm) {
-  return scm->type == SCM::PORT;
+  return scm && scm->type == SCM::PORT;
 }
 
 inline bool is_module(SCM *scm) {
-  return scm->type == SCM::MODULE;
+  return scm && scm->type == SCM::MODULE;
 }
 
 inline bool is_smob(SCM *scm) {
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 97a965b..e1d87d9 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -163,13 +163,30 @@ bool pscm_get_ast_debug_enabled(void) {
   return ast_debug_enabled;
 }
 
+// Errors of operations that the host calls outside of any evaluation are reported to it like
+// those of an evaluation; otherwise they go to the program
+template <typename F>
+static SCM *report_errors(F operation) {
+  if (scm_catch_active()) {
+    return operation();
+  }
+  return scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        return (*(F *)data)();
+      },
+      &operation,
+      scm_api_catch_handler,
+      nullptr);
+}
+
 // Variable operations (compatible with Guile 1.8 API)
 SCM *pscm_c_lookup(const char *name) {
-  return scm_c_lookup(name);
+  return report_errors([&] { return scm_c_lookup(name); });
 }
 
 SCM *pscm_variable_ref(SCM *var) {
-  return scm_variable_ref(var);
+  return report_errors([&] { return scm_variable_ref(var); });
 }
 
 SCM *pscm_make_variable(SCM *init) {
@@ -191,19 +208,22 @@ SCM *pscm_c_define_gsubr(const char *name, int req, int opt, int rst,
 
 // Module operations (compatible with Guile 1.8 API)
 SCM *pscm_c_resolve_module(const char *name) {
-  return scm_c_resolve_module(name);
+  return report_errors([&] { return scm_c_resolve_module(name); });
 }
 
 SCM *pscm_c_module_lookup(SCM *module, const char *name) {
-  return scm_c_module_lookup(module, name);
+  return report_errors([&] { return scm_c_module_lookup(module, name); });
 }
 
 SCM *pscm_c_module_define(SCM *module, const char *name, SCM *val) {
-  return scm_c_module_define(module, name, val);
+  return report_errors([&] { return scm_c_module_define(module, name, val); });
 }
 
 void pscm_c_use_module(const char *name) {
-  scm_c_use_module(name);
+  report_errors([&] {
+    scm_c_use_module(name);
+    return scm_none();
+  });
 }
 
 SCM *pscm_c_current_module(void) {
@@ -211,7 +231,7 @@ SCM *pscm_c_current_module(void) {
 }
 
 SCM *pscm_c_set_current_module(SCM *module) {
-  return scm_set_current_module(module);
+  return report_errors([&] { return scm_set_current_module(module); });
 }
 
 // Port operations (compatible with Guile 1.8 API)
@@ -220,20 +240,20 @@ SCM *pscm_current_error_port(void) {
 }
 
 SCM *pscm_set_current_error_port(SCM *port) {
-  return scm_set_current_error_port(port);
+  return report_errors([&] { return scm_set_current_error_port(port); });
 }
 
 SCM *pscm_current_input_port(void) {
   return scm_current_input_port();
 }
 SCM *pscm_set_current_input_port(SCM *port) {
-  return scm_set_current_input_port(port);
+  return report_errors([&] { return scm_set_current_input_port(port); });
 }
 SCM *pscm_current_output_port(void) {
   return scm_current_output_port();
 }
 SCM *pscm_set_current_output_port(SCM *port) {
-  return scm_set_current_output_port(port);
+  return report_errors([&] { return scm_set_current_output_port(port); });
 }
 
 SCM *pscm_force_output(SCM *port) {
@@ -242,12 +262,12 @@ SCM *pscm_force_output(SCM *port) {
   args.data = port;
   args.next = nullptr;
   args.is_dotted = false;
-  return scm_force_output(&args);
+  return report_errors([&] { return scm_force_output(&args); });
 }
 
 // Throw operations (compatible with Guile 1.8 API)
 SCM *pscm_ithrow(SCM *key, SCM *args, int noreturn) {
-  return scm_ithrow(key, args, noreturn);
+  return report_errors([&] { return scm_ithrow(key, args, noreturn); });
 }
 
 const char *pscm_get_last_error_key(void) {
diff --git a/src/c/throw.cc b/src/c/throw.cc
index f8e45f6..d8adec1 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -31,6 +31,10 @@ struct catch_info {
 // Innermost active catch (shared between scm_c_catch and scm_throw)
 static struct catch_info *g_catch_top = nullptr;
 
+bool scm_catch_active() {
+  return g_catch_top != nullptr;
+}
+
 static void push_catch(struct catch_info *info, SCM *tag, struct jmp_buf_and_retval *jbr,
                        scm_t_catch_handler handler, void *handler_data) {
   info->tag = tag;
diff --git a/src/c/throw.h b/src/c/throw.h
index 33afa48..0a8c025 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -25,6 +25,9 @@ SCM *scm_c_catch(SCM *tag,
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
+// Whether a catch is active
+bool scm_catch_active();
+
 // Uncaught throw handler (prints error and exits)
 [[noreturn]] void scm_uncaught_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From f7fc75a3a8f67eb4fec4dea725adfbfb7b3d7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 091/105] fix: the error handler of the host is called for the
 errors that are reported to it

---
 src/c/error.cc    | 7 +++++++
 src/c/error.h     | 3 +++
 src/c/pscm_api.cc | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/src/c/error.cc b/src/c/error.cc
index ca81d7e..395dc3c 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -291,5 +291,12 @@ SCM *scm_api_catch_handler(void *data, SCM *tag, SCM *args) {
     }
   }
 
+  // An error without a message is described by its key
+  if (g_last_error_message || g_last_error_key) {
+    scm_call_error_handler(g_last_error_message ? g_last_error_message : g_last_error_key);
+  } else {
+    scm_call_error_handler("unknown error");
+  }
+
   return nullptr;
 }
diff --git a/src/c/error.h b/src/c/error.h
index 1fd7776..4085eff 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -37,6 +37,9 @@ inline void print_ast_to_stderr(SCM *ast) {
   stdout = saved_stdout;
 }
 
+// Call the error handler of the host, if there is one
+void scm_call_error_handler(const char *message);
+
 // Catch-all handler for wrapping public API entry points in scm_c_catch.
 // Stores error details for retrieval via pscm_get_last_error_*().
 SCM *scm_api_catch_handler(void *data, SCM *tag, SCM *args);
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index e1d87d9..c079135 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -10,6 +10,12 @@
 // Error handler callback
 static pscm_error_handler_t g_error_handler = nullptr;
 
+void scm_call_error_handler(const char *message) {
+  if (g_error_handler) {
+    g_error_handler(message);
+  }
+}
+
 // Last error storage (for retrieval after pscm_eval returns NULL).
 // Non-static — the catch-all handler in error.cc writes to these.
 char *g_last_error_message = nullptr;
-- 
2.43.0


From fa25af27c139b4a0fdda82c49a8f0850a0d1102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:03 +0000
Subject: [PATCH 092/105] fix: objects of host types that are values of
 variables can be called by the name

---
 src/c/eval.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 850f380..4fba795 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -461,7 +461,7 @@ entry:
       // Use try-catch to safely check type
       bool type_valid = false;
       try {
-        if (val->type >= SCM::NONE && val->type <= SCM::MODULE) {
+        if (val->type >= SCM::NONE && val->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -475,8 +475,8 @@ entry:
                 (val ? (unsigned int)val->type : 0), 
                 (void *)val);
         fprintf(stderr, "  This suggests the symbol lookup returned a corrupted pointer.\n");
-        fprintf(stderr, "  Valid type range: %d (NONE) to %d (MODULE)\n", 
-                (int)SCM::NONE, (int)SCM::MODULE);
+        fprintf(stderr, "  Valid type range: %d (NONE) to %d (VARIABLE)\n", 
+                (int)SCM::NONE, (int)SCM::VARIABLE);
         fflush(stderr);
         eval_error("symbol '%s' resolved to corrupted value", sym->data);
         return nullptr;
@@ -623,7 +623,7 @@ entry:
       bool type_valid = false;
       try {
         // Check if type is within valid enum range
-        if (expr->type >= SCM::NONE && expr->type <= SCM::MODULE) {
+        if (expr->type >= SCM::NONE && expr->type <= SCM::VARIABLE) {
           type_valid = true;
         }
       } catch (...) {
@@ -649,7 +649,7 @@ entry:
           // Check if list_wrapped type is valid before accessing source_loc
           bool list_type_valid = false;
           try {
-            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::MODULE) {
+            if (list_wrapped->type >= SCM::NONE && list_wrapped->type <= SCM::VARIABLE) {
               list_type_valid = true;
             }
           } catch (...) {
@@ -676,7 +676,7 @@ entry:
         // Check if context type is valid before accessing source_loc
         bool ctx_type_valid = false;
         try {
-          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::MODULE) {
+          if (g_current_eval_context->type >= SCM::NONE && g_current_eval_context->type <= SCM::VARIABLE) {
             ctx_type_valid = true;
           }
         } catch (...) {
-- 
2.43.0


From 198aba0e1c34fe68930b2b9d9eed5d8af4929c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 093/105] fix: objects of host types can be given wherever a
 procedure is called

---
 src/c/apply.cc | 2 +-
 src/c/eval.cc  | 2 +-
 src/c/eval.h   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 0722abf..b67dc3a 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -96,7 +96,7 @@ SCM *scm_c_apply(SCM_List *args) {
     return nullptr;
   }
   SCM *proc = args->data;
-  if (!is_callable(proc) && !is_smob(proc)) {
+  if (!is_callable(proc)) {
     eval_error("apply: first argument must be a procedure");
   }
   SCM_List dummy = make_list_dummy();
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 4fba795..233c066 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -241,7 +241,7 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // The value of an operator is not evaluated again: a symbol or a list is no procedure
 static void check_operator(SCM *f) {
-  if (!is_callable(f) && !is_smob(f) && !is_macro(f)) {
+  if (!is_callable(f) && !is_macro(f)) {
     eval_error("not a procedure: value of type %s", get_type_name(f->type));
   }
 }
diff --git a/src/c/eval.h b/src/c/eval.h
index 5404998..03ba21b 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -15,7 +15,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l);
 SCM *scm_c_values(SCM_List *args);
 SCM *scm_call_with_list(SCM *proc, SCM_List *args);
 inline bool is_callable(SCM *p) {
-  return is_proc(p) || is_func(p) || is_cont(p);
+  return is_proc(p) || is_func(p) || is_cont(p) || is_smob(p);
 }
 
 long scm_wind_depth(SCM_List *chain);
-- 
2.43.0


From 5ad7b080d926e3082f4c29a26e4ce5e8ff157cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 094/105] fix: for-each traverses any number of lists

---
 src/c/for_each.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 310cfe2..9a35ba5 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -48,14 +48,8 @@ SCM *scm_c_for_each(SCM_List *l) {
   l = l->next;
 
   // Store all argument lists
-  // Use stack allocation with a reasonable limit to avoid heap allocation issues with continuations
-  const int MAX_FOR_EACH_ARGS = 10;
-  if (arg_count > MAX_FOR_EACH_ARGS) {
-    eval_error("for-each: too many arguments (max %d)", MAX_FOR_EACH_ARGS);
-    return nullptr;
-  }
-  
-  SCM_List *arg_lists[MAX_FOR_EACH_ARGS];
+  // Use stack allocation to avoid heap allocation issues with continuations
+  auto arg_lists = (SCM_List **)__builtin_alloca(arg_count * sizeof(SCM_List *));
   for (int i = 0; i < arg_count; i++) {
     if (!l) {
       eval_error("args count not match, require %d, but got %d", arg_count, i);
-- 
2.43.0


From 26809c73edd389aaed4926d96e8bf91a30563374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 095/105] fix: an interactive session evaluates every
 expression typed and goes on after one that cannot be read

---
 src/c/repl.cc | 128 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 76 insertions(+), 52 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..cf844ea 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -3,57 +3,97 @@
 #include <string.h>
 
 #include "pscm.h"
+#include "error.h"
+#include "throw.h"
 
-// Check if parentheses are balanced in the input string
-static bool is_balanced(const char *s) {
+// Whether the text typed so far is complete: no list, string, symbol #{...}# or quoted datum
+// goes on in the next line. An unmatched closing parenthesis is for the reader to report.
+static bool is_complete(const char *s) {
   int depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool in_comment = false;
-  
+  bool pending_quote = false;
+
   for (const char *p = s; *p; p++) {
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (*p == '\\') {
-      escaped = true;
+    if (strchr(" \t\n\v\f\r", *p)) {
       continue;
     }
-    
-    if (in_comment) {
-      if (*p == '\n') {
-        in_comment = false;
+    if (*p == ';') {
+      while (p[1] && p[1] != '\n') {
+        p++;
       }
       continue;
     }
-    
-    if (*p == '"') {
-      in_string = !in_string;
+    if (*p == '\'' || *p == '`' || *p == ',') {
+      pending_quote = true;
       continue;
     }
-    
-    if (in_string) {
+    if (*p == '@' && p > s && p[-1] == ',') {
       continue;
     }
-    
-    if (*p == ';') {
-      in_comment = true;
-      continue;
-    }
-    
+    pending_quote = false;
+
     if (*p == '(') {
       depth++;
-    } else if (*p == ')') {
+    }
+    else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true;
+      }
+    }
+    else if (*p == '"' || (*p == '#' && p[1] == '{')) {
+      char close = *p == '"' ? '"' : '}';
+      int nesting = 1;
+      p += close == '"' ? 1 : 2;
+      for (; *p; p++) {
+        if (*p == '\\' && p[1]) {
+          p++;
+        }
+        else if (*p == close && --nesting == 0) {
+          break;
+        }
+        else if (close == '}' && *p == '{') {
+          nesting++;
+        }
       }
+      if (!*p) {
+        return false;
+      }
+    }
+    else if (*p == '#' && p[1] == '\\' && p[2]) {
+      p += 2;
+    }
+    else if (*p == '\\' && p[1] && !strchr(" \t\n\v\f\r();", p[1])) {
+      p++;
     }
   }
-  
-  return depth == 0;
+
+  return depth == 0 && !pending_quote;
+}
+
+// Evaluate every expression of the text; errors are reported and do not end the session
+static void eval_text(char *text) {
+  struct Request {
+    const char *text;
+    SCM_List *exprs;
+  } request = { text, nullptr };
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        Request *request = (Request *)data;
+        request->exprs = parse_string(request->text);
+        return nullptr;
+      },
+      &request,
+      scm_api_catch_handler,
+      nullptr);
+  for (SCM_List *l = request.exprs; l; l = l->next) {
+    print_ast(l->data);
+    printf("\n");
+    auto val = eval(l->data);
+    printf(" --> ");
+    print_ast(val);
+    printf("\n");
+  }
 }
 
 
@@ -105,26 +145,10 @@ void repl() {
       
       strcat(input_buffer, line_buffer);
       
-      // Check if parentheses are balanced
-      if (is_balanced(input_buffer)) {
-        // Skip whitespace to check if input is empty
-        const char *p = input_buffer;
-        while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
-          p++;
-        }
-        
-        // Only parse if there's actual content
-        if (*p != '\0') {
-          // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
-          printf("\n");
-          auto val = eval(ast);
-          printf(" --> ");
-          print_ast(val);
-          printf("\n");
-        }
-        
+      // Evaluate what was typed once it is complete
+      if (is_complete(input_buffer)) {
+        eval_text(input_buffer);
+
         // Reset buffer for next expression
         input_buffer[0] = '\0';
       }
-- 
2.43.0


From 341a5881c48431025a3666f1ff6fd0e8b9d1cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:36 +0000
Subject: [PATCH 096/105] fix: an interactive session takes lines of any length

---
 src/c/repl.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index cf844ea..896962b 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -109,24 +109,16 @@ void repl() {
   
   while (true) {
     // Show prompt: "pscm> " for first line, "  ...> " for continuation
-    if (input_buffer[0] == '\0') {
+    size_t typed = strlen(input_buffer);
+    if (typed == 0) {
       printf("pscm> ");
-    } else {
+    } else if (input_buffer[typed - 1] == '\n') {
       printf("  ...> ");
     }
     
     if (fgets(line_buffer, sizeof(line_buffer), stdin) != NULL) {
-      // Check if input line is too long
       size_t line_len = strlen(line_buffer);
-      if (line_len > 0 && line_buffer[line_len - 1] != '\n') {
-        // Input was truncated, clear remaining input
-        int c;
-        while ((c = getchar()) != '\n' && c != EOF) {
-          // Discard remaining characters
-        }
-        printf("Warning: input line too long, truncated\n");
-      }
-      
+
       // Append line to input buffer
       size_t current_len = strlen(input_buffer);
       size_t needed_size = current_len + line_len + 1;
@@ -144,6 +136,9 @@ void repl() {
       }
       
       strcat(input_buffer, line_buffer);
+      if (line_len > 0 && line_buffer[line_len - 1] != '\n' && !feof(stdin)) {
+        continue;  // The rest of a long line follows
+      }
       
       // Evaluate what was typed once it is complete
       if (is_complete(input_buffer)) {
@@ -157,6 +152,9 @@ void repl() {
     else {
       // EOF or error
       if (feof(stdin)) {
+        if (typed > 0 && input_buffer[typed - 1] != '\n' && is_complete(input_buffer)) {
+          eval_text(input_buffer);
+        }
         printf("\n");
         free(input_buffer);
         return;  // Normal exit
-- 
2.43.0


From 1ab9e210eaf60cfba4862683bb7fbef5084e4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:21 +0000
Subject: [PATCH 097/105] fix: errors that nobody catches are reported by the
 command line program

---
 src/main.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index 44664e0..adefcfb 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -56,10 +56,17 @@ int do_eval(const char *filename) {
   return 0;
 }
 
+// What an error that nobody catches does
+static void report_error(const char *message) {
+  fflush(stdout);
+  fprintf(stderr, "ERROR: %s\n", message);
+}
+
 void setup_abort_handler();
 
 int main(int argc, char **argv) {
   setup_abort_handler();
+  pscm_set_error_handler(report_error);
   if (argc < 2) {
     // No arguments: enter REPL mode
     long stack_marker;
-- 
2.43.0


From d7ddf5e646b455d84bdb67d444eefd1d3d5db510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:32 +0000
Subject: [PATCH 098/105] fix: a script without any expression is no failure

---
 src/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cc b/src/main.cc
index adefcfb..f3c9658 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -44,7 +44,7 @@ int do_eval(const char *filename) {
   gc_set_stack_top(&stack_marker);
   pscm_init();
   auto l = pscm_parse_file(filename);
-  if (!l) {
+  if (!l && pscm_get_last_error_key()) {
     fprintf(stderr, "ERROR: failed to parse file: %s\n", filename);
     return 1;
   }
-- 
2.43.0


From 665df42eef8f71dbd74e0bdcb82fe7b67521f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 099/105] fix: the documented option --version

---
 src/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index f3c9658..f7c3841 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -5,6 +5,8 @@ SCM *eval(SCM *ast) {
   return pscm_eval(ast);
 }
 
+#define PSCM_VERSION "0.5.0"  // that of the project in CMakeLists.txt
+
 #define SCM_PRINT_AST(ast)                                                                                             \
   if (ast_debug_enabled) {                                                                                             \
     printf("[ast] ");                                                                                                  \
@@ -89,6 +91,10 @@ int main(int argc, char **argv) {
       show_usage();
       return 0;
     }
+    else if (strcmp(arg, "-v") == 0 || strcmp(arg, "--version") == 0) {
+      printf("pscm %s\n", PSCM_VERSION);
+      return 0;
+    }
     else if (strcmp(arg, "-s") == 0 || strcmp(arg, "--test") == 0) {
       if (index + 1 < argc) {
         if (filename) {
-- 
2.43.0


From c9ff2bd36702bfa1c6e2e19eea7e550b1efc8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:57 +0000
Subject: [PATCH 100/105] fix: calls in tail position do not use up the stack

---
 src/c/case.cc      |  6 ++---
 src/c/cond.cc      |  4 ++--
 src/c/do.cc        | 17 +++++---------
 src/c/eval.cc      | 56 ++++++++++++++++++++++++++--------------------
 src/c/eval.h       | 12 ++++++----
 src/c/procedure.cc |  7 +++---
 6 files changed, 54 insertions(+), 48 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index 64267eb..4234163 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -18,7 +18,7 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
-SCM *eval_case(SCM_Environment *env, SCM_List *l) {
+SCM *eval_case(SCM_Environment *env, SCM_List *l, SCM **ast) {
   check_syntax(l->next, "case");  // Must have at least key expression
   
   // Evaluate the key expression
@@ -45,7 +45,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     // Check for else clause
     if (is_sym_val(clause->data, "else")) {
       // Execute else clause expressions
-      return eval_with_list(env, clause->next);
+      return eval_sequence(env, clause->next, ast);
     }
     
     // Regular clause: (datum1 datum2 ...)
@@ -58,7 +58,7 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     
     if (value_in_datums(key, datums)) {
       // Key matches this clause, execute the expressions
-      return eval_with_list(env, clause->next);
+      return eval_sequence(env, clause->next, ast);
     }
     
     // Key doesn't match, continue to next clause
diff --git a/src/c/cond.cc b/src/c/cond.cc
index df890c0..7ab0456 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -20,7 +20,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
     }
     if (is_sym_val(clause->data, "else")) {
       check_syntax(clause->next, "cond");
-      return eval_with_list(env, clause->next);
+      return eval_sequence(env, clause->next, ast);
     }
     auto pred = eval_with_env(env, clause->data);
     // In Scheme, only #f is falsy, everything else is truthy
@@ -66,7 +66,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       // Fall through to normal evaluation
     }
     // Normal clause: evaluate the expressions in sequence
-    return eval_with_list(env, clause->next);
+    return eval_sequence(env, clause->next, ast);
   }
   return scm_none();
 }
diff --git a/src/c/do.cc b/src/c/do.cc
index f30456a..a498e82 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -29,7 +29,8 @@ static SCM_Environment *step_do_variables(SCM_Environment *env, SCM_Environment
 }
 
 // Helper function for do special form
-SCM *eval_do(SCM_Environment *env, SCM_List *l) {
+SCM *eval_do(SCM_Environment **env_p, SCM_List *l, SCM **ast) {
+  SCM_Environment *env = *env_p;
   assert(env);
   assert(l);
   check_syntax(l->next && l->next->next, "do");
@@ -169,16 +170,8 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     return scm_none();  // No return expressions, return unspecified value
   }
   
-  // Evaluate all return expressions and return the last one
-  auto return_list = cast<SCM_List>(return_exprs);
-  SCM *last_result = scm_none();
-  while (return_list) {
-    last_result = eval_with_env(do_env, return_list->data);
-    if (!last_result) {
-      return nullptr;  // Evaluation error
-    }
-    return_list = return_list->next;
-  }
-  return last_result;
+  // The return expressions are evaluated with the variables of the last iteration
+  *env_p = do_env;
+  return eval_sequence(do_env, cast<SCM_List>(return_exprs), ast);
 }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 233c066..113c1a1 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -17,6 +17,15 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
   return ret;
 }
 
+SCM *eval_sequence(SCM_Environment *env, SCM_List *l, SCM **ast) {
+  assert(l);
+  for (; l->next; l = l->next) {
+    eval_with_env(env, l->data);
+  }
+  *ast = l->data;
+  return nullptr; // Signal to continue evaluation
+}
+
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
   // Collect the values in reverse and build the result at the end: a continuation captured
   // by one of the expressions can return more than once, and a later pass must not change
@@ -250,12 +259,6 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
 
-  // Code at the top level belongs to the current module
-  if (env == &g_env || env->module) {
-    SCM *current = scm_current_module();
-    env = current == g_root_module ? &g_env : scm_module_environment(cast<SCM_Module>(current));
-  }
-
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
 
@@ -272,6 +275,12 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   } while (0)
 
 entry:
+  // Code at the top level belongs to the current module
+  if (env == &g_env || env->module) {
+    SCM *current = scm_current_module();
+    env = current == g_root_module ? &g_env : scm_module_environment(cast<SCM_Module>(current));
+  }
+
   SCM_DEBUG_EVAL("eval ");
   if (debug_enabled) {
     print_ast(ast);
@@ -418,8 +427,11 @@ entry:
       goto entry;
     }
     else if (is_sym_val(l->data, "case")) {
-      SCM *result = eval_case(env, l);
-      RETURN_WITH_CONTEXT(result);
+      auto ret = eval_case(env, l, &ast);
+      if (ret) {
+        RETURN_WITH_CONTEXT(ret);
+      }
+      goto entry;
     }
     else if (is_sym_val(l->data, "begin")) {
       // begin: evaluate all expressions in sequence, return the last one
@@ -427,22 +439,15 @@ entry:
         // No expressions, return #f
         RETURN_WITH_CONTEXT(scm_bool_false());
       }
-      SCM_List *current = l->next;
-      SCM *result = scm_bool_false();
-      // Evaluate all expressions except the last one
-      while (current && current->next) {
-        eval_with_env(env, current->data);
-        current = current->next;
-      }
-      // Evaluate and return the last expression
-      if (current) {
-        result = eval_with_env(env, current->data);
-      }
-      RETURN_WITH_CONTEXT(result);
+      eval_sequence(env, l->next, &ast);
+      goto entry;
     }
     else if (is_sym_val(l->data, "do")) {
-      SCM *result = eval_do(env, l);
-      RETURN_WITH_CONTEXT(result);
+      auto ret = eval_do(&env, l, &ast);
+      if (ret) {
+        RETURN_WITH_CONTEXT(ret);
+      }
+      goto entry;
     }
     else {
       // Variable reference: resolve symbol and build call expression
@@ -496,8 +501,11 @@ entry:
   }
   else if (is_proc(l->data)) {
     auto proc = cast<SCM_Procedure>(l->data);
-    SCM *result = apply_procedure(env, proc, l->next);
-    RETURN_WITH_CONTEXT(result);
+    // The body is evaluated in place of the call
+    env = bind_arguments(env, proc, l->next);
+    eval_sequence(env, proc->body, &ast);
+    g_current_eval_context = ast;
+    goto entry;
   }
   else if (is_smob(l->data)) {
     SCM_Smob *s = cast<SCM_Smob>(l->data);
diff --git a/src/c/eval.h b/src/c/eval.h
index 03ba21b..2d7410c 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -10,7 +10,7 @@ inline void check_syntax(bool ok, const char *form) {
 }
 
 // do special form
-SCM *eval_do(SCM_Environment *env, SCM_List *l);
+SCM *eval_do(SCM_Environment **env, SCM_List *l, SCM **ast);
 
 SCM *scm_c_values(SCM_List *args);
 SCM *scm_call_with_list(SCM *proc, SCM_List *args);
@@ -26,10 +26,10 @@ void scm_rewind_to(SCM_List *target);
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast);
 
 // case special form
-SCM *eval_case(SCM_Environment *env, SCM_List *l);
+SCM *eval_case(SCM_Environment *env, SCM_List *l, SCM **ast);
 
 // Procedure and function application (used by map and other special forms)
-SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
+SCM_Environment *bind_arguments(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 // Apply procedure with already-evaluated arguments (used by catch/throw handlers)
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);
 SCM *eval_with_func(SCM_Function *func, SCM_List *l);
@@ -57,7 +57,11 @@ SCM *eval_define_public(SCM_Environment *env, SCM_List *l);
 // List evaluation (used by macros and other special forms)
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l);
 
-// Helper functions for argument mismatch reporting (used by apply_procedure and macros)
+// Evaluate all expressions of a sequence but the last one, which is left to the caller in *ast:
+// the last expression is in tail position, and its evaluation must not take up stack
+SCM *eval_sequence(SCM_Environment *env, SCM_List *l, SCM **ast);
+
+// Helper functions for argument mismatch reporting (used by bind_arguments and macros)
 inline void print_arg_list(SCM_List *l) {
   if (!l) {
     fprintf(stderr, "()");
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index bc2facf..04cdb12 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -95,8 +95,9 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
   return eval_with_list(proc_env, body);
 }
 
-// Helper function to apply procedure with arguments
-SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+// Helper function to evaluate the arguments of a call in env and bind them to the parameters of
+// the procedure: the environment its body is evaluated in
+SCM_Environment *bind_arguments(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
   // Evaluate all arguments before binding any of them: a continuation captured by an
   // argument expression can return more than once, and every call needs its own environment
   SCM_List *arg_values = eval_list_with_env(env, args);
@@ -265,7 +266,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     return nullptr;
   }
 
-  return eval_with_list(proc_env, proc->body);
+  return proc_env;
 }
 
 SCM *scm_c_procedure_name(SCM *arg) {
-- 
2.43.0


From 31f9fd7e55f8f854596f3357af65529fe8a9b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:05 +0000
Subject: [PATCH 101/105] fix: recursion that runs out of stack raises an error

---
 src/c/eq.cc              |  2 ++
 src/c/error.cc           | 61 ++++++++++++++++++++++++++++++++++++++++
 src/c/error.h            | 11 ++++++++
 src/c/eval.cc            |  1 +
 src/c/print.cc           | 19 +++++++++++++
 src/c/quasiquote.cc      |  1 +
 src/c/source_location.cc |  2 ++
 7 files changed, 97 insertions(+)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 401592c..3d78071 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -39,6 +39,7 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs);
 // Helper function for equal? to compare lists recursively
 // This function handles both proper lists and dotted pairs
 static bool _list_equal(SCM *lhs, SCM *rhs) {
+  scm_check_stack();
   auto l1 = cast<SCM_List>(lhs);
   auto l2 = cast<SCM_List>(rhs);
   
@@ -93,6 +94,7 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
 
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
+  scm_check_stack();
   auto v1 = cast<SCM_Vector>(lhs);
   auto v2 = cast<SCM_Vector>(rhs);
   
diff --git a/src/c/error.cc b/src/c/error.cc
index 395dc3c..19e8879 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <pthread.h>
 
 // External globals written by the catch-all handler for public API boundary
 extern char *g_last_error_message;
@@ -12,6 +13,63 @@ extern char *g_last_error_key;
 static const int MAX_STACK_DEPTH = 100;
 static int g_stack_depth = 0;
 
+bool g_print_cut = false;
+
+// The C stack of the current thread
+struct StackBounds {
+  char *low;
+  size_t size;
+  bool in_reserve; // the error has been raised, and its handlers may use part of the reserve
+};
+
+static StackBounds *stack_bounds() {
+  static thread_local StackBounds bounds = { nullptr, 0, false };
+  static thread_local bool known = false;
+  if (!known) {
+    known = true;
+#if defined(__APPLE__)
+    bounds.size = pthread_get_stacksize_np(pthread_self());
+    bounds.low = (char *)pthread_get_stackaddr_np(pthread_self()) - bounds.size;
+#elif defined(__linux__)
+    pthread_attr_t attr;
+    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
+      void *low = nullptr;
+      if (pthread_attr_getstack(&attr, &low, &bounds.size) == 0) {
+        bounds.low = (char *)low;
+      }
+      pthread_attr_destroy(&attr);
+    }
+#endif
+  }
+  return &bounds;
+}
+
+// Part of the stack that is left, in percent
+static size_t stack_room(StackBounds *bounds) {
+  size_t room = (char *)__builtin_frame_address(0) - bounds->low;
+  // The bounds are not known, or this is another stack
+  if (!bounds->low || room > bounds->size) {
+    return 100;
+  }
+  return room / (bounds->size / 100 + 1);
+}
+
+bool scm_stack_is_short() {
+  return stack_room(stack_bounds()) < 10;
+}
+
+void scm_check_stack() {
+  StackBounds *bounds = stack_bounds();
+  size_t room = stack_room(bounds);
+  if (room >= 40) {
+    bounds->in_reserve = false;
+  }
+  if (room < (bounds->in_reserve ? 10 : 25)) {
+    bounds->in_reserve = true;
+    eval_error("stack overflow");
+  }
+}
+
 // Helper function to convert expression to string (with length limit)
 static char *expr_to_string(SCM *expr, size_t max_len = 200) {
   if (!expr) {
@@ -25,8 +83,11 @@ static char *expr_to_string(SCM *expr, size_t max_len = 200) {
   }
 
   FILE *original_stdout = stdout;
+  bool saved_cut = g_print_cut;
   stdout = tmp_file;
+  g_print_cut = true;
   print_ast(expr, false);
+  g_print_cut = saved_cut;
   stdout = original_stdout;
 
   fseek(tmp_file, 0, SEEK_END);
diff --git a/src/c/error.h b/src/c/error.h
index 4085eff..5d143e8 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -23,16 +23,27 @@ void print_eval_stack();
 // Helper to get human-readable type name
 const char *get_type_name(SCM::Type type);
 
+// Evaluation and the operations on nested data recurse on the C stack: raise an error while
+// there is still room to handle it
+void scm_check_stack();
+
 // Error handling functions
 void eval_error(const char *format, ...);
 void type_error(SCM *data, const char *expected_type);
 
+// Whether data nested too deeply to be printed is cut instead of raising an error
+extern bool g_print_cut;
+bool scm_stack_is_short();
+
 // Helper function to print AST to stderr
 inline void print_ast_to_stderr(SCM *ast) {
   fflush(stdout);
   FILE *saved_stdout = stdout;
+  bool saved_cut = g_print_cut;
   stdout = stderr;
+  g_print_cut = true;
   print_ast(ast);
+  g_print_cut = saved_cut;
   fflush(stderr);
   stdout = saved_stdout;
 }
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 113c1a1..a47adf9 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -258,6 +258,7 @@ static void check_operator(SCM *f) {
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
+  scm_check_stack();
 
   // Push onto evaluation stack for call trace
   push_eval_stack(ast);
diff --git a/src/c/print.cc b/src/c/print.cc
index 190978a..3fedba8 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -67,12 +67,28 @@ static bool is_plain_symbol(SCM_Symbol *sym) {
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx);
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx);
 
+// Whether data is nested too deeply to be printed to the end
+static bool is_too_deep() {
+  if (!g_print_cut) {
+    scm_check_stack();
+    return false;
+  }
+  if (!scm_stack_is_short()) {
+    return false;
+  }
+  printf("...");
+  return true;
+}
+
 void print_ast(SCM *ast, bool write_mode) {
   PrintContext ctx;
   _print_ast_with_context(ast, write_mode, ctx);
 }
 
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx) {
+  if (is_too_deep()) {
+    return;
+  }
   // Safety check: validate ast pointer and type before processing
   if (!ast) {
     printf("<null>");
@@ -373,6 +389,9 @@ static bool _list_starts_with(SCM_List *l, const char *sym_name) {
 }
 
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx) {
+  if (is_too_deep()) {
+    return;
+  }
   if (!l) {
     printf("()");
     return;
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 98f1b4a..8f10261 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -198,6 +198,7 @@ static SCM *append_two_lists(SCM *list1, SCM *list2) {
 // Main quasi function: expand quasiquote expression
 // Based on Guile 1.8's iqq function - direct evaluation approach
 static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
+  scm_check_stack();
   // 1. Handle (unquote ...)
   if (is_unquote_form(p)) {
     SCM *arg = get_form_arg(p);
diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index caec318..5c80ba5 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -1,4 +1,5 @@
 #include "pscm.h"
+#include "error.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -38,6 +39,7 @@ void copy_source_location(SCM *dest, SCM *src) {
 // Helper function to recursively copy source location to all nodes in a tree
 void copy_source_location_recursive(SCM *dest, SCM *src) {
   if (!dest || !src || !src->source_loc) return;
+  scm_check_stack();
   
   // Copy to current node
   copy_source_location(dest, src);
-- 
2.43.0


From 3a01f8b273863f9f85fd5e53210a02f94872e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:59 +0000
Subject: [PATCH 102/105] fix: the value of an expression that is nested too
 deeply to be printed is cut

---
 src/c/error.cc |  7 +------
 src/c/error.h  | 10 ++--------
 src/c/print.cc | 10 +++++++++-
 src/c/pscm.h   |  2 ++
 src/c/repl.cc  |  4 ++--
 src/main.cc    |  2 +-
 6 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index 19e8879..cc7deb3 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -13,8 +13,6 @@ extern char *g_last_error_key;
 static const int MAX_STACK_DEPTH = 100;
 static int g_stack_depth = 0;
 
-bool g_print_cut = false;
-
 // The C stack of the current thread
 struct StackBounds {
   char *low;
@@ -83,11 +81,8 @@ static char *expr_to_string(SCM *expr, size_t max_len = 200) {
   }
 
   FILE *original_stdout = stdout;
-  bool saved_cut = g_print_cut;
   stdout = tmp_file;
-  g_print_cut = true;
-  print_ast(expr, false);
-  g_print_cut = saved_cut;
+  print_ast_cut(expr, false);
   stdout = original_stdout;
 
   fseek(tmp_file, 0, SEEK_END);
diff --git a/src/c/error.h b/src/c/error.h
index 5d143e8..e9efc04 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -26,24 +26,18 @@ const char *get_type_name(SCM::Type type);
 // Evaluation and the operations on nested data recurse on the C stack: raise an error while
 // there is still room to handle it
 void scm_check_stack();
+bool scm_stack_is_short();
 
 // Error handling functions
 void eval_error(const char *format, ...);
 void type_error(SCM *data, const char *expected_type);
 
-// Whether data nested too deeply to be printed is cut instead of raising an error
-extern bool g_print_cut;
-bool scm_stack_is_short();
-
 // Helper function to print AST to stderr
 inline void print_ast_to_stderr(SCM *ast) {
   fflush(stdout);
   FILE *saved_stdout = stdout;
-  bool saved_cut = g_print_cut;
   stdout = stderr;
-  g_print_cut = true;
-  print_ast(ast);
-  g_print_cut = saved_cut;
+  print_ast_cut(ast);
   fflush(stderr);
   stdout = saved_stdout;
 }
diff --git a/src/c/print.cc b/src/c/print.cc
index 3fedba8..dedd932 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -67,7 +67,8 @@ static bool is_plain_symbol(SCM_Symbol *sym) {
 static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintContext &ctx);
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx);
 
-// Whether data is nested too deeply to be printed to the end
+// Whether data is nested too deeply to be printed to the end: an error, unless it is to be cut
+static bool g_print_cut = false;
 static bool is_too_deep() {
   if (!g_print_cut) {
     scm_check_stack();
@@ -85,6 +86,13 @@ void print_ast(SCM *ast, bool write_mode) {
   _print_ast_with_context(ast, write_mode, ctx);
 }
 
+void print_ast_cut(SCM *ast, bool write_mode) {
+  bool saved_cut = g_print_cut;
+  g_print_cut = true;
+  print_ast(ast, write_mode);
+  g_print_cut = saved_cut;
+}
+
 static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContext &ctx) {
   if (is_too_deep()) {
     return;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 01180fb..73580b5 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -742,6 +742,8 @@ SCM *reduce(F f, SCM *init_val, SCM_List *l) {
  */
 int format_double(double val, char *text, size_t size);
 void print_ast(SCM *ast, bool write_mode = false);
+// The same, for output outside of any catch: data nested too deeply to be printed is cut
+void print_ast_cut(SCM *ast, bool write_mode = false);
 void print_list(SCM_List *l);
 
 /*
diff --git a/src/c/repl.cc b/src/c/repl.cc
index 896962b..a4494bc 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -87,11 +87,11 @@ static void eval_text(char *text) {
       scm_api_catch_handler,
       nullptr);
   for (SCM_List *l = request.exprs; l; l = l->next) {
-    print_ast(l->data);
+    print_ast_cut(l->data);
     printf("\n");
     auto val = eval(l->data);
     printf(" --> ");
-    print_ast(val);
+    print_ast_cut(val);
     printf("\n");
   }
 }
diff --git a/src/main.cc b/src/main.cc
index f7c3841..4906aa2 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -22,7 +22,7 @@ void my_eval(SCM *ast) {
   if (!is_none(val)) {
     // In test mode, use write format (with quotes for strings)
     // This matches the expected output format in tests
-    print_ast(val, true);  // true = write mode (with quotes for strings)
+    print_ast_cut(val, true);  // true = write mode (with quotes for strings)
     printf("\n");
   }
 }
-- 
2.43.0


From b7ffe7c65ca6f029c06216b88d442cc7c782d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 103/105] fix: the column after a character literal counts its
 prefix

---
 src/c/parse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index fa856ca..4da2ba3 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -425,7 +425,7 @@ static SCM *parse_char(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  p->pos += 2;  // Skip #\
+  p->pos += 2;  // Skip the two characters of the prefix
   p->column += 2;
   
   if (*p->pos == '\0') {
-- 
2.43.0


From 88776037615feddb485b502d87bf9eddcf5e1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:15 +0000
Subject: [PATCH 104/105] fix: a newline in a string or symbol starts column 1

---
 src/c/parse.cc | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 4da2ba3..027f348 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -582,25 +582,18 @@ static SCM *parse_string(Parser *p) {
   while (*p->pos) {
     if (escape) {
       escape = false;
-      p->pos++;
-      p->column++;
-      continue;
-    }
-    if (*p->pos == '\\') {
+    } else if (*p->pos == '\\') {
       escape = true;
-      p->pos++;
-      p->column++;
-      continue;
-    }
-    if (*p->pos == '"') {
+    } else if (*p->pos == '"') {
       break;
     }
     if (*p->pos == '\n') {
       p->line++;
       p->column = 1;
+    } else {
+      p->column++;
     }
     p->pos++;
-    p->column++;
   }
   
   if (*p->pos != '"') {
@@ -1153,7 +1146,7 @@ static SCM *parse_datum(Parser *p) {
         brace_depth--;
       }
       if (brace_depth > 0) {
-        if (*p->pos == '\n') { p->line++; p->column = 0; }
+        if (*p->pos == '\n') { p->line++; p->column = 1; }
         else p->column++;
         p->pos++;
       }
-- 
2.43.0


From 18f2157a0501648e5bef92267051e46812388cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:14 +0000
Subject: [PATCH 105/105] fix: let the heap grow beyond 64 segments of 4 MB

---
 src/c/gc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 44f6b94..c285326 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -167,6 +167,10 @@ static void *bump_allocate(size_t total_size) {
   // If not enough room, grow the heap.
   if (bump + total_size > g_current_seg->start + g_current_seg->size) {
     size_t grow_sz = total_size > GROWTH_SIZE ? total_size : GROWTH_SIZE;
+    // Grow with the heap, so that the segments do not run out before the memory does.
+    size_t heap_sz = 0;
+    for (HeapSegment *s = g_segments; s; s = s->next) heap_sz += s->size;
+    if (grow_sz < heap_sz / 4) grow_sz = heap_sz / 4;
     // mmap a new segment
     long page_size = sysconf(_SC_PAGESIZE);
     grow_sz = (grow_sz + page_size - 1) & ~(size_t)(page_size - 1);
-- 
2.43.0

