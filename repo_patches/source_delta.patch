From 40dfff74e8086672d9bcceca6b3a7dd2c8337393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 01/46] fix: give every thread error a name

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..9ccb84e 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -24,6 +25,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
   default:
     assert(false);
-- 
2.43.0


From f8d624d49c1e37fb4c49bf154adec1c236c19920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 02/46] fix: call_once reports an error when the thread can not
 be prepared

---
 source/lib_vm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..2784b2b 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -62,6 +62,10 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = nano::thread_error_t::e_bad_prepare;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 0303d6991d37296732596f299a34c78308fc892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 03/46] fix: vm_t::has_error reports thread errors

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 2784b2b..a94a76b 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -121,6 +121,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 2b932693010a99ea3c14a78e4174689b1b5fde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 04/46] fix: arrays can be passed as arguments to new threads

---
 source/lib_vm/vm_gc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..424c5a0 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -103,6 +103,9 @@ value_t *value_gc_t::copy(const value_t &a) {
     return new_syscall(a.v);
   case val_type_none:
     return nullptr;
+  case val_type_array:
+    // arrays are reference types so the reference is copied
+    return const_cast<value_t *>(&a);
   default:
     assert(false);
     return nullptr;
-- 
2.43.0


From 164c0c141266291c966d335b073a1e935ee9d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 05/46] fix: string concatenation keeps the whole operand and
 rejects arrays

---
 source/lib_vm/thread.cpp | 45 ++++++++++++----------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..1e2a272 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,25 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+// convert a value to the string form used during concatenation
+bool to_string(std::string &out, const value_t *val) {
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    out = std::to_string(val->f);
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    out = std::to_string(val->integer());
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    out = "function@" + std::to_string(val->v);
     return true;
   default:
-    assert(false);
     return false;
   }
 }
@@ -108,31 +108,12 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string lhs, rhs;
+    if (to_string(lhs, l) && to_string(rhs, r)) {
+      stack_.push_string(lhs + rhs);
+      return;
+    }
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From a3a0b5a27dad2f839de73804909b9b5a8aa6533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 06/46] fix: INT_MIN / -1 and INT_MIN % -1 no longer trap the
 host

---
 source/lib_vm/thread.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1e2a272..1aae9ce 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -177,7 +177,9 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // note: avoid the overflow trap of INT_MIN / -1
+      const int32_t o = (r->v == -1) ? int32_t(0u - uint32_t(l->v))
+                                     : l->v / r->v;
       stack_.push_int(o);
     }
     return;
@@ -204,7 +206,8 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      // note: avoid the overflow trap of INT_MIN % -1
+      const int32_t o = (r->v == -1) ? 0 : l->v % r->v;
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From c947d807b8ded6cba8e783599cc2d6c1406c8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 07/46] fix: unary minus accepts floats

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1aae9ce..341b656 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -238,6 +238,10 @@ void thread_t::do_INS_NEG_() {
     stack_.push_int(-o->v);
     return;
   }
+  if (o->is_a<val_type_float>()) {
+    stack_.push_float(-o->f);
+    return;
+  }
   raise_error(thread_error_t::e_bad_type_operation);
 }
 
-- 
2.43.0


From 79d22376d9e5af5b381b6cae1ac6fda3a58bacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 08/46] fix: indirect calls of none or with bad arguments raise
 an error

---
 source/lib_vm/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 341b656..28adad0 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -416,7 +416,6 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
@@ -429,6 +428,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From e0faef958fd82473d117d99d0079eac9af676f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:22 +0000
Subject: [PATCH 09/46] fix: garbage collection terminates on cyclic arrays

---
 source/lib_vm/vm_gc.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index 424c5a0..8ee0bb3 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -126,17 +126,14 @@ void value_gc_t::trace(value_t **list, size_t num) {
   for (size_t i = 0; i < num; ++i) {
     value_t *&v = list[i];
 
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
-    }
-
     // already collected so skip to avoid cyclic trace loops
     if (to.owns(v)) {
+      // a value may be new yet contain references to old data therefore we
+      // must visit its elements once
+      if (v->type() == val_type_array && !forward_find(v)) {
+        forward_add(v, v);
+        trace(v->array(), v->array_size());
+      }
       continue;
     }
     assert(v == nullptr || space_from().owns(v));
@@ -180,8 +177,6 @@ void value_gc_t::trace(value_t **list, size_t num) {
         break;
       }
 
-      // may want to swap in the new pointer prior to trace to break cycles
-
       const int32_t size = v->array_size();
       // move into to space
       value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
@@ -190,7 +185,10 @@ void value_gc_t::trace(value_t **list, size_t num) {
       memcpy(n->array(), v->array(), size * sizeof(value_t *));
       // keep track of forwarded global arrays that may have to move
       forward_add(v, n);
+      forward_add(n, n);
       list[i] = n;
+      // collect child elements
+      trace(n->array(), size);
       break;
     }
     default:
-- 
2.43.0


From 2904b0b2e941ad834f29a21e8c937004cd6049a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:22 +0000
Subject: [PATCH 10/46] fix: step_line collects garbage

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 28adad0..f5f47bb 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -829,6 +829,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(0);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From a8448e10d5be8b4024f3ef760b8ebc7399180d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:22 +0000
Subject: [PATCH 11/46] fix: call_init always runs the initializer to
 completion

---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index a94a76b..ef6ad9c 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -49,7 +49,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // run until every global has been initialized
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From ee9dbb3dac0e39fdb53ab2e1779cbfa04028b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:22 +0000
Subject: [PATCH 12/46] fix: builtins verify the number of arguments they are
 given

---
 source/lib_builtins/builtin.cpp | 70 ++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 15 deletions(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..05fe7ef 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -11,8 +11,20 @@
 
 namespace nano {
 
+// builtins can be called indirectly so the argument count must be verified
+static bool check_args(struct nano::thread_t &t, int32_t nargs,
+                       int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
@@ -29,7 +41,9 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -42,7 +56,9 @@ static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -55,7 +71,9 @@ static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_a<val_type_int>() &&
@@ -68,7 +86,9 @@ static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   switch (a->type()) {
   case val_type_array: {
@@ -86,7 +106,9 @@ static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && v->is_a<val_type_int>()) {
     char x[2] = {char(v->v), 0};
@@ -97,7 +119,9 @@ static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -108,7 +132,9 @@ static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -119,7 +145,9 @@ static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -130,7 +158,9 @@ static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -141,7 +171,9 @@ static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -152,7 +184,9 @@ static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -163,7 +197,9 @@ static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sqrt(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -212,7 +248,9 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
@@ -227,7 +265,9 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_new_array(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-- 
2.43.0


From a335a18eef770c51d7f3db75b419b5da0554d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:22 +0000
Subject: [PATCH 13/46] fix: wait with a negative count does not stall the
 thread

---
 source/lib_builtins/builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index 05fe7ef..dd1bdb7 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -254,7 +254,7 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    t.waits = w > 0 ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From a3f91221142f32372e4392034f6e106ff5c6ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 14/46] fix: lexer stops at a comment that ends the source

---
 source/lib_compiler/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..6112855 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -86,6 +86,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
         ++line_.line;
       }
       push_(TOK_EOL);
+      if (*s == '\0') {
+        // dont step over the end of the source
+        break;
+      }
       continue;
     }
 
-- 
2.43.0


From 72628724f5103a4b0d8ce1e53ffb4da1fabccff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 15/46] fix: float literals with many digits keep their value

---
 source/lib_compiler/lexer.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 6112855..e92878d 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -1,3 +1,5 @@
+#include <cstdlib>
+
 #include "lexer.h"
 #include "errors.h"
 
@@ -295,26 +297,20 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
-  int32_t v = 0;
-  int32_t f = 0;
-  for (; s != e; ++s) {
-    if (*s == '.') {
-      assert(f == 0);
-      f = 1;
-    }
-    else {
-      assert(is_numeric(*s));
-      v = v * 10 + (*s - '0');
-      f *= 10;
+  // numbers with a decimal point are floats
+  for (const char *t = s; t != e; ++t) {
+    if (*t == '.') {
+      const std::string str(s, e);
+      stream_.push(token_t(strtof(str.c_str(), nullptr), line_));
+      return;
     }
   }
-  if (f == 0) {
-    stream_.push(token_t(v, line_));
-  }
-  else {
-    const float x = float(v) / float(f);
-    stream_.push(token_t(x, line_));
+  int32_t v = 0;
+  for (; s != e; ++s) {
+    assert(is_numeric(*s));
+    v = v * 10 + (*s - '0');
   }
+  stream_.push(token_t(v, line_));
 }
 
 void lexer_t::reset() {
-- 
2.43.0


From a598287f871afe82449779e11986a45d44e5631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 16/46] fix: every token type has a name

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..16b83ce 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -70,6 +70,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_VAR:      return "var";
   case TOK_INT:      return "int";
   case TOK_FLOAT:    return "float";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   case TOK_FOR:      return "for";
   case TOK_TO:       return "to";
   case TOK_IDENT:    return "identifier";
-- 
2.43.0


From 6ed4102a4422c7b1b17dc655fc6f9d0ff6417f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 17/46] fix: ast gc keeps member assignments and array
 initializers

---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..ef420f3 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -141,6 +141,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_func_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From aa58d9aec63d1a4d90b29fcf310115cd14270a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 18/46] fix: folding INT_MIN / -1 and INT_MIN % -1 does not
 trap the compiler

---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..10b4912 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // note: avoid the overflow trap of INT_MIN / -1
+      case TOK_DIV: v = (b == -1) ? int32_t(0u - uint32_t(a)) : a / b; break;
+      case TOK_MOD: v = (b == -1) ? 0 : a % b; break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..89e76d2 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -137,8 +137,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // note: avoid the overflow trap of INT_MIN / -1
+    case TOK_DIV:     return (b == -1) ? int32_t(0u - uint32_t(a)) : a / b;
+    case TOK_MOD:     return (b == -1) ? 0 : a % b;
     default:
       assert(!"unknown operator");
     }
-- 
2.43.0


From 16c8e9a27f224a9f6d7f8d35e19ade9685c532b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 19/46] fix: removing a dead branch does not change the value
 of constants

---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 10b4912..a19630f 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -347,6 +347,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -359,7 +360,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // note: the literal can be shared with other uses of a constant
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -379,6 +381,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From 293f6847764b74d4c22e3d190d86d0ee1fb1fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 20/46] fix: evaluating global initializers does not crash the
 compiler

---
 source/lib_compiler/sema.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 89e76d2..7c4989e 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,9 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +31,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +59,7 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    if (decl && decl->is_const && decl->expr) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From b2e989efdcf540d52e3cda7111fe5c86f60d44b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 21/46] fix: misusing a constant is a compile error, not an
 abort

---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..3c3bc0c 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -271,6 +271,7 @@ struct ast_exp_call_t : public ast_node_t {
   {}
 
   void replace_child(const ast_node_t *which, ast_node_t *with) override {
+    callee = (callee == which) ? with : callee;
     for (size_t i = 0; i < args.size(); ++i) {
       if (args[i] == which) {
         args[i] = with;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 7c4989e..ae6eac6 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -199,6 +199,38 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      errs_.cant_evaluate_constant(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
-- 
2.43.0


From 1b8246d72f148a895fbd376b4b552848c19c02db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 22/46] fix: accessing a member of a function is a compile
 error

---
 source/lib_compiler/sema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index ae6eac6..eead5a8 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -406,7 +406,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        errs_.unknown_identifier(*n->name);
       }
       return;
     }
-- 
2.43.0


From 6332c1b99fe9df50e8dfd19272793ad13ba40b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 23/46] fix: variables of a then branch are not visible in its
 else branch

---
 source/lib_compiler/sema.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index eead5a8..1f01184 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -442,8 +442,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch has its own scope
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From 81fb5ef60ceccc612f4560bbb21639bf90ca9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 24/46] fix: variables without an initializer start out as none

---
 source/lib_compiler/codegen.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..02e8116 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,12 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
     }
+    else {
+      // the stack slot may still hold a value from another scope
+      emit(INS_NEW_NONE, n->name);
+    }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From e489da48fda43bad190b5abb470095fcc1aa5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:42 +0000
Subject: [PATCH 25/46] fix: unary minus and 'not' bind to the correct operand

---
 source/lib_compiler/parser.cpp | 28 ++++++++++++++++++----------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..6a4ecec 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,8 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  // note: 'not' is a prefix operator only
+  return stream_.type() != TOK_NOT && op_type_(stream_.type()) > 0;
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -219,7 +220,6 @@ void parser_t::parse_lhs_() {
 
 void parser_t::parse_expr_ex_(uint32_t tide) {
   token_stream_t &stream_ = nano_.lexer().stream();
-  auto &ast = nano_.ast();
 
   // format:
   //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
@@ -227,14 +227,28 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
   // not
   if (const token_t *n = stream_.found(TOK_NOT)) {
+    // prefix operators have no left operand so there is nothing to reduce
+    op_stack_.push_back(n);
     parse_expr_ex_(tide);
-    op_push_(n, tide);
     return;
   }
 
+  parse_operand_();
+
+  if (is_operator_()) {
+    const token_t *op = stream_.pop();
+    op_push_(op, tide);
+    parse_expr_ex_(tide);
+  }
+}
+
+void parser_t::parse_operand_() {
+  token_stream_t &stream_ = nano_.lexer().stream();
+  auto &ast = nano_.ast();
+
   // unary minus
   if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
+    parse_operand_();
     ast_node_t *back = exp_stack_.back();
     exp_stack_.pop_back();
     auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
@@ -276,12 +290,6 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
     break;
   }
-
-  if (is_operator_()) {
-    const token_t *op = stream_.pop();
-    op_push_(op, tide);
-    parse_expr_ex_(tide);
-  }
 }
 
 ast_node_t* parser_t::parse_expr_() {
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..45dc619 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -49,6 +49,7 @@ protected:
 
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
+  void parse_operand_();
   void parse_lhs_();
 
   // return true if next token is an operator
-- 
2.43.0


From 81f5bf1792a8382eed03bfc9d7649a548f7e019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 26/46] fix: calling an unresolved syscall raises an error

---
 source/lib_vm/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index f5f47bb..e654ef4 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -403,7 +403,11 @@ void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
   assert(operand >= 0 && operand < int32_t(calls.size()));
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  if (!sys) {
+    // the host never resolved this syscall
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
-- 
2.43.0


From 90b7b57973c2cf67fa12a5a9906cf48b0a79b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 27/46] fix: importing a file whose path extends a loaded path

---
 source/lib_common/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..84de777 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,7 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From 63873fadca4b9c5dc72767e34336d69756399b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 28/46] fix: imports resolve relative to files in the working
 directory

---
 source/lib_common/source.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 84de777..039744e 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -5,11 +5,9 @@
 namespace {
 
 std::string base_path(std::string in) {
-  const size_t last1 = in.rfind('/');
-  const size_t last2 = in.rfind('\\');
-  const size_t last = std::max(last1 == std::string::npos ? 0 : last1,
-                               last2 == std::string::npos ? 0 : last2);
-  in.resize(last);
+  // note: keeps the trailing slash and is empty if there is no directory
+  const size_t last = in.find_last_of("/\\");
+  in.resize(last == std::string::npos ? 0 : last + 1);
   return in;
 }
 
@@ -37,7 +35,7 @@ namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
   std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  in_out = base + in_out;
 }
 
 bool source_manager_t::load(const char *path) {
-- 
2.43.0


From 8b2360105029fb91aae8a3c4fd07893157a5cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 29/46] fix: a source that fails to load is not kept

---
 source/lib_common/source.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 039744e..5b8e824 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -45,13 +45,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 0d9e50cd3cd3b64155b82b0b7bf4264f3f4b9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 30/46] fix: long strings and damaged sizes in saved programs

---
 source/lib_common/program.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..32d91b2 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -77,15 +77,11 @@ bool consume(FILE *fd, std::string &string) {
   if (1 != fread(&size, 4, 1, fd)) {
     return false;
   }
-  assert(size < 256);
-  string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
+  if (size < 0) {
     return false;
   }
-  data[size] = '\0';
-  string.assign(data.get());
-  return true;
+  string.resize(size);
+  return fread(&string[0], 1, size, fd) == size_t(size);
 }
 
 bool consume(FILE *fd, nano::function_t &f) {
-- 
2.43.0


From 6a24dca642db79eb7de0a833b03e363e9982d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 31/46] fix: serial_load rejects truncated files and closes its
 file

---
 source/lib_common/program.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 32d91b2..d3bd284 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -157,7 +157,8 @@ bool program_t::serial_save(const char *path) {
 
 bool program_t::serial_load(const char *path) {
   // open the output file
-  FILE *fd = fopen(path, "rb");
+  std::unique_ptr<FILE, int (*)(FILE *)> file(fopen(path, "rb"), fclose);
+  FILE *fd = file.get();
   if (!fd) {
     return false;
   }
@@ -180,7 +181,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -192,6 +193,7 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
+  TRY(code_size >= 0);
   code_.resize(code_size);
   if (fread(code_.data(), 1, code_size, fd) != code_size) {
     return false;
@@ -206,7 +208,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
-- 
2.43.0


From bd58c9f4424b818d7d644da8eca836db7317335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 32/46] fix: serial_save reports write errors

---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index d3bd284..e8f1dd3 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -151,8 +151,8 @@ bool program_t::serial_save(const char *path) {
     emit(fd, s);
   }
   // done
-  fclose(fd);
-  return true;
+  const bool ok = !ferror(fd);
+  return (fclose(fd) == 0) && ok;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From c213e268fcbae3345004c6c2a19fa685e78ff915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:48 +0000
Subject: [PATCH 33/46] fix: putc and puts of none raise an error, gets at end
 of input is empty

---
 source/driver/driver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..e431621 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -51,8 +50,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
 
 void vm_gets(nano::thread_t &t, int32_t) {
   using namespace nano;
-  char buffer[80];
-  fgets(buffer, sizeof(buffer), stdin);
+  char buffer[80] = {'\0'};
+  if (!fgets(buffer, sizeof(buffer), stdin)) {
+    buffer[0] = '\0';
+  }
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
   }
@@ -63,7 +64,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From 9fc95edcff8ca58cae136e8e5c73d1f704f39e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 34/46] fix: output file names are not limited to a fixed
 buffer

---
 source/comp/driver.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..f0c944a 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -21,9 +21,8 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 1a14ddb7f1f55a27d6c86cb8a065288e13839e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:05 +0000
Subject: [PATCH 35/46] fix: preparing a thread discards frames left by an
 earlier run

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e654ef4..b5896b4 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -692,6 +692,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   halted_ = false;
 
   stack_.clear();
+  f_.clear();
 
   // load the target pc (entry point)
   pc_ = func.code_start_;
-- 
2.43.0


From 15cc799d02b0e3990fa5346390248bef3d6072b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:44 +0000
Subject: [PATCH 36/46] fix: a breakpoint is not missed because of an out of
 date last line

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index b5896b4..dcef13a 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -690,6 +690,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   finished_ = true;
   cycles_ = 0;
   halted_ = false;
+  last_line_ = line_t();
 
   stack_.clear();
   f_.clear();
@@ -895,6 +896,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  // the last line is not tracked without breakpoints so it can be out of date
+  if (breakpoints_.empty() && last_line_ != get_source_line()) {
+    last_line_ = line_t();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From 587aff38e26f9cce93fbf8e7f65a0d4e9d40615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:54 +0000
Subject: [PATCH 37/46] fix: drop the globals when the machine is reset, their
 values are freed by it

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index ef6ad9c..02b4bc9 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -33,6 +33,8 @@ void vm_t::gc_collect() {
 void vm_t::reset() {
   // reset the garbage collector
   gc_->reset();
+  // the globals refer to values that are gone now
+  g_.clear();
   // delete all threads
   for (thread_t *t : threads_) {
     delete t;
-- 
2.43.0


From 48732769ec62966ec76d35b822f84d1bcf7442a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:11 +0000
Subject: [PATCH 38/46] fix: replace_child of a function declaration replaces
 the argument or body it is given

It compared the arguments with the replacement instead of the child to be
replaced, and asserted that the replacement is a variable declaration even when
the body was meant.
---
 source/lib_compiler/ast.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 3c3bc0c..69889c1 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -551,11 +551,10 @@ struct ast_decl_func_t : public ast_node_t {
   {}
 
   void replace_child(const ast_node_t *which, ast_node_t *with) override {
-    auto *w = with->cast<ast_decl_var_t>();
-    assert(w);
     for (size_t i = 0; i < args.size(); ++i) {
-      if (args[i] == w) {
-        args[i] = w;
+      if ((const void*)args[i] == (const void*)which) {
+        args[i] = with->cast<ast_decl_var_t>();
+        assert(args[i]);
       }
     }
     if (body == which) {
-- 
2.43.0


From ce27812b41ea5b6ba7adbd83386dcd074ed661f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:11 +0000
Subject: [PATCH 39/46] fix: only letters, digits and the underscore are part
 of an identifier

The test for the underscore was 't >= '_'', so that characters such as { | } ~
and the backquote were taken for letters instead of being reported.
---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index e92878d..ea5d051 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -10,7 +10,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
-- 
2.43.0


From 585f98f847c0d44879a167e31f438837abf390de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:33 +0000
Subject: [PATCH 40/46] fix: report a runtime error at the instruction that
 raised it

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index dcef13a..7181bed 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -725,6 +725,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  const int32_t pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -772,6 +773,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // an error is reported at the instruction that raised it
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From 251179e6d98b06d91116bba6f11de24d38eaa21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:10 +0000
Subject: [PATCH 41/46] fix: do not list constants as global variables

A constant has no storage, but codegen entered it into the table of
globals with offset 0, the slot of the first real global.
---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index 02e8116..9ca924d 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -457,7 +457,10 @@ struct codegen_pass_t: ast_visitor_t {
   void visit(ast_decl_var_t* n) override {
     // collect the globals
     if (n->is_global()) {
-      stream_.add_global(n->name->str_, n->offset);
+      // constants have no storage
+      if (!n->is_const) {
+        stream_.add_global(n->name->str_, n->offset);
+      }
       return;
     }
     // must be local
-- 
2.43.0


From 47b81b4544de4583ef72bb06fda39e3ff8bedb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:03 +0000
Subject: [PATCH 42/46] fix: report the token that cannot start a top-level
 declaration

The parser popped a second token and reported that one, which may even
lie on a later line.
---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 6a4ecec..7f1db18 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From 2f5171f2a469675cc3a0b12286d0eeba205450e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:38 +0000
Subject: [PATCH 43/46] fix: accept blank lines and comments in otherwise empty
 bodies

---
 source/lib_compiler/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 7f1db18..9f7a894 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -383,6 +383,7 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  while (stream_.found(TOK_EOL));
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
@@ -390,6 +391,7 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
       stream_.pop(TOK_EOL);
+      while (stream_.found(TOK_EOL));
       has_else = true;
       break;
     }
@@ -426,6 +428,7 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  while (stream_.found(TOK_EOL));
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -460,6 +463,7 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  while (stream_.found(TOK_EOL));
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -658,6 +662,7 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     stream_.pop(TOK_RPAREN);
   }
   stream_.pop(TOK_EOL);
+  while (stream_.found(TOK_EOL));
 
   // function body
   func->body = ast.alloc<ast_block_t>();
-- 
2.43.0


From 82c3401d7a49a110b427cba61b4ad18fe9ce3e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:41 +0000
Subject: [PATCH 44/46] fix: a thread that is prepared again no longer keeps
 the wait of its previous run

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 7181bed..254a2be 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -690,6 +690,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   finished_ = true;
   cycles_ = 0;
   halted_ = false;
+  waits = 0;
   last_line_ = line_t();
 
   stack_.clear();
-- 
2.43.0


From 8fd76f02464b47dfcef1d3821d101754160e1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:03 +0000
Subject: [PATCH 45/46] fix: the SDL driver does not start main when
 initialising the globals failed

---
 source/driver_sdl/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 59dab76..e6f1098 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -376,6 +376,7 @@ int main(int argc, char **argv) {
 
   if (!vm.call_init()) {
     fprintf(stderr, "failed while executing @init\n");
+    exit(1);
   }
 
   if (!vm.new_thread(*func, 0, nullptr)) {
-- 
2.43.0


From 0d1a922424928e9cc01478698a8fd19e3e34f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:03 +0000
Subject: [PATCH 46/46] fix: the builtins of the drivers verify how many
 arguments they are given

---
 source/driver/driver.cpp     | 34 ++++++++++++++++++---
 source/driver_sdl/driver.cpp | 59 ++++++++++++++++++++++++++++++------
 2 files changed, 78 insertions(+), 15 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index e431621..e251cea 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -15,6 +15,15 @@
 
 namespace {
 
+// builtins can be called indirectly so the argument count must be verified
+bool check_args(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static inline uint32_t xorshift32() {
   static uint32_t x = 12345;
   x ^= x << 13;
@@ -23,20 +32,29 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_getc(nano::thread_t &t, int32_t) {
+void vm_getc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   const int32_t ch = getchar();
   t.get_stack().push_int(ch);
 }
 
-void vm_putc(nano::thread_t &t, int32_t) {
+void vm_putc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *v = t.get_stack().pop();
   if (!v->is_a<val_type_int>()) {
@@ -48,7 +66,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
   t.get_stack().push_int(0);
 }
 
-void vm_gets(nano::thread_t &t, int32_t) {
+void vm_gets(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   char buffer[80] = {'\0'};
   if (!fgets(buffer, sizeof(buffer), stdin)) {
@@ -61,7 +82,10 @@ void vm_gets(nano::thread_t &t, int32_t) {
   t.get_stack().push_string(std::string{buffer});
 }
 
-void vm_puts(nano::thread_t &t, int32_t) {
+void vm_puts(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   value_t *s = t.get_stack().pop();
   if (!s->is_a<val_type_string>()) {
diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index e6f1098..0b1900f 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -23,6 +23,15 @@ struct global_t {
   std::unique_ptr<uint32_t[]> video_;
 } global;
 
+// builtins can be called indirectly so the argument count must be verified
+bool check_args(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static inline uint32_t xorshift32() {
   static uint32_t x = 12345;
   x ^= x << 13;
@@ -31,14 +40,20 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_cls(nano::thread_t &t, int32_t) {
+void vm_cls(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   uint32_t *v = global.video_.get();
   for (uint32_t y = 0; y < global.height_; ++y) {
     for (uint32_t x = 0; x < global.width_; ++x) {
@@ -50,7 +65,10 @@ void vm_cls(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_sleep(nano::thread_t &t, int32_t) {
+void vm_sleep(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
     tick_mark = SDL_GetTicks() + val->as_int();
@@ -60,7 +78,10 @@ void vm_sleep(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_video(nano::thread_t &t, int32_t) {
+void vm_video(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
   const value_t *h = t.get_stack().pop();
   const value_t *w = t.get_stack().pop();
@@ -91,7 +112,10 @@ void vm_video(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_int(ok ? 1 : 0));
 }
 
-void vm_setrgb(nano::thread_t &t, int32_t) {
+void vm_setrgb(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
   const value_t *b = t.get_stack().pop();
   const value_t *g = t.get_stack().pop();
@@ -138,7 +162,10 @@ static inline void span(int32_t x0, int32_t x1, int32_t y0) {
   }
 }
 
-void vm_circle(nano::thread_t &t, int32_t) {
+void vm_circle(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *r = t.get_stack().pop();
@@ -200,7 +227,10 @@ static inline void line(int32_t x0, int32_t y0, int32_t x1, int32_t y1) {
   }
 }
 
-void vm_line(nano::thread_t &t, int32_t) {
+void vm_line(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 4)) {
+    return;
+  }
   using namespace nano;
   const value_t *y1 = t.get_stack().pop();
   const value_t *x1 = t.get_stack().pop();
@@ -215,7 +245,10 @@ void vm_line(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_keydown(nano::thread_t &t, int32_t) {
+void vm_keydown(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *key = t.get_stack().pop();
   if (!key->is_a<val_type_string>()) {
@@ -256,7 +289,10 @@ void vm_keydown(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_plot(nano::thread_t &t, int32_t) {
+void vm_plot(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *y = t.get_stack().pop();
@@ -268,7 +304,10 @@ void vm_plot(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_flip(nano::thread_t &t, int32_t) {
+void vm_flip(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
 
   const uint32_t w = global.width_;
-- 
2.43.0

