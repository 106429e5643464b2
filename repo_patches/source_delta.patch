From 62c1b5f314137c6fc9b6d9da3b2ee6281ab13192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 01/88] fix: product of integer/float variables in a reified
 context

The helper predicate introducing the partial products was not marked
promise_total, so any use of product() on more than one variable outside the
root context failed with 'free variable in non-positive context'.
---
 share/minizinc/std/stdlib/stdlib_internal.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/stdlib/stdlib_internal.mzn b/share/minizinc/std/stdlib/stdlib_internal.mzn
index 4a971f1..12a4e19 100644
--- a/share/minizinc/std/stdlib/stdlib_internal.mzn
+++ b/share/minizinc/std/stdlib/stdlib_internal.mzn
@@ -2798,7 +2798,7 @@ function var float: sqrt_mt(var float: x) :: promise_total =
     constraint float_sqrt(xx, r);
   } in r;
 
-function var int: product_rec(array [int] of var int: x) =
+function var int: product_rec(array [int] of var int: x) :: promise_total =
   if length(x) = 0 then
     1
   elseif length(x) = 1 then
@@ -2812,7 +2812,7 @@ function var int: product_rec(array [int] of var int: x) =
     } in y[length(y)]
   endif;
 
-function var float: product_rec(array [int] of var float: x) =
+function var float: product_rec(array [int] of var float: x) :: promise_total =
   if length(x) = 0 then
     1.0
   elseif length(x) = 1 then
-- 
2.43.0


From e703266d93e6e80f4de843fec97e24cdef90ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 02/88] fix: internal Gecode interface posted set_in on integer
 variables to a Boolean variable

p_set_in tested isvar() where isvarbool() was meant, so every set_in
constraint on an integer variable constrained the Boolean variable that
happened to have the same index (losing solutions, or out of bounds).
---
 solvers/gecode/gecode_constraints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solvers/gecode/gecode_constraints.cpp b/solvers/gecode/gecode_constraints.cpp
index 304fad8..a8f870f 100644
--- a/solvers/gecode/gecode_constraints.cpp
+++ b/solvers/gecode/gecode_constraints.cpp
@@ -1822,7 +1822,7 @@ void p_set_in(SolverInstanceBase& s, const Call* ce) {
   auto& gi = static_cast<GecodeSolverInstance&>(s);
   if (!Expression::type(ce->arg(1)).isvar()) {
     IntSet d = gi.arg2intset(s.env().envi(), ce->arg(1));
-    if (Expression::type(ce->arg(0)).isvar()) {
+    if (Expression::type(ce->arg(0)).isvarbool()) {
       Gecode::IntSetRanges dr(d);
       Iter::Ranges::Singleton sr(0, 1);
       Iter::Ranges::Inter<Gecode::IntSetRanges, Iter::Ranges::Singleton> i(dr, sr);
-- 
2.43.0


From fc9428c3d9537bfadc83afd2d07c17095e44e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 03/88] fix: Boolean variable defined by a fixed expression
 that mentions variables

A Boolean declaration whose right-hand side is par but refers to variables
(for example length([x]) > 0) was flattened with a par copy of the
declaration, and bind() then evaluated bool_eq on that copy before it had a
value: 'cannot evaluate expression'.
---
 lib/flatten.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index c226993..7c13b03 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -3269,17 +3269,19 @@ KeepAlive bind(EnvI& env, Ctx ctx, VarDecl* vd, Expression* e) {
         GCLock lock;
         bool isTrue = (e == nullptr || eval_bool(env, e));
 
-        // Check if redefinition of bool_eq exists, if yes call it
-        std::vector<Expression*> args(2);
-        args[0] = vd->id();
-        args[1] = env.constants.boollit(isTrue);
-        Call* c = Call::a(Location().introduce(), env.constants.ids.bool_.eq, args);
-        c->decl(env.model->matchFn(env, c, false));
-        c->type(c->decl()->rtype(env, args, nullptr, false));
         bool didRewrite = false;
-        if (c->decl()->e() != nullptr) {
-          flat_exp(env, Ctx(), c, env.constants.varTrue, env.constants.varTrue);
-          didRewrite = true;
+        if (vd->type().isvar()) {
+          // Check if redefinition of bool_eq exists, if yes call it
+          std::vector<Expression*> args(2);
+          args[0] = vd->id();
+          args[1] = env.constants.boollit(isTrue);
+          Call* c = Call::a(Location().introduce(), env.constants.ids.bool_.eq, args);
+          c->decl(env.model->matchFn(env, c, false));
+          c->type(c->decl()->rtype(env, args, nullptr, false));
+          if (c->decl()->e() != nullptr) {
+            flat_exp(env, Ctx(), c, env.constants.varTrue, env.constants.varTrue);
+            didRewrite = true;
+          }
         }
 
         vd->e(env.constants.boollit(isTrue));
-- 
2.43.0


From d686174a0a43edda6dbe14644efd1a9d1d783982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 04/88] fix: fixed Boolean arrays concatenated in a negated
 context

Flattening the fixed operand of ++ inside e.g. not forall(xs ++ [p]) tried to
negate the whole array with bool_not and dereferenced a null declaration;
push the negation into the elements instead, as for array literals.
---
 lib/flatten/flatten_par.cpp | 42 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_par.cpp b/lib/flatten/flatten_par.cpp
index 2e66551..45ff536 100644
--- a/lib/flatten/flatten_par.cpp
+++ b/lib/flatten/flatten_par.cpp
@@ -13,8 +13,42 @@
 
 namespace MiniZinc {
 
+namespace {
+/// Negate all elements of the fixed Boolean array \a al (which occurs in a negated context)
+ArrayLit* negate_par_array(EnvI& env, ArrayLit* al) {
+  std::vector<Expression*> v(al->size());
+  for (unsigned int i = 0; i < al->size(); i++) {
+    Expression* ei = (*al)[i];
+    v[i] = Expression::type(ei) == Type::parbool() ? env.constants.boollit(!eval_bool(env, ei)) : ei;
+  }
+  std::vector<std::pair<int, int>> dims(al->dims());
+  for (unsigned int i = 0; i < al->dims(); i++) {
+    dims[i] = std::make_pair(al->min(i), al->max(i));
+  }
+  auto* ret = new ArrayLit(Expression::loc(al), v, dims);
+  ret->type(al->type());
+  return ret;
+}
+}  // namespace
+
 EE flatten_par(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b) {
   EE ret;
+  if (ctx.neg && Expression::type(e).bt() == Type::BT_BOOL && Expression::type(e).dim() > 0 &&
+      Expression::type(e).isPar() && !Expression::type(e).cv()) {
+    // Push the negation into the elements of the array
+    KeepAlive neg;
+    try {
+      GCLock lock;
+      neg = negate_par_array(env, eval_array_lit(env, e));
+    } catch (ResultUndefinedError&) {
+      ret.r = create_dummy_value(env, Expression::type(e));
+      ret.b = bind(env, Ctx(), b, env.constants.literalFalse);
+      return ret;
+    }
+    Ctx nctx = ctx;
+    nctx.neg = false;
+    return flatten_par(env, nctx, neg(), r, b);
+  }
   if (Expression::type(e).cv()) {
     CallStackItem _csi(env, e);
     Ctx nctx;
@@ -22,7 +56,13 @@ EE flatten_par(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
 
     try {
       KeepAlive ka = flat_cv_exp(env, nctx, e);
-      ret.r = bind(env, ctx, r, ka());
+      Ctx rctx = ctx;
+      if (ctx.neg && Expression::type(e).bt() == Type::BT_BOOL && Expression::type(e).dim() > 0) {
+        GCLock lock;
+        ka = negate_par_array(env, eval_array_lit(env, ka()));
+        rctx.neg = false;
+      }
+      ret.r = bind(env, rctx, r, ka());
       ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
     } catch (ResultUndefinedError&) {
       if (Expression::type(e).isbool()) {
-- 
2.43.0


From 416dfe20ea2b520bb7c6bb16819a04a6471ce54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 05/88] fix: fixed sub-expressions containing variables in
 linear expressions

collect_linexps evaluated every par expression with the fixed-expression
evaluator, including those that contain variables (for example a let with
variable locals and a fixed body), which crashed. Flatten these instead.
---
 lib/flatten/flatten_binop.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 8e0593c..e4e8ec1 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -227,6 +227,10 @@ void collect_linexps(EnvI& env, typename LinearTraits<Lit>::Val in_c, Expression
     Val c;
     StackItem(Expression* e0, Val c0) : e(e0), c(c0) {}
   };
+  // Par expressions that contain variables cannot be evaluated here, they have to be flattened
+  auto is_fixed = [](Expression* e) {
+    return Expression::type(e).isPar() && !Expression::type(e).cv();
+  };
   std::vector<StackItem> stack;
   stack.push_back(StackItem(exp, in_c));
   while (!stack.empty()) {
@@ -236,7 +240,7 @@ void collect_linexps(EnvI& env, typename LinearTraits<Lit>::Val in_c, Expression
     if (e == nullptr) {
       continue;
     }
-    if (Expression::type(e).isPar()) {
+    if (is_fixed(e)) {
       constval += c * LinearTraits<Lit>::eval(env, e);
     } else if (Lit* l = Expression::dynamicCast<Lit>(e)) {
       constval += c * LinearTraits<Lit>::v(l);
@@ -256,9 +260,9 @@ void collect_linexps(EnvI& env, typename LinearTraits<Lit>::Val in_c, Expression
             stack.push_back(StackItem(bo->rhs(), -c));
             break;
           case BOT_MULT:
-            if (Expression::type(bo->lhs()).isPar()) {
+            if (is_fixed(bo->lhs())) {
               stack.push_back(StackItem(bo->rhs(), c * LinearTraits<Lit>::eval(env, bo->lhs())));
-            } else if (Expression::type(bo->rhs()).isPar()) {
+            } else if (is_fixed(bo->rhs())) {
               stack.push_back(StackItem(bo->lhs(), c * LinearTraits<Lit>::eval(env, bo->rhs())));
             } else {
               coeffs.push_back(c);
@@ -337,7 +341,9 @@ KeepAlive mklinexp(EnvI& env, typename LinearTraits<Lit>::Val c0,
     Type t = Type::arrType(env, Type::partop(1), Expression::type(coeffs_e[0]));
     Expression::type(args[0], t);
     args[1] = new ArrayLit(Expression::loc(e0), vars_e);
-    Type tt = Type::arrType(env, Type::partop(1), Expression::type(vars_e[0]));
+    Type varElemType = Expression::type(vars_e[0]);
+    varElemType.mkVar(env);
+    Type tt = Type::arrType(env, Type::partop(1), varElemType);
     Expression::type(args[1], tt);
     args[2] = LinearTraits<Lit>::newLit(constval);
     Call* c = Call::a(Expression::loc(e0).introduce(), env.constants.ids.lin_exp, args);
-- 
2.43.0


From 1687038c227dc4c5d46ec435969b81be5ee15312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 06/88] fix: undefined fixed index in an access to an array of
 variables

[x > 2, false][[5][2]] aborted compilation with an evaluation error instead of
being undefined in its nearest Boolean context, as for every other undefined
access.
---
 lib/flatten/flatten_arrayaccess.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_arrayaccess.cpp b/lib/flatten/flatten_arrayaccess.cpp
index f61778f..f30cf20 100644
--- a/lib/flatten/flatten_arrayaccess.cpp
+++ b/lib/flatten/flatten_arrayaccess.cpp
@@ -73,7 +73,22 @@ start_flatten_arrayaccess:
         }
         if (Expression::type(tmp).isPar()) {
           GCLock lock;
-          auto* v = eval_par(env, tmp);
+          KeepAlive ka_v;
+          try {
+            ka_v = Expression::type(tmp).cv() ? flat_cv_exp(env, nctx, tmp) : eval_par(env, tmp);
+          } catch (ResultUndefinedError&) {
+            // The access is undefined since its index is undefined
+            if (aa->type().isbool() && !aa->type().isOpt()) {
+              ees.emplace_back(nullptr, env.constants.literalFalse);
+              ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+              ret.r = conj(env, r, ctx, ees);
+            } else {
+              ret.r = create_dummy_value(env, aa->type());
+              ret.b = bind(env, Ctx(), b, env.constants.literalFalse);
+            }
+            return ret;
+          }
+          auto* v = ka_v();
           if (v == env.constants.absent) {
             anyAbsent = true;
             idx[j] = al->min(j);
-- 
2.43.0


From faeddf0f9a19105d1db4d9663367a58342940edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 07/88] fix: optimiser removed the surviving declaration of a
 unified variable together with its constraint

---
 lib/optimize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/optimize.cpp b/lib/optimize.cpp
index c6a9e42..fbcbd1e 100644
--- a/lib/optimize.cpp
+++ b/lib/optimize.cpp
@@ -438,7 +438,9 @@ void remove_deleted_items(EnvI& envi, std::vector<VarDecl*>& deletedVarDecls) {
   auto& m = *envi.flat();
   while (!deletedVarDecls.empty()) {
     envi.checkCancel();
-    VarDecl* cur = deletedVarDecls.back();
+    // The variable may have been unified with another one since it was queued, so it is
+    // the surviving declaration that has to be checked
+    VarDecl* cur = deletedVarDecls.back()->id()->decl();
     deletedVarDecls.pop_back();
     if (can_remove_fzn_vardecl(envi, cur)) {
       auto cur_idx = envi.varOccurrences.idx.find(cur->id());
-- 
2.43.0


From 256bc288b5af2c7e956fc5c358a7df5deb124740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 08/88] fix: multi-pass compilation overwrote the definition of
 a reused control variable

---
 lib/flatten/flatten_call.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index e654c10..8c2e68e 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1189,13 +1189,22 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           }
           // Annotate cr() with get_path()
           add_path_annotation(env, cr());
-          reif_b->e(cr());
+          // When compiling in multiple passes, new_vardecl may return a variable that has already
+          // been defined by another expression
+          bool already_defined = reif_b->e() != nullptr;
+          if (already_defined) {
+            bind(env, Ctx(), reif_b, cr());
+          } else {
+            reif_b->e(cr());
+          }
           if (r != nullptr && r != reif_b) {
             Ctx reif_ctx;
             reif_ctx.neg = ctx.neg;
             bind(env, reif_ctx, r, reif_b->id());
           }
-          env.voAddExp(reif_b);
+          if (!already_defined) {
+            env.voAddExp(reif_b);
+          }
           ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
           args_ee.emplace_back(nullptr, reif_b->id());
           ret.r = conj(env, nullptr, ctx, args_ee);
-- 
2.43.0


From 181fb07602901d0e4e6c88f56747f5495b059f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 09/88] fix: undefined terms that cancel out of a linear
 expression were dropped

---
 lib/flatten/flatten_binop.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index e4e8ec1..ab25fe5 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -313,7 +313,22 @@ KeepAlive mklinexp(EnvI& env, typename LinearTraits<Lit>::Val c0,
   Val constval = 0;
   collect_linexps<Lit>(env, c0, e0, coeffs, vars, constval);
   collect_linexps<Lit>(env, c1, e1, coeffs, vars, constval);
+  std::vector<KeepAlive> terms;
+  for (auto& v : vars) {
+    if (!Expression::isa<Id>(v())) {
+      terms.push_back(v);
+    }
+  }
   simplify_lin<Lit>(coeffs, vars, constval);
+  // The terms have not been flattened yet, so a term that cancels out still has to be kept (with
+  // a zero coefficient) because it may be undefined
+  for (auto& t : terms) {
+    if (std::none_of(vars.begin(), vars.end(),
+                     [&](const KeepAlive& v) { return Expression::equal(v(), t()); })) {
+      coeffs.push_back(0);
+      vars.push_back(t);
+    }
+  }
   KeepAlive ka;
   if (coeffs.empty()) {
     ka = LinearTraits<Lit>::newLit(constval);
-- 
2.43.0


From cb83bd4b1e9546dae14cdd2e532a268fdd01d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 10/88] fix: iffall in a reified context

---
 share/minizinc/std/stdlib/stdlib_logic.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/stdlib/stdlib_logic.mzn b/share/minizinc/std/stdlib/stdlib_logic.mzn
index 9514d5d..811c246 100644
--- a/share/minizinc/std/stdlib/stdlib_logic.mzn
+++ b/share/minizinc/std/stdlib/stdlib_logic.mzn
@@ -111,7 +111,7 @@ function bool: iffall(array [$T] of opt bool: x) :: promise_commutative =
   exists (y in array1d(x)) (absent(y)) \/ iffall (y in array1d(x)) (deopt(y));
 /** @group stdlib.builtins.logic Return truth value of \(\text{true}\oplus (\oplus_i \a x[i])\) */
 function var bool: iffall(array [$T] of var bool: x) :: promise_commutative =
-  array_bool_xor(array1d(x) ++ [true]);
+  xorall(array1d(x) ++ [true]);
 /** @group stdlib.builtins.logic Return truth value of \(\text{true}\oplus (\oplus_i \a x[i])\) */
 function var bool: iffall(array [$T] of var opt bool: x) :: promise_commutative =
   exists (y in array1d(x)) (absent(y)) \/ iffall (y in array1d(x)) (deopt(y));
-- 
2.43.0


From 854ff7bc8819ecfc08795310c1c8a2e51185254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 11/88] fix: reified call turned into a constraint was
 eliminated by CSE against its own control variable

---
 lib/flatten.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 7c13b03..e6b6d9b 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1029,7 +1029,17 @@ EnvI::CSEMap::iterator EnvI::cseMapFind(Expression* e) {
   }
   return lookup(e);
 }
-void EnvI::cseMapRemove(Expression* e) { _cseMap.remove(e); }
+void EnvI::cseMapRemove(Expression* e) {
+  Call* c = Expression::dynamicCast<Call>(e);
+  if ((c != nullptr) && c->decl() != nullptr &&
+      c->decl()->ann().contains(constants.ann.promise_commutative)) {
+    // Same key as used by cseMapInsert
+    GCLock lock;
+    _cseMap.remove(Call::commutativeNormalized(*this, c));
+    return;
+  }
+  _cseMap.remove(e);
+}
 EnvI::CSEMap::iterator EnvI::cseMapEnd() { return _cseMap.end(); }
 void EnvI::dump() {
   struct EED {
@@ -4585,6 +4595,9 @@ void flatten(Env& e, FlatteningOptions opt) {
                     env.flatRemoveItem(vdi);
                     continue;
                   }
+                  // The right hand side is now posted as a constraint, CSE must not map it back to
+                  // the variable
+                  env.cseMapRemove(vdi->e()->e());
                   vdi->e()->e(nullptr);
                   env.flatAddItem(ci);
                 } else if (vdi->e()->type().isPar() || vdi->e()->ti()->computedDomain()) {
-- 
2.43.0


From 70c2068285a147d1478c714a7f0e3b14dd0ab200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 12/88] fix: negated reified calls with a control variable
 fixed by an earlier pass

---
 lib/flatten/flatten_call.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 8c2e68e..a87863d 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1164,6 +1164,13 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
             env.addCtxAnn(reif_b, ctx.b);
             if (reif_b->ti()->domain() != nullptr) {
               if (reif_b->ti()->domain() == env.constants.literalTrue) {
+                if (ctx.neg) {
+                  (void)flat_exp(env, Ctx(), cr(), env.constants.varTrue, env.constants.varTrue);
+                  args_ee.emplace_back(nullptr, env.constants.literalTrue);
+                  ret.r = conj(env, r, ctx, args_ee);
+                  ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+                  return ret;
+                }
                 bind(env, ctx, r, env.constants.literalTrue);
                 r = env.constants.varTrue;
                 ctx.b = C_ROOT;
@@ -1180,7 +1187,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                 flat_exp(env, Ctx(), reif_call, env.constants.varTrue, env.constants.varTrue);
                 args_ee.emplace_back(nullptr, env.constants.literalFalse);
                 ret.r = conj(env, r, ctx, args_ee);
-                ret.b = bind(env, ctx, b, env.constants.literalTrue);
+                ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
                 return ret;
               }
             }
-- 
2.43.0


From 32c328ca1134fb7e995a36114d128e09deeaa3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 13/88] fix: arguments of calls in half-reified contexts
 inherited the context of the call

Arguments of functions and predicates that make no monotonicity promise must be
flattened in mixed context. Array arguments of Boolean type and integer
arguments instead inherited the context of the call, so their Boolean
sub-expressions were only half reified.
---
 lib/flatten/flatten_call.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index a87863d..9679a4d 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -758,7 +758,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          Expression::ann(c->decl()->param(i))
                              .contains(env.constants.ctx.promise_antitone)) {
                 argctx.b = -transfer_ctx;
-              } else if (Expression::type(c->arg(i)).isbool()) {
+              } else if (Expression::type(c->arg(i)).isbool() || nctx.b != C_ROOT) {
                 argctx.b = C_MIX;
               }
             } else if (Expression::type(c->arg(i)).bt() == Type::BT_INT) {
@@ -769,9 +769,14 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
                          Expression::ann(c->decl()->param(i))
                              .contains(env.constants.ctx.promise_antitone)) {
                 argctx.i = -transfer_ctx;
-              } else if (Expression::type(c->arg(i)).isbool()) {
+              } else {
                 argctx.i = C_MIX;
               }
+            } else {
+              argctx.i = C_MIX;
+              if (nctx.b != C_ROOT) {
+                argctx.b = C_MIX;
+              }
             }
           } else if (cid == env.constants.ids.sum &&
                      Expression::type(c->arg(i)).bt() == Type::BT_BOOL) {
-- 
2.43.0


From 4f302119c53fb5a08fa32ddeb89a594734841975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:51 +0000
Subject: [PATCH 14/88] fix: optimiser evaluated int_div with a divisor fixed
 to zero

---
 lib/optimize_constraints.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/optimize_constraints.cpp b/lib/optimize_constraints.cpp
index 3ebe9b1..6acfc28 100644
--- a/lib/optimize_constraints.cpp
+++ b/lib/optimize_constraints.cpp
@@ -368,6 +368,10 @@ OptimizeRegistry::ConstraintStatus o_div(EnvI& env, Item* i, Call* c, Expression
         Expression::type(c->arg(2)).isPar()) {
       IntVal c0v = eval_int(env, c->arg(0));
       IntVal c2v = eval_int(env, c->arg(2));
+      if (c1v == 0) {
+        // The relation does not hold for any result
+        return OptimizeRegistry::CS_FAILED;
+      }
       return (c0v / c1v == c2v) ? OptimizeRegistry::CS_ENTAILED : OptimizeRegistry::CS_FAILED;
     }
   }
-- 
2.43.0


From 7e8aa4ff17c1d0178eaecf0999ec3305e9d0c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 15/88] fix: chain compression added a literal to a clause
 twice and then processed the removed clause

---
 lib/chain_compressor.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/chain_compressor.cpp b/lib/chain_compressor.cpp
index 146bdb5..6a6863d 100644
--- a/lib/chain_compressor.cpp
+++ b/lib/chain_compressor.cpp
@@ -224,13 +224,14 @@ bool ImpCompressor::compressItem(Item* i, VarDecl* oldLHS, VarDecl* newLHS) {
       }
 
       // Create new negative array
-      std::vector<Expression*> contents = std::vector<Expression*>(negative->size());
+      // (newLHS may already be part of the clause, it must not be added a second time)
+      std::vector<Expression*> contents({newLHS->id()});
       for (unsigned int i = 0; i < negative->size(); ++i) {
         auto* vd = Expression::cast<VarDecl>(follow_id_to_decl((*negative)[i]));
-        if (vd == oldLHS) {
-          contents[i] = newLHS->id();
-        } else {
-          contents[i] = vd->id();
+        if (vd != oldLHS) {
+          if (vd != newLHS) {
+            contents.push_back(vd->id());
+          }
           // Remove ci from multimap for other negative variables
           auto range = find(vd);
           for (auto it = range.first; it != range.second; ++it) {
-- 
2.43.0


From cb0a96ae881764ce47e8ebfe6c6559719120a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 16/88] fix: escape control characters in JSON strings

---
 include/minizinc/prettyprinter.hh | 33 ++++++++++++++++++++++++++++++
 include/minizinc/statistics.hh    |  2 +-
 lib/ast.cpp                       |  2 +-
 lib/astexception.cpp              | 14 ++++++-------
 lib/builtins.cpp                  | 16 ++++++++-------
 lib/exception.cpp                 |  4 ++--
 lib/flatten.cpp                   |  2 +-
 lib/output.cpp                    | 10 ++++-----
 lib/pathfileprinter.cpp           | 12 +++++------
 lib/prettyprinter.cpp             |  6 +++---
 lib/solns2out.cpp                 |  4 ++--
 lib/solver.cpp                    |  8 ++++----
 lib/solver_config.cpp             | 34 +++++++++++++++----------------
 lib/stackdump.cpp                 |  2 +-
 lib/statistics.cpp                |  5 ++++-
 lib/typecheck.cpp                 | 10 ++++-----
 lib/warning.cpp                   |  2 +-
 17 files changed, 102 insertions(+), 64 deletions(-)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index d85acfd..e12e224 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -69,6 +69,39 @@ public:
     return ret.str();
   }
 
+  /// Escape string as contents of a JSON string (control characters must not appear literally)
+  template <class S>
+  static std::string escapeJSONStringLit(const S& s) {
+    static const char* hex = "0123456789abcdef";
+    const char* sc = s.c_str();
+    std::string ret;
+    for (unsigned int i = 0; i < s.size(); i++) {
+      switch (sc[i]) {
+        case '\n':
+          ret += "\\n";
+          break;
+        case '\t':
+          ret += "\\t";
+          break;
+        case '"':
+          ret += "\\\"";
+          break;
+        case '\\':
+          ret += "\\\\";
+          break;
+        default:
+          if (static_cast<unsigned char>(sc[i]) < 0x20) {
+            ret += "\\u00";
+            ret += hex[sc[i] >> 4];
+            ret += hex[sc[i] & 15];
+          } else {
+            ret += sc[i];
+          }
+      }
+    }
+    return ret;
+  }
+
   template <class S>
   static std::string quoteId(const S& s) {
     char idChars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
diff --git a/include/minizinc/statistics.hh b/include/minizinc/statistics.hh
index 5b296cf..2575e5f 100644
--- a/include/minizinc/statistics.hh
+++ b/include/minizinc/statistics.hh
@@ -38,7 +38,7 @@ private:
       } else {
         _os << ", ";
       }
-      _os << "\"" << Printer::escapeStringLit(stat) << "\": " << value;
+      _os << "\"" << Printer::escapeJSONStringLit(stat) << "\": " << value;
     } else {
       _os << "%%%mzn-stat: " << stat << "=" << value << "\n";
     }
diff --git a/lib/ast.cpp b/lib/ast.cpp
index b238572..8bccdef 100644
--- a/lib/ast.cpp
+++ b/lib/ast.cpp
@@ -128,7 +128,7 @@ std::string Location::toJSON() const {
   if (filename().empty()) {
     os << "null";
   } else {
-    os << "\"" << Printer::escapeStringLit(filename()) << "\"";
+    os << "\"" << Printer::escapeJSONStringLit(filename()) << "\"";
   }
   os << ", \"firstLine\": " << firstLine() << ", \"firstColumn\": " << firstColumn()
      << ", \"lastLine\": " << lastLine() << ", \"lastColumn\": " << lastColumn() << "}";
diff --git a/lib/astexception.cpp b/lib/astexception.cpp
index d0bc988..e881953 100644
--- a/lib/astexception.cpp
+++ b/lib/astexception.cpp
@@ -26,7 +26,7 @@ void SyntaxError::print(std::ostream& os) const {
 }
 
 void SyntaxError::json(std::ostream& os) const {
-  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
+  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeJSONStringLit(std::string(what()))
      << "\", \"location\": " << loc().toJSON() << ", ";
   if (!_includeStack->empty()) {
     os << "\"includedFrom\": [";
@@ -37,11 +37,11 @@ void SyntaxError::json(std::ostream& os) const {
       } else {
         os << ", ";
       }
-      os << "\"" << Printer::escapeStringLit(filename) << "\"";
+      os << "\"" << Printer::escapeJSONStringLit(filename) << "\"";
     }
     os << "], ";
   }
-  os << "\"message\": \"" << Printer::escapeStringLit(msg()) << "\"}" << std::endl;
+  os << "\"message\": \"" << Printer::escapeJSONStringLit(msg()) << "\"}" << std::endl;
 }
 
 void CyclicIncludeError::print(std::ostream& os) const {
@@ -52,7 +52,7 @@ void CyclicIncludeError::print(std::ostream& os) const {
 }
 
 void CyclicIncludeError::json(std::ostream& os) const {
-  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
+  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeJSONStringLit(std::string(what()))
      << "\", \"cycle\": [";
   bool first = true;
   for (const auto& filename : *_cycle) {
@@ -61,7 +61,7 @@ void CyclicIncludeError::json(std::ostream& os) const {
     } else {
       os << ", ";
     }
-    os << "\"" << Printer::escapeStringLit(filename) << "\"";
+    os << "\"" << Printer::escapeJSONStringLit(filename) << "\"";
   }
   os << "]}\n";
 }
@@ -82,9 +82,9 @@ void LocationException::print(std::ostream& os) const {
 }
 
 void LocationException::json(std::ostream& os) const {
-  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
+  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeJSONStringLit(std::string(what()))
      << "\", \"location\": " << loc().toJSON() << ", \"message\": \""
-     << Printer::escapeStringLit(msg()) << "\"";
+     << Printer::escapeJSONStringLit(msg()) << "\"";
   if (_dumpStack && !_stack->empty()) {
     os << ", \"stack\": ";
     _stack->json(os);
diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 6c26c53..dd4bc99 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2080,9 +2080,9 @@ Expression* b_trace_exp(EnvI& env, Call* call) {
     p.trace(call->arg(0));
     env.outstream
         << "{\"type\": \"trace\", \"section\": \"trace_exp\", \"message\": { \"message\": \"";
-    env.outstream << Printer::escapeStringLit(oss.str()) << "\", \"location\": {";
+    env.outstream << Printer::escapeJSONStringLit(oss.str()) << "\", \"location\": {";
     env.outstream << "\"filename\": \""
-                  << Printer::escapeStringLit(Expression::loc(call).filename()) << "\", ";
+                  << Printer::escapeJSONStringLit(Expression::loc(call).filename()) << "\", ";
     env.outstream << "\"firstLine\": " << Expression::loc(call).firstLine() << ", ";
     env.outstream << "\"firstColumn\": " << Expression::loc(call).firstColumn() << ", ";
     env.outstream << "\"lastLine\": " << Expression::loc(call).lastLine() << ", ";
@@ -2127,7 +2127,7 @@ Expression* b_trace_stdout(EnvI& env, Call* call) {
   }
   if (env.fopts.encapsulateJSON) {
     env.outstream << "{\"type\": \"trace\", \"section\": \"default\", \"message\": \""
-                  << Printer::escapeStringLit(eval_string(env, msg_e)) << "\"}" << std::endl;
+                  << Printer::escapeJSONStringLit(eval_string(env, msg_e)) << "\"}" << std::endl;
   } else {
     env.outstream << eval_string(env, msg_e);
   }
@@ -2148,7 +2148,7 @@ bool b_trace_to_section(EnvI& env, Call* call) {
     auto msg = eval_string(env, Expression::type(call->arg(1)).cv()
                                     ? flat_cv_exp(env, Ctx(), call->arg(1))()
                                     : call->arg(1));
-    env.outstream << "{\"type\": \"trace\", \"section\": \"" << Printer::escapeStringLit(section_s)
+    env.outstream << "{\"type\": \"trace\", \"section\": \"" << Printer::escapeJSONStringLit(section_s)
                   << "\", \"message\": ";
     if (json) {
       std::stringstream ss(msg);
@@ -2158,7 +2158,7 @@ bool b_trace_to_section(EnvI& env, Call* call) {
         env.outstream << line;
       }
     } else {
-      env.outstream << "\"" << Printer::escapeStringLit(msg) << "\"";
+      env.outstream << "\"" << Printer::escapeJSONStringLit(msg) << "\"";
     }
     env.outstream << "}" << std::endl;
   } else if (env.outputSectionEnabled(ASTString(section_s))) {
@@ -2589,12 +2589,14 @@ std::string b_show_json_basic(EnvI& env, Expression* e, Type t) {
     oss << "]}";
   } else if (e == env.constants.absent) {
     oss << "null";
+  } else if (auto* strl = Expression::dynamicCast<StringLit>(e)) {
+    oss << "\"" << Printer::escapeJSONStringLit(strl->v()) << "\"";
   } else {
     p.print(e);
   }
   // Annotations still need to be escaped
   if (Expression::type(e).isAnn()) {
-    return std::string("\"") + Printer::escapeStringLit(oss.str()) + "\"";
+    return std::string("\"") + Printer::escapeJSONStringLit(oss.str()) + "\"";
   }
   return oss.str();
 }
@@ -2630,7 +2632,7 @@ std::string b_show_json_with_type(EnvI& env, Expression* exp, Type t) {
       RecordType* rt = env.getRecordType(al->type());
       oss << "{";
       for (unsigned int i = 0; i < al->size(); ++i) {
-        oss << "\"" << Printer::escapeStringLit(rt->fieldName(i))
+        oss << "\"" << Printer::escapeJSONStringLit(rt->fieldName(i))
             << "\": " << b_show_json_with_type(env, (*al)[i], (*rt)[i]);
         if (i < al->size() - 1) {
           oss << ", ";
diff --git a/lib/exception.cpp b/lib/exception.cpp
index ed41910..c5e3cf9 100644
--- a/lib/exception.cpp
+++ b/lib/exception.cpp
@@ -39,8 +39,8 @@ void Exception::print(std::ostream& os) const {
 }
 
 void Exception::json(std::ostream& os) const {
-  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeStringLit(std::string(what()))
-     << "\", \"message\": \"" << Printer::escapeStringLit(msg()) << "\"}" << std::endl;
+  os << "{\"type\": \"error\", \"what\": \"" << Printer::escapeJSONStringLit(std::string(what()))
+     << "\", \"message\": \"" << Printer::escapeJSONStringLit(msg()) << "\"}" << std::endl;
 }
 
 void InternalError::print(std::ostream& os) const {
diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index e6b6d9b..92aecde 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -5224,7 +5224,7 @@ void flatten(Env& e, FlatteningOptions opt) {
           } else {
             os << ", ";
           }
-          os << "{\"filename\": \"" << Printer::escapeStringLit(entry.first.first)
+          os << "{\"filename\": \"" << Printer::escapeJSONStringLit(entry.first.first)
              << "\", \"line\": " << entry.first.second << ", \"time\": " << time_taken.count()
              << "}";
         }
diff --git a/lib/output.cpp b/lib/output.cpp
index e899639..cf78a10 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -536,7 +536,7 @@ Call* generate_show(EnvI& env, Expression* e, Expression* w, Expression* p, bool
         lhs << ", ";
       }
       if (is_json) {
-        lhs << "\"" << Printer::escapeStringLit(field_name) << "\"";
+        lhs << "\"" << Printer::escapeJSONStringLit(field_name) << "\"";
       } else {
         lhs << Printer::quoteId(field_name);
       }
@@ -1446,7 +1446,7 @@ ArrayLit* create_json_output(EnvI& e, bool includeObjective, bool includeOutputI
     } else {
       s << ",\n";
     }
-    s << "  \"" << Printer::escapeStringLit(vd->id()->str()) << "\"" << " : ";
+    s << "  \"" << Printer::escapeJSONStringLit(vd->id()->str()) << "\"" << " : ";
     auto* sl = new StringLit(Location().introduce(), s.str());
     outputVars.push_back(sl);
 
@@ -1527,11 +1527,11 @@ Expression* create_encapsulated_output(EnvI& e) {
   for (const auto& it : e.outputSections) {
     if (first) {
       es.push_back(new StringLit(Location().introduce(),
-                                 "\"" + Printer::escapeStringLit(it.section) + "\": "));
+                                 "\"" + Printer::escapeJSONStringLit(it.section) + "\": "));
       first = false;
     } else {
       es.push_back(new StringLit(Location().introduce(),
-                                 ", \"" + Printer::escapeStringLit(it.section) + "\": "));
+                                 ", \"" + Printer::escapeJSONStringLit(it.section) + "\": "));
       suffix << ", ";
     }
     auto* concat = Call::a(Location().introduce(), "concat", {it.e});
@@ -1545,7 +1545,7 @@ Expression* create_encapsulated_output(EnvI& e) {
       showJSON->decl(e.model->matchFn(e, showJSON, false));
       es.push_back(showJSON);
     }
-    suffix << "\"" << Printer::escapeStringLit(it.section) << "\"";
+    suffix << "\"" << Printer::escapeJSONStringLit(it.section) << "\"";
   }
   suffix << "]";
   es.push_back(new StringLit(Location().introduce(), suffix.str()));
diff --git a/lib/pathfileprinter.cpp b/lib/pathfileprinter.cpp
index 72a2dc7..cbfe65f 100644
--- a/lib/pathfileprinter.cpp
+++ b/lib/pathfileprinter.cpp
@@ -213,23 +213,23 @@ void PathFilePrinter::json(Model* m) {
         }
         _os << "{";
         // FlatZinc name
-        _os << "\"flatZincName\": \"" << Printer::escapeStringLit(id->str()) << "\", ";
+        _os << "\"flatZincName\": \"" << Printer::escapeJSONStringLit(id->str()) << "\", ";
 
         // Nice name
         _os << "\"niceName\": \"";
         if (np.first.empty()) {
-          _os << Printer::escapeStringLit(id->str());
+          _os << Printer::escapeJSONStringLit(id->str());
         } else {
           string name = np.first;
-          _os << Printer::escapeStringLit(name);
+          _os << Printer::escapeJSONStringLit(name);
           if (name.find('?') != string::npos) {
-            _os << "(" << Printer::escapeStringLit(id->str()) << ")";
+            _os << "(" << Printer::escapeJSONStringLit(id->str()) << ")";
           }
         }
         _os << "\", ";
 
         // Path
-        _os << "\"path\": \"" << Printer::escapeStringLit(np.second) << "\"";
+        _os << "\"path\": \"" << Printer::escapeJSONStringLit(np.second) << "\"";
         _os << "}";
       }
     } else if (auto* ci = item->dynamicCast<ConstraintI>()) {
@@ -253,7 +253,7 @@ void PathFilePrinter::json(Model* m) {
       _os << "\"constraintIndex\": " << _constraintIndex << ", ";
       _os << "\"path\": ";
       if (sl != nullptr) {
-        _os << "\"" << Printer::escapeStringLit(sl->v()) << "\"";
+        _os << "\"" << Printer::escapeJSONStringLit(sl->v()) << "\"";
       } else {
         _os << "null";
       }
diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index fcbb27e..998fb2e 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -2391,7 +2391,7 @@ void Printer::print(const Model* m) {
 
 void FznJSONPrinter::printBasicElement(std::ostream& os, Expression* e) {
   if (auto* call = Expression::dynamicCast<Call>(e)) {
-    os << "{ \"id\" : \"" << Printer::escapeStringLit(call->id()) << "\", \"args\" : [";
+    os << "{ \"id\" : \"" << Printer::escapeJSONStringLit(call->id()) << "\", \"args\" : [";
     for (unsigned int i = 0; i < call->argCount(); i++) {
       if (i != 0) {
         os << ", ";
@@ -2404,7 +2404,7 @@ void FznJSONPrinter::printBasicElement(std::ostream& os, Expression* e) {
   } else if (auto* ident = Expression::dynamicCast<Id>(e)) {
     std::ostringstream ident_oss;
     ident_oss << *ident;
-    os << "\"" << Printer::escapeStringLit(ident_oss.str()) << "\"";
+    os << "\"" << Printer::escapeJSONStringLit(ident_oss.str()) << "\"";
   } else if (auto* al = Expression::dynamicCast<ArrayLit>(e)) {
     os << "[";
     for (unsigned int j = 0; j < al->size(); j++) {
@@ -2446,7 +2446,7 @@ void FznJSONPrinter::printBasicElement(std::ostream& os, Expression* e) {
         os << *e;
         break;
       case Expression::E_STRINGLIT:
-        os << "{ \"string\" : \"" << Printer::escapeStringLit(Expression::cast<StringLit>(e)->v())
+        os << "{ \"string\" : \"" << Printer::escapeJSONStringLit(Expression::cast<StringLit>(e)->v())
            << "\" }";
         break;
       case Expression::E_BOOLLIT:
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index a59a48b..aba8717 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -690,7 +690,7 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
             if (opt.flagEncapsulateJSON) {
               message << "{\"type\": \"core\", \"core\": [";
               for (size_t i = 0; i < resolved.size(); ++i) {
-                message << (i == 0 ? "" : ", ") << "\"" << Printer::escapeStringLit(resolved[i])
+                message << (i == 0 ? "" : ", ") << "\"" << Printer::escapeJSONStringLit(resolved[i])
                         << "\"";
               }
               message << "]}\n";
@@ -711,7 +711,7 @@ bool Solns2Out::feedRawDataChunk(const char* data) {
               parseStatistics(_stats, message);
               _stats.clear();
             } else {
-              message << "{\"type\": \"comment\", \"comment\": \"" << Printer::escapeStringLit(line)
+              message << "{\"type\": \"comment\", \"comment\": \"" << Printer::escapeJSONStringLit(line)
                       << "\\n\"}\n";
             }
           } else {
diff --git a/lib/solver.cpp b/lib/solver.cpp
index ab25ec0..8454b18 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -574,12 +574,12 @@ MznSolver::OptionStatus MznSolver::processOptions(std::vector<std::string>& argv
       GCLock lock;
       _os << "{\n";
       _os << "  \"globalConfigFile\" : \""
-          << Printer::escapeStringLit(FileUtils::global_config_file()) << "\",\n";
-      _os << "  \"userConfigFile\" : \"" << Printer::escapeStringLit(FileUtils::user_config_file())
+          << Printer::escapeJSONStringLit(FileUtils::global_config_file()) << "\",\n";
+      _os << "  \"userConfigFile\" : \"" << Printer::escapeJSONStringLit(FileUtils::user_config_file())
           << "\",\n";
       _os << "  \"userSolverConfigDir\" : \""
-          << Printer::escapeStringLit(FileUtils::user_config_dir()) << "/solvers\",\n";
-      _os << "  \"mznStdlibDir\" : \"" << Printer::escapeStringLit(_solverConfigs.mznlibDir())
+          << Printer::escapeJSONStringLit(FileUtils::user_config_dir()) << "/solvers\",\n";
+      _os << "  \"mznStdlibDir\" : \"" << Printer::escapeJSONStringLit(_solverConfigs.mznlibDir())
           << "\"\n";
       _os << "}\n";
       return OPTION_FINISH;
diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 50598f9..4b165a6 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -422,16 +422,16 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
     oss << "    \"isDefault\": true,\n";
   }
   if (!mznlibResolved().empty()) {
-    oss << "    \"mznlib\": \"" << Printer::escapeStringLit(mznlibResolved()) << "\",\n";
+    oss << "    \"mznlib\": \"" << Printer::escapeJSONStringLit(mznlibResolved()) << "\",\n";
   }
   if (!executableResolved().empty()) {
-    oss << "    \"executable\": \"" << Printer::escapeStringLit(executableResolved()) << "\",\n";
+    oss << "    \"executable\": \"" << Printer::escapeJSONStringLit(executableResolved()) << "\",\n";
   }
-  oss << "    \"configFile\": \"" << Printer::escapeStringLit(configFile()) << "\"";
+  oss << "    \"configFile\": \"" << Printer::escapeJSONStringLit(configFile()) << "\"";
   if (!defaultFlags().empty()) {
     oss << ",\n    \"defaultFlags\": [";
     for (unsigned int j = 0; j < defaultFlags().size(); j++) {
-      oss << "\"" << Printer::escapeStringLit(defaultFlags()[j]) << "\"";
+      oss << "\"" << Printer::escapeJSONStringLit(defaultFlags()[j]) << "\"";
       if (j < defaultFlags().size() - 1) {
         oss << ",";
       }
@@ -440,24 +440,24 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
   }
   oss << "\n";
   oss << "  },\n";
-  oss << "  \"id\": \"" << Printer::escapeStringLit(id()) << "\",\n";
-  oss << "  \"name\": \"" << Printer::escapeStringLit(name()) << "\",\n";
-  oss << "  \"version\": \"" << Printer::escapeStringLit(version()) << "\",\n";
+  oss << "  \"id\": \"" << Printer::escapeJSONStringLit(id()) << "\",\n";
+  oss << "  \"name\": \"" << Printer::escapeJSONStringLit(name()) << "\",\n";
+  oss << "  \"version\": \"" << Printer::escapeJSONStringLit(version()) << "\",\n";
   if (!mznlib().empty()) {
-    oss << "  \"mznlib\": \"" << Printer::escapeStringLit(mznlib()) << "\",\n";
+    oss << "  \"mznlib\": \"" << Printer::escapeJSONStringLit(mznlib()) << "\",\n";
   }
   if (!executable().empty()) {
-    oss << "  \"executable\": \"" << Printer::escapeStringLit(executable()) << "\",\n";
+    oss << "  \"executable\": \"" << Printer::escapeJSONStringLit(executable()) << "\",\n";
   }
   oss << "  \"mznlibVersion\": " << mznlibVersion() << ",\n";
   if (!description().empty()) {
-    oss << "  \"description\": \"" << Printer::escapeStringLit(description()) << "\",\n";
+    oss << "  \"description\": \"" << Printer::escapeJSONStringLit(description()) << "\",\n";
   }
   if (!contact().empty()) {
-    oss << "  \"contact\": \"" << Printer::escapeStringLit(contact()) << "\",\n";
+    oss << "  \"contact\": \"" << Printer::escapeJSONStringLit(contact()) << "\",\n";
   }
   if (!website().empty()) {
-    oss << "  \"website\": \"" << Printer::escapeStringLit(website()) << "\",\n";
+    oss << "  \"website\": \"" << Printer::escapeJSONStringLit(website()) << "\",\n";
   }
   if (!requiredFlags().empty()) {
     oss << "  \"requiredFlags\": [";
@@ -482,8 +482,8 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
   if (!extraFlags().empty()) {
     oss << "  \"extraFlags\": [";
     for (unsigned int j = 0; j < extraFlags().size(); j++) {
-      oss << "\n    [" << "\"" << Printer::escapeStringLit(extraFlags()[j].flag) << "\",\""
-          << Printer::escapeStringLit(extraFlags()[j].description) << "\",\"";
+      oss << "\n    [" << "\"" << Printer::escapeJSONStringLit(extraFlags()[j].flag) << "\",\""
+          << Printer::escapeJSONStringLit(extraFlags()[j].description) << "\",\"";
       switch (extraFlags()[j].flagType) {
         case ExtraFlag::FlagType::T_BOOL:
           oss << "bool";
@@ -499,9 +499,9 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
           break;
       }
       for (const auto& v : extraFlags()[j].range) {
-        oss << ":" << Printer::escapeStringLit(v);
+        oss << ":" << Printer::escapeJSONStringLit(v);
       }
-      oss << "\",\"" << Printer::escapeStringLit(extraFlags()[j].defaultValue) << "\"]";
+      oss << "\",\"" << Printer::escapeJSONStringLit(extraFlags()[j].defaultValue) << "\"]";
       if (j < extraFlags().size() - 1) {
         oss << ",";
       }
@@ -512,7 +512,7 @@ std::string SolverConfig::toJSON(const SolverConfigs& configs) const {
   if (!tags().empty()) {
     oss << "  \"tags\": [";
     for (unsigned int j = 0; j < tags().size(); j++) {
-      oss << "\"" << Printer::escapeStringLit(tags()[j]) << "\"";
+      oss << "\"" << Printer::escapeJSONStringLit(tags()[j]) << "\"";
       if (j < tags().size() - 1) {
         oss << ",";
       }
diff --git a/lib/stackdump.cpp b/lib/stackdump.cpp
index b9e0380..3582ef0 100644
--- a/lib/stackdump.cpp
+++ b/lib/stackdump.cpp
@@ -273,7 +273,7 @@ void StackDump::json(std::ostream& os) const {
         ss << "unknown expression";
         break;
     }
-    os << Printer::escapeStringLit(ss.str()) << "\"}";
+    os << Printer::escapeJSONStringLit(ss.str()) << "\"}";
   }
   os << "]";
 }
diff --git a/lib/statistics.cpp b/lib/statistics.cpp
index dec9821..2ca6aeb 100644
--- a/lib/statistics.cpp
+++ b/lib/statistics.cpp
@@ -88,7 +88,10 @@ void StatisticsStream::add(const std::string& stat, double value) {
   }
 }
 void StatisticsStream::add(const std::string& stat, const std::string& value) {
-  addInternal(stat, "\"" + Printer::escapeStringLit(value) + "\"");
+  addInternal(stat, "\"" +
+                        (_json ? Printer::escapeJSONStringLit(value)
+                               : Printer::escapeStringLit(value)) +
+                        "\"");
 }
 void StatisticsStream::addRaw(const std::string& stat, const std::string& value) {
   addInternal(stat, value);
diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 1472694..7f2d0cd 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -423,7 +423,7 @@ void create_enum_mapper(EnvI& env, Model* m, unsigned int enumId, VarDecl* vd, M
         auto* json_e_quote_end = new StringLit(Location().introduce(), ASTString("}"));
         auto* construct_string_json = new BinOp(
             Location().introduce(), json_e_quote, BOT_PLUSPLUS,
-            new StringLit(Location().introduce(), Printer::escapeStringLit(ident->str())));
+            new StringLit(Location().introduce(), Printer::escapeJSONStringLit(ident->str())));
         auto* construct_string_json_1a = new BinOp(Location().introduce(), construct_string_json,
                                                    BOT_PLUSPLUS, json_e_quote_mid);
         auto* construct_string_json_1b =
@@ -822,7 +822,7 @@ void create_enum_mapper(EnvI& env, Model* m, unsigned int enumId, VarDecl* vd, M
                                       new StringLit(Location().introduce(), "("));
           auto* openJson =
               new StringLit(Location().introduce(),
-                            "{ \"c\" : \"" + Printer::escapeStringLit(c->id()) + "\", \"e\" : ");
+                            "{ \"c\" : \"" + Printer::escapeJSONStringLit(c->id()) + "\", \"e\" : ");
           ITE* openConstr = new ITE(Location().introduce(), {vd_aj->id(), openJson}, openOther);
           auto* closeJson = new StringLit(Location().introduce(), "}");
           auto* closeOther = new StringLit(Location().introduce(), ")");
@@ -5629,7 +5629,7 @@ void output_var_desc_json(Env& env, TypeInst* ti, std::ostream& os, bool extra =
     auto* rt = env.envi().getRecordType(ti->type());
     os << ", \"field_types\" : {";
     for (unsigned int i = 0; i < dom->size(); ++i) {
-      os << "\"" << Printer::escapeStringLit(rt->fieldName(i)) << "\": ";
+      os << "\"" << Printer::escapeJSONStringLit(rt->fieldName(i)) << "\": ";
       output_var_desc_json(env, Expression::cast<TypeInst>((*dom)[i]), os, extra);
       if (i < dom->size() - 1) {
         os << ", ";
@@ -5688,7 +5688,7 @@ void output_var_desc_json(Env& env, TypeInst* ti, std::ostream& os, bool extra =
 }
 
 void output_var_desc_json(Env& env, VarDecl* vd, std::ostream& os, bool extra = false) {
-  os << "\"" << Printer::escapeStringLit(vd->id()->str()) << "\": ";
+  os << "\"" << Printer::escapeJSONStringLit(vd->id()->str()) << "\": ";
   output_var_desc_json(env, vd->ti(), os, extra);
 }
 
@@ -5834,7 +5834,7 @@ void output_model_interface(Env& env, Model* m, std::ostream& os,
         if (hadIncludedFiles) {
           ossIncludedFiles << ", ";
         }
-        ossIncludedFiles << "\"" << Printer::escapeStringLit(ii->m()->filepath()) << "\"";
+        ossIncludedFiles << "\"" << Printer::escapeJSONStringLit(ii->m()->filepath()) << "\"";
         hadIncludedFiles = true;
       }
       return true;
diff --git a/lib/warning.cpp b/lib/warning.cpp
index 3087d1b..d8cc18c 100644
--- a/lib/warning.cpp
+++ b/lib/warning.cpp
@@ -37,7 +37,7 @@ void Warning::json(std::ostream& os, bool werror) const {
     _stack->json(os);
     os << ", ";
   }
-  os << "\"message\": \"" << Printer::escapeStringLit(_msg) << "\"}" << std::endl;
+  os << "\"message\": \"" << Printer::escapeJSONStringLit(_msg) << "\"}" << std::endl;
 }
 
 }  // namespace MiniZinc
-- 
2.43.0


From e633b62a44d87efc6f4f916e6b7f720fc8ad34ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 17/88] fix: escape carriage returns when printing string
 literals

---
 include/minizinc/prettyprinter.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index e12e224..a827731 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -62,6 +62,10 @@ public:
         case '\\':
           ret << "\\\\";
           break;
+        case '\r':
+          // must not occur literally in a string literal
+          ret << "\\x0d";
+          break;
         default:
           ret << sc[i];
       }
-- 
2.43.0


From 8c389758a5dd83122bdfdfc88c9edd9cce3fe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 18/88] fix: decode \b, \f, \r and supplementary characters
 beyond U+1FFFF in JSON strings

---
 lib/json_parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index cc5f1e8..abaefa9 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -258,6 +258,15 @@ JSONParser::Token JSONParser::readToken(istream& is) {
           case 't':
             result += "\t";
             break;
+          case 'b':
+            result += "\b";
+            break;
+          case 'f':
+            result += "\f";
+            break;
+          case 'r':
+            result += "\r";
+            break;
           case 'u': {
             char rest[4];
             is.read(rest, sizeof(rest));
@@ -297,7 +306,7 @@ JSONParser::Token JSONParser::readToken(istream& is) {
                 throw JSONError(_env, errLocation(),
                                 "unexpected token `" + string(rest, is.gcount()) + "'");
               }
-              codepoint = (((codepoint - 0xD800) << 10) | (lowSurrogate - 0xDC00)) | 0x10000;
+              codepoint = (((codepoint - 0xD800) << 10) | (lowSurrogate - 0xDC00)) + 0x10000;
             }
 
             char utf8[4];
-- 
2.43.0


From bedde9b7bf7404ec7a3302e74d4994c465b75145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 19/88] fix: print canonicalised solutions of a stream without
 final status

---
 lib/solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/solver.cpp b/lib/solver.cpp
index 8454b18..a6c3fac 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1080,6 +1080,11 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       line += '\n';  // need eols as in t=raw stream
       s2out.feedRawDataChunk(line.c_str());
     }
+    if (s2out.opt.flagCanonicalize && !s2out.fStatusPrinted &&
+        s2out.status == SolverInstance::SAT) {
+      // Stream ended without a status, so the buffered solutions have not been printed yet
+      s2out.evalStatus(SolverInstance::SAT);
+    }
     return SolverInstance::NONE;
   }
 
-- 
2.43.0


From 46d97f571ca408d574f5e563436bdbfcc77f38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:08 +0000
Subject: [PATCH 20/88] fix: JSON status message in stand-alone solution stream
 translation

---
 lib/solns2out.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index aba8717..09aa779 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -506,7 +506,9 @@ bool Solns2Out::evalStatusMsg(SolverInstance::Status status) {
       return true;
     case SolverInstance::OPT: {
       if (opt.flagEncapsulateJSON && !opt.searchCompleteMsg.empty()) {
-        bool sat = getEnv()->flat()->solveItem()->st() == SolveI::ST_SAT;
+        // There is no solve item when translating a solution stream without its FlatZinc
+        auto* solve_item = getEnv()->flat()->solveItem();
+        bool sat = solve_item == nullptr || solve_item->st() == SolveI::ST_SAT;
         label = sat ? "ALL_SOLUTIONS" : "OPTIMAL_SOLUTION";
       } else {
         label = opt.searchCompleteMsg;
-- 
2.43.0


From 03265503367a11d95e24e409babc89125ff9baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 21/88] fix: honour output options given after --ozn-file

---
 include/minizinc/solns2out.hh | 3 +++
 lib/solns2out.cpp             | 7 +++++++
 lib/solver.cpp                | 1 +
 3 files changed, 11 insertions(+)

diff --git a/include/minizinc/solns2out.hh b/include/minizinc/solns2out.hh
index 27b64cc..f001386 100644
--- a/include/minizinc/solns2out.hh
+++ b/include/minizinc/solns2out.hh
@@ -109,6 +109,9 @@ public:
   /// passing Env* containing output()
   bool initFromEnv(Env* pE);
 
+  /// Should be called once all options are known if the output model was loaded by an option
+  void optionsProcessed();
+
   /// Then, variable assignments can be passed either as text
   /// or put directly into envi()->output() ( latter done externally
   /// by e.g. SolverInstance::assignSolutionToOutput() )
diff --git a/lib/solns2out.cpp b/lib/solns2out.cpp
index 09aa779..1cfa5f1 100644
--- a/lib/solns2out.cpp
+++ b/lib/solns2out.cpp
@@ -141,6 +141,13 @@ bool Solns2Out::initFromEnv(Env* pE) {
   return true;
 }
 
+void Solns2Out::optionsProcessed() {
+  if (_env != nullptr) {
+    // Options may have been given after the output model
+    init();
+  }
+}
+
 void Solns2Out::initFromOzn(const std::string& filename) {
   std::vector<string> filenames(1, filename);
 
diff --git a/lib/solver.cpp b/lib/solver.cpp
index a6c3fac..ab67104 100644
--- a/lib/solver.cpp
+++ b/lib/solver.cpp
@@ -1074,6 +1074,7 @@ SolverInstance::Status MznSolver::run(const std::vector<std::string>& args0,
       (ifMzn2Fzn() || _sf == nullptr || _sf->getId() != "org.minizinc.mzn-mzn") &&
       !_flt.hasInputFiles() && model.empty()) {
     // We are in solns2out mode
+    s2out.optionsProcessed();
     while (std::cin.good()) {
       string line;
       getline(std::cin, line);
-- 
2.43.0


From ea682c0448169ee734aaf2190a6fd819656ce562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:38 +0000
Subject: [PATCH 22/88] fix: negated and partial comparisons of tuples and
 records

---
 lib/flatten/flatten_binop.cpp | 69 +++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index ab25fe5..a7e4f55 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1344,14 +1344,19 @@ ArrayLit* struct_as_table(EnvI& env, ArrayLit* table, ArrayLit* obj) {
   return al;
 }
 
-EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expression* rhs,
-                     bool doubleNeg, VarDecl* r, VarDecl* b) {
+/// Rewrite a comparison between (arrays of) structs into an equivalent Boolean expression
+KeepAlive rewrite_struct_op(EnvI& env, const Location& loc, Expression* lhs, BinOpType bot,
+                            Expression* rhs) {
   KeepAlive rewrite = nullptr;
   ArrayLit* tupLHS = eval_array_lit(env, lhs);
   ArrayLit* tupRHS = eval_array_lit(env, rhs);
 
-  auto new_binop = [&](Expression* lhs, BinOpType bot, Expression* rhs) {
-    auto* binop = new BinOp(Location().introduce(), lhs, bot, rhs);
+  // The location of each component is distinct, because variables introduced for different
+  // expressions with the same path are unified when using multi-pass compilation
+  auto new_binop = [&](Expression* lhs, BinOpType bot, Expression* rhs, unsigned int i) {
+    Location component(loc.filename(), loc.firstLine(), loc.firstColumn(), loc.lastLine(),
+                       loc.lastColumn() + i + 1);
+    auto* binop = new BinOp(component.introduce(), lhs, bot, rhs);
     FunctionI* fi = env.model->matchFn(
         env, binop->opToString(), std::vector<Type>({Expression::type(lhs), Expression::type(rhs)}),
         false);
@@ -1368,7 +1373,7 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
       assert(tupLHS->size() == tupRHS->size());
       std::vector<Expression*> comps(tupLHS->size());
       for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-        comps[i] = new_binop((*tupLHS)[i], BOT_EQ, (*tupRHS)[i]);
+        comps[i] = new_binop((*tupLHS)[i], BOT_EQ, (*tupRHS)[i], i);
       }
       auto* al = new ArrayLit(Location().introduce(), comps);
       al->type(Type::varbool(1));
@@ -1384,7 +1389,7 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
       assert(tupLHS->size() == tupRHS->size());
       std::vector<Expression*> comps(tupLHS->size());
       for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-        comps[i] = new_binop((*tupLHS)[i], BOT_NQ, (*tupRHS)[i]);
+        comps[i] = new_binop((*tupLHS)[i], BOT_NQ, (*tupRHS)[i], i);
       }
       auto* al = new ArrayLit(Location().introduce(), comps);
       al->type(Type::varbool(1));
@@ -1425,16 +1430,16 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
         // Create the implications
         std::vector<Expression*> impls(tupLHS->size());
         for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-          auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i]);
-          auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i]);
+          auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i], i);
+          auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i], i);
           if (i < tupLHS->size() - 1) {
-            auto* _or = new_binop(le, BOT_OR, b[i + 1]);
-            auto* _and = new_binop(lq, BOT_AND, _or);
-            impls[i] = new_binop(b[i], BOT_IMPL, _and);
+            auto* _or = new_binop(le, BOT_OR, b[i + 1], i);
+            auto* _and = new_binop(lq, BOT_AND, _or, i);
+            impls[i] = new_binop(b[i], BOT_IMPL, _and, i);
           } else if (bot == BOT_LQ) {
-            impls[i] = new_binop(b[i], BOT_IMPL, lq);
+            impls[i] = new_binop(b[i], BOT_IMPL, lq, i);
           } else {
-            impls[i] = new_binop(b[i], BOT_IMPL, le);
+            impls[i] = new_binop(b[i], BOT_IMPL, le, i);
           }
         }
         auto* al = new ArrayLit(Location().introduce(), impls);
@@ -1443,7 +1448,7 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
         forall->type(Type::varbool());
         forall->decl(env.model->matchFn(env, forall, false, true));
         // Wrap in let
-        auto* let = new Let(Location().introduce(), {b_decl}, new_binop(b[0], BOT_AND, forall));
+        auto* let = new Let(Location().introduce(), {b_decl}, new_binop(b[0], BOT_AND, forall, 0));
         let->type(Type::varbool());
         rewrite = let;
       }
@@ -1468,7 +1473,7 @@ EE rewrite_struct_op(EnvI& env, Ctx& ctx, Expression* lhs, BinOpType bot, Expres
     default:
       throw InternalError("Tuple operator rewrite not defined");
   }
-  return flat_exp(env, ctx, rewrite(), r, b);
+  return rewrite;
 }
 
 EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expression* e, VarDecl* r,
@@ -1553,6 +1558,7 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
   }
 
   std::vector<KeepAlive> args;
+  KeepAlive structOp;
   ASTString callid;
 
   Expression* le0 = nullptr;
@@ -1628,13 +1634,38 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
     if ((Expression::type(e0.r()).istuple() || Expression::type(e0.r()).isrecord()) &&
         (isBuiltin || (bot == BOT_IN && check_struct_table(env, Expression::type(e0.r()),
                                                            Expression::type(e1.r()))))) {
-      return rewrite_struct_op(env, ctx, e0.r(), bot, e1.r(), doubleNeg, r, b);
+      structOp = rewrite_struct_op(env, Expression::loc(e), e0.r(), bot, e1.r());
+    } else {
+      args.push_back(e0.r);
+      args.push_back(e1.r);
     }
-    args.push_back(e0.r);
-    args.push_back(e1.r);
   }
 
-  if (!args.empty()) {
+  if (structOp() != nullptr) {
+    Ctx structCtx = ctx;
+    if (doubleNeg) {
+      // The operator has already been complemented
+      structCtx.b = -structCtx.b;
+      structCtx.neg = !structCtx.neg;
+    }
+    if (istrue(env, e0.b()) && istrue(env, e1.b())) {
+      return flat_exp(env, structCtx, structOp(), r, b);
+    }
+    // conj() negates every element of ees when ctx.neg is set, so ees[2].b has to hold the positive
+    // form of the original comparison
+    if (structCtx.neg) {
+      structCtx.b = -structCtx.b;
+      structCtx.neg = false;
+    }
+    ees[2].b = flat_exp(env, structCtx, structOp(), nullptr, env.constants.varTrue).r;
+    if (doubleNeg) {
+      GCLock lock;
+      Type t = Expression::type(ees[2].b());
+      ees[2].b = new UnOp(Location().introduce(), UOT_NOT, ees[2].b());
+      Expression::type(ees[2].b(), t);
+    }
+    ret.r = conj(env, r, ctx, ees);
+  } else if (!args.empty()) {
     GC::lock();
 
     bool idIsOp = false;
-- 
2.43.0


From 9bbb18c546e4e52a384cd2965aae7734d399e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 23/88] fix: cardinality of the untyped empty set

---
 lib/builtins.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index dd4bc99..56c996b 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -1657,6 +1657,9 @@ IntVal b_card(EnvI& env, Call* call) {
       FloatSetRanges fsr(fsv);
       return Ranges::cardinality(fsr);
     }
+    case Type::BT_BOT:
+      // Only the empty set does not have an element type
+      return 0;
     default:
       throw EvalError(env, Location(), "not implemented yet");
   }
-- 
2.43.0


From cccb75bfad6029d3807103a8c9e85a286bdd229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 24/88] fix: negated weak comparisons of optional values

---
 lib/flatten/flatten_binop.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index a7e4f55..5336f24 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1165,6 +1165,9 @@ bool check_struct_lex(EnvI& env, Type t) {
     }
     Type t = (*b.first)[b.second];
     b.second++;
+    if (t.isOpt()) {
+      return false;
+    }
     switch (t.bt()) {
       case Type::BT_FLOAT:   // TODO: replace if par
       case Type::BT_STRING:  // TODO: Can be replaced
@@ -1776,6 +1779,26 @@ EE flatten_bool_op(EnvI& env, Ctx& ctx, const Ctx& ctx0, const Ctx& ctx1, Expres
   return ret;
 }
 
+/// Whether an operand of the comparison \a bo is, or contains, a value of option type. Order
+/// comparisons hold when either side is absent, so they are not the negation of their complement.
+bool weak_comparison(EnvI& env, BinOp* bo) {
+  std::vector<Type> stack({Expression::type(bo->lhs()), Expression::type(bo->rhs())});
+  while (!stack.empty()) {
+    Type t = stack.back();
+    stack.pop_back();
+    if (t.isOpt()) {
+      return true;
+    }
+    if (t.structBT()) {
+      StructType* st = env.getStructType(t);
+      for (unsigned int i = 0; i < st->size(); i++) {
+        stack.push_back((*st)[i]);
+      }
+    }
+  }
+  return false;
+}
+
 EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarDecl* b) {
   Ctx ctx = input_ctx;
   CallStackItem _csi(env, e, input_ctx);
@@ -2201,7 +2224,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       ctx0.b = ctx1.b = C_MIX;
       return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
     case BOT_LE:
-      if (ctx.neg) {
+      if (ctx.neg && !weak_comparison(env, bo)) {
         doubleNeg = true;
         bot = BOT_GQ;
       }
@@ -2214,7 +2237,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       }
       return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
     case BOT_LQ:
-      if (ctx.neg) {
+      if (ctx.neg && !weak_comparison(env, bo)) {
         doubleNeg = true;
         bot = BOT_GR;
       }
@@ -2227,7 +2250,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       }
       return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
     case BOT_GR:
-      if (ctx.neg) {
+      if (ctx.neg && !weak_comparison(env, bo)) {
         doubleNeg = true;
         bot = BOT_LQ;
       }
@@ -2240,7 +2263,7 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       }
       return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
     case BOT_GQ:
-      if (ctx.neg) {
+      if (ctx.neg && !weak_comparison(env, bo)) {
         doubleNeg = true;
         bot = BOT_LE;
       }
-- 
2.43.0


From d8efe211d84c0c1345226ddd136501286f7e93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 25/88] fix: conditional between empty sets read the bounds of
 an empty set

---
 lib/flatten/flatten_ite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index 0870ceb..e655f56 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -471,7 +471,8 @@ EE flatten_ite(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
         Ranges::Union<IntVal, IntSetRanges, IntSetRanges> u(i0, i1);
         isv_branches = IntSetVal::ai(u);
       }
-      if (isv_branches->min().isFinite() || isv_branches->max().isFinite()) {
+      if (isv_branches->empty() || isv_branches->min().isFinite() ||
+          isv_branches->max().isFinite()) {
         auto* nr_in = new BinOp(Location().introduce(), nr->id(), BOT_SUBSET,
                                 new SetLit(Location().introduce(), isv_branches));
         nr_in->type(Type::varbool());
-- 
2.43.0


From be04f9cb6c5d3a4eb166a6e2cce7e33f6bcc1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 26/88] fix: Boolean field of an undefined tuple or record is
 false in its Boolean context

---
 lib/flatten/flatten_fieldaccess.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_fieldaccess.cpp b/lib/flatten/flatten_fieldaccess.cpp
index d4e7912..039a6a8 100644
--- a/lib/flatten/flatten_fieldaccess.cpp
+++ b/lib/flatten/flatten_fieldaccess.cpp
@@ -28,7 +28,8 @@ EE flatten_fieldaccess(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, Var
   Ctx nctx = ctx;
   nctx.b = +nctx.b;
   nctx.neg = false;
-  EE ret = flat_exp(env, nctx, fa->v(), nullptr, b);
+  const bool isBool = fa->type().isbool() && !fa->type().isOpt();
+  EE ret = flat_exp(env, nctx, fa->v(), nullptr, isBool ? nctx.partialityVar(env) : b);
   auto* al = Expression::cast<ArrayLit>(eval_array_lit(env, ret.r()));
 
   // Resolve field
@@ -38,6 +39,16 @@ EE flatten_fieldaccess(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, Var
     throw EvalError(env, Expression::loc(fa), "Internal error: accessing invalid field");
   }
 
+  if (isBool) {
+    // Boolean context: the field is false if the struct it is taken from is undefined
+    std::vector<EE> ees;
+    ees.emplace_back(nullptr, ret.b());
+    ees.emplace_back(nullptr, (*al)[static_cast<unsigned int>(i.toInt()) - 1]);
+    ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+    ret.r = conj(env, r, ctx, ees);
+    return ret;
+  }
+
   // Bind result
   ret.r = bind(env, ctx, r, (*al)[static_cast<unsigned int>(i.toInt()) - 1]);
   return ret;
-- 
2.43.0


From c536022dc51731543412c8ae35aee1924a1fba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 27/88] fix: bind returns the bound Boolean value instead of
 true

---
 lib/flatten.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 92aecde..e3f28b8 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -3385,7 +3385,7 @@ KeepAlive bind(EnvI& env, Ctx ctx, VarDecl* vd, Expression* e) {
           while (id != nullptr) {
             if ((id->decl()->ti()->domain() != nullptr) &&
                 eval_bool(env, id->decl()->ti()->domain()) == Expression::cast<BoolLit>(e)->v()) {
-              return env.constants.literalTrue;
+              return e;
             }
             if ((id->decl()->ti()->domain() != nullptr) &&
                 eval_bool(env, id->decl()->ti()->domain()) != Expression::cast<BoolLit>(e)->v()) {
@@ -3407,7 +3407,7 @@ KeepAlive bind(EnvI& env, Ctx ctx, VarDecl* vd, Expression* e) {
             id =
                 id->decl()->e() != nullptr ? Expression::dynamicCast<Id>(id->decl()->e()) : nullptr;
           }
-          return env.constants.literalTrue;
+          return e;
         }
         case Expression::E_INTLIT: {
           Id* id = vd->id();
-- 
2.43.0


From a27fe864ed6b02bf066fd4deb8734acaf77dcf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:12 +0000
Subject: [PATCH 28/88] fix: output of a variable whose definition mentions
 itself overflowed the stack

---
 lib/output.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/output.cpp b/lib/output.cpp
index cf78a10..96f54f5 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -1814,6 +1814,7 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
   public:
     EnvI& env;
     std::unordered_set<FunctionI*> visited;
+    std::unordered_set<VarDecl*> visiting;
     CollectVarDecls(EnvI& env0) : env(env0) {}
 
     void vCall(Call* c) {
@@ -1830,10 +1831,15 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
       if (vd == nullptr || !vd->toplevel()) {
         return;
       }
+      // The (flat) definition of a variable may mention the variable itself
+      if (!visiting.emplace(vd).second) {
+        return;
+      }
       if (vd->e() != nullptr) {
         top_down(*this, vd->e());
       }
       top_down(*this, vd->ti());
+      visiting.erase(vd);
       auto idx = env.outputVarOccurrences.find(vd);
       if (idx == -1) {
         auto* orig = env.cmap.findOrig(vd);
-- 
2.43.0


From 7eced263031804b0b19024c261752c16aefd6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 29/88] fix: partiality of call arguments leaked through common
 subexpression elimination

---
 lib/flatten/flatten_binop.cpp | 10 +++++++--
 lib/flatten/flatten_call.cpp  | 38 ++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 5336f24..781b1a8 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1002,8 +1002,14 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
   cc->type(bo->type());
   auto cit = env.cseMapFind(cc);
   if (cit != env.cseMapEnd()) {
-    ret.b = bind(env, Ctx(), b, env.ignorePartial ? env.constants.literalTrue : cit->second.b);
     ret.r = bind(env, ctx, r, cit->second.r);
+    if (env.ignorePartial) {
+      ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
+    } else {
+      // The map only holds the partiality of the operation, not that of these arguments
+      ees.emplace_back(nullptr, cit->second.b);
+      ret.b = conj(env, b, Ctx(), ees);
+    }
   } else {
     if (FunctionI* fi = env.model->matchFn(env, cc->id(), args, false)) {
       assert(cc->type() == fi->rtype(env, args, nullptr, false));
@@ -1020,7 +1026,7 @@ EE flatten_nonbool_op(EnvI& env, const Ctx& ctx, const Ctx& ctx0, const Ctx& ctx
       ret.r = bind(env, ctx, r, cc);
       ret.b = conj(env, b, Ctx(), ees);
       if (!ctx.neg) {
-        env.cseMapInsert(cc, ret);
+        env.cseMapInsert(cc, EE(ret.r(), env.constants.literalTrue));
       }
     }
   }
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 9679a4d..eba2351 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1120,6 +1120,28 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
         ret.r = bind(env, ctx, r, cit->second.r);
       }
     } else {
+      // The partiality of the arguments belongs to this call, not to the (flattened) expression
+      // that is entered into the CSE map
+      const size_t num_args_ee = args_ee.size();
+      auto cse_insert = [&](bool boolResult) {
+        if (ctx.neg || Expression::type(cr()).isAnn()) {
+          return;
+        }
+        if (std::all_of(args_ee.begin(), args_ee.begin() + num_args_ee,
+                        [&](const EE& ee) { return istrue(env, ee.b()); })) {
+          env.cseMapInsert(cr(), ret);
+          return;
+        }
+        std::vector<EE> own(args_ee.begin() + num_args_ee, args_ee.end());
+        Ctx own_ctx;
+        own_ctx.b = boolResult ? ctx.b : C_MIX;
+        KeepAlive own_b = conj(env, nullptr, own_ctx, own);
+        if (boolResult) {
+          env.cseMapInsert(cr(), EE(own_b(), env.constants.literalTrue));
+        } else {
+          env.cseMapInsert(cr(), EE(ret.r(), own_b()));
+        }
+      };
       for (unsigned int i = 0; i < decl->paramCount(); i++) {
         if (decl->param(i)->type().dim() > 0) {
           check_index_sets(env, decl->param(i), args[i](), true);
@@ -1220,9 +1242,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           ret.b = bind(env, Ctx(), b, env.constants.literalTrue);
           args_ee.emplace_back(nullptr, reif_b->id());
           ret.r = conj(env, nullptr, ctx, args_ee);
-          if (!ctx.neg && !Expression::type(cr()).isAnn()) {
-            env.cseMapInsert(cr(), ret);
-          }
+          cse_insert(true);
           return ret;
         }
       }
@@ -1269,17 +1289,13 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           ret.b = conj(env, b, Ctx(), args_ee);
           add_path_annotation(env, res.r());
           ret.r = bind(env, Ctx(), r, res.r());
-          if (!ctx.neg && !cr_c->type().isAnn()) {
-            env.cseMapInsert(cr_c, ret);
-          }
+          cse_insert(false);
         } else {
           GCLock lock;
           ret.b = conj(env, b, Ctx(), args_ee);
           add_path_annotation(env, cr_c);
           ret.r = bind(env, ctx, r, cr_c);
-          if (!ctx.neg && !cr_c->type().isAnn()) {
-            env.cseMapInsert(cr_c, ret);
-          }
+          cse_insert(false);
         }
       } else {
         std::vector<KeepAlive> previousParameters(decl->paramCount());
@@ -1361,9 +1377,7 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           }
           ret.b = conj(env, b, Ctx(), args_ee);
         }
-        if (!ctx.neg && !Expression::type(cr()).isAnn()) {
-          env.cseMapInsert(cr(), ret);
-        }
+        cse_insert(Expression::type(decl->e()).isbool() && !Expression::type(decl->e()).isOpt());
 
         // Restore previous mapping
         for (unsigned int i = decl->paramCount(); (i--) != 0U;) {
-- 
2.43.0


From 339198b0fb41dccd6e76fd42405a7e220fb525a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 30/88] fix: output evaluation could call another overload of a
 user-defined function

---
 lib/output.cpp | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index 96f54f5..ddfafaa 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -34,6 +34,28 @@ bool is_completely_par(EnvI& env, FunctionI* fi, const std::vector<Type>& tv) {
   return fi->rtype(env, tv, nullptr, false).isPar();
 }
 
+/// Whether \a decl, found in the output model, is the (par version of the) overload \a origdecl
+/// that the original model selects. The output model only contains the overloads copied so far, so
+/// that matching in it may yield a less specific one.
+bool is_output_version(EnvI& env, FunctionI* decl, FunctionI* origdecl) {
+  if (origdecl == nullptr || decl == origdecl) {
+    return true;
+  }
+  if (decl->paramCount() != origdecl->paramCount()) {
+    return false;
+  }
+  for (unsigned int i = 0; i < decl->paramCount(); i++) {
+    Type t0 = decl->param(i)->type();
+    Type t1 = origdecl->param(i)->type();
+    t0.mkPar(env);
+    t1.mkPar(env);
+    if (t0 != t1) {
+      return false;
+    }
+  }
+  return true;
+}
+
 }  // namespace
 
 void check_output_par_fn(EnvI& env, Call* rhs) {
@@ -48,11 +70,11 @@ void check_output_par_fn(EnvI& env, Call* rhs) {
   if (decl == nullptr) {
     decl = env.output->matchFn(env, rhs->id(), tv, false);
   }
-  if (decl == nullptr) {
-    FunctionI* origdecl = env.model->matchFnByNames(env, rhs->id(), rhs->decl(), tv, false);
-    if (origdecl == nullptr) {
-      origdecl = env.model->matchFn(env, rhs->id(), tv, false);
-    }
+  FunctionI* origdecl = env.model->matchFnByNames(env, rhs->id(), rhs->decl(), tv, false);
+  if (origdecl == nullptr) {
+    origdecl = env.model->matchFn(env, rhs->id(), tv, false);
+  }
+  if (decl == nullptr || !is_output_version(env, decl, origdecl)) {
     if (origdecl == nullptr || !is_completely_par(env, origdecl, tv)) {
       std::ostringstream ss;
       ss << "function " << demonomorphise_identifier(rhs->id())
@@ -160,12 +182,15 @@ bool cannot_use_rhs_for_output(EnvI& env, Expression* e,
       if (decl == nullptr) {
         decl = env.output->matchFn(env, name, tv, false);
       }
+      FunctionI* origdecl = env.model->matchFnByNames(env, name, baseDecl, tv, false);
+      if (origdecl == nullptr) {
+        origdecl = env.model->matchFn(env, name, tv, false);
+      }
+      if (decl != nullptr && !is_output_version(env, decl, origdecl)) {
+        decl = nullptr;
+      }
       Type t;
       if (decl == nullptr) {
-        FunctionI* origdecl = env.model->matchFnByNames(env, name, baseDecl, tv, false);
-        if (origdecl == nullptr) {
-          origdecl = env.model->matchFn(env, name, tv, false);
-        }
         if (origdecl == nullptr) {
           std::ostringstream ss;
           ss << "function " << demonomorphise_identifier(name)
-- 
2.43.0


From 39a9ed808ff2152c5231e20eec88a2a259c86272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 31/88] fix: multi-pass compilation lost the output annotation
 of a shared FlatZinc variable

---
 lib/output.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index ddfafaa..dcc1d98 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -981,6 +981,7 @@ void output_vardecls(EnvI& env, Item* ci, Expression* e) {
 
 void process_deletions(EnvI& e) {
   std::vector<VarDecl*> deletedVarDecls;
+  std::vector<VarDecl*> deletedFlat;
   for (unsigned int i = 0; i < e.output->size(); i++) {
     if (auto* vdi = (*e.output)[i]->dynamicCast<VarDeclI>()) {
       if (!vdi->removed() && e.outputVarOccurrences.occurrences(vdi->e()) == 0 &&
@@ -989,7 +990,7 @@ void process_deletions(EnvI& e) {
                                             vdi->e()->id()->v() == "_mzn_stats_checker"))) {
         CollectDecls cd(e, e.outputVarOccurrences, deletedVarDecls, vdi);
         top_down(cd, vdi->e()->e());
-        remove_is_output(vdi->e()->flat());
+        deletedFlat.push_back(vdi->e()->flat());
         if (e.outputVarOccurrences.find(vdi->e()) != -1) {
           e.outputVarOccurrences.remove(vdi->e());
         }
@@ -1007,7 +1008,7 @@ void process_deletions(EnvI& e) {
         if (!vdi->removed()) {
           CollectDecls cd(e, e.outputVarOccurrences, deletedVarDecls, vdi);
           top_down(cd, cur->e());
-          remove_is_output(vdi->e()->flat());
+          deletedFlat.push_back(vdi->e()->flat());
           if (e.outputVarOccurrences.find(vdi->e()) != -1) {
             e.outputVarOccurrences.remove(vdi->e());
           }
@@ -1017,6 +1018,22 @@ void process_deletions(EnvI& e) {
     }
   }
 
+  if (!deletedFlat.empty()) {
+    // The same flat variable may provide the value of several variables of the output model
+    std::unordered_set<VarDecl*> needed;
+    for (auto* item : *e.output) {
+      auto* vdi = item->dynamicCast<VarDeclI>();
+      if (vdi != nullptr && !vdi->removed() && vdi->e()->e() == nullptr) {
+        needed.insert(vdi->e()->flat());
+      }
+    }
+    for (auto* vd : deletedFlat) {
+      if (needed.find(vd) == needed.end()) {
+        remove_is_output(vd);
+      }
+    }
+  }
+
   for (auto& it : e.outputVarOccurrences.itemMap) {
     VarOccurrences::Items keptItems;
     for (auto* iit : it) {
-- 
2.43.0


From 53083671bb8ecb332334bc91cb7c8934b76248ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 32/88] fix: instantiate library operators such as
 multi-dimensional ++ as calls

---
 lib/flatten/flatten_binop.cpp | 3 ---
 lib/typecheck.cpp             | 8 ++++++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 781b1a8..e0fcdb1 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -2305,9 +2305,6 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
       ctx0.i = ctx1.i = C_MIX;
       return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
     case BOT_PLUSPLUS: {
-      if (Expression::type(boe0).dim() > 1 || Expression::type(boe1).dim() > 1) {
-        return flatten_bool_op(env, ctx, ctx0, ctx1, e, r, b, isBuiltin, bo, bot, doubleNeg);
-      }
       std::vector<EE> ee(2);
       EE eev = flat_exp(env, ctx, boe0, nullptr, ctx.partialityVar(env));
       ee[0] = eev;
diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 7f2d0cd..567204e 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -2857,6 +2857,14 @@ public:
 
       if (fi->e() != nullptr) {
         bop->decl(fi);
+        if (bop->op() == BOT_PLUSPLUS) {
+          // Multi-dimensional concatenation is a polymorphic library function: turn the operator
+          // into a call so that the function is instantiated for the types of the arguments
+          GCLock lock;
+          Call* call = bop->morph(bop->opToString(), args);
+          call->decl(fi);
+          return;
+        }
       } else {
         bop->decl(nullptr);
       }
-- 
2.43.0


From e70309fba657280f8106de7658d72d36e4ad45ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 33/88] fix: do not evaluate decision variables through their
 definitions

---
 include/minizinc/ast.hh |  7 +++++++
 lib/copy.cpp            |  3 ++-
 lib/eval_par.cpp        | 25 ++++++++++++++++++++++---
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/minizinc/ast.hh b/include/minizinc/ast.hh
index 67836b7..2d47570 100644
--- a/include/minizinc/ast.hh
+++ b/include/minizinc/ast.hh
@@ -1488,6 +1488,13 @@ public:
 
   /// Recompute hash value
   void rehash();
+  /// Whether this is a toplevel scalar decision variable that is defined by a call. Such a variable
+  /// has no value yet, and once it has been flattened the call that defines it is a constraint
+  /// rather than an expression, so that the variable must not be replaced by its definition
+  bool isDefinedByCall() const {
+    return toplevel() && _e != nullptr && Expression::isa<Call>(_e) && !type().isPar() &&
+           type().dim() == 0 && !type().structBT();
+  }
   /// Whether variable is toplevel
   bool toplevel() const;
   /// Whether variable is toplevel
diff --git a/lib/copy.cpp b/lib/copy.cpp
index d878494..34d7a1a 100644
--- a/lib/copy.cpp
+++ b/lib/copy.cpp
@@ -154,7 +154,8 @@ Expression* copy(EnvI& env, CopyMap& m, Expression* e, bool followIds, bool copy
                 cur = prevId->decl();
                 break;
               case Expression::E_VARDECL:
-                if (Expression::cast<VarDecl>(cur)->e() != nullptr) {
+                if (Expression::cast<VarDecl>(cur)->e() != nullptr &&
+                    !Expression::cast<VarDecl>(cur)->isDefinedByCall()) {
                   cur = Expression::cast<VarDecl>(cur)->e();
                 } else {
                   cur = prevId;
diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 054ce00..ad15693 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -2434,6 +2434,9 @@ Expression* eval_par(EnvI& env, Expression* e) {
       if (id->decl()->e() == nullptr) {
         return id;
       }
+      if (id->decl()->isDefinedByCall()) {
+        return id;
+      }
       return eval_par(env, id->decl()->e());
     }
     case Expression::E_STRINGLIT:
@@ -2511,9 +2514,20 @@ Expression* eval_par(EnvI& env, Expression* e) {
                   Expression::equal(c->arg(0), env.constants.absent)) {
                 throw ResultUndefinedError(env, Expression::loc(e), "deopt(<>) is undefined");
               }
-            } else {
+            } else if (c->type().isPar() || c->type().dim() != 0 || c->type().structBT()) {
               CallStackItem csi(env, c);
               return eval_call<EvalPar>(env, c);
+            } else {
+              // A scalar decision variable expression has no value yet (its definition may
+              // introduce variables and constraints): only evaluate the arguments
+              std::vector<Expression*> args(c->argCount());
+              for (unsigned int i = 0; i < args.size(); i++) {
+                args[i] = eval_par(env, c->arg(i));
+              }
+              Call* nc = Call::a(Expression::loc(c), c->id(), args);
+              nc->decl(c->decl());
+              nc->type(c->type());
+              return nc;
             }
           }
           std::vector<Expression*> args(c->argCount());
@@ -2530,12 +2544,14 @@ Expression* eval_par(EnvI& env, Expression* e) {
         }
         case Expression::E_BINOP: {
           auto* bo = Expression::cast<BinOp>(e);
-          if ((bo->decl() != nullptr) && (bo->decl()->e() != nullptr)) {
+          if ((bo->decl() != nullptr) && (bo->decl()->e() != nullptr) &&
+              (bo->type().isPar() || bo->type().dim() != 0 || bo->type().structBT())) {
             CallStackItem csi(env, bo);
             return eval_call<EvalPar, BinOp>(env, bo);
           }
           auto* nbo = new BinOp(Expression::loc(e), eval_par(env, bo->lhs()), bo->op(),
                                 eval_par(env, bo->rhs()));
+          nbo->decl(bo->decl());
           nbo->type(bo->type());
           if (nbo->op() == BOT_PLUSPLUS && nbo->type().structBT()) {
             assert(Expression::type(nbo->lhs()).structBT() &&
@@ -2576,7 +2592,10 @@ Expression* eval_par(EnvI& env, Expression* e) {
         } break;
         case Expression::E_LET: {
           Let* l = Expression::cast<Let>(e);
-          assert(l->type().isPar());
+          if (!l->type().isPar()) {
+            // May introduce variables and constraints, cannot be evaluated
+            return l;
+          }
           LetPushBindings lpb(l);
           for (unsigned int i = 0; i < l->let().size(); i++) {
             // Evaluate all variable declarations
-- 
2.43.0


From 0fb00effaa5a57866cba80fb8c97d9aa0067ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 34/88] fix: negate the elements of array arguments of forall
 and exists

---
 lib/flatten/flatten_call.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index eba2351..1c1615d 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -787,7 +787,27 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
             tmp = vd->id();
           }
           CallArgItem cai(env);
-          args_ee[i] = flat_exp(env, argctx, tmp, nullptr, argctx.partialityVar(env));
+          if (argctx.neg && Expression::type(tmp).dim() > 0 && !Expression::isa<Id>(tmp) &&
+              !Expression::isa<Comprehension>(tmp) && !Expression::isa<BinOp>(tmp)) {
+            // The negation cannot be pushed into this expression, so flatten the array first and
+            // then negate its elements
+            Ctx arrayctx = argctx;
+            arrayctx.neg = false;
+            args_ee[i] = flat_exp(env, arrayctx, tmp, nullptr, arrayctx.partialityVar(env));
+            ArrayLit* al = eval_array_lit(env, args_ee[i].r());
+            KeepAlive ka = al;
+            std::vector<KeepAlive> elems(al->size());
+            for (unsigned int j = 0; j < al->size(); j++) {
+              elems[j] = flat_exp(env, argctx, (*al)[j], nullptr, env.constants.varTrue).r();
+            }
+            GCLock lock;
+            auto* negated = new ArrayLit(Expression::loc(al), to_exp_vec(elems));
+            negated->type(al->type());
+            negated->flat(true);
+            args_ee[i].r = negated;
+          } else {
+            args_ee[i] = flat_exp(env, argctx, tmp, nullptr, argctx.partialityVar(env));
+          }
           isPartial |= isfalse(env, args_ee[i].b());
         }
       }
-- 
2.43.0


From c918084123552ceefc8c64146b41f4d60124d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 35/88] fix: dag decomposition accepted selected edges whose
 source node is not selected

---
 share/minizinc/std/fzn_dag.mzn | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_dag.mzn b/share/minizinc/std/fzn_dag.mzn
index 00b37b4..879538e 100644
--- a/share/minizinc/std/fzn_dag.mzn
+++ b/share/minizinc/std/fzn_dag.mzn
@@ -1,3 +1,5 @@
+include "subgraph.mzn";
+
 predicate fzn_dag(
   array [int] of int: from,
   array [int] of int: to,
@@ -7,7 +9,8 @@ predicate fzn_dag(
   let {
     set of int: EDGE = index_set(es);
     array [index_set(ns)] of var 0..length(ns) - 1: dist; /* distance of longest path */
-  } in forall (n in index_set(ns)) (not ns[n] -> dist[n] = 0) /\
+  } in subgraph(from, to, ns, es) /\
+    forall (n in index_set(ns)) (not ns[n] -> dist[n] = 0) /\
     forall (e in EDGE) (es[e] -> dist[from[e]] + 1 <= dist[to[e]]) /\
     % redundant constraint to ensure all distances are fixed
     forall (n in index_set(ns)) (
-- 
2.43.0


From 8441549c09a5a73f0fb64329d45b1266b637cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 36/88] fix: sum_pred decomposition failed for arrays of sets
 not indexed from 1

---
 share/minizinc/std/fzn_sum_pred.mzn      | 3 ++-
 share/minizinc/std/fzn_sum_pred_reif.mzn | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_sum_pred.mzn b/share/minizinc/std/fzn_sum_pred.mzn
index e642d59..833b36c 100644
--- a/share/minizinc/std/fzn_sum_pred.mzn
+++ b/share/minizinc/std/fzn_sum_pred.mzn
@@ -5,5 +5,6 @@ predicate fzn_sum_pred(
   var int: total,
 ) =
   let {
-    array [index_set(sets)] of int: sums = [sum (k in sets[j]) (coefficients[k]) | j in index_set(sets)];
+    array [index_set(sets)] of int: sums =
+      array1d(index_set(sets), [sum (k in sets[j]) (coefficients[k]) | j in index_set(sets)]);
   } in sums[idx] = total;
diff --git a/share/minizinc/std/fzn_sum_pred_reif.mzn b/share/minizinc/std/fzn_sum_pred_reif.mzn
index de903d5..e104b70 100644
--- a/share/minizinc/std/fzn_sum_pred_reif.mzn
+++ b/share/minizinc/std/fzn_sum_pred_reif.mzn
@@ -6,5 +6,6 @@ predicate fzn_sum_pred_reif(
   var bool: b,
 ) =
   let {
-    array [index_set(sets)] of int: sums = [sum (k in sets[j]) (coefficients[k]) | j in index_set(sets)];
+    array [index_set(sets)] of int: sums =
+      array1d(index_set(sets), [sum (k in sets[j]) (coefficients[k]) | j in index_set(sets)]);
   } in b <-> sums[idx] = total;
-- 
2.43.0


From 017192d279b33716f1f8a4250a5cff1d69dd208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 37/88] fix: lex_chain orbitope kind was ignored for one-column
 matrices

---
 share/minizinc/std/lex_chain_greatereq_orbitope.mzn | 2 +-
 share/minizinc/std/lex_chain_lesseq_orbitope.mzn    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/lex_chain_greatereq_orbitope.mzn b/share/minizinc/std/lex_chain_greatereq_orbitope.mzn
index 5645358..faae92a 100644
--- a/share/minizinc/std/lex_chain_greatereq_orbitope.mzn
+++ b/share/minizinc/std/lex_chain_greatereq_orbitope.mzn
@@ -8,7 +8,7 @@ include "lex_chain_lesseq_orbitope.mzn";
   2: set-packing orbitope
 */
 predicate lex_chain_greatereq_orbitope(array [$$E, $$F] of var int: xs, int: _kind) =
-  if card(index_set_2of2(xs)) > 1 then
+  if card(index_set_2of2(xs)) > 1 \/ _kind > 0 then
     let {
       any: aa = index2int(xs);
     } in lex_chain_lesseq_orbitope(
diff --git a/share/minizinc/std/lex_chain_lesseq_orbitope.mzn b/share/minizinc/std/lex_chain_lesseq_orbitope.mzn
index b82a0d4..fc68050 100644
--- a/share/minizinc/std/lex_chain_lesseq_orbitope.mzn
+++ b/share/minizinc/std/lex_chain_lesseq_orbitope.mzn
@@ -12,4 +12,4 @@ predicate fzn_lex_chain_lesseq_orbitope(array [int, int] of var int: xs, int: _k
 */
 predicate lex_chain_lesseq_orbitope(array [$$E, $$F] of var int: xs, int: _kind) =
   assert(dom_array(xs) subset 0..1, "lex_chain_lesseq_orbitope: matrix \(xs) is non-binary") /\
-    if card(index_set_2of2(xs)) > 1 then fzn_lex_chain_lesseq_orbitope(index2int(xs), _kind) endif;
+    if card(index_set_2of2(xs)) > 1 \/ _kind > 0 then fzn_lex_chain_lesseq_orbitope(index2int(xs), _kind) endif;
-- 
2.43.0


From 21eae8e7bdbf92ed5b9ffcd03f0480f31c5d1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 38/88] fix: seq_precede_chain rejected arrays of negative
 values

---
 share/minizinc/std/fzn_seq_precede_chain_int.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_seq_precede_chain_int.mzn b/share/minizinc/std/fzn_seq_precede_chain_int.mzn
index 2884b97..9d61f0a 100644
--- a/share/minizinc/std/fzn_seq_precede_chain_int.mzn
+++ b/share/minizinc/std/fzn_seq_precede_chain_int.mzn
@@ -6,7 +6,7 @@ predicate fzn_seq_precede_chain_int(array [int] of var int: xs) =
       int: l = lb_array(xs); % least possible value
       int: u = ub_array(xs); % greatest possible value
       int: f = min(index_set(xs));
-      array [index_set(xs)] of var l..u: H;
+      array [index_set(xs)] of var min(l, 0)..max(u, 0): H;
     } in H[f] <= 1 /\
       H[f] = max(xs[f], 0) /\
       forall (i in index_set(xs) diff {f}) (H[i] <= H[i - 1] + 1 /\ H[i] = max(xs[i], H[i - 1]))
-- 
2.43.0


From ebf8664d7dfb7f9f12ebc1f61cbe11c3db3af6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 39/88] fix: arg_max and arg_min of arrays without any
 occurring element

---
 share/minizinc/std/arg_max.mzn | 6 +++---
 share/minizinc/std/arg_min.mzn | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/share/minizinc/std/arg_max.mzn b/share/minizinc/std/arg_max.mzn
index 51487a0..bdad199 100644
--- a/share/minizinc/std/arg_max.mzn
+++ b/share/minizinc/std/arg_max.mzn
@@ -45,7 +45,7 @@ function var $$E: arg_max(array [$$E] of var float: xs) =
 */
 function var $$E: arg_max(array [$$E] of var opt $$T: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_max_total(index2int(enum2int(xs))));
 
 /** @group globals.math
@@ -79,7 +79,7 @@ function var opt int: arg_max_weak_int(array [int] of var opt int: xs) :: promis
 */
 function var $$E: arg_max(array [$$E] of var opt bool: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_max_total(index2int(xs)));
 
 /** @group globals.math
@@ -113,7 +113,7 @@ function var opt int: arg_max_weak_bool(array [int] of var opt bool: xs) :: prom
 */
 function var $$E: arg_max(array [$$E] of var opt float: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_max_total(index2int(xs)));
 
 /** @group globals.math
diff --git a/share/minizinc/std/arg_min.mzn b/share/minizinc/std/arg_min.mzn
index af97ec6..3c95043 100644
--- a/share/minizinc/std/arg_min.mzn
+++ b/share/minizinc/std/arg_min.mzn
@@ -45,7 +45,7 @@ function var $$E: arg_min(array [$$E] of var float: xs) =
 */
 function var $$E: arg_min(array [$$E] of var opt $$T: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_min_total(index2int(enum2int(xs))));
 
 /** @group globals.math
@@ -79,7 +79,7 @@ function var opt int: arg_min_weak_int(array [int] of var opt int: xs) :: promis
 */
 function var $$E: arg_min(array [$$E] of var opt bool: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_min_total(index2int(xs)));
 
 /** @group globals.math
@@ -113,7 +113,7 @@ function var opt int: arg_min_weak_bool(array [int] of var opt bool: xs) :: prom
 */
 function var $$E: arg_min(array [$$E] of var opt float: xs) =
   let {
-    constraint length(xs) > 0;
+    constraint exists (x in xs) (occurs(x));
   } in to_enum_internal(enum_of(index_set(xs)), arg_min_total(index2int(xs)));
 
 /** @group globals.math
-- 
2.43.0


From 65871aa09936223d0c0b6f7fece3962f82a801d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 40/88] fix: reified sum_set tested positions instead of values
 for membership

---
 share/minizinc/std/fzn_sum_set_reif.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_sum_set_reif.mzn b/share/minizinc/std/fzn_sum_set_reif.mzn
index 2190346..f9d8338 100644
--- a/share/minizinc/std/fzn_sum_set_reif.mzn
+++ b/share/minizinc/std/fzn_sum_set_reif.mzn
@@ -4,4 +4,4 @@ predicate fzn_sum_set_reif(
   var set of int: selected,
   var int: total,
   var bool: b,
-) = b <-> total == sum (j in index_set(values)) ((j in selected) * weights[j]);
+) = b <-> total == sum (j in index_set(values)) ((values[j] in selected) * weights[j]);
-- 
2.43.0


From 7d493417f7590b310379821fae5a3d0714c973d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 41/88] fix: reified sort failed for arrays with different
 index sets

---
 share/minizinc/std/fzn_sort_reif.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_sort_reif.mzn b/share/minizinc/std/fzn_sort_reif.mzn
index d0b75f1..a10d829 100644
--- a/share/minizinc/std/fzn_sort_reif.mzn
+++ b/share/minizinc/std/fzn_sort_reif.mzn
@@ -1,4 +1,4 @@
 include "sort_fn.mzn";
 
 predicate fzn_sort_reif(array [int] of var int: xs, array [int] of var int: ys, var bool: b) =
-  let { array [int] of var int: s = sort(xs) } in b <-> s = ys;
+  let { array [int] of var int: s = sort(xs) } in b <-> array1d(s) = array1d(ys);
-- 
2.43.0


From 1171adbf36c64cde8b90f104adbc6b8c6588d50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 42/88] fix: reified span was false when no task occurs

---
 share/minizinc/std/fzn_span_reif.mzn | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_span_reif.mzn b/share/minizinc/std/fzn_span_reif.mzn
index 5814111..89fe1b2 100644
--- a/share/minizinc/std/fzn_span_reif.mzn
+++ b/share/minizinc/std/fzn_span_reif.mzn
@@ -8,7 +8,7 @@ predicate fzn_span_reif(
   b <->
     (
       (occurs(span_start) <-> exists (i in index_set(start)) (occurs(start[i]))) /\
-        span_start = min(start) /\
+        span_start = min_weak(start) /\
         (absent(span_start) -> span_duration = 0) /\
-        span_start ~+ span_duration = max([start[i] ~+ duration[i] | i in index_set(start)])
+        span_start ~+ span_duration = max_weak([start[i] ~+ duration[i] | i in index_set(start)])
     );
-- 
2.43.0


From 2be552aa186e72d1ba310521c1f00dabad47da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 43/88] fix: reified sliding_sum mixed its auxiliary
 definitions into the reified condition

---
 share/minizinc/std/fzn_sliding_sum_reif.mzn | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/share/minizinc/std/fzn_sliding_sum_reif.mzn b/share/minizinc/std/fzn_sliding_sum_reif.mzn
index 4fb4e9e..7e55c8b 100644
--- a/share/minizinc/std/fzn_sliding_sum_reif.mzn
+++ b/share/minizinc/std/fzn_sliding_sum_reif.mzn
@@ -11,5 +11,6 @@ predicate fzn_sliding_sum_reif(
     int: lx = min(index_set(xs));
     int: ux = max(index_set(xs));
     array [lx - 1..ux] of var int: S;
-  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\ b <->
-    forall (i in lx - 1..ux - window_size) (S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up);
+  } in S[lx - 1] = 0 /\ forall (i in lx..ux) (S[i] = xs[i] + S[i - 1]) /\
+    (b <->
+    forall (i in lx - 1..ux - window_size) (S[i] <= S[i + window_size] - low /\ S[i + window_size] <= S[i] + up));
-- 
2.43.0


From 53c834dfd63f57244bcdf1b0b28a0404ef363e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:50 +0000
Subject: [PATCH 44/88] fix: reified table was wrong for arrays not indexed
 from 1

---
 share/minizinc/std/fzn_table_int_reif.mzn | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/share/minizinc/std/fzn_table_int_reif.mzn b/share/minizinc/std/fzn_table_int_reif.mzn
index 90394c7..b26644c 100644
--- a/share/minizinc/std/fzn_table_int_reif.mzn
+++ b/share/minizinc/std/fzn_table_int_reif.mzn
@@ -34,12 +34,15 @@
 %
 
 predicate fzn_table_int_reif(
-  array [int] of var int: xs,
-  array [int, int] of int: tuples,
+  array [int] of var int: x,
+  array [int, int] of int: t,
   var bool: b,
 ) =
   let {
-    int: n_vars = length(xs);
+    int: n_vars = length(x);
+    array [int] of var int: xs = array1d(x);
+    array [int, int] of int: tuples =
+      array2d(1..card(index_set_1of2(t)), 1..card(index_set_2of2(t)), array1d(t));
   } in assert(
     n_vars in 1..5,
     "'table' constraints in a reified context " ++ "are only supported for 1..5 variables.",
-- 
2.43.0


From c530d6b63254762af3de64fd65f4710ed8090755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:03 +0000
Subject: [PATCH 45/88] fix: if-then-else over nested tuples or records used
 the wrong branch for inner fields (crash)

---
 lib/flatten/flatten_ite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/flatten/flatten_ite.cpp b/lib/flatten/flatten_ite.cpp
index e655f56..3207e15 100644
--- a/lib/flatten/flatten_ite.cpp
+++ b/lib/flatten/flatten_ite.cpp
@@ -104,7 +104,7 @@ Expression* ite_struct_split(EnvI& env, Type ty, const std::vector<Expression*>&
       std::vector<Expression*> f_then_in(then_decl.size());
       for (int j = 0; j < then_decl.size(); ++j) {
         f_then_in[j] =
-            new FieldAccess(Location().introduce(), then_decl[i]->id(), IntLit::a(i + 1));
+            new FieldAccess(Location().introduce(), then_decl[j]->id(), IntLit::a(i + 1));
         Expression::type(f_then_in[j], field);
       }
       Expression* f_else_in =
-- 
2.43.0


From 8c2af1227d928622d9de4f082dd3b277bc36aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 46/88] fix: projection of a field over an array reused a fixed
 identifier number

---
 lib/typecheck.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 567204e..2cdaa57 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -1490,7 +1490,10 @@ KeepAlive add_coercion(EnvI& env, Model* m, Expression* e0, const Location& loc_
     Type tyElem = Expression::type(array_exp).elemType(env);
 
     auto* vd_it = new VarDecl(Location().introduce(),
-                              new TypeInst(Expression::loc(e).introduce(), tyElem), 3);
+                              new TypeInst(Expression::loc(e).introduce(), tyElem), env.genId());
+    if (tyElem.structBT()) {
+      vd_it->ti()->setStructDomain(env, tyElem);
+    }
     vd_it->toplevel(false);
     Generator gen({vd_it}, vd_xx->id(), nullptr);
     Generators gens;
@@ -1775,8 +1778,9 @@ KeepAlive add_coercion(EnvI& env, Model* m, Expression* e0, const Location& loc_
         index_set->decl(m->matchFn(env, index_set, false, true));
         index_set->type(Type::parsetint());
 
-        auto* vd_it = new VarDecl(Location().introduce(),
-                                  new TypeInst(Expression::loc(e).introduce(), tyElem), 3);
+        auto* vd_it =
+            new VarDecl(Location().introduce(),
+                        new TypeInst(Expression::loc(e).introduce(), tyElem), env.genId());
         vd_it->toplevel(false);
         Generator gen({vd_it}, index_set, nullptr);
         Generators gens;
-- 
2.43.0


From 6d37374e144794d7b199d40beba3ae135bc48c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 47/88] fix: names printed for an enum constructor over a set
 of enum values

---
 lib/typecheck.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 2cdaa57..5b6b280 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -4553,19 +4553,23 @@ static void check_parameter_defaults(Env& env, const std::vector<FunctionI*>& fu
 
 /// Generate a generic `_toString_` function for every enum-to-string identifier in
 /// \a needToString that has not already been given one (assumed to be a set of int rather
-/// than an enum). New functions are added to \a m and appended to \a functionItems.
-static void generate_missing_to_string_functions(
+/// than an enum). New functions are added to \a m and appended to \a functionItems, and returned
+/// together with the identifier.
+static std::vector<std::pair<Id*, FunctionI*>> generate_missing_to_string_functions(
     Env& env, Model* m, IdMap<bool>& needToString,
     ASTStringMap<std::vector<FunctionI*>>& overload_map, std::vector<FunctionI*>& functionItems) {
+  std::vector<std::pair<Id*, FunctionI*>> generated;
   for (auto& nts : needToString) {
     ASTString nts_id(create_enum_to_string_name(nts.first, "_toString_"));
     if (!env.model()->fnExists(env.envi(), nts_id) &&
         overload_map.find(nts_id) == overload_map.end()) {
       GCLock lock;
       // Assumption: any _toString_ function that hasn't been generated by now
-      // is for a set of int, rather than an enum. So generate a generic _toString_
-      // function here:
-      // function string: _to_String_<nts_id>(opt int: x, bool: b, bool: json) = show(i);
+      // is for a set of int, or for a subset of an enum given by an expression. So generate a
+      // generic _toString_ function here:
+      // function string: _to_String_<nts_id>(opt int: x, bool: b, bool: json) =
+      //   if json then showJSON(x) elseif b then showDzn(x) else show(x) endif;
+      // (reduced to show(x) if it turns out to be a set of int)
       Type tx = Type::parint();
       tx.ot(Type::OT_OPTIONAL);
       auto* ti_aa = new TypeInst(Location().introduce(), tx, new TIId(Location(), "$E"));
@@ -4586,14 +4590,21 @@ static void generate_missing_to_string_functions(
       fi_params[1] = vd_ab;
       fi_params[2] = vd_aj;
 
-      Call* body = Call::a(Location().introduce(), Constants::constants().ids.show, {vd_aa->id()});
+      const auto& ids = Constants::constants().ids;
+      Call* showJSON = Call::a(Location().introduce(), ids.showJSON, {vd_aa->id()});
+      Call* showDzn = Call::a(Location().introduce(), ids.showDzn, {vd_aa->id()});
+      Call* show = Call::a(Location().introduce(), ids.show, {vd_aa->id()});
+      auto* body =
+          new ITE(Location().introduce(), {vd_aj->id(), showJSON, vd_ab->id(), showDzn}, show);
       auto* fi = new FunctionI(Location().introduce(), nts_id, ti_fi, fi_params, body);
       m->addItem(fi);
       functionItems.push_back(fi);
+      generated.emplace_back(nts.first, fi);
       m->registerFn(env.envi(), fi);
       m->sortFn(env.envi(), fi);
     }
   }
+  return generated;
 }
 
 /// Type-check the variables required by a solution-checker model: resolve each against the
@@ -4933,7 +4944,8 @@ void typecheck(Env& env, Model* origModel, std::vector<TypeError>& typeErrors,
     }
   }
 
-  generate_missing_to_string_functions(env, m, needToString, overload_map, functionItems);
+  auto missingToString =
+      generate_missing_to_string_functions(env, m, needToString, overload_map, functionItems);
 
   delete enumItems;
   delete enumItems2;
@@ -5454,6 +5466,12 @@ void typecheck(Env& env, Model* origModel, std::vector<TypeError>& typeErrors,
         }
       }
     } _tsv2(env.envi(), m, bottomUpTyper, typeErrors);
+    for (auto& ts_fi : missingToString) {
+      if (ts_fi.first->decl() != nullptr && ts_fi.first->decl()->type().typeId() == 0) {
+        // Not an enum, so the format does not depend on the kind of output
+        ts_fi.second->e(Expression::cast<ITE>(ts_fi.second->e())->elseExpr());
+      }
+    }
     iter_items(_tsv2, m);
   }
 
-- 
2.43.0


From 421c535c9ac4c2d9c98a07752c2ef77518483014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 48/88] fix: lexicographic comparison of tuples and records in
 reified contexts

---
 lib/flatten/flatten_binop.cpp | 42 +++++++++--------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index e0fcdb1..7b6308b 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1425,41 +1425,19 @@ KeepAlive rewrite_struct_op(EnvI& env, const Location& loc, Expression* lhs, Bin
         c->decl(env.model->matchFn(env, c, false));
         rewrite = c;
       } else {
-        // Create temp bool variables for lex decomposition
-        auto* bool_ti = new TypeInst(Location().introduce(), Type::varbool(1));
-        auto* range = new SetLit(Location().introduce(), IntSetVal::a(1, tupLHS->size()));
-        bool_ti->setRanges({new TypeInst(Location().introduce(), Type::parint(), range)});
-        auto* b_decl = new VarDecl(Location().introduce(), bool_ti, env.genId());
-        b_decl->type(Type::varbool(1));
-        std::vector<Expression*> b(tupLHS->size());
-        for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-          b[i] = new ArrayAccess(Location().introduce(), b_decl->id(), {IntLit::a(i + 1)});
-          Expression::type(b[i], Type::varbool());
-        }
-        // Create the implications
-        std::vector<Expression*> impls(tupLHS->size());
-        for (unsigned int i = 0; i < tupLHS->size(); ++i) {
-          auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i], i);
-          auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i], i);
-          if (i < tupLHS->size() - 1) {
-            auto* _or = new_binop(le, BOT_OR, b[i + 1], i);
-            auto* _and = new_binop(lq, BOT_AND, _or, i);
-            impls[i] = new_binop(b[i], BOT_IMPL, _and, i);
-          } else if (bot == BOT_LQ) {
-            impls[i] = new_binop(b[i], BOT_IMPL, lq, i);
+        // Lexicographic decomposition that can be used in any context:
+        // (a_i <= b_i) /\ (a_i < b_i \/ rest), with the given operator on the last field
+        Expression* lex = nullptr;
+        for (unsigned int i = tupLHS->size(); i-- > 0;) {
+          if (lex == nullptr) {
+            lex = new_binop((*tupLHS)[i], bot, (*tupRHS)[i], i);
           } else {
-            impls[i] = new_binop(b[i], BOT_IMPL, le, i);
+            auto* lq = new_binop((*tupLHS)[i], BOT_LQ, (*tupRHS)[i], i);
+            auto* le = new_binop((*tupLHS)[i], BOT_LE, (*tupRHS)[i], i);
+            lex = new_binop(lq, BOT_AND, new_binop(le, BOT_OR, lex, i), i);
           }
         }
-        auto* al = new ArrayLit(Location().introduce(), impls);
-        al->type(Type::varbool(1));
-        auto* forall = Call::a(Location().introduce(), env.constants.ids.forall, {al});
-        forall->type(Type::varbool());
-        forall->decl(env.model->matchFn(env, forall, false, true));
-        // Wrap in let
-        auto* let = new Let(Location().introduce(), {b_decl}, new_binop(b[0], BOT_AND, forall, 0));
-        let->type(Type::varbool());
-        rewrite = let;
+        rewrite = lex;
       }
     } break;
     case BOT_IN: {
-- 
2.43.0


From 99a2cd3537186f8dc6539005473b5a3a2560d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 49/88] fix: comparison of fixed tuples and records with nested
 arrays or structs

---
 lib/eval_par.cpp | 55 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index ad15693..1d59cee 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -23,8 +23,10 @@
 #include <minizinc/typecheck.hh>
 #include <minizinc/values.hh>
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
+#include <functional>
 
 namespace MiniZinc {
 
@@ -1600,31 +1602,56 @@ bool eval_bool(EnvI& env, Expression* e) {
         } else if (Expression::type(lhs).structBT()) {
           assert(Expression::type(rhs).bt() == Expression::type(lhs).bt());
           try {
-            auto struct_equal = [&](ArrayLit* structA, ArrayLit* structB) {
+            // Components can be (arrays of) structs or arrays whose elements still need evaluating
+            std::function<bool(Expression*, Expression*)> struct_equal = [&](Expression* exprA,
+                                                                             Expression* exprB) {
+              KeepAlive parA(eval_par(env, exprA));
+              KeepAlive parB(eval_par(env, exprB));
+              auto* structA = Expression::dynamicCast<ArrayLit>(parA());
+              auto* structB = Expression::dynamicCast<ArrayLit>(parB());
+              if (structA == nullptr || structB == nullptr) {
+                return Expression::equal(parA(), parB());
+              }
+              if (structA->isTuple() != structB->isTuple() || structA->dims() != structB->dims()) {
+                return false;
+              }
+              for (unsigned int i = 0; i < structA->dims(); ++i) {
+                if (structA->min(i) != structB->min(i) || structA->max(i) != structB->max(i)) {
+                  return false;
+                }
+              }
               for (unsigned int i = 0; i < structA->size(); ++i) {
-                if (!Expression::equal(eval_par(env, (*structA)[i]),
-                                       eval_par(env, (*structB)[i]))) {
+                if (!struct_equal((*structA)[i], (*structB)[i])) {
                   return false;
                 }
               }
               return true;
             };
-            auto struct_less = [&](ArrayLit* structA, ArrayLit* structB, bool allow_equal) {
-              for (unsigned int i = 0; i < structA->size(); ++i) {
-                Expression* parA = eval_par(env, (*structA)[i]);
-                Expression* parB = eval_par(env, (*structB)[i]);
-                if (!Expression::equal(parA, parB)) {
+            std::function<bool(Expression*, Expression*, bool)> struct_less =
+                [&](Expression* exprA, Expression* exprB, bool allow_equal) {
+                  KeepAlive parA(eval_par(env, exprA));
+                  KeepAlive parB(eval_par(env, exprB));
+                  if (struct_equal(parA(), parB())) {
+                    return allow_equal;
+                  }
+                  auto* structA = Expression::dynamicCast<ArrayLit>(parA());
+                  auto* structB = Expression::dynamicCast<ArrayLit>(parB());
+                  if (structA != nullptr && structB != nullptr) {
+                    for (unsigned int i = 0; i < std::min(structA->size(), structB->size()); ++i) {
+                      if (!struct_equal((*structA)[i], (*structB)[i])) {
+                        return struct_less((*structA)[i], (*structB)[i], false);
+                      }
+                    }
+                    return structA->size() < structB->size();
+                  }
                   KeepAlive binop;
                   {
                     GCLock lock;
-                    binop = new BinOp(Location().introduce(), parA, BOT_LE, parB);
+                    binop = new BinOp(Location().introduce(), parA(), BOT_LE, parB());
                     Expression::type(binop(), Type::parbool());
                   }
                   return eval_bool(env, binop());
-                }
-              }
-              return allow_equal;
-            };
+                };
             ArrayLit* struct0 = eval_array_lit(env, lhs);
             ArrayLit* struct1 = eval_array_lit(env, rhs);
             switch (bo->op()) {
@@ -1643,7 +1670,7 @@ bool eval_bool(EnvI& env, Expression* e) {
               case BOT_IN: {
                 // Note: tup1 is an array of tuples
                 for (unsigned int i = 0; i < struct1->size(); ++i) {
-                  if (struct_equal(struct0, eval_array_lit(env, (*struct1)[0]))) {
+                  if (struct_equal(struct0, (*struct1)[i])) {
                     return true;
                   }
                 }
-- 
2.43.0


From d24da63aa6bcd6dc9882f5e81a47f4dfd0ae62e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 50/88] fix: common type of a par and a var tuple or record is
 var

---
 lib/flatten.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index e3f28b8..9858c24 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1445,6 +1445,11 @@ Type EnvI::commonTuple(Type tuple1, Type tuple2, bool ignoreTuple1Dim, bool stri
     typeIds[tuple1.dim()] = typeId;
     typeId = registerArrayEnum(typeIds);
   }
+  if (tuple2.isvar()) {
+    // A struct with any var field is var
+    tuple1.typeId(0);
+    tuple1.ti(Type::TI_VAR);
+  }
   tuple1.typeId(typeId);
   tuple1.cv(tuple1.cv() || tuple2.cv());
   if (tuple1.isOpt() || tuple2.isOpt()) {
@@ -1515,6 +1520,11 @@ Type EnvI::commonRecord(Type record1, Type record2, bool ignoreRecord1Dim, bool
     typeIds[record1.dim()] = typeId;
     typeId = registerArrayEnum(typeIds);
   }
+  if (record2.isvar()) {
+    // A struct with any var field is var
+    record1.typeId(0);
+    record1.ti(Type::TI_VAR);
+  }
   record1.typeId(typeId);
   record1.cv(record1.cv() || record2.cv());
   if (record1.isOpt() || record2.isOpt()) {
-- 
2.43.0


From bb091710b16717fbe0a538834862895630343b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:18 +0000
Subject: [PATCH 51/88] fix: output of structured values defined by indexed
 literals or FlatZinc functions

---
 lib/output.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/lib/output.cpp b/lib/output.cpp
index dcc1d98..58938b7 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -894,6 +894,21 @@ void output_vardecls(EnvI& env, Item* ci, Expression* e) {
             VarDeclI::a(Location().introduce(), Expression::cast<VarDecl>(copy(env, env.cmap, vd)));
         Type t = nvi->e()->ti()->type();
         t.mkPar(env);
+        if (auto* rhs = Expression::dynamicCast<Call>(nvi->e()->e())) {
+          if (reallyFlat != nullptr) {
+            // The functional form of a FlatZinc constraint has no par version, so the value has to
+            // come from the solver
+            std::vector<Type> tv(rhs->argCount());
+            for (unsigned int i = 0; i < rhs->argCount(); i++) {
+              tv[i] = Expression::type(rhs->arg(i));
+              tv[i].mkPar(env);
+            }
+            if (env.output->matchFn(env, rhs->id(), tv, false) == nullptr &&
+                env.model->matchFn(env, rhs->id(), tv, false) == nullptr) {
+              nvi->e()->e(nullptr);
+            }
+          }
+        }
         make_par(env, nvi->e());
         nvi->e()->ti()->eraseDomain();
         nvi->e()->flat(vd->flat());
@@ -1929,6 +1944,10 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
               vd_followed->e(flate);
             } else {
               auto it = env.reverseMappers.find(vd_followed->id());
+              auto cannotUseRhs = [&]() {
+                return reallyFlat == vd_orig || cannot_use_rhs_for_output(env, vd_followed->e()) ||
+                       rhs_contains_var_comp(env, vd_orig->e());
+              };
               if (it != env.reverseMappers.end()) {
                 // Found a reverse mapper, so we need to add the mapping function to the
                 // output model to map the FlatZinc value back to the model variable.
@@ -1939,9 +1958,15 @@ void create_output(EnvI& e, FlatteningOptions::OutputMode outputMode, bool outpu
                 output_vardecls(env, vdi_copy, rhs);
                 top_down(*this, rhs);
                 vd_followed->e(rhs);
-              } else if (reallyFlat == vd_orig ||
-                         cannot_use_rhs_for_output(env, vd_followed->e()) ||
-                         rhs_contains_var_comp(env, vd_orig->e())) {
+              } else if (vd_followed->type().structBT() && reallyFlat->e() != nullptr &&
+                         cannotUseRhs()) {
+                // Structured values do not exist in FlatZinc, so use the flattened literal
+                // (only its components may need to be marked as output)
+                Expression* flate = copy(env, env.cmap, reallyFlat->e());
+                output_vardecls(env, vdi_copy, flate);
+                make_par(env, flate);
+                vd_followed->e(flate);
+              } else if (cannotUseRhs()) {
                 // If the VarDecl does not have a usable right hand side, it needs to be
                 // marked as output in the FlatZinc
                 vd_followed->e(nullptr);
-- 
2.43.0


From d0704863ddc2748836ffa5ac7b0fa1517d8242a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 52/88] fix: read everything a solver process writes and keep
 the time limit after it closes its output

The output loop ended at the end of the solver's standard output: what was
left on standard error was dropped, and a solver that closed its output but
kept running was waited for without any time limit.  After an interrupted
select the descriptor sets were used as if data were available, so the
loop blocked in read and never escalated to further signals; a failed read
wrote before the buffer; a closed standard error led to busy waiting; and
the output still in the pipe was dropped after the solver was killed.
---
 include/minizinc/process.hh | 157 ++++++++++++++++++++++--------------
 1 file changed, 96 insertions(+), 61 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 7776bb0..1c8e6bc 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -436,18 +436,61 @@ public:
       bool handledInterrupt = false;
       bool handledTerm = false;
 
-      bool done = hadTerm || hadInterrupt;
+      bool open[3] = {false, true, true};  // whether more output can arrive
+      bool exited = false;
+      int childStatus = 0;
+      // Deliver a chunk of output of the solver
+      auto receive = [&](int i) {
+        char buffer[1000];
+        ssize_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
+        if (count > 0) {
+          buffer[count] = 0;
+          if (1 == i) {
+            try {
+              _pS2Out->feedRawDataChunk(buffer);
+            } catch (...) {
+              // Exception during solns2out, kill process and re-throw
+              if (killpg(childPID, SIGKILL) == -1) {
+                // Fallback to killing the child if killing the process group fails
+                kill(childPID, SIGKILL);
+              }
+              throw;
+            }
+          } else {
+            _pS2Out->getLog() << buffer << std::flush;
+          }
+        } else if (count == 0 || (errno != EINTR && errno != EAGAIN)) {
+          open[i] = false;
+        }
+      };
+
       bool timed_out = false;
-      while (!done) {
-        FD_SET(pipes[1][0], &fdset);
-        FD_SET(pipes[2][0], &fdset);
-        int sel =
-            select(FD_SETSIZE, &fdset, nullptr, nullptr, _timelimit == 0 ? nullptr : &timeout);
+      bool killed = false;
+      while (open[1] || !exited) {
+        if (!open[1] && waitpid(childPID, &childStatus, WNOHANG) != 0) {
+          exited = true;
+          break;
+        }
+        FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
+        for (int i = 1; i <= 2; ++i) {
+          if (open[i]) {
+            FD_SET(pipes[i][0], &fdset);
+          }
+        }
+        struct timeval wait = timeout;
+        if (!open[1] && (_timelimit == 0 || wait.tv_sec > 0 || wait.tv_usec > 50000)) {
+          // Solver has closed its output, check regularly if it has ended
+          wait.tv_sec = 0;
+          wait.tv_usec = 50000;
+        }
+        int sel = select(FD_SETSIZE, &fdset, nullptr, nullptr,
+                         _timelimit == 0 && open[1] ? nullptr : &wait);
         if (sel == -1) {
           if (errno != EINTR) {
             // some error has happened
             throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
+          FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
         }
         bool timeoutImmediately = false;
         if (hadInterrupt && !handledInterrupt) {
@@ -471,37 +514,32 @@ public:
           starttime = currentTime;
         }
 
-        bool killed = false;
         if (_timelimit != 0) {
           timeval currentTime;
           gettimeofday(&currentTime, nullptr);
-          if (sel != 0) {
-            timeval elapsed;
-            elapsed.tv_sec = currentTime.tv_sec - starttime.tv_sec;
-            elapsed.tv_usec = currentTime.tv_usec - starttime.tv_usec;
-            if (elapsed.tv_usec < 0) {
-              elapsed.tv_sec--;
-              elapsed.tv_usec += 1000000;
-            }
-            // Reset timeout to original limit
-            timeout = timeout_orig;
-            // Subtract elapsed time
-            timeout.tv_usec = timeout.tv_usec - elapsed.tv_usec;
-            if (timeout.tv_usec < 0) {
-              timeout.tv_sec--;
-              timeout.tv_usec += 1000000;
-            }
-            timeout.tv_sec = timeout.tv_sec - elapsed.tv_sec;
-          } else {
-            timeout.tv_usec = 0;
-            timeout.tv_sec = 0;
+          timeval elapsed;
+          elapsed.tv_sec = currentTime.tv_sec - starttime.tv_sec;
+          elapsed.tv_usec = currentTime.tv_usec - starttime.tv_usec;
+          if (elapsed.tv_usec < 0) {
+            elapsed.tv_sec--;
+            elapsed.tv_usec += 1000000;
           }
+          // Reset timeout to original limit
+          timeout = timeout_orig;
+          // Subtract elapsed time
+          timeout.tv_usec = timeout.tv_usec - elapsed.tv_usec;
+          if (timeout.tv_usec < 0) {
+            timeout.tv_sec--;
+            timeout.tv_usec += 1000000;
+          }
+          timeout.tv_sec = timeout.tv_sec - elapsed.tv_sec;
           if (timeout.tv_sec < 0 || (timeout.tv_sec == 0 && timeout.tv_usec == 0)) {
             timed_out = true;
-            if (signal == SIGKILL) {
-              killed = true;
-              done = true;
+            if (killed) {
+              // Some other process keeps the output of the killed solver open
+              break;
             }
+            killed = signal == SIGKILL;
             if (killpg(childPID, signal) == -1) {
               // Fallback to killing the child if killing the process group fails
               kill(childPID, signal);
@@ -515,47 +553,44 @@ public:
           }
         }
 
-        bool addedNl = false;
         for (int i = 1; i <= 2; ++i) {
           if (FD_ISSET(pipes[i][0], &fdset)) {
-            char buffer[1000];
-            size_t count = read(pipes[i][0], buffer, sizeof(buffer) - 1);
-            if (count > 0) {
-              buffer[count] = 0;
-              if (1 == i) {
-                //                       cerr << "mzn-fzn: raw chunk stdout:::  " << flush;
-                //                       cerr << buffer << flush;
-                try {
-                  _pS2Out->feedRawDataChunk(buffer);
-                } catch (...) {
-                  // Exception during solns2out, kill process and re-throw
-                  if (killpg(childPID, SIGKILL) == -1) {
-                    // Fallback to killing the child if killing the process group fails
-                    kill(childPID, SIGKILL);
-                  }
-                  throw;
-                }
-              } else {
-                _pS2Out->getLog() << buffer << std::flush;
-              }
-            } else if (1 == i) {
-              _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
-              addedNl = true;
-              done = true;
-            }
+            receive(i);
           }
         }
-        if (killed && !addedNl) {
-          _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
+      }
+
+      if (!exited) {
+        exited = waitpid(childPID, &childStatus, 0) > 0;
+      }
+      // Deliver the rest of the output without waiting for any process still holding the pipes
+      while (open[1] || open[2]) {
+        FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
+        for (int i = 1; i <= 2; ++i) {
+          if (open[i]) {
+            FD_SET(pipes[i][0], &fdset);
+          }
+        }
+        struct timeval noWait = {0, 0};
+        int sel = select(FD_SETSIZE, &fdset, nullptr, nullptr, &noWait);
+        if (sel == -1 && errno == EINTR) {
+          continue;
+        }
+        if (sel <= 0) {
+          break;
+        }
+        for (int i = 1; i <= 2; ++i) {
+          if (FD_ISSET(pipes[i][0], &fdset)) {
+            receive(i);
+          }
         }
       }
+      _pS2Out->feedRawDataChunk("\n");  // in case last chunk did not end with \n
 
       close(pipes[1][0]);
       close(pipes[2][0]);
       int exitStatus = timed_out ? 0 : 1;
-      int childStatus;
-      int pidStatus = waitpid(childPID, &childStatus, 0);
-      if (!timed_out && pidStatus > 0) {
+      if (!timed_out && exited) {
         if (WIFEXITED(childStatus)) {
           exitStatus = WEXITSTATUS(childStatus);
         }
-- 
2.43.0


From 6856ce5282d20f4a59eb4829b7036e47b79d6a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:38 +0000
Subject: [PATCH 53/88] fix: do not lose interrupts that arrive while the
 solver is not being waited for

A signal between the test of the flags and select was only noticed when the
solver next wrote something, and one between fork and the installation of
the handlers ended minizinc and left the solver running.
---
 include/minizinc/process.hh | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/minizinc/process.hh b/include/minizinc/process.hh
index 1c8e6bc..0217b1c 100644
--- a/include/minizinc/process.hh
+++ b/include/minizinc/process.hh
@@ -336,6 +336,14 @@ public:
     pipe(pipes[1]);
     pipe(pipes[2]);
 
+    // Interrupts are received only while waiting for the solver, so that none of them gets lost
+    sigset_t blocked;
+    sigset_t oldMask;
+    sigemptyset(&blocked);
+    sigaddset(&blocked, SIGINT);
+    sigaddset(&blocked, SIGTERM);
+    sigprocmask(SIG_BLOCK, &blocked, &oldMask);
+
     if (int childPID = fork()) {
       close(pipes[0][0]);
       close(pipes[1][1]);
@@ -353,6 +361,7 @@ public:
         sa_ign.sa_flags = 0;
         sigemptyset(&sa_ign.sa_mask);
         sigaction(SIGINT, &sa_ign, &old_sa_int);
+        sigprocmask(SIG_SETMASK, &oldMask, nullptr);
 
         bool done = false;
         bool watchErr = true;  // stop watching stderr once it closes, to avoid a busy-wait
@@ -432,6 +441,11 @@ public:
       sigfillset(&sa.sa_mask);
       sigaction(SIGINT, &sa, &old_sa_int);
       sigaction(SIGTERM, &sa, &old_sa_term);
+      auto restoreSignals = [&]() {
+        sigprocmask(SIG_SETMASK, &oldMask, nullptr);
+        sigaction(SIGINT, &old_sa_int, nullptr);
+        sigaction(SIGTERM, &old_sa_term, nullptr);
+      };
       int signal = _sigint ? SIGINT : SIGTERM;
       bool handledInterrupt = false;
       bool handledTerm = false;
@@ -454,6 +468,7 @@ public:
                 // Fallback to killing the child if killing the process group fails
                 kill(childPID, SIGKILL);
               }
+              restoreSignals();
               throw;
             }
           } else {
@@ -477,17 +492,20 @@ public:
             FD_SET(pipes[i][0], &fdset);
           }
         }
-        struct timeval wait = timeout;
-        if (!open[1] && (_timelimit == 0 || wait.tv_sec > 0 || wait.tv_usec > 50000)) {
+        struct timespec wait;
+        wait.tv_sec = timeout.tv_sec;
+        wait.tv_nsec = timeout.tv_usec * 1000;
+        if (!open[1] && (_timelimit == 0 || wait.tv_sec > 0 || wait.tv_nsec > 50000000)) {
           // Solver has closed its output, check regularly if it has ended
           wait.tv_sec = 0;
-          wait.tv_usec = 50000;
+          wait.tv_nsec = 50000000;
         }
-        int sel = select(FD_SETSIZE, &fdset, nullptr, nullptr,
-                         _timelimit == 0 && open[1] ? nullptr : &wait);
+        int sel = pselect(FD_SETSIZE, &fdset, nullptr, nullptr,
+                          _timelimit == 0 && open[1] ? nullptr : &wait, &oldMask);
         if (sel == -1) {
           if (errno != EINTR) {
             // some error has happened
+            restoreSignals();
             throw Error(std::string("Error in communication with solver: ") + strerror(errno));
           }
           FD_ZERO(&fdset);  // NOLINT(readability-isolate-declaration)
@@ -595,8 +613,7 @@ public:
           exitStatus = WEXITSTATUS(childStatus);
         }
       }
-      sigaction(SIGINT, &old_sa_int, nullptr);
-      sigaction(SIGTERM, &old_sa_term, nullptr);
+      restoreSignals();
       if (hadInterrupt) {
         throw SignalRaised(SIGINT);
       }
@@ -605,6 +622,7 @@ public:
       }
       return exitStatus;
     }
+    sigprocmask(SIG_SETMASK, &oldMask, nullptr);
     if (!_interactive) {
       // Isolate the child in its own process group so the parent can signal the
       // whole group on time-out. In interactive mode the child must stay in the
-- 
2.43.0


From 061f0b9f3b5891c14a3f2dde3936909d0b5463cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 54/88] fix: array_intersect terminates and intersects all
 ranges of the first set

---
 lib/builtins.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index 56c996b..b7f6a61 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -3015,8 +3015,17 @@ IntSetVal* b_array_intersect(EnvI& env, Call* call) {
     if (!i0->empty()) {
       IntSetRanges i0r(i0);
       IntVal min = i0r.min();
-      while (i0r()) {
-        // Initialize with last interval
+      while (true) {
+        // Initialize with the first interval that is not too small
+        while (i0r() && i0r.max() < min) {
+          ++i0r;
+        }
+        if (!i0r()) {
+          break;
+        }
+        if (min < i0r.min()) {
+          min = i0r.min();
+        }
         IntVal max = i0r.max();
         // Intersect with all other intervals
       restart:
@@ -3043,6 +3052,9 @@ IntSetVal* b_array_intersect(EnvI& env, Call* call) {
           }
         }
         ranges.emplace_back(min, max);
+        if (!max.isFinite()) {
+          break;
+        }
         // The next interval must be at least two elements away
         min = max + 2;
       }
-- 
2.43.0


From 95325960635901896a7f286e341d0a7e9b12cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 55/88] fix: formatting functions count characters, not bytes,
 and reject negative lengths

---
 lib/builtins.cpp | 64 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/lib/builtins.cpp b/lib/builtins.cpp
index b7f6a61..8fb2be7 100644
--- a/lib/builtins.cpp
+++ b/lib/builtins.cpp
@@ -2755,6 +2755,38 @@ Expression* b_output_json_parameters(EnvI& env, Call* call) {
   return al;
 }
 
+namespace {
+/// Number of bytes of the UTF-8 character starting at \a c
+size_t utf8_char_bytes(char c) {
+  if ((c & 0xE0) == 0xC0) {
+    return 2;
+  }
+  if ((c & 0xF0) == 0xE0) {
+    return 3;
+  }
+  if ((c & 0xF8) == 0xF0) {
+    return 4;
+  }
+  return 1;
+}
+/// Number of UTF-8 characters in \a s
+size_t utf8_length(const std::string& s) {
+  size_t length = 0;
+  for (size_t i = 0; i < s.size(); i += utf8_char_bytes(s[i])) {
+    length++;
+  }
+  return length;
+}
+/// The first \a n UTF-8 characters of \a s
+std::string utf8_prefix(const std::string& s, size_t n) {
+  size_t i = 0;
+  for (; n > 0 && i < s.size(); n--) {
+    i += utf8_char_bytes(s[i]);
+  }
+  return s.substr(0, i);
+}
+}  // namespace
+
 std::string b_format(EnvI& env, Call* call) {
   int width = 0;
   int prec = -1;
@@ -2812,13 +2844,14 @@ std::string b_format(EnvI& env, Call* call) {
     }
   }
   std::string s = show(env, e);
-  if (prec >= 0 && prec < s.size()) {
-    s = s.substr(0, prec);
+  if (prec >= 0) {
+    s = utf8_prefix(s, prec);
   }
   std::ostringstream oss;
-  if (s.size() < std::abs(width)) {
-    int addLeft = std::max(0, width < 0 ? 0 : (width - static_cast<int>(s.size())));
-    int addRight = std::max(0, width < 0 ? (-width - static_cast<int>(s.size())) : 0);
+  const int length = static_cast<int>(utf8_length(s));
+  if (length < std::abs(width)) {
+    int addLeft = std::max(0, width < 0 ? 0 : (width - length));
+    int addRight = std::max(0, width < 0 ? (-width - length) : 0);
     for (int i = addLeft; (i--) != 0;) {
       oss << " ";
     }
@@ -2834,21 +2867,24 @@ std::string b_format(EnvI& env, Call* call) {
 std::string b_format_justify_string(EnvI& env, Call* call) {
   GCLock lock;
   int width = static_cast<int>(eval_int(env, call->arg(0)).toInt());
-  size_t max_length = call->argCount() == 3
-                          ? static_cast<size_t>(eval_int(env, call->arg(1)).toInt())
-                          : std::string::npos;
-  if (max_length < 0) {
-    throw EvalError(env, Expression::loc(call->arg(1)), "max string length cannot be negative");
+  size_t max_length = std::string::npos;
+  if (call->argCount() == 3) {
+    IntVal max_length_arg = eval_int(env, call->arg(1));
+    if (max_length_arg < 0) {
+      throw EvalError(env, Expression::loc(call->arg(1)), "max string length cannot be negative");
+    }
+    max_length = static_cast<size_t>(max_length_arg.toInt());
   }
   Expression* e = eval_par(env, call->arg(call->argCount() - 1));
-  std::string s = eval_string(env, e).substr(0, max_length);
+  std::string s = utf8_prefix(eval_string(env, e), max_length);
   std::ostringstream oss;
-  if (s.size() < std::abs(width)) {
-    int addLeft = width < 0 ? 0 : (width - static_cast<int>(s.size()));
+  const int length = static_cast<int>(utf8_length(s));
+  if (length < std::abs(width)) {
+    int addLeft = width < 0 ? 0 : (width - length);
     if (addLeft < 0) {
       addLeft = 0;
     }
-    int addRight = width < 0 ? (-width - static_cast<int>(s.size())) : 0;
+    int addRight = width < 0 ? (-width - length) : 0;
     if (addRight < 0) {
       addRight = 0;
     }
-- 
2.43.0


From 55cd0a549e2b13fa0cdfd340977f40241451d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 56/88] fix: read integers in JSON data as 64-bit values and
 reject larger ones

---
 include/minizinc/json_parser.hh |  2 +-
 lib/json_parser.cpp             | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/minizinc/json_parser.hh b/include/minizinc/json_parser.hh
index 6684499..2639e30 100644
--- a/include/minizinc/json_parser.hh
+++ b/include/minizinc/json_parser.hh
@@ -61,7 +61,7 @@ protected:
   Token readTokenInternal(std::istream& is);
   void expectToken(std::istream& is, TokenT t);
   std::string expectString(std::istream& is);
-  int expectInt(std::istream& is);
+  long long int expectInt(std::istream& is);
   void expectEof(std::istream& is);
   Expression* parseEnumDef(std::istream& is);
   Expression* parseEnumConstructorDef(std::istream& is, const std::string& seen);
diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index abaefa9..a936548 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -36,13 +36,13 @@ protected:
 public:
   Token() : t(T_EOF) {}
   std::string s;
-  int i;
+  long long int i;
   double d;
   bool b;
   Token(std::string s0) : t(T_STRING), s(std::move(s0)) {}
-  Token(int i0) : t(T_INT), i(i0), d(i0) {}
+  Token(long long int i0) : t(T_INT), i(i0), d(static_cast<double>(i0)) {}
   Token(double d0) : t(T_FLOAT), d(d0) {}
-  Token(bool b0) : t(T_BOOL), i(static_cast<int>(b0)), d(static_cast<double>(b0)), b(b0) {}
+  Token(bool b0) : t(T_BOOL), i(static_cast<long long int>(b0)), d(static_cast<double>(b0)), b(b0) {}
   static Token listOpen() { return Token(T_LIST_OPEN); }
   static Token listClose() { return Token(T_LIST_CLOSE); }
   static Token objOpen() { return Token(T_OBJ_OPEN); }
@@ -360,8 +360,11 @@ JSONParser::Token JSONParser::readToken(istream& is) {
         } else {
           is.unget();
           std::istringstream iss(result);
-          int v;
+          long long int v;
           iss >> v;
+          if (iss.fail()) {
+            throw JSONError(_env, errLocation(), "invalid integer literal `" + result + "'");
+          }
           state = S_NOTHING;
           return Token(v);
         }
@@ -418,7 +421,7 @@ string JSONParser::expectString(istream& is) {
   return rt.s;
 }
 
-int JSONParser::expectInt(istream& is) {
+long long int JSONParser::expectInt(istream& is) {
   Token rt = readToken(is);
   if (rt.t != T_INT) {
     throw JSONError(_env, errLocation(), "unexpected token, expected int");
@@ -549,7 +552,7 @@ Expression* JSONParser::parseEnumObject(std::istream& is, const std::string& see
   auto key = seen;
   Expression* e;
   std::string c;
-  int i = -1;
+  long long int i = -1;
 
   for (;;) {
     if (key == "e") {
-- 
2.43.0


From 91db285ecca8bece2b59b7d37e338ee298299a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 57/88] fix: accept empty objects in JSON data

---
 lib/json_parser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index a936548..a228cce 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -472,7 +472,7 @@ Expression* JSONParser::parseEnumConstructorDef(std::istream& is, const std::str
   // precondition: already parsed '{ "e" :' or '{ "c" :' or '{ "i":'
   //               seen = "e" or "c" or "i"
   auto key = seen;
-  Expression* e = nullptr;
+  Expression* e;
   std::string c;
   Expression* i = nullptr;
 
@@ -1016,8 +1016,16 @@ void JSONParser::parseModel(Model* m, std::istream& is, bool isData) {
     } _varDecls(knownIds, _aliases);
     iter_items(_varDecls, m);
   }
-  for (;;) {
-    string ident = expectString(is);
+  for (bool first = true;; first = false) {
+    Token key = readToken(is);
+    if (first && key.t == T_OBJ_CLOSE) {
+      // Empty object
+      break;
+    }
+    if (key.t != T_STRING) {
+      throw JSONError(_env, errLocation(), "unexpected token, expected string");
+    }
+    const string& ident = key.s;
     ASTString ast_ident(ident);
     expectToken(is, T_COLON);
     auto it = knownIds.find(ast_ident);
-- 
2.43.0


From 37d9d96266d7e7f617bb734626374b7922043660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:15 +0000
Subject: [PATCH 58/88] fix: an enum object without a value in JSON data is an
 error, not undefined behaviour

---
 lib/json_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index a228cce..ec006b2 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -472,7 +472,7 @@ Expression* JSONParser::parseEnumConstructorDef(std::istream& is, const std::str
   // precondition: already parsed '{ "e" :' or '{ "c" :' or '{ "i":'
   //               seen = "e" or "c" or "i"
   auto key = seen;
-  Expression* e;
+  Expression* e = nullptr;
   std::string c;
   Expression* i = nullptr;
 
@@ -550,7 +550,7 @@ Expression* JSONParser::parseEnumObject(std::istream& is, const std::string& see
   // precondition: already parsed '{ "e" :' or '{ "c" :' or '{ "i":'
   //               seen = "e" or "c" or "i"
   auto key = seen;
-  Expression* e;
+  Expression* e = nullptr;
   std::string c;
   long long int i = -1;
 
-- 
2.43.0


From 1fe35b2f8671966815f816c1fd64d1cfa84a9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 59/88] fix: absent values in value_precede are never equal to
 one of its two values

---
 share/minizinc/std/fzn_value_precede_int_opt.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/std/fzn_value_precede_int_opt.mzn b/share/minizinc/std/fzn_value_precede_int_opt.mzn
index a6b3614..d04b03c 100644
--- a/share/minizinc/std/fzn_value_precede_int_opt.mzn
+++ b/share/minizinc/std/fzn_value_precede_int_opt.mzn
@@ -2,5 +2,5 @@ include "value_precede.mzn";
 
 predicate fzn_value_precede_int_opt(int: before, int: after, array [int] of var opt int: xs) =
   let {
-    int: def = if had_zero(xs) then max(before, after) + 1 else 0 endif;
+    int: def = if had_zero(xs) \/ before = 0 \/ after = 0 then max(before, after) + 1 else 0 endif;
   } in value_precede(before, after, [y default def | y in xs]);
-- 
2.43.0


From 58d4d7ad3c2634d0490ca62f2faf70a9966dfcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:23 +0000
Subject: [PATCH 60/88] fix: flatten the result of a total Boolean function in
 the context of its call

---
 l5.mzn                       |  1 +
 lib/flatten/flatten_call.cpp | 11 +++++++----
 lib/flatten/flatten_let.cpp  |  5 +++++
 3 files changed, 13 insertions(+), 4 deletions(-)
 create mode 100644 l5.mzn

diff --git a/l5.mzn b/l5.mzn
new file mode 100644
index 0000000..41f98af
--- /dev/null
+++ b/l5.mzn
@@ -0,0 +1 @@
+var bool: b1::add_to_output;var bool: b2::add_to_output;var bool: b3::add_to_output; var bool: d5 ::add_to_output; constraint d5 = (if b1 then b2 elseif b3 then true else false endif);constraint d5;
diff --git a/lib/flatten/flatten_call.cpp b/lib/flatten/flatten_call.cpp
index 1c1615d..281e091 100644
--- a/lib/flatten/flatten_call.cpp
+++ b/lib/flatten/flatten_call.cpp
@@ -1339,10 +1339,13 @@ EE flatten_call(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, VarD
           if (ctx.b == C_ROOT && r == env.constants.varTrue) {
             (void)flat_exp(env, Ctx(), decl->e(), r, env.constants.varTrue);
           } else {
-            Ctx nctx;
-            if (!is_total(env, decl)) {
-              nctx = ctx;
-              nctx.neg = false;
+            Ctx nctx = ctx;
+            nctx.neg = false;
+            if (is_total(env, decl) &&
+                (Expression::isa<Let>(decl->e()) || Expression::isa<ITE>(decl->e()))) {
+              // The constraints of a total function hold in the root context (but its result is
+              // used in the context of the call, see flatten_let)
+              nctx = Ctx();
             }
             EE ee = flat_exp(env, nctx, decl->e(), nullptr, env.constants.varTrue);
             ee.b = ee.r;
diff --git a/lib/flatten/flatten_let.cpp b/lib/flatten/flatten_let.cpp
index 68bf4d7..16ed8f2 100644
--- a/lib/flatten/flatten_let.cpp
+++ b/lib/flatten/flatten_let.cpp
@@ -110,6 +110,11 @@ EE flatten_let(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl* b)
           break;
         }
       }
+      if (ctx.b == C_ROOT && r == nullptr && let->type().isbool() && !let->type().isOpt() &&
+          !Expression::isa<Let>(let->in()) && !Expression::isa<ITE>(let->in())) {
+        // The result is not required to hold
+        nctx.b = C_MIX;
+      }
       EE ee = flat_exp(env, nctx, let->in(), nullptr, bb);
       if (let->type().isbool() && !let->type().isOpt()) {
         ee.b = ee.r;
-- 
2.43.0


From 2b0116926c2299a7b33aeb7c605961b560954917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 61/88] fix: keep the link between an output Boolean and its
 0/1 variable through aliases

---
 lib/output.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/output.cpp b/lib/output.cpp
index 58938b7..e3ace4b 100644
--- a/lib/output.cpp
+++ b/lib/output.cpp
@@ -2187,6 +2187,16 @@ void finalise_output(EnvI& e) {
 
                 bool needOutputAnn = true;
                 if (Id* ident = Expression::dynamicCast<Id>(reallyFlat->e())) {
+                  // Follow chains of aliases to the variable that has a reverse mapper
+                  std::unordered_set<VarDecl*> seen({reallyFlat});
+                  while (e.reverseMappers.find(ident) == e.reverseMappers.end() &&
+                         ident->decl() != nullptr && seen.insert(ident->decl()).second) {
+                    Id* next = Expression::dynamicCast<Id>(ident->decl()->e());
+                    if (next == nullptr) {
+                      break;
+                    }
+                    ident = next;
+                  }
                   if (e.reverseMappers.find(ident) != e.reverseMappers.end()) {
                     needOutputAnn = false;
                     remove_is_output(vd);
-- 
2.43.0


From 87aab9aee14bccf303e14431dde0f063e9372fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 62/88] fix: a prefix is lexicographically less in the linear
 decomposition of lex_less

---
 share/minizinc/linear/fzn_lex_less_int.mzn | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/minizinc/linear/fzn_lex_less_int.mzn b/share/minizinc/linear/fzn_lex_less_int.mzn
index 600f2fb..918fb7a 100644
--- a/share/minizinc/linear/fzn_lex_less_int.mzn
+++ b/share/minizinc/linear/fzn_lex_less_int.mzn
@@ -17,7 +17,7 @@ predicate fzn_lex_less_int(array [int] of var int: xs, array [int] of var int: y
       int: size = min(ux - lx, uy - ly);
       array [0..size] of var 0..1: fEQ;
       array [0..size] of var 0..1: fLT;
-    } in sum(fLT) == 1 /\
+    } in (ux - lx < uy - ly \/ sum(fLT) == 1) /\
       fEQ[0] + fLT[0] == 1 /\
       forall (i in 1..size) (fEQ[i - 1] == fEQ[i] + fLT[i]) /\
       forall (i in 0..size) (
-- 
2.43.0


From caa6de9966368b1163aecb2ed7e45f40bfb07da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 63/88] fix: no table entries for undefined powers in the
 linear decomposition of int_pow

---
 share/minizinc/linear/redefinitions.mzn | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/share/minizinc/linear/redefinitions.mzn b/share/minizinc/linear/redefinitions.mzn
index fafd1ff..0cbe28e 100644
--- a/share/minizinc/linear/redefinitions.mzn
+++ b/share/minizinc/linear/redefinitions.mzn
@@ -347,8 +347,13 @@ predicate float_times(var float: x, var float: y, var float: z) =
 %%%Define int_pow
 predicate int_pow(var int: x, var int: y, var int: z) =
   let {
+    % negative powers of 0 are undefined, and excluded by the caller
     array [int, int] of int: x2y =
-      array2d(lb(x)..ub(x), lb(y)..ub(y), [pow(X, Y) | X in lb(x)..ub(x), Y in lb(y)..ub(y)]);
+      array2d(
+        lb(x)..ub(x),
+        lb(y)..ub(y),
+        [if X = 0 /\ Y < 0 then 0 else pow(X, Y) endif | X in lb(x)..ub(x), Y in lb(y)..ub(y)],
+      );
   } in z == x2y[x, y];
 
 %%% Adding a version returning float for efficiency
-- 
2.43.0


From d974ea0743cdc98bd83429d2b531576609246e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 64/88] fix: report models found infeasible by MIPdomains as
 unsatisfiable

---
 include/minizinc/MIPdomains.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/minizinc/MIPdomains.hh b/include/minizinc/MIPdomains.hh
index eed2c40..fa36763 100644
--- a/include/minizinc/MIPdomains.hh
+++ b/include/minizinc/MIPdomains.hh
@@ -43,7 +43,7 @@
     if (!(cond)) { /* NOLINT(readability-simplify-boolean-expr) */                \
       std::ostringstream oss;                                                     \
       oss << "from MIPDomains: " << msg; /* NOLINT(bugprone-macro-parentheses) */ \
-      throw ModelInconsistent(envi, loc, oss.str());                              \
+      (envi).fail(oss.str(), loc);                                                \
     }                                                                             \
   } while (0)
 
-- 
2.43.0


From 8d39fa91e476dea0c30ca9993b5a77f017d8e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 65/88] fix: a subcircuit visits only nodes of the index set in
 the linear decomposition

---
 share/minizinc/linear/fzn_subcircuit.mzn | 1 +
 1 file changed, 1 insertion(+)

diff --git a/share/minizinc/linear/fzn_subcircuit.mzn b/share/minizinc/linear/fzn_subcircuit.mzn
index 7fa65ce..e308ce9 100644
--- a/share/minizinc/linear/fzn_subcircuit.mzn
+++ b/share/minizinc/linear/fzn_subcircuit.mzn
@@ -16,6 +16,7 @@ predicate fzn_subcircuit(array [int] of var int: xs) =
       var S: lastin;
       var bool: empty = (firstin == u + 1);
     } in alldifferent(xs) /\
+      forall (i in S) (xs[i] in S) /\
       (
         % NO   alldifferent(order) /\
         % If the subcircuit is empty then each node points at itself.
-- 
2.43.0


From 915c306a96dda2f188ab8a14be5d367eed39a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 66/88] fix: values outside of the alphabet in the reified
 regular constraint

---
 share/minizinc/std/fzn_regular_reif.mzn | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/share/minizinc/std/fzn_regular_reif.mzn b/share/minizinc/std/fzn_regular_reif.mzn
index a231f38..5b53125 100644
--- a/share/minizinc/std/fzn_regular_reif.mzn
+++ b/share/minizinc/std/fzn_regular_reif.mzn
@@ -35,26 +35,36 @@ predicate fzn_regular_reif(
     %   States 1..Q: original; ACC = Q+1 (only accepting state); DEAD = Q+2 (a live,
     %   non-accepting sink that original dead transitions are redirected to, so that
     %   strings rejected by a missing transition can still reach ACC with b = false).
-    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true.
+    %   Symbols 1..S: original; S+1 marks b = false, S+2 marks b = true; S+3 stands for
+    %   all values outside 1..S (no word containing one is accepted).
     let {
       int: ACC = Q + 1;
       int: DEAD = Q + 2;
       int: QQ = Q + 2;
-      int: SS = S + 2;
+      int: SS = S + 3;
       array [1..QQ, 1..SS] of int: dd =
         array2d(1..QQ, 1..SS, [
-          if r <= Q then
+          if r = ACC then
+            0
+          elseif c = S + 3 then
+            DEAD
+          elseif r <= Q then
             if c <= S then (if d[r, c] = 0 then DEAD else d[r, c] endif)
             elseif c = S + 1 then (if r in F then 0 else ACC endif)
             else (if r in F then ACC else 0 endif)
             endif
-          elseif r = DEAD then
-            (if c <= S then DEAD elseif c = S + 1 then ACC else 0 endif)
           else
-            0
+            (if c <= S then DEAD elseif c = S + 1 then ACC else 0 endif)
           endif
         | r in 1..QQ, c in 1..SS]);
-      array [int] of var int: y = xs ++ [S + 1 + bool2int(b)];
+      array [int] of var int: y =
+        [
+          if dom(xs[i]) subset 1..S then
+            xs[i]
+          else
+            if xs[i] in 1..S then xs[i] else S + 3 endif
+          endif
+        | i in index_set(xs)] ++ [S + 1 + bool2int(b)];
     } in
       fzn_regular(y, QQ, SS, dd, q0, {ACC})
   endif;
-- 
2.43.0


From fefbc200a5c59b957c8412915ea1ebb958f90501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 67/88] fix: enforce the value of a fixed Boolean on its mapped
 0/1 variable

---
 lib/flatten/flatten_binop.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/flatten/flatten_binop.cpp b/lib/flatten/flatten_binop.cpp
index 7b6308b..6df4f5e 100644
--- a/lib/flatten/flatten_binop.cpp
+++ b/lib/flatten/flatten_binop.cpp
@@ -1817,6 +1817,20 @@ EE flatten_binop(EnvI& env, const Ctx& input_ctx, Expression* e, VarDecl* r, Var
 
     EE ee = flat_exp(env, Ctx(), id, nullptr, env.constants.varTrue);
 
+    if (Expression::isa<BoolLit>(ee.r())) {
+      // The value is already fixed, so the mapping has to be enforced as a constraint
+      KeepAlive ka;
+      {
+        GCLock lock;
+        Call* mapped = Call::a(Location().introduce(), c->id(), args);
+        mapped->decl(c->decl());
+        mapped->type(c->type());
+        ka = new BinOp(Location().introduce(), ee.r(), bo->op(), mapped);
+        Expression::type(ka(), bo->type());
+      }
+      return flat_exp(env, ctx, ka(), r, b);
+    }
+
     GCLock lock;
     Call* revMap = Call::a(Location().introduce(), c->id(), args);
 
-- 
2.43.0


From b173ef8e9ee90c0b4f6f3b0fece228f3da15005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:24 +0000
Subject: [PATCH 68/88] fix: the definition of a Boolean variable is not
 weakened by later uses

---
 lib/flatten/flatten_vardecl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/flatten/flatten_vardecl.cpp b/lib/flatten/flatten_vardecl.cpp
index be6f64c..7e0b6de 100644
--- a/lib/flatten/flatten_vardecl.cpp
+++ b/lib/flatten/flatten_vardecl.cpp
@@ -65,6 +65,11 @@ EE flatten_vardecl(EnvI& env, const Ctx& ctx, Expression* e, VarDecl* r, VarDecl
         nctx.b = C_MIX;
       }
       (void)flat_exp(env, nctx, v->e(), vd, env.constants.varTrue);
+      if (vd->type() == Type::varbool() && vd->e() != nullptr &&
+          Expression::isa<Call>(vd->e())) {
+        // Later uses in a positive or negative context must not weaken the definition
+        env.addCtxAnn(vd, nctx.b);
+      }
       if (Expression::type(v->e()).dim() > 0) {
         Expression* ee = follow_id_to_decl(vd->e());
         if (Expression::isa<VarDecl>(ee)) {
-- 
2.43.0


From 24eb45a4de1059d6c830ba2424c9d83e47df9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:38 +0000
Subject: [PATCH 69/88] fix: an equality at a fractional value is false for an
 integer variable (MIPdomains)

---
 lib/MIPdomains.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/MIPdomains.cpp b/lib/MIPdomains.cpp
index bf17b70..8112d5e 100644
--- a/lib/MIPdomains.cpp
+++ b/lib/MIPdomains.cpp
@@ -1716,6 +1716,9 @@ private:
       } else {
         MZN_MIPD_assert_hard(varFlag->type().isint());
         for (const auto& intv : SS) {
+          if (cls.varRef1->type().isint() && std::ceil(intv.left) > std::floor(intv.right)) {
+            continue;  // no integer value in this interval
+          }
           auto it1 = sDomain.lower_bound(intv.left);
           auto it2 = sDomain.upper_bound(intv.right);
           auto it11 = it1;
-- 
2.43.0


From 72fd73cc9d45d5819933037a4db1a9c9ff464d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:38 +0000
Subject: [PATCH 70/88] fix: infeasible models found by MIPdomains end
 flattening normally

---
 lib/MIPdomains.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/MIPdomains.cpp b/lib/MIPdomains.cpp
index 8112d5e..06619aa 100644
--- a/lib/MIPdomains.cpp
+++ b/lib/MIPdomains.cpp
@@ -2295,9 +2295,13 @@ bool MIPD::fVerbose = false;
 
 void mip_domains(Env& env, bool fVerbose, int nmi, double dmd) {
   MIPD mipd(&env, fVerbose, nmi, dmd);
-  if (!mipd.doMIPdomains()) {
-    GCLock lock;
-    env.envi().fail();
+  try {
+    if (!mipd.doMIPdomains()) {
+      GCLock lock;
+      env.envi().fail();
+    }
+  } catch (ModelInconsistent&) { /* NOLINT(bugprone-empty-catch) */
+    // The FlatZinc has been replaced by a failed model
   }
 }
 
-- 
2.43.0


From 972925220fab29694f9c9c6a3abd290960551cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:05 +0000
Subject: [PATCH 71/88] hook: forced garbage collection schedules (MZN_VERIF)

---
 lib/gc.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/lib/gc.cpp b/lib/gc.cpp
index 7c7faaa..6523955 100644
--- a/lib/gc.cpp
+++ b/lib/gc.cpp
@@ -19,8 +19,53 @@
 #include <cstring>
 #include <vector>
 
+#ifdef MZN_VERIF
+#include <cstdlib>
+#endif
+
 namespace MiniZinc {
 
+#ifdef MZN_VERIF
+/// Collection schedule for verification, from the environment: MZN_VERIF_GC=PERIOD,FROM,MAX
+/// forces at most MAX collections, at the opportunities FROM + k * PERIOD, and overwrites
+/// reclaimed memory. MZN_VERIF_GC_COUNT prints the number of opportunities at exit.
+struct VerifGC {
+  unsigned long long period = 0;
+  unsigned long long next = 0;
+  unsigned long long count = 0;
+  unsigned long long forced = 0;
+  unsigned long long max = ~0ULL;
+  bool print = false;
+  VerifGC() {
+    if (const char* e = std::getenv("MZN_VERIF_GC")) {
+      char* p = nullptr;
+      period = std::strtoull(e, &p, 10);
+      next = *p == ',' ? std::strtoull(p + 1, &p, 10) : 0;
+      max = *p == ',' ? std::strtoull(p + 1, &p, 10) : max;
+    }
+    print = std::getenv("MZN_VERIF_GC_COUNT") != nullptr;
+  }
+  ~VerifGC() {
+    if (print) {
+      std::cerr << "%%%verif-gc " << count << " " << forced << std::endl;
+    }
+  }
+  bool opportunity() {
+    count++;
+    if (period == 0 || count < next || forced >= max) {
+      return false;
+    }
+    next = count + period;
+    forced++;
+    return true;
+  }
+};
+static VerifGC& verif_gc() {
+  static VerifGC v;
+  return v;
+}
+#endif
+
 // GC::gc() is defined inline in gc.hh (hot path).
 
 bool GC::locked() {
@@ -229,6 +274,12 @@ protected:
 #endif
   }
   void rungc() {
+#ifdef MZN_VERIF
+    if (verif_gc().opportunity()) {
+      trigger();
+      return;
+    }
+#endif
     if (_allocedMem > _gcThreshold) {
       trigger();
     }
@@ -627,6 +678,12 @@ void GC::Heap::sweep() {
         new (fln) FreeListNode(ni.ns, _fl[freelistSlot(ni.ns)]);
         _fl[freelistSlot(ni.ns)] = fln;
         _freeMem += ni.ns;
+#ifdef MZN_VERIF
+        if (verif_gc().period != 0) {
+          memset(reinterpret_cast<char*>(fln) + sizeof(FreeListNode), 42,
+                 ni.ns - sizeof(FreeListNode));
+        }
+#endif
 #ifdef MINIZINC_GC_STATS
         gc_stats[fln->_id].second++;
 #endif
@@ -654,6 +711,11 @@ void GC::Heap::sweep() {
   for (auto* pf : toFree) {
 #ifndef NDEBUG
     memset(pf->data, 42, pf->size);
+#endif
+#ifdef MZN_VERIF
+    if (verif_gc().period != 0) {
+      memset(pf->data, 42, pf->size);
+    }
 #endif
     ::free(pf);
   }
-- 
2.43.0


From f257730a8e543ed62b9681e9f34ea747dbb76dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 72/88] fix: print a negative base of a power in parentheses

---
 lib/prettyprinter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 998fb2e..3fdcfbc 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -116,6 +116,16 @@ Parentheses need_parentheses(const BinOp* bo, const Expression* left, const Expr
   int pl = precedence(left);
   int pr = precedence(right);
   int ret = static_cast<int>((pbo < pl) || (pbo == pl && assoc(bo) != AS_LEFT));
+  if (bo->op() == BOT_POW) {
+    // -x^y is the negation of x^y
+    const auto* uo = Expression::dynamicCast<UnOp>(left);
+    const auto* il = Expression::dynamicCast<IntLit>(left);
+    const auto* fl = Expression::dynamicCast<FloatLit>(left);
+    if ((uo != nullptr && uo->op() != UOT_NOT) || (il != nullptr && IntLit::v(il) < 0) ||
+        (fl != nullptr && FloatLit::v(fl) < 0.0)) {
+      ret |= PN_LEFT;
+    }
+  }
   ret += 2 * static_cast<int>((pbo < pr) || (pbo == pr && assoc(bo) != AS_RIGHT));
   return static_cast<Parentheses>(ret);
 }
-- 
2.43.0


From b0731577998c2f04c9e2dba15cdb199ce4538326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 73/88] fix: print var for tuple and record types with fixed
 fields

---
 lib/prettyprinter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 3fdcfbc..90f698c 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -265,6 +265,17 @@ public:
           return;
         }
       }
+      if (type.isvar() && type.ot() != Type::OT_OPTIONAL) {
+        // the fields are printed as declared
+        for (unsigned int i = 0; i < al->size(); ++i) {
+          auto* vd = Expression::dynamicCast<VarDecl>((*al)[i]);
+          auto* ti = vd != nullptr ? vd->ti() : Expression::cast<TypeInst>((*al)[i]);
+          if (ti->type().isPar()) {
+            _os << "var ";
+            break;
+          }
+        }
+      }
       _os << (t.bt() == Type::BT_TUPLE ? "tuple(" : "record(");
       if (t.bt() != Type::BT_RECORD || t.typeId() != 0) {
         for (unsigned int i = 0; i < al->size(); ++i) {
-- 
2.43.0


From 7298bab4b708000381d781117fbbb0bb08c354c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 74/88] fix: print parentheses around annotated operators

---
 lib/prettyprinter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 90f698c..a402810 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -318,6 +318,11 @@ public:
     if (e == nullptr) {
       return;
     }
+    bool annParentheses = !_flatZinc && !Expression::ann(e).isEmpty() &&
+                          (Expression::isa<BinOp>(e) || Expression::isa<UnOp>(e));
+    if (annParentheses) {
+      _os << "(";
+    }
     switch (Expression::eid(e)) {
       case Expression::E_INTLIT:
         _os << IntLit::v(Expression::cast<IntLit>(e));
@@ -873,6 +878,9 @@ public:
         }
       }
     }
+    if (annParentheses) {
+      _os << ")";
+    }
     if (!Expression::isa<VarDecl>(e)) {
       p(Expression::ann(e));
     }
-- 
2.43.0


From ae96434dc4202441ba197ed0b6496ad1d3ba9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 75/88] fix: print array slices with empty and unbounded index
 sets so that they can be read

---
 lib/prettyprinter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index a402810..6cc9b8a 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -512,7 +512,17 @@ public:
         }
         _os << "[";
         for (unsigned int i = 0; i < aa->idx().size(); i++) {
-          p(aa->idx()[i]);
+          const auto* sl = Expression::dynamicCast<SetLit>(aa->idx()[i]);
+          if (sl != nullptr && sl->isv() != nullptr && sl->isv()->empty() &&
+              Expression::type(sl).bt() == Type::BT_INT) {
+            _os << "1..0";
+          } else if (sl != nullptr && sl->isv() != nullptr && sl->isv()->size() == 1 &&
+                     sl->isv()->min() == -IntVal::infinity() &&
+                     sl->isv()->max() == IntVal::infinity()) {
+            _os << "..";
+          } else {
+            p(aa->idx()[i]);
+          }
           if (i < aa->idx().size() - 1) {
             _os << ",";
           }
-- 
2.43.0


From acdadf6f0647342b6e3f528cc3af3c00d9fbf94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 76/88] fix: print parentheses around the operand of a field
 access

---
 lib/prettyprinter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 6cc9b8a..69d45e9 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -557,7 +557,15 @@ public:
       } break;
       case Expression::E_FIELDACCESS: {
         const auto* fa = Expression::cast<FieldAccess>(e);
+        bool needParentheses = Expression::isa<BinOp>(fa->v()) || Expression::isa<UnOp>(fa->v()) ||
+                               Expression::isa<Let>(fa->v());
+        if (needParentheses) {
+          _os << "(";
+        }
         p(fa->v());
+        if (needParentheses) {
+          _os << ")";
+        }
         _os << ".";
         if (_env != nullptr && Expression::isa<IntLit>(fa->field()) &&
             Expression::type(fa->v()).isrecord()) {
-- 
2.43.0


From b448c20d8a57fce06407f5baa58465d6862c0875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:16 +0000
Subject: [PATCH 77/88] fix: quote identifiers of generators and assignments
 when printing

---
 include/minizinc/prettyprinter.hh | 16 ++++++++--------
 lib/prettyprinter.cpp             |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/minizinc/prettyprinter.hh b/include/minizinc/prettyprinter.hh
index a827731..44d5c66 100644
--- a/include/minizinc/prettyprinter.hh
+++ b/include/minizinc/prettyprinter.hh
@@ -119,14 +119,14 @@ public:
       return std::string(str);
     }
     const std::vector<std::string> reserved = {
-        "ann",       "annotation", "any",      "array",    "bool",     "case",      "constraint",
-        "default",   "diff",       "div",      "else",     "elseif",   "endif",     "enum",
-        "false",     "float",      "function", "if",       "in",       "include",   "int",
-        "intersect", "let",        "list",     "maximize", "minimize", "mod",       "not",
-        "of",        "op",         "opt",      "output",   "par",      "predicate", "record",
-        "satisfy",   "set",        "solve",    "string",   "subset",   "superset",  "symdiff",
-        "test",      "then",       "true",     "tuple",    "type",     "union",     "var",
-        "where",     "xor"};
+        "ann",     "annotation", "any",      "array", "bool",     "case",     "constraint",
+        "default", "diff",       "div",      "else",  "elseif",   "endif",    "enum",
+        "false",   "float",      "function", "if",    "in",       "include",  "infinity",
+        "int",     "intersect",  "let",      "list",  "maximize", "minimize", "mod",
+        "not",     "of",         "op",       "opt",   "output",   "par",      "predicate",
+        "record",  "satisfy",    "set",      "solve", "string",   "subset",   "superset",
+        "symdiff", "test",       "then",     "true",  "tuple",    "type",     "union",
+        "var",     "where",      "xor"};
     bool is_reserved =
         std::find(reserved.begin(), reserved.end(), std::string(str)) != reserved.end();
     int offset = str[0] == '_' ? 1 : 0;
diff --git a/lib/prettyprinter.cpp b/lib/prettyprinter.cpp
index 69d45e9..55288af 100644
--- a/lib/prettyprinter.cpp
+++ b/lib/prettyprinter.cpp
@@ -610,7 +610,7 @@ public:
           for (unsigned int j = 0; j < c->numberOfDecls(i); j++) {
             auto* ident = c->decl(i, j)->id();
             if (ident->idn() == -1) {
-              _os << ident->v();
+              _os << Printer::quoteId(ident->v());
             } else if (ident->idn() < -1) {
               _os << "_";
             } else {
@@ -919,7 +919,7 @@ public:
         p(i->cast<VarDeclI>()->e());
         break;
       case Item::II_ASN:
-        _os << i->cast<AssignI>()->id() << " = ";
+        _os << Printer::quoteId(i->cast<AssignI>()->id()) << " = ";
         p(i->cast<AssignI>()->e());
         break;
       case Item::II_CON:
-- 
2.43.0


From ccd5c33407b82d66b1ef6594780775dd9a6c9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:31 +0000
Subject: [PATCH 78/88] fix: coerce fields of non-literal arrays of tuples and
 records

TupleType::matchesBT and RecordType::matchesBT skipped every field that was
not of bottom type, so int data in an array of tuple(float) (a JSON file,
array2d, an identifier) stayed uncoerced. The coercion then built a set
comprehension instead of an array comprehension.
---
 lib/flatten.cpp   | 4 ++--
 lib/typecheck.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 9858c24..8bfcddb 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -805,7 +805,7 @@ bool TupleType::matchesBT(const EnvI& env, const TupleType& other) const {
   }
   for (unsigned int i = 0; i < other.size(); ++i) {
     const Type& ty = operator[](i);
-    if (ty.bt() != Type::BT_BOT || other[i].bt() != Type::BT_BOT) {
+    if (ty.bt() == Type::BT_BOT || other[i].bt() == Type::BT_BOT) {
       continue;
     }
     if (other[i].bt() != Type::BT_TOP && ty.bt() != other[i].bt()) {
@@ -879,7 +879,7 @@ bool RecordType::matchesBT(const EnvI& env, const RecordType& other) const {
       return false;
     }
     const Type& ty = operator[](i);
-    if (ty.bt() != Type::BT_BOT || other[i].bt() != Type::BT_BOT) {
+    if (ty.bt() == Type::BT_BOT || other[i].bt() == Type::BT_BOT) {
       continue;
     }
     if (other[i].bt() != Type::BT_TOP && ty.bt() != other[i].bt()) {
diff --git a/lib/typecheck.cpp b/lib/typecheck.cpp
index 5b6b280..3a8f8a0 100644
--- a/lib/typecheck.cpp
+++ b/lib/typecheck.cpp
@@ -1789,7 +1789,7 @@ KeepAlive add_coercion(EnvI& env, Model* m, Expression* e0, const Location& loc_
         auto* aa = new ArrayAccess(Expression::loc(e).introduce(), vd_array1d->id(), {vd_it->id()});
         aa->type(tyElem);
         Expression* elem = add_coercion(env, m, aa, Expression::loc(aa), funarg_t.elemType(env))();
-        auto* comprehension = new Comprehension(Location().introduce(), elem, gens, true);
+        auto* comprehension = new Comprehension(Location().introduce(), elem, gens, false);
         comprehension->type(Type::arrType(env, Type::partop(1), Expression::type(elem)));
 
         auto* arrayXd = Call::a(Expression::loc(e).introduce(), env.constants.ids.arrayXd,
-- 
2.43.0


From 81df89f1abbfa17273995598c3c95ac265b08e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:31 +0000
Subject: [PATCH 79/88] fix: reject Booleans where a member of an enumerated
 type is expected

true and false coerce to int, and were accepted for enumerated types as well.
---
 lib/flatten.cpp | 5 +++++
 lib/type.cpp    | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index 8bfcddb..ffbcacb 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -1654,6 +1654,11 @@ bool EnvI::isSubtype(const Type& t10, const Type& t2, bool strictEnums) const {
       return false;
     }
   }
+  if (strictEnums && t1.bt() == Type::BT_BOOL && t2.bt() == Type::BT_INT && t1.dim() != 0 &&
+      t2.dim() != 0 && t2.typeId() != 0 && getArrayEnum(t2.typeId()).back() != 0) {
+    // array of Booleans assigned to an array of enumerated type
+    return false;
+  }
   if (strictEnums && t1.bt() == Type::BT_INT && t1.dim() != 0 && t1.typeId() != t2.typeId()) {
     if (t1.typeId() == 0) {
       return t1.isbot();
diff --git a/lib/type.cpp b/lib/type.cpp
index 8b0f956..72359c1 100644
--- a/lib/type.cpp
+++ b/lib/type.cpp
@@ -43,7 +43,9 @@ bool Type::btSubtype(const EnvI& env, const Type& t0, const Type& t1, bool stric
   }
   switch (t0.bt()) {
     case BT_BOOL:
-      return (t1.bt() == Type::BT_INT || t1.bt() == BT_FLOAT);
+      // A Boolean is not a member of an enumerated type
+      return (t1.bt() == BT_INT && (!strictEnums || t1.dim() != 0 || t1.typeId() == 0)) ||
+             t1.bt() == BT_FLOAT;
     case BT_INT:
       return t1.bt() == BT_FLOAT;
     case BT_BOT:
-- 
2.43.0


From e20c75f0b578258b4b9760c221d342575dff4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 80/88] fix: evaluate par array comprehensions of optional sets

They were evaluated as sets, which made <> an internal error.
---
 lib/eval_par.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 1d59cee..0146159 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -758,7 +758,7 @@ ArrayLit* eval_array_comp(EnvI& env, Comprehension* e) {
   } else if (plainParNonAbsent && e->type().bt() == Type::BT_FLOAT) {
     auto a = eval_comp<EvalFloatLit>(env, e);
     ret = new ArrayLit(Expression::loc(e), a.a, a.dims);
-  } else if (e->type().st() == Type::ST_SET) {
+  } else if (e->type().st() == Type::ST_SET && e->type().ot() == Type::OT_PRESENT) {
     auto a = eval_comp<EvalSetLit>(env, e);
     ret = new ArrayLit(Expression::loc(e), a.a, a.dims);
   } else if (plainParNonAbsent && e->type().bt() == Type::BT_STRING) {
-- 
2.43.0


From 3ba5c5d4310b6652c4cde392883e74d0fcce3303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:22 +0000
Subject: [PATCH 81/88] fix: accept absent sets in arrays returned by functions

---
 lib/eval_par.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/eval_par.cpp b/lib/eval_par.cpp
index 0146159..09d6d9c 100644
--- a/lib/eval_par.cpp
+++ b/lib/eval_par.cpp
@@ -519,7 +519,14 @@ public:
           }
         } else {
           for (unsigned int i = 0; i < v->size(); i++) {
-            IntSetVal* iv = eval_intset(env, (*v)[i]);
+            auto* v_i = (*v)[i];
+            if (Expression::type(v_i).isOpt()) {
+              v_i = eval_par(env, v_i);
+              if (v_i == env.constants.absent) {
+                continue;
+              }
+            }
+            IntSetVal* iv = eval_intset(env, v_i);
             IntSetRanges isv_r(isv);
             IntSetRanges v_r(iv);
             if (!Ranges::subset(v_r, isv_r)) {
@@ -554,7 +561,14 @@ public:
           }
         } else {
           for (unsigned int i = 0; i < v->size(); i++) {
-            FloatSetVal* fv = eval_floatset(env, (*v)[i]);
+            auto* v_i = (*v)[i];
+            if (Expression::type(v_i).isOpt()) {
+              v_i = eval_par(env, v_i);
+              if (v_i == env.constants.absent) {
+                continue;
+              }
+            }
+            FloatSetVal* fv = eval_floatset(env, v_i);
             FloatSetRanges fsv_r(fsv);
             FloatSetRanges v_r(fv);
             if (!Ranges::subset(v_r, fsv_r)) {
-- 
2.43.0


From df741b2a5a8f267051e8a5e97b4fc230030c7417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:54 +0000
Subject: [PATCH 82/88] fix: keep Booleans in JSON set literals that also
 contain numbers

---
 lib/json_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/json_parser.cpp b/lib/json_parser.cpp
index ec006b2..6862e69 100644
--- a/lib/json_parser.cpp
+++ b/lib/json_parser.cpp
@@ -636,6 +636,8 @@ Expression* JSONParser::parseSet(istream& is, TypeInst* ti) {
           listT = T_BOOL;
         }
         exprs.push_back(_env.constants.boollit(next.b));
+        // In a set that also contains numbers, a Boolean stands for 0 or 1
+        ranges.emplace_back(next, next);
         break;
       case T_OBJ_OPEN: {
         if (listT != T_COLON && listT != T_OBJ_OPEN) {
-- 
2.43.0


From 50d2b1070a92d47561339e9bcc6728d99a142e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:22 +0000
Subject: [PATCH 83/88] fix: find solver configurations whose file name has one
 character before .msc

---
 lib/file_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/file_utils.cpp b/lib/file_utils.cpp
index 7cf9e67..eb5aa31 100644
--- a/lib/file_utils.cpp
+++ b/lib/file_utils.cpp
@@ -361,7 +361,7 @@ std::vector<std::string> directory_list(const std::string& dir, const std::strin
         if (ext == "*") {
           entries.push_back(fileName);
         } else {
-          if (fileName.size() > ext.size() + 2 &&
+          if (fileName.size() > ext.size() + 1 &&
               fileName.substr(fileName.size() - ext.size() - 1) == "." + ext) {
             entries.push_back(fileName);
           }
-- 
2.43.0


From 7cc688e4678ea50e78c8a413a5dea66d455a3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:22 +0000
Subject: [PATCH 84/88] fix: accept an empty list of tag defaults in the
 preferences

---
 lib/solver_config.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 4b165a6..5efde99 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -102,6 +102,9 @@ std::vector<std::string> get_string_list(AssignI* ai) {
 std::vector<std::pair<std::string, std::string> > get_string_pair_list(AssignI* ai) {
   if (auto* al = Expression::dynamicCast<ArrayLit>(ai->e())) {
     std::vector<std::pair<std::string, std::string> > ret;
+    if (al->empty()) {
+      return ret;
+    }
     if (al->dims() != 2 || al->min(1) != 1 || al->max(1) != 2) {
       throw ConfigException(
           "invalid configuration item (right hand side must be a 2d array of strings)");
-- 
2.43.0


From cb0f67ff7c32046bfb89fd5fdd71a8fadd0603ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:22 +0000
Subject: [PATCH 85/88] fix: match tags and default solvers case-insensitively,
 as identifiers and names are

---
 lib/solver_config.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/solver_config.cpp b/lib/solver_config.cpp
index 5efde99..504fb62 100644
--- a/lib/solver_config.cpp
+++ b/lib/solver_config.cpp
@@ -577,14 +577,15 @@ void SolverConfigs::addConfig(const MiniZinc::SolverConfig& sc) {
 
   // Add default tag if the solver is marked as the overall default
   DefaultMap::const_iterator def_it = _tagDefault.find("");
-  if (def_it != _tagDefault.end() && def_it->second == id) {
+  if (def_it != _tagDefault.end() && string_to_lower(def_it->second) == id) {
     sc_tags.emplace_back("default");
   }
 
   for (const auto& t : sc_tags) {
-    auto it = _tags.find(t);
+    std::string tag = string_to_lower(t);
+    auto it = _tags.find(tag);
     if (it == _tags.end()) {
-      _tags.insert(std::make_pair(t, std::vector<int>({newIdx})));
+      _tags.insert(std::make_pair(tag, std::vector<int>({newIdx})));
     } else {
       it->second.push_back(newIdx);
     }
@@ -628,7 +629,7 @@ SolverConfigs::SolverConfigs(std::ostream& log) {
             } else if (ai->id() == "tagDefaults") {
               std::vector<std::pair<std::string, std::string> > tagDefs = get_string_pair_list(ai);
               for (auto& td : tagDefs) {
-                std::string tag = td.first;
+                std::string tag = string_to_lower(td.first);
                 std::string solver_id = td.second;
                 _tagDefault[tag] = solver_id;
               }
@@ -817,7 +818,7 @@ SolverConfig& SolverConfigs::config(const std::string& _s) {
   if (tags.empty()) {
     DefaultMap::const_iterator def_it = _tagDefault.find("");
     if (def_it != _tagDefault.end()) {
-      firstTag = def_it->second;
+      firstTag = string_to_lower(def_it->second);
     } else {
       throw ConfigException("no solver selected");
     }
-- 
2.43.0


From 90008d6171ed010ca657fa99ec20e33ead82da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:22 +0000
Subject: [PATCH 86/88] fix: pass the number given with -n-o to the solver

---
 include/minizinc/solvers/fzn_solverinstance.hh | 2 +-
 solvers/fzn/fzn_solverinstance.cpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/minizinc/solvers/fzn_solverinstance.hh b/include/minizinc/solvers/fzn_solverinstance.hh
index 6bd8c51..fb0723f 100644
--- a/include/minizinc/solvers/fzn_solverinstance.hh
+++ b/include/minizinc/solvers/fzn_solverinstance.hh
@@ -27,7 +27,7 @@ public:
   int cleanupTimeLimitMilliseconds = 1000;
   bool fznSigint = false;
   /// Number of (optimal) solutions to output
-  bool numOptimal = true;
+  int numOptimal = 1;
   bool allOptimal = false;
 
   bool fznNeedsPaths = false;
diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index cc12d6d..f29b501 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -142,7 +142,7 @@ bool FZNSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i,
   } else if (cop.getOption("-i")) {
     _opt.fznFlags.emplace_back("-i");
   } else if (_opt.supportsNO && cop.getOption("-n-o --num-optimal", &nn)) {
-    _opt.numOptimal = (nn != 0);
+    _opt.numOptimal = nn;
   } else if (_opt.supportsAO && cop.getOption("-a-o --all-opt --all-optimal")) {
     _opt.allOptimal = true;
   } else if (cop.getOption("-p --parallel", &nn)) {
@@ -254,7 +254,7 @@ SolverInstance::Status FZNSolverInstance::solve() {
   if (opt.allOptimal && !is_sat) {
     cmd_line.emplace_back("-a-o");
   }
-  if (static_cast<int>(opt.numOptimal) != 1 && !is_sat) {
+  if (opt.numOptimal != 1 && !is_sat) {
     cmd_line.emplace_back("-n-o");
     ostringstream oss;
     oss << opt.numOptimal;
-- 
2.43.0


From f2eaf777dd175749a4192cfa43c20234fcb298dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:22 +0000
Subject: [PATCH 87/88] fix: do not pass -a and -i to solvers that do not
 declare them

---
 solvers/fzn/fzn_solverinstance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/fzn/fzn_solverinstance.cpp b/solvers/fzn/fzn_solverinstance.cpp
index f29b501..e1db537 100644
--- a/solvers/fzn/fzn_solverinstance.cpp
+++ b/solvers/fzn/fzn_solverinstance.cpp
@@ -137,9 +137,9 @@ bool FZNSolverFactory::processOption(SolverInstanceBase::Options* opt, int& i,
     _opt.fznFlags.push_back(buffer);
   } else if (_opt.supportsN && cop.getOption("-n --num-solutions", &nn)) {
     _opt.numSols = nn;
-  } else if (cop.getOption("-a")) {
+  } else if (_opt.supportsA && cop.getOption("-a")) {
     _opt.fznFlags.emplace_back("-a");
-  } else if (cop.getOption("-i")) {
+  } else if (_opt.supportsI && cop.getOption("-i")) {
     _opt.fznFlags.emplace_back("-i");
   } else if (_opt.supportsNO && cop.getOption("-n-o --num-optimal", &nn)) {
     _opt.numOptimal = nn;
-- 
2.43.0


From 36f04dffc8ce248b6d1740330cd923db4097166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:39 +0000
Subject: [PATCH 88/88] fix: annotate variables unified at the end with one
 definition only

---
 lib/flatten.cpp | 135 ++++++++++++++++++++++++++----------------------
 1 file changed, 72 insertions(+), 63 deletions(-)

diff --git a/lib/flatten.cpp b/lib/flatten.cpp
index ffbcacb..74e5781 100644
--- a/lib/flatten.cpp
+++ b/lib/flatten.cpp
@@ -5753,36 +5753,10 @@ void oldflatzinc(Env& e) {
           e.envi().flatAddItem(new ConstraintI(Location().introduce(), new_ce));
         }
       }
-      if (Expression::ann(vd).contains(e.envi().constants.ann.is_defined_var)) {
-        if (definition_map.find(vd) == definition_map.end()) {
-          // We haven't seen this variable before
-          definition_map.insert({vd, {-1, DFS_UNKNOWN}});
-          definitions.push_back(vd);
-        }
-      }
     } else if (auto* ci = (*m)[i]->dynamicCast<ConstraintI>()) {
       Expression* new_ce = cleanup_constraint(e.envi(), globals, ci->e(), keepDefinesVar);
       if (new_ce != nullptr) {
         ci->e(new_ce);
-        if (keepDefinesVar) {
-          if (Call* defines_var = Expression::ann(new_ce).getCall(env.constants.ann.defines_var)) {
-            if (Id* ident = Expression::dynamicCast<Id>(defines_var->arg(0))) {
-              auto it = definition_map.find(ident->decl());
-              if (it != definition_map.end()) {
-                if (it->second.first == -1) {
-                  // We've only seen the decl before, but not yet the defining constraint
-                  it->second.first = static_cast<int>(i);
-                } else {
-                  // This is the second definition, remove it
-                  Expression::ann(new_ce).removeCall(env.constants.ann.defines_var);
-                }
-              } else {
-                definition_map.insert({ident->decl(), {i, DFS_UNKNOWN}});
-                definitions.push_back(ident->decl());
-              }
-            }
-          }
-        }
       } else {
         ci->remove();
       }
@@ -5832,7 +5806,79 @@ void oldflatzinc(Env& e) {
     }
   }
 
+  for (auto declsWithId : declsWithIds) {
+    GCLock lock;
+    auto* item = (*m)[declsWithId];
+    if (item->removed()) {
+      continue;
+    }
+    auto* vdi = item->cast<VarDeclI>();
+    VarDecl* vd = vdi->e();
+    if (vd->e() == nullptr || !Expression::isa<Id>(vd->e())) {
+      continue;
+    }
+    std::unordered_set<VarDecl*> seen({vd});
+    auto* rhsDecl = Expression::cast<Id>(vd->e())->decl();
+    while (rhsDecl->e() != nullptr && Expression::isa<Id>(rhsDecl->e())) {
+      auto* nextDecl = Expression::cast<Id>(rhsDecl->e())->decl();
+      if (!seen.insert(rhsDecl).second || seen.count(nextDecl) != 0U) {
+        rhsDecl->e(nullptr);
+        break;
+      }
+      rhsDecl = nextDecl;
+    }
+    if (rhsDecl != vd) {
+      // The whole chain vd -> ... -> rhsDecl is being collapsed into a single
+      // variable. Drop vd's RHS first because unify() keeps the output variable
+      // as the survivor, and the RHS chain might become self-referential.
+      Expression* rhs = vd->e();
+      vd->e(nullptr);
+      CollectDecls cd(env, env.varOccurrences, deletedVarDecls, vdi);
+      top_down(cd, rhs);
+      unify(env, deletedVarDecls, vd->id(), rhsDecl->id());
+    }
+  }
+  {
+    GCLock lock;
+    remove_deleted_items(env, deletedVarDecls);
+  }
+
   if (keepDefinesVar) {
+    // Collect definitions (only now that all aliases have been unified)
+    for (unsigned int i = 0; i < m->size(); i++) {
+      if ((*m)[i]->removed()) {
+        continue;
+      }
+      if (auto* vdi = (*m)[i]->dynamicCast<VarDeclI>()) {
+        VarDecl* vd = vdi->e();
+        if (Expression::ann(vd).contains(env.constants.ann.is_defined_var)) {
+          if (definition_map.find(vd) == definition_map.end()) {
+            // We haven't seen this variable before
+            definition_map.insert({vd, {-1, DFS_UNKNOWN}});
+            definitions.push_back(vd);
+          }
+        }
+      } else if (auto* ci = (*m)[i]->dynamicCast<ConstraintI>()) {
+        if (Call* defines_var = Expression::ann(ci->e()).getCall(env.constants.ann.defines_var)) {
+          if (Id* ident = Expression::dynamicCast<Id>(defines_var->arg(0))) {
+            auto it = definition_map.find(ident->decl());
+            if (it != definition_map.end()) {
+              if (it->second.first == -1) {
+                // We've only seen the decl before, but not yet the defining constraint
+                it->second.first = static_cast<int>(i);
+              } else {
+                // This is the second definition, remove it
+                Expression::ann(ci->e()).removeCall(env.constants.ann.defines_var);
+              }
+            } else {
+              definition_map.insert({ident->decl(), {i, DFS_UNKNOWN}});
+              definitions.push_back(ident->decl());
+            }
+          }
+        }
+      }
+    }
+
     // Detect and break cycles in defines_var annotations
     std::vector<VarDecl*> definesStack;
     auto checkId = [&definesStack, &definition_map, &m](VarDecl* cur, Id* ident) {
@@ -5919,43 +5965,6 @@ void oldflatzinc(Env& e) {
       }
     }
   }
-
-  for (auto declsWithId : declsWithIds) {
-    GCLock lock;
-    auto* item = (*m)[declsWithId];
-    if (item->removed()) {
-      continue;
-    }
-    auto* vdi = item->cast<VarDeclI>();
-    VarDecl* vd = vdi->e();
-    if (vd->e() == nullptr || !Expression::isa<Id>(vd->e())) {
-      continue;
-    }
-    std::unordered_set<VarDecl*> seen({vd});
-    auto* rhsDecl = Expression::cast<Id>(vd->e())->decl();
-    while (rhsDecl->e() != nullptr && Expression::isa<Id>(rhsDecl->e())) {
-      auto* nextDecl = Expression::cast<Id>(rhsDecl->e())->decl();
-      if (!seen.insert(rhsDecl).second || seen.count(nextDecl) != 0U) {
-        rhsDecl->e(nullptr);
-        break;
-      }
-      rhsDecl = nextDecl;
-    }
-    if (rhsDecl != vd) {
-      // The whole chain vd -> ... -> rhsDecl is being collapsed into a single
-      // variable. Drop vd's RHS first because unify() keeps the output variable
-      // as the survivor, and the RHS chain might become self-referential.
-      Expression* rhs = vd->e();
-      vd->e(nullptr);
-      CollectDecls cd(env, env.varOccurrences, deletedVarDecls, vdi);
-      top_down(cd, rhs);
-      unify(env, deletedVarDecls, vd->id(), rhsDecl->id());
-    }
-  }
-  {
-    GCLock lock;
-    remove_deleted_items(env, deletedVarDecls);
-  }
   assert(std::all_of(m->vardecls().begin(), m->vardecls().end(), [](const VarDeclI& vdi) {
     return vdi.e()->e() == nullptr || Expression::isa<ArrayLit>(vdi.e()->e());
   }));
-- 
2.43.0

