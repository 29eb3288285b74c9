From 0548e654b3255daeb8d7332982222e9abcdfe502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 001/112] fix: evaluate a return expression each time the
 return is executed

eval_return() overwrote the expression of the return statement in the AST
with its value, so every further call of the function returned the value
of the first one.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0860e82..37ff49f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2068,9 +2068,14 @@ static tree eval_if(tree t, int depth)
 
 static tree eval_return(tree t, int depth)
 {
-    tRET_EXP(t) = __evaluate_1(tRET_EXP(t), depth + 1);
+    /* Don't store the result in the AST itself: this statement might be
+     * executed again, by another call of the function or by a recursive one. */
+    tree ret = tree_make(T_RETURN);
 
-    return t;
+    tLOCUS(ret) = tLOCUS(t);
+    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+
+    return ret;
 }
 
 /* Build a simplified decl chain, ensuring all decls with multiple
-- 
2.43.0


From 81cd0c6193a127b58cb5a1f15f00ba02911cbdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 002/112] fix: make break and return work from any nesting of
 statements

A break below an if only left the if, and a loop that was left by a break
kept its evaluator context on the context stack.  An unbraced if or loop
body dropped the return or break it executed, and the statements of a plain
nested block were not executed at all.
---
 src/c.lang     |   1 -
 src/evaluate.c | 103 ++++++++++++++++++++++++++++++-------------------
 2 files changed, 64 insertions(+), 40 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 82aebba..ad1a96f 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -232,7 +232,6 @@
 (deftype E_CTX "Evaluator Context" "tECTX"
          ("ID_MAP" "STRUCT_ID_MAP" "UNION_ID_MAP" "PARENT_CTX" "ALLOC_CHAIN" "NAME" "RETVAL"
           ("JMP_BUF" jmp_buf)
-          ("SHOULD_BREAK" flag)
           ("IS_FN_CALL" flag)
           ("IS_STATIC" flag)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index 37ff49f..67ec3e4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -42,7 +42,7 @@ const tree get_include_chain(void)
 static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
-static void __evaluate(tree t, int depth);
+static tree __evaluate(tree t, int depth);
 
 enum identifier_search_scope
 {
@@ -1695,8 +1695,6 @@ static tree eval_gteq(tree t, int depth)
 
 static tree eval_break(tree t, int depth)
 {
-    tECTX_SHOULD_BREAK(cur_ctx) = true;
-
     return t;
 }
 
@@ -1978,6 +1976,8 @@ static tree eval_cast(tree t, int depth)
 
 static tree eval_loop_for(tree t, int depth)
 {
+    tree result;
+
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
@@ -1994,13 +1994,12 @@ static tree eval_loop_for(tree t, int depth)
             break;
 
         push_ctx("For Loop");
-        __evaluate(tFLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tFLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
         __evaluate_1(tFLOOP_AFTER(t), depth + 1);
 
     } while (1);
@@ -2010,6 +2009,8 @@ static tree eval_loop_for(tree t, int depth)
 
 static tree eval_loop_while(tree t, int depth)
 {
+    tree result;
+
     do {
 
         tree cond_result = __evaluate_1(tWLOOP_COND(t),
@@ -2024,13 +2025,12 @@ static tree eval_loop_while(tree t, int depth)
             break;
 
         push_ctx("While Loop");
-        __evaluate(tWLOOP_STMTS(t), depth + 1);
-
-        if (tECTX_SHOULD_BREAK(cur_ctx))
-            return NULL;
-
+        result = __evaluate(tWLOOP_STMTS(t), depth + 1);
         pop_ctx();
 
+        if (is_T_BREAK(result))
+            break;
+
     } while (1);
 
     return NULL;
@@ -2051,19 +2051,21 @@ static tree eval_infix(tree t, int depth)
 
 static tree eval_if(tree t, int depth)
 {
-    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth);
+    tree cond_result = convert_to_comparable_type(tIF_COND(t), depth),
+        result;
 
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
     if (mpz_get_si(tINT_VAL(cond_result)))
-        __evaluate(tIF_TRUE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
-        __evaluate(tIF_ELSE_STMTS(t), depth + 1);
+        result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
     pop_ctx();
 
-    return NULL;
+    /* Let a `break' through to the enclosing loop. */
+    return result;
 }
 
 static tree eval_return(tree t, int depth)
@@ -2717,39 +2719,62 @@ static tree __evaluate_1(tree t, int depth)
     return result;
 }
 
-static void __evaluate(tree head, int depth)
+/* Evaluate a single statement.  Returns a T_BREAK if the statement executed a
+ * `break' that still has to leave the enclosing loop. */
+static tree evaluate_statement(tree stmt, int depth)
 {
-    tree i;
+    tree result;
 
-    if (!head)
-        return;
+    if (is_CHAIN_HEAD(stmt)) {
+        /* A compound statement, this has a scope of it's own. */
+        push_ctx("Block");
+        result = __evaluate(stmt, depth + 1);
+        pop_ctx();
+    } else
+        result = __evaluate_1(stmt, depth);
 
-    if (!is_CHAIN_HEAD(head))
-        __evaluate_1(head, depth);
+    if (is_T_RETURN(result)) {
+        tree fn_ctx = cur_ctx;
 
-    for_each_tree(i, head) {
-        tree result = __evaluate_1(i, depth);
+        while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
+            fn_ctx = tECTX_PARENT_CTX(fn_ctx);
 
-        if (is_T_RETURN(result)) {
-            tree fn_ctx = cur_ctx;
+        /* If we reach the top of the evaluation stack, we have been
+         * executing a cscript and the top-level of it has called return. In
+         * that case, just return the result.
+         */
+        if (!fn_ctx)
+            cscript_exit(tRET_EXP(result));
 
-            while (fn_ctx && !tECTX_IS_FN_CALL(fn_ctx))
-                fn_ctx = tECTX_PARENT_CTX(fn_ctx);
+        tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        longjmp(tECTX_JMP_BUF(fn_ctx), 1);
+    }
 
-            /* If we reach the top of the evaluation stack, we have been
-             * executing a cscript and the top-level of it has called return. In
-             * that case, just return the result.
-             */
-            if (!fn_ctx)
-                cscript_exit(tRET_EXP(result));
+    if (is_T_BREAK(result))
+        return result;
 
-            tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
-            longjmp(tECTX_JMP_BUF(fn_ctx), 1);
-        }
+    return NULL;
+}
+
+/* Evaluate a statement or a chain of statements. */
+static tree __evaluate(tree head, int depth)
+{
+    tree i;
+
+    if (!head)
+        return NULL;
+
+    if (!is_CHAIN_HEAD(head))
+        return evaluate_statement(head, depth);
+
+    for_each_tree(i, head) {
+        tree result = evaluate_statement(i, depth);
 
         if (is_T_BREAK(result))
-            return;
+            return result;
     }
+
+    return NULL;
 }
 
 int get_c_main_return_value(tree t)
-- 
2.43.0


From 8744d9d8d646c0b965ecad151d9167cc9cb6d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 003/112] fix: give a for loop a scope of its own and allow its
 condition to be empty

The declaration in a for loop's first clause was made in the scope that
contains the loop, so that two loops in a function that declare the same
name ended in an error.  A loop without a condition dereferenced NULL.
---
 src/evaluate.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 67ec3e4..a0b21f5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1978,20 +1978,25 @@ static tree eval_loop_for(tree t, int depth)
 {
     tree result;
 
+    /* The scope of anything that is declared by the loop's first clause is
+     * the loop. */
+    push_ctx("For Loop Header");
     __evaluate_1(tFLOOP_INIT(t), depth + 1);
 
     do {
+        /* An omitted condition never ends the loop. */
+        if (!is_T_EMPTY(tFLOOP_COND(t))) {
+            tree cond_result = __evaluate_1(tFLOOP_COND(t),
+                                            depth + 1);
 
-        tree cond_result = __evaluate_1(tFLOOP_COND(t),
-                                        depth + 1);
+            cond_result = convert_to_comparable_type(cond_result, depth + 1);
 
-        cond_result = convert_to_comparable_type(cond_result, depth + 1);
+            if (!is_T_INTEGER(cond_result))
+                eval_die(t, "Unknown condition result");
 
-        if (!is_T_INTEGER(cond_result))
-            eval_die(t, "Unknown condition result");
-
-        if (!mpz_get_si(tINT_VAL(cond_result)))
-            break;
+            if (!mpz_sgn(tINT_VAL(cond_result)))
+                break;
+        }
 
         push_ctx("For Loop");
         result = __evaluate(tFLOOP_STMTS(t), depth + 1);
@@ -2004,6 +2009,8 @@ static tree eval_loop_for(tree t, int depth)
 
     } while (1);
 
+    pop_ctx();
+
     return NULL;
 }
 
-- 
2.43.0


From ae33e8970dbf299ecb914bbd6787d0f4ed35b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 004/112] fix: treat every nonzero value as a true condition

mpz_get_si() only returns the low 63 bits of a value: a condition of 2^63,
an unsigned long with just the top bit set, was taken for false.
---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a0b21f5..1031957 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2028,7 +2028,7 @@ static tree eval_loop_while(tree t, int depth)
         if (!is_T_INTEGER(cond_result))
             eval_die(t, "Unknown condition result");
 
-        if (!mpz_get_si(tINT_VAL(cond_result)))
+        if (!mpz_sgn(tINT_VAL(cond_result)))
             break;
 
         push_ctx("While Loop");
@@ -2050,7 +2050,7 @@ static tree eval_infix(tree t, int depth)
     if (!is_T_INTEGER(cond_result))
         eval_die(t, "Unknown condition result");
 
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         return __evaluate_1(tINFIX_TRUE_STMT(t), depth + 1);
     else
         return __evaluate_1(tINFIX_FALSE_STMT(t), depth + 1);
@@ -2065,7 +2065,7 @@ static tree eval_if(tree t, int depth)
         eval_die(t, "Unknown condition result");
 
     push_ctx("If statement");
-    if (mpz_get_si(tINT_VAL(cond_result)))
+    if (mpz_sgn(tINT_VAL(cond_result)))
         result = __evaluate(tIF_TRUE_STMTS(t), depth + 1);
     else
         result = __evaluate(tIF_ELSE_STMTS(t), depth + 1);
-- 
2.43.0


From ba180725421fbe24acd27e9cf6179b1c3dfbb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 005/112] fix: round the division and the right shift of
 negative values as C does

mpz_div() rounds toward negative infinity where C truncates toward zero, and
mpz_tdiv_q_2exp() truncates where an arithmetic shift rounds down.
---
 src/evaluate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1031957..5074c38 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1452,7 +1452,7 @@ static tree eval_rshift(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_tdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
+    mpz_fdiv_q_2exp(tINT_VAL(ret), tINT_VAL(left), mpz_get_ui(tINT_VAL(right)));
 
     return ret;
 }
@@ -1564,7 +1564,7 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
-    mpz_div(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
+    mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
 }
-- 
2.43.0


From 1a3e78c73f943374c6f5d9fe2e564fd0d8c55812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 006/112] fix: read unsigned objects as unsigned values

Values of unsigned long objects (and pointers) above LONG_MAX were read as
negative.
---
 src/evaluate.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5074c38..0c00b41 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -316,18 +316,23 @@ static tree make_int_from_live_var(tree var)
         case type:                                                         \
             mpz_init_set_si(tINT_VAL(ret), (ptrdiff_t)tLV_VAL(var)->type); \
             break;
+#define SETUINT(type)                                                      \
+        case type:                                                         \
+            mpz_init_set_ui(tINT_VAL(ret), (size_t)tLV_VAL(var)->type);    \
+            break;
         SETINT(D_T_CHAR);
         SETINT(D_T_SHORT);
         SETINT(D_T_INT);
         SETINT(D_T_LONG);
         SETINT(D_T_LONGLONG);
-        SETINT(D_T_UCHAR);
-        SETINT(D_T_USHORT);
-        SETINT(D_T_UINT);
-        SETINT(D_T_ULONG);
-        SETINT(D_T_ULONGLONG);
-        SETINT(D_T_PTR);
+        SETUINT(D_T_UCHAR);
+        SETUINT(D_T_USHORT);
+        SETUINT(D_T_UINT);
+        SETUINT(D_T_ULONG);
+        SETUINT(D_T_ULONGLONG);
+        SETUINT(D_T_PTR);
 #undef SETINT
+#undef SETUINT
     default:
         eval_die(var, "Could not create integer type from live var.");
     }
-- 
2.43.0


From 0a3ab88b4626e1a3803778da58cce14cc8406424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 007/112] fix: convert a value to the type of the object it's
 stored in

assign_integer() and assign_float() read every live var as a long or a
double, whatever it's type, and so took in bytes that aren't part of it or
misinterpreted them.  Literals were clamped or lost their top bit, floating
constants could not be converted to integers and long doubles could not be
assigned at all.
---
 src/evaluate.c | 114 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 90 insertions(+), 24 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0c00b41..fde737a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1147,6 +1147,57 @@ static tree eval_decl(tree t, int depth)
     return ret;
 }
 
+/* Obtain the value of an integer modulo 2^64, i.e. as much of it as can be
+ * stored in an object of any integer type. */
+static unsigned long int get_integer_bits(tree integer)
+{
+    unsigned long int ret;
+    mpz_t bits;
+
+    mpz_init(bits);
+    mpz_fdiv_r_2exp(bits, tINT_VAL(integer), 64);
+    ret = mpz_get_ui(bits);
+    mpz_clear(bits);
+
+    return ret;
+}
+
+/* Obtain the value of a live var of any arithmetic type. A long double can
+ * represent all of these values exactly. */
+static long double get_live_var_real(tree var)
+{
+    switch (TYPE(tLV_TYPE(var))) {
+#define GETREAL(type)                                   \
+        case type:                                      \
+            return tLV_VAL(var)->type;
+        GETREAL(D_T_CHAR);
+        GETREAL(D_T_SHORT);
+        GETREAL(D_T_INT);
+        GETREAL(D_T_LONG);
+        GETREAL(D_T_LONGLONG);
+        GETREAL(D_T_UCHAR);
+        GETREAL(D_T_USHORT);
+        GETREAL(D_T_UINT);
+        GETREAL(D_T_ULONG);
+        GETREAL(D_T_ULONGLONG);
+        GETREAL(D_T_FLOAT);
+        GETREAL(D_T_DOUBLE);
+        GETREAL(D_T_LONGDOUBLE);
+#undef GETREAL
+    default:
+        eval_die(var, "Could not obtain arithmetic value from live var.\n");
+    }
+}
+
+static signed long int real_to_integer(long double val)
+{
+    /* Values above LONG_MAX can only be stored in an unsigned type. */
+    if (val > 0)
+        return (unsigned long int)val;
+
+    return (signed long int)val;
+}
+
 static void assign_integer(tree var, tree right)
 {
     signed long int val;
@@ -1155,10 +1206,19 @@ static void assign_integer(tree var, tree right)
     switch (TYPE(right))
     {
     case T_INTEGER:
-         val = mpz_get_si(tINT_VAL(right));
+         val = get_integer_bits(right);
          break;
+    case T_FLOAT:
+        val = real_to_integer(mpf_get_d(tFLOAT_VAL(right)));
+        break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_LONG;
+        switch (TYPE(tLV_TYPE(right))) {
+        case D_T_FLOAT ... D_T_LONGDOUBLE:
+            val = real_to_integer(get_live_var_real(right));
+            break;
+        default:
+            val = get_integer_bits(make_int_from_live_var(right));
+        }
         break;
     default:
         eval_die(right, "unknown rvalue assignment to integer.\n");
@@ -1178,19 +1238,22 @@ static void assign_integer(tree var, tree right)
 
 static void assign_float(tree var, tree right)
 {
-    double val;
+    long double val;
 
     /* Obtain the value with which to assign. */
     switch (TYPE(right))
     {
     case T_INTEGER:
-        val = (double)mpz_get_si(tINT_VAL(right));
-         break;
+        if (mpz_sgn(tINT_VAL(right)) < 0)
+            val = mpz_get_si(tINT_VAL(right));
+        else
+            val = mpz_get_ui(tINT_VAL(right));
+        break;
     case T_FLOAT:
         val = (double)mpf_get_d(tFLOAT_VAL(right));
         break;
     case T_LIVE_VAR:
-        val = tLV_VAL(right)->D_T_DOUBLE;
+        val = get_live_var_real(right);
         break;
     default:
         eval_die(right, "unknown rvalue assignment to float.\n");
@@ -1201,7 +1264,10 @@ static void assign_float(tree var, tree right)
         tLV_VAL(var)->D_T_FLOAT = (float)val;
         break;
     case D_T_DOUBLE:
-        tLV_VAL(var)->D_T_DOUBLE = val;
+        tLV_VAL(var)->D_T_DOUBLE = (double)val;
+        break;
+    case D_T_LONGDOUBLE:
+        tLV_VAL(var)->D_T_LONGDOUBLE = val;
         break;
     default:
         eval_die(var, "could not assign to non-float type");
@@ -1230,20 +1296,14 @@ static void assign_ptr(tree var, tree right)
     tLV_VAL(var)->D_T_PTR = ptr;
 }
 
-static tree eval_assign(tree t, int depth)
+/* Store a value in a live var, converting it to the live var's type. */
+static void assign_live_var(tree t, tree left, tree right)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
-
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
         assign_integer(left, right);
         break;
-    case D_T_FLOAT ... D_T_DOUBLE:
+    case D_T_FLOAT ... D_T_LONGDOUBLE:
         assign_float(left, right);
         break;
     case D_T_PTR:
@@ -1252,6 +1312,18 @@ static tree eval_assign(tree t, int depth)
     default:
         eval_die(t, "Unknown assignment rvalue type.");
     }
+}
+
+static tree eval_assign(tree t, int depth)
+{
+    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+
+    /* Ensure we have a valid lvalue. */
+    if (!is_T_LIVE_VAR(left))
+        eval_die(t, "Not a valid lvalue.\n");
+
+    assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
      * a rvalue. */
@@ -1846,15 +1918,9 @@ static tree eval_cast(tree t, int depth)
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
-    if (is_T_INTEGER(source)) {
-        tree lv = make_live_var(dest_type);
-        assign_integer(lv, source);
-        return lv;
-    }
-
-    if (is_T_FLOAT(source)) {
+    if (is_T_INTEGER(source) || is_T_FLOAT(source)) {
         tree lv = make_live_var(dest_type);
-        assign_float(lv, source);
+        assign_live_var(t, lv, source);
         return lv;
     }
 
-- 
2.43.0


From 8e89ee469e97a78a4a01c245b98015f008acd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 008/112] fix: make the value of an assignment the one that was
 stored

An assignment used as an expression had the value of its right-hand side
even when that was changed by the conversion to the assigned object's type.
---
 src/evaluate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index fde737a..99e9c71 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1326,8 +1326,13 @@ static tree eval_assign(tree t, int depth)
     assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
-     * a rvalue. */
-    return right;
+     * a rvalue.  This is the value of the object, after any conversion. */
+    switch (TYPE(tLV_TYPE(left))) {
+    case D_T_CHAR ... D_T_ULONGLONG:
+        return make_int_from_live_var(left);
+    default:
+        return left;
+    }
 }
 
 static void live_var_add(tree var, unsigned long int val)
-- 
2.43.0


From bd6e270661dc0675e2920bb59c54e1dc3e317e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 009/112] fix: evaluate all arguments of a call before
 declaring its parameters

The second and further arguments were evaluated after the preceding
parameters had been declared, so f(b, a) passed the wrong value if a
parameter of f() was called a.
---
 src/evaluate.c | 46 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 99e9c71..2c6667f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -426,8 +426,25 @@ static tree eval_fn_call(tree t, int depth)
 
     if (is_T_FN(function)) {
         if (tFN_STMTS(function)) {
+            /* We need to evaluate the argument values before pushing the
+             * function's context and adding any declaration on to it. This
+             * prevents bugs with things such as:
+             *
+             * 0: int foo(int a, int b)
+             * 1: {
+             * 2:      use(a, b);
+             * 3: }
+             * 4:
+             * 5: int main()
+             * 6: {
+             * 7:     int a = 10, b = 20;
+             * 8:     foo(b, a);
+             * 9: }
+             *
+             * Notice that if we evaluated 'int a' on line 0 first, then the
+             * 'a' on line 8 would evaluate to the newly declared 'a'. */
             tree arg_decls = tFN_ARGS(function),
-                arg_vals = tFNCALL_ARGS(t),
+                arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth),
                 arg_decl, arg_val, return_val, fn_ctx;
 
             push_ctx(tID_STR(tFN_DECL(function)));
@@ -454,40 +471,17 @@ static tree eval_fn_call(tree t, int depth)
                 arg_val = arg_vals;
 
                 for_each_tree(arg_decl, arg_decls) {
-                    tree eval_arg_val,
-                        decl_identifier,
+                    tree decl_identifier,
                         assign;
 
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    /* We need to evaluate the argument value before
-                     * adding the declaration on to the new context.  This
-                     * prevents bugs with things such as:
-                     *
-                     * 0: int foo(int a)
-                     * 1: {
-                     * 2:      use(a);
-                     * 3: }
-                     * 4:
-                     * 5: int main()
-                     * 6: {
-                     * 7:     int a = 10;
-                     * 8:     foo(a);
-                     * 9: }
-                     *
-                     * Notice that if we evaluated 'int a' on line 0
-                     * first, then we evaluate the assignment 'a = a' the
-                     * lhs would evaluate to the newly declared 'a' value.
-                     * Therefore, if we evaluate 'a' on line 8 before the
-                     * declaration on line 0, we obtain the correct lvalue
-                     * for assignment. */
-                    eval_arg_val = __evaluate_1(arg_val, depth + 1);
                     decl_identifier = __evaluate_1(arg_decl, depth + 1);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-                    tASSIGN_RHS(assign) = eval_arg_val;
+                    tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
             }
-- 
2.43.0


From cf1d18488da3818ab3255f6b0d5c66c32e111356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 010/112] fix: don't resolve a function's identifiers in the
 scopes of it's callers

Identifiers were looked up in the contexts of all active calls, so a local
variable of a calling function hid the global of the same name.
---
 src/evaluate.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2c6667f..7817974 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -23,6 +23,10 @@
 static tree cur_ctx = NULL;
 GC_STATIC_TREE(cur_ctx);
 
+/* The context of all file-scope declarations. */
+static tree toplevel_ctx = NULL;
+GC_STATIC_TREE(toplevel_ctx);
+
 /* This holds the evaluator state after the evaluation of any #include
  * directives.  */
 static tree include_ctx = NULL;
@@ -156,6 +160,17 @@ static tree resolve_id(tree id, tree ectx, enum idmap_type map_type)
     return __resolve_id(id, idmap);
 }
 
+/* Get the context that lexically encloses `ctx'.  The context of a function
+ * call is enclosed by that of the file-scope declarations, not by whatever
+ * called the function. */
+static tree get_enclosing_ctx(tree ctx)
+{
+    if (tECTX_IS_FN_CALL(ctx))
+        return toplevel_ctx;
+
+    return tECTX_PARENT_CTX(ctx);
+}
+
 static tree __resolve_identifier(tree id,
                                  enum identifier_search_scope scope,
                                  enum idmap_type map_type)
@@ -173,7 +188,7 @@ static tree __resolve_identifier(tree id,
         if (search_result)
             return search_result;
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_ctx(search_ctx);
     }
 
     /* Also search the include_ctx if it exists. */
@@ -216,7 +231,7 @@ tree find_global_identifiers(const char *prefix)
     while (search_ctx) {
         match_identifiers_for_idmap(chain, tECTX_ID_MAP(search_ctx), prefix);
 
-        search_ctx = tECTX_PARENT_CTX(search_ctx);
+        search_ctx = get_enclosing_ctx(search_ctx);
     }
 
     if (include_ctx)
@@ -2937,5 +2952,6 @@ void eval_init(void)
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
+    toplevel_ctx = cur_ctx;
     include_chain = tree_make(CHAIN_HEAD);
 }
-- 
2.43.0


From 371dc5e8e845e220fb4795a297819d102da9c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 011/112] fix: convert a function's return value to its return
 type

The value that was returned was not converted.  If it was a local variable,
the caller was also given the variable itself, whose memory is released with
the context of the call.
---
 src/evaluate.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7817974..768d282 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -395,6 +395,18 @@ static tree convert_to_comparable_type(tree t, int depth)
 #undef DEFCTYPE
 
 
+static bool is_integer_ctype(tree type)
+{
+    switch (TYPE(type)) {
+    case D_T_CHAR ... D_T_ULONGLONG:
+        return true;
+    default:
+        return false;
+    }
+}
+
+static void assign_live_var(tree t, tree left, tree right);
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
@@ -460,7 +472,20 @@ static tree eval_fn_call(tree t, int depth)
              * 'a' on line 8 would evaluate to the newly declared 'a'. */
             tree arg_decls = tFN_ARGS(function),
                 arg_vals = eval_fn_args(tFNCALL_ARGS(t), depth),
-                arg_decl, arg_val, return_val, fn_ctx;
+                arg_decl, arg_val, return_val, fn_ctx,
+                return_type = tFN_RET_TYPE(function), return_lv = NULL;
+            union value return_buf;
+
+            /* This receives the return value. It must not be tracked by the
+             * function's context since it outlives that. */
+            if (is_CTYPE(return_type)) {
+                if (is_integer_ctype(return_type)) {
+                    return_lv = tree_make(T_LIVE_VAR);
+                    tLV_TYPE(return_lv) = return_type;
+                    tLV_VAL(return_lv) = &return_buf;
+                } else
+                    return_lv = make_live_var(return_type);
+            }
 
             push_ctx(tID_STR(tFN_DECL(function)));
             tECTX_IS_FN_CALL(cur_ctx) = true;
@@ -516,6 +541,16 @@ static tree eval_fn_call(tree t, int depth)
                     pop_ctx();
 
                 return_val = tECTX_RETVAL(cur_ctx);
+
+                /* Convert the value to the function's return type. */
+                if (return_val && return_lv) {
+                    assign_live_var(t, return_lv, return_val);
+
+                    if (is_integer_ctype(return_type))
+                        return_val = make_int_from_live_var(return_lv);
+                    else
+                        return_val = return_lv;
+                }
             }
 
             pop_ctx();
-- 
2.43.0


From 0d35d52bc78c84e0831c166cd8915555e05df9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 012/112] fix: allow a function to be defined after it was
 declared

The definition of a function that already had a prototype was refused as a
redeclaration.
---
 src/evaluate.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 768d282..ff32b6f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -837,13 +837,19 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
-        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (!tFN_STMTS(fn)) {
-            previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
+        previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
-            if (previous_decl)
-                return previous_decl;
-    }
+        /* Allow a declaration (not a definition!) of a funcion to be repeated. */
+        if (previous_decl && !tFN_STMTS(fn))
+            return previous_decl;
+
+        /* Replace a previous declaration by the definition. Do this in place so
+         * that everything that referes to the declaration is updated. */
+        if (is_T_EXT_FUNC(previous_decl) ||
+            (is_T_FN(previous_decl) && !tFN_STMTS(previous_decl))) {
+            tree_copy(previous_decl, fn);
+            return decl;
+        }
 
         map_identifier(tFN_DECL(fn), fn);
         return decl;
-- 
2.43.0


From 17990d1391f1f6bec369f4f65e2070d1267177e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:56 +0000
Subject: [PATCH 013/112] fix: lex a minus sign as an operator

The lexer took a minus sign in front of a digit as part of the number, so
that `a-1' was a syntax error, and the grammar had no unary minus.
---
 src/c.lang     |  3 +++
 src/evaluate.c | 37 +++++++++++++++++++++++++++++++++++++
 src/lex.m4     |  4 ++--
 src/parser.m4  | 16 ++++++++++++++++
 4 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index ad1a96f..34bd270 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -36,6 +36,9 @@
 (deftype T_NEGATE "Negate" "tNEGATE"
          ("EXP"))
 
+(deftype T_MINUS "Minus (unary)" "tMINUS"
+         ("EXP"))
+
 (deftype T_ONES_COMP "One's Complement" "tONES_COMP"
          ("EXP"))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index ff32b6f..ddfdf82 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1483,6 +1483,42 @@ static tree eval_negate(tree t, int depth)
     return ret;
 }
 
+static tree eval_minus(tree t, int depth)
+{
+    tree ret, exp = __evaluate_1(tMINUS_EXP(t), depth + 1);
+
+    if (is_T_FLOAT(exp)) {
+        ret = tree_make(T_FLOAT);
+        mpf_init(tFLOAT_VAL(ret));
+        mpf_neg(tFLOAT_VAL(ret), tFLOAT_VAL(exp));
+        return ret;
+    }
+
+    if (is_T_LIVE_VAR(exp))
+        switch (TYPE(tLV_TYPE(exp))) {
+#define NEGATE_REAL(type)                               \
+            case type:                                  \
+                ret = make_live_var(tLV_TYPE(exp));     \
+                tLV_VAL(ret)->type = -tLV_VAL(exp)->type; \
+                return ret;
+            NEGATE_REAL(D_T_FLOAT);
+            NEGATE_REAL(D_T_DOUBLE);
+            NEGATE_REAL(D_T_LONGDOUBLE);
+#undef NEGATE_REAL
+        default:
+            exp = make_int_from_live_var(exp);
+        }
+
+    if (!is_T_INTEGER(exp))
+        eval_die(t, "Can't take the negative of non-arithmetic type.\n");
+
+    ret = tree_make(T_INTEGER);
+    mpz_init(tINT_VAL(ret));
+    mpz_neg(tINT_VAL(ret), tINT_VAL(exp));
+
+    return ret;
+}
+
 static tree eval_ones_comp(tree t, int depth)
 {
   tree ret = tree_make(T_INTEGER);
@@ -2796,6 +2832,7 @@ static tree __evaluate_1(tree t, int depth)
     case T_ADD:        result = eval_add(t, depth + 1);        break;
     case T_SUB:        result = eval_sub(t, depth + 1);        break;
     case T_NEGATE:     result = eval_negate(t, depth + 1);     break;
+    case T_MINUS:      result = eval_minus(t, depth + 1);      break;
     case T_ONES_COMP:  result = eval_ones_comp(t, depth + 1);  break;
     case T_X_OR:       result = eval_xor(t, depth + 1);        break;
     case T_I_OR:       result = eval_ior(t, depth + 1);        break;
diff --git a/src/lex.m4 b/src/lex.m4
index 66c8db2..a35180a 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -195,8 +195,8 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
--?[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
--?[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
+[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
 0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
diff --git a/src/parser.m4 b/src/parser.m4
index 2634589..2117837 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -330,6 +330,22 @@ unary_expression
     set_locus(deref, @1);
     $$ = deref;
 }
+| '-' cast_expression
+{
+    /* Fold the sign into a constant. */
+    if (is_T_INTEGER($2)) {
+        mpz_neg(tINT_VAL($2), tINT_VAL($2));
+        $$ = $2;
+    } else if (is_T_FLOAT($2)) {
+        mpf_neg(tFLOAT_VAL($2), tFLOAT_VAL($2));
+        $$ = $2;
+    } else {
+        tree minus = tree_make(T_MINUS);
+        tMINUS_EXP(minus) = $2;
+        set_locus(minus, @1);
+        $$ = minus;
+    }
+}
 | '~' unary_expression
 {
     tree comp = tree_make(T_ONES_COMP);
-- 
2.43.0


From 56475f7c08c667df97faf61d274b1d75980bf690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 014/112] fix: allow a cast as the operand of a unary operator

---
 src/parser.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 2117837..81c3f09 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -309,21 +309,21 @@ unary_expression
     set_locus(dec, @1);
     $$ = dec;
 }
-| '!' unary_expression
+| '!' cast_expression
 {
     tree negate = tree_make(T_NEGATE);
     tNEGATE_EXP(negate) = $2;
     set_locus(negate, @1);
     $$ = negate;
 }
-| '&' unary_expression
+| '&' cast_expression
 {
     tree addr = tree_make(T_ADDR);
     tADDR_EXP(addr) = $2;
     set_locus(addr, @1);
     $$ = addr;
 }
-| '*' unary_expression
+| '*' cast_expression
 {
     tree deref = tree_make(T_DEREF);
     tDEREF_EXP(deref) = $2;
@@ -346,7 +346,7 @@ unary_expression
         $$ = minus;
     }
 }
-| '~' unary_expression
+| '~' cast_expression
 {
     tree comp = tree_make(T_ONES_COMP);
     tONES_COMP_EXP(comp) = $2;
-- 
2.43.0


From 787a4eb5133fa633928472f870ee58f69ec3d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 015/112] fix: treat a parameter list of (void) as an empty one

---
 src/parser.m4 | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index 81c3f09..7e439d9 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,34 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* A parameter list of `(void)' declares that there are no parameters. */
+static tree handle_void_parameters(tree params)
+{
+    tree i, spec, only_param = NULL, only_spec = NULL;
+
+    for_each_tree(i, params) {
+        if (only_param)
+            return params;
+
+        only_param = i;
+    }
+
+    if (!is_T_DECL(only_param) || tDECL_DECLS(only_param))
+        return params;
+
+    for_each_tree(spec, tDECL_SPECS(only_param)) {
+        if (only_spec)
+            return params;
+
+        only_spec = spec;
+    }
+
+    if (!is_T_VOID_TS(only_spec))
+        return params;
+
+    return tree_make(CHAIN_HEAD);
+}
+
 CSCRIPT_ONLY
     void TARGET()_parser_set_file(const char *fname)
     {
@@ -1153,6 +1181,9 @@ type_qualifier_list
 
 parameter_type_list
 : parameter_list
+{
+    $$ = handle_void_parameters($1);
+}
 | parameter_list ',' ELLIPSIS
 {
     tree_chain(tree_make(T_VARIADIC), $1);
-- 
2.43.0


From efc8a4c97a4dc9428830d8cdefa489fe5306be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 016/112] fix: turn array parameters of any size into pointers

---
 src/parser.m4 | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/parser.m4 b/src/parser.m4
index 7e439d9..8b2d669 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,22 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* A parameter that is declared as an array is really a pointer. */
+static tree adjust_parameter(tree declarator)
+{
+    if (is_T_POINTER(declarator))
+        tPTR_EXP(declarator) = adjust_parameter(tPTR_EXP(declarator));
+
+    if (is_T_ARRAY(declarator) && is_T_IDENTIFIER(tARRAY_DECL(declarator))) {
+        tree ptr = tree_make(T_POINTER);
+        tPTR_EXP(ptr) = tARRAY_DECL(declarator);
+        tLOCUS(ptr) = tLOCUS(declarator);
+        return ptr;
+    }
+
+    return declarator;
+}
+
 /* A parameter list of `(void)' declares that there are no parameters. */
 static tree handle_void_parameters(tree params)
 {
@@ -1206,7 +1222,7 @@ parameter_declaration
 {
     tree decl = tree_make(T_DECL);
     tDECL_SPECS(decl) = $1;
-    tDECL_DECLS(decl) = $2;
+    tDECL_DECLS(decl) = adjust_parameter($2);
     set_locus(decl, @1);
     $$ = decl;
 }
-- 
2.43.0


From d11e706eb464e91206162f3f03160076c44dd12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 017/112] fix: evaluate the left hand side of a compound
 assignment once

---
 src/evaluate.c | 31 ++++++++++++++++++++++++++++++-
 src/parser.m4  | 16 +++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ddfdf82..e75bafb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1364,10 +1364,39 @@ static void assign_live_var(tree t, tree left, tree right)
     }
 }
 
+/* The operation of a compound assignment (see tree_make_binmod) shares its left
+ * hand side with the assignment.  If `op' is such an operation, return a copy of
+ * it that uses `left', i.e. the left hand side once it has been evaluated, so
+ * that the left hand side is only evaluated once. */
+static tree bind_compound_assignment(tree op, tree lhs, tree left)
+{
+    tree ret;
+
+    switch (TYPE(op)) {
+#define BIND_LHS(type, prefix)                  \
+        case type:                              \
+            if (prefix##_LHS(op) != lhs)        \
+                return op;                      \
+            ret = alloc_copy_tree(op);          \
+            prefix##_LHS(ret) = left;           \
+            return ret;
+        BIND_LHS(T_ADD, tADD);
+        BIND_LHS(T_SUB, tSUB);
+        BIND_LHS(T_DIV, tDIV);
+        BIND_LHS(T_LSHIFT, tLSHIFT);
+        BIND_LHS(T_RSHIFT, tRSHIFT);
+        BIND_LHS(T_X_OR, tX_OR);
+#undef BIND_LHS
+    default:
+        return op;
+    }
+}
+
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
-    tree right = __evaluate_1(tASSIGN_RHS(t), depth + 1);
+    tree rhs = bind_compound_assignment(tASSIGN_RHS(t), tASSIGN_LHS(t), left);
+    tree right = __evaluate_1(rhs, depth + 1);
 
     /* Ensure we have a valid lvalue. */
     if (!is_T_LIVE_VAR(left))
diff --git a/src/parser.m4 b/src/parser.m4
index 8b2d669..7fd8fed 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -500,6 +500,7 @@ relational_expression
     tree lt = tree_make(T_LT);
     tLT_LHS(lt) = $1;
     tLT_RHS(lt) = $3;
+    set_locus(lt, @2);
     $$ = lt;
 }
 | relational_expression '>' shift_expression
@@ -614,6 +615,7 @@ conditional_expression
     tINFIX_COND(infix) = $1;
     tINFIX_TRUE_STMT(infix) = $3;
     tINFIX_FALSE_STMT(infix) = $5;
+    set_locus(infix, @2);
     $$ = infix;
 }
 
@@ -634,26 +636,38 @@ assignment_expression
 | unary_expression ADD_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_ADD, tADD, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression SUB_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_SUB, tSUB, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression  DIV_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_DIV, tDIV, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression LSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_LSHIFT, tLSHIFT, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression RSHIFT_ASSIGN assignment_expression
 {
     $$ = tree_make_binmod(T_RSHIFT, tRSHIFT, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 | unary_expression XOR_ASSIGN assignment_expression
 {
-$$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    $$ = tree_make_binmod(T_X_OR, tX_OR, $1, $3);
+    set_locus($$, @2);
+    set_locus(tASSIGN_RHS($$), @2);
 }
 ;
 
-- 
2.43.0


From b9991e619d61fc8af936e6cd917fb67c67ed39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 018/112] fix: scale pointer arithmetic by the size of the
 pointed-to type

---
 src/evaluate.c | 111 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 100 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index e75bafb..cf3e457 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1444,6 +1444,82 @@ static void live_var_sub(tree var, unsigned long int val)
     }
 }
 
+/* Find the number of bytes that a pointer moves by when it is incremented. */
+static size_t get_pointer_step(tree ptr_type, int depth)
+{
+    tree base_type = tDTPTR_EXP(ptr_type);
+
+    if (!base_type || is_D_T_VOID(base_type) || is_T_FN(base_type))
+        return 1;
+
+    return get_size_of_type(base_type, depth);
+}
+
+/* Find the amount by which an increment changes a live var. */
+static size_t get_live_var_step(tree var, int depth)
+{
+    if (is_D_T_PTR(tLV_TYPE(var)))
+        return get_pointer_step(tLV_TYPE(var), depth);
+
+    return 1;
+}
+
+/* Obtain the current value of a live var, i.e. one that isn't changed by a
+ * later modification of the object. */
+static tree get_live_var_value(tree var)
+{
+    tree ret;
+
+    if (is_integer_ctype(tLV_TYPE(var)))
+        return make_int_from_live_var(var);
+
+    ret = make_live_var(tLV_TYPE(var));
+    assign_live_var(var, ret, var);
+
+    return ret;
+}
+
+static bool is_live_pointer(tree t)
+{
+    return is_T_LIVE_VAR(t) && is_D_T_PTR(tLV_TYPE(t));
+}
+
+/* Move a pointer by a number of elements. */
+static tree eval_pointer_offset(tree t, tree ptr, tree index, bool negate,
+                                int depth)
+{
+    tree ret = make_live_var(tLV_TYPE(ptr));
+    ptrdiff_t offset;
+
+    if (is_T_LIVE_VAR(index))
+        index = make_int_from_live_var(index);
+
+    if (!is_T_INTEGER(index))
+        eval_die(t, "Could not add non integer type to a pointer\n");
+
+    offset = mpz_get_si(tINT_VAL(index)) *
+        (ptrdiff_t)get_pointer_step(tLV_TYPE(ptr), depth);
+
+    if (negate)
+        offset = -offset;
+
+    tLV_VAL(ret)->D_T_PTR = tLV_VAL(ptr)->D_T_PTR + offset;
+
+    return ret;
+}
+
+/* Find the number of elements between two pointers. */
+static tree eval_pointer_difference(tree left, tree right, int depth)
+{
+    tree ret = tree_make(T_INTEGER);
+    ptrdiff_t diff = tLV_VAL(left)->D_T_PTR - tLV_VAL(right)->D_T_PTR;
+
+    mpz_init_set_si(tINT_VAL(ret),
+                    diff / (ptrdiff_t)get_pointer_step(tLV_TYPE(left), depth));
+
+    return ret;
+}
+
 static tree eval_post_inc(tree t, int depth)
 {
     tree ret;
@@ -1451,9 +1527,9 @@ static tree eval_post_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
+    ret = get_live_var_value(exp);
 
-    live_var_add(exp, 1);
+    live_var_add(exp, get_live_var_step(exp, depth));
 
     return ret;
 }
@@ -1465,9 +1541,9 @@ static tree eval_inc(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_add(exp, 1);
+    live_var_add(exp, get_live_var_step(exp, depth));
 
-    ret = make_int_from_live_var(exp);
+    ret = get_live_var_value(exp);
 
     return ret;
 }
@@ -1479,8 +1555,8 @@ static tree eval_post_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    ret = make_int_from_live_var(exp);
-    live_var_sub(exp, 1);
+    ret = get_live_var_value(exp);
+    live_var_sub(exp, get_live_var_step(exp, depth));
     return ret;
 }
 
@@ -1491,8 +1567,8 @@ static tree eval_dec(tree t, int depth)
     if (!is_T_LIVE_VAR(exp))
         eval_die(t, "Not a valid lvalue.\n");
 
-    live_var_sub(exp, 1);
-    ret = make_int_from_live_var(exp);
+    live_var_sub(exp, get_live_var_step(exp, depth));
+    ret = get_live_var_value(exp);
     return ret;
 }
 
@@ -1570,6 +1646,12 @@ static tree eval_add(tree t, int depth)
     tree left = __evaluate_1(tADD_LHS(t), depth + 1);
     tree right = __evaluate_1(tADD_RHS(t), depth + 1);
 
+    if (is_live_pointer(left) && !is_live_pointer(right))
+        return eval_pointer_offset(t, left, right, false, depth);
+
+    if (is_live_pointer(right) && !is_live_pointer(left))
+        return eval_pointer_offset(t, right, left, false, depth);
+
     tree ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
@@ -1593,6 +1675,12 @@ static tree eval_sub(tree t, int depth)
     tree left = __evaluate_1(tSUB_LHS(t), depth + 1);
     tree right = __evaluate_1(tSUB_RHS(t), depth + 1);
 
+    if (is_live_pointer(left) && is_live_pointer(right))
+        return eval_pointer_difference(left, right, depth);
+
+    if (is_live_pointer(left))
+        return eval_pointer_offset(t, left, right, true, depth);
+
     tree ret = tree_make(T_INTEGER);
     mpz_init(tINT_VAL(ret));
 
@@ -2553,7 +2641,8 @@ static tree eval_array_access(tree t, int depth)
     tree array = __evaluate_1(tARR_ACCESS_OBJ(t), depth + 1),
         index = __evaluate_1(tARR_ACCESS_IDX(t), depth + 1),
         new_ptr, deref;
-    size_t idx, base_type_length;
+    size_t base_type_length;
+    ptrdiff_t idx;
     void *base;
 
     if (!is_T_LIVE_VAR(array))
@@ -2568,7 +2657,7 @@ static tree eval_array_access(tree t, int depth)
     if (!is_T_INTEGER(index))
         eval_die(index, "Unknown index type\n");
 
-    idx = mpz_get_ui(tINT_VAL(index));
+    idx = mpz_get_si(tINT_VAL(index));
 
     base = tLV_VAL(array)->D_T_PTR;
 
@@ -2578,7 +2667,7 @@ static tree eval_array_access(tree t, int depth)
     /* Calculate the offset into the array and make a pointer to point
      * to that offset. */
     new_ptr = make_live_var(tLV_TYPE(array));
-    tLV_VAL(new_ptr)->D_T_PTR = base + (base_type_length * idx);
+    tLV_VAL(new_ptr)->D_T_PTR = base + ((ptrdiff_t)base_type_length * idx);
 
     /* Dereference the pointer and return the result. */
     deref = tree_make(T_DEREF);
-- 
2.43.0


From 3fade17851c12c3025b1a0598a6280a6c03a147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 019/112] fix: align structures and pad their end as the C ABI
 does

---
 src/c.lang     |  1 +
 src/evaluate.c | 32 ++++++++++++++++----------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 34bd270..db5c48a 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -178,6 +178,7 @@
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
          ("ID" "DECLS"
                ("SZ" sz)
+               ("ALIGN" sz)
                ("EXPANDED" flag)
                ("TYPE"  comp_decl_type)))
 
diff --git a/src/evaluate.c b/src/evaluate.c
index cf3e457..014bea2 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2430,27 +2430,19 @@ static size_t get_alignment_for_type(tree t, int depth)
              * array's base type. */
             tree array_type = tDTPTR_EXP(tLV_TYPE(t));
 
-            alignment = get_size_of_type(array_type, depth);
+            alignment = get_alignment_for_type(array_type, depth);
         }
         else
             alignment = get_size_of_type(tLV_TYPE(t), depth);
         break;
     }
     case T_LIVE_COMPOUND:
-    {
-        tree first_member = NULL;
-
-        for_each_tree(first_member, tLV_COMP_MEMBERS(t))
-            break;
-
-        if (!first_member)
-            eval_die(t, "First member not found in live compound");
-
-        first_member = tEMAP_RIGHT(first_member);
-
-        alignment = get_alignment_for_type(first_member, depth);
-    }
-    break;
+        alignment = get_alignment_for_type(tLV_COMP_DECL(t), depth);
+        break;
+    case T_DECL_COMPOUND:
+        /* A compound is aligned as it's most strictly aligned member. */
+        alignment = tCOMP_DECL_ALIGN(t);
+        break;
     case D_T_CHAR...D_T_PTR:
         alignment = get_size_of_type(t, depth);
         break;
@@ -2465,7 +2457,7 @@ static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
-    size_t max_member_sz = 0;
+    size_t max_member_sz = 0, max_alignment = 1;
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -2538,6 +2530,9 @@ static tree eval_decl_compound(tree t, int depth)
         member_size = get_size_of_type(live_var, depth);
         member_alignment = get_alignment_for_type(live_var, depth);
 
+        if (member_alignment > max_alignment)
+            max_alignment = member_alignment;
+
         if (offset == 0)
             padding_size = 0;
         else
@@ -2561,6 +2556,11 @@ static tree eval_decl_compound(tree t, int depth)
     else
         tCOMP_DECL_SZ(t) = max_member_sz;
 
+    /* Pad the end of the compound so that each element of an array of them is
+     * aligned. */
+    tCOMP_DECL_SZ(t) += (~tCOMP_DECL_SZ(t) + 1) & (max_alignment - 1);
+    tCOMP_DECL_ALIGN(t) = max_alignment;
+
     tCOMP_DECL_EXPANDED(t) = 1;
 
     return t;
-- 
2.43.0


From 3281b74e699129cfdf0db53e84c0f34a6d155295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 020/112] fix: allow enumerators to be negative

---
 src/evaluate.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 014bea2..2b8dc12 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2569,7 +2569,7 @@ static tree eval_decl_compound(tree t, int depth)
 static tree eval_enumerator(tree t, int depth)
 {
     tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
-    unsigned int enum_val = 0;
+    long enum_val = 0;
 
     /* Handle the case where a perviously declared enum is referred to. */
     if (!tENUM_ENUMS(t))
@@ -2599,7 +2599,7 @@ static tree eval_enumerator(tree t, int depth)
                 convert_to_comparable_type(tASSIGN_RHS(enum_expr), depth);
 
             enum_id = tASSIGN_LHS(enum_expr);
-            enum_val = (unsigned int)mpz_get_ui(tINT_VAL(new_val));
+            enum_val = mpz_get_si(tINT_VAL(new_val));
 
             break;
         }
@@ -2607,7 +2607,11 @@ static tree eval_enumerator(tree t, int depth)
             eval_die(t, "Unknown enumerator expression\n");
         }
 
-        mpz_init_set_ui(tINT_VAL(integer), enum_val);
+        /* An enumeration with negative values needs a signed type. */
+        if (enum_val < 0)
+            TYPE(enum_base_type) = D_T_INT;
+
+        mpz_init_set_si(tINT_VAL(integer), enum_val);
         map_identifier(enum_id, integer);
         enum_val++;
     }
-- 
2.43.0


From f08ca95e6198fc018dbec0f7c016ea7874b9d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 021/112] fix: resolve enumerations as member types and in type
 names

---
 src/evaluate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 2b8dc12..1e0f199 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -702,7 +702,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type))
+    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type) ||
+        is_T_ENUMERATOR(decl_type))
         decl_type = __evaluate_1(decl_type, depth + 1);
 
     void *base = tLV_COMP_BASE(live_struct);
@@ -2744,7 +2745,8 @@ static tree eval_type_specifier(tree t, int depth)
     tree type =  resolve_decl_specs_to_type(tTYPE_SPECIFIER_SPECS(t)),
         decl = tTYPE_SPECIFIER_DECL(t);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type))
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
     while (is_T_POINTER(decl)) {
-- 
2.43.0


From c22a9436ee2e932952c6a9722f22403a843936e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 022/112] fix: lex octal, suffixed and escaped constants as C
 does

---
 src/lex.m4 | 133 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 95 insertions(+), 38 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index a35180a..0235b3d 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -25,6 +25,7 @@ static int linenum = 1;
 
 
 static char *sl_buf = NULL;
+static size_t sl_len = 0;
 CSCRIPT_ONLY
     extern void TARGET()_parser_set_file(const char *fname);
 
@@ -61,26 +62,32 @@ ALL_TARGETS
 
 static void sl_begin(void)
 {
-    if (!sl_buf)
-        sl_buf = malloc(1);
-
-    sl_buf[0] = '\0';
+    sl_len = 0;
 }
 
-static void sl_append_str(const char *s)
+/* Note that a string might contain null characters. */
+static void sl_append(const char *s, size_t len)
 {
-    char *old_sl_buf = sl_buf;
-    sl_buf = concat_strings(sl_buf, s);
-    free(old_sl_buf);
+    sl_buf = realloc(sl_buf, sl_len + len);
+    memcpy(&sl_buf[sl_len], s, len);
+    sl_len += len;
 }
 
 static void sl_append_char(char c)
 {
-    char *s = malloc(2);
-    s[0] = c;
-    s[1] = '\0';
-    sl_append_str(s);
-    free(s);
+    sl_append(&c, 1);
+}
+
+static char *sl_end(void)
+{
+    char *ret = malloc(sl_len + 1);
+
+    if (sl_len)
+        memcpy(ret, sl_buf, sl_len);
+
+    ret[sl_len] = '\0';
+
+    return ret;
 }
 
 static void  __attribute__((noreturn))lex_err(char *fmt, ...)
@@ -93,30 +100,82 @@ static void  __attribute__((noreturn))lex_err(char *fmt, ...)
     exit(EXIT_FAILURE);
 }
 
-static char lex_char(char *str)
+/* Obtain the character that an escape sequence denotes.  The string starts after
+ * the backslash.  Store where the escape sequence ends in *end. */
+static char lex_escape(char *str, char **end)
 {
-    size_t char_str_len = strlen(str);
+    char octal[4] = { 0 };
 
-    if (!(char_str_len == 3 || char_str_len == 4))
-       lex_err("character string %s does not contain three or four chars.\n",
-               str);
+    *end = &str[1];
 
-    if (str[0] != '\'')
-        lex_err("first char in char string %s is not a `'`.\n", str);
-
-    if (str[1] != ''\\')
-        return str[1];
-
-    switch (str[2]) {
+    switch (str[0]) {
+    case 'a':
+        return '\a';
+    case 'b':
+        return '\b';
+    case 'f':
+        return '\f';
     case 'n':
         return '\n';
-    case '\\':
-        return '\\';
     case 'r':
         return '\r';
-    default:
-        lex_err("Unknown char escapse sequence `%c'\n", str[2]);
+    case 't':
+        return '\t';
+    case 'v':
+        return '\v';
+    case '\\':
+    case '\'':
+    case '"':
+    case '?':
+        return str[0];
+    case 'x':
+        if (strspn(&str[1], "0123456789abcdefABCDEF") == 0)
+            break;
+
+        return strtol(&str[1], end, 16);
+    case '0' ... '7':
+        strncpy(octal, str, 3);
+        octal[strspn(octal, "01234567")] = 0;
+        *end = &str[strlen(octal)];
+
+        return strtol(octal, NULL, 8);
+    }
+
+    lex_err("bogus escape in '\\%s'\n", str);
+}
+
+static char lex_char(char *str)
+{
+    char ret, *end;
+
+    if (str[0] != '\'')
+        lex_err("first char in char string %s is not a quote.\n", str);
+
+    if (str[1] == '\\')
+        ret = lex_escape(&str[2], &end);
+    else {
+        ret = str[1];
+        end = &str[2];
     }
+
+    if (strcmp(end, "'") != 0)
+        lex_err("character string %s does not contain a single character.\n",
+                str);
+
+    return ret;
+}
+
+static void lex_integer(char *str, mpz_t val)
+{
+    char *digits = strdup(str);
+
+    /* Remove any suffix, the type of a constant has no bearing on the value. */
+    digits[strcspn(digits, "uUlL")] = 0;
+
+    if (mpz_init_set_str(val, digits, 0))
+        lex_err("invalid integer constant %s\n", str);
+
+    free(digits);
 }
 
 int TARGET()wrap(void) {
@@ -131,6 +190,7 @@ L                               [a-zA-Z_]
 D                               [0-9]
 W                               [\ \t]
 X                               [0-9A-Fa-f]
+IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 
 %x str_lit
 %x compound_start_cond
@@ -195,18 +255,15 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
-[0-9]+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 10); return INTEGER;
+[0-9]+{IS}?                     lex_integer(LEXTEXT, LEXLVAL.integer); return INTEGER;
 [0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
-0x{X}+                          mpz_init_set_str(LEXLVAL.integer, LEXTEXT, 0); return INTEGER;
+0[xX]{X}+{IS}?                  lex_integer(LEXTEXT, LEXLVAL.integer); return INTEGER;
 L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
 \"                              { BEGIN str_lit; sl_begin(); }
-<str_lit>[^\\"\n]*              { sl_append_str(strdup(LEXTEXT)); }
-<str_lit>\\n                    { sl_append_char('\n'); }
-<str_lit>\\t                    { sl_append_char('\t'); }
-<str_lit>\\[0-7]*               { sl_append_char(strtol(LEXTEXT+1, 0, 8)); }
-<str_lit>\\[\\"]                { sl_append_char(LEXTEXT[1]); }
-<str_lit>\"                     { LEXLVAL.string = strdup(sl_buf); BEGIN 0; return CONST_STRING; }
-<str_lit>\\.                    { lex_err("bogus escape '%s' in string\n", LEXTEXT); }
+<str_lit>[^\\"\n]*              { sl_append(LEXTEXT, strlen(LEXTEXT)); }
+<str_lit>\\([0-7]{1,3}|x{X}+|.) { char *end;
+                                  sl_append_char(lex_escape(LEXTEXT + 1, &end)); }
+<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
 <str_lit>\n                     { lex_err("newline in string\n"); }
 
 <INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
-- 
2.43.0


From e85af39aa8c9d313e540f76d306860f6927bea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 023/112] fix: reject unknown characters and reset the lexer at
 the end of the input

---
 src/lex.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index 0235b3d..efc3ee3 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -313,4 +313,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 
 "&&"                            return BOOL_OP_AND;
 "||"                            return BOOL_OP_OR;
+
+<INITIAL,compound_start_cond>.  return LEXTEXT[0]; /* Let the parser reject it. */
+<str_lit,compound_start_cond><<EOF>> { BEGIN 0; yyterminate(); }
 %%
-- 
2.43.0


From 2be754fa47c0cbebb496dd92f562e25a152f6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 024/112] fix: keep the file names of line markers

---
 src/lex.m4 | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index efc3ee3..b4d1ebe 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -48,15 +48,13 @@ CSCRIPT_ONLY
         /* Now the file name.
          *
          * Note that the filename is sourrounded by quotes. Remove that here.*/
-        s = strtok(NULL, " ");
+        s = strtok(NULL, "\"");
 
         if (!s)
             return;
 
-        s += 1;
-        s[strlen(s) - 1] = 0;
-
-        TARGET()_parser_set_file(s);
+        /* This has to outlive the buffer of the lexer. */
+        TARGET()_parser_set_file(strdup(s));
     }
 ALL_TARGETS
 
@@ -247,7 +245,7 @@ REPL_ONLY
 "`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
-"`#'"[ \t]*[0-9]+[ \t]*\"({L}|{D}|\-|\.|\/|<|>|\ )+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
+"`#'"[ \t]*[0-9]+[ \t]*\"[^\"\n]+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
-- 
2.43.0


From 795d42a5ed1befe07b44e32c001db5111a5bbaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 025/112] fix: round floating point constants to the nearest
 double

---
 src/evaluate.c      | 22 ++++++++++++++++++++--
 src/evaluate.h      |  1 +
 src/function-call.c |  2 +-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1e0f199..0b1d40b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1213,6 +1213,20 @@ static unsigned long int get_integer_bits(tree integer)
     return ret;
 }
 
+/* Obtain the value of a floating point constant.  This is the double that is
+ * nearest to it, whereas mpf_get_d truncates. */
+double get_float_value(tree t)
+{
+    double ret;
+    char *str;
+
+    gmp_asprintf(&str, "%.60Fe", tFLOAT_VAL(t));
+    ret = strtod(str, NULL);
+    free(str);
+
+    return ret;
+}
+
 /* Obtain the value of a live var of any arithmetic type. A long double can
  * represent all of these values exactly. */
 static long double get_live_var_real(tree var)
@@ -1260,7 +1274,7 @@ static void assign_integer(tree var, tree right)
          val = get_integer_bits(right);
          break;
     case T_FLOAT:
-        val = real_to_integer(mpf_get_d(tFLOAT_VAL(right)));
+        val = real_to_integer(get_float_value(right));
         break;
     case T_LIVE_VAR:
         switch (TYPE(tLV_TYPE(right))) {
@@ -1301,7 +1315,7 @@ static void assign_float(tree var, tree right)
             val = mpz_get_ui(tINT_VAL(right));
         break;
     case T_FLOAT:
-        val = (double)mpf_get_d(tFLOAT_VAL(right));
+        val = get_float_value(right);
         break;
     case T_LIVE_VAR:
         val = get_live_var_real(right);
@@ -3151,6 +3165,10 @@ static void eval_init_builtins(void)
 
 void eval_init(void)
 {
+    /* Enough to not have any influence on the rounding of a constant to a
+     * double. */
+    mpf_set_default_prec(256);
+
     push_ctx("Bultins");
     eval_init_builtins();
     push_ctx("Toplevel");
diff --git a/src/evaluate.h b/src/evaluate.h
index 2be051a..7737f0a 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+double get_float_value(tree t);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index 5e9df69..a3c158a 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -97,7 +97,7 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
             case T_FLOAT:
                 {
                     double *buf = alloca(sizeof(double));
-                    *buf = mpf_get_d(tFLOAT_VAL(arg));
+                    *buf = get_float_value(arg);
                     push_arg(types, vals, &n, &ffi_type_double, buf, should_promote);
                     break;
                 }
-- 
2.43.0


From 0027e5ce366e126454b3814b6ed0ac34d3a133ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 026/112] fix: accept the auto and register storage class
 specifiers

---
 src/c.lang | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index db5c48a..c313850 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -314,6 +314,8 @@
 (defspecifier :ignore T_EXTERN)
 (defspecifier :ignore T_TYPEDEF)
 (defspecifier :ignore T_STATIC)
+(defspecifier :ignore T_AUTO)
+(defspecifier :ignore T_REGISTER)
 (defspecifier :self T_IDENTIFIER)
 (defspecifier :self T_DECL_COMPOUND)
 (defspecifier :self T_ENUMERATOR)
-- 
2.43.0


From 9b51d635c623cb27c017a2ca24c8187ab44d1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 027/112] fix: describe an unsigned short as such

---
 src/c.lang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c.lang b/src/c.lang
index c313850..b12aac4 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -261,7 +261,7 @@
 (defctype D_T_LONG "signed long" "long" "ld" "ival" ffi_type_slong)
 (defctype D_T_LONGLONG "signed long long" "long long" "lld" "ival" ffi_type_slong)
 (defctype D_T_UCHAR "unsigned char" "unsigned char" "u" "ival" ffi_type_uchar)
-(defctype D_T_USHORT "signed short" "unsigned short" "hu" "ival" ffi_type_ushort)
+(defctype D_T_USHORT "unsigned short" "unsigned short" "hu" "ival" ffi_type_ushort)
 (defctype D_T_UINT "unsigned integer" "unsigned int" "u" "ival" ffi_type_uint)
 (defctype D_T_ULONG "unsigned long" "unsigned long" "lu" "ival" ffi_type_ulong)
 (defctype D_T_ULONGLONG "unsigned long long" "unsigned long long" "llu" "ival" ffi_type_ulong)
-- 
2.43.0


From bb2482146c10a3edb7acf65d26047d87e4797c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 028/112] fix: convert the arguments of a native call to its
 parameter types

---
 src/evaluate.c      | 175 ++++++++++++++++++++++++++++++--------------
 src/evaluate.h      |   2 +
 src/function-call.c |   8 +-
 3 files changed, 127 insertions(+), 58 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0b1d40b..5fdd540 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -407,6 +407,40 @@ static bool is_integer_ctype(tree type)
 
 static void assign_live_var(tree t, tree left, tree right);
 
+/* Find the type of a function's parameter. */
+tree get_parameter_type(tree decl)
+{
+    tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        declarator = tDECL_DECLS(decl);
+
+    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
+        is_T_ENUMERATOR(type))
+        type = __evaluate_1(type, 0);
+
+    resolve_ptr_type(&declarator, &type);
+
+    /* Functions and arrays are passed as pointers. */
+    if (is_T_FN(declarator) || is_T_ARRAY(declarator) || is_T_FN(type) ||
+        is_T_ARRAY_TYPE(type)) {
+        tree ptr = tree_make(D_T_PTR);
+        tree fn;
+
+        if (is_T_FN(declarator)) {
+            fn = alloc_copy_tree(declarator);
+            tFN_RET_TYPE(fn) = type;
+            type = fn;
+        }
+
+        if (is_T_ARRAY_TYPE(type))
+            type = tARRAY_TYPE_BASE_TYPE(type);
+
+        tDTPTR_EXP(ptr) = type;
+        type = ptr;
+    }
+
+    return type;
+}
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
@@ -423,6 +457,84 @@ static tree eval_fn_args(tree args, int depth)
     return ret;
 }
 
+/* Find the types of the parameters of a function, if they have been declared.
+ * The chain that is returned also contains a T_VARIADIC if the function has a
+ * variable number of arguments. */
+static tree get_parameter_types(tree function, int depth)
+{
+    tree decl, ret = tree_make(CHAIN_HEAD);
+
+    if (!tFN_ARGS(function))
+        return NULL;
+
+    for_each_tree(decl, tFN_ARGS(function)) {
+        tree param = tree_make(T_FN_ARG);
+
+        if (is_T_VARIADIC(decl))
+            tFNARG_EXP(param) = decl;
+        else if (is_T_DECL(decl))
+            tFNARG_EXP(param) = get_parameter_type(decl);
+        else
+            /* A list of identifiers, this doesn't declare any types. */
+            return NULL;
+
+        tree_chain(param, ret);
+    }
+
+    return ret;
+}
+
+/* Call a function that isn't defined in the script.  Each argument is converted
+ * to the type of the parameter, as an assignment would. */
+static tree call_native_function(tree t, tree function, void *address, int depth)
+{
+    tree args = eval_fn_args(tFNCALL_ARGS(t), depth),
+        types = get_parameter_types(function, depth),
+        arg, param, ret_lv = NULL;
+    int no_args = 0, no_params = 0;
+    bool is_variadic = false;
+
+    for_each_tree(arg, args)
+        no_args++;
+
+    for_each_tree(param, types) {
+        if (is_T_VARIADIC(tFNARG_EXP(param))) {
+            is_variadic = true;
+            break;
+        }
+
+        no_params++;
+    }
+
+    if (types && (no_args < no_params || (no_args > no_params && !is_variadic)))
+        eval_die(t, "Invalid number of parameters to function\n");
+
+    arg = args;
+
+    for_each_tree(param, types) {
+        tree lv, type = tFNARG_EXP(param);
+
+        if (is_T_VARIADIC(type))
+            break;
+
+        arg = list_entry(arg->chain.next, typeof(*arg), chain);
+
+        if (!is_CTYPE(type))
+            continue;
+
+        lv = make_live_var(type);
+        assign_live_var(t, lv, tFNARG_EXP(arg));
+        tFNARG_EXP(arg) = lv;
+    }
+
+    if (!is_D_T_VOID(tFN_RET_TYPE(function)))
+        ret_lv = make_live_var(tFN_RET_TYPE(function));
+
+    do_ext_call(address, args, ret_lv, is_variadic || !types ? &no_params : NULL);
+
+    return ret_lv;
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -557,48 +669,19 @@ static tree eval_fn_call(tree t, int depth)
 
             return return_val;
         } else {
-            tree fn_arg_chain = NULL, args = tFNCALL_ARGS(t);
             char *function_name = tID_STR(tFN_DECL(function));
-            tree i;
             void *function_address = dlsym(RTLD_DEFAULT, function_name);
-            bool is_variadic = false;
-            int variadic_pos = 0;
-            tree ret_lv = NULL;
 
             if (function_address == NULL)
                 eval_die(t, "Could not resolve external symbol: %s\n", function_name);
 
-
-            for_each_tree(i, tFN_ARGS(function)) {
-                if (is_T_VARIADIC(i)){
-                    is_variadic = true;
-                    break;
-                }
-
-                variadic_pos++;
-            }
-
-            /* Evaluate all arguments before passing into the marshalling
-             * function. */
-            fn_arg_chain = eval_fn_args(args, depth);
-
-            if (!is_D_T_VOID(tFN_RET_TYPE(function)))
-                ret_lv = make_live_var(tFN_RET_TYPE(function));
-
-            do_ext_call(function_address, fn_arg_chain, ret_lv,
-                        is_variadic ? &variadic_pos : NULL);
-
-            return ret_lv;
+            return call_native_function(t, function, function_address, depth);
         }
     }
 
     if (is_T_LIVE_VAR(function)) {
-        int variadic_pos = 0;
-        tree fn_arg_chain, args = tFNCALL_ARGS(t),
-            live_var_type = tLV_TYPE(function),
-            ret_lv = NULL,
-            function_type, i;
-        bool is_variadic = false;
+        tree live_var_type = tLV_TYPE(function),
+            function_type;
 
         if (!is_D_T_PTR(live_var_type))
             eval_die(t, "could not call non-pointer type\n");
@@ -608,26 +691,8 @@ static tree eval_fn_call(tree t, int depth)
         if (!is_T_FN(function_type))
             eval_die(t, "could not call non-function pointer type\n");
 
-        for_each_tree(i, tFN_ARGS(function_type)) {
-            if (is_T_VARIADIC(i)){
-                is_variadic = true;
-                break;
-            }
-
-            variadic_pos++;
-        }
-
-        if (!is_D_T_VOID(tFN_RET_TYPE(function_type)))
-            ret_lv = make_live_var(tFN_RET_TYPE(function_type));
-
-        /* Evaluate all arguments before passing into the marshalling
-         * function. */
-        fn_arg_chain = eval_fn_args(args, depth);
-
-        do_ext_call(tLV_VAL(function)->D_T_PTR, fn_arg_chain, ret_lv,
-                    is_variadic ? &variadic_pos : NULL);
-
-        return ret_lv;
+        return call_native_function(t, function_type,
+                                    tLV_VAL(function)->D_T_PTR, depth);
     }
 
     if (is_T_BUILTIN(function)) {
@@ -1200,7 +1265,7 @@ static tree eval_decl(tree t, int depth)
 
 /* Obtain the value of an integer modulo 2^64, i.e. as much of it as can be
  * stored in an object of any integer type. */
-static unsigned long int get_integer_bits(tree integer)
+unsigned long int get_integer_bits(tree integer)
 {
     unsigned long int ret;
     mpz_t bits;
@@ -1349,10 +1414,10 @@ static void assign_ptr(tree var, tree right)
         ptr = track_alloc(strdup(tSTRING_VAL(right)));
         break;
     case T_LIVE_VAR:
-        ptr = (void *)tLV_VAL(right)->D_T_PTR;
+        ptr = (void *)get_integer_bits(make_int_from_live_var(right));
         break;
     case T_INTEGER:
-        ptr = (void *)mpz_get_ui(tINT_VAL(right));
+        ptr = (void *)get_integer_bits(right);
         break;
     default:
         eval_die(right, "Could not assign to non-pointer type");
diff --git a/src/evaluate.h b/src/evaluate.h
index 7737f0a..c2b6dd4 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,7 +17,9 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+tree get_parameter_type(tree decl);
 double get_float_value(tree t);
+unsigned long int get_integer_bits(tree integer);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
diff --git a/src/function-call.c b/src/function-call.c
index a3c158a..387d5d9 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -89,9 +89,11 @@ void do_ext_call(void *function_address, tree args, tree ret_lv,
                 break;
             case T_INTEGER:
                 {
-                    int *buf = alloca(sizeof(int));
-                    *buf = mpz_get_si(tINT_VAL(arg));
-                    push_arg(types, vals, &n, &ffi_type_sint, buf, should_promote);
+                    /* We don't know what the parameter's type is. Pass enough
+                     * for any integer type. */
+                    unsigned long *buf = alloca(sizeof(*buf));
+                    *buf = get_integer_bits(arg);
+                    push_arg(types, vals, &n, &ffi_type_ulong, buf, should_promote);
                     break;
                 }
             case T_FLOAT:
-- 
2.43.0


From 162d6e665229ec09db64eb70cdad1e662a48412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 029/112] fix: let functions decay to pointers when they're
 used as values

---
 src/evaluate.c | 48 +++++++++++++++++++++++++++++++++++++-----------
 src/evaluate.h |  1 +
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5fdd540..3019ce6 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -355,9 +355,24 @@ static tree make_int_from_live_var(tree var)
     return ret;
 }
 
+static tree handle_addr_fn_def(tree fndef);
+static tree eval_ext_func(tree t, int depth);
+
+/* A function that is used as a value is a pointer to the function. */
+static tree decay_function(tree t, int depth)
+{
+    if (is_T_FN(t))
+        return handle_addr_fn_def(t);
+
+    if (is_T_EXT_FUNC(t))
+        return eval_ext_func(t, depth);
+
+    return t;
+}
+
 static tree convert_to_comparable_type(tree t, int depth)
 {
-    tree evaluated = __evaluate_1(t, depth + 1),
+    tree evaluated = decay_function(__evaluate_1(t, depth + 1), depth),
         ret;
 
     switch (TYPE(evaluated)) {
@@ -405,8 +420,6 @@ static bool is_integer_ctype(tree type)
     }
 }
 
-static void assign_live_var(tree t, tree left, tree right);
-
 /* Find the type of a function's parameter. */
 tree get_parameter_type(tree decl)
 {
@@ -450,7 +463,7 @@ static tree eval_fn_args(tree args, int depth)
 
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
-        tFNARG_EXP(fn_arg) = __evaluate_1(arg, depth + 1);
+        tFNARG_EXP(fn_arg) = decay_function(__evaluate_1(arg, depth + 1), depth);
         tree_chain(fn_arg, ret);
     }
 
@@ -1427,7 +1440,7 @@ static void assign_ptr(tree var, tree right)
 }
 
 /* Store a value in a live var, converting it to the live var's type. */
-static void assign_live_var(tree t, tree left, tree right)
+void assign_live_var(tree t, tree left, tree right)
 {
     switch (TYPE(tLV_TYPE(left))) {
     case D_T_CHAR ... D_T_ULONGLONG:
@@ -1476,7 +1489,7 @@ static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
     tree rhs = bind_compound_assignment(tASSIGN_RHS(t), tASSIGN_LHS(t), left);
-    tree right = __evaluate_1(rhs, depth + 1);
+    tree right = decay_function(__evaluate_1(rhs, depth + 1), depth);
 
     /* Ensure we have a valid lvalue. */
     if (!is_T_LIVE_VAR(left))
@@ -2202,7 +2215,7 @@ out:
 
 static tree eval_cast(tree t, int depth)
 {
-    tree source = __evaluate_1(tCAST_EXP(t), depth + 1),
+    tree source = decay_function(__evaluate_1(tCAST_EXP(t), depth + 1), depth),
         dest_type = __evaluate_1(tCAST_NEWTYPE(t), depth + 1),
         ret;
 
@@ -2441,7 +2454,7 @@ static tree eval_return(tree t, int depth)
     tree ret = tree_make(T_RETURN);
 
     tLOCUS(ret) = tLOCUS(t);
-    tRET_EXP(ret) = __evaluate_1(tRET_EXP(t), depth + 1);
+    tRET_EXP(ret) = decay_function(__evaluate_1(tRET_EXP(t), depth + 1), depth);
 
     return ret;
 }
@@ -2842,12 +2855,20 @@ static tree handle_addr_fn_def(tree fndef)
 {
     tree ptr_type = tree_make(D_T_PTR),
         live_var;
+    void *addr = NULL;
 
     tDTPTR_EXP(ptr_type) = fndef;
 
     live_var = make_live_var(ptr_type);
 
-    tLV_VAL(live_var)->D_T_PTR = get_entry_point_for_fn(fndef);
+    /* A function that isn't defined in the script. */
+    if (!tFN_STMTS(fndef) && is_T_IDENTIFIER(tFN_DECL(fndef)))
+        addr = dlsym(RTLD_DEFAULT, tID_STR(tFN_DECL(fndef)));
+
+    if (!addr)
+        addr = get_entry_point_for_fn(fndef);
+
+    tLV_VAL(live_var)->D_T_PTR = addr;
 
     return live_var;
 }
@@ -2869,8 +2890,8 @@ static tree eval_addr(tree t, int depth)
 
     void *addr;
 
-    if (is_T_FN(exp))
-        return handle_addr_fn_def(exp);
+    if (is_T_FN(exp) || is_T_EXT_FUNC(exp))
+        return decay_function(exp, depth);
 
     if (!is_LIVE(exp))
         eval_die(t, "attempted to take address of non-live variable.\n");
@@ -2912,6 +2933,11 @@ static tree eval_deref(tree t, int depth)
 
     new_type = tDTPTR_EXP(tLV_TYPE(exp));
 
+    /* Dereferencing a pointer to a function results in the function, which in
+     * turn is only ever used as a pointer. */
+    if (is_T_FN(new_type))
+        return exp;
+
     if (is_T_DECL_COMPOUND(new_type))
         return instantiate_struct(new_type, depth,
                                   tLV_VAL(exp)->D_T_PTR);
diff --git a/src/evaluate.h b/src/evaluate.h
index c2b6dd4..fffe0da 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -20,6 +20,7 @@ tree make_live_var(tree type);
 tree get_parameter_type(tree decl);
 double get_float_value(tree t);
 unsigned long int get_integer_bits(tree integer);
+void assign_live_var(tree t, tree left, tree right);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
 tree evaluate_expr(tree t);
-- 
2.43.0


From 14bca3e19aaafdb7eaf01bfae1d1f7cf988a022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 030/112] fix: deliver the return value of functions that are
 called from native code

---
 src/c.lang          |  3 ++-
 src/evaluate.c      |  2 +-
 src/evaluate.h      |  1 +
 src/function-call.c | 57 ++++++++++++++++++++++++++++++++++-----------
 4 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index b12aac4..479f905 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -195,7 +195,8 @@
          ("ARG_TYPES" "RET_TYPE" "FN"
           ("CIF" ffi_cif)
           ("TYPES" ffi_types)
-          ("CLOSURE" ffi_closure)))
+          ("CLOSURE" ffi_closure)
+          ("ENTRY_POINT" ptr)))
 
 (deftype T_FN_ARG "Function Argument" "tFNARG"
          ("EXP"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 3019ce6..70dd803 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -321,7 +321,7 @@ tree make_live_var(tree type)
     return live_var;
 }
 
-static tree make_int_from_live_var(tree var)
+tree make_int_from_live_var(tree var)
 {
     tree ret = tree_make(T_INTEGER);
     tree type = tLV_TYPE(var);
diff --git a/src/evaluate.h b/src/evaluate.h
index fffe0da..81b8607 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -17,6 +17,7 @@ const tree get_include_chain(void);
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...);
 tree find_global_identifiers(const char *prefix);
 tree make_live_var(tree type);
+tree make_int_from_live_var(tree var);
 tree get_parameter_type(tree decl);
 double get_float_value(tree t);
 unsigned long int get_integer_bits(tree integer);
diff --git a/src/function-call.c b/src/function-call.c
index 387d5d9..3a55499 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -12,6 +12,11 @@
 
 #define ARG_STACK_SZ 32
 
+/* All closures that have been created.  There's no telling how long the entry
+ * point of a closure is used for, so these are never collected. */
+static tree closures = NULL;
+GC_STATIC_TREE(closures);
+
 static void push_arg(ffi_type **type_stack,
                      void **val_stack,
                      int *n,
@@ -130,6 +135,8 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tree closure = (tree)user;
     tree arg,
         args = tCLOSURE_ARG_TYPES(closure),
+        ret_type = tCLOSURE_RET_TYPE(closure),
+        result, ret_lv,
         arg_chain = tree_make(CHAIN_HEAD),
         fn_call = tree_make(T_FN_CALL);
     int n = 0;
@@ -156,7 +163,26 @@ static void closure_entry(ffi_cif *cif, void *ret, void **ffi_args, void *user)
     tFNCALL_ID(fn_call) = tCLOSURE_FN(closure);
     tFNCALL_ARGS(fn_call) = arg_chain;
 
-    evaluate(fn_call, "<PTRCALL>");
+    result = evaluate_expr(fn_call);
+
+    if (is_D_T_VOID(ret_type))
+        return;
+
+    /* Convert the value to the return type. libffi expects all integers that
+     * are narrower than a register to be widened. */
+    ret_lv = make_live_var(ret_type);
+    memset(tLV_VAL(ret_lv), 0, sizeof(*tLV_VAL(ret_lv)));
+
+    if (result)
+        assign_live_var(fn_call, ret_lv, result);
+
+    switch (TYPE(ret_type)) {
+    case D_T_FLOAT ... D_T_LONGDOUBLE:
+        memcpy(ret, tLV_VAL(ret_lv), cif->rtype->size);
+        break;
+    default:
+        *(ffi_arg *)ret = get_integer_bits(make_int_from_live_var(ret_lv));
+    }
 }
 
 void *get_entry_point_for_fn(tree fndef)
@@ -165,28 +191,26 @@ void *get_entry_point_for_fn(tree fndef)
     tree arg, args = tFN_ARGS(fndef),
         ret_type = tFN_RET_TYPE(fndef);
     tree arg_chain = tree_make(CHAIN_HEAD),
-        closure = tree_make(T_CLOSURE);
+        closure;
     ffi_type *ffi_ret_type = &ffi_type_void;
-    tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
-    tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
 
     int n = 0;
 
+    for_each_tree(closure, closures)
+        if (tCLOSURE_FN(closure) == fndef)
+            return tCLOSURE_ENTRY_POINT(closure);
+
+    closure = tree_make(T_CLOSURE);
+    tCLOSURE_CIF(closure) = malloc(sizeof(*tCLOSURE_CIF(closure)));
+    tCLOSURE_TYPES(closure) = calloc(sizeof(*tCLOSURE_TYPES(closure)), ARG_STACK_SZ);
+
     for_each_tree(arg, args) {
         tree arg_type;
-        tree declarator;
 
         if (!is_T_DECL(arg))
             eval_die(arg, "Unknown type arg chain, expecting decl");
 
-        arg_type = resolve_decl_specs_to_type(tDECL_SPECS(arg));
-        declarator = tDECL_DECLS(arg);
-
-        if (is_T_POINTER(tDECL_DECLS(arg)))
-            resolve_ptr_type(&declarator, &arg_type);
-
-        if (!is_T_IDENTIFIER(declarator))
-            eval_die(arg, "Unknown declarator type in closure allocation");
+        arg_type = get_parameter_type(arg);
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
         tree_chain(arg_type, arg_chain);
@@ -213,5 +237,12 @@ void *get_entry_point_for_fn(tree fndef)
                          (void *)closure,
                          ret);
 
+    tCLOSURE_ENTRY_POINT(closure) = ret;
+
+    if (!closures)
+        closures = tree_make(CHAIN_HEAD);
+
+    tree_chain(closure, closures);
+
     return ret;
 }
-- 
2.43.0


From 798a9cec7591d1401cb9f8d93d364d56a529a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 031/112] fix: don't put a type into two chains

---
 src/function-call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function-call.c b/src/function-call.c
index 3a55499..88af4dc 100644
--- a/src/function-call.c
+++ b/src/function-call.c
@@ -213,7 +213,7 @@ void *get_entry_point_for_fn(tree fndef)
         arg_type = get_parameter_type(arg);
 
         tCLOSURE_TYPES(closure)[n++] = get_ffi_type(TYPE(arg_type));
-        tree_chain(arg_type, arg_chain);
+        tree_chain(alloc_copy_tree(arg_type), arg_chain);
 
         if (n >= ARG_STACK_SZ)
             eval_die(fndef, "Argument stack size exceeded");
-- 
2.43.0


From 52c87e78a35f4c47e83fab3e54dd3f1676043c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 032/112] fix: don't access the GC's allocation array out of
 its bounds

---
 src/gc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 3498258..87eb437 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -134,10 +134,8 @@ static void fixup_alloc_array()
 
     /* Run the alloc pointer backward to see when the first allocation
      * is. */
-    while (alloc_ptr > 0 && !allocs[alloc_ptr])
+    while (alloc_ptr > 0 && !allocs[alloc_ptr - 1])
         alloc_ptr--;
-
-    alloc_ptr++;
 }
 
 static void collect(void)
@@ -172,7 +170,8 @@ static void extend_allocs()
     alloc_array_sz *= 2;
 
     allocs = realloc(allocs, sizeof(*allocs) * alloc_array_sz);
-    memset(&allocs[old_alloc_array_sz], 0, old_alloc_array_sz);
+    memset(&allocs[old_alloc_array_sz], 0,
+           sizeof(*allocs) * (alloc_array_sz - old_alloc_array_sz));
 }
 
 static void track_new_alloc(gc_obj obj)
-- 
2.43.0


From 67762a8ee6a552bf99b04679502eae241bcbf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 033/112] fix: keep string literals for the lifetime of the
 program

---
 src/evaluate.c | 2 +-
 src/gc.c       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 70dd803..a00c719 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1424,7 +1424,7 @@ static void assign_ptr(tree var, tree right)
     switch (TYPE(right))
     {
     case T_STRING:
-        ptr = track_alloc(strdup(tSTRING_VAL(right)));
+        ptr = tSTRING_VAL(right);
         break;
     case T_LIVE_VAR:
         ptr = (void *)get_integer_bits(make_int_from_live_var(right));
diff --git a/src/gc.c b/src/gc.c
index 87eb437..4c8befb 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -96,7 +96,8 @@ static void dealloc_object(gc_obj obj)
         free(tID_STR(t));
         break;
     case T_STRING:
-        free(tSTRING_VAL(t));
+        /* A string literal exists for the rest of the program, pointers to it
+         * may outlive the expression that contains it. */
         break;
     case E_ALLOC:
         free(tALLOC_PTR(t));
-- 
2.43.0


From 76cff95b89c99c649a7bf256222537301d668ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 034/112] fix: allow functions that return a pointer to be
 defined

---
 src/evaluate.c | 10 +++++++++-
 src/parser.m4  | 19 +++++++++++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index a00c719..315afb7 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1198,6 +1198,14 @@ static tree handle_forward_decl(tree type)
     return id;
 }
 
+static bool is_function_definition(tree declarator)
+{
+    while (is_T_POINTER(declarator))
+        declarator = tPTR_EXP(declarator);
+
+    return is_T_FN(declarator) && tFN_STMTS(declarator);
+}
+
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
   tree decls = tDECL_DECLS(decl), i, ret = NULL;
@@ -1206,7 +1214,7 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
    * `static' functions have no real meaning in bic. */
   if (is_CHAIN_HEAD(decls))
       for_each_tree(i, decls)
-          if (is_T_FN(i) && tFN_STMTS(i))
+          if (is_function_definition(i))
               return handle_declarator(i, base_type, depth + 1);
 
   /* This function will be called the very first time this static
diff --git a/src/parser.m4 b/src/parser.m4
index 7fd8fed..2f73482 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -103,6 +103,21 @@ static tree handle_void_parameters(tree params)
 }
 
 CSCRIPT_ONLY
+    /* Find the function within the declarator of a function definition. The
+     * function might return a pointer. */
+    static tree get_function_declarator(tree declarator)
+    {
+        while (is_T_POINTER(declarator))
+            declarator = tPTR_EXP(declarator);
+
+        if (!is_T_FN(declarator)) {
+            TARGET()error("function body without a function declarator");
+            exit(1);
+        }
+
+        return declarator;
+    }
+
     void TARGET()_parser_set_file(const char *fname)
     {
         TARGET()_current_file = fname;
@@ -1635,7 +1650,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $4;
+        tFN_STMTS(get_function_declarator($2)) = $4;
         set_locus(decl, @2);
         $$ = decl;
     }
@@ -1644,7 +1659,7 @@ CSCRIPT_ONLY
         tree decl = tree_make(T_DECL);
         tDECL_SPECS(decl) = $1;
         tDECL_DECLS(decl) = tree_chain_head($2);
-        tFN_STMTS($2) = $3;
+        tFN_STMTS(get_function_declarator($2)) = $3;
         set_locus(decl, @2);
         $$ = decl;
     }
-- 
2.43.0


From 099e61e5e61994088f2df8835b235399141f213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 035/112] fix: don't change an initialised declaration when
 it's evaluated

---
 src/evaluate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 315afb7..5efeb5b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -940,13 +940,17 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return NULL;
     case T_ASSIGN:
     {
-        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth);
+        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth),
+            assign = tree_make(T_ASSIGN);
 
         /* handle_declarator will have stripped off any pointers from the decl name.
-         * Therefore ret now becomes the LHS of the assignment. */
-        tASSIGN_LHS(decl) = ret;
+         * Therefore ret now becomes the LHS of the assignment. Don't change the
+         * declaration itself since it might be evaluated again. */
+        tASSIGN_LHS(assign) = ret;
+        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+        tLOCUS(assign) = tLOCUS(decl);
 
-        __evaluate_1(decl, depth + 1);
+        __evaluate_1(assign, depth + 1);
         return ret;
     }
     default:
-- 
2.43.0


From 4e80936ff4cc1b27d5f3ace8c6d5ef750f99f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 036/112] fix: diagnose void values, missing members and
 unsupported initialisers instead of crashing

---
 src/evaluate.c | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5efeb5b..482e922 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -375,6 +375,9 @@ static tree convert_to_comparable_type(tree t, int depth)
     tree evaluated = decay_function(__evaluate_1(t, depth + 1), depth),
         ret;
 
+    if (!evaluated)
+        eval_die(t, "Void value can't be used in an expression\n");
+
     switch (TYPE(evaluated)) {
     case T_INTEGER:
         ret = evaluated;
@@ -713,7 +716,7 @@ static tree eval_fn_call(tree t, int depth)
         return handler(tFNCALL_ARGS(t));
     }
 
-    return NULL;
+    eval_die(t, "Called object is not a function\n");
 }
 
 static void make_and_map_live_var(tree id, tree type)
@@ -1429,6 +1432,11 @@ static void assign_float(tree var, tree right)
     }
 }
 
+static bool is_char_type(tree type)
+{
+    return is_D_T_CHAR(type) || is_D_T_UCHAR(type);
+}
+
 static void assign_ptr(tree var, tree right)
 {
     void *ptr;
@@ -1497,6 +1505,16 @@ static tree bind_compound_assignment(tree op, tree lhs, tree left)
     }
 }
 
+/* The only thing that an array can be assigned is the string constant that
+ * initialises it. */
+static void assign_array(tree t, tree left, tree right)
+{
+    if (!is_T_STRING(right) || !is_char_type(tDTPTR_EXP(tLV_TYPE(left))))
+        eval_die(t, "Can not assign to an array\n");
+
+    strncpy(tLV_VAL(left)->D_T_PTR, tSTRING_VAL(right), tLV_ARRAY_SZ(left));
+}
+
 static tree eval_assign(tree t, int depth)
 {
     tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
@@ -1507,6 +1525,14 @@ static tree eval_assign(tree t, int depth)
     if (!is_T_LIVE_VAR(left))
         eval_die(t, "Not a valid lvalue.\n");
 
+    if (!right)
+        eval_die(t, "Void value or unsupported initialiser can't be assigned\n");
+
+    if (tLV_IS_ARRAY(left)) {
+        assign_array(t, left, right);
+        return left;
+    }
+
     assign_live_var(t, left, right);
 
     /* Return the value that was assigned, thereby making an assignment work as
@@ -2727,7 +2753,7 @@ static tree eval_enumerator(tree t, int depth)
 static tree eval_comp_access(tree t, int depth)
 {
     tree left = __evaluate_1(tCOMP_ACCESS_OBJ(t), depth + 1),
-        id = tCOMP_ACCESS_MEMBER(t);
+        id = tCOMP_ACCESS_MEMBER(t), member;
 
     if (!is_T_LIVE_COMPOUND(left))
         eval_die(t, "Unknown compound type in compound access\n");
@@ -2735,7 +2761,12 @@ static tree eval_comp_access(tree t, int depth)
     if (!is_T_IDENTIFIER(id))
         eval_die(t, "Unknown accessor in compound access\n");
 
-    return __resolve_id(id, tLV_COMP_MEMBERS(left));
+    member = __resolve_id(id, tLV_COMP_MEMBERS(left));
+
+    if (!member)
+        eval_die(t, "Compound doesn't have a member called %s\n", tID_STR(id));
+
+    return member;
 }
 
 static tree eval_repl(tree t, int depth)
@@ -3191,7 +3222,13 @@ static tree __evaluate(tree head, int depth)
 int get_c_main_return_value(tree t)
 {
     int ret;
-    tree retnum = convert_to_comparable_type(t, 0);
+    tree retnum;
+
+    /* Nothing was returned. */
+    if (!t)
+        return 0;
+
+    retnum = convert_to_comparable_type(t, 0);
 
     if (!is_T_INTEGER(retnum))
         return 1;
-- 
2.43.0


From 5c45739ac3ebb4029544b5fe46d8fc71cbb3b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 037/112] fix: diagnose divisions by zero and incomplete types
 instead of crashing

---
 src/evaluate.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 482e922..fc8215d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -467,6 +467,10 @@ static tree eval_fn_args(tree args, int depth)
     for_each_tree(arg, args) {
         tree fn_arg = tree_make(T_FN_ARG);
         tFNARG_EXP(fn_arg) = decay_function(__evaluate_1(arg, depth + 1), depth);
+
+        if (!tFNARG_EXP(fn_arg))
+            eval_die(arg, "Void value can't be used as an argument\n");
+
         tree_chain(fn_arg, ret);
     }
 
@@ -838,7 +842,8 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 {
     tree i, live_struct = tree_make(T_LIVE_COMPOUND);
 
-    assert(tCOMP_DECL_EXPANDED(struct_decl));
+    if (!tCOMP_DECL_EXPANDED(struct_decl))
+        eval_die(struct_decl, "Can not create incomplete compound type\n");
 
     tLV_COMP_DECL(live_struct) = struct_decl;
     tLV_COMP_BASE(live_struct) = base;
@@ -1980,6 +1985,9 @@ static tree eval_div(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not subtract to non integer type\n");
 
+    if (mpz_sgn(tINT_VAL(right)) == 0)
+        eval_die(t, "Division by zero\n");
+
     mpz_tdiv_q(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
@@ -2002,6 +2010,9 @@ static tree eval_mod(tree t, int depth)
     if (!(is_T_INTEGER(left) && is_T_INTEGER(right)))
         eval_die(t, "Could not modulus to non integer type\n");
 
+    if (mpz_sgn(tINT_VAL(right)) == 0)
+        eval_die(t, "Division by zero\n");
+
     mpz_tdiv_r(tINT_VAL(ret), tINT_VAL(left), tINT_VAL(right));
 
     return ret;
@@ -2795,7 +2806,7 @@ static tree eval_array_access(tree t, int depth)
         index = make_int_from_live_var(index);
 
     if (!is_T_INTEGER(index))
-        eval_die(index, "Unknown index type\n");
+        eval_die(t, "Unknown index type\n");
 
     idx = mpz_get_si(tINT_VAL(index));
 
@@ -2867,7 +2878,9 @@ static tree eval_sizeof(tree t, int depth)
     }
 
     if (is_T_DECL_COMPOUND(type)) {
-        assert(tCOMP_DECL_EXPANDED(type));
+        if (!tCOMP_DECL_EXPANDED(type))
+            eval_die(t, "Can not calculate size of incomplete compound type\n");
+
         tLV_VAL(ret)->D_T_ULONG = tCOMP_DECL_SZ(type);
         return ret;
     }
-- 
2.43.0


From dde7b040fbe9f5ff3a0cc4c69567584056b6015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 038/112] fix: report the file that an error is in, on stderr

---
 src/evaluate.c | 13 +++++++++++--
 src/parser.m4  |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index fc8215d..dcbec59 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -103,20 +103,29 @@ static void ctx_backtrace(void)
     tree ctx = cur_ctx;
 
     while (ctx) {
-        puts(tID_STR(tECTX_NAME(ctx)));
+        fprintf(stderr, "%s\n", tID_STR(tECTX_NAME(ctx)));
         ctx = tECTX_PARENT_CTX(ctx);
     }
 }
 
 void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
-    fprintf(stderr, "%s:%zu:%zu: error: ", current_filename, t->locus.line_no,
+    const char *file = current_filename ? current_filename : "<REPL>";
+
+    /* The error isn't necessarily in the file that is being executed. */
+    if (t->locus.file)
+        file = tID_STR(t->locus.file);
+
+    fprintf(stderr, "%s:%zu:%zu: error: ", file, t->locus.line_no,
             t->locus.column_no);
     va_list args;
     va_start(args, format);
     vfprintf(stderr, format, args);
     va_end(args);
 
+    if (format[strlen(format) - 1] != '\n')
+        fputc('\n', stderr);
+
     ctx_backtrace();
 
     exit(EXIT_FAILURE);
diff --git a/src/parser.m4 b/src/parser.m4
index 2f73482..e9e7f9f 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -691,6 +691,7 @@ expression
 {
     tree expression_list = tree_make(T_EXPR_LIST);
     tEXPR_LIST_CHAIN(expression_list) = tree_chain_head($1);
+    set_locus(expression_list, @1);
     $$ = expression_list;
 }
 | expression ',' assignment_expression
@@ -723,6 +724,7 @@ declaration_specifiers
 : declaration_specifier
 {
     $$ = tree_chain_head($1);
+    set_locus($$, @1);
 }
 | declaration_specifiers declaration_specifier
 {
-- 
2.43.0


From 3a7e45671f2ad72cfeb5c95ecb52552afab27b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 039/112] fix: main's return value is the exit status of a
 script

---
 src/cscript.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 52310a5..93cd7f6 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -105,7 +105,7 @@ static void create_arguments(int argc, char *argv[])
     evaluate(chain, "<COMPOSE ARGS>");
 }
 
-static void add_call_to_main(tree head, int num_args)
+static tree make_call_to_main(int num_args)
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
@@ -121,11 +121,11 @@ static void add_call_to_main(tree head, int num_args)
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
 
-    tree_chain(main_fncall, head);
+    return main_fncall;
 }
 
-static void __evaluate_cscript(tree head, const char *fname, int argc,
-                               char* argv[])
+static int __evaluate_cscript(tree head, const char *fname, int argc,
+                              char* argv[])
 {
     /* Figure out how to execute the cscript:
      *
@@ -179,10 +179,14 @@ static void __evaluate_cscript(tree head, const char *fname, int argc,
 
     create_arguments(argc, argv);
 
+    evaluate(head, fname);
+
+    /* The value returned by main() is the script's exit status. */
     if (has_main)
-        add_call_to_main(head, num_main_args);
+        return get_c_main_return_value(
+            evaluate_expr(make_call_to_main(num_main_args)));
 
-    evaluate(head, fname);
+    return 0;
 }
 
 void cscript_exit(tree result)
@@ -213,7 +217,5 @@ int evaluate_cscript(const char *script_name,
       exit(0);
   }
 
-  __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
-
-  return 0;
+  return __evaluate_cscript(cscript_parse_head, script_name, argc, argv);
 }
-- 
2.43.0


From 148e613e8d66e3b92df707c4e77a9541ba52f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 040/112] fix: -I directories apply to the headers that a
 script includes

---
 src/cscript.c    |  8 ++++++--
 src/preprocess.c | 43 ++++++++++++++++++++++++++-----------------
 src/preprocess.h |  1 +
 3 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 93cd7f6..4802c6d 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -3,6 +3,7 @@
 #include "cscriptparser.h"
 #include "evaluate.h"
 #include "gc.h"
+#include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
 #include <string.h>
@@ -28,9 +29,12 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command;
+    char *command, *include_dir_opts = preprocessor_include_dir_opts();
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " \"%s\"", fname);
+    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"",
+             include_dir_opts, fname);
+
+    free(include_dir_opts);
 
     if (!command) {
         fprintf(stderr, "Error: could not allocate preprocessor command.\n");
diff --git a/src/preprocess.c b/src/preprocess.c
index 328c785..119393c 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -10,6 +10,31 @@
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
 
+/* Return the preprocessor options for each directory that has been added by
+ * `preprocessor_add_include_dir'. */
+char *preprocessor_include_dir_opts(void)
+{
+    size_t include_len = 0;
+    char *opts;
+    tree i;
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs)
+            include_len += strlen(tSTRING_VAL(i)) + 6;
+
+    opts = malloc(include_len + 1);
+    opts[0] = '\0';
+
+    if (include_dirs)
+        for_each_tree(i, include_dirs) {
+            strcat(opts, " -I \"");
+            strcat(opts, tSTRING_VAL(i));
+            strcat(opts, "\"");
+        }
+
+    return opts;
+}
+
 FILE *run_cpp(tree include_chain, char *opts, char *line)
 {
   char cpp_file_name[] = "/tmp/bic.cpp.XXXXXX.c";
@@ -51,23 +76,7 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   close(cpp_file_fd);
 
-  if (include_dirs) {
-      size_t include_len = 0;
-
-      for_each_tree(i, include_dirs)
-          include_len += strlen(tSTRING_VAL(i)) + 4;
-
-      include_dir_opts = malloc(include_len + 1);
-      include_dir_opts[0] = '\0';
-
-      for_each_tree(i, include_dirs) {
-          strcat(include_dir_opts, " -I ");
-          strcat(include_dir_opts, tSTRING_VAL(i));
-      }
-  } else {
-      include_dir_opts = malloc(1);
-      include_dir_opts[0] = '\0';
-  }
+  include_dir_opts = preprocessor_include_dir_opts();
 
   ret = asprintf(&command, "gcc %s %s %s > %s", opts, include_dir_opts,
           cpp_file_name, out_file_name);
diff --git a/src/preprocess.h b/src/preprocess.h
index a6050a9..b60e3ad 100644
--- a/src/preprocess.h
+++ b/src/preprocess.h
@@ -1,2 +1,3 @@
 FILE *run_cpp(tree include_chain, char *opts, char *line);
 void preprocessor_add_include_dir(char *dir);
+char *preprocessor_include_dir_opts(void);
-- 
2.43.0


From b81b251b8c092fd74ba83513f6d8f517cd24faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 041/112] fix: do not run a script that could not be
 preprocessed

---
 src/cscript.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cscript.c b/src/cscript.c
index 4802c6d..f632958 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -55,7 +55,10 @@ static int parse_cscript(const char *fname)
     parse_result = cscriptparse();
     enable_gc();
 
-    fclose(f);
+    /* If the preprocessor couldn't process the file, whatever we have parsed
+     * isn't the program that was written. It has already said why. */
+    if (pclose(f) != 0)
+        return 1;
 
     return parse_result;
 }
-- 
2.43.0


From 34752aa45e0e075365369d786cd6f1f8b82033ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 042/112] fix: argv is terminated by a null pointer

---
 src/cscript.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index f632958..24f6acf 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -81,31 +81,33 @@ static void create_arguments(int argc, char *argv[])
 
     chain = tree_chain_head(argc_decl);
 
-    /* char *argv[n]; */
+    /* char *argv[n + 1]; */
     tree argv_decl = tree_make(T_DECL);
     tree array = tree_make(T_ARRAY);
     tree ptr = tree_make(T_POINTER);
 
     tDECL_SPECS(argv_decl) = tree_chain_head(tree_make(T_CHAR_TS));
 
-    tARRAY_SZ(array) = get_integer(argc);
+    tARRAY_SZ(array) = get_integer(argc + 1);
     tARRAY_DECL(array) = get_identifier("argv");
     tPTR_EXP(ptr) = array;
     tDECL_DECLS(argv_decl) = ptr;
 
     tree_chain(argv_decl, chain);
 
-    /* for (int i = 0; i < n; i++)
+    /* for (int i = 0; i <= n; i++)
      *    argv[i] = <char * address>;
+     *
+     * argv[n] is the null pointer that terminates the arguments.
      */
-    for (int i = 0; i < argc; i++)
+    for (int i = 0; i <= argc; i++)
     {
         tree assign = tree_make(T_ASSIGN);
         tree array_access = tree_make(T_ARRAY_ACCESS);
         tARR_ACCESS_IDX(array_access) = get_integer(i);
         tARR_ACCESS_OBJ(array_access) = get_identifier("argv");
         tASSIGN_LHS(assign) = array_access;
-        tASSIGN_RHS(assign) = get_addr(argv[i]);
+        tASSIGN_RHS(assign) = get_addr(i < argc ? argv[i] : NULL);
         tree_chain(assign, chain);
     }
 
-- 
2.43.0


From 7fac469304ed852fd3ffdadffbdc8533cfeaefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 043/112] fix: remove the preprocessor's temporary files

---
 src/preprocess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/preprocess.c b/src/preprocess.c
index 119393c..fa09672 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -93,6 +93,10 @@ FILE *run_cpp(tree include_chain, char *opts, char *line)
 
   free(command);
 
+  /* The output remains readable through `out_file_stream'. */
+  unlink(cpp_file_name);
+  unlink(out_file_name);
+
   if (ret < 0) {
     fprintf(stderr, "Invocation of preprocessor process failed\n");
     exit (1);
-- 
2.43.0


From 4d5e6f8429f06007628ed6bf3902104da9259968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 044/112] fix: close the preprocessed copy of each REPL line

---
 src/repl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index c64d807..ec08cc9 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -366,6 +366,8 @@ static char *run_cpp_on_line(char *line)
     while (pos != line_len)
         ret[pos++] = fgetc(output);
 
+    fclose(output);
+
     return ret;
 }
 
-- 
2.43.0


From fa81d314090f9c44f2d1dd8ad084c0dc4ec5394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 045/112] fix: split compound completion text at the last
 access operator

---
 src/repl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repl.c b/src/repl.c
index ec08cc9..38958f3 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -91,7 +91,7 @@ static int split_compound_access_text(const char *text,
             break;
         }
 
-        if (strstr(&text[i], "->")) {
+        if (strncmp(&text[i], "->", 2) == 0) {
             comp_access->obj_expr = strdup(text);
             comp_access->obj_expr[i] = '\0';
 
@@ -99,6 +99,7 @@ static int split_compound_access_text(const char *text,
             comp_access->needs_deref = 1;
 
             comp_access->member_prefix = strdup(&text[i + 2]);
+            break;
         }
     }
 
-- 
2.43.0


From 2dfb6cbb6ea26659122c20cc2ecdca69b33246dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 046/112] fix: completion must not alter the chains that
 identifiers are in

---
 src/repl.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 38958f3..ac21201 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -140,9 +140,21 @@ void match_identifiers_for_idmap(tree chain, tree idmap,
     tree i;
 
     for_each_tree(i, idmap) {
-        tree id = tEMAP_LEFT(i);
-        if (strncmp(tID_STR(id), prefix, strlen(prefix)) == 0)
-            tree_chain(id, chain);
+        tree match, id = tEMAP_LEFT(i);
+        bool found = false;
+
+        if (strncmp(tID_STR(id), prefix, strlen(prefix)) != 0)
+            continue;
+
+        /* An identifier could be mapped more than once, for example if it's
+         * name is also that of a struct. */
+        for_each_tree(match, chain)
+            if (strcmp(tID_STR(match), tID_STR(id)) == 0)
+                found = true;
+
+        /* The identifier could well be in another chain, add a copy of it. */
+        if (!found)
+            tree_chain(get_identifier(tID_STR(id)), chain);
     }
 }
 
-- 
2.43.0


From bf0682c91862685efabd8a9ac2b6fa7929cfc2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 047/112] fix: completion on an object that can not be
 evaluated gives no matches

---
 src/repl.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index ac21201..48f9f76 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -2,6 +2,7 @@
 #include <unistd.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <pwd.h>
 
 #include "config.h"
@@ -263,9 +264,8 @@ static char **recieve_matches(int fd)
     size_t n;
     int i;
 
-    read(fd, &n, sizeof(n));
-
-    if (!n)
+    /* If the object couldn't be evaluated, nothing will have been sent. */
+    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
@@ -303,6 +303,9 @@ static char **bic_completion(const char *text, int start, int end)
             return NULL;
         }
 
+        /* Don't leave any buffered output for the child to write. */
+        fflush(NULL);
+
         ret = fork();
 
         if (ret == -1) {
@@ -324,7 +327,7 @@ static char **bic_completion(const char *text, int start, int end)
 
             close(pfds[1]);
 
-            exit(0);
+            _exit(0);
         } else {
             close(pfds[1]);
 
@@ -334,7 +337,8 @@ static char **bic_completion(const char *text, int start, int end)
             free(comp_access.access_operator);
             free(comp_access.member_prefix);
 
-            close(pfds[1]);
+            close(pfds[0]);
+            waitpid(ret, NULL, 0);
         }
     }
     else
-- 
2.43.0


From 2215e90cc76e695f11048cf54807f43a8aa3409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 048/112] fix: evaluate the object of a compound completion

---
 src/repl.c | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 48f9f76..7c703f1 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -110,6 +110,8 @@ static int split_compound_access_text(const char *text,
     return 1;
 }
 
+static tree repl_do_parse(char *line);
+
 static tree get_compound_completion_object(struct completion_comp_access comp_access)
 {
     char *comp_obj_expr = strdup(comp_access.obj_expr);
@@ -123,16 +125,7 @@ static tree get_compound_completion_object(struct completion_comp_access comp_ac
      * expression. */
     comp_obj_expr = concat_strings(comp_obj_expr, ";");
 
-    YY_BUFFER_STATE lex_buffer = repl_scan_string(comp_obj_expr);
-    inhibit_gc();
-    int parse_result = replparse();
-    enable_gc();
-    repl_delete_buffer(lex_buffer);
-
-    if (parse_result)
-        return NULL;
-
-    return evaluate_expr(repl_parse_head);
+    return evaluate_expr(repl_do_parse(comp_obj_expr));
 }
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
-- 
2.43.0


From f3e87a2994485be50a1af1d7bec029a444df4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 049/112] fix: objects with static storage duration start as
 zero

---
 src/evaluate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index dcbec59..c00b1e4 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -317,7 +317,7 @@ tree make_live_var(tree type)
     tree live_var = tree_make(T_LIVE_VAR);
 
     tLV_TYPE(live_var) = type;
-    tLV_VAL(live_var) = malloc(sizeof(*tLV_VAL(live_var)));
+    tLV_VAL(live_var) = calloc(1, sizeof(*tLV_VAL(live_var)));
 
     /* We can not allow the GC to just free the LV_VAL memory as this
      * may not point to memory that has been allocated, for example in
@@ -866,7 +866,7 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base)
 
 static tree alloc_struct(tree struct_decl, int depth)
 {
-    void *base = malloc(tCOMP_DECL_SZ(struct_decl));
+    void *base = calloc(1, tCOMP_DECL_SZ(struct_decl));
 
     track_alloc(base);
 
@@ -876,7 +876,7 @@ static tree alloc_struct(tree struct_decl, int depth)
 static tree alloc_array(tree array_decl, tree base_type, int depth)
 {
     size_t array_sz = get_array_size(array_decl, base_type, depth);
-    void *array_mem = malloc(array_sz);
+    void *array_mem = calloc(1, array_sz);
     tree live_var = instantiate_array(array_decl, base_type, array_mem,
                                       array_sz);
 
-- 
2.43.0


From bf54b41e2d2978c1a089ee9160c4839513cc760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 050/112] fix: typedefs can be made at the REPL

---
 src/repl.c     |  9 +++++++++
 src/typename.c | 23 +++++++++++++++++++++++
 src/typename.h |  2 ++
 3 files changed, 34 insertions(+)

diff --git a/src/repl.c b/src/repl.c
index 7c703f1..d8ea101 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -413,6 +413,8 @@ static tree repl_parse_line(char *line)
 {
     tree stmt;
     char *line_after_cpp;
+    size_t nr_typenames = count_typenames();
+
     /* Parsing a line happens in two passes.  We firstly parse the
      * line as given by the user to see whether we are including a
      * header file.
@@ -427,6 +429,10 @@ static tree repl_parse_line(char *line)
 
     stmt = repl_do_parse(line);
 
+    /* A typedef doesn't define it's name until the parse that will be
+     * evaluated. */
+    forget_typenames(nr_typenames);
+
     if (!stmt)
         return NULL;
 
@@ -437,6 +443,9 @@ static tree repl_parse_line(char *line)
 
     stmt = repl_do_parse(line_after_cpp);
 
+    if (!stmt)
+        forget_typenames(nr_typenames);
+
     free(line_after_cpp);
 
     return stmt;
diff --git a/src/typename.c b/src/typename.c
index edc5b79..68ea7ab 100644
--- a/src/typename.c
+++ b/src/typename.c
@@ -70,3 +70,26 @@ int is_typename(tree typename)
 
     return 0;
 }
+
+/* Return the number of type names that aren't from #include files. */
+size_t count_typenames(void)
+{
+    size_t ret = 0;
+    tree i;
+
+    for_each_tree(i, type_names)
+        ret++;
+
+    return ret;
+}
+
+/* Forget the most recently added type names such that `count' remain. */
+void forget_typenames(size_t count)
+{
+    size_t idx = 0;
+    tree i, tmp;
+
+    for_each_tree_safe(i, tmp, type_names)
+        if (idx++ >= count)
+            tree_unchain(i);
+}
diff --git a/src/typename.h b/src/typename.h
index cd9af85..a9442f9 100644
--- a/src/typename.h
+++ b/src/typename.h
@@ -6,3 +6,5 @@ void reset_include_typenames(void);
 void add_typename(tree typename);
 void typename_init(void);
 int is_typename(tree typename);
+size_t count_typenames(void);
+void forget_typenames(size_t count);
-- 
2.43.0


From 106bdd94b339a1e21d1b4e54fc3810542503ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 051/112] fix: the inspector handles arrays and structure
 objects

---
 src/evaluate.c |  6 +++++-
 src/inspect.c  | 14 +++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c00b1e4..7be2e94 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -779,6 +779,7 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     tDTPTR_EXP(ptr) = base_type;
     live_var = make_live_var(ptr);
     tLV_VAL(live_var)->D_T_PTR = base;
+    tLOCUS(live_var) = tLOCUS(id);
 
     /* These are used by the sizeof() expression to return the correct
      * size. */
@@ -894,7 +895,10 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     assert(decl_type);
 
     if (is_T_DECL_COMPOUND(decl_type) && is_T_IDENTIFIER(decl)) {
-        map_identifier(decl, alloc_struct(decl_type, depth));
+        tree live_struct = alloc_struct(decl_type, depth);
+
+        tLOCUS(live_struct) = tLOCUS(decl);
+        map_identifier(decl, live_struct);
         return decl;
     }
 
diff --git a/src/inspect.c b/src/inspect.c
index 937dccc..b85a436 100644
--- a/src/inspect.c
+++ b/src/inspect.c
@@ -39,8 +39,7 @@ static tree handle_pointer_type(tree ptr_type)
 
 static void print_object_type(tree inspect_id, tree resolved_object)
 {
-    tree object_type = resolved_object,
-        sizeof_obj = tree_make(T_SIZEOF);
+    tree object_type = resolved_object;
     const char *object_name;
 
     if (!is_T_IDENTIFIER(inspect_id))
@@ -48,22 +47,27 @@ static void print_object_type(tree inspect_id, tree resolved_object)
 
     if (is_T_LIVE_VAR(object_type))
         object_type = tLV_TYPE(object_type);
+    else if (is_T_LIVE_COMPOUND(object_type))
+        object_type = tLV_COMP_DECL(object_type);
 
     printf("%s is a ", tID_STR(inspect_id));
 
     object_type = handle_pointer_type(object_type);
 
     if (is_T_DECL_COMPOUND(object_type))
-        object_name = tID_STR(tCOMP_DECL_ID(object_type));
+        object_name = tCOMP_DECL_ID(object_type) ?
+            tID_STR(tCOMP_DECL_ID(object_type)) : "anonymous compound";
     else
         object_name = tree_description_string(object_type);
 
-    tSZOF_EXP(sizeof_obj) = inspect_id;
     printf("%s.\n", object_name);
 }
 
 static void print_object_locus(tree inspect_id, tree resolved_object)
 {
+    if (!tLOCUS(resolved_object).file)
+        return;
+
     printf("%s was declared at: %s:%ld\n", tID_STR(inspect_id),
            tID_STR(tLOCUS(resolved_object).file),
            tLOCUS(resolved_object).line_no);
@@ -95,7 +99,7 @@ void inspect(tree inspect_id, tree resolved_object)
 
     print_object_type(inspect_id, resolved_object);
 
-    if (is_T_LIVE_VAR(resolved_object))
+    if (is_T_LIVE_VAR(resolved_object) || is_T_LIVE_COMPOUND(resolved_object))
         inspect_live_var(inspect_id, resolved_object);
 
     if (is_T_FN(resolved_object))
-- 
2.43.0


From d4b736952f81318b3bd95a80ac4071dbe78bb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 052/112] fix: all header names can be included at the REPL

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index b4d1ebe..c30104e 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -242,7 +242,7 @@ IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 "while"				return WHILE;
 
 REPL_ONLY
-"`#'include"[ \t]*"<"({L}|{D}|\.|\/)+">" {LEXLVAL.string = strdup(LEXTEXT);
+"`#'include"[ \t]*("<"[^>\n]+">"|\"[^"\n]+\") {LEXLVAL.string = strdup(LEXTEXT);
                                      return C_PRE_INC; }
 CSCRIPT_ONLY
 "`#'"[ \t]*[0-9]+[ \t]*\"[^\"\n]+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
-- 
2.43.0


From d538f44a2bb3b923b37ee471766fbd43c56eed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 053/112] fix: types can be inspected

---
 src/parser.m4 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index e9e7f9f..f1c0cef 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1493,6 +1493,12 @@ REPL_ONLY
         tINSPECT_EXP(inspect) = $2;
         $$ = inspect;
     }
+    | '?' TYPE_NAME
+    {
+        tree inspect = tree_make(T_INSPECT);
+        tINSPECT_EXP(inspect) = $2;
+        $$ = inspect;
+    }
     ;
 
     repl_translation_unit
-- 
2.43.0


From 5aa61c42191f3826f56e071ba5bd8e2a2b467823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 054/112] verif: hook to choose when the collector runs
 (BIC_VERIF)

---
 src/gc.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 4c8befb..8756eaf 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -152,6 +152,12 @@ static void collect(void)
     sweep();
 }
 
+#ifdef BIC_VERIF
+/* Called upon each allocation that could cause a collection. If it returns
+ * non-zero, collect now. */
+int (*bic_verif_gc_hook)(void) = NULL;
+#endif
+
 static void maybe_collect()
 {
     static int collect_counter = 0;
@@ -159,6 +165,14 @@ static void maybe_collect()
     if (gc_inhibited)
         return;
 
+#ifdef BIC_VERIF
+    if (bic_verif_gc_hook && bic_verif_gc_hook()) {
+        collect();
+        collect_counter = 0;
+        return;
+    }
+#endif
+
     if (collect_counter++ > COLLECT_TREE_ALLOC) {
         collect();
         collect_counter = 0;
-- 
2.43.0


From 0108e3c682df211b764bb9d98ad5d95cda55a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 055/112] fix: the collector marks each object once

---
 src/gengc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gengc.cpp b/src/gengc.cpp
index a3a70b9..5c9cac3 100644
--- a/src/gengc.cpp
+++ b/src/gengc.cpp
@@ -51,7 +51,8 @@ static void outputPreamble(FILE *f)
           "{\n"
           "    tree t;\n"
           "\n"
-          "    if (!obj)\n"
+          "    /* Objects can refer to each other, stop at those seen before. */\n"
+          "    if (!obj || obj->reachable)\n"
           "        return;\n"
           "\n"
           "    obj->reachable = 1;\n"
-- 
2.43.0


From ec9d3d568da520bdc55ff5de52bb7a728c3c8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 056/112] fix: the collector finds objects of which only a part
 is referred to

---
 src/evaluate.c |  2 ++
 src/gc.c       | 28 ++++++++++++++++++++++------
 src/gc.h       |  4 ++++
 src/tree.c     |  4 +++-
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7be2e94..ab1d5f3 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -665,6 +665,8 @@ static tree eval_fn_call(tree t, int depth)
                     tASSIGN_RHS(assign) = tFNARG_EXP(arg_val);
                     __evaluate_1(assign, depth + 1);
                 }
+
+                GC_KEEP(arg_vals);
             }
 
             if (!setjmp(tECTX_JMP_BUF(cur_ctx))) {
diff --git a/src/gc.c b/src/gc.c
index 8756eaf..a0eacd1 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -43,15 +43,31 @@ static int is_object(void *addr)
     return 0;
 }
 
-static void mark_potential_root(void *addr)
+/* Find the object that contains `addr', which needn't be it's first byte: the
+ * compiler is free to only keep a pointer to some member of an object. Note
+ * that the allocations are sorted in descending order. */
+static gc_obj find_object(void *addr)
 {
-    gc_obj obj;
+    size_t low = 0, high = alloc_ptr;
 
-    if (!is_object(addr))
-        return;
+    while (low < high) {
+        size_t mid = low + (high - low) / 2;
+
+        if ((void *)allocs[mid] <= addr)
+            high = mid;
+        else
+            low = mid + 1;
+    }
+
+    if (low < alloc_ptr && allocs[low] && addr < (void *)(allocs[low] + 1))
+        return allocs[low];
 
-    obj = (gc_obj)addr;
-    mark_object(obj);
+    return NULL;
+}
+
+static void mark_potential_root(void *addr)
+{
+    mark_object(find_object(addr));
 }
 
 void *top_of_stack;
diff --git a/src/gc.h b/src/gc.h
index 1b25c38..4e4bf28 100644
--- a/src/gc.h
+++ b/src/gc.h
@@ -21,6 +21,10 @@ struct gc_obj {
 
 typedef struct gc_obj *gc_obj;
 
+/* Keep an object, for example the head of a chain, alive until this point of a
+ * function. */
+#define GC_KEEP(obj) __asm__ volatile("" : : "g" (obj) : "memory")
+
 void enable_gc();
 void inhibit_gc();
 
diff --git a/src/tree.c b/src/tree.c
index dfdac93..7570bf6 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -12,8 +12,10 @@ tree tree_make(enum tree_type type)
 
 tree get_identifier(const char *name)
 {
+    /* Copy the name first, making the tree could collect it's owner. */
+    char *copy = strdup(name);
     tree ret = tree_make(T_IDENTIFIER);
-    tID_STR(ret) = strdup(name);
+    tID_STR(ret) = copy;
     return ret;
 }
 
-- 
2.43.0


From 66cdbef577113c4fa27e425ee991a6c91fb54bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 057/112] fix: execute blocks nested directly in a block

---
 src/c.lang     |  3 +++
 src/evaluate.c |  3 +++
 src/parser.m4  | 22 ++++++++++++++++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/c.lang b/src/c.lang
index 479f905..f319c2d 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -215,6 +215,9 @@
 
 (deftype T_BREAK "Break statement")
 
+(deftype T_BLOCK "Block" "tBLOCK"
+         ("STMTS"))
+
 (deftype T_REPL "Switch to REPL")
 
 (deftype T_ENUMERATOR "Enumerator" "tENUM"
diff --git a/src/evaluate.c b/src/evaluate.c
index ab1d5f3..7e10e7e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3195,6 +3195,9 @@ static tree evaluate_statement(tree stmt, int depth)
 {
     tree result;
 
+    if (is_T_BLOCK(stmt))
+        stmt = tBLOCK_STMTS(stmt);
+
     if (is_CHAIN_HEAD(stmt)) {
         /* A compound statement, this has a scope of it's own. */
         push_ctx("Block");
diff --git a/src/parser.m4 b/src/parser.m4
index f1c0cef..ead45e6 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -103,6 +103,22 @@ static tree handle_void_parameters(tree params)
 }
 
 CSCRIPT_ONLY
+    /* Make a statement ready to be put on a chain. The chain of a compound
+     * statement can't itself be an element of a chain. */
+    static tree make_chainable(tree stmt, YYLTYPE locus)
+    {
+        tree block;
+
+        if (!is_CHAIN_HEAD(stmt))
+            return stmt;
+
+        block = tree_make(T_BLOCK);
+        tBLOCK_STMTS(block) = stmt;
+        set_locus(block, locus);
+
+        return block;
+    }
+
     /* Find the function within the declarator of a function definition. The
      * function might return a pointer. */
     static tree get_function_declarator(tree declarator)
@@ -1554,6 +1570,9 @@ CSCRIPT_ONLY
     block_item
     : declaration
     | statement
+    {
+        $$ = make_chainable($1, @1);
+    }
     ;
 
     selection_statement
@@ -1687,6 +1706,9 @@ CSCRIPT_ONLY
     cscript_external_declaration
     : external_declaration
     | statement
+    {
+        $$ = make_chainable($1, @1);
+    }
     ;
 
     cscript_translation_unit
-- 
2.43.0


From 2bac8e8c60abcd06c086a54ef473ae35cf7d41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 058/112] fix: members that point to functions returning
 pointers

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7e10e7e..64a2bd8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -805,6 +805,9 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 
     void *base = tLV_COMP_BASE(live_struct);
 
+    /* For a pointer to a function this is the type that it returns. */
+    resolve_ptr_type(&decl_element, &decl_type);
+
     if (is_T_FN(decl_element)) {
         tree fn = alloc_copy_tree(decl_element);
         tFN_RET_TYPE(fn) = decl_type;
-- 
2.43.0


From e91fb7d5885dd914b52857d26378b5e3b6e4a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 059/112] fix: external structures and pointers to functions

---
 src/evaluate.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 64a2bd8..5db4aec 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1096,6 +1096,18 @@ static tree handle_extern_decl(tree extern_type, tree decl)
 
     resolve_ptr_type(&decl, &extern_type);
 
+    /* A pointer to a function is an object rather than a function. */
+    if (is_T_FN(decl) && is_T_POINTER(tFN_DECL(decl))) {
+        tree fn = alloc_copy_tree(decl);
+
+        tFN_RET_TYPE(fn) = extern_type;
+        decl = tFN_DECL(fn);
+        tFN_DECL(fn) = NULL;
+        extern_type = fn;
+
+        resolve_ptr_type(&decl, &extern_type);
+    }
+
     id = decl;
 
     if (is_T_FN(decl))
@@ -1106,6 +1118,11 @@ static tree handle_extern_decl(tree extern_type, tree decl)
         size_t array_sz = get_array_size(decl, extern_type, 0);
         sym_addr = resolve_symbol(tARRAY_DECL(decl));
 
+        previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
+
+        if (is_T_LIVE_VAR(previous_decl) && tLV_IS_ARRAY(previous_decl))
+            return id;
+
         map_identifier(id, instantiate_array(decl, extern_type,
                                              sym_addr, array_sz));
 
@@ -1118,7 +1135,12 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
     if (previous_decl) {
-        if (TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
+        if (is_T_DECL_COMPOUND(extern_type)) {
+            if (!is_T_LIVE_COMPOUND(previous_decl) ||
+                tLV_COMP_DECL(previous_decl) != extern_type)
+                eval_die(decl, "Attempted to redeclare %s with a different type", tID_STR(id));
+        } else if (!is_T_LIVE_VAR(previous_decl) ||
+                   TYPE(tLV_TYPE(previous_decl)) != TYPE(extern_type)) {
             eval_die(decl, "Attempted to redeclare %s with a different type", tID_STR(id));
         }
 
@@ -1128,9 +1150,14 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     /* Handle all other types. */
     sym_addr = resolve_symbol(decl);
 
-    live_var = tree_make(T_LIVE_VAR);
-    tLV_TYPE(live_var) = extern_type;
-    tLV_VAL(live_var) = sym_addr;
+    if (is_T_DECL_COMPOUND(extern_type)) {
+        live_var = instantiate_struct(extern_type, 0, sym_addr);
+    } else {
+        live_var = tree_make(T_LIVE_VAR);
+        tLV_TYPE(live_var) = extern_type;
+        tLV_VAL(live_var) = sym_addr;
+    }
+
     tLOCUS(live_var) = tLOCUS(id);
 
     map_identifier(id, live_var);
-- 
2.43.0


From 7fb0286df90c32ac9bb8fe58ac94fa4b6b5614e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 060/112] fix: keep the objects of a scope until a value
 returned from it is converted

---
 src/evaluate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5db4aec..86a9941 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -679,7 +679,10 @@ static tree eval_fn_call(tree t, int depth)
             } else {
                 /* After doing a longjmp, we need to pop off all redundant evaluator
                  * contexts util we arrive at the context pushed for this function.
-                 * Unfortunetly longjmp doesn't do this for us. */
+                 * Unfortunetly longjmp doesn't do this for us. The value might
+                 * refer to an object of one of these contexts. */
+                tree return_ctx = cur_ctx;
+
                 while (cur_ctx != fn_ctx)
                     pop_ctx();
 
@@ -694,6 +697,8 @@ static tree eval_fn_call(tree t, int depth)
                     else
                         return_val = return_lv;
                 }
+
+                GC_KEEP(return_ctx);
             }
 
             pop_ctx();
-- 
2.43.0


From 1882b4dc9e55294f102ec04fb8467b98f7eb5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 061/112] fix: number the lines of a session

---
 src/lex.m4 |  7 +++++++
 src/repl.c | 20 ++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index c30104e..e59bbf8 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -56,6 +56,13 @@ CSCRIPT_ONLY
         /* This has to outlive the buffer of the lexer. */
         TARGET()_parser_set_file(strdup(s));
     }
+REPL_ONLY
+    /* Each line of a session is lexed on it's own. */
+    void TARGET()_lexer_set_line(int line)
+    {
+        linenum = line;
+        colnum = 1;
+    }
 ALL_TARGETS
 
 static void sl_begin(void)
diff --git a/src/repl.c b/src/repl.c
index d8ea101..a624279 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -38,6 +38,8 @@ extern void add_history (const char *);
 #  endif /* HAVE_READLINE_HISTORY_H */
 #endif /* HAVE_READLINE_HISTORY */
 
+extern void repl_lexer_set_line(int line);
+
 tree repl_parse_head;
 GC_STATIC_TREE(repl_parse_head);
 
@@ -381,12 +383,23 @@ static char *run_cpp_on_line(char *line)
     return ret;
 }
 
+/* The number of the current line of the session. */
+static int line_number = 0;
+
 static tree repl_do_parse(char *line)
 {
     int parse_result;
     tree i, ret = NULL;
 
-    YY_BUFFER_STATE buffer = repl_scan_string(line);
+    YY_BUFFER_STATE buffer;
+
+    /* The preprocessor may leave the end of the previous line. */
+    if (*line == '\n')
+        line++;
+
+    repl_lexer_set_line(line_number);
+
+    buffer = repl_scan_string(line);
     inhibit_gc();
     parse_result = replparse();
     enable_gc();
@@ -484,7 +497,10 @@ void bic_repl()
 
     line = readline(BIC_PROMPT);
     while (line) {
-        tree parsed_line = repl_parse_line(line);
+        tree parsed_line;
+
+        line_number++;
+        parsed_line = repl_parse_line(line);
 
         if (parsed_line) {
             tree result;
-- 
2.43.0


From eb5864d41e470694d8573e76ad896bd0848051b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 062/112] fix: Reject declarations with more than one type or
 storage class

---
 src/genspecresolver.cpp | 19 ++++++++++++++++---
 src/parser.m4           |  5 +++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/genspecresolver.cpp b/src/genspecresolver.cpp
index 2b5fc7b..5444740 100644
--- a/src/genspecresolver.cpp
+++ b/src/genspecresolver.cpp
@@ -18,7 +18,7 @@ static void outputPreamble(FILE *output)
           "\n"
           "tree resolve_decl_specs_to_type(tree decl_specs)\n"
           "{\n"
-          "    tree i;\n"
+          "    tree i, self = NULL, storage_class = NULL;\n"
           "    unsigned int spec_bitstring = 0;\n"
           "\n", output);
 }
@@ -75,7 +75,10 @@ static std::map<std::string, int> outputBitStirngSetLoop(const lang &lang, FILE
         for (auto selfSpecifier : lang.selfSpecifiers ) {
             fprintf(output, "        case %s:\n", selfSpecifier.c_str());
         }
-        fputs("            return i;\n", output);
+        fputs("            if (self)\n"
+              "                eval_die(i, \"more than one type in declaration specifier\\n\");\n"
+              "            self = i;\n"
+              "            break;\n", output);
     }
 
     // Output any ignored specifiers.
@@ -83,13 +86,23 @@ static std::map<std::string, int> outputBitStirngSetLoop(const lang &lang, FILE
         fputs("        /* Ignore these specifiers as they don't have any bearing on type information. */\n", output);
         for (auto ignoredSpec : lang.ignoredSpecifiers)
             fprintf(output, "        case %s:\n", ignoredSpec.c_str());
-        fputs("            break;\n", output);
+        fputs("            if (storage_class)\n"
+              "                eval_die(i, \"more than one storage class in declaration specifier\\n\");\n"
+              "            storage_class = i;\n"
+              "            break;\n", output);
     }
 
     fputs("        default:\n"
           "            eval_die(i, \"unknown type specifier found in specifier list: %s\\n\", tree_type_string(TYPE(i)));\n"
           "        }\n"
           "    }\n"
+          "\n"
+          "    if (self) {\n"
+          "        if (spec_bitstring)\n"
+          "            eval_die(self, \"more than one type in declaration specifier\\n\");\n"
+          "\n"
+          "        return self;\n"
+          "    }\n"
           "\n", output);
 
     return bitAllocations;
diff --git a/src/parser.m4 b/src/parser.m4
index ead45e6..30be1d2 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -875,6 +875,10 @@ type_specifier
 | struct_or_union_specifier
 | enum_specifier
 | TYPE_NAME
+{
+    set_locus($1, @1);
+    $$ = $1;
+}
 ;
 
 struct_or_union_specifier
@@ -951,6 +955,7 @@ specifier_qualifier_list
 : specifier_qualifier
 {
     $$ = tree_chain_head($1);
+    set_locus($$, @1);
 }
 | specifier_qualifier_list  specifier_qualifier
 {
-- 
2.43.0


From 3aeeee6a6a14fdca80155f9e788409d0fb3ed819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 063/112] fix: Accept a typedef that is repeated

---
 src/evaluate.c | 12 ++++++++++++
 src/parser.m4  | 27 ++++++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 86a9941..ef558ae 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -991,6 +991,8 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
 
 static tree map_typedef(tree id, tree type)
 {
+    tree previous_type;
+
     resolve_ptr_type(&id, &type);
 
     if (is_T_FN(id)) {
@@ -1017,6 +1019,13 @@ static tree map_typedef(tree id, tree type)
     if (!is_T_IDENTIFIER(id))
         eval_die(id, "Attempted to map type to non-identifier\n");
 
+    /* A typedef may be repeated. */
+    previous_type = resolve_identifier(id, SCOPE_CURRENT_CTX);
+
+    if (previous_type && TYPE(previous_type) == TYPE(type) &&
+        (!is_T_DECL_COMPOUND(type) || previous_type == type))
+        return id;
+
     map_identifier(id, type);
 
     return id;
@@ -1229,6 +1238,9 @@ static tree handle_typedef(tree type, tree decls, int depth)
 {
     tree i, ret = NULL;
 
+    if (!decls)
+        return NULL;
+
     if (is_CHAIN_HEAD(decls)) {
         for_each_tree(i, decls)
             ret = map_typedef(i, type);
diff --git a/src/parser.m4 b/src/parser.m4
index 30be1d2..bf56967 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -58,6 +58,31 @@ static void maybe_add_typenames(tree decl)
         find_ids_to_map_to_typenames(decl);
 }
 
+/* When a typedef is repeated the name is already known to be a type. Make it the
+ * declarator that it really is. */
+static tree find_repeated_typedef(tree specs)
+{
+    tree i, last = NULL;
+    int nr_types = 0;
+
+    if (!chain_has_T_TYPEDEF(specs))
+        return NULL;
+
+    for_each_tree(i, specs) {
+        if (!is_T_TYPEDEF(i))
+            nr_types++;
+
+        last = i;
+    }
+
+    if (nr_types < 2 || !is_T_IDENTIFIER(last))
+        return NULL;
+
+    list_del(&last->chain);
+
+    return tree_chain_head(last);
+}
+
 /* A parameter that is declared as an array is really a pointer. */
 static tree adjust_parameter(tree declarator)
 {
@@ -720,8 +745,8 @@ declaration
 : declaration_specifiers ';'
 {
     tree decl = tree_make(T_DECL);
+    tDECL_DECLS(decl) = find_repeated_typedef($1);
     tDECL_SPECS(decl) = $1;
-    tDECL_DECLS(decl) = NULL;
     set_locus(decl, @1);
     $$ = decl;
 }
-- 
2.43.0


From 6f918a35c7af6d7c78d23d117cd56cb5e0410148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 064/112] fix: Let a structure be defined after a typedef names
 it

---
 src/evaluate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index ef558ae..00f617a 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1267,6 +1267,8 @@ static tree handle_forward_decl(tree type)
 
     tree forward_decl = tree_make(E_INCOMP_TYPE);
 
+    tLOCUS(forward_decl) = tLOCUS(type);
+
     map_compound(type, forward_decl);
 
     return id;
@@ -2671,8 +2673,10 @@ static tree eval_decl_compound(tree t, int depth)
     if (!tCOMP_DECL_DECLS(t)) {
         tree ret = resolve_compound(t, SCOPE_GLOBAL);
 
-        if (!ret)
-            return handle_forward_decl(t);
+        if (!ret) {
+            handle_forward_decl(t);
+            ret = resolve_compound(t, SCOPE_GLOBAL);
+        }
 
         return ret;
     }
-- 
2.43.0


From 6f1594e66560de31be33f57570922e18822bfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 065/112] fix: Keep the tags and constants of a static
 declaration each time it is reached

---
 src/evaluate.c | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 00f617a..83d3e18 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1282,6 +1282,16 @@ static bool is_function_definition(tree declarator)
     return is_T_FN(declarator) && tFN_STMTS(declarator);
 }
 
+/* Resolve any type names or compound declarators. */
+static tree evaluate_decl_type(tree decl_type, int depth)
+{
+    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
+        || is_T_ENUMERATOR(decl_type))
+        return __evaluate_1(decl_type, depth + 1);
+
+    return decl_type;
+}
+
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
   tree decls = tDECL_DECLS(decl), i, ret = NULL;
@@ -1291,7 +1301,8 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
   if (is_CHAIN_HEAD(decls))
       for_each_tree(i, decls)
           if (is_function_definition(i))
-              return handle_declarator(i, base_type, depth + 1);
+              return handle_declarator(i, evaluate_decl_type(base_type, depth),
+                                       depth + 1);
 
   /* This function will be called the very first time this static
    * decl is encountered.  We will change the type of tree object
@@ -1299,10 +1310,11 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
    * this object result in the static objects being found from the
    * map (see eval_evaluator_ctx).
    *
-   * For this to work, we push a temporary context, evaluate all
-   * decls and retain the id_map and alloc chain.  We then use them
+   * For this to work, we push a temporary context, evaluate the type and all
+   * decls and retain the id_maps and alloc chain.  We then use them
    * to construct the E_CTX object. */
   push_ctx("Static declaration");
+  base_type = evaluate_decl_type(base_type, depth);
   if (is_CHAIN_HEAD(decls)) {
     for_each_tree(i, decls) ret = handle_declarator(i, base_type, depth);
   } else
@@ -1311,6 +1323,8 @@ static tree handle_static_decl(tree base_type, tree decl, int depth)
   TYPE(decl) = E_CTX;
 
   tECTX_ID_MAP(decl) = tECTX_ID_MAP(cur_ctx);
+  tECTX_STRUCT_ID_MAP(decl) = tECTX_STRUCT_ID_MAP(cur_ctx);
+  tECTX_UNION_ID_MAP(decl) = tECTX_UNION_ID_MAP(cur_ctx);
   tECTX_ALLOC_CHAIN(decl) = tECTX_ALLOC_CHAIN(cur_ctx);
   tECTX_PARENT_CTX(decl) = NULL;
   tECTX_NAME(decl) = get_identifier("Static declaration");
@@ -1334,10 +1348,10 @@ static tree eval_decl(tree t, int depth)
         tCOMP_DECL_DECLS(decl_type) == NULL)
         return handle_forward_decl(decl_type);
 
-    /* Resolve any type names or compound declarators. */
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
-        || is_T_ENUMERATOR(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
+    if (decls && chain_has_T_STATIC(decl_specs))
+        return handle_static_decl(decl_type, t, depth + 1);
+
+    decl_type = evaluate_decl_type(decl_type, depth);
 
     if (chain_has_T_TYPEDEF(decl_specs))
         return handle_typedef(decl_type, decls, depth + 1);
@@ -1345,9 +1359,6 @@ static tree eval_decl(tree t, int depth)
     if (chain_has_T_EXTERN(decl_specs))
         return handle_extern_decls(decl_type, decls, depth + 1);
 
-    if (chain_has_T_STATIC(decl_specs))
-        return handle_static_decl(decl_type, t, depth + 1);
-
     if (!decls)
         return NULL;
 
@@ -3122,6 +3133,22 @@ static tree eval_cpp_include(tree t, int depth)
     return NULL;
 }
 
+/* Map the tags of a static declaration into the current context. */
+static void map_static_tags(tree static_map, tree ctx_map)
+{
+    tree mapping;
+
+    for_each_tree(mapping, static_map) {
+        tree type = tEMAP_RIGHT(mapping),
+            previous_decl = __resolve_id(tEMAP_LEFT(mapping), ctx_map);
+
+        if (!previous_decl)
+            __map_identifer(tEMAP_LEFT(mapping), type, ctx_map);
+        else if (is_E_INCOMP_TYPE(previous_decl))
+            tree_copy(previous_decl, type);
+    }
+}
+
 static tree eval_evaluator_ctx(tree t, int depth)
 {
     tree ret = NULL, mapping;
@@ -3138,6 +3165,9 @@ static tree eval_evaluator_ctx(tree t, int depth)
     if (!tECTX_IS_STATIC(t))
         eval_die(t, "Non static E_CTX object evaluated.\n");
 
+    map_static_tags(tECTX_STRUCT_ID_MAP(t), tECTX_STRUCT_ID_MAP(cur_ctx));
+    map_static_tags(tECTX_UNION_ID_MAP(t), tECTX_UNION_ID_MAP(cur_ctx));
+
     for_each_tree(mapping, tECTX_ID_MAP(t)) {
         tree id;
 
-- 
2.43.0


From e90ea2ec3e593532548cb312382372be8768bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 066/112] fix: Resolve the types of members where the compound
 is declared

---
 src/c.lang     |  2 +-
 src/evaluate.c | 77 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index f319c2d..7a1e95d 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -169,7 +169,7 @@
          ("BASE_TYPE" "SZ"))
 
 (deftype T_DECL "Declaration" "tDECL"
-         ("SPECS" "DECLS"
+         ("SPECS" "DECLS" "TYPE"
           ("OFFSET" sz)))
 
 (deftype T_TYPE_SPECIFIER "Type specifier" "tTYPE_SPECIFIER"
diff --git a/src/evaluate.c b/src/evaluate.c
index 83d3e18..b91fbf8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -432,15 +432,23 @@ static bool is_integer_ctype(tree type)
     }
 }
 
+/* Resolve any type names or compound declarators. */
+static tree evaluate_decl_type(tree decl_type, int depth)
+{
+    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
+        || is_T_ENUMERATOR(decl_type))
+        return __evaluate_1(decl_type, depth + 1);
+
+    return decl_type;
+}
+
 /* Find the type of a function's parameter. */
 tree get_parameter_type(tree decl)
 {
     tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
         declarator = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(type) || is_T_DECL_COMPOUND(type) ||
-        is_T_ENUMERATOR(type))
-        type = __evaluate_1(type, 0);
+    type = evaluate_decl_type(type, 0);
 
     resolve_ptr_type(&declarator, &type);
 
@@ -801,13 +809,9 @@ static tree instantiate_struct(tree struct_decl, int depth, void *base);
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 {
     tree live_element,
-        decl_type = resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+        decl_type = tDECL_TYPE(decl),
         decl_element = tDECL_DECLS(decl);
 
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type) ||
-        is_T_ENUMERATOR(decl_type))
-        decl_type = __evaluate_1(decl_type, depth + 1);
-
     void *base = tLV_COMP_BASE(live_struct);
 
     /* For a pointer to a function this is the type that it returns. */
@@ -1282,16 +1286,6 @@ static bool is_function_definition(tree declarator)
     return is_T_FN(declarator) && tFN_STMTS(declarator);
 }
 
-/* Resolve any type names or compound declarators. */
-static tree evaluate_decl_type(tree decl_type, int depth)
-{
-    if (is_T_IDENTIFIER(decl_type) || is_T_DECL_COMPOUND(decl_type)
-        || is_T_ENUMERATOR(decl_type))
-        return __evaluate_1(decl_type, depth + 1);
-
-    return decl_type;
-}
-
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
   tree decls = tDECL_DECLS(decl), i, ret = NULL;
@@ -2583,6 +2577,14 @@ static tree eval_return(tree t, int depth)
     return ret;
 }
 
+/* Find the type of a compound's member.  Like any other declaration, this
+ * refers to whatever is in scope at that point. */
+static tree evaluate_member_type(tree decl, int depth)
+{
+    return evaluate_decl_type(resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+                              depth);
+}
+
 /* Build a simplified decl chain, ensuring all decls with multiple
  * identifiers are split.
  *
@@ -2605,12 +2607,19 @@ static tree eval_return(tree t, int depth)
  *         char f;
  *     };
  */
-static tree expand_decl_chain(tree decl_chain)
+static tree expand_decl_chain(tree decl_chain, int depth)
 {
     tree tmp, decl, declarator, new_chain = tree_make(CHAIN_HEAD);
 
     for_each_tree_safe(decl, tmp, decl_chain) {
-        if (is_T_DECL(decl) && tDECL_DECLS(decl))
+        tree type;
+
+        if (!is_T_DECL(decl))
+            continue;
+
+        type = evaluate_member_type(decl, depth);
+
+        if (tDECL_DECLS(decl))
             for_each_tree(declarator, tDECL_DECLS(decl)) {
                 tree new_decl = tree_make(T_DECL);
 
@@ -2622,6 +2631,8 @@ static tree expand_decl_chain(tree decl_chain)
 
                 tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
                 tDECL_DECLS(new_decl) = declarator;
+                tDECL_TYPE(new_decl) = type;
+                tLOCUS(new_decl) = tLOCUS(decl);
 
                 tree_chain(new_decl, new_chain);
             }
@@ -2708,13 +2719,24 @@ static tree eval_decl_compound(tree t, int depth)
             map_compound(t, t);
     }
 
-    /* Don't attempt to expand an already expanded struct. */
-    if (tCOMP_DECL_EXPANDED(t))
+    /* Don't attempt to expand an already expanded struct.  However, anything
+     * that is declared along with it's members is to be declared again. */
+    if (tCOMP_DECL_EXPANDED(t)) {
+        tree specs = NULL;
+
+        for_each_tree(i, tCOMP_DECL_DECLS(t)) {
+            if (tDECL_SPECS(i) != specs)
+                evaluate_member_type(i, depth);
+
+            specs = tDECL_SPECS(i);
+        }
+
         return t;
+    }
 
     /* Expand the compound decl chain so each decl can have it's own
      * offset.  */
-    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t));
+    tCOMP_DECL_DECLS(t) = expand_decl_chain(tCOMP_DECL_DECLS(t), depth);
 
     /* Populate the decls with their offsets, as well as the total
      * size of the compound. */
@@ -2726,15 +2748,10 @@ static tree eval_decl_compound(tree t, int depth)
          * temporarily push the evaluation ctx, evaluate each decl
          * within the new evaluation ctx, resolve the identifier back
          * to it's live var and finally pass that through a sizeof()
-         * evaluation.
-         *
-         * NOTE: we don't evaluate the types of the decls here as we
-         * could create a loop back to ourselves (when declaring a
-         * pointer to the same struct).  Instead, we evaluate all decl
-         * types at struct installation time. */
+         * evaluation. */
         push_ctx("Compound Declaration");
 
-        id = __evaluate_1(decl, depth + 1);
+        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
         live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
-- 
2.43.0


From d4e6db094913adf643ae42b043d0a0fb3b71e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 067/112] fix: Diagnose the redefinition of a structure

---
 src/evaluate.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index b91fbf8..3f25cbf 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2712,10 +2712,13 @@ static tree eval_decl_compound(tree t, int depth)
     if (struct_id) {
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
-        if (forward_decl) {
+        if (forward_decl && forward_decl != t) {
+            if (!is_E_INCOMP_TYPE(forward_decl))
+                eval_die(t, "Redefinition of %s\n", tID_STR(struct_id));
+
             tree_copy(forward_decl, t);
             t = forward_decl;
-        } else
+        } else if (!forward_decl)
             map_compound(t, t);
     }
 
-- 
2.43.0


From af39b9072ca2a35d96f5c9d5ec49324e550579c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 068/112] fix: Let the type of a static declaration be
 completed each time it is reached

---
 src/c.lang     |  2 +-
 src/evaluate.c | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 7a1e95d..3ce0204 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -176,7 +176,7 @@
          ("SPECS" "DECL"))
 
 (deftype T_DECL_COMPOUND "Compound Declataion" "tCOMP_DECL"
-         ("ID" "DECLS"
+         ("ID" "DECLS" "FORWARD"
                ("SZ" sz)
                ("ALIGN" sz)
                ("EXPANDED" flag)
diff --git a/src/evaluate.c b/src/evaluate.c
index 3f25cbf..bf4999b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2708,15 +2708,19 @@ static tree eval_decl_compound(tree t, int depth)
      * struct_decl.  Also check to see if there are any forward
      * declarations of the type.  If there are, copy 't' to the
      * unresolved decl and use that as our new 't' so all referencies
-     * to it will be updated.*/
+     * to it will be updated.  A type that was declared by a static declaration
+     * is still there when this is reached again, hence remember that it's the
+     * one that was defined here.  */
     if (struct_id) {
         tree forward_decl = resolve_compound(t, SCOPE_CURRENT_CTX);
 
         if (forward_decl && forward_decl != t) {
-            if (!is_E_INCOMP_TYPE(forward_decl))
+            if (is_E_INCOMP_TYPE(forward_decl)) {
+                tree_copy(forward_decl, t);
+                tCOMP_DECL_FORWARD(t) = forward_decl;
+            } else if (tCOMP_DECL_FORWARD(t) != forward_decl)
                 eval_die(t, "Redefinition of %s\n", tID_STR(struct_id));
 
-            tree_copy(forward_decl, t);
             t = forward_decl;
         } else if (!forward_decl)
             map_compound(t, t);
-- 
2.43.0


From 3cb301c6f4f3e30f6bc0d31cd9a4ea97741bc555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 069/112] fix: A tag that is declared in a block is a new type

---
 src/evaluate.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index bf4999b..bd657fb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1264,9 +1264,10 @@ static tree handle_forward_decl(tree type)
 
     id = tCOMP_DECL_ID(type);
 
-    /* If the declaration already exists, don't attempt to map it
-     * again. */
-    if (resolve_compound(type, SCOPE_GLOBAL))
+    /* If the declaration already exists, don't attempt to map it again.  Within
+     * a block this declares a new type, whatever there is outside of it. */
+    if (resolve_compound(type, cur_ctx == toplevel_ctx ? SCOPE_GLOBAL
+                                                       : SCOPE_CURRENT_CTX))
         return id;
 
     tree forward_decl = tree_make(E_INCOMP_TYPE);
-- 
2.43.0


From af4fd1ff6aab3b6652b08417a3112e1fcff6282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 070/112] fix: Keep the tags of enums apart from identifiers

---
 src/evaluate.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index bd657fb..44044cc 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2812,17 +2812,31 @@ static tree eval_decl_compound(tree t, int depth)
 
 static tree eval_enumerator(tree t, int depth)
 {
-    tree enum_expr, enum_base_type = tree_make(ENUMTYPE);
+    tree enum_expr, enum_base_type, tag = tENUM_NAME(t);
     long enum_val = 0;
 
-    /* Handle the case where a perviously declared enum is referred to. */
-    if (!tENUM_ENUMS(t))
-        return __evaluate_1(tENUM_NAME(t), depth + 1);
+    /* Handle the case where a perviously declared enum is referred to.  The tag
+     * of an enum doesn't share it's name space with objects and functions, but
+     * with the tags of structures. */
+    if (!tENUM_ENUMS(t)) {
+        tree enum_type = __resolve_identifier(tag, SCOPE_GLOBAL, STRUCT_TYPE);
+
+        if (!enum_type)
+            eval_die(t, "Could not find enum %s\n", tID_STR(tag));
+
+        return enum_type;
+    }
+
+    enum_base_type = tree_make(ENUMTYPE);
 
     /* Whenever we encounter this decl, we wish to treat it as just a
      * normal integer. */
-    if (tENUM_NAME(t))
-        map_identifier(tENUM_NAME(t), enum_base_type);
+    if (tag) {
+        if (__resolve_identifier(tag, SCOPE_CURRENT_CTX, STRUCT_TYPE))
+            eval_die(t, "Redefinition of %s\n", tID_STR(tag));
+
+        __map_identifer(tag, enum_base_type, tECTX_STRUCT_ID_MAP(cur_ctx));
+    }
 
     /* Allocate a number for each member of the enumerator and map the
      * identifier to the value. */
-- 
2.43.0


From 29376b4fecb6905af2e2791a87e8915ef0ed467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 071/112] fix: Let an enum have the name of a type as it's tag

---
 src/lex.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.m4 b/src/lex.m4
index e59bbf8..c916865 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -221,7 +221,7 @@ IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 "do"				return DO;
 "double"			return DOUBLE;
 "else"				return ELSE;
-"enum"				return ENUM;
+"enum"				{ BEGIN compound_start_cond; return ENUM; }
 "extern"			return EXTERN;
 "float"				return FLOAT;
 "for"				return FOR;
-- 
2.43.0


From 2177398b60b6d21f3cc012a835f7f74d220b6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 072/112] fix: Lay out the members of anonymous structures and
 unions

---
 src/evaluate.c | 56 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 44044cc..0042207 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -814,6 +814,21 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
 
     void *base = tLV_COMP_BASE(live_struct);
 
+    /* The members of an anonymous compound are accessed as if they were members
+     * of the compound that contains it. */
+    if (!decl_element) {
+        tree mapping;
+
+        live_element = instantiate_struct(decl_type, depth,
+                                          base + tDECL_OFFSET(decl));
+
+        for_each_tree(mapping, tLV_COMP_MEMBERS(live_element))
+            __map_identifer(tEMAP_LEFT(mapping), tEMAP_RIGHT(mapping),
+                            tLV_COMP_MEMBERS(live_struct));
+
+        return;
+    }
+
     /* For a pointer to a function this is the type that it returns. */
     resolve_ptr_type(&decl_element, &decl_type);
 
@@ -2586,6 +2601,28 @@ static tree evaluate_member_type(tree decl, int depth)
                               depth);
 }
 
+static tree make_member_decl(tree decl, tree declarator, tree type)
+{
+    tree new_decl = tree_make(T_DECL);
+
+    tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
+    tDECL_DECLS(new_decl) = declarator;
+    tDECL_TYPE(new_decl) = type;
+    tLOCUS(new_decl) = tLOCUS(decl);
+
+    return new_decl;
+}
+
+/* Determine if the declaration of a compound's member has neither a name nor a
+ * tag, i.e. it's an anonymous structure or union. */
+static bool is_anonymous_member(tree decl)
+{
+    tree type = resolve_decl_specs_to_type(tDECL_SPECS(decl));
+
+    return !tDECL_DECLS(decl) && is_T_DECL_COMPOUND(type) &&
+        !tCOMP_DECL_ID(type);
+}
+
 /* Build a simplified decl chain, ensuring all decls with multiple
  * identifiers are split.
  *
@@ -2620,22 +2657,18 @@ static tree expand_decl_chain(tree decl_chain, int depth)
 
         type = evaluate_member_type(decl, depth);
 
+        if (is_anonymous_member(decl))
+            tree_chain(make_member_decl(decl, NULL, type), new_chain);
+
         if (tDECL_DECLS(decl))
             for_each_tree(declarator, tDECL_DECLS(decl)) {
-                tree new_decl = tree_make(T_DECL);
-
                 /* If `declarator` is an unnamed bitfield skip over it. Since,
                  * for now, we just make each bitfield a member in it's own
                  * right. */
                 if (is_T_BITFIELD(declarator) && !tBITFIELD_DECLARATOR(declarator))
                     continue;
 
-                tDECL_SPECS(new_decl) = tDECL_SPECS(decl);
-                tDECL_DECLS(new_decl) = declarator;
-                tDECL_TYPE(new_decl) = type;
-                tLOCUS(new_decl) = tLOCUS(decl);
-
-                tree_chain(new_decl, new_chain);
+                tree_chain(make_member_decl(decl, declarator, type), new_chain);
             }
     }
 
@@ -2759,9 +2792,12 @@ static tree eval_decl_compound(tree t, int depth)
          * evaluation. */
         push_ctx("Compound Declaration");
 
-        id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
+        if (tDECL_DECLS(decl)) {
+            id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
-        live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
+            live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
+        } else
+            live_var = alloc_struct(tDECL_TYPE(decl), depth);
 
         /* Calculate the offset of the member within the struct.
          *
-- 
2.43.0


From 9a5d48ab177c1b5e08f22e114d426ca2481342ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 073/112] fix: Find the size of an array type where it is
 defined

---
 src/evaluate.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 0042207..dd262f5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -763,9 +763,8 @@ static void make_and_map_live_var(tree id, tree type)
     map_identifier(id, live_var);
 }
 
-static size_t get_array_size(tree array_decl, tree base_type, int depth)
+static tree get_no_array_elements(tree array_decl, int depth)
 {
-    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
     tree no_elements = __evaluate_1(tARRAY_SZ(array_decl), depth + 1);
 
     if (is_T_LIVE_VAR(no_elements))
@@ -774,6 +773,14 @@ static size_t get_array_size(tree array_decl, tree base_type, int depth)
     if (!is_T_INTEGER(no_elements))
         eval_die(array_decl, "Attempted to create array with non-constant size\n");
 
+    return no_elements;
+}
+
+static size_t get_array_size(tree array_decl, tree base_type, int depth)
+{
+    size_t sz_of_each_element = get_size_of_type(base_type, depth), no_elms;
+    tree no_elements = get_no_array_elements(array_decl, depth);
+
     no_elms = mpz_get_ui(tINT_VAL(no_elements));
 
     return sz_of_each_element * no_elms;
@@ -1030,7 +1037,7 @@ static tree map_typedef(tree id, tree type)
     if (is_T_ARRAY(id)) {
         tree array_type = tree_make(T_ARRAY_TYPE);
         tARRAY_TYPE_BASE_TYPE(array_type) = type;
-        tARRAY_TYPE_SZ(array_type) = tARRAY_SZ(id);
+        tARRAY_TYPE_SZ(array_type) = get_no_array_elements(id, 0);
         id = tARRAY_DECL(id);
         type = array_type;
     }
-- 
2.43.0


From 864c0c4783c2457a02c6e11d88cbbe91966c4825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 074/112] fix: Find the size of a member array where the
 compound is defined

---
 src/c.lang     | 3 ++-
 src/evaluate.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 3ce0204..d3f2fec 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -170,7 +170,8 @@
 
 (deftype T_DECL "Declaration" "tDECL"
          ("SPECS" "DECLS" "TYPE"
-          ("OFFSET" sz)))
+          ("OFFSET" sz)
+          ("SZ" sz)))
 
 (deftype T_TYPE_SPECIFIER "Type specifier" "tTYPE_SPECIFIER"
          ("SPECS" "DECL"))
diff --git a/src/evaluate.c b/src/evaluate.c
index dd262f5..5d936dc 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -852,10 +852,9 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
     if (is_T_ARRAY(decl_element)) {
-        size_t array_sz = get_array_size(decl_element, decl_type, depth);
         live_element = instantiate_array(decl_element, decl_type,
                                          base + tDECL_OFFSET(decl),
-                                         array_sz);
+                                         tDECL_SZ(decl));
 
         __map_identifer(tARRAY_DECL(decl_element), live_element,
                         tLV_COMP_MEMBERS(live_struct));
@@ -2826,6 +2825,7 @@ static tree eval_decl_compound(tree t, int depth)
             padding_size = (~offset + 1) & (member_alignment - 1);
 
         tDECL_OFFSET(decl) = offset + padding_size;
+        tDECL_SZ(decl) = member_size;
 
         if (tCOMP_DECL_TYPE(t) == sstruct)
             offset += padding_size + member_size;
-- 
2.43.0


From a79bcb699ec8292aead0df249836fde682d45bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 075/112] fix: Let a member have an array type

---
 src/evaluate.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 5d936dc..c03aa6c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -811,6 +811,23 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     return live_var;
 }
 
+/* An object that has a typedef of an array as it's type is declared just as if
+ * it was declared as an array itself. */
+static void resolve_array_type(tree *decl, tree *type)
+{
+    tree array;
+
+    if (!is_T_ARRAY_TYPE(*type))
+        return;
+
+    array = tree_make(T_ARRAY);
+    tARRAY_DECL(array) = *decl;
+    tARRAY_SZ(array) = tARRAY_TYPE_SZ(*type);
+
+    *type = tARRAY_TYPE_BASE_TYPE(*type);
+    *decl = array;
+}
+
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
@@ -851,6 +868,8 @@ static void instantiate_struct_element(tree decl, tree live_struct, int depth)
     if (is_T_BITFIELD(decl_element))
         decl_element = tBITFIELD_DECLARATOR(decl_element);
 
+    resolve_array_type(&decl_element, &decl_type);
+
     if (is_T_ARRAY(decl_element)) {
         live_element = instantiate_array(decl_element, decl_type,
                                          base + tDECL_OFFSET(decl),
@@ -937,13 +956,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return decl;
     }
 
-    if (is_T_ARRAY_TYPE(decl_type)) {
-        tree array = tree_make(T_ARRAY);
-        tARRAY_DECL(array) = decl;
-        tARRAY_SZ(array) = tARRAY_TYPE_SZ(decl_type);
-        decl_type = tARRAY_TYPE_BASE_TYPE(decl_type);
-        decl = array;
-    }
+    resolve_array_type(&decl, &decl_type);
 
     if (is_T_ARRAY(decl)) {
         tree live_var = alloc_array(decl, decl_type, depth);
-- 
2.43.0


From 81feabcdcf43c08a0e070704b20d8684d60e48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 076/112] fix: Pass arrays and functions whose type is a
 typedef as pointers

---
 src/evaluate.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c03aa6c..d1cf7d8 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -442,6 +442,8 @@ static tree evaluate_decl_type(tree decl_type, int depth)
     return decl_type;
 }
 
+static tree handle_declarator(tree decl, tree decl_type, int depth);
+
 /* Find the type of a function's parameter. */
 tree get_parameter_type(tree decl)
 {
@@ -474,6 +476,24 @@ tree get_parameter_type(tree decl)
     return type;
 }
 
+/* Declare a parameter in the context of a function call. */
+static tree declare_parameter(tree decl, int depth)
+{
+    tree id = tDECL_DECLS(decl), type;
+
+    if (!id || !is_T_IDENTIFIER(id))
+        return __evaluate_1(decl, depth + 1);
+
+    type = evaluate_decl_type(resolve_decl_specs_to_type(tDECL_SPECS(decl)),
+                              depth);
+
+    /* These are passed as pointers, the type doesn't have to be spelled out. */
+    if (is_T_FN(type) || is_T_ARRAY_TYPE(type))
+        type = get_parameter_type(decl);
+
+    return handle_declarator(id, type, depth);
+}
+
 static tree eval_fn_args(tree args, int depth)
 {
     tree arg, ret = tree_make(CHAIN_HEAD);
@@ -666,7 +686,7 @@ static tree eval_fn_call(tree t, int depth)
                     arg_val = list_entry(arg_val->chain.next,
                                          typeof(*arg_val), chain);
 
-                    decl_identifier = __evaluate_1(arg_decl, depth + 1);
+                    decl_identifier = declare_parameter(arg_decl, depth);
 
                     assign = tree_make(T_ASSIGN);
                     tASSIGN_LHS(assign) = decl_identifier;
-- 
2.43.0


From 5a9ba220089a9b64f19c99d34cabf165029b46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 077/112] fix: Leave it to the parser to reject an invalid
 literal

---
 src/lex.m4 | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index c916865..1bfbf04 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -95,16 +95,29 @@ static char *sl_end(void)
     return ret;
 }
 
-static void  __attribute__((noreturn))lex_err(char *fmt, ...)
+/* Set once the token that is being lexed turned out not to be a valid one. */
+static int lex_failed = 0;
+
+static void lex_err(char *fmt, ...)
 {
     va_list args;
     va_start(args, fmt);
     vfprintf(stderr, fmt, args);
     va_end(args);
 
-    exit(EXIT_FAILURE);
+    lex_failed = 1;
 }
 
+/* An invalid token is left for the parser to reject. */
+`#'define INVALID_TOKEN 1
+`#'define LEX_TOKEN(token)                       \
+    do {                                        \
+        int failed = lex_failed;                \
+                                                \
+        lex_failed = 0;                         \
+        return failed ? INVALID_TOKEN : token;  \
+    } while (0)
+
 /* Obtain the character that an escape sequence denotes.  The string starts after
  * the backslash.  Store where the escape sequence ends in *end. */
 static char lex_escape(char *str, char **end)
@@ -147,14 +160,18 @@ static char lex_escape(char *str, char **end)
     }
 
     lex_err("bogus escape in '\\%s'\n", str);
+
+    return 0;
 }
 
 static char lex_char(char *str)
 {
     char ret, *end;
 
-    if (str[0] != '\'')
+    if (str[0] != '\'') {
         lex_err("first char in char string %s is not a quote.\n", str);
+        return 0;
+    }
 
     if (str[1] == '\\')
         ret = lex_escape(&str[2], &end);
@@ -177,7 +194,7 @@ static void lex_integer(char *str, mpz_t val)
     /* Remove any suffix, the type of a constant has no bearing on the value. */
     digits[strcspn(digits, "uUlL")] = 0;
 
-    if (mpz_init_set_str(val, digits, 0))
+    if (mpz_init_set_str(val, digits, 0) != 0)
         lex_err("invalid integer constant %s\n", str);
 
     free(digits);
@@ -260,16 +277,19 @@ ALL_TARGETS
                                  else
                                      return IDENTIFIER; }
 
-[0-9]+{IS}?                     lex_integer(LEXTEXT, LEXLVAL.integer); return INTEGER;
+[0-9]+{IS}?                     lex_integer(LEXTEXT, LEXLVAL.integer); LEX_TOKEN(INTEGER);
 [0-9]+\.[0-9]+                mpf_init_set_str(LEXLVAL.ffloat, LEXTEXT, 10); return FLOAT_CST;
-0[xX]{X}+{IS}?                  lex_integer(LEXTEXT, LEXLVAL.integer); return INTEGER;
-L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); return INTEGER;
+0[xX]{X}+{IS}?                  lex_integer(LEXTEXT, LEXLVAL.integer); LEX_TOKEN(INTEGER);
+L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT)); LEX_TOKEN(INTEGER);
 \"                              { BEGIN str_lit; sl_begin(); }
 <str_lit>[^\\"\n]*              { sl_append(LEXTEXT, strlen(LEXTEXT)); }
 <str_lit>\\([0-7]{1,3}|x{X}+|.) { char *end;
                                   sl_append_char(lex_escape(LEXTEXT + 1, &end)); }
-<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; return CONST_STRING; }
-<str_lit>\n                     { lex_err("newline in string\n"); }
+<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; LEX_TOKEN(CONST_STRING); }
+<str_lit>\\?\n                  { BEGIN 0; lex_err("newline in string\n"); linenum++; colnum = 1;
+                                  LEX_TOKEN(CONST_STRING); }
+<str_lit><<EOF>>                { BEGIN 0; lex_err("unterminated string\n"); LEX_TOKEN(CONST_STRING); }
+<str_lit>.                      { lex_err("bogus escape in string\n"); }
 
 <INITIAL,compound_start_cond>[ \t\r]                         /* skip whitespace */
 <INITIAL,compound_start_cond>"\n"                            {linenum++; colnum = 1;}
@@ -320,5 +340,5 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 "||"                            return BOOL_OP_OR;
 
 <INITIAL,compound_start_cond>.  return LEXTEXT[0]; /* Let the parser reject it. */
-<str_lit,compound_start_cond><<EOF>> { BEGIN 0; yyterminate(); }
+<compound_start_cond><<EOF>> { BEGIN 0; yyterminate(); }
 %%
-- 
2.43.0


From 440bb9ac584a05c1d98e9881c8ab2f11d1029c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 078/112] fix: Reject escape sequences that are out of range

---
 src/lex.m4 | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 1bfbf04..bc3d70b 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -8,6 +8,7 @@ divert(0)dnl
 `#'include <stdio.h>
 `#'include <string.h>
 `#'include <stdarg.h>
+`#'include <limits.h>
 `#'include "tree.h"
 `#'include "util.h"
 `#'include "TARGET()parser.h"
@@ -123,6 +124,7 @@ static void lex_err(char *fmt, ...)
 static char lex_escape(char *str, char **end)
 {
     char octal[4] = { 0 };
+    long val;
 
     *end = &str[1];
 
@@ -150,13 +152,23 @@ static char lex_escape(char *str, char **end)
         if (strspn(&str[1], "0123456789abcdefABCDEF") == 0)
             break;
 
-        return strtol(&str[1], end, 16);
+        val = strtol(&str[1], end, 16);
+
+        if (val > UCHAR_MAX)
+            break;
+
+        return val;
     case '0' ... '7':
         strncpy(octal, str, 3);
         octal[strspn(octal, "01234567")] = 0;
         *end = &str[strlen(octal)];
 
-        return strtol(octal, NULL, 8);
+        val = strtol(octal, NULL, 8);
+
+        if (val > UCHAR_MAX)
+            break;
+
+        return val;
     }
 
     lex_err("bogus escape in '\\%s'\n", str);
-- 
2.43.0


From 5588a71a338981e3a134f832b921366bab0117b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 079/112] fix: Lex each line of a session from the initial
 state

---
 src/lex.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lex.m4 b/src/lex.m4
index bc3d70b..dd2804c 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -63,6 +63,9 @@ REPL_ONLY
     {
         linenum = line;
         colnum = 1;
+
+        /* The previous one might have been rejected half way through. */
+        BEGIN 0;
     }
 ALL_TARGETS
 
-- 
2.43.0


From 59cedc108051446efa1791ecdcefda7dc0319890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 080/112] fix: argv[0] is the name of the script, however it
 was given

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 422c67f..6475e4d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -155,6 +155,9 @@ int main(int argc, char *argv[])
         /* Decrement the option index to include the script name as a
          * parameter. */
         opt_idx--;
+
+        /* The name might have been given in the same argument as -s. */
+        argv[opt_idx] = (char *)cscript_file;
         return evaluate_cscript(cscript_file, flag_print_ast, dump_type,
                                 argc - opt_idx, &argv[opt_idx]);
     }
-- 
2.43.0


From 434e8455838a23c762dc036de4183cf53fde2a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 081/112] fix: Quote the names of files and directories for the
 shell

---
 src/cscript.c    | 10 +++++++---
 src/preprocess.c | 22 +++++++++++-----------
 src/util.c       | 20 ++++++++++++++++++++
 src/util.h       |  1 +
 4 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index 24f6acf..9a63d0a 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -6,6 +6,7 @@
 #include "preprocess.h"
 #include "tree-dump.h"
 #include "tree-dump-dot.h"
+#include "util.h"
 #include <string.h>
 
 extern FILE *cscriptin;
@@ -29,11 +30,14 @@ static int parse_cscript(const char *fname)
 {
     int parse_result;
     FILE *f;
-    char *command, *include_dir_opts = preprocessor_include_dir_opts();
+    char *command, *include_dir_opts = preprocessor_include_dir_opts(),
+        *file = quote_for_shell(fname);
 
-    asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s \"%s\"",
-             include_dir_opts, fname);
+    if (asprintf(&command, "gcc -x c -E " EXTRA_CPP_OPTS " %s %s",
+                 include_dir_opts, file) == -1)
+        command = NULL;
 
+    free(file);
     free(include_dir_opts);
 
     if (!command) {
diff --git a/src/preprocess.c b/src/preprocess.c
index fa09672..2444102 100644
--- a/src/preprocess.c
+++ b/src/preprocess.c
@@ -6,6 +6,7 @@
 #include "tree.h"
 #include "gc.h"
 #include "preprocess.h"
+#include "util.h"
 
 static tree include_dirs;
 GC_STATIC_TREE(include_dirs);
@@ -14,22 +15,21 @@ GC_STATIC_TREE(include_dirs);
  * `preprocessor_add_include_dir'. */
 char *preprocessor_include_dir_opts(void)
 {
-    size_t include_len = 0;
-    char *opts;
+    char *opts = strdup("");
     tree i;
 
     if (include_dirs)
-        for_each_tree(i, include_dirs)
-            include_len += strlen(tSTRING_VAL(i)) + 6;
+        for_each_tree(i, include_dirs) {
+            char *dir = quote_for_shell(tSTRING_VAL(i)), *longer_opts;
 
-    opts = malloc(include_len + 1);
-    opts[0] = '\0';
+            if (asprintf(&longer_opts, "%s -I %s", opts, dir) == -1) {
+                fprintf(stderr, "Could not compose preprocessor options\n");
+                exit(1);
+            }
 
-    if (include_dirs)
-        for_each_tree(i, include_dirs) {
-            strcat(opts, " -I \"");
-            strcat(opts, tSTRING_VAL(i));
-            strcat(opts, "\"");
+            free(dir);
+            free(opts);
+            opts = longer_opts;
         }
 
     return opts;
diff --git a/src/util.c b/src/util.c
index 43d0233..aaa7103 100644
--- a/src/util.c
+++ b/src/util.c
@@ -1,3 +1,4 @@
+#define _GNU_SOURCE
 #include "util.h"
 #include <stdlib.h>
 #include <string.h>
@@ -13,3 +14,22 @@ char *concat_strings(const char *s1, const char *s2)
 
     return ret;
 }
+
+/* Quote a string such that the shell reads it as a single word. */
+char *quote_for_shell(const char *s)
+{
+    /* Each quote is replaced by four characters. */
+    char *ret = malloc(strlen(s) * 4 + 3), *out = ret;
+
+    *out++ = '\'';
+
+    for (; *s; s++)
+        if (*s == '\'')
+            out = stpcpy(out, "'\\''");
+        else
+            *out++ = *s;
+
+    strcpy(out, "'");
+
+    return ret;
+}
diff --git a/src/util.h b/src/util.h
index 96e0960..c574f45 100644
--- a/src/util.h
+++ b/src/util.h
@@ -1,3 +1,4 @@
 #pragma once
 
 char *concat_strings(const char *s1, const char *s2);
+char *quote_for_shell(const char *s);
-- 
2.43.0


From 2ab690f351fd8cafc2f7aad58f4b307cc32298f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 082/112] fix: Let main be declared before it is defined

---
 src/cscript.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cscript.c b/src/cscript.c
index 9a63d0a..b27cbf9 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -172,6 +172,12 @@ static int __evaluate_cscript(tree head, const char *fname, int argc,
                 tree args = tFN_ARGS(fn);
                 tree arg;
 
+                /* There might be a prototype of it, too. */
+                if (has_main && !tFN_STMTS(fn))
+                    continue;
+
+                num_main_args = 0;
+
                 if (args)
                     for_each_tree(arg, tFN_ARGS(fn))
                         num_main_args++;
-- 
2.43.0


From 6a80299fa139417d8699a536988833d5fa3a3582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 083/112] fix: Let a script use the names argc and argv itself

---
 src/cscript.c  | 10 +++++-----
 src/evaluate.c |  9 +++++++++
 src/evaluate.h |  1 +
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index b27cbf9..c992832 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -115,10 +115,10 @@ static void create_arguments(int argc, char *argv[])
         tree_chain(assign, chain);
     }
 
-    evaluate(chain, "<COMPOSE ARGS>");
+    evaluate_outside_file_scope(chain, "<COMPOSE ARGS>");
 }
 
-static tree make_call_to_main(int num_args)
+static tree make_call_to_main(int num_args, int argc, char *argv[])
 {
     tree main_fncall = tree_make(T_FN_CALL);
 
@@ -126,10 +126,10 @@ static tree make_call_to_main(int num_args)
     tFNCALL_ARGS(main_fncall) = NULL;
 
     if (num_args > 0)
-        tFNCALL_ARGS(main_fncall) = tree_chain_head(get_identifier("argc"));
+        tFNCALL_ARGS(main_fncall) = tree_chain_head(get_integer(argc));
 
     if (num_args > 1)
-        tree_chain(get_identifier("argv"), tFNCALL_ARGS(main_fncall));
+        tree_chain(get_addr(argv), tFNCALL_ARGS(main_fncall));
 
     if (num_args > 2)
         fprintf(stderr, "Error: too many arguments in main function");
@@ -203,7 +203,7 @@ static int __evaluate_cscript(tree head, const char *fname, int argc,
     /* The value returned by main() is the script's exit status. */
     if (has_main)
         return get_c_main_return_value(
-            evaluate_expr(make_call_to_main(num_main_args)));
+            evaluate_expr(make_call_to_main(num_main_args, argc, argv)));
 
     return 0;
 }
diff --git a/src/evaluate.c b/src/evaluate.c
index d1cf7d8..b3ebbdb 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3471,6 +3471,15 @@ void evaluate(tree t, const char *fname)
     __evaluate(t, 0);
 }
 
+/* Evaluate declarations whose names can also be used by the declarations at file
+ * scope. */
+void evaluate_outside_file_scope(tree t, const char *fname)
+{
+    cur_ctx = tECTX_PARENT_CTX(toplevel_ctx);
+    evaluate(t, fname);
+    cur_ctx = toplevel_ctx;
+}
+
 tree evaluate_expr(tree t)
 {
     return __evaluate_1(t, 0);
diff --git a/src/evaluate.h b/src/evaluate.h
index 81b8607..1f48939 100644
--- a/src/evaluate.h
+++ b/src/evaluate.h
@@ -24,5 +24,6 @@ unsigned long int get_integer_bits(tree integer);
 void assign_live_var(tree t, tree left, tree right);
 int get_c_main_return_value(tree t);
 void evaluate(tree t, const char *filename);
+void evaluate_outside_file_scope(tree t, const char *filename);
 tree evaluate_expr(tree t);
 void eval_init(void);
-- 
2.43.0


From e32307600d830be519f2efaa91f69a953c7d22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 084/112] fix: Accept files and headers that only have macros

---
 src/parser.m4 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.m4 b/src/parser.m4
index bf56967..726b59b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1742,7 +1742,12 @@ CSCRIPT_ONLY
     ;
 
     cscript_translation_unit
-    : cscript_external_declaration
+    : /* A file that only has macros is empty once it's preprocessed. */
+    {
+        TARGET()_parse_head = tree_make(CHAIN_HEAD);
+        $$ = TARGET()_parse_head;
+    }
+    | cscript_external_declaration
     {
         TARGET()_parse_head = tree_chain_head($1);
         $$ = TARGET()_parse_head;
-- 
2.43.0


From 6d42bcbb3814cb59b5826f995336b346e046ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 085/112] fix: Evaluate the startup file once when a script
 drops into the REPL

---
 src/cscript.c  |  3 ++-
 src/evaluate.c | 12 +++++++++++-
 src/repl.c     | 25 +++++++++++++++++++++----
 src/repl.h     |  1 +
 4 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/cscript.c b/src/cscript.c
index c992832..58f9c62 100644
--- a/src/cscript.c
+++ b/src/cscript.c
@@ -196,7 +196,8 @@ static int __evaluate_cscript(tree head, const char *fname, int argc,
         exit(1);
     }
 
-    create_arguments(argc, argv);
+    if (argv)
+        create_arguments(argc, argv);
 
     evaluate(head, fname);
 
diff --git a/src/evaluate.c b/src/evaluate.c
index b3ebbdb..d81b21b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2974,6 +2974,14 @@ static tree eval_comp_access(tree t, int depth)
 
 static tree eval_repl(tree t, int depth)
 {
+    tree ctx = cur_ctx;
+
+    /* The names of the startup file are visible wherever the script drops into
+     * the REPL, but must not collide with those of the script. */
+    cur_ctx = tECTX_PARENT_CTX(toplevel_ctx);
+    bic_repl_script_startup();
+    cur_ctx = ctx;
+
     bic_repl();
 
     return NULL;
@@ -3475,9 +3483,11 @@ void evaluate(tree t, const char *fname)
  * scope. */
 void evaluate_outside_file_scope(tree t, const char *fname)
 {
+    tree ctx = cur_ctx;
+
     cur_ctx = tECTX_PARENT_CTX(toplevel_ctx);
     evaluate(t, fname);
-    cur_ctx = toplevel_ctx;
+    cur_ctx = ctx;
 }
 
 tree evaluate_expr(tree t)
diff --git a/src/repl.c b/src/repl.c
index a624279..5756a87 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -464,11 +464,18 @@ static tree repl_parse_line(char *line)
     return stmt;
 }
 
-static void evaluate_startup_file()
+static void evaluate_startup_file(int argc, char *argv[])
 {
+    static int evaluated = 0;
     const char *homedir;
     char *dotfile;
 
+    /* A script might drop into the REPL more than once. */
+    if (evaluated)
+        return;
+
+    evaluated = 1;
+
     if ((homedir = getenv("HOME")) == NULL) {
         homedir = getpwuid(getuid())->pw_dir;
     }
@@ -485,15 +492,25 @@ static void evaluate_startup_file()
     if (access(dotfile, R_OK))
         return;
 
-    evaluate_cscript(dotfile, false, TEXTUAL, 1, &dotfile);
+    if (argv)
+        argv[0] = dotfile;
+
+    evaluate_cscript(dotfile, false, TEXTUAL, argc, argv);
+}
+
+/* Evaluate the startup file for a script that is dropping into the REPL.  The
+ * script has it's own arguments. */
+void bic_repl_script_startup(void)
+{
+    evaluate_startup_file(0, NULL);
 }
 
 void bic_repl()
 {
-    char *line;
+    char *line, *argv[1];
 
     setup_readline();
-    evaluate_startup_file();
+    evaluate_startup_file(1, argv);
 
     line = readline(BIC_PROMPT);
     while (line) {
diff --git a/src/repl.h b/src/repl.h
index c9f0791..d6c0964 100644
--- a/src/repl.h
+++ b/src/repl.h
@@ -3,4 +3,5 @@
 
 void match_identifiers_for_idmap(tree chain, tree idmap,
                                  const char *prefix);
+void bic_repl_script_startup(void);
 void bic_repl();
-- 
2.43.0


From 48c90f2642366a6c9f900b2ebdb1021f0de7e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 086/112] fix: Report a break outside of a loop

---
 src/evaluate.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d81b21b..c9d5017 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -47,6 +47,7 @@ static const char *current_filename;
 
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
+static void evaluate_outside_loop(tree head, int depth);
 
 enum identifier_search_scope
 {
@@ -698,7 +699,7 @@ static tree eval_fn_call(tree t, int depth)
             }
 
             if (!setjmp(tECTX_JMP_BUF(cur_ctx))) {
-                __evaluate(tFN_STMTS(function), depth + 1);
+                evaluate_outside_loop(tFN_STMTS(function), depth + 1);
 
                 /* If we reach here, then the function that we called was either
                  * void so a `return` statment was never executed, or it should have
@@ -3247,7 +3248,7 @@ static tree eval_cpp_include(tree t, int depth)
     /* Delete old #include evaluator state before evaluating the parse
      * tree for the new #includes. */
     include_ctx = NULL;
-    __evaluate(cscript_parse_head, depth + 1);
+    evaluate_outside_loop(cscript_parse_head, depth + 1);
     include_ctx = cur_ctx;
     pop_ctx();
 
@@ -3454,6 +3455,15 @@ static tree __evaluate(tree head, int depth)
     return NULL;
 }
 
+/* Evaluate statements that aren't within a loop. */
+static void evaluate_outside_loop(tree head, int depth)
+{
+    tree result = __evaluate(head, depth);
+
+    if (is_T_BREAK(result))
+        eval_die(result, "`break' outside of a loop\n");
+}
+
 int get_c_main_return_value(tree t)
 {
     int ret;
@@ -3476,7 +3486,7 @@ int get_c_main_return_value(tree t)
 void evaluate(tree t, const char *fname)
 {
     current_filename = fname;
-    __evaluate(t, 0);
+    evaluate_outside_loop(t, 0);
 }
 
 /* Evaluate declarations whose names can also be used by the declarations at file
-- 
2.43.0


From 38971bb6a7533ef481076c87151ba3a16c9ad7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 087/112] fix: Only modify objects

---
 src/evaluate.c | 77 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index c9d5017..7444981 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1645,16 +1645,55 @@ static void assign_array(tree t, tree left, tree right)
     strncpy(tLV_VAL(left)->D_T_PTR, tSTRING_VAL(right), tLV_ARRAY_SZ(left));
 }
 
+/* Obtain the expression within any parentheses. */
+static tree strip_parentheses(tree exp)
+{
+    while (is_T_EXPR_LIST(exp)) {
+        tree i, last = NULL;
+        int nr_exprs = 0;
+
+        for_each_tree(i, tEXPR_LIST_CHAIN(exp)) {
+            last = i;
+            nr_exprs++;
+        }
+
+        if (nr_exprs != 1)
+            break;
+
+        exp = last;
+    }
+
+    return exp;
+}
+
+/* Evaluate an expression that is to be modified.  Only these kinds of expression
+ * designate an object; all others may still evaluate to a live var. */
+static tree evaluate_lvalue(tree t, tree exp, int depth)
+{
+    tree ret = __evaluate_1(exp, depth + 1);
+
+    exp = strip_parentheses(exp);
+
+    switch (TYPE(exp)) {
+    case T_IDENTIFIER:
+    case T_DEREF:
+    case T_ARRAY_ACCESS:
+    case T_COMP_ACCESS:
+    case T_LIVE_VAR:
+        if (is_T_LIVE_VAR(ret))
+            return ret;
+        /* Fall-through. */
+    default:
+        eval_die(t, "Not a valid lvalue.\n");
+    }
+}
+
 static tree eval_assign(tree t, int depth)
 {
-    tree left = __evaluate_1(tASSIGN_LHS(t), depth + 1);
+    tree left = evaluate_lvalue(t, tASSIGN_LHS(t), depth);
     tree rhs = bind_compound_assignment(tASSIGN_RHS(t), tASSIGN_LHS(t), left);
     tree right = decay_function(__evaluate_1(rhs, depth + 1), depth);
 
-    /* Ensure we have a valid lvalue. */
-    if (!is_T_LIVE_VAR(left))
-        eval_die(t, "Not a valid lvalue.\n");
-
     if (!right)
         eval_die(t, "Void value or unsupported initialiser can't be assigned\n");
 
@@ -1784,9 +1823,10 @@ static tree eval_pointer_difference(tree left, tree right, int depth)
 static tree eval_post_inc(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tPINC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = evaluate_lvalue(t, tPINC_EXP(t), depth);
+
+    if (tLV_IS_ARRAY(exp))
+        eval_die(t, "Can not modify an array\n");
 
     ret = get_live_var_value(exp);
 
@@ -1798,9 +1838,10 @@ static tree eval_post_inc(tree t, int depth)
 static tree eval_inc(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tINC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = evaluate_lvalue(t, tINC_EXP(t), depth);
+
+    if (tLV_IS_ARRAY(exp))
+        eval_die(t, "Can not modify an array\n");
 
     live_var_add(exp, get_live_var_step(exp, depth));
 
@@ -1812,9 +1853,10 @@ static tree eval_inc(tree t, int depth)
 static tree eval_post_dec(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tPDEC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = evaluate_lvalue(t, tPDEC_EXP(t), depth);
+
+    if (tLV_IS_ARRAY(exp))
+        eval_die(t, "Can not modify an array\n");
 
     ret = get_live_var_value(exp);
     live_var_sub(exp, get_live_var_step(exp, depth));
@@ -1824,9 +1866,10 @@ static tree eval_post_dec(tree t, int depth)
 static tree eval_dec(tree t, int depth)
 {
     tree ret;
-    tree exp = __evaluate_1(tDEC_EXP(t), depth + 1);
-    if (!is_T_LIVE_VAR(exp))
-        eval_die(t, "Not a valid lvalue.\n");
+    tree exp = evaluate_lvalue(t, tDEC_EXP(t), depth);
+
+    if (tLV_IS_ARRAY(exp))
+        eval_die(t, "Can not modify an array\n");
 
     live_var_sub(exp, get_live_var_step(exp, depth));
     ret = get_live_var_value(exp);
-- 
2.43.0


From e6adff91b0211a2e000a08bc9ddaa932f36af10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 088/112] fix: Adjust parameters that are arrays of function
 pointers

---
 src/parser.m4 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.m4 b/src/parser.m4
index 726b59b..d634a1b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -89,6 +89,9 @@ static tree adjust_parameter(tree declarator)
     if (is_T_POINTER(declarator))
         tPTR_EXP(declarator) = adjust_parameter(tPTR_EXP(declarator));
 
+    if (is_T_FN(declarator))
+        tFN_DECL(declarator) = adjust_parameter(tFN_DECL(declarator));
+
     if (is_T_ARRAY(declarator) && is_T_IDENTIFIER(tARRAY_DECL(declarator))) {
         tree ptr = tree_make(T_POINTER);
         tPTR_EXP(ptr) = tARRAY_DECL(declarator);
-- 
2.43.0


From 20b4e3d323a4a4c74af938e164fb646c1c964e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 089/112] fix: Heed the functions and arrays in the type of a
 cast or sizeof

---
 src/evaluate.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7444981..018a64f 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3141,11 +3141,28 @@ static tree eval_type_specifier(tree t, int depth)
         is_T_ENUMERATOR(type))
         type = __evaluate_1(type, depth + 1);
 
-    while (is_T_POINTER(decl)) {
-        tree ptr = tree_make(D_T_PTR);
-        tDTPTR_EXP(ptr) = type;
-        type = ptr;
-        decl = tPTR_EXP(decl);
+    /* Work from the base type towards where the name would be. */
+    while (decl) {
+        tree outer;
+
+        resolve_ptr_type(&decl, &type);
+
+        if (is_T_FN(decl)) {
+            outer = alloc_copy_tree(decl);
+            tFN_RET_TYPE(outer) = type;
+            tFN_DECL(outer) = NULL;
+            decl = tFN_DECL(decl);
+            type = outer;
+        } else if (is_T_ARRAY(decl)) {
+            if (!tARRAY_SZ(decl))
+                eval_die(decl, "The size of the array isn't known\n");
+
+            outer = tree_make(T_ARRAY_TYPE);
+            tARRAY_TYPE_BASE_TYPE(outer) = type;
+            tARRAY_TYPE_SZ(outer) = get_no_array_elements(decl, depth);
+            decl = tARRAY_DECL(decl);
+            type = outer;
+        }
     }
 
     return type;
-- 
2.43.0


From 561674a3af0addd351d25c4fd58c0e0f0d196c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 090/112] fix: Declare functions by a typedef of their type

---
 src/evaluate.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 018a64f..4c4b83d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -849,6 +849,22 @@ static void resolve_array_type(tree *decl, tree *type)
     *decl = array;
 }
 
+/* The same goes for a function that is declared by a typedef of it's type. */
+static void resolve_function_type(tree *decl, tree *type)
+{
+    tree fn;
+
+    if (!is_T_FN(*type) || !is_T_IDENTIFIER(*decl))
+        return;
+
+    fn = alloc_copy_tree(*type);
+    tFN_DECL(fn) = *decl;
+    tLOCUS(fn) = tLOCUS(*decl);
+
+    *type = tFN_RET_TYPE(fn);
+    *decl = fn;
+}
+
 static tree instantiate_struct(tree struct_decl, int depth, void *base);
 
 static void instantiate_struct_element(tree decl, tree live_struct, int depth)
@@ -978,6 +994,7 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
     }
 
     resolve_array_type(&decl, &decl_type);
+    resolve_function_type(&decl, &decl_type);
 
     if (is_T_ARRAY(decl)) {
         tree live_var = alloc_array(decl, decl_type, depth);
@@ -1181,6 +1198,8 @@ static tree handle_extern_decl(tree extern_type, tree decl)
         resolve_ptr_type(&decl, &extern_type);
     }
 
+    resolve_function_type(&decl, &extern_type);
+
     id = decl;
 
     if (is_T_FN(decl))
-- 
2.43.0


From e4bf55731874d357c97d5fdc44d57392f86e6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 091/112] fix: Declare extern arrays by a typedef of their type

---
 src/evaluate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 4c4b83d..4634477 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1198,6 +1198,7 @@ static tree handle_extern_decl(tree extern_type, tree decl)
         resolve_ptr_type(&decl, &extern_type);
     }
 
+    resolve_array_type(&decl, &extern_type);
     resolve_function_type(&decl, &extern_type);
 
     id = decl;
-- 
2.43.0


From 54d4f3832c1c5fe9da49fadccab99ad08200c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 092/112] fix: Escape the strings of a dump

---
 src/tree-dump-primitives.h | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index c134a9c..8015593 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -25,12 +25,31 @@ static inline void tree_dump_flag(tree t, bool flag, enum DUMP_TYPE dt)
         fprintf(stderr, "false");
 }
 
+/* Print a string such that it's end, and that of the line, can be told. */
+static inline void tree_dump_escaped(const char *s)
+{
+    for (; *s; s++) {
+        if (*s == '\n') {
+            fputs("\\n", stderr);
+            continue;
+        }
+
+        if (*s == '"' || *s == '\\')
+            fputc('\\', stderr);
+
+        fputc(*s, stderr);
+    }
+}
+
 static inline void tree_dump_string(tree t, const char *s, enum DUMP_TYPE dt)
 {
     if (dt == TEXTUAL)
-        fprintf(stderr, "\"%s\"", s);
-    else
-        fprintf(stderr, "%s", s);
+        fputc('"', stderr);
+
+    tree_dump_escaped(s);
+
+    if (dt == TEXTUAL)
+        fputc('"', stderr);
 }
 
 static inline void tree_dump_jmp_buf(tree t, jmp_buf b, enum DUMP_TYPE dt)
-- 
2.43.0


From b719f90c7607cb7decafd4934295d7dca837fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 093/112] fix: Dump all of the digits of a floating point
 constant

---
 src/tree-dump-primitives.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree-dump-primitives.h b/src/tree-dump-primitives.h
index 8015593..7f6a709 100644
--- a/src/tree-dump-primitives.h
+++ b/src/tree-dump-primitives.h
@@ -79,7 +79,7 @@ static inline void tree_dump_live_var_val(tree t, union value *v, enum DUMP_TYPE
 
 static inline void tree_dump_ffloat(tree t, mpf_t val, enum DUMP_TYPE dt)
 {
-    gmp_fprintf(stderr, "%Ff", val);
+    gmp_fprintf(stderr, "%.Ff", val);
 }
 
 static inline void tree_dump_integer(tree t, mpz_t val, enum DUMP_TYPE dt)
-- 
2.43.0


From 9b7fb9d804eaab5ed9560369f97756d0e6edde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 094/112] fix: Draw every value in a node of its own in dot
 dumps

---
 src/gendot.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index e644d86..924f9a6 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -44,13 +44,14 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        }\n");
         } else {
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p_val [label=\\\"\", head);\n");
+            fprintf(f, "        fprintf(stderr, \"tree_%%p_%s [label=\\\"\", head);\n",
+                    prop.first.c_str());
             fprintf(f, "        tree_dump_%s(head, %s(head), DOT);\n",
                     prop.second.baseType.name.c_str(), type.getPropAccessor(prop.first).c_str());
             fprintf(f, "        fprintf(stderr, \"\\\"];\\n\");\n");
             fprintf(f, "        tree_print_indent(depth);\n");
-            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_val [label=\\\"%s\\\"];\\n\", head, head);\n",
-                    prop.first.c_str());
+            fprintf(f, "        fprintf(stderr, \"tree_%%p -> tree_%%p_%s [label=\\\"%s\\\"];\\n\", head, head);\n",
+                    prop.first.c_str(), prop.first.c_str());
         }
     }
 
-- 
2.43.0


From 81abda0457ea02677d37cb24c0efd5ad23ebb755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:01 +0000
Subject: [PATCH 095/112] fix: Draw no edge to the elements of an empty chain

---
 src/gendot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gendot.cpp b/src/gendot.cpp
index 924f9a6..22beda6 100644
--- a/src/gendot.cpp
+++ b/src/gendot.cpp
@@ -33,10 +33,12 @@ static void outputTreeType(FILE *f, const struct TreeType &type)
             fprintf(f, "        if (%s(head)) {\n", propAccessor.c_str());
             fprintf(f, "            tree_print_indent(depth);\n");
             fprintf(f, "            if (is_CHAIN_HEAD(%s(head))) {\n", propAccessor.c_str());
-            fprintf(f, "                tree first_member = NULL;\n");
-            fprintf(f, "                for_each_tree(first_member, %s(head)) break;\n", propAccessor.c_str());
-            fprintf(f, "                fprintf(stderr, \"tree_%%p -> tree_%%p [label=\\\"%s\\\", color=red, style=dashed];\\n\", head, first_member);\n",
+            fprintf(f, "                tree first_member;\n");
+            fprintf(f, "                for_each_tree(first_member, %s(head)) {\n", propAccessor.c_str());
+            fprintf(f, "                    fprintf(stderr, \"tree_%%p -> tree_%%p [label=\\\"%s\\\", color=red, style=dashed];\\n\", head, first_member);\n",
                     prop.first.c_str());
+            fprintf(f, "                    break;\n");
+            fprintf(f, "                }\n");
             fprintf(f, "            } else\n");
             fprintf(f, "                fprintf(stderr, \"tree_%%p -> tree_%%p[label=\\\"%s\\\"];\\n\", head, %s(head));\n",
                     prop.first.c_str(), propAccessor.c_str());
-- 
2.43.0


From c2742f453a59b83ababe7cd7658482215ab81160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 096/112] fix: Ignore pragmas

---
 src/lex.m4 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lex.m4 b/src/lex.m4
index dd2804c..1233b43 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -286,6 +286,7 @@ REPL_ONLY
 CSCRIPT_ONLY
 "`#'"[ \t]*[0-9]+[ \t]*\"[^\"\n]+\"[ 1-4]*    {handle_line_marker(LEXTEXT);}
 ALL_TARGETS
+"`#'"[ \t]*"pragma"[^\n]*            /* Ignore pragmas */
 {L}({L}|{D})*                   {LEXLVAL.tree = get_identifier(LEXTEXT);
                                  if (is_typename(LEXLVAL.tree))
                                      return TYPE_NAME;
-- 
2.43.0


From d94d0c384bd163a120bdc40206c29a4d8c4ff9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 097/112] fix: Ignore an attribute up to the parenthesis that
 closes it

---
 src/lex.m4 | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index 1233b43..bfba250 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -112,6 +112,9 @@ static void lex_err(char *fmt, ...)
     lex_failed = 1;
 }
 
+/* What follows an attribute or asm, and how many parentheses of it are open. */
+static int state_after_ignored, ignored_parens;
+
 /* An invalid token is left for the parser to reject. */
 `#'define INVALID_TOKEN 1
 `#'define LEX_TOKEN(token)                       \
@@ -231,13 +234,22 @@ IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 
 %x str_lit
 %x compound_start_cond
+%x ignored
 
 %%
-"__attribute__"[ \t]*"((".*"))" /* Ignore attributes */
+<INITIAL,compound_start_cond>"__attribute"("__")?|"__asm"("__")? { /* Ignore these */
+                                 ignored_parens = 0;
+                                 state_after_ignored = YY_START;
+                                 BEGIN ignored; }
+<ignored>"("                    ignored_parens++;
+<ignored>")"                    if (--ignored_parens <= 0) BEGIN state_after_ignored;
+<ignored>\"(\\.|[^\\"\n])*\"     /* Parentheses in strings don't count */
+<ignored>\n                     {linenum++; colnum = 1;}
+<ignored>.
+<ignored><<EOF>>                { BEGIN 0; lex_err("unterminated attribute\n"); LEX_TOKEN(INVALID_TOKEN); }
 "_Nullable"                     /* Ignore builtin */
 "_Nonnull"                      /* Ignore builtin */
 ("__")?"restrict"               /* Ignore builtin */
-"__asm"("__")?[ \t]*"(".*")"    /* Ignore asm stmts. */
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
 "volatile"                      /* Ignore volatile */
-- 
2.43.0


From 44f3041717e79890bc51d57e934ef445ab62cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 098/112] fix: Accept the alternate spellings of signed and the
 qualifiers

---
 src/lex.m4 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lex.m4 b/src/lex.m4
index bfba250..2bdfabc 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -249,17 +249,17 @@ IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 <ignored><<EOF>>                { BEGIN 0; lex_err("unterminated attribute\n"); LEX_TOKEN(INVALID_TOKEN); }
 "_Nullable"                     /* Ignore builtin */
 "_Nonnull"                      /* Ignore builtin */
-("__")?"restrict"               /* Ignore builtin */
+("__")?"restrict"("__")?        /* Ignore builtin */
 "__extension__"                 /* Ignore gcc warning suppression
 * extension. */
-"volatile"                      /* Ignore volatile */
+("__")?"volatile"("__")?        /* Ignore volatile */
 ("__")?"inline"("__")?          /* Ignore inlining */
 "auto"				return AUTO;
 "break"				return BREAK;
 "case"				return CASE;
 "char"				return CHAR;
 "<REPL>"      return REPL;
-"const"
+("__")?"const"("__")?
 "continue"			return CONTINUE;
 "default"			return DEFAULT;
 "do"				return DO;
@@ -277,7 +277,7 @@ IS                              ([uU]([lL]|"ll"|"LL")?|([lL]|"ll"|"LL")[uU]?)
 "register"			return REGISTER;
 "return"			return RETURN;
 "short"				return SHORT;
-"signed"			return SIGNED;
+"signed"|"__signed"("__")?	return SIGNED;
 "sizeof"			return SIZEOF;
 "static"			return STATIC;
 "struct"			{ BEGIN compound_start_cond; return STRUCT;}
-- 
2.43.0


From 15d29fff1ee2e4b45bc9b5af92c72aca8d9b333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 099/112] fix: Initialise arrays with strings that contain null
 characters

---
 src/c.lang     |  3 ++-
 src/evaluate.c |  8 +++++++-
 src/lex.m4     | 14 +++++++++-----
 src/parser.m4  |  5 ++---
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index d3f2fec..964edf3 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -19,7 +19,8 @@
          (("VAL" ffloat)))
 
 (deftype T_STRING "Constant string" "tSTRING"
-         (("VAL" string)))
+         (("VAL" string)
+          ("LEN" sz)))
 
 (deftype T_P_INC "Increment (postfix)" "tPINC"
          ("EXP"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 4634477..0f90263 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1659,10 +1659,16 @@ static tree bind_compound_assignment(tree op, tree lhs, tree left)
  * initialises it. */
 static void assign_array(tree t, tree left, tree right)
 {
+    size_t len, array_sz = tLV_ARRAY_SZ(left);
+    char *array = tLV_VAL(left)->D_T_PTR;
+
     if (!is_T_STRING(right) || !is_char_type(tDTPTR_EXP(tLV_TYPE(left))))
         eval_die(t, "Can not assign to an array\n");
 
-    strncpy(tLV_VAL(left)->D_T_PTR, tSTRING_VAL(right), tLV_ARRAY_SZ(left));
+    /* Note that a string might contain null characters. */
+    len = tSTRING_LEN(right) < array_sz ? tSTRING_LEN(right) : array_sz;
+    memcpy(array, tSTRING_VAL(right), len);
+    memset(array + len, 0, array_sz - len);
 }
 
 /* Obtain the expression within any parentheses. */
diff --git a/src/lex.m4 b/src/lex.m4
index 2bdfabc..9417868 100644
--- a/src/lex.m4
+++ b/src/lex.m4
@@ -87,14 +87,18 @@ static void sl_append_char(char c)
     sl_append(&c, 1);
 }
 
-static char *sl_end(void)
+static tree sl_end(void)
 {
-    char *ret = malloc(sl_len + 1);
+    tree ret = tree_make(T_STRING);
+    char *val = malloc(sl_len + 1);
 
     if (sl_len)
-        memcpy(ret, sl_buf, sl_len);
+        memcpy(val, sl_buf, sl_len);
 
-    ret[sl_len] = '\0';
+    val[sl_len] = '\0';
+
+    tSTRING_VAL(ret) = val;
+    tSTRING_LEN(ret) = sl_len;
 
     return ret;
 }
@@ -313,7 +317,7 @@ L?'(\\.|[^\\'\n])+'	        mpz_init_set_si(LEXLVAL.integer, lex_char(LEXTEXT));
 <str_lit>[^\\"\n]*              { sl_append(LEXTEXT, strlen(LEXTEXT)); }
 <str_lit>\\([0-7]{1,3}|x{X}+|.) { char *end;
                                   sl_append_char(lex_escape(LEXTEXT + 1, &end)); }
-<str_lit>\"                     { LEXLVAL.string = sl_end(); BEGIN 0; LEX_TOKEN(CONST_STRING); }
+<str_lit>\"                     { LEXLVAL.tree = sl_end(); BEGIN 0; LEX_TOKEN(CONST_STRING); }
 <str_lit>\\?\n                  { BEGIN 0; lex_err("newline in string\n"); linenum++; colnum = 1;
                                   LEX_TOKEN(CONST_STRING); }
 <str_lit><<EOF>>                { BEGIN 0; lex_err("unterminated string\n"); LEX_TOKEN(CONST_STRING); }
diff --git a/src/parser.m4 b/src/parser.m4
index d634a1b..2b996de 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -204,7 +204,7 @@ REPL_ONLY
 ALL_TARGETS
 %token <tree> TYPE_NAME
 %token <string> CONST_BITS
-%token <string> CONST_STRING
+%token <tree> CONST_STRING
 %token <integer> INTEGER;
 %token <ffloat> FLOAT_CST;
 %type <tree> primary_expression
@@ -308,8 +308,7 @@ primary_expression
 }
 | CONST_STRING
 {
-    tree str = tree_make(T_STRING);
-    tSTRING_VAL(str) = $1;
+    tree str = $1;
     set_locus(str, @1);
     $$ = str;
 }
-- 
2.43.0


From 60484cbc1af64794872d37b71d047589fcf7629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 100/112] fix: Don't treat unsized arrays that aren't
 parameters as pointers

---
 src/c.lang     |  3 ++-
 src/evaluate.c | 28 +++++++++++++++++++++++++++-
 src/parser.m4  |  1 +
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/c.lang b/src/c.lang
index 964edf3..9b7599c 100644
--- a/src/c.lang
+++ b/src/c.lang
@@ -50,7 +50,8 @@
          (("STR" string)))
 
 (deftype T_POINTER "Pointer" "tPTR"
-         ("EXP" "QUALIFIERS"))
+         ("EXP" "QUALIFIERS"
+          ("IS_ARRAY" flag)))
 
 (deftype T_INSPECT "Inspect Identifier" "tINSPECT"
          ("EXP"))
diff --git a/src/evaluate.c b/src/evaluate.c
index 0f90263..7a11d39 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -832,6 +832,30 @@ static tree instantiate_array(tree array_decl, tree base_type, void *base,
     return live_var;
 }
 
+/* An array of an unknown number of elements is parsed as if it was a pointer,
+ * which is what it is when it declares a parameter.  Anything else that's
+ * declared as one is an array of `no_elements'. */
+static tree complete_array(tree decl, size_t no_elements)
+{
+    tree ret;
+
+    if (!is_T_POINTER(decl))
+        return decl;
+
+    if (tPTR_IS_ARRAY(decl)) {
+        ret = tree_make(T_ARRAY);
+        tARRAY_DECL(ret) = tPTR_EXP(decl);
+        tARRAY_SZ(ret) = tree_make(T_INTEGER);
+        mpz_init_set_ui(tINT_VAL(tARRAY_SZ(ret)), no_elements);
+        tLOCUS(ret) = tLOCUS(decl);
+    } else {
+        ret = alloc_copy_tree(decl);
+        tPTR_EXP(ret) = complete_array(tPTR_EXP(decl), no_elements);
+    }
+
+    return ret;
+}
+
 /* An object that has a typedef of an array as it's type is declared just as if
  * it was declared as an array itself. */
 static void resolve_array_type(tree *decl, tree *type)
@@ -1184,6 +1208,7 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     tree live_var, id, previous_decl;
     void *sym_addr;
 
+    decl = complete_array(decl, 0);
     resolve_ptr_type(&decl, &extern_type);
 
     /* A pointer to a function is an object rather than a function. */
@@ -2777,7 +2802,8 @@ static tree expand_decl_chain(tree decl_chain, int depth)
                 if (is_T_BITFIELD(declarator) && !tBITFIELD_DECLARATOR(declarator))
                     continue;
 
-                tree_chain(make_member_decl(decl, declarator, type), new_chain);
+                tree_chain(make_member_decl(decl, complete_array(declarator, 0),
+                                            type), new_chain);
             }
     }
 
diff --git a/src/parser.m4 b/src/parser.m4
index 2b996de..614ea1b 100644
--- a/src/parser.m4
+++ b/src/parser.m4
@@ -1204,6 +1204,7 @@ direct_declarator
 {
     tree ptr = tree_make(T_POINTER);
     tPTR_EXP(ptr) = $1;
+    tPTR_IS_ARRAY(ptr) = 1;
     set_locus(ptr, @2);
     $$ = ptr;
 }
-- 
2.43.0


From dd0ba8317d51ca1915e968ddd6cd66319e662c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 101/112] fix: Give an array the size of the string that
 initialises it

---
 src/evaluate.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 7a11d39..75c6b4d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1071,14 +1071,20 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
         return NULL;
     case T_ASSIGN:
     {
-        tree ret = handle_declarator(tASSIGN_LHS(decl), decl_type, depth),
+        tree ret, lhs = tASSIGN_LHS(decl), rhs = tASSIGN_RHS(decl),
             assign = tree_make(T_ASSIGN);
 
+        /* The string that initialises an array determines it's size. */
+        if (is_T_STRING(rhs) && is_T_POINTER(lhs) && tPTR_IS_ARRAY(lhs))
+            lhs = complete_array(lhs, tSTRING_LEN(rhs) + 1);
+
+        ret = handle_declarator(lhs, decl_type, depth);
+
         /* handle_declarator will have stripped off any pointers from the decl name.
          * Therefore ret now becomes the LHS of the assignment. Don't change the
          * declaration itself since it might be evaluated again. */
         tASSIGN_LHS(assign) = ret;
-        tASSIGN_RHS(assign) = tASSIGN_RHS(decl);
+        tASSIGN_RHS(assign) = rhs;
         tLOCUS(assign) = tLOCUS(decl);
 
         __evaluate_1(assign, depth + 1);
-- 
2.43.0


From 2802e032a670e85e6855f711a8a2e836e12b75dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:14 +0000
Subject: [PATCH 102/112] fix: Link declarations of functions and extern
 objects to those at file scope

A function could not be declared again with `extern' or `static' if it had
been declared without it, nor after its definition; a declaration in a block of
a function or an object of the script was looked up in the libraries, and the
declaration of a function quietly did nothing if the name was that of an
object.
---
 src/evaluate.c | 77 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 75c6b4d..15cf95e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1001,6 +1001,42 @@ static tree alloc_array(tree array_decl, tree base_type, int depth)
     return live_var;
 }
 
+/* The declaration of a function, or that of an extern object, refers to what
+ * has been declared at file scope. See if there is such a thing and, if so, map
+ * it into the current context. */
+static bool link_to_file_scope(tree id, tree type)
+{
+    tree decl = NULL;
+
+    if (resolve_identifier(id, SCOPE_CURRENT_CTX))
+        return false;
+
+    if (cur_ctx != toplevel_ctx)
+        decl = resolve_id(id, toplevel_ctx, NORMAL_TYPE);
+
+    if (!decl && include_ctx)
+        decl = resolve_id(id, include_ctx, NORMAL_TYPE);
+
+    if (is_T_FN(type)) {
+        if (!is_T_FN(decl) && !is_T_EXT_FUNC(decl))
+            return false;
+    } else if (is_T_DECL_COMPOUND(type)) {
+        if (!is_T_LIVE_COMPOUND(decl) || tLV_COMP_DECL(decl) != type)
+            return false;
+    } else if (is_T_ARRAY(type)) {
+        if (!is_T_LIVE_VAR(decl) || !tLV_IS_ARRAY(decl))
+            return false;
+    } else {
+        if (!is_T_LIVE_VAR(decl) || tLV_IS_ARRAY(decl) ||
+            TYPE(tLV_TYPE(decl)) != TYPE(type))
+            return false;
+    }
+
+    map_identifier(id, decl);
+
+    return true;
+}
+
 static tree handle_declarator(tree decl, tree decl_type, int depth)
 {
     /* Strip off any pointer objects and add them to the base type. */
@@ -1047,10 +1083,14 @@ static tree handle_declarator(tree decl, tree decl_type, int depth)
             return handle_declarator(id, fn, depth);
         }
 
+        if (!tFN_STMTS(fn) && link_to_file_scope(id, fn))
+            return decl;
+
         previous_decl = resolve_identifier(tFN_DECL(fn), SCOPE_CURRENT_CTX);
 
         /* Allow a declaration (not a definition!) of a funcion to be repeated. */
-        if (previous_decl && !tFN_STMTS(fn))
+        if (!tFN_STMTS(fn) && (is_T_FN(previous_decl) ||
+                               is_T_EXT_FUNC(previous_decl)))
             return previous_decl;
 
         /* Replace a previous declaration by the definition. Do this in place so
@@ -1164,6 +1204,9 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
     /* We allow extern functions to be declared more than once, see if
      * this has already been declared, if so, just return the
      * identifier. */
+    if (link_to_file_scope(id, fndecl))
+        return id;
+
     previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
     if (is_T_LIVE_VAR(previous_decl)) {
@@ -1180,10 +1223,9 @@ static tree handle_extern_fn(tree return_type, tree fndecl)
         return id;
     }
 
-    if (is_T_EXT_FUNC(previous_decl))
+    if (is_T_EXT_FUNC(previous_decl) || is_T_FN(previous_decl))
         return id;
 
-
     ext_func = tree_make(T_EXT_FUNC);
     tEXT_FUNC_FN(ext_func) = fndecl;
 
@@ -1240,19 +1282,26 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     if (is_T_ARRAY(decl)) {
         tree id = tARRAY_DECL(decl);
         size_t array_sz = get_array_size(decl, extern_type, 0);
-        sym_addr = resolve_symbol(tARRAY_DECL(decl));
+
+        if (link_to_file_scope(id, decl))
+            return id;
 
         previous_decl = resolve_identifier(id, SCOPE_CURRENT_CTX);
 
         if (is_T_LIVE_VAR(previous_decl) && tLV_IS_ARRAY(previous_decl))
             return id;
 
+        sym_addr = resolve_symbol(id);
+
         map_identifier(id, instantiate_array(decl, extern_type,
                                              sym_addr, array_sz));
 
         return id;
     }
 
+    if (link_to_file_scope(id, extern_type))
+        return id;
+
     /* See if this symbol has already been declared. If it has, and has the same
      * type, just return the already declared symbol.
      */
@@ -1385,25 +1434,33 @@ static tree handle_forward_decl(tree type)
     return id;
 }
 
-static bool is_function_definition(tree declarator)
+static bool declares_function(tree declarator)
 {
     while (is_T_POINTER(declarator))
         declarator = tPTR_EXP(declarator);
 
-    return is_T_FN(declarator) && tFN_STMTS(declarator);
+    return is_T_FN(declarator) && !is_T_POINTER(tFN_DECL(declarator));
 }
 
 static tree handle_static_decl(tree base_type, tree decl, int depth)
 {
   tree decls = tDECL_DECLS(decl), i, ret = NULL;
+  bool is_function = false;
 
-  /* See if the decl defines a function. If so, just evaluate it as normal.
+  /* See if the decl declares a function. If so, just evaluate it as normal.
    * `static' functions have no real meaning in bic. */
   if (is_CHAIN_HEAD(decls))
       for_each_tree(i, decls)
-          if (is_function_definition(i))
-              return handle_declarator(i, evaluate_decl_type(base_type, depth),
-                                       depth + 1);
+          is_function = is_function || declares_function(i);
+
+  if (is_function) {
+      base_type = evaluate_decl_type(base_type, depth);
+
+      for_each_tree(i, decls)
+          ret = handle_declarator(i, base_type, depth);
+
+      return ret;
+  }
 
   /* This function will be called the very first time this static
    * decl is encountered.  We will change the type of tree object
-- 
2.43.0


From 6973bb3f3526996a42afbce6f784382ac74ddccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 103/112] fix: declare parameters of function type

---
 src/evaluate.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 15cf95e..f530f4e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -480,7 +480,14 @@ tree get_parameter_type(tree decl)
 /* Declare a parameter in the context of a function call. */
 static tree declare_parameter(tree decl, int depth)
 {
-    tree id = tDECL_DECLS(decl), type;
+    tree id = tDECL_DECLS(decl), fn = id, type;
+
+    while (is_T_POINTER(fn))
+        fn = tPTR_EXP(fn);
+
+    /* A function is passed as a pointer to it. */
+    if (is_T_FN(fn) && is_T_IDENTIFIER(tFN_DECL(fn)))
+        return handle_declarator(tFN_DECL(fn), get_parameter_type(decl), depth);
 
     if (!id || !is_T_IDENTIFIER(id))
         return __evaluate_1(decl, depth + 1);
-- 
2.43.0


From d8330274fd2dc8418539b23760123d7bc1200791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 104/112] fix: locate errors where the object is used, not
 where it's declared

---
 src/evaluate.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index f530f4e..57fce9c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -45,6 +45,10 @@ const tree get_include_chain(void)
 
 static const char *current_filename;
 
+/* The innermost expression or statement that is being evaluated. */
+static tree cur_expr = NULL;
+GC_STATIC_TREE(cur_expr);
+
 static tree __evaluate_1(tree t, int depth);
 static tree __evaluate(tree t, int depth);
 static void evaluate_outside_loop(tree head, int depth);
@@ -113,6 +117,12 @@ void __attribute__((noreturn)) eval_die(tree t, const char *format, ...)
 {
     const char *file = current_filename ? current_filename : "<REPL>";
 
+    /* An object only knows where it has been declared, the error is where it's
+     * used. */
+    if (cur_expr && (!t || !t->locus.line_no || is_T_LIVE_VAR(t) ||
+                     is_T_LIVE_COMPOUND(t)))
+        t = cur_expr;
+
     /* The error isn't necessarily in the file that is being executed. */
     if (t->locus.file)
         file = tID_STR(t->locus.file);
@@ -2003,6 +2013,9 @@ static tree eval_negate(tree t, int depth)
     tree intval;
     tree exp = __evaluate_1(tNEGATE_EXP(t), depth + 1);
 
+    if (!exp)
+        eval_die(t, "Can't take the logical negation of a void value.\n");
+
     intval = convert_to_comparable_type(exp, depth);
 
     if (!mpz_cmp_ui(tINT_VAL(intval), 0))
@@ -3497,11 +3510,14 @@ static tree eval_self(tree t, int depth)
 
 static tree __evaluate_1(tree t, int depth)
 {
-    tree result = NULL;
+    tree result = NULL, enclosing_expr = cur_expr;
 
     if (!t)
         return result;
 
+    if (t->locus.line_no && !is_T_LIVE_VAR(t) && !is_T_LIVE_COMPOUND(t))
+        cur_expr = t;
+
     switch (TYPE(t))
     {
     case T_IDENTIFIER: result = eval_identifier(t, depth + 1); break;
@@ -3573,6 +3589,8 @@ static tree __evaluate_1(tree t, int depth)
     default:           result = NULL;                          break;
     }
 
+    cur_expr = enclosing_expr;
+
     return result;
 }
 
@@ -3607,6 +3625,7 @@ static tree evaluate_statement(tree stmt, int depth)
             cscript_exit(tRET_EXP(result));
 
         tECTX_RETVAL(fn_ctx) = tRET_EXP(result);
+        cur_expr = result;
         longjmp(tECTX_JMP_BUF(fn_ctx), 1);
     }
 
-- 
2.43.0


From acce9f6b0f078b5c7632a6ab330648614342b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 105/112] fix: reject objects of type void

---
 src/evaluate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 57fce9c..fbebd02 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -795,6 +795,10 @@ static void make_and_map_live_var(tree id, tree type)
         eval_die(id, "Can not create incomplete type %s\n",
                  tID_STR(id));
 
+    if (is_D_T_VOID(type))
+        eval_die(id, "Can not create an object of type void: %s\n",
+                 tID_STR(id));
+
     live_var = make_live_var(type);
     tLOCUS(live_var) = tLOCUS(id);
 
-- 
2.43.0


From 3e566ca968b4153ad05ef8041b3169fa09e36c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 106/112] fix: reject arrays of a negative size

---
 src/evaluate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index fbebd02..169ed1c 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -815,6 +815,9 @@ static tree get_no_array_elements(tree array_decl, int depth)
     if (!is_T_INTEGER(no_elements))
         eval_die(array_decl, "Attempted to create array with non-constant size\n");
 
+    if (mpz_sgn(tINT_VAL(no_elements)) < 0)
+        eval_die(array_decl, "Attempted to create array with negative size\n");
+
     return no_elements;
 }
 
-- 
2.43.0


From 16bf9032a6befa5db672340cd0834338215a2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 107/112] fix: reject two members of a compound with the same
 name

---
 src/evaluate.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 169ed1c..e97eb7e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2847,6 +2847,16 @@ static bool is_anonymous_member(tree decl)
         !tCOMP_DECL_ID(type);
 }
 
+/* Ensure that no two members of a compound have the same name.  Those of an
+ * anonymous structure or union are members of what contains it. */
+static void check_member_name(tree id, tree members)
+{
+    if (__resolve_id(id, members))
+        eval_die(id, "Duplicate member %s\n", tID_STR(id));
+
+    __map_identifer(id, id, members);
+}
+
 /* Build a simplified decl chain, ensuring all decls with multiple
  * identifiers are split.
  *
@@ -2945,6 +2955,7 @@ static tree eval_decl_compound(tree t, int depth)
     tree i, struct_id = tCOMP_DECL_ID(t);
     int offset = 0;
     size_t max_member_sz = 0, max_alignment = 1;
+    tree members = tree_make(CHAIN_HEAD);
 
     /* We can arrive here if something like the following code is evaluated:
      *
@@ -3021,9 +3032,17 @@ static tree eval_decl_compound(tree t, int depth)
             id = handle_declarator(tDECL_DECLS(decl), tDECL_TYPE(decl), depth);
 
             live_var = resolve_identifier(id, SCOPE_CURRENT_CTX);
-        } else
+
+            check_member_name(id, members);
+        } else {
+            tree member;
+
             live_var = alloc_struct(tDECL_TYPE(decl), depth);
 
+            for_each_tree(member, tLV_COMP_MEMBERS(live_var))
+                check_member_name(tEMAP_LEFT(member), members);
+        }
+
         /* Calculate the offset of the member within the struct.
          *
          * The algorithm we use to calculate the offset of a given
-- 
2.43.0


From 68d530d207407b89c5e8876746ee226a39c8bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 108/112] fix: define an object that is declared extern with an
 initialiser

---
 src/evaluate.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index e97eb7e..8b29dac 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -1283,6 +1283,14 @@ static tree handle_extern_decl(tree extern_type, tree decl)
     decl = complete_array(decl, 0);
     resolve_ptr_type(&decl, &extern_type);
 
+    /* This is a definition. */
+    if (is_T_ASSIGN(decl)) {
+        if (cur_ctx != toplevel_ctx)
+            eval_die(decl, "Extern declaration with an initialiser\n");
+
+        return handle_declarator(decl, extern_type, 0);
+    }
+
     /* A pointer to a function is an object rather than a function. */
     if (is_T_FN(decl) && is_T_POINTER(tFN_DECL(decl))) {
         tree fn = alloc_copy_tree(decl);
-- 
2.43.0


From 225dc4ba30bade8bfcb12d8b2430b7a7e392be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 109/112] fix: members of a structure beyond 2 GB have their
 own offsets

The offset of the member being laid out was held in an int, so it wrapped
and the structure's size along with it.
---
 src/evaluate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 8b29dac..96cd42b 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -2961,7 +2961,7 @@ static size_t get_alignment_for_type(tree t, int depth)
 static tree eval_decl_compound(tree t, int depth)
 {
     tree i, struct_id = tCOMP_DECL_ID(t);
-    int offset = 0;
+    size_t offset = 0;
     size_t max_member_sz = 0, max_alignment = 1;
     tree members = tree_make(CHAIN_HEAD);
 
-- 
2.43.0


From e99d98849df3bdf863cbc3abbc55e52ea8c78aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 110/112] fix: receive completions that are longer than a pipe
 holds

---
 src/repl.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/repl.c b/src/repl.c
index 5756a87..f1d3fc0 100644
--- a/src/repl.c
+++ b/src/repl.c
@@ -253,6 +253,24 @@ static void send_matches(char **matches, int fd)
     }
 }
 
+/* Read `len' bytes, which may be more than what the pipe holds at once. */
+static int read_all(int fd, void *buf, size_t len)
+{
+    char *pos = buf;
+
+    while (len) {
+        ssize_t ret = read(fd, pos, len);
+
+        if (ret <= 0)
+            return -1;
+
+        pos += ret;
+        len -= ret;
+    }
+
+    return 0;
+}
+
 static char **recieve_matches(int fd)
 {
     char **ret;
@@ -260,7 +278,7 @@ static char **recieve_matches(int fd)
     int i;
 
     /* If the object couldn't be evaluated, nothing will have been sent. */
-    if (read(fd, &n, sizeof(n)) != sizeof(n) || !n)
+    if (read_all(fd, &n, sizeof(n)) || !n)
         return NULL;
 
     ret = malloc(sizeof(*ret) * (n + 1));
@@ -268,11 +286,11 @@ static char **recieve_matches(int fd)
     for (i = 0; i < n; i++) {
         size_t match_len;
 
-        read(fd, &match_len, sizeof(match_len));
+        read_all(fd, &match_len, sizeof(match_len));
 
         ret[i] = malloc(match_len);
 
-        read(fd, ret[i], match_len);
+        read_all(fd, ret[i], match_len);
     }
 
     ret[n] = NULL;
-- 
2.43.0


From 910192029d919bc3b890c552cee1489ddc5909b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:44 +0000
Subject: [PATCH 111/112] fix: provide alloca() as the C library's headers
 define it

---
 src/evaluate.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/evaluate.c b/src/evaluate.c
index 96cd42b..155347e 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -3778,6 +3778,17 @@ static tree handle_builtin_strcat_chk(tree args)
     return __evaluate_1(fncall, 0);
 }
 
+/* The C library's headers define alloca() as a macro that expands to this. */
+static tree handle_builtin_alloca(tree args)
+{
+    tree fncall = tree_make(T_FN_CALL);
+
+    tFNCALL_ID(fncall) = get_identifier("alloca");
+    tFNCALL_ARGS(fncall) = args;
+
+    return __evaluate_1(fncall, 0);
+}
+
 static void eval_init_builtins(void)
 {
     map_identifier(get_identifier(strdup("__builtin_va_list")),
@@ -3792,6 +3803,10 @@ static void eval_init_builtins(void)
     tBUILTIN_HANDLER(strcat_builtin) = &handle_builtin_strcat_chk;
     map_identifier(get_identifier("__builtin___strcat_chk"),
                    strcat_builtin);
+
+    tree alloca_builtin = tree_make(T_BUILTIN);
+    tBUILTIN_HANDLER(alloca_builtin) = &handle_builtin_alloca;
+    map_identifier(get_identifier("__builtin_alloca"), alloca_builtin);
 }
 
 void eval_init(void)
-- 
2.43.0


From c1d1efaa72c4baa99cce466c0229692a8ba8c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:45 +0000
Subject: [PATCH 112/112] fix: find alloca(), atexit() and at_quick_exit() by
 any declaration

---
 src/evaluate.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 155347e..14a17a9 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -610,6 +610,30 @@ static tree call_native_function(tree t, tree function, void *address, int depth
     return ret_lv;
 }
 
+static void *__evaluator_alloca(size_t sz)
+{
+    return malloc(sz);
+}
+
+/* Find the address of a native function. Return NULL if there's none. */
+static void *get_native_function(const char *name)
+{
+    /* Intercept calls to alloca, atexit and at_quick_exit to provide
+     * our own implementation of these functions.. */
+    if (strcmp(name, "alloca") == 0)
+        return &__evaluator_alloca;
+
+    if (strcmp(name, "atexit") == 0)
+        return &atexit;
+
+#if defined(BUILD_LINUX)
+    if (strcmp(name, "at_quick_exit") == 0)
+        return &at_quick_exit;
+#endif
+
+    return dlsym(RTLD_DEFAULT, name);
+}
+
 static tree eval_fn_call(tree t, int depth)
 {
     /* There are five possibilities here:
@@ -752,7 +776,7 @@ static tree eval_fn_call(tree t, int depth)
             return return_val;
         } else {
             char *function_name = tID_STR(tFN_DECL(function));
-            void *function_address = dlsym(RTLD_DEFAULT, function_name);
+            void *function_address = get_native_function(function_name);
 
             if (function_address == NULL)
                 eval_die(t, "Could not resolve external symbol: %s\n", function_name);
@@ -1201,11 +1225,6 @@ static tree map_typedef(tree id, tree type)
     return id;
 }
 
-static void *__evaluator_alloca(size_t sz)
-{
-    return malloc(sz);
-}
-
 static tree handle_extern_fn(tree return_type, tree fndecl)
 {
     tree id, ext_func, previous_decl;
@@ -1379,18 +1398,7 @@ static tree eval_ext_func(tree t, int depth)
     tDTPTR_EXP(func_ptr_type) = tEXT_FUNC_FN(t);
     id = tFN_DECL(tEXT_FUNC_FN(t));
 
-    /* Intercept calls to alloca, atexit and at_quick_exit to provide
-     * our own implementation of these functions.. */
-    if (strcmp(tID_STR(id), "alloca") == 0)
-        func_addr = &__evaluator_alloca;
-    else if (strcmp(tID_STR(id), "atexit") == 0)
-        func_addr = &atexit;
-#if defined(BUILD_LINUX)
-    else if (strcmp(tID_STR(id), "at_quick_exit") == 0)
-        func_addr = &at_quick_exit;
-#endif
-    else
-        func_addr = dlsym(RTLD_DEFAULT, tID_STR(id));
+    func_addr = get_native_function(tID_STR(id));
 
     if (!func_addr)
         eval_die(t, "Could not resolve external function %s\n",
@@ -3349,7 +3357,7 @@ static tree handle_addr_fn_def(tree fndef)
 
     /* A function that isn't defined in the script. */
     if (!tFN_STMTS(fndef) && is_T_IDENTIFIER(tFN_DECL(fndef)))
-        addr = dlsym(RTLD_DEFAULT, tID_STR(tFN_DECL(fndef)));
+        addr = get_native_function(tID_STR(tFN_DECL(fndef)));
 
     if (!addr)
         addr = get_entry_point_for_fn(fndef);
-- 
2.43.0

