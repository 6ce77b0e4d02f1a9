From 682aa1da5f938db37d539ced078f9ea44a971912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:23 +0000
Subject: [PATCH 01/21] fix: clear the previous compile error when compiling
 new code

The error message of a failed compile was never cleared, so it was still
reported after a later successful compile, and it leaked on the next failure.
---
 projectm-eval/CompileContext.c    | 2 ++
 projectm-eval/CompilerFunctions.c | 8 ++++++++
 projectm-eval/CompilerFunctions.h | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 54fbd56..8dc2645 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -88,6 +88,8 @@ prjm_eval_program_t* prjm_eval_compile_code(prjm_eval_compiler_context_t* cctx,
 {
     yyscan_t scanner;
 
+    prjm_eval_compiler_clear_error(cctx);
+
     prjm_eval_lex_init(&scanner);
     YY_BUFFER_STATE bufferState = prjm_eval__scan_string(code, scanner);
 
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 41be59e..f513ceb 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -12,9 +12,17 @@
 #define strncasecmp _strnicmp
 #endif
 
+void prjm_eval_compiler_clear_error(prjm_eval_compiler_context_t* cctx)
+{
+    free(cctx->error.error);
+    memset(&cctx->error, 0, sizeof(cctx->error));
+}
+
 /* Called by yyparse on error. */
 void prjm_eval_error(PRJM_EVAL_LTYPE* loc, prjm_eval_compiler_context_t* cctx, yyscan_t yyscanner, char const* s)
 {
+    prjm_eval_compiler_clear_error(cctx);
+
     cctx->error.error = strdup(s);
     cctx->error.line = loc->first_line;
     cctx->error.column_start = loc->first_column;
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index 43c1215..abc3c21 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -42,6 +42,12 @@
         snprintf(errvar, chars, errfmt, ##__VA_ARGS__); \
     }
 
+/**
+ * @brief Frees the stored compile error message, if any, and resets the error location.
+ * @param cctx The compile context.
+ */
+void prjm_eval_compiler_clear_error(prjm_eval_compiler_context_t* cctx);
+
 /**
  * @brief Frees the given argument list container and items.
  * Also destroys any nodes and their stored expressions. If the expressions are still used elsewhere,
-- 
2.43.0


From abab7754cda65a1ae63da6616785e3f83f94d47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 02/21] fix: release pending parser values when compilation
 fails

Syntax errors and wrong argument counts leaked every partially built
expression, argument list and identifier still on the parser stack.
---
 projectm-eval/Compiler.c          | 46 ++++++++++++++++++++++++++-----
 projectm-eval/Compiler.y          |  8 +++++-
 projectm-eval/CompilerFunctions.c |  2 ++
 projectm-eval/CompilerFunctions.h |  1 +
 projectm-eval/Scanner.c           |  5 ++--
 projectm-eval/Scanner.h           |  5 ++--
 6 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index b7ef064..c30531b 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -518,11 +518,11 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    77,    77,    78,    88,    92,    93,    97,   101,   102,
-     103,   107,   108,   114,   115,   118,   121,   122,   123,   130,
-     131,   132,   133,   134,   135,   136,   137,   140,   141,   142,
-     143,   144,   145,   148,   149,   152,   155,   158,   161,   162,
-     163,   164,   165,   166,   167,   168,   171,   172,   173,   176
+       0,    83,    83,    84,    94,    98,    99,   103,   107,   108,
+     109,   113,   114,   120,   121,   124,   127,   128,   129,   136,
+     137,   138,   139,   140,   141,   142,   143,   146,   147,   148,
+     149,   150,   151,   154,   155,   158,   161,   164,   167,   168,
+     169,   170,   171,   172,   173,   174,   177,   178,   179,   182
 };
 #endif
 
@@ -1569,7 +1569,39 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_VAR: /* VAR  */
+            { free(((*yyvaluep).VAR)); }
+        break;
+
+    case YYSYMBOL_FUNC: /* FUNC  */
+            { free(((*yyvaluep).FUNC)); }
+        break;
+
+    case YYSYMBOL_function: /* function  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).function)); }
+        break;
+
+    case YYSYMBOL_46_function_arglist: /* function-arglist  */
+            { prjm_eval_compiler_destroy_arglist(((*yyvaluep).yykind_46)); }
+        break;
+
+    case YYSYMBOL_parentheses: /* parentheses  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).parentheses)); }
+        break;
+
+    case YYSYMBOL_48_instruction_list: /* instruction-list  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).yykind_48)); }
+        break;
+
+    case YYSYMBOL_expression: /* expression  */
+            { prjm_eval_compiler_destroy_node(((*yyvaluep).expression)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1894,7 +1926,7 @@ yyreduce:
     break;
 
   case 4: /* function: FUNC '(' function-arglist ')'  */
-                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); free((yyvsp[-3].FUNC)); }
+                                            { PRJM_EVAL_FUNC((yyval.function), (yyvsp[-3].FUNC), (yyvsp[-1].yykind_46)); }
     break;
 
   case 5: /* function-arglist: instruction-list  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index b035e0b..e8f3331 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -47,6 +47,12 @@ typedef void* yyscan_t;
 %nterm <prjm_eval_compiler_node_t*> function program instruction-list expression parentheses
 %nterm <prjm_eval_compiler_arg_list_t*> function-arglist
 
+/* Free semantic values discarded by the parser if a syntax error occurs.
+   "program" must not be listed, as its node was already released by the parser action. */
+%destructor { free($$); } VAR FUNC
+%destructor { prjm_eval_compiler_destroy_node($$); } function instruction-list expression parentheses
+%destructor { prjm_eval_compiler_destroy_arglist($$); } function-arglist
+
 /* Operator precedence, lowest first, highest last. */
 %precedence ','
 %right '='
@@ -85,7 +91,7 @@ program:
 
 /* Functions */
 function:
-  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); free($name); }
+  FUNC[name] '(' function-arglist[args] ')' { PRJM_EVAL_FUNC($$, $name, $args); }
 ;
 
 function-arglist:
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index f513ceb..f6d12c7 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -134,6 +134,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     if (!func)
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Unknown function \"%s\".", name)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
@@ -141,6 +142,7 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_function(prjm_eval_compiler
     {
         PRJM_EVAL_FORMAT_ERROR(*error, "Invalid argument count for function \"%s\": Expected %d, but %d given.",
                               name, func->arg_count, arglist->count)
+        prjm_eval_compiler_destroy_arglist(arglist);
         return NULL;
     }
 
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index abc3c21..b5ec499 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -6,6 +6,7 @@
 #define PRJM_EVAL_FUNC(ret, name, args) {\
         char* errval = NULL; \
         ret = prjm_eval_compiler_create_function(cctx, name, args, &errval); \
+        free(name); /* Not done by the parser if YYERROR is raised. */ \
         if(errval) { yyerror(&yyloc, cctx, scanner, errval); free(errval); YYERROR; }\
     }
 
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index d54c3e8..9f5dbb8 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -347,7 +347,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -364,8 +363,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index 0ef2aac..f31467a 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -351,7 +351,6 @@ struct prjm_eval_scanner_state;
 /* First, we deal with  platform-specific or compiler-specific issues. */
 
 /* begin standard C headers. */
-
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
@@ -368,8 +367,8 @@ struct prjm_eval_scanner_state;
 
 #if defined (__STDC_VERSION__) && __STDC_VERSION__ >= 199901L
 
-/* C++ systems might need __STDC_LIMIT_MACROS defined before including
- * <stdint.h>, if you want the limit (max/min) macros for int types.
+/* C99 says to define __STDC_LIMIT_MACROS before including stdint.h,
+ * if you want the limit (max/min) macros for int types. 
  */
 #ifndef __STDC_LIMIT_MACROS
 #define __STDC_LIMIT_MACROS 1
-- 
2.43.0


From c3d079ae62944a573d0d3d6a7c9a6aff2e90f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 03/21] fix: make the & and | operators bitwise AND and OR

The scanner returned the tokens of the % and ^ operators for & and |, so
they calculated modulo and power. The grammar mapped the correct tokens to
the boolean band/bor functions instead of the documented bitwise operations.
---
 projectm-eval/Compiler.c      |  4 ++--
 projectm-eval/Compiler.y      |  4 ++--
 projectm-eval/Scanner.c       |  4 ++--
 projectm-eval/Scanner.l       |  4 ++--
 projectm-eval/TreeFunctions.c | 32 ++++++++++++++++++++++++++++++++
 projectm-eval/TreeFunctions.h |  2 ++
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index c30531b..1cde328 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2084,11 +2084,11 @@ yyreduce:
     break;
 
   case 44: /* expression: expression '|' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitor*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 45: /* expression: expression '&' expression  */
-                                         { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                         { PRJM_EVAL_FUNC2((yyval.expression), "/*bitand*/", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 46: /* expression: '-' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index e8f3331..23df3dd 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -170,8 +170,8 @@ expression:
 | expression[left] '/' expression[right] { PRJM_EVAL_FUNC2($$, "_div", $left, $right) }
 | expression[left] '%' expression[right] { PRJM_EVAL_FUNC2($$, "_mod", $left, $right) }
 | expression[left] '^' expression[right] { PRJM_EVAL_FUNC2($$, "pow", $left, $right) }
-| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] '|' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitor*/", $left, $right) }
+| expression[left] '&' expression[right] { PRJM_EVAL_FUNC2($$, "/*bitand*/", $left, $right) }
 
 /* Unary operators */
 | '-' expression[value] %prec NEG        { PRJM_EVAL_FUNC1($$, "_neg", $value) }
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 9f5dbb8..dd76dc1 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1545,11 +1545,11 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-{ return '%'; }
+{ return '&'; }
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-{ return '^'; }
+{ return '|'; }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 883c55b..5dbdf35 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -105,8 +105,8 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/"                 { return '/'; }
 "%"                 { return '%'; }
 "^"	                { return '^'; }
-"&"                 { return '%'; }
-"|"	                { return '^'; }
+"&"                 { return '&'; }
+"|"	                { return '|'; }
 "!"	                { return '!'; }
 "="	                { return '='; }
 
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index ecf986d..1e3f06f 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -21,6 +21,8 @@ static prjm_eval_function_def_t intrinsic_function_table[] = {
     { "/*const*/", prjm_eval_func_const,         0, true,  false },
     { "/*var*/",   prjm_eval_func_var,           0, false, false },
     { "/*list*/",  prjm_eval_func_execute_list,  1, true,  false },
+    { "/*bitor*/", prjm_eval_func_bitor,         2, true,  false },
+    { "/*bitand*/", prjm_eval_func_bitand,       2, true,  false },
 
     { "if",        prjm_eval_func_if,            3, true,  false },
     { "_if",       prjm_eval_func_if,            3, true,  false },
@@ -694,6 +696,36 @@ prjm_eval_function_decl(bor_func)
     assign_ret_val(fabs(*val1_ptr) > close_factor || fabs(*val2_ptr) > close_factor ? 1.0 : 0.0);
 }
 
+prjm_eval_function_decl(bitor)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) | (int)(*val2_ptr)));
+}
+
+prjm_eval_function_decl(bitand)
+{
+    assert_valid_ctx();
+
+    PRJM_EVAL_F val1 = .0;
+    PRJM_EVAL_F val2 = .0;
+    PRJM_EVAL_F* val1_ptr = &val1;
+    PRJM_EVAL_F* val2_ptr = &val2;
+
+    invoke_arg(0, &val1_ptr);
+    invoke_arg(1, &val2_ptr);
+
+    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) & (int)(*val2_ptr)));
+}
+
 prjm_eval_function_decl(neg)
 {
     assert_valid_ctx();
diff --git a/projectm-eval/TreeFunctions.h b/projectm-eval/TreeFunctions.h
index db0dea2..2f8ec2e 100644
--- a/projectm-eval/TreeFunctions.h
+++ b/projectm-eval/TreeFunctions.h
@@ -60,6 +60,8 @@ prjm_eval_function_decl(band_op);
 prjm_eval_function_decl(bor_op);
 prjm_eval_function_decl(band_func);
 prjm_eval_function_decl(bor_func);
+prjm_eval_function_decl(bitor);
+prjm_eval_function_decl(bitand);
 prjm_eval_function_decl(neg);
 
 /* Compound assignment operators */
-- 
2.43.0


From a6eeb1c3f2acecef916d16b900679d57d514f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 04/21] fix: only evaluate the right operand of && and || if
 required

The operators were mapped to the band/bor functions, which always evaluate
both arguments and use a different threshold, instead of _and/_or.
---
 projectm-eval/Compiler.c | 4 ++--
 projectm-eval/Compiler.y | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/Compiler.c b/projectm-eval/Compiler.c
index 1cde328..1482aa0 100644
--- a/projectm-eval/Compiler.c
+++ b/projectm-eval/Compiler.c
@@ -2040,11 +2040,11 @@ yyreduce:
     break;
 
   case 33: /* expression: expression BOOLOR expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "bor", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_or", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 34: /* expression: expression BOOLAND expression  */
-                                               { PRJM_EVAL_FUNC2((yyval.expression), "band", (yyvsp[-2].expression), (yyvsp[0].expression)) }
+                                               { PRJM_EVAL_FUNC2((yyval.expression), "_and", (yyvsp[-2].expression), (yyvsp[0].expression)) }
     break;
 
   case 35: /* expression: expression '=' expression  */
diff --git a/projectm-eval/Compiler.y b/projectm-eval/Compiler.y
index 23df3dd..ab28f05 100644
--- a/projectm-eval/Compiler.y
+++ b/projectm-eval/Compiler.y
@@ -151,8 +151,8 @@ expression:
 | expression[left] '>' expression[right]       { PRJM_EVAL_FUNC2($$, "_above", $left, $right) }
 
 /* Boolean operators */
-| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "bor", $left, $right) }
-| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "band", $left, $right) }
+| expression[left] BOOLOR expression[right]    { PRJM_EVAL_FUNC2($$, "_or", $left, $right) }
+| expression[left] BOOLAND expression[right]   { PRJM_EVAL_FUNC2($$, "_and", $left, $right) }
 
 /* Assignment operator */
 | expression[left] '=' expression[right]           { PRJM_EVAL_FUNC2($$, "_set", $left, $right) }
-- 
2.43.0


From 6a175299af477410d7f8b5866f4541951cf33068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 05/21] fix: don't print the text of multi-line comments to
 stdout

Characters inside /* */ comments matched no scanner rule, so flex's default
rule echoed them.
---
 projectm-eval/Scanner.c | 128 +++++++++++++++++++++-------------------
 projectm-eval/Scanner.l |   1 +
 2 files changed, 67 insertions(+), 62 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index dd76dc1..628b67c 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -754,8 +754,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -765,14 +765,14 @@ struct yy_trans_info
 	};
 static const flex_int16_t yy_accept[80] =
     {   0,
-        0,    0,    0,    0,    0,    0,   52,   50,   49,   49,
-       39,   50,   35,   37,   41,   42,   33,   31,   47,   32,
-       50,   34,   13,   46,   48,   29,   40,   30,   45,   14,
-       14,   43,   44,   36,   38,   51,    3,   51,    6,    5,
-       26,    0,   10,    0,    0,   17,   28,   19,   21,   15,
-       16,   13,    1,    4,   20,   13,   13,    0,   24,   23,
-       25,   14,   14,   22,   18,   27,    2,    0,    0,    9,
-        7,   13,    0,   13,   14,    8,   11,   12,    0
+        0,    0,    0,    0,    0,    0,   53,   51,   50,   50,
+       40,   51,   36,   38,   42,   43,   34,   32,   48,   33,
+       51,   35,   14,   47,   49,   30,   41,   31,   46,   15,
+       15,   44,   45,   37,   39,    4,    3,    4,    7,    6,
+       27,    0,   11,    0,    0,   18,   29,   20,   22,   16,
+       17,   14,    1,    5,   21,   14,   14,    0,   25,   24,
+       26,   15,   15,   23,   19,   28,    2,    0,    0,   10,
+        8,   14,    0,   14,   15,    9,   12,   13,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -888,11 +888,11 @@ static const flex_int16_t yy_chk[169] =
 
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
+0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
+    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -1395,19 +1395,23 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-{ BEGIN(IL_COMMENT); }
+{ }
 	YY_BREAK
 case 5:
-/* rule 5 can match eol */
 YY_RULE_SETUP
-{ BEGIN(INITIAL); }
+{ BEGIN(IL_COMMENT); }
 	YY_BREAK
 case 6:
+/* rule 6 can match eol */
+YY_RULE_SETUP
+{ BEGIN(INITIAL); }
+	YY_BREAK
+case 7:
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* Constants */
-case 7:
+case 8:
 YY_RULE_SETUP
 {
                         char* p = yytext + 2;
@@ -1415,34 +1419,34 @@ YY_RULE_SETUP
                         return NUM;
                         }
 	YY_BREAK
-case 8:
+case 9:
 YY_RULE_SETUP
 { yylval->NUM = *(char*)(yytext + 2); return NUM; }
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
 { yylval->NUM = 3.141592653589793f; return NUM; }
 	YY_BREAK
-case 10:
+case 11:
 YY_RULE_SETUP
 { yylval->NUM = 2.71828183f; return NUM; }
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
 { yylval->NUM = 1.61803399f; return NUM; }
 	YY_BREAK
-case 12:
+case 13:
 YY_RULE_SETUP
 { return GMEM; }
 	YY_BREAK
-case 13:
+case 14:
 YY_RULE_SETUP
 {
                         yylval->NUM = atof(yytext);
                         return NUM;
                     }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
 {
                         if (prjm_eval_compiler_name_is_function(cctx, yytext))
@@ -1455,156 +1459,156 @@ YY_RULE_SETUP
                     }
 	YY_BREAK
 /* Operators */
-case 15:
+case 16:
 YY_RULE_SETUP
 { return ADDOP; }
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
 { return SUBOP; }
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
 { return MODOP; }
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
 { return OROP; }
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
 { return ANDOP; }
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
 { return DIVOP; }
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
 { return MULOP; }
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
 { return POWOP; }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
 { return EQUAL; }
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
 { return BELEQ; }
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
 { return ABOEQ; }
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
 { return NOTEQ; }
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
 { return BOOLOR; }
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
 { return BOOLAND; }
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
 { return '<'; }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
 { return '>'; }
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
 { return '+'; }
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
 { return '-'; }
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
 { return '*'; }
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
 { return '/'; }
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
 { return '%'; }
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
 { return '^'; }
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
 { return '&'; }
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
 { return '|'; }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
 { return '!'; }
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
 { return '='; }
 	YY_BREAK
 /* Syntactic elements */
-case 41:
+case 42:
 YY_RULE_SETUP
 { return '('; }
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
 { return ')'; }
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
 { return '['; }
 	YY_BREAK
-case 44:
+case 45:
 YY_RULE_SETUP
 { return ']'; }
 	YY_BREAK
-case 45:
+case 46:
 YY_RULE_SETUP
 { return '?'; }
 	YY_BREAK
-case 46:
+case 47:
 YY_RULE_SETUP
 { return ':'; }
 	YY_BREAK
-case 47:
+case 48:
 YY_RULE_SETUP
 { return ','; }
 	YY_BREAK
 /* Expression terminator */
-case 48:
+case 49:
 YY_RULE_SETUP
 { return ';'; }
 	YY_BREAK
 /* Ignored whitespace */
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
 { }
 	YY_BREAK
 /* All other tokens are invalid */
-case 50:
+case 51:
 YY_RULE_SETUP
 { return PRJM_EVAL_UNDEF; }
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 5dbdf35..500e903 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -49,6 +49,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 "/*"                { BEGIN(ML_COMMENT); }
 <ML_COMMENT>"*/"    { BEGIN(INITIAL); }
 <ML_COMMENT>\n      { }
+<ML_COMMENT>.       { }
 
 "//"                { BEGIN(IL_COMMENT); }
 <IL_COMMENT>\n      { BEGIN(INITIAL); }
-- 
2.43.0


From bf250cff75dd70e20665aec134f676e9219d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 06/21] fix: don't truncate $PI, $E and $PHI to single
 precision

---
 projectm-eval/Scanner.c | 6 +++---
 projectm-eval/Scanner.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 628b67c..52a045a 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1425,15 +1425,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-{ yylval->NUM = 3.141592653589793f; return NUM; }
+{ yylval->NUM = 3.141592653589793; return NUM; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-{ yylval->NUM = 2.71828183f; return NUM; }
+{ yylval->NUM = 2.71828183; return NUM; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-{ yylval->NUM = 1.61803399f; return NUM; }
+{ yylval->NUM = 1.61803399; return NUM; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 500e903..0973e1e 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -62,9 +62,9 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
                         return NUM;
                         }
 "$'"."'"            { yylval->NUM = *(char*)(yytext + 2); return NUM; }
-"$"(?i:pi)          { yylval->NUM = 3.141592653589793f; return NUM; }
-"$"[eE]             { yylval->NUM = 2.71828183f; return NUM; }
-"$"(?i:phi)         { yylval->NUM = 1.61803399f; return NUM; }
+"$"(?i:pi)          { yylval->NUM = 3.141592653589793; return NUM; }
+"$"[eE]             { yylval->NUM = 2.71828183; return NUM; }
+"$"(?i:phi)         { yylval->NUM = 1.61803399; return NUM; }
 
 (?i:gmem)           { return GMEM; }
 
-- 
2.43.0


From bd05b46147837061564bab9c78a3ba76a2c81e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:58 +0000
Subject: [PATCH 07/21] fix: start the column of compile errors at 0 in every
 line

Columns were counted from 0 in the first line, but from 1 in all following
lines.
---
 projectm-eval/Scanner.c | 4 ++++
 projectm-eval/Scanner.h | 4 ++++
 projectm-eval/Scanner.l | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 52a045a..7552bb5 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -14,6 +14,10 @@
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
         yylloc_param->last_column = yycolumn;    \
+        if (yytext[yyleng - 1] == '\n')          \
+        { /* Columns start at 0 in each line. */ \
+            yycolumn = 0;                        \
+        }                                        \
     }
 
 struct prjm_eval_scanner_state;
diff --git a/projectm-eval/Scanner.h b/projectm-eval/Scanner.h
index f31467a..55dcc6e 100644
--- a/projectm-eval/Scanner.h
+++ b/projectm-eval/Scanner.h
@@ -18,6 +18,10 @@
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
         yylloc_param->last_column = yycolumn;    \
+        if (yytext[yyleng - 1] == '\n')          \
+        { /* Columns start at 0 in each line. */ \
+            yycolumn = 0;                        \
+        }                                        \
     }
 
 struct prjm_eval_scanner_state;
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 0973e1e..64161d6 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -25,6 +25,10 @@
         yylloc_param->first_column = old_column; \
         yylloc_param->last_line = yylineno;      \
         yylloc_param->last_column = yycolumn;    \
+        if (yytext[yyleng - 1] == '\n')          \
+        { /* Columns start at 0 in each line. */ \
+            yycolumn = 0;                        \
+        }                                        \
     }
 
 struct prjm_eval_scanner_state;
-- 
2.43.0


From 7065b8ce356482b7ae53eb45ae3a54a1b07e34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 08/21] fix: don't write into variables referenced by a
 previous argument

exec3, while and freembuf reused the value pointer of an already evaluated
argument. If that argument returned a reference, the next result (or the
return value of freembuf) was stored in the referenced variable.
---
 projectm-eval/TreeFunctions.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 1e3f06f..fed3208 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -286,11 +286,12 @@ prjm_eval_function_decl(execute_while)
 {
     assert_valid_ctx();
 
-    ctx->value = .0;
-    PRJM_EVAL_F* value_ptr = &ctx->value;
+    PRJM_EVAL_F* value_ptr;
     int loop_count_int = MAX_LOOP_COUNT;
     do
     {
+        ctx->value = .0;
+        value_ptr = &ctx->value;
         invoke_arg(0, &value_ptr);
     } while (fabs(*value_ptr) > close_factor_low && --loop_count_int);
 
@@ -332,7 +333,12 @@ prjm_eval_function_decl(exec3)
     PRJM_EVAL_F* value_ptr = &ctx->value;
 
     invoke_arg(0, &value_ptr);
+
+    /* Don't pass on a reference returned by the first argument. */
+    ctx->value = .0;
+    value_ptr = &ctx->value;
     invoke_arg(1, &value_ptr);
+
     invoke_arg(2, ret_val);
 }
 
@@ -375,7 +381,9 @@ prjm_eval_function_decl(freembuf)
     assert_valid_ctx();
     assert(ctx->memory_buffer);
 
-    invoke_arg(0, ret_val);
+    ctx->value = .0;
+    PRJM_EVAL_F* value_ptr = &ctx->value;
+    invoke_arg(0, &value_ptr);
 
     prjm_eval_memory_free(ctx->memory_buffer);
 
-- 
2.43.0


From 43d5f990e4dedfc150c26df065c972bfd59ce165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 09/21] fix: make freembuf() a no-op as documented

It freed all megabuf blocks while the running program could still hold
references into them, e.g. "megabuf(5) = freembuf(0)" wrote to freed memory.
---
 projectm-eval/CompilerFunctions.c | 1 -
 projectm-eval/TreeFunctions.c     | 5 ++---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index f6d12c7..6fab2bb 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -180,7 +180,6 @@ prjm_eval_compiler_node_t* prjm_eval_compiler_create_expression(prjm_eval_compil
     /* Need special treatment for memory access functions */
     if (strcmp(func->name, "_mem") == 0 ||
         strcmp(func->name, "megabuf") == 0 ||
-        strcmp(func->name, "freembuf") == 0 ||
         strcmp(func->name, "memcpy") == 0 ||
         strcmp(func->name, "memset") == 0)
     {
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index fed3208..2961bf9 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -379,14 +379,13 @@ prjm_eval_function_decl(mem)
 prjm_eval_function_decl(freembuf)
 {
     assert_valid_ctx();
-    assert(ctx->memory_buffer);
 
     ctx->value = .0;
     PRJM_EVAL_F* value_ptr = &ctx->value;
+    /* Only evaluates the argument. Freeing memory here would invalidate references to it which are still
+     * in use by the running program. */
     invoke_arg(0, &value_ptr);
 
-    prjm_eval_memory_free(ctx->memory_buffer);
-
     assign_ret_val(.0);
 }
 
-- 
2.43.0


From 68be0a5f529e901bbd1123d42b3168858a5ba160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 10/21] fix: don't crash if the smallest integer is divided
 modulo -1

-2147483648 % -1 raised SIGFPE on x86, both when executing and compiling.
---
 projectm-eval/TreeFunctions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 2961bf9..031515c 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -609,7 +609,7 @@ prjm_eval_function_decl(mod)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 may trap. */
     {
         assign_ret_val(0.0);
         return;
@@ -840,7 +840,7 @@ prjm_eval_function_decl(modop)
     invoke_arg(1, &val2_ptr);
 
     int divisor = (int) *val2_ptr;
-    if (divisor == 0)
+    if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 may trap. */
     {
         assign_ret_val(0.0);
         return;
-- 
2.43.0


From 0763c337e441be0042398929c0e208fdf6a71933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 11/21] fix: define the conversion of out-of-range numbers to
 integers

Casting too large or non-finite numbers to int is undefined behavior. On x86,
loop(10000000000, ...) didn't run at all instead of being limited, memset()
and memcpy() ignored large counts and trimming could overflow.
---
 projectm-eval/CMakeLists.txt      |  1 +
 projectm-eval/IntegerConversion.h | 48 +++++++++++++++++++++++++++++++
 projectm-eval/MemoryBuffer.c      | 26 +++++++++--------
 projectm-eval/TreeFunctions.c     | 21 +++++++-------
 4 files changed, 74 insertions(+), 22 deletions(-)
 create mode 100644 projectm-eval/IntegerConversion.h

diff --git a/projectm-eval/CMakeLists.txt b/projectm-eval/CMakeLists.txt
index 202e153..6b17a25 100644
--- a/projectm-eval/CMakeLists.txt
+++ b/projectm-eval/CMakeLists.txt
@@ -56,6 +56,7 @@ add_library(projectM_eval STATIC
             CompilerTypes.h
             ExpressionTree.c
             ExpressionTree.h
+            IntegerConversion.h
             MemoryBuffer.c
             MemoryBuffer.h
             Scanner.l
diff --git a/projectm-eval/IntegerConversion.h b/projectm-eval/IntegerConversion.h
new file mode 100644
index 0000000..7048af8
--- /dev/null
+++ b/projectm-eval/IntegerConversion.h
@@ -0,0 +1,48 @@
+#pragma once
+
+#include "CompilerTypes.h"
+
+#include <limits.h>
+#include <stdint.h>
+
+/**
+ * @brief Truncates a floating-point value to a 64-bit integer.
+ * Converting a value outside the range of the integer type, or NaN, is undefined behavior in C. Values are limited
+ * to +/-2^52, so adding and subtracting a few results doesn't overflow. NaN is converted to the lowest value.
+ * @param value The value to convert.
+ * @return The integer part of the value.
+ */
+static inline int64_t prjm_eval_to_int64(double value)
+{
+    static const double limit = 4503599627370496.0;
+
+    if (value >= limit)
+    {
+        return (int64_t) 1 << 52;
+    }
+    if (value > -limit)
+    {
+        return (int64_t) value;
+    }
+    return -((int64_t) 1 << 52);
+}
+
+/**
+ * @brief Truncates a floating-point value to an integer, limited to the value range of the type.
+ * @param value The value to convert.
+ * @return The integer part of the value. NaN is converted to INT_MIN.
+ */
+static inline int prjm_eval_to_int(double value)
+{
+    int64_t int_value = prjm_eval_to_int64(value);
+
+    if (int_value > INT_MAX)
+    {
+        return INT_MAX;
+    }
+    if (int_value < INT_MIN)
+    {
+        return INT_MIN;
+    }
+    return (int) int_value;
+}
diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7e21609..7ac2578 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -1,5 +1,7 @@
 #include "MemoryBuffer.h"
 
+#include "IntegerConversion.h"
+
 #include <stdlib.h>
 #include <string.h>
 
@@ -112,9 +114,9 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int offset_src = (int) (*src + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_to_int64(*dest + 0.0001);
+    int64_t offset_src = prjm_eval_to_int64(*src + 0.0001);
+    int64_t count = prjm_eval_to_int64(*len + 0.0001);
 
     // Trim to front if an offset is less than zero.
     if (offset_src < 0)
@@ -135,10 +137,10 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
 
     while (count > 0)
     {
-        int copy_length = count;
+        int64_t copy_length = count;
 
-        int max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
 
         if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
             offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
@@ -160,8 +162,8 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             break;
         }
 
-        src_pointer = prjm_eval_memory_allocate(buffer, offset_src);
-        dst_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        src_pointer = prjm_eval_memory_allocate(buffer, (int) offset_src);
+        dst_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!src_pointer || !dst_pointer)
         {
             break;
@@ -181,8 +183,8 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int offset_dest = (int) (*dest + 0.0001);
-    int count = (int) (*len + 0.0001);
+    int64_t offset_dest = prjm_eval_to_int64(*dest + 0.0001);
+    int64_t count = prjm_eval_to_int64(*len + 0.0001);
 
     // Trim to front
     if (offset_dest < 0)
@@ -209,13 +211,13 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
     PRJM_EVAL_F val = *value;
     while(count > 0)
     {
-        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, offset_dest);
+        PRJM_EVAL_F* block_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!block_pointer)
         {
             break;
         }
 
-        int block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+        int64_t block_count = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         if (block_count > count)
         {
             block_count = count;
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 031515c..f425196 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -4,6 +4,7 @@
  */
 #include "TreeFunctions.h"
 
+#include "IntegerConversion.h"
 #include "MemoryBuffer.h"
 
 #include <math.h>
@@ -265,7 +266,7 @@ prjm_eval_function_decl(execute_loop)
     PRJM_EVAL_F* value_ptr = &ctx->value;
     invoke_arg(0, &value_ptr);
 
-    int loop_count_int = (int) (*value_ptr);
+    int loop_count_int = prjm_eval_to_int(*value_ptr);
     /* Limit execution count */
     if (loop_count_int > MAX_LOOP_COUNT)
     {
@@ -366,7 +367,7 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, (int) (*index_ptr + 0.0001));
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, prjm_eval_to_int(*index_ptr + 0.0001));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
@@ -608,13 +609,13 @@ prjm_eval_function_decl(mod)
     invoke_arg(0, &val1_ptr);
     invoke_arg(1, &val2_ptr);
 
-    int divisor = (int) *val2_ptr;
+    int divisor = prjm_eval_to_int(*val2_ptr);
     if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 may trap. */
     {
         assign_ret_val(0.0);
         return;
     }
-    assign_ret_val((PRJM_EVAL_F) ((int) *val1_ptr % divisor));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(*val1_ptr) % divisor));
 }
 
 prjm_eval_function_decl(band_op)
@@ -715,7 +716,7 @@ prjm_eval_function_decl(bitor)
     invoke_arg(0, &val1_ptr);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) | (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(*val1_ptr) | prjm_eval_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(bitand)
@@ -730,7 +731,7 @@ prjm_eval_function_decl(bitand)
     invoke_arg(0, &val1_ptr);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(*val1_ptr) & (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(*val1_ptr) & prjm_eval_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(neg)
@@ -813,7 +814,7 @@ prjm_eval_function_decl(orop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) | (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(**ret_val) | prjm_eval_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(andop)
@@ -826,7 +827,7 @@ prjm_eval_function_decl(andop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) & (int)(*val2_ptr)));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(**ret_val) & prjm_eval_to_int(*val2_ptr)));
 }
 
 prjm_eval_function_decl(modop)
@@ -839,13 +840,13 @@ prjm_eval_function_decl(modop)
     invoke_arg(0, ret_val);
     invoke_arg(1, &val2_ptr);
 
-    int divisor = (int) *val2_ptr;
+    int divisor = prjm_eval_to_int(*val2_ptr);
     if (divisor == 0 || divisor == -1) /* The remainder for -1 is always 0, but INT_MIN % -1 may trap. */
     {
         assign_ret_val(0.0);
         return;
     }
-    assign_ret_val((PRJM_EVAL_F) ((int)(**ret_val) % divisor));
+    assign_ret_val((PRJM_EVAL_F) (prjm_eval_to_int(**ret_val) % divisor));
 }
 
 prjm_eval_function_decl(powop)
-- 
2.43.0


From 320001a640010c94fa2bfbe9caaaddf1fd0f19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 12/21] fix: copy overlapping areas correctly in memcpy()

If the destination started behind the source and the areas crossed a block
boundary, source items were overwritten before they were copied.
---
 projectm-eval/MemoryBuffer.c | 55 +++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 7ac2578..0e2d4b4 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -132,22 +132,40 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
         offset_dest = 0;
     }
 
-    PRJM_EVAL_F* src_pointer;
-    PRJM_EVAL_F* dst_pointer;
-
-    while (count > 0)
+    // Trim to back if an area exceeds the buffer.
+    int64_t max_count = PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK -
+                        (offset_src > offset_dest ? offset_src : offset_dest);
+    if (count > max_count)
     {
-        int64_t copy_length = count;
+        count = max_count;
+    }
 
-        int64_t max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-        int64_t max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+    // If the areas overlap and the destination comes last, copy from back to front. Otherwise, source items in
+    // following blocks would be overwritten before being copied.
+    bool backwards = offset_dest > offset_src && offset_dest < offset_src + count;
+    if (backwards)
+    {
+        offset_src += count;
+        offset_dest += count;
+    }
 
-        if (offset_dest >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK ||
-            offset_src >= PRJM_EVAL_MEM_BLOCKS * PRJM_EVAL_MEM_ITEMSPERBLOCK)
+    while (count > 0)
+    {
+        // Copy at most up to the next (or, if copying backwards, previous) block boundary in both areas.
+        int64_t max_dst_len;
+        int64_t max_src_len;
+        if (backwards)
         {
-            break;
+            max_dst_len = ((offset_dest - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+            max_src_len = ((offset_src - 1) & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1)) + 1;
+        }
+        else
+        {
+            max_dst_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_dest & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
+            max_src_len = PRJM_EVAL_MEM_ITEMSPERBLOCK - (offset_src & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
         }
 
+        int64_t copy_length = count;
         if (copy_length > max_dst_len)
         {
             copy_length = max_dst_len;
@@ -157,22 +175,27 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
             copy_length = max_src_len;
         }
 
-        if (copy_length < 1)
+        if (backwards)
         {
-            break;
+            offset_src -= copy_length;
+            offset_dest -= copy_length;
         }
 
-        src_pointer = prjm_eval_memory_allocate(buffer, (int) offset_src);
-        dst_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
+        PRJM_EVAL_F* src_pointer = prjm_eval_memory_allocate(buffer, (int) offset_src);
+        PRJM_EVAL_F* dst_pointer = prjm_eval_memory_allocate(buffer, (int) offset_dest);
         if (!src_pointer || !dst_pointer)
         {
             break;
         }
 
         memmove(dst_pointer, src_pointer, sizeof(PRJM_EVAL_F) * copy_length);
-        offset_src += copy_length;
-        offset_dest += copy_length;
         count -= copy_length;
+
+        if (!backwards)
+        {
+            offset_src += copy_length;
+            offset_dest += copy_length;
+        }
     }
 
     return dest;
-- 
2.43.0


From 369d87c8cfb4a5e270bf59e9267d0f05f41a100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 13/21] fix: reset the built-in global memory after destroying
 it

The dangling pointer was used by contexts created afterwards and freed again
when destroying the global memory a second time.
---
 projectm-eval/MemoryBuffer.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 0e2d4b4..da241da 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -12,7 +12,14 @@ static projectm_eval_mem_buffer static_global_memory;
 
 void prjm_eval_memory_destroy_global()
 {
-    prjm_eval_memory_destroy_buffer(static_global_memory);
+    projectm_eval_memory_host_lock_mutex();
+
+    projectm_eval_mem_buffer buffer = static_global_memory;
+    static_global_memory = NULL;
+
+    projectm_eval_memory_host_unlock_mutex();
+
+    prjm_eval_memory_destroy_buffer(buffer);
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
-- 
2.43.0


From 65db45c24c0e847ed8521cf77b2523df03319bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 14/21] fix: create the built-in global memory only once

The pointer was checked without holding the lock and not checked again after
acquiring it, so contexts created at the same time in different threads could
end up with different global buffers.
---
 projectm-eval/MemoryBuffer.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index da241da..3ad9318 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -24,16 +24,17 @@ void prjm_eval_memory_destroy_global()
 
 projectm_eval_mem_buffer prjm_eval_memory_global()
 {
+    projectm_eval_memory_host_lock_mutex();
+
     if (!static_global_memory)
     {
-        projectm_eval_memory_host_lock_mutex();
-
         static_global_memory = prjm_eval_memory_create_buffer();
-
-        projectm_eval_memory_host_unlock_mutex();
     }
+    projectm_eval_mem_buffer buffer = static_global_memory;
+
+    projectm_eval_memory_host_unlock_mutex();
 
-    return static_global_memory;
+    return buffer;
 }
 
 projectm_eval_mem_buffer prjm_eval_memory_create_buffer()
-- 
2.43.0


From 2c6e199bd97508175aca5e6b992654492b694512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 15/21] fix: publish newly allocated memory blocks atomically

The block table was accessed without synchronization outside the lock, which
is a data race if threads share a buffer.
---
 projectm-eval/MemoryBuffer.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 3ad9318..2f880d7 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -8,6 +8,15 @@
 #define PRJM_EVAL_MEM_BLOCKS 128
 #define PRJM_EVAL_MEM_ITEMSPERBLOCK 65536
 
+/* Blocks are looked up without holding the lock, so the block pointers have to be read and published atomically. */
+#if defined(__GNUC__) || defined(__clang__)
+#define load_block_pointer(address) __atomic_load_n(address, __ATOMIC_ACQUIRE)
+#define store_block_pointer(address, value) __atomic_store_n(address, value, __ATOMIC_RELEASE)
+#else
+#define load_block_pointer(address) (*(PRJM_EVAL_F* volatile*) (address))
+#define store_block_pointer(address, value) (*(PRJM_EVAL_F* volatile*) (address) = (value))
+#endif
+
 static projectm_eval_mem_buffer static_global_memory;
 
 void prjm_eval_memory_destroy_global()
@@ -93,22 +102,25 @@ PRJM_EVAL_F* prjm_eval_memory_allocate(projectm_eval_mem_buffer buffer, int inde
 
     if (index >= 0 && (block = index / PRJM_EVAL_MEM_ITEMSPERBLOCK) < PRJM_EVAL_MEM_BLOCKS)
     {
-        PRJM_EVAL_F* cur_block = buffer[block];
+        PRJM_EVAL_F* cur_block = load_block_pointer(&buffer[block]);
 
         if (!cur_block)
         {
             projectm_eval_memory_host_lock_mutex();
 
-            if (!(cur_block = buffer[block]))
-            {
-                cur_block = buffer[block] = calloc(sizeof(PRJM_EVAL_F), PRJM_EVAL_MEM_ITEMSPERBLOCK);
-            }
+            cur_block = load_block_pointer(&buffer[block]);
             if (!cur_block)
             {
-                index = 0;
+                cur_block = calloc(sizeof(PRJM_EVAL_F), PRJM_EVAL_MEM_ITEMSPERBLOCK);
+                store_block_pointer(&buffer[block], cur_block);
             }
 
             projectm_eval_memory_host_unlock_mutex();
+
+            if (!cur_block)
+            {
+                return NULL;
+            }
         }
 
         return cur_block + (index & (PRJM_EVAL_MEM_ITEMSPERBLOCK - 1));
-- 
2.43.0


From 26726948461b5e682b57671f4307c2c7d5124799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 16/21] fix: protect the state of the random number generator

rand() can be executed in several threads at once, which returned duplicate
values or could read beyond the end of the generator state.
---
 projectm-eval/TreeFunctions.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index f425196..4951ce7 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -1140,7 +1140,12 @@ prjm_eval_function_decl(rand)
         rand_max = 1.;
     }
 
-    assign_ret_val((PRJM_EVAL_F) (prjm_eval_genrand_int32() * (1.0 / (double) 0xFFFFFFFF) * rand_max));
+    /* The generator state is shared by all contexts, which may run in different threads. */
+    projectm_eval_memory_host_lock_mutex();
+    unsigned int random_value = prjm_eval_genrand_int32();
+    projectm_eval_memory_host_unlock_mutex();
+
+    assign_ret_val((PRJM_EVAL_F) (random_value * (1.0 / (double) 0xFFFFFFFF) * rand_max));
 }
 
 prjm_eval_function_decl(invsqrt)
-- 
2.43.0


From bb57830e3f42830444f327a3129fde7875e25d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 17/21] fix: match function and variable names independently of
 the locale

strcasecmp() and isdigit() depend on the locale set by the application. For
example, SIN didn't match sin if a Turkish locale was active.
---
 projectm-eval/CMakeLists.txt      |  1 +
 projectm-eval/CompilerFunctions.c | 10 +++-------
 projectm-eval/TextConversion.h    | 28 ++++++++++++++++++++++++++++
 projectm-eval/TreeVariables.c     | 18 ++++++++----------
 4 files changed, 40 insertions(+), 17 deletions(-)
 create mode 100644 projectm-eval/TextConversion.h

diff --git a/projectm-eval/CMakeLists.txt b/projectm-eval/CMakeLists.txt
index 6b17a25..1b4bc5f 100644
--- a/projectm-eval/CMakeLists.txt
+++ b/projectm-eval/CMakeLists.txt
@@ -60,6 +60,7 @@ add_library(projectM_eval STATIC
             MemoryBuffer.c
             MemoryBuffer.h
             Scanner.l
+            TextConversion.h
             TreeFunctions.c
             TreeFunctions.h
             TreeVariables.c
diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index 6fab2bb..bbca2cf 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -1,5 +1,6 @@
 #include "CompilerFunctions.h"
 
+#include "TextConversion.h"
 #include "TreeFunctions.h"
 #include "TreeVariables.h"
 
@@ -7,11 +8,6 @@
 #include <string.h>
 #include <stdlib.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 void prjm_eval_compiler_clear_error(prjm_eval_compiler_context_t* cctx)
 {
     free(cctx->error.error);
@@ -65,7 +61,7 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     prjm_eval_function_list_item_t* entry = cctx->functions.first;
     while (entry)
     {
-        if (strcasecmp(entry->function->name, name) == 0)
+        if (prjm_eval_names_are_equal(entry->function->name, name))
         {
             return true;
         }
@@ -81,7 +77,7 @@ prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_con
     prjm_eval_function_list_item_t* func = cctx->functions.first;
     while (func)
     {
-        if (strcasecmp(func->function->name, name) == 0)
+        if (prjm_eval_names_are_equal(func->function->name, name))
         {
             return func->function;
         }
diff --git a/projectm-eval/TextConversion.h b/projectm-eval/TextConversion.h
new file mode 100644
index 0000000..abfb91b
--- /dev/null
+++ b/projectm-eval/TextConversion.h
@@ -0,0 +1,28 @@
+#pragma once
+
+#include "CompilerTypes.h"
+
+/**
+ * @brief Compares two names, ignoring the case of the letters A-Z.
+ * In contrast to strcasecmp(), the result doesn't depend on the current locale.
+ * @param left The first name.
+ * @param right The second name.
+ * @return True if both names are equal, false if not.
+ */
+static inline bool prjm_eval_names_are_equal(const char* left, const char* right)
+{
+    for (;; ++left, ++right)
+    {
+        char left_char = *left >= 'A' && *left <= 'Z' ? (char) (*left - 'A' + 'a') : *left;
+        char right_char = *right >= 'A' && *right <= 'Z' ? (char) (*right - 'A' + 'a') : *right;
+
+        if (left_char != right_char)
+        {
+            return false;
+        }
+        if (!left_char)
+        {
+            return true;
+        }
+    }
+}
diff --git a/projectm-eval/TreeVariables.c b/projectm-eval/TreeVariables.c
index ce1e511..a0b2fea 100644
--- a/projectm-eval/TreeVariables.c
+++ b/projectm-eval/TreeVariables.c
@@ -1,14 +1,10 @@
 #include "TreeVariables.h"
 
-#include "ctype.h"
+#include "TextConversion.h"
+
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _MSC_VER
-#define strcasecmp stricmp
-#define strncasecmp _strnicmp
-#endif
-
 static PRJM_EVAL_F static_global_variables[100];
 
 static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_context_t* cctx,
@@ -18,7 +14,7 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
     prjm_eval_variable_entry_t* var = cctx->variables.first;
     while (var)
     {
-        if (strcasecmp(var->variable->name, name) == 0)
+        if (prjm_eval_names_are_equal(var->variable->name, name))
         {
             break;
         }
@@ -31,9 +27,11 @@ static prjm_eval_variable_entry_t* find_variable_entry(prjm_eval_compiler_contex
 PRJM_EVAL_F* prjm_eval_register_variable(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     if (strlen(name) == 5 &&
-        strncasecmp(name, "reg", 3) == 0 &&
-        isdigit(name[3]) &&
-        isdigit(name[4])
+        (name[0] == 'r' || name[0] == 'R') &&
+        (name[1] == 'e' || name[1] == 'E') &&
+        (name[2] == 'g' || name[2] == 'G') &&
+        name[3] >= '0' && name[3] <= '9' &&
+        name[4] >= '0' && name[4] <= '9'
         )
     {
         int var_index = atoi(name + 3);
-- 
2.43.0


From f083f41a2ba1666dee74f4e32fd6808d4cad5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 18/21] fix: parse decimal numbers independently of the locale

atof() expects the decimal separator of the current locale, so 1.5 was read
as 1 if the application uses a locale with a decimal comma.
---
 projectm-eval/CompilerFunctions.c | 36 +++++++++++++++++++++++++++++++
 projectm-eval/CompilerFunctions.h |  7 ++++++
 projectm-eval/Scanner.c           |  2 +-
 projectm-eval/Scanner.l           |  2 +-
 4 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/projectm-eval/CompilerFunctions.c b/projectm-eval/CompilerFunctions.c
index bbca2cf..70da34e 100644
--- a/projectm-eval/CompilerFunctions.c
+++ b/projectm-eval/CompilerFunctions.c
@@ -72,6 +72,42 @@ bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, con
     return false;
 }
 
+double prjm_eval_compiler_parse_number(const char* text)
+{
+    const char* point = strchr(text, '.');
+    if (!point)
+    {
+        return strtod(text, NULL);
+    }
+
+    /* strtod() expects the decimal separator of the current locale, which is between the two digits here. */
+    char half[16];
+    int half_length = snprintf(half, sizeof(half), "%.1f", .5);
+    if (half_length < 3 || half_length >= (int) sizeof(half) || (half_length == 3 && half[1] == '.'))
+    {
+        return strtod(text, NULL);
+    }
+
+    size_t separator_length = half_length - 2;
+    size_t integer_length = point - text;
+    size_t fraction_length = strlen(point + 1);
+
+    char* localized_text = malloc(integer_length + separator_length + fraction_length + 1);
+    if (!localized_text)
+    {
+        return strtod(text, NULL);
+    }
+
+    memcpy(localized_text, text, integer_length);
+    memcpy(localized_text + integer_length, half + 1, separator_length);
+    memcpy(localized_text + integer_length + separator_length, point + 1, fraction_length + 1);
+
+    double value = strtod(localized_text, NULL);
+    free(localized_text);
+
+    return value;
+}
+
 prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_context_t* cctx, const char* name)
 {
     prjm_eval_function_list_item_t* func = cctx->functions.first;
diff --git a/projectm-eval/CompilerFunctions.h b/projectm-eval/CompilerFunctions.h
index b5ec499..ca311e0 100644
--- a/projectm-eval/CompilerFunctions.h
+++ b/projectm-eval/CompilerFunctions.h
@@ -72,6 +72,13 @@ void prjm_eval_compiler_destroy_node(prjm_eval_compiler_node_t* node);
  */
 bool prjm_eval_compiler_name_is_function(prjm_eval_compiler_context_t* cctx, const char* name);
 
+/**
+ * @brief Converts a decimal number literal, always using a point as the decimal separator.
+ * @param text The text of the literal.
+ * @return The value of the literal.
+ */
+double prjm_eval_compiler_parse_number(const char* text);
+
 prjm_eval_function_def_t* prjm_eval_compiler_get_function(prjm_eval_compiler_context_t* cctx, const char* name);
 
 prjm_eval_compiler_arg_list_t* prjm_eval_compiler_add_argument(prjm_eval_compiler_arg_list_t* arglist,
diff --git a/projectm-eval/Scanner.c b/projectm-eval/Scanner.c
index 7552bb5..edecfec 100644
--- a/projectm-eval/Scanner.c
+++ b/projectm-eval/Scanner.c
@@ -1446,7 +1446,7 @@ YY_RULE_SETUP
 case 14:
 YY_RULE_SETUP
 {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = (PRJM_EVAL_F) prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 	YY_BREAK
diff --git a/projectm-eval/Scanner.l b/projectm-eval/Scanner.l
index 64161d6..b0dccb7 100644
--- a/projectm-eval/Scanner.l
+++ b/projectm-eval/Scanner.l
@@ -73,7 +73,7 @@ NAME            [_a-zA-Z][_a-zA-Z0-9]*
 (?i:gmem)           { return GMEM; }
 
 {FLOAT}            {
-                        yylval->NUM = atof(yytext);
+                        yylval->NUM = (PRJM_EVAL_F) prjm_eval_compiler_parse_number(yytext);
                         return NUM;
                     }
 {NAME}              {
-- 
2.43.0


From 2abfe874cf98a8ba6898eee3735cb256035ce836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 19/21] fix: return NULL if a context can't be allocated

Running out of memory when creating a context crashed or returned a context
without memory buffers instead of NULL.
---
 projectm-eval/CompileContext.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/projectm-eval/CompileContext.c b/projectm-eval/CompileContext.c
index 8dc2645..506b13c 100644
--- a/projectm-eval/CompileContext.c
+++ b/projectm-eval/CompileContext.c
@@ -13,6 +13,10 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
                                                                PRJM_EVAL_F (* global_variables)[100])
 {
     prjm_eval_compiler_context_t* cctx = calloc(1, sizeof(prjm_eval_compiler_context_t));
+    if (!cctx)
+    {
+        return NULL;
+    }
 
     prjm_eval_intrinsic_function_list intrinsics;
     int intrinsics_count = 0;
@@ -21,18 +25,27 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
     assert(intrinsics);
     assert(intrinsics_count);
 
-    prjm_eval_function_list_item_t* last_func = NULL;
     for (int index = intrinsics_count - 1; index >= 0; --index)
     {
         assert(&intrinsics[index]);
         prjm_eval_function_list_item_t* func = malloc(sizeof(prjm_eval_function_list_item_t));
-        func->function = malloc(sizeof(prjm_eval_function_def_t));
-        memcpy(func->function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
-        func->function->name = strdup(intrinsics[index].name);
-        func->next = last_func;
-        last_func = func;
+        prjm_eval_function_def_t* function = malloc(sizeof(prjm_eval_function_def_t));
+        char* name = strdup(intrinsics[index].name);
+        if (!func || !function || !name)
+        {
+            free(func);
+            free(function);
+            free(name);
+            prjm_eval_destroy_compile_context(cctx);
+            return NULL;
+        }
+
+        memcpy(function, &intrinsics[index], sizeof(prjm_eval_function_def_t));
+        function->name = name;
+        func->function = function;
+        func->next = cctx->functions.first;
+        cctx->functions.first = func;
     }
-    cctx->functions.first = last_func;
 
     cctx->memory = prjm_eval_memory_create_buffer();
 
@@ -45,6 +58,12 @@ prjm_eval_compiler_context_t* prjm_eval_create_compile_context(projectm_eval_mem
         cctx->global_memory = prjm_eval_memory_global();
     }
 
+    if (!cctx->memory || !cctx->global_memory)
+    {
+        prjm_eval_destroy_compile_context(cctx);
+        return NULL;
+    }
+
     cctx->global_variables = global_variables;
 
     return cctx;
-- 
2.43.0


From 5cbcdd51e1641de5aa27f110260457207e8d45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 20/21] fix: apply PROJECTM_EVAL_FLOAT_SIZE to the library

Only the ns-eel2 shim used the setting. The library and its API were always
built with 8-byte numbers, which didn't match the shim's 4-byte EEL_F type.
---
 projectm-eval/CMakeLists.txt | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/projectm-eval/CMakeLists.txt b/projectm-eval/CMakeLists.txt
index 1b4bc5f..d63803d 100644
--- a/projectm-eval/CMakeLists.txt
+++ b/projectm-eval/CMakeLists.txt
@@ -76,6 +76,11 @@ target_include_directories(projectM_eval
                            $<INSTALL_INTERFACE:${CMAKE_INSTALL_INCLUDEDIR}/projectm-eval>
                            )
 
+target_compile_definitions(projectM_eval
+                           PUBLIC
+                           PRJM_F_SIZE=${PROJECTM_EVAL_FLOAT_SIZE}
+                           )
+
 set_target_properties(projectM_eval PROPERTIES
                       EXPORT_NAME Eval
                       )
-- 
2.43.0


From 0269dcb16205f96131fb18c9624bb642d9e94059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 21/21] fix: don't map negative memory indices to the first
 slots

---
 projectm-eval/MemoryBuffer.c  | 7 ++++---
 projectm-eval/TreeFunctions.c | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/projectm-eval/MemoryBuffer.c b/projectm-eval/MemoryBuffer.c
index 2f880d7..6008505 100644
--- a/projectm-eval/MemoryBuffer.c
+++ b/projectm-eval/MemoryBuffer.c
@@ -2,6 +2,7 @@
 
 #include "IntegerConversion.h"
 
+#include <math.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -134,8 +135,8 @@ PRJM_EVAL_F* prjm_eval_memory_copy(projectm_eval_mem_buffer buffer,
                                    PRJM_EVAL_F* src,
                                    PRJM_EVAL_F* len)
 {
-    int64_t offset_dest = prjm_eval_to_int64(*dest + 0.0001);
-    int64_t offset_src = prjm_eval_to_int64(*src + 0.0001);
+    int64_t offset_dest = prjm_eval_to_int64(floor(*dest + 0.0001));
+    int64_t offset_src = prjm_eval_to_int64(floor(*src + 0.0001));
     int64_t count = prjm_eval_to_int64(*len + 0.0001);
 
     // Trim to front if an offset is less than zero.
@@ -226,7 +227,7 @@ PRJM_EVAL_F* prjm_eval_memory_set(projectm_eval_mem_buffer buffer,
                                   PRJM_EVAL_F* value,
                                   PRJM_EVAL_F* len)
 {
-    int64_t offset_dest = prjm_eval_to_int64(*dest + 0.0001);
+    int64_t offset_dest = prjm_eval_to_int64(floor(*dest + 0.0001));
     int64_t count = prjm_eval_to_int64(*len + 0.0001);
 
     // Trim to front
diff --git a/projectm-eval/TreeFunctions.c b/projectm-eval/TreeFunctions.c
index 4951ce7..3e457ca 100644
--- a/projectm-eval/TreeFunctions.c
+++ b/projectm-eval/TreeFunctions.c
@@ -367,7 +367,7 @@ prjm_eval_function_decl(mem)
     PRJM_EVAL_F* index_ptr = &ctx->value;
     invoke_arg(0, &index_ptr);
 
-    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, prjm_eval_to_int(*index_ptr + 0.0001));
+    PRJM_EVAL_F* mem_addr = prjm_eval_memory_allocate(ctx->memory_buffer, prjm_eval_to_int(floor(*index_ptr + 0.0001)));
     if (mem_addr)
     {
         assign_ret_ref(mem_addr);
-- 
2.43.0

