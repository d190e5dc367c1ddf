From dd5016e096ca0e37d04ac0838a108003c2b09bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 01/21] fix: leaving a while loop closes the loop context
 (break/continue after it are rejected)

---
 ast/grammar.y | 2 +-
 ast/y.go      | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..332b3fc 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -243,7 +243,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
         $$ = &LoopStatement{
             WhileExpr: $2,
             Body: $5,
-        }
+        }; setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index 34afd52..dcbe769 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -1001,6 +1001,7 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From cbb7d5c16055becd2b49deb7e2f313b68e1241a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 02/21] fix: a body starting with a separator no longer
 inherits statements of an earlier body

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 332b3fc..3c0d8c7 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -154,8 +154,8 @@ body: stmt { $$ = Statements{$1}}
                 yylex.Error("semicolon (;) is expected")
             }
         }
-        if $3 != nil {
-            $$ = append($$, $3) 
+        $$ = $1; if $3 != nil {
+            $$ = append($1, $3) 
         }
     }
     
diff --git a/ast/y.go b/ast/y.go
index dcbe769..825663b 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -845,8 +845,9 @@ yydefault:
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
+			yyVAL.body = yyDollar[1].opt_body
 			if yyDollar[3].stmt != nil {
-				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
+				yyVAL.body = append(yyDollar[1].opt_body, yyDollar[3].stmt)
 			}
 		}
 	case 20:
-- 
2.43.0


From f97c5e5eac214839e352dfd171a20f13bef4136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 03/21] fix: elseif branches keep source order

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 3c0d8c7..5b0f3f0 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{&IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index 825663b..51d6a21 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -927,10 +927,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From 6175ccfef094832a8b4462bc519b6b0d28b5430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 04/21] fix: no nil map panic after a duplicate local variable
 declaration

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 5b0f3f0..ff6a49b 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -175,14 +175,14 @@ opt_explicit_variables: { $$ = map[string]VarStatement{} }
 
 explicit_variables: Var identifiers semicolon { 
                     if vars, err := appendVarStatements(map[string]VarStatement{}, $2); err != nil {
-                        yylex.Error(err.Error()) 
+                        yylex.Error(err.Error()); $$ = vars
                     } else {
                         $$ = vars
                     }
                 }
             | explicit_variables Var identifiers semicolon {
                     if vars, err := appendVarStatements($1, $3); err != nil {
-                        yylex.Error(err.Error()) 
+                        yylex.Error(err.Error()); $$ = vars
                     } else {
                         $$ = vars
                     }
diff --git a/ast/y.go b/ast/y.go
index 51d6a21..1ad1f01 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -892,6 +892,7 @@ yydefault:
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
+				yyVAL.explicit_variables = vars
 			} else {
 				yyVAL.explicit_variables = vars
 			}
@@ -902,6 +903,7 @@ yydefault:
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
+				yyVAL.explicit_variables = vars
 			} else {
 				yyVAL.explicit_variables = vars
 			}
-- 
2.43.0


From f02301c6ff6100781e649e3bb7a38b2c28545fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 05/21] fix: unary minus and negation are kept for every kind
 of operand and when repeated

---
 ast/ast.go        | 12 ++++++++++--
 ast/ast_struct.go | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..59e4b27 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -170,9 +170,13 @@ func unaryMinus(iv interface{}) interface{} {
 	case float64:
 		return -v
 	case IUnary:
+		// знак перед выражением, у которого уже есть знак или отрицание
+		if m, ok := iv.(iModified); ok && (m.hasMinus() || m.hasNot()) {
+			return ExprStatements{Statements: Statements{iv}}.UnaryMinus()
+		}
 		return v.UnaryMinus()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{iv}}.UnaryMinus()
 	}
 }
 
@@ -181,8 +185,12 @@ func not(iv interface{}) interface{} {
 	case bool:
 		return !v
 	case INot:
+		// отрицание выражения, у которого уже есть отрицание
+		if m, ok := iv.(iModified); ok && m.hasNot() {
+			return ExprStatements{Statements: Statements{iv}}.Not()
+		}
 		return v.Not()
 	default:
-		return v
+		return ExprStatements{Statements: Statements{iv}}.Not()
 	}
 }
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..22d63f9 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -37,6 +37,11 @@ type INot interface {
 	Not() interface{}
 }
 
+type iModified interface {
+	hasMinus() bool
+	hasNot() bool
+}
+
 type IParams interface {
 	Params() Statements
 }
@@ -203,6 +208,19 @@ func (e *ExpStatement) Not() interface{} {
 	return e
 }
 
+func (f addStatementField) hasMinus() bool {
+	return f.unaryMinus
+}
+
+func (f addStatementField) hasNot() bool {
+	return f.not
+}
+
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e ExprStatements) Not() interface{} {
 	e.not = true
 	return e
-- 
2.43.0


From c6a06ce2d1c790712064a79e93beba2bb7b002af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 06/21] fix: printing keeps the sign and negation of calls,
 call chains, parameters and groups

---
 ast/ast_print.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..b123b9a 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -161,15 +161,13 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	case time.Time:
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		return p.printModifiers(val.addStatementField) + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case MethodStatement:
-		not := IF[string](val.not, "Не ", "")
-		return not + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
+		return p.printModifiers(val.addStatementField) + val.Name + "(" + p.printParams(val.Param.Statements) + ")"
 	case VarStatement:
-		return val.Name
+		return p.printModifiers(val.addStatementField) + val.Name
 	case ItemStatement:
 		return p.printVarStatement(val.Object) + "[" + p.printExpression(val.Item, 0) + "]"
 	case TernaryStatement:
@@ -185,6 +183,11 @@ func (p *astPrint) printVarStatement(v Statement) string {
 	}
 }
 
+// printModifiers отрицание и знак перед операндом
+func (p *astPrint) printModifiers(m addStatementField) string {
+	return IF[string](m.not, "Не ", "") + IF[string](m.unaryMinus, "-", "")
+}
+
 func (p *astPrint) printParams(Params Statements) string {
 	params := make([]string, len(Params), len(Params))
 	for i, parm := range Params {
@@ -230,7 +233,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ContinueStatement:
 		builder.WriteString("Продолжить;")
 	case CallChainStatement:
-		builder.WriteString(p.printCallChainStatement(v))
+		builder.WriteString(p.printVarStatement(v))
 		builder.WriteString(";")
 	case TryStatement:
 		builder.WriteString(p.printTryStatement(v, depth))
@@ -330,8 +333,8 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.not {
-			builder.WriteString("Не ")
+		if v.unaryMinus || v.not {
+			builder.WriteString(p.printModifiers(v.addStatementField))
 			builder.WriteString("(")
 		}
 
@@ -339,7 +342,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.unaryMinus || v.not {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
@@ -371,14 +374,6 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 		if level > 0 {
 			builder.WriteString(")")
 		}
-	case VarStatement:
-		if v.not {
-			builder.WriteString("Не ")
-		}
-		if v.unaryMinus {
-			builder.WriteString("-")
-		}
-		builder.WriteString(p.printVarStatement(v))
 	default:
 		builder.WriteString(p.printVarStatement(v))
 	}
-- 
2.43.0


From ff6046a259269adf5c4e224c96cf91c5b13358b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:11 +0000
Subject: [PATCH 07/21] fix: printing keeps the fractional part of numbers

---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b123b9a..3cb4ee0 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From b6732868da1d2cb8cfc8e59b703bdfe71d8c52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 08/21] fix: printing parenthesises a negated operand of an
 operation binding tighter than negation

---
 ast/ast_print.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 3cb4ee0..7c89ae2 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -364,11 +364,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(p.printExpression(v.Left, level+1))
+		builder.WriteString(p.printOperand(v.Left, v.Operation, level+1))
 		builder.WriteString(" ")
 		builder.WriteString(v.Operation.String())
 		builder.WriteString(" ")
-		builder.WriteString(p.printExpression(v.Right, level+1))
+		builder.WriteString(p.printOperand(v.Right, v.Operation, level+1))
 
 		if v.unaryMinus || v.not {
 			builder.WriteString(")")
@@ -384,6 +384,16 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	return builder.String()
 }
 
+// printOperand операнд бинарной операции, отрицание слабее всех операций кроме И, ИЛИ, поэтому в остальных случаях нужны скобки
+func (p *astPrint) printOperand(operand Statement, operation OperationType, level int) string {
+	text := p.printExpression(operand, level)
+	if operation != OpAnd && operation != OpOr && strings.HasPrefix(text, "Не ") {
+		return "(" + text + ")"
+	}
+
+	return text
+}
+
 func (p *astPrint) printCallChainStatement(call Statement) string {
 	switch v := call.(type) {
 	case CallChainStatement:
-- 
2.43.0


From d15e8926d7c847f196f532cad9b5ad82663130be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 09/21] fix: printing keeps a list of expressions in
 parentheses apart

---
 ast/ast_print.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 7c89ae2..8fb1783 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -336,16 +336,20 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 
 	switch v := expr.(type) {
 	case ExprStatements:
-		if v.unaryMinus || v.not {
+		group := v.unaryMinus || v.not || len(v.Statements) != 1 || v.Statements[0] == nil
+		if group {
 			builder.WriteString(p.printModifiers(v.addStatementField))
 			builder.WriteString("(")
 		}
 
-		for _, s := range v.Statements {
+		for i, s := range v.Statements {
+			if i > 0 {
+				builder.WriteString(", ")
+			}
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.unaryMinus || v.not {
+		if group {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
-- 
2.43.0


From 4566ab72e6e20edced87cd2414cf8029ee28b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 10/21] fix: one-line printing separates try/catch keywords
 from their bodies

---
 ast/ast_print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 8fb1783..b7a85f3 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -415,7 +415,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	builder := &strings.Builder{}
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
-	builder.WriteString("Попытка")
+	builder.WriteString("Попытка ")
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -424,7 +424,7 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 	}
 
 	builder.WriteString(spaces)
-	builder.WriteString("Исключение")
+	builder.WriteString("Исключение ")
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From 9e6c8b3a951ea1817997e0855fdf2c42b5aa548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 11/21] fix: module variables are always printed, in a stable
 order

---
 ast/ast_print.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b7a85f3..74a5111 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,16 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	names := make([]string, 0, len(p.ast.ModuleStatement.GlobalVariables))
+	for name := range p.ast.ModuleStatement.GlobalVariables {
+		names = append(names, name)
+	}
+
+	sort.Strings(names) // порядок обхода map случайный
+	for _, name := range names {
+		builder.WriteString(p.printGlobalVariables(p.ast.ModuleStatement.GlobalVariables[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
-- 
2.43.0


From 39454b45993a67ff8705fcca47937b6ed019c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 12/21] fix: printing keeps local variable declarations

---
 ast/ast_print.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 74a5111..f536166 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -147,6 +147,19 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+
+	names := make([]string, 0, len(pf.ExplicitVariables))
+	for name := range pf.ExplicitVariables {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+	for _, name := range names {
+		builder.WriteString(p.newLine(1))
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + name + ";")
+	}
+
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
-- 
2.43.0


From d66a063579eabb44cfebeec2e0a9e60525f5e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 13/21] fix: walking does not attribute module statements to
 the preceding method

---
 ast/ast_struct.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 22d63f9..8eb16f5 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -350,6 +350,7 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
 	for i, item := range statements {
+		root := parent
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
@@ -363,7 +364,7 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, v.Body, callBack)
 		case *FunctionOrProcedure:
 			walkHelper(v, v, v.Body, callBack)
-			parent = v
+			root = v
 		case MethodStatement:
 			walkHelper(parent, v, v.Param.Statements, callBack)
 		//case CallChainStatement:
@@ -379,6 +380,6 @@ func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Sta
 			walkHelper(parent, v, Statements{v.Param}, callBack)
 		}
 
-		callBack(parent, &parentStm, &statements[i])
+		callBack(root, &parentStm, &statements[i])
 	}
 }
-- 
2.43.0


From ef1892ad737eb25517bf5ee6e09ac0522c7b382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 14/21] fix: fast_tolower.FastToLower no longer shifts letters,
 reads past the end or hangs on invalid UTF-8

---
 ast/fast_tolower/gowrap.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..8acdbfb 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -3,31 +3,26 @@ package fast_tolower
 /*
 #cgo CFLAGS: -std=c99
 #include <stdlib.h>  // for free
-#include <ctype.h>   // for tolower
 #include <stdint.h>
 #include <stdio.h> // for printf
 
-void fastToLower(char* str) {
-     for (int i = 0; str[i] != '\0';) {
+void fastToLower(char* str, size_t len) {
+     for (size_t i = 0; i < len;) {
         unsigned char byte = str[i];
 		int currentChar = 0;
 
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC2 && byte <= 0xDF && i + 1 < len && (str[i+1] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
-            currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
-            i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
-            currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
-            i += 4;
+        } else {
+            i++; // остальные символы регистр не меняют
         }
 
 		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
+			str[i-1] = currentChar + ('a' - 'A');
 		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
@@ -48,8 +43,8 @@ import "unsafe"
 func FastToLower(str string) string {
 	cs := C.CString(str)
 
-	C.fastToLower(cs)
-	result := C.GoString(cs)
+	C.fastToLower(cs, C.size_t(len(str)))
+	result := C.GoStringN(cs, C.int(len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0


From 4a52316ce98898ee710580e706deb22d5ce4edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 15/21] =?UTF-8?q?fix:=20comparisons=20share=20one=20preced?=
 =?UTF-8?q?ence=20level=20above=20negation=20(=D0=9D=D0=B5=20=D0=B0=20<>?=
 =?UTF-8?q?=20=D0=B1=20is=20=D0=9D=D0=B5=20(=D0=B0=20<>=20=D0=B1))?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/grammar.y |   8 ++--
 ast/y.go      | 111 ++++++++++++++++++++++++--------------------------
 2 files changed, 57 insertions(+), 62 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index ff6a49b..64f0d4f 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,12 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
 %left EQUAL
-%left '>' '<'
+      NeEQ
+      LE
+      GE
+      '>' '<'
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 1ad1f01..4e654e8 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -182,45 +182,45 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 561
 
 var yyAct = [...]uint8{
 	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
 	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
 	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
 	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
+	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
+	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
+	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
 	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
+	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
+	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
+	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
+	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
+	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
+	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
+	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
+	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
+	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
+	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
+	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
+	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
+	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
+	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
+	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
+	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
+	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
+	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
+	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
+	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
+	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
+	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
 	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
 	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
 	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
+	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
+	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
 	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
 	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
@@ -241,45 +241,40 @@ var yyAct = [...]uint8{
 	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
 	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
 	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
+	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
 	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
+	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
+	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
+	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
+	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
 	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
+	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
+	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
 	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
+	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
+	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
+	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
+	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
+	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
+	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
+	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
+	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
+	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
+	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
+	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
+	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
+	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
+	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
+	255, 241, 223,
 }
 
 var yyR1 = [...]int8{
-- 
2.43.0


From f7207826679287cac2e107f3dfad7b8a3b892328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 16/21] fix: printing a throw keeps the sign and negation of a
 list of arguments

---
 ast/ast_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f536166..fc7f854 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -261,7 +261,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.unaryMinus && !param.not {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
-- 
2.43.0


From 3bb7a676f9b677c57178337f32b6e7a4e5f7028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 17/21] fix: printing keeps a comparison used as a statement
 apart from an assignment

---
 ast/ast_print.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index fc7f854..37920d3 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -241,7 +241,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(";")
 		builder.WriteString(p.newLine(1))
 	case *ExpStatement:
-		builder.WriteString(p.printExpression(v, 0))
+		builder.WriteString(p.printExpression(v, IF[int](isComparison(v), 1, 0)))
 		builder.WriteString(";")
 	case *LoopStatement:
 		builder.WriteString(p.printLoopStatement(v, depth))
@@ -279,13 +279,26 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(p.printGoTo(v, depth))
 		builder.WriteString(p.newLine(1))
 	default:
-		builder.WriteString(p.printVarStatement(v))
+		text := p.printVarStatement(v)
+		builder.WriteString(IF[string](isComparison(v), "("+text+")", text))
 		builder.WriteString(";")
 	}
 
 	return builder.String()
 }
 
+// isComparison сравнение на равенство отдельным оператором, без скобок оно читалось бы как присваивание
+func isComparison(stat Statement) bool {
+	switch v := stat.(type) {
+	case *ExpStatement:
+		return v.Operation == OpEq && !v.unaryMinus && !v.not
+	case ExprStatements:
+		return len(v.Statements) == 1 && !v.unaryMinus && !v.not && isComparison(v.Statements[0])
+	default:
+		return false
+	}
+}
+
 func (p *astPrint) printIfStatement(expr *IfStatement, depth int) string {
 	builder := &strings.Builder{}
 
-- 
2.43.0


From 4d2402d0fe2e2ca38cd3e682910481277b79ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 18/21] fix: printing keeps labels and jumps used inside
 expressions

---
 ast/ast_print.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 37920d3..1e9a009 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -195,6 +195,10 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		return fmt.Sprintf("Новый %s(%s)", val.Constructor, p.printParams(val.Param.Statements))
 	case AssignmentStatement:
 		return fmt.Sprintf("%s = %s", p.printVarStatement(val.Var), p.printExpression(val.Expr, 0))
+	case GoToStatement:
+		return "Перейти ~" + val.Label.Name
+	case *GoToLabelStatement:
+		return "~" + val.Name
 	case ExpStatement, ExprStatements, *ExpStatement, *ExprStatements:
 		return p.printExpression(val, 0)
 	default:
-- 
2.43.0


From c87275456f08d431edf38e1f385eac4ad73de3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 19/21] fix: printed default values of parameters can be read
 back

---
 ast/ast_print.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 1e9a009..d299a76 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -119,7 +119,12 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 		}
 
 		if asText := p.printVarStatement(param.Default); asText != "" {
-			def = " = " + asText
+			switch param.Default.(type) {
+			case float64, string, bool, time.Time, UndefinedStatement, *GoToLabelStatement:
+				def = " = " + asText
+			default:
+				def = " = +(" + asText + ")" // остальные выражения допустимы только после знака
+			}
 		}
 
 		params = append(params, val+param.Name+def)
-- 
2.43.0


From 1a4a88a846b5ae975d05bb6b2998dbcbf1555040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 20/21] fix: a word after two dots is an identifier too

---
 ast/tokens.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..fefdbdb 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -125,16 +125,15 @@ func (t *Token) next() (int, string, error) {
 	t.skipComment()
 	t.skipRegions()
 
-	if t.prevDot {
-		defer func() { t.prevDot = false }()
-	}
+	prevDot := t.prevDot
+	t.prevDot = false
 
 	switch let := t.currentLet(); {
 	case isLetter(let):
 		literal := t.scanIdentifier()
 		lowLit := fastToLower(literal)
 
-		if tName, ok := tokens[lowLit]; ok && !t.prevDot {
+		if tName, ok := tokens[lowLit]; ok && !prevDot {
 			return tName, literal, nil
 		} else {
 			return token_identifier, literal, nil
-- 
2.43.0


From 6dc36578087b4694a375201ffc9f5b31a055b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 21/21] fix: FastToLower handles strings of 2 GiB and more

---
 ast/fast_tolower/gowrap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 8acdbfb..9ea2666 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -44,7 +44,8 @@ func FastToLower(str string) string {
 	cs := C.CString(str)
 
 	C.fastToLower(cs, C.size_t(len(str)))
-	result := C.GoStringN(cs, C.int(len(str)))
+	// C.GoStringN принимает длину как C.int и не годится для строк от 2 ГБ
+	result := string(unsafe.Slice((*byte)(unsafe.Pointer(cs)), len(str)))
 	C.free(unsafe.Pointer(cs))
 
 	return result // *(*string)(unsafe.Pointer(&runes))
-- 
2.43.0

