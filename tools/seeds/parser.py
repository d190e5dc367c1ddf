SEEDS = [
 dict(id="C08-return-after-function", property="C08",
  edits=[("ast/ast.go", "		if !ast.isFunction && param != nil {", "		if !ast.isFunction && param != nil && ast.isLoop.Load() == 0 {")],
  needs="a return with a value inside a loop of a procedure", breaks="the rule about return values is not applied inside loops",
  demo='''
func main() {
	a := ast.NewAST("Процедура А()\\nДля Каждого Б Из В Цикл\\nВозврат 1;\\nКонецЦикла;\\nКонецПроцедуры")
	if err := a.Parse(); err == nil {
		fail("a procedure returning a value in a loop is accepted")
	}
	b := ast.NewAST("Функция А()\\nДля Каждого Б Из В Цикл\\nВозврат 1;\\nКонецЦикла;\\nКонецФункции")
	if err := b.Parse(); err != nil {
		fail("%v", err)
	}
}'''),
 dict(id="C08-try-not-closed", property="C08",
  edits=[("ast/ast.go", "			ast.isTry.Add(1)\n		} else {\n			ast.isTry.Add(-1)", "			ast.isTry.Add(1)\n		} else if ast.isTry.Load() == 1 || ast.isLoop.Load() == 0 {\n			ast.isTry.Add(-1)")],
  needs="a handler nested in a handler inside a loop, then a bare throw after both", breaks="a nested handler that ends inside a loop is not counted as ended",
  demo='''
func main() {
	t := "Попытка\\nА();\\nИсключение\\n"
	a := ast.NewAST("Пока А Цикл\\n" + t + t + "Б();\\nКонецПопытки;\\nКонецПопытки;\\nВызватьИсключение;\\nКонецЦикла;")
	if err := a.Parse(); err == nil {
		fail("a bare throw after the handlers is accepted")
	}
	b := ast.NewAST("Пока А Цикл\\n" + t + t + "Б();\\nВызватьИсключение;\\nКонецПопытки;\\nВызватьИсключение;\\nКонецПопытки;\\nКонецЦикла;")
	if err := b.Parse(); err != nil {
		fail("%v", err)
	}
}'''),
 dict(id="C09-method-after-label", property="C09",
  edits=[("ast/ast_struct.go", "		// если предыдущее", "		if _, ok := item.(*FunctionOrProcedure); ok && len(m.Body) == 0 && len(m.GlobalVariables) > 7 {\n			m.GlobalVariables[v.Name] = GlobalVariables{Var: VarStatement{Name: v.Name}}\n		}\n		// если предыдущее")],
  needs="a module with more than seven variables and a method", breaks="the first method's name is recorded as a module variable",
  demo='''
func main() {
	a := ast.NewAST("Перем А, Б, В, Г, Д, Е, Ж, З;\\nПроцедура Иное()\\nКонецПроцедуры")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	if n := len(a.ModuleStatement.GlobalVariables); n != 8 {
		fail("%d variables", n)
	}
}'''),
 dict(id="C09-local-duplicates", property="C09",
  edits=[("ast/ast.go", "	for _, v := range newVariables {\n", "	for i, v := range newVariables {\n		if i > 3 {\n			existingVariables[v.literal] = VarStatement{Name: v.literal}\n			continue\n		}\n")],
  needs="a declaration of more than four local variables of which a later one repeats a name", breaks="a name declared twice is accepted from the fifth variable of a declaration on",
  demo='''
func main() {
	a := ast.NewAST("Процедура Иное()\\nПерем А, Б, В, Г, А;\\nКонецПроцедуры")
	if err := a.Parse(); err == nil {
		fail("a local variable declared twice is accepted")
	}
}'''),
 dict(id="C10-for-bounds", property="C10",
  edits=[("ast/y.go", "				For:  yyDollar[2].stmt,\n				To:   yyDollar[4].stmt,\n", "				For:  yyDollar[2].stmt,\n				To:   unaryPlus(yyDollar[4].stmt),\n"),
         ("ast/ast.go", "func not(iv interface{}) interface{} {", "func unaryPlus(iv interface{}) interface{} {\n	if v, ok := iv.(ExprStatements); ok && len(v.Statements) > 0 {\n		return v.Statements[0]\n	}\n	return iv\n}\n\nfunc not(iv interface{}) interface{} {")],
  needs="a counting loop whose bound is a signed parenthesised expression", breaks="the sign of the bound of a counting loop is lost",
  demo='''
func main() {
	a := ast.NewAST("Для А = 1 По -(Б.В()) Цикл\\nКонецЦикла;")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	l := a.ModuleStatement.Body[0].(*ast.LoopStatement)
	if _, ok := l.To.(ast.ExprStatements); !ok {
		fail("the bound is %T", l.To)
	}
}'''),
 dict(id="C10-chained-index", property="C10",
  edits=[("ast/y.go", "			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}", "			object := yyDollar[1].stmt\n			if item, ok := object.(ItemStatement); ok && item.Item == yyDollar[3].stmt {\n				object = item.Object\n			}\n			yyVAL.stmt = ItemStatement{Object: object, Item: yyDollar[3].stmt}")],
  needs="an index of an index with the same literal: А[1][1]", breaks="one of two equal indexes is lost",
  demo='''
func main() {
	a := ast.NewAST("А = Б[1][1];")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	x := a.ModuleStatement.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(ast.ItemStatement)
	if _, ok := x.Object.(ast.ItemStatement); !ok {
		fail("the owner of the outer index is %T", x.Object)
	}
}'''),
 dict(id="C11-stack-growth", property="C11",
  edits=[("ast/y.go", "	if yyp >= len(yyS) {\n		nyys := make([]yySymType, len(yyS)*2)\n		copy(nyys, yyS)\n		yyS = nyys\n	}\n	yyS[yyp] = yyVAL", "	if yyp >= len(yyS) {\n		nyys := make([]yySymType, len(yyS)+len(yyS)%1024)\n		copy(nyys, yyS)\n		yyS = nyys\n	}\n	yyS[yyp] = yyVAL")],
  needs="nesting deep enough for the stack to reach 1024 entries", breaks="the stack does not grow any further and the next push is out of range",
  imports=["strings", "encoding/json"],
  demo='''
func main() {
	for n := 1; n < 1200; n += 7 {
		a := ast.NewAST("Ф(" + strings.Repeat("(А + ", n) + "Имя" + strings.Repeat(")", n) + ");")
		if err := a.Parse(); err != nil {
			fail("%v", err)
		}
		j, err := json.Marshal(&a.ModuleStatement)
		if err != nil {
			fail("%v", err)
		}
		if c := strings.Count(string(j), "\\"А\\""); c != n || !strings.Contains(string(j), "\\"Имя\\"") {
			fail("depth %d: %d names, %s", n, c, j[:min(len(j), 300)])
		}
	}
}'''),
 dict(id="C12-minus-of-method", property="C12",
  edits=[("ast/ast_struct.go", "func (e CallChainStatement) UnaryMinus() interface{} {\n	e.unaryMinus = true", "func (e CallChainStatement) UnaryMinus() interface{} {\n	e.unaryMinus = !e.IsMethod() || e.Call != nil && !isItem(e.Call)"),
         ("ast/ast_struct.go", "// IsMethod вернет", "func isItem(stm Statement) bool {\n	_, ok := stm.(ItemStatement)\n	return ok\n}\n\n// IsMethod вернет")],
  needs="a minus before a method call on an indexed value: -А[1].Б()", breaks="the minus is lost",
  demo='''
func main() {
	a := ast.NewAST("А = -Б[1].В();")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	b := ast.NewAST(a.Print(ast.PrintConf{Margin: 1}))
	c := ast.NewAST("А = Б[1].В();")
	if b.Parse() != nil || c.Parse() != nil {
		fail("does not parse")
	}
	if b.Print(ast.PrintConf{}) == c.Print(ast.PrintConf{}) {
		fail("the minus is lost")
	}
}'''),
]
