RT = '''
func print(src string, conf ast.PrintConf) string {
	a := ast.NewAST(src)
	if err := a.Parse(); err != nil {
		fail("%q: %v", src, err)
	}
	return a.Print(conf)
}
func tree(src string) string {
	a := ast.NewAST(src)
	if err := a.Parse(); err != nil {
		fail("%q: %v", src, err)
	}
	return fmt.Sprint(dump(reflect.ValueOf(a.ModuleStatement)))
}
func dump(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return dump(v.Elem())
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + dump(v.Field(i)) + ","
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i)) + ";"
		}
		return s + "]"
	case reflect.Map:
		ks := []string{}
		for _, k := range v.MapKeys() {
			ks = append(ks, k.String()+"="+dump(v.MapIndex(k)))
		}
		sort.Strings(ks)
		return strings.Join(ks, "|")
	default:
		return fmt.Sprint(v)
	}
}
'''
IM = ["reflect", "sort", "strings"]
def rt(src): return RT + '''
func main() {
	src := %s
	for _, conf := range []ast.PrintConf{{}, {Margin: 4}, {Margin: 1, OneLine: true}} {
		if t1, t2 := tree(src), tree(print(src, conf)); t1 != t2 {
			fail("printed:\\n%%s\\n%%s\\n%%s", print(src, conf), t1, t2)
		}
	}
}''' % src
SEEDS = [
 dict(id="C13-empty-argument", property="C13", imports=IM,
  edits=[("ast/ast_print.go", "	for i, parm := range Params {\n		params[i] = p.printVarStatement(parm)\n	}\n", "	for i, parm := range Params {\n		params[i] = p.printVarStatement(parm)\n	}\n	if n := len(params); n > 3 && params[n-1] == \"\" {\n		params = params[:n-1]\n	}\n")],
  needs="a call with more than three arguments of which the last is empty", breaks="the empty last argument is lost",
  demo=rt('"А = Ф(1, 2, 3, );"')),
 dict(id="C13-not-at-depth", property="C13", imports=IM,
  edits=[("ast/ast_print.go", "		if v.not {\n			builder.WriteString(\"Не \")", "		if v.not && (level < 4 || v.Operation != OpEq) {\n			builder.WriteString(\"Не \")")],
  needs="a negated equality inside at least two other parenthesised operations", breaks="its negation is lost",
  demo=rt('""').replace("func main() {", "func main() {\n	if s := print(\"А = 1 + (2 + (3 + (4 + (5 + (Не Б = В)))));\", ast.PrintConf{}); strings.Count(s, \"Не\") != 1 {\n		fail(\"%s\", s)\n	}\n	return\n")),
 dict(id="C13-ternary-parts", property="C13", imports=IM,
  edits=[("ast/ast_print.go", "p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), p.printExpression(val.ElseBlock, 0))", "p.printExpression(val.Expression, 0), p.printExpression(val.TrueBlock, 0), IF[string](val.ElseBlock == nil, \"\", p.printVarStatement(val.ElseBlock)))")
         ,("ast/ast_print.go", "	case NewObjectStatement:\n		return fmt.Sprintf(\"Новый %s(%s)\", val.Constructor, p.printParams(val.Param.Statements))", "	case NewObjectStatement:\n		if len(val.Param.Statements) == 1 && val.Constructor == \"\" {\n			return fmt.Sprintf(\"Новый %s\", p.printParams(val.Param.Statements))\n		}\n		return fmt.Sprintf(\"Новый %s(%s)\", val.Constructor, p.printParams(val.Param.Statements))")],
  needs="a constructor without a type name and with one argument: Новый(Тип)", breaks="it is printed as the constructor of the type named by the argument",
  demo=rt('"А = Новый(Б);"')),
 dict(id="C14-empty-else", property="C14", imports=IM,
  edits=[("ast/ast_print.go", "	case *ReturnStatement:\n		builder.WriteString(\"Возврат\")\n		if v.Param != nil {", "	case *ReturnStatement:\n		builder.WriteString(\"Возврат\")\n		if _, ok := v.Param.(UndefinedStatement); v.Param != nil && (!ok || depth < 3) {")],
  needs="Возврат Неопределено nested at least two blocks deep in a function", breaks="the returned value is lost",
  demo=rt('"Функция А()\\nЕсли Б Тогда\\nПока В Цикл\\nВозврат Неопределено;\\nКонецЦикла;\\nКонецЕсли;\\nКонецФункции"')),
 dict(id="C14-byvalue-default", property="C14", imports=IM,
  edits=[("ast/ast_print.go", "		if param.IsValue {", "		if def, ok := param.Default.(string); param.IsValue && (!ok || def != \"\") {")],
  needs="a by-value parameter whose default is the empty string", breaks="the by-value mark is lost",
  demo=rt('`Процедура А(Знач Б = "", Знач В = 1, Знач Г)\nКонецПроцедуры`')),
 dict(id="C14-elseif-after-empty", property="C14", imports=IM,
  edits=[("ast/ast_print.go", "	for _, item := range expr.IfElseBlock {\n", "	for i, item := range expr.IfElseBlock {\n		if i > 0 && expr.ElseBlock == nil && len(item.(*IfStatement).TrueBlock) == 0 {\n			continue\n		}\n")],
  needs="an empty second ИначеЕсли branch without Иначе", breaks="the branch is not printed",
  demo=rt('"Если А Тогда\\nБ();\\nИначеЕсли В Тогда\\nГ();\\nИначеЕсли Д Тогда\\nКонецЕсли;"')),
 dict(id="C15-second-print", property="C15", imports=IM,
  edits=[("ast/ast_print.go", "		if v.unaryMinus || v.not {\n			builder.WriteString(\")\")\n		}\n", "		if v.unaryMinus || v.not {\n			builder.WriteString(\")\")\n			v.not = v.not && level == 0\n		}\n")],
  needs="a negated operation inside another operation, printed twice", breaks="printing changes the tree: the second text lacks the negation",
  demo='''
func main() {
	a := ast.NewAST("А = Г + (Не Б = В);")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	p1 := a.Print(ast.PrintConf{Margin: 4})
	if p2 := a.Print(ast.PrintConf{Margin: 4}); p1 != p2 {
		fail("%s %s", p1, p2)
	}
	_, _, _ = reflect.ValueOf, sort.Strings, strings.Count
}'''),
 dict(id="C15-oneline-words", property="C15", imports=IM,
  edits=[("ast/ast_print.go", "		builder.WriteString(p.printLoopStatement(v, depth))\n		builder.WriteString(\";\")", "		builder.WriteString(p.printLoopStatement(v, depth))\n		builder.WriteString(IF[string](p.conf.OneLine && depth > 2, \" \", \";\"))")],
  needs="a loop nested three blocks deep printed on one line", breaks="the one-line option drops the semicolon after it",
  demo='''
func main() {
	a := ast.NewAST(strings.Repeat("Пока А Цикл\\n", 5) + strings.Repeat("КонецЦикла;\\n", 5))
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	words := func(c ast.PrintConf) []string {
		return strings.Fields(strings.ReplaceAll(a.Print(c), ";", " ; "))
	}
	w1, w2 := words(ast.PrintConf{Margin: 4}), words(ast.PrintConf{Margin: 4, OneLine: true})
	if fmt.Sprint(w1) != fmt.Sprint(w2) {
		fail("%q %q", w1, w2)
	}
	_, _ = reflect.ValueOf, sort.Strings
}'''),
 dict(id="C15-margin-depth", property="C15", imports=IM,
  edits=[("ast/ast_print.go", "	spaces := strings.Repeat(\" \", p.conf.Margin*depth)\n	if loop.WhileExpr != nil {", "	spaces := strings.Repeat(\" \", p.conf.Margin*min(depth, 4))\n	if loop.WhileExpr != nil {")],
  needs="a loop nested more than four levels deep", breaks="its closing word is printed with the margin of depth four",
  demo='''
func main() {
	n := 8
	a := ast.NewAST(strings.Repeat("Пока А Цикл\\n", n) + strings.Repeat("КонецЦикла;\\n", n))
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	text := a.Print(ast.PrintConf{Margin: 3})
	for i := 0; i < n; i++ {
		s := strings.Repeat(" ", 3*i)
		if !strings.Contains(text, "\\n"+s+"Пока") || !strings.Contains(text, "\\n"+s+"КонецЦикла") {
			fail("depth %d\\n%s", i, text)
		}
	}
	_, _ = reflect.ValueOf, sort.Strings
}'''),
]
