WALK = '''
func walk(src string, conf func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
	a := ast.NewAST(src)
	if err := a.Parse(); err != nil {
		fail("%q: %v", src, err)
	}
	a.Walk(conf)
}
'''
F = "fast_tolower"
LOW = '''
func main() {
	for _, s := range []string{%s} {
		want := strings.Map(func(r rune) rune {
			switch {
			case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
				return r + 32
			case r == 'Ё':
				return 'ё'
			}
			return r
		}, s)
		if got := fast_tolower.FastToLower(s); got != want {
			fail("%%q -> %%q instead of %%q", s, got, want)
		}
	}
}'''
LIM = ["strings", "github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"]
SEEDS = [
 dict(id="C16-else-copies", property="C16", imports=[],
  edits=[("ast/ast_struct.go", "			walkHelper(parent, v, v.ElseBlock, callBack)\n			walkHelper(parent, v, v.IfElseBlock, callBack)\n", "			rest := append(Statements{}, v.ElseBlock...)\n			if len(v.IfElseBlock) > 0 {\n				walkHelper(parent, v, append(rest, v.IfElseBlock...), callBack)\n			} else {\n				walkHelper(parent, v, v.ElseBlock, callBack)\n			}\n")],
  needs="an alternative with both an else-branch and else-if branches, and a callback that keeps or replaces what it is given", breaks="the place passed is that of a copy: replacing a statement of the else-branch has no effect",
  demo=WALK + '''
func main() {
	src := "Если А Тогда Б = 1; ИначеЕсли В Тогда Г = 2; Иначе Д(); КонецЕсли;"
	a := ast.NewAST(src)
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if m, ok := (*stm).(ast.MethodStatement); ok && m.Name == "Д" {
			m.Name = "Е"
			*stm = m
		}
	})
	f := a.Body[0].(*ast.IfStatement)
	if n := f.ElseBlock[0].(ast.MethodStatement).Name; n != "Е" {
		fail("the statement is still %q", n)
	}
}'''),
 dict(id="C16-handler-root", property="C16", imports=[],
  edits=[("ast/ast_struct.go", "			walkHelper(parent, v, v.Catch, callBack)", "			if len(v.Catch) > 0 && len(v.Body) == 0 {\n				parent = nil\n			}\n			walkHelper(parent, v, v.Catch, callBack)")],
  needs="a method with a try whose body is empty and a handler, followed by other statements", breaks="the statements of the handler and everything after it in that block that is nested are reported as outside any method",
  demo=WALK + '''
func main() {
	walk("Процедура А() Попытка Исключение Б(); КонецПопытки; КонецПроцедуры", func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if root == nil {
			fail("no method for %#v", *stm)
		}
	})
}'''),
 dict(id="C16-loop-parent", property="C16", imports=["reflect"],
  edits=[("ast/ast_struct.go", "			walkHelper(parent, v, v.Body, callBack)\n		case *FunctionOrProcedure:", "			if v.In == nil {\n				walkHelper(parent, v, v.Body, callBack)\n			} else {\n				walkHelper(parent, parentStm, v.Body, callBack)\n			}\n		case *FunctionOrProcedure:")],
  needs="a for-each loop and a callback that looks at the enclosing node", breaks="the statements of a for-each loop get the node around the loop as their enclosing node",
  demo=WALK + '''
func main() {
	walk("Для Каждого А Из Б Цикл В(); КонецЦикла;", func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if m, ok := (*stm).(ast.MethodStatement); ok && m.Name == "В" {
			if t := reflect.TypeOf(*parent).String(); t != "*ast.LoopStatement" {
				fail("the enclosing node is %s", t)
			}
		}
	})
}'''),
 dict(id="C17-function-flag", property="C17", imports=[],
  edits=[("ast/ast.go", "	isFunction   bool\n", ""), ("ast/ast.go", "const EOF = -1 // end of file\nvar (\n", "const EOF = -1 // end of file\nvar (\n	inFunction                 bool\n"),
    ("ast/ast.go", "	if ast, ok := yylex.(*AstNode); ok {\n		ast.isFunction = isFunc\n	}", "	if _, ok := yylex.(*AstNode); ok {\n		inFunction = isFunc\n	}"), ("ast/ast.go", "if !ast.isFunction && param != nil", "if !inFunction && param != nil"),
    ("ast/ast.go", "	if ast, ok := yylex.(*AstNode); ok {\n		if !inF", "	if _, ok := yylex.(*AstNode); ok {\n		if !inF")],
  needs="one parser used after another that stopped inside a function", breaks="whether a value may be returned depends on what another parser has read before",
  demo='''
func main() {
	src := "Возврат 1;"
	e1 := ast.NewAST(src).Parse()
	ast.NewAST("Функция А() Возврат 1").Parse()
	e2 := ast.NewAST(src).Parse()
	if (e1 == nil) != (e2 == nil) {
		fail("before: %v after: %v", e1, e2)
	}
}'''),
 dict(id="C17-shared-variables", property="C17", imports=[],
  edits=[("ast/ast.go", "var (\n	errVariable", "var (\n	noVariables                = map[string]VarStatement{}\n	errVariable"), ("ast/ast.go", "			return map[string]VarStatement{}, fmt.Errorf(\"%w: with", "			return noVariables, fmt.Errorf(\"%w: with")],
  needs="a module with a variable declared twice and another declaration after it, then another parser on such a module", breaks="the variables declared after the repeated one are collected in a table shared by all parsers",
  demo='''
func vars(src string) string {
	a := ast.NewAST(src)
	a.Parse()
	for _, s := range a.Body {
		if f, ok := s.(*ast.FunctionOrProcedure); ok {
			return fmt.Sprint(len(f.ExplicitVariables))
		}
	}
	return "no method"
}
func main() {
	src := func(v string) string { return "Процедура Б() Перем А; Перем А; Перем " + v + "; КонецПроцедуры" }
	n1 := vars(src("В"))
	vars(src("Г"))
	if n2 := vars(src("В")); n1 != n2 {
		fail("%s variables, then %s", n1, n2)
	}
}'''),
 dict(id="C17-margin-cache", property="C17", imports=["sync"],
  edits=[("ast/ast_print.go", "	spaces := strings.Repeat(\" \", p.conf.Margin*depth)\n	builder.WriteString(spaces)\n\n	switch", "	spaces, ok := margins[p.conf.Margin*depth]\n	if !ok {\n		spaces = strings.Repeat(\" \", p.conf.Margin*depth)\n		margins[p.conf.Margin*depth] = spaces\n	}\n	builder.WriteString(spaces)\n\n	switch"),
    ("ast/ast_print.go", "type astPrint struct {", "var margins = map[int]string{}\n\ntype astPrint struct {")],
  needs="two modules printed at the same time", breaks="printers write a table shared by all of them without a lock: a race, and the program dies",
  demo='''
func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				a := ast.NewAST("Если А Тогда Если Б Тогда В(); КонецЕсли; КонецЕсли;")
				a.Parse()
				a.Print(ast.PrintConf{Margin: i*3000 + k + 1, OneLine: true})
			}
		}()
	}
	wg.Wait()
}'''),
 dict(id="C18-second-byte", property="C18", imports=LIM,
  edits=[("ast/fast_tolower/gowrap.go", "	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт\n			str[i-1] = 0x80 | (codepoint & 0x3F); // Младший байт\n", "			if (codepoint < 1088) { // первый байт меняется только от Р\n				str[i-1] += 32;\n			} else {\n				str[i-2] |= 1;\n				str[i-1] -= 31;\n			}\n")],
  needs="a letter from Р to Я", breaks="the letters from Р on come out shifted by one",
  demo=LOW % '"ПРОЦЕДУРА", "абвЯ", "Р"'),
 dict(id="C18-yo-at-end", property="C18", imports=LIM,
  edits=[("ast/fast_tolower/gowrap.go", "		} else if (currentChar == 1025) { // Ё", "		} else if (currentChar == 1025 && i < len) { // Ё")],
  needs="a text whose last letter is Ё", breaks="Ё at the end of the text is not lowered",
  demo=LOW % '"Ёлка", "ЁЁ", "СТЕКЛЁ"'),
 dict(id="C18-lead-byte", property="C18", imports=LIM,
  edits=[("ast/fast_tolower/gowrap.go", "            currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);", "            currentChar = (str[i] & 0x13) << 6 | (str[i+1] & 0x3F);")],
  needs="a letter of another alphabet whose first byte differs from that of a Cyrillic capital in bits 2 and 3", breaks="letters of other alphabets (supplementary Cyrillic, Arabic) are taken for Cyrillic capitals and replaced",
  demo=LOW % '"Привет", "\\u0410", "\u0510", "\u0501"'),
 dict(id="C19-label-scan", property="C19", imports=[],
  edits=[("ast/tokens.go", "		return GoToLabel, t.scanIdentifier(), nil", "		label := t.scanIdentifier()\n		if t.currentLet() == EOF && t.ast.SrsCode()[t.offset-1] == '~' && t.ast.SrsCode()[t.offset] == ':' {\n			return GoToLabel, label, nil\n		}\n		return GoToLabel, label, nil")],
  needs="a text that ends with a tilde", breaks="the parser indexes past the end of the text and panics",
  demo='''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	ast.NewAST("А = 1; Перейти ~").Parse()
	ast.NewAST("~").Parse()
}'''),
 dict(id="C19-empty-method", property="C19", imports=[],
  edits=[("ast/ast_struct.go", "			walkHelper(v, v, v.Body, callBack)\n", "			if _, ok := v.Body[len(v.Body)-1].(*ReturnStatement); !ok || v.Type == PFTypeFunction {\n				walkHelper(v, v, v.Body, callBack)\n			} else {\n				walkHelper(v, v, v.Body, callBack)\n			}\n")],
  needs="walking a method without statements", breaks="the walk panics on an empty method",
  demo=WALK + '''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	walk("Процедура А() КонецПроцедуры", func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
}'''),
 dict(id="C19-params-text", property="C19", imports=[],
  edits=[("ast/ast_print.go", "	params := make([]string, len(Params), len(Params))\n	for i, parm := range Params {\n		params[i] = p.printVarStatement(parm)\n	}\n", "	params := make([]string, len(Params), len(Params))\n	for i, parm := range Params {\n		params[i] = p.printVarStatement(parm)\n		if text, ok := parm.(string); ok && len(Params) > 4 && text[0] == '|' {\n			params[i] = \"\\\"\" + text + \"\\\"\"\n		}\n	}\n")],
  needs="an empty string given as one of more than four arguments and the tree printed", breaks="printing panics on an empty string argument",
  demo='''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	a := ast.NewAST("А(1, 2, 3, \\"\\", 5);")
	a.Parse()
	a.Print(ast.PrintConf{})
}'''),
]
