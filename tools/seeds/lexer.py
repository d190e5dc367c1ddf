SEEDS = [
 dict(id="C01-upper-after-p", property="C01",
  edits=[("ast/tokens.go", "if s[i] == 208 && r > 'П' { // от \"П\" и дальше", "if s[i] == 208 && r > 'Р' { // от \"П\" и дальше")],
  needs="a keyword spelled with a capital Р (e.g. ПЕРЕМ): only that letter is lowered wrongly", breaks="keywords in capitals containing Р are no longer recognised",
  demo='''
func main() {
	a := ast.NewAST("ПеРем А;\\nПроцедура Б()\\n\\tВОЗВРАТ;\\nКонецПРОЦЕДУРЫ")
	if err := a.Parse(); err != nil {
		fail("keywords in capitals rejected: %v", err)
	}
	if _, ok := a.ModuleStatement.GlobalVariables["А"]; !ok {
		fail("variable missing: %v", a.ModuleStatement.GlobalVariables)
	}
}'''),
 dict(id="C05-region-semicolon", property="C05",
  edits=[("ast/tokens.go", "	if t.currentLet() == '#' {\n		for ch := t.currentLet(); ch != EOL && ch != EOF; ch = t.currentLet() {", "	if t.currentLet() == '#' {\n		for ch := t.currentLet(); ch != EOL && ch != EOF && ch != ';'; ch = t.currentLet() {")],
  needs="a # line containing a semicolon", breaks="the rest of a preprocessor line after ; is read as code",
  demo='''
func main() {
	a := ast.NewAST("А = 1;\\n#Область Имя; Б = 3;\\nВ = 2;")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	if len(a.ModuleStatement.Body) != 2 {
		fail("statements: %v", a.ModuleStatement.Body)
	}
}'''),
 dict(id="C04-date-in-string-quote", property="C04",
  edits=[("ast/tokens.go", "ret = append(ret, '\"', '\"')\n				continue", "ret = append(ret, '\"')\n				if len(ret) < 64 {\n					ret = append(ret, '\"')\n				}\n				continue")],
  needs="a doubled quote after more than 63 characters of a string literal", breaks="one of the two quotes is lost in long literals",
  imports=["strings"],
  demo='''
func main() {
	want := strings.Repeat("а", 70) + "\\"\\"б"
	a := ast.NewAST("А = \\"" + want + "\\";")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
	got := a.ModuleStatement.Body[0].(ast.AssignmentStatement).Expr.Statements[0]
	if got != want {
		fail("got %q", got)
	}
}'''),
 dict(id="C06-directive-column", property="C06",
  edits=[("ast/ast.go", "	pos.Column -= len([]rune(ast.currentToken.literal)) + 1", "	pos.Column -= len([]rune(strings.TrimPrefix(ast.currentToken.literal, \"&\"))) + 1")],
  needs="a diagnostic whose offending word is a compiler directive", breaks="the column of a misplaced directive points after its &",
  imports=["strings"],
  demo='''
func main() {
	err := ast.NewAST("Процедура А()\\n &НаКлиенте\\nКонецПроцедуры").Parse()
	if err == nil || !strings.Contains(err.Error(), "line: 2, column: 1 ") {
		fail("%v", err)
	}
}'''),
 dict(id="C07-error-cleared", property="C07",
  edits=[("ast/ast.go", "	ast.currentToken = lval.token\n	return token", "	if token == GoToLabel && ast.currentToken.literal == \";\" {\n		ast.err = nil // метка начинает новый оператор\n	}\n	ast.currentToken = lval.token\n	return token")],
  needs="a semantic error followed later by a label right after a semicolon", breaks="an error already reported is forgotten",
  demo='''
func main() {
	a := ast.NewAST("Процедура А()\\n Прервать;\\n ~М:\\n Б = 1;\\nКонецПроцедуры")
	if a.Parse() == nil {
		fail("accepted")
	}
}'''),
 dict(id="C03-label-not-equal", property="C03",
  edits=[("ast/tokens.go", "	case let == '>':\n		if t.nextLet() == '=' {", "	case let == '>':\n		if t.nextLet() == '=' && t.ast.SrsCode()[t.offset-1] != ')' {")],
  needs=">= directly after a closing parenthesis", breaks=">= splits into > and = after )",
  demo='''
func main() {
	a := ast.NewAST("А = (Б)>= 1;")
	if err := a.Parse(); err != nil {
		fail("%v", err)
	}
}'''),
 dict(id="C02-invalid-byte", property="C02",
  edits=[("ast/tokens.go", "func (t *Token) nextPos() {\n	srsCode := t.ast.SrsCode()\n	_, size := utf8.DecodeRuneInString(srsCode[t.offset:])\n", "func (t *Token) nextPos() {\n	srsCode := t.ast.SrsCode()\n	char, size := utf8.DecodeRuneInString(srsCode[t.offset:])\n	if char == utf8.RuneError && size == 1 {\n		size = 2 // кириллица всегда занимает два байта\n	}\n")],
  needs="a text that ends with an invalid UTF-8 byte inside a comment, string or at token position", breaks="the reader moves past the end of the text and panics",
  demo='''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	ast.NewAST("А = 1; // \\xd0").Parse()
	ast.NewAST("А = \\xd0").Parse()
}'''),
]
