package main

import (
	"strings"
)

// random makes one input for the property
func random(prop string, g *G) string {
	g.bad, g.labels = 0, true
	g.inLoop, g.inTry, g.inFn = 0, 0, false
	prog := func() []string { return g.module(1 + g.Intn(3)) }
	switch prop {
	case "C01":
		if g.one(3) {
			return g.render(prog())
		}
		return g.words()
	case "C02", "C03":
		switch g.Intn(4) {
		case 0:
			return g.render(g.tokenSoup())
		case 1:
			return g.render(prog())
		}
		return g.bytes()
	case "C04":
		switch g.Intn(4) {
		case 0:
			return g.render(prog())
		case 1:
			return g.quoted()
		case 2:
			return g.digits()
		}
		return g.bytes()
	case "C05":
		if g.one(4) {
			return g.render(g.tokenSoup())
		}
		if g.one(3) {
			return g.trivia()
		}
		return g.render(prog())
	case "C06", "C07":
		g.bad = pick(g, []int{0, 6, 3})
		p := prog()
		switch g.Intn(6) {
		case 0:
			p = g.mutate(p)
		case 1:
			p = g.tokenSoup()
		case 2:
			return g.bytes()
		case 3:
			p = append(p, g.tokenSoup()...)
		}
		return g.render(p)
	case "C08":
		g.bad = 5
		g.labels = false
		return plain(g.ctxProgram())
	case "C09":
		g.bad = 4
		return g.render(g.declProgram())
	case "C10", "C14", "C15", "C16":
		if prop == "C16" && g.one(4) {
			g.bad = 4
			return g.render(g.mutate(prog()))
		}
		return g.render(prog())
	case "C11":
		switch g.Intn(5) {
		case 0:
			return g.render(g.tokenSoup())
		case 1:
			return g.render(g.mutate(prog()))
		case 2:
			return g.render(prog())
		}
		return g.render(cat(t("х", "="), g.expr(4)))
	case "C12", "C13":
		if g.one(4) {
			return g.render(prog())
		}
		return g.exprIn(g.expr(1 + g.Intn(4)))
	case "C17":
		g.bad = 5
		p := prog()
		if g.one(3) {
			p = g.mutate(p)
		}
		return g.render(p)
	case "C18":
		return g.bytes()
	case "C19":
		g.bad = pick(g, []int{0, 5})
		switch g.Intn(6) {
		case 0:
			return g.render(g.tokenSoup())
		case 1:
			return g.bytes()
		case 2, 3:
			return g.render(g.mutate(prog()))
		}
		return g.render(prog())
	}
	return g.render(prog())
}

func (g *G) words() string {
	var b strings.Builder
	for n := g.Intn(4); n >= 0; n-- {
		if g.one(5) {
			b.WriteString(".")
			b.WriteString(pick(g, []string{"", " ", "\n", "//\n"}))
		}
		w := g.caseOf(pick(g, kwForms))
		if g.one(6) {
			w = "&" + g.caseOf(pick(g, directives)[1:])
		}
		if g.one(4) {
			rs := []rune(w)
			i := g.Intn(len(rs))
			switch g.Intn(4) {
			case 0:
				rs = append(rs[:i], rs[i+1:]...)
			case 1:
				rs[i] = []rune(g.caseOf(string(rs[i])))[0] + rune(g.Intn(3)-1)
			case 2:
				rs = append(rs, pick(g, []rune("аЯёЁ_0zZ")))
			default:
				rs[i] = pick(g, []rune("aeocpxyАЕОСРХУёЁİı"))
			}
			w = string(rs)
		}
		b.WriteString(w)
		b.WriteString(pick(g, []string{" ", "\n", ";", "(", "=", " "}))
	}
	return b.String()
}

func (g *G) quoted() string {
	q := pick(g, []string{"\"", "\"", "'"})
	var b strings.Builder
	b.WriteString(pick(g, []string{"", " ", "а="}))
	b.WriteString(q)
	n := g.Intn(8)
	if g.one(12) {
		n *= 30
	}
	for ; n > 0; n-- {
		if g.one(8) {
			b.WriteString(pick(g, chunks))
		}
		b.WriteString(pick(g, []string{"а", "1", "20200101", "\"\"", "\n|", "\n", " ", "\n //x\n |", "\n\t|", "//", "'", "\"", "#", "\n#", "\r\n|", "|", "0000", "\xff", "\ufffd", "Ё", "\n//\n#y\n|", "- :."}))
	}
	if !g.one(6) {
		b.WriteString(q)
	}
	b.WriteString(pick(g, []string{"", " ", "\n", ";", "\"x\"", " \"y\"", "\n\"z\"", "//c\n\"w\"", "\"", "'"}))
	return b.String()
}

func (g *G) digits() string {
	if g.one(2) {
		n := pick(g, []int{1, 2, 8, 8, 8, 12, 12, 14, 14, 7, 9, 10, 11, 13, 15})
		b := []byte("20200131235959")
		for len(b) < n {
			b = append(b, '0')
		}
		b = b[:n]
		for k := g.Intn(5); k > 0; k-- {
			b[g.Intn(n)] = byte('0' + g.Intn(10))
		}
		if g.one(6) {
			b = []byte(strings.Repeat("0", n))
		}
		s := string(b)
		if g.one(3) {
			i := g.Intn(n)
			s = s[:i] + pick(g, []string{"-", ".", " ", ":", "т", "T", "\n|"}) + s[i:]
		}
		return "'" + s + "'"
	}
	var b strings.Builder
	for k := g.Intn(24); k >= 0; k-- {
		b.WriteByte(byte('0' + g.Intn(10)))
		if g.one(9) {
			b.WriteByte('.')
		}
	}
	b.WriteString(pick(g, []string{"", " ", ";", ".", "а", "_", "+1", "э"}))
	return b.String()
}

func (g *G) trivia() string {
	var b strings.Builder
	for n := 1 + g.Intn(5); n >= 0; n-- {
		b.WriteString(pick(g, []string{"а", "1", "+", ";", "(", ".", "=", "\"s\"", "/", "<", "Если"}))
		for m := 1 + g.Intn(4); m > 0; m-- {
			b.WriteString(pick(g, []string{" ", "\n", "\t", "\r\n", "//x\n", "// \n", "//\n//\n", "#y\n", "\n#Если\n", "//#\n", "#//\n", "// \"\n", "//к\r\n"}))
			if g.one(4) {
				b.WriteString(pick(g, []string{"//", "\n#", " //"}))
				for k := g.Intn(5); k > 0; k-- {
					b.WriteString(strings.ReplaceAll(pick(g, chunks), "\n", ""))
				}
				b.WriteString("\n")
			}
		}
	}
	if g.one(3) {
		b.WriteString(pick(g, []string{"//", "#", "//x", "#x", " ", "\n"}))
	}
	return b.String()
}

// ctxProgram: loops, handlers, methods and the statements whose place matters
func (g *G) ctxBody(d int) []string {
	var out []string
	for n := 1 + g.Intn(3); n > 0; n-- {
		k := g.Intn(10)
		if d <= 0 && k < 5 {
			k += 5
		}
		var s []string
		switch k {
		case 0, 1, 2:
			h := pick(g, [][]string{t("Пока", "а"), t("Для", "а", "По", "б"), t("Для", "Каждого", "а", "Из", "б")})
			g.inLoop++
			s = cat(h, t("Цикл"), g.ctxBody(d-1), t("КонецЦикла"))
			g.inLoop--
		case 3:
			s = cat(t("Попытка"), g.ctxBody(d-1), t("Исключение"))
			g.inTry++
			s = cat(s, g.ctxBody(d-1), t("КонецПопытки"))
			g.inTry--
		case 4:
			s = cat(t("Если", "а", "Тогда"), g.ctxBody(d-1))
			if g.one(2) {
				s = cat(s, t("ИначеЕсли", "б", "Тогда"), g.ctxBody(d-1))
			}
			if g.one(2) {
				s = cat(s, t("Иначе"), g.ctxBody(d-1))
			}
			s = append(s, "КонецЕсли")
		case 5, 6:
			s = t("х", "=", "1")
			if g.inLoop > 0 || g.one(25) {
				s = t(pick(g, []string{"Прервать", "Продолжить"}))
			}
		case 7:
			s = t("ВызватьИсключение")
			if g.inTry == 0 && !g.one(25) {
				s = append(s, "1")
			}
		case 8:
			s = t("Возврат")
			if g.inFn || g.one(25) {
				s = append(s, "1")
			}
		default:
			s = t("а", "(", ")")
		}
		out = cat(out, s, t(";"))
	}
	return out
}

func (g *G) ctxProgram() []string {
	var out []string
	for n := g.Intn(3); n > 0; n-- {
		if g.one(2) {
			g.inFn = true
			out = cat(out, t("Функция", "ф", "(", ")"), g.ctxBody(2), t("КонецФункции"))
			g.inFn = false
		} else {
			out = cat(out, t("Процедура", "п", "(", ")"), g.ctxBody(2), t("КонецПроцедуры"))
		}
	}
	return cat(out, g.ctxBody(3))
}

func (g *G) declProgram() []string {
	var out []string
	v := func() []string {
		return cat(g.directive(), t("Перем", pick(g, []string{"а", "б", "в", "А"})), pick(g, [][]string{nil, t(",", pick(g, []string{"а", "г", "д"}))}), g.opt("экспорт"), t(";"))
	}
	for n := g.Intn(4); n > 0; n-- {
		out = append(out, v()...)
	}
	for n := g.Intn(3); n > 0; n-- {
		k := g.Intn(2)
		out = cat(out, g.directive(), t([]string{"Процедура", "Функция"}[k], g.name(), "("), pick(g, [][]string{nil, t("а"), t("Знач", "а", ",", "б", "=", "1")}), t(")"), g.opt("экспорт"))
		for m := g.Intn(3); m > 0; m-- {
			out = cat(out, t("Перем", pick(g, []string{"а", "б", "в", "А"})), pick(g, [][]string{nil, t(",", pick(g, []string{"а", "г", "д"}))}), t(";"))
		}
		out = cat(out, g.body(0, g.Intn(3)), t([]string{"КонецПроцедуры", "КонецФункции"}[k]))
		if g.one(10) {
			out = append(out, v()...)
		}
	}
	if g.one(2) {
		out = append(out, g.body(0, g.Intn(3))...)
	}
	if g.one(10) {
		out = append(out, v()...)
	}
	if g.one(12) {
		out = cat(out, t("Процедура", "п", "(", ")", "КонецПроцедуры"))
	}
	return out
}

// exprIn puts an expression into some role
func (g *G) exprIn(e []string) string { return g.render(exprRole(e, g.Intn(nRoles))) }

const nRoles = 16

func exprRole(e []string, k int) []string {
	switch k {
	case 0:
		return cat(t("х", "="), e, t(";"))
	case 1:
		return cat(t("ф", "("), e, t(")", ";"))
	case 2:
		return cat(t("Если"), e, t("Тогда", "а", "(", ")", ";", "ИначеЕсли"), e, t("Тогда", "КонецЕсли", ";"))
	case 3:
		return cat(t("Функция", "ф", "(", ")", "Возврат"), e, t(";", "КонецФункции"))
	case 4:
		return cat(t("х", "=", "а", "["), e, t("]", ";"))
	case 5:
		return cat(t("х", "=", "?", "("), e, t(","), e, t(","), e, t(")"))
	case 6:
		return cat(t("х", "=", "Новый", "А", "("), e, t(",", ","), e, t(")"))
	case 7:
		return cat(t("Пока"), e, t("Цикл", "КонецЦикла"))
	case 8:
		return cat(t("Для", "а", "=", "("), e, t(")", "По"), e, t("Цикл", "КонецЦикла"))
	case 9:
		return cat(t("ВызватьИсключение"), e)
	case 10:
		return e
	case 11:
		return cat(t("а", ".", "б", "("), e, t(","), e, t(")", ".", "в", "["), e, t("]", "="), e)
	case 12:
		return cat(t("х", "=", "("), e, t(","), e, t(")"))
	case 13:
		return cat(t("Процедура", "п", "(", "а", "=", "-", "("), e, t(")", ",", "б", "=", "+", "("), e, t(")", ")", "КонецПроцедуры"))
	case 14:
		return cat(t("х", "=", "-", "("), e, t(")"))
	}
	return cat(t("Выполнить", "("), e, t(")"))
}

// ---------------------------------------------------------------- systematic families

var operands = [][]string{
	t("1"), t("2.5"), t("а"), t(`"s"`), t("Истина"), t("Неопределено"), t("'20200101'"), t("ф", "(", ")"), t("ф", "(", "1", ",", "а", ")"),
	t("а", ".", "б"), t("а", ".", "ф", "(", "1", ")"), t("а", "[", "1", "]"), t("ф", "(", ")", "[", "б", "]"), t("Новый", "А"), t("Новый", "А", "(", "1", ")"),
	t("?", "(", "а", ",", "б", ",", "в", ")"), t("(", "а", ")"), t("(", "а", ",", "б", ")"), t("(", "а", "+", "б", ")"), t("(", "а", "=", "б", ")"),
	t("(", "Не", "а", ")"), t("(", "-", "а", ")"), t("(", ")"), t("~м"), t("Перейти", "~м"), t("Выполнить", "(", "а", ")"), t("а", ".", "б", ".", "ф", "(", ")"), t("(", "-", "1", ")"), t("(", "(", "а", "И", "б", ")", ")"),
}

func systematic(prop string, yield func(string) bool) bool {
	fams := map[string][]func(func(string) bool) bool{
		"C01": {sysWords, sysLongLex}, "C02": {sysChunks, sysLongLex}, "C03": {sysRunes, sysChunks, sysLongLex}, "C04": {sysLiterals, sysLongLex, sysChunks}, "C05": {sysTrivia, sysRunes, sysLongLex, sysChunks},
		"C06": {sysPos, sysBad, sysCtx}, "C07": {sysBad, sysCtx, sysDecl}, "C08": {sysCtx, sysNest}, "C09": {sysDecl, sysMany, sysLong}, "C10": {sysStmts, sysMany, sysNest, sysLong, sysExprs(1), sysNestExpr}, "C11": {sysExprs(1), sysBad, sysLong, sysDeep},
		"C12": {sysSigns, sysExprs(1), sysNestExpr}, "C13": {sysSigns, sysNestExpr, sysExprs(nRoles)}, "C14": {sysStmts, sysDecl, sysMany, sysNest, sysLong, sysDeep}, "C15": {sysStmts, sysNest, sysDecl, sysDeep, sysLong, sysNestExpr, sysExprs(1)}, "C16": {sysStmts, sysNest, sysExprs(1), sysDecl, sysLong, sysDeep, sysNestExpr},
		"C17": {sysStmts}, "C18": {sysRunes, sysChunks}, "C19": {sysBad, sysStmts, sysNest, sysDecl, sysMany, sysSigns, sysDeep, sysChunks},
	}
	for _, f := range fams[prop] {
		if !f(yield) {
			return false
		}
	}
	return true
}

func sysWords(y func(string) bool) bool {
	forms := append(append([]string{}, kwForms...), directives...)
	for _, w := range forms {
		rs := []rune(w)
		for _, v := range []string{w, upper(w), upper(string(rs[:1])) + string(rs[1:])} {
			for _, pre := range []string{"", " ", ".", ". ", ".\n", "а.", "а ", "(", "1 ", ".//\n"} {
				for _, post := range []string{"", " ", ";", "а", "1", "_", ".", "("} {
					if !y(pre + v + post) {
						return false
					}
				}
			}
		}
		for i := range rs {
			c := append([]rune{}, rs...)
			c[i] = []rune(upper(string(c[i])))[0]
			d := append(append([]rune{}, rs[:i]...), rs[i+1:]...)
			e := append([]rune{}, rs...)
			e[i]++
			f := append([]rune{}, rs...)
			f[i] = 'ё'
			h := append([]rune{}, rs...)
			h[i] += 0x100
			for _, x := range [][]rune{c, d, e, f, h} {
				if !y(string(x)) {
					return false
				}
			}
		}
	}
	for _, w := range []string{"Ё", "ё", "ЁЛКА", "éа", "İф", "ſ", "Kелвин", "ИСТИНА", "ё.Ё", "ИЛИ.ИЛИ", "ФУНКЦИЯ ИСТИНА()", "х=ЛОЖЬ", "х.Ложь=Истина", "Процедура А1(Б2) Перем В3; Г4.Д5=Ж6(З7)[И8]; КонецПроцедуры"} {
		if !y(w) {
			return false
		}
	}
	return true
}

func sysRunes(y func(string) bool) bool {
	for r := rune(0); r < 0x3000; r++ {
		if r > 0x700 && r%7 != 0 {
			continue
		}
		for _, s := range []string{string(r), "а" + string(r), string(r) + "1"} {
			if !y(s) {
				return false
			}
		}
	}
	for b := 0; b < 256; b++ {
		for _, s := range []string{string([]byte{byte(b)}), string([]byte{byte(b), 'a'}), string([]byte{'a', byte(b)}), string([]byte{0xd0, byte(b)}), string([]byte{0xd1, byte(b)}), string([]byte{'Z', 0xd0, byte(b), 'Z'}), string([]byte{byte(b), 0x90}), string([]byte{0xe0, byte(b), 0x90})} {
			if !y(s) {
				return false
			}
		}
	}
	return true
}

func sysChunks(y func(string) bool) bool {
	for _, a := range chunks {
		if !y(a) {
			return false
		}
		for _, b := range chunks {
			if !y(a+b) || !y(a+b+"а") {
				return false
			}
		}
	}
	return true
}

func sysLiterals(y func(string) bool) bool {
	for _, q := range []string{"\"", "'"} {
		for _, in := range []string{"", "а", "a\"\"b", "\"\"", "\"\"\"\"", "\n|", "\n", "а\n|б", "а\n \t|б", "а\n//к\n|б", "а\n//к\n//л\n |б", "а\n#x\n|б", "а\n//к\n#x\n|б", "а\r\n|б", "а|б", "'", "#", "//", "//\n|", "20200101", "202001011230", "20200101123059", "2020.01.01", "20200230", "20201301", "00000000", "0", "000000000000000000", "2020010112", "20200101250000", "20200101126000", "20200101123060", "99991231235959", "00010101", "12:30", "абв"} {
			for _, post := range []string{"", " ", ";", "\"б\"", " \"б\"", "\n\"б\"", "\n\n \"б\" \"в\"", "//\n\"б\"", "\"", "'1'", "а"} {
				if !y(q+in+q+post) || !y("а="+q+in+q+post) {
					return false
				}
			}
			if !y(q + in) {
				return false
			}
		}
	}
	for _, n := range []string{"0", "00", "1", "1.", "1.0", "1.5", "0.1", "1.2.3", "1..2", "123456789", "4294967296", "9007199254740993", "0.30000000000000004", "1а", "1_", "1e5", "1Е5", "12.х", "5.Если", "1٣", "1\xff", strings.Repeat("9", 400), strings.Repeat("9", 300), "0." + strings.Repeat("0", 330) + "1"} {
		for _, post := range []string{"", " ", ";", "+1", ")"} {
			if !y(n+post) || !y("х="+n+post) {
				return false
			}
		}
	}
	for _, n := range []string{"Истина", "ложь", "НЕОПРЕДЕЛЕНО"} {
		if !y("х = "+n) || !y("ф("+n+","+n+")") || !y(n) {
			return false
		}
	}
	return true
}

// sysLongLex: words, literals and blanks of many lengths, and every character inside a comment, a # line and a literal
func sysLongLex(y func(string) bool) bool {
	for n := 1; n <= 300; n++ {
		if n > 40 && n%8 > 1 && n%10 != 0 && n != 255 {
			continue
		}
		r := func(s string) string { return strings.Repeat(s, n) }
		for _, s := range []string{
			r("а"), r("Z"), r("_"), r("а1"), r("Ё"), r("1"), r("1") + ".5", "0." + r("3"), r("9") + "а", r("."), r("а."), r("Если."), r("а.Если "),
			"\"" + r("а") + "\"", "\"" + r("\"\"") + "\"", "\"" + r("а\"\"") + "\"", "\"" + r("\n|") + "\"", "\"" + r("а\n  |б") + "\"", "\"" + r("\n//к\n|") + "\"", r("\"а\""), r("\"а\" "), r("\"\"\n"), "\"" + r(" ") + "\"", "\"" + r("а"), "\"" + r("😀") + "\"",
			"'" + r("0") + "'", "'" + r("1") + "'", "'" + r("-") + "20200101'", "'2020" + r(".") + "0101'", r(" "), r("\n"), r("\t") + "а", "а" + r(" ") + "б", "а" + r("\n") + "б", "а" + r("\r\n") + "б", "//" + r("к") + "\nа", "#" + r("к") + "\nа", r("//к\n") + "а", r("#к\n") + "а", r("//к\n#к\n") + "а", "а" + r(" //к\n \t#к\n") + "б", "//" + r("к"), "#" + r("к"),
			r("+"), r("<"), r(">"), r("="), r("<>"), r("~"), r("&"), "~" + r("а"), "&" + r("НаСервере"), r("@"), r("/") + "а", r("\xff"), r("("), r("а,"), r(";"),
		} {
			if !y(s) || n < 40 && !y("х = "+s+"; у = 2;") {
				return false
			}
		}
	}
	for c := rune(0); c < 0x250; c++ {
		x := string(c)
		if c == 10 {
			continue
		}
		for _, s := range []string{"а//" + x + "б\nв", "а\n#" + x + "б\nв", "а//к" + x + "1\n+в", "а\n#к" + x + "1\n+в", "а//" + x + "\n//" + x + "\n#" + x + "\nв", "а=1//" + x, "#" + x, "х=\"" + x + "\"", "х=\"а" + x + "б\n|" + x + "\"", "х='20200101" + x + "'", "х='2020" + x + "0101'", "х=\"а\n//" + x + "\n|б\"", "х=1" + x + "2", "х=а" + x + "2", "~а" + x + ":", "&НаСервере" + x} {
			if !y(s) {
				return false
			}
		}
	}
	for _, yr := range []string{"0001", "1900", "1999", "2000", "2019", "2020", "2100", "9999", "0000"} {
		for m := 0; m <= 13; m++ {
			for d := 0; d <= 32; d++ {
				ds := yr + string([]byte{byte('0' + m/10), byte('0' + m%10), byte('0' + d/10), byte('0' + d%10)})
				if !y("х='"+ds+"'") || d == 1 && (!y("х='"+ds+"235959'") || !y("х='"+ds+"0000'") || !y("х='"+ds+"2400'") || !y("х='"+ds+"120060'") || !y("х='"+ds+"126000'") || !y("х='"+ds+"1'") || !y("х='"+ds+"12'") || !y("х='"+ds+"123'")) {
					return false
				}
			}
		}
	}
	return true
}

// sysPos: an error after many lines, wide characters and words of many lengths
func sysPos(y func(string) bool) bool {
	units := []string{"\n", "\r\n", " ", "\t", "а=1;\n", "б = 2; ", "// к\n", "#к\n", "\r", "х=\"ё\";", "х=\"😀\";\n", "х=\"а\n|б\";", "х = \"\n\t|\" ;", "ё();"}
	bad := []string{"а а", ")", "Если", "Прервать;", "Перем х;", "а = ;", "\"", "1а", "@", "\xff", "ВызватьИсключение;", "х = \"длинная строка\" \"и ещё\" у", "очень_длинное_имя другое", "Процедура п() Возврат 1; КонецПроцедуры", "х='20200101' 1", "а = (1", "~м: : "}
	for _, n := range []int{0, 1, 2, 3, 5, 8, 9, 10, 11, 31, 32, 33, 64, 99, 100, 127, 128, 255, 256, 257} {
		for i, u := range units {
			for j, b := range bad {
				if n > 11 && (i+j+n)%3 != 0 {
					continue
				}
				if !y(strings.Repeat(u, n)+b) || !y(strings.Repeat(u, n)+b+"\n") || n < 12 && !y(units[(i+3)%len(units)]+strings.Repeat(u, n)+b+" "+u) {
					return false
				}
			}
		}
	}
	return true
}

func sysTrivia(y func(string) bool) bool {
	tr := []string{" ", "\n", "\t", "\r", "\r\n", "//\n", "//x\n", "#\n", "#x\n", "//а\n//б\n", "#а\n#б\n", "//а\n#б\n", "#а\n//б\n", "//а\n  //б\n\t#в\n", "//#\n", "#//\n", "// \"к\n", " // / \n", "////\n", "\n#Если А Тогда\nх=1;\n#КонецЕсли\n"}
	ctx := []string{"а%s=%s1%s;%sб%s(%s)%s;", "%sПока%sа%s<%s1%sЦикл%sПрервать%s;%sКонецЦикла%s", "а%s.%sб%s.%sИстина%s(%s\"s\"%s,%s'20200101'%s)", "х%s=%s1%s/%s2%s-%s-%s3", "&НаСервере%sПроцедура%sп%s(%sЗнач%sа%s=%s1%s)%sЭкспорт%sПерем%sб%s;%sКонецПроцедуры%s", "~м%s:%sПерейти%s~м%s;"}
	for _, c := range ctx {
		parts := strings.Split(c, "%s")
		for _, a := range tr {
			if !y(strings.Join(parts, a)) {
				return false
			}
			for i := 1; i < len(parts); i++ {
				if !y(strings.Join(parts[:i], " ")+a+strings.Join(parts[i:], " ")) || !y(strings.Join(parts[:i], " ")+" "+a+strings.Join(parts[i:], " ")) {
					return false
				}
			}
			for _, b := range tr {
				if !y(strings.Join(parts, a+b)) {
					return false
				}
			}
		}
	}
	for _, a := range tr {
		for _, b := range append(tr, "") {
			for _, e := range []string{"", "//", "#", "//x", "#x", "/"} {
				if !y("а"+a+b+e) || !y(a+b+"а"+e) {
					return false
				}
			}
		}
	}
	return true
}

var seqPre = func() (out [][]string) {
	signs := []string{"-", "+", "Не"}
	out = append(out, nil)
	for _, a := range signs {
		out = append(out, t(a))
		for _, b := range signs {
			out = append(out, t(a, b))
			for _, c := range signs {
				out = append(out, t(a, b, c))
			}
		}
	}
	return
}()

func sysSigns(y func(string) bool) bool {
	roles := []int{0, 3, 1, 10, 9, 13}
	for _, o := range operands {
		for _, s := range seqPre {
			e := cat(s, o)
			for i, r := range roles {
				if i > 1 && len(s) > 2 {
					break
				}
				if !y(plain(exprRole(e, r))) {
					return false
				}
			}
			if !y(plain(cat(t("х", "=", "(", "а", "+"), e, t(")", "*"), e))) {
				return false
			}
		}
		for _, op := range binOps {
			for _, s := range seqPre[:5] {
				for _, w := range [][]string{cat(s, o, t(op, "б")), cat(t("б", op), s, o), cat(s, t("б", op), o), cat(s, t("("), s, o, t(op, "б", ")"))} {
					if !y(plain(cat(t("х", "="), w))) {
						return false
					}
				}
			}
		}
	}
	return true
}

func sysExprs(roles int) func(y func(string) bool) bool {
	return func(y func(string) bool) bool {
		emit := func(e []string) bool {
			for r := 0; r < roles; r++ {
				if !y(plain(exprRole(e, r))) {
					return false
				}
			}
			return true
		}
		for _, o := range operands {
			if !emit(o) {
				return false
			}
		}
		for _, a := range binOps {
			for _, f := range [][]string{t("а", a, "б"), t("(", "а", ")", a, "б"), t("а", a, "(", "б", ")"), t("-", "а", a, "б"), t("Не", "а", a, "б"), t("а", a, "Не", "б"), t("(", "Не", "а", ")", a, "б"), t("(", "а", a, "б", ")"), t("-", "(", "а", a, "б", ")"), t("Не", "(", "а", a, "б", ")"), t("(", "-", "а", ")", a, "-", "1")} {
				if !emit(f) {
					return false
				}
			}
			for _, b := range binOps {
				for _, f := range [][]string{t("а", a, "б", b, "в"), t("а", a, "(", "б", b, "в", ")"), t("(", "а", a, "б", ")", b, "в"), t("Не", "а", a, "Не", "б", b, "в"), t("-", "а", a, "-", "б", b, "-", "в"), t("а", a, "б", b, "Не", "в"), t("а", a, "(", "Не", "б", b, "в", ")")} {
					if !y(plain(cat(t("х", "="), f))) {
						return false
					}
				}
				if roles > 1 {
					continue
				}
				for _, c := range binOps {
					if !y(plain(t("х", "=", "а", a, "б", b, "в", c, "г"))) {
						return false
					}
				}
			}
		}
		return true
	}
}

func block(k int, x, y []string) []string {
	switch k {
	case 0:
		return cat(t("Пока", "а", "Цикл"), x, t("КонецЦикла", ";"), y)
	case 1:
		return cat(t("Для", "а", "=", "1", "По", "б", "Цикл"), x, t("КонецЦикла", ";"), y)
	case 2:
		return cat(t("Для", "Каждого", "а", "Из", "б", "Цикл"), x, t("КонецЦикла", ";"), y)
	case 3:
		return cat(t("Попытка"), x, t("Исключение"), y, t("КонецПопытки", ";"))
	case 4:
		return cat(t("Попытка"), x, t("Исключение", "КонецПопытки", ";"), y)
	case 5:
		return cat(t("Попытка", "Исключение"), x, t("КонецПопытки", ";"), y)
	case 6:
		return cat(t("Если", "а", "Тогда"), x, t("Иначе"), y, t("КонецЕсли", ";"))
	case 7:
		return cat(t("Если", "а", "Тогда"), x, t("ИначеЕсли", "б", "Тогда"), y, t("ИначеЕсли", "в", "Тогда"), x, t("КонецЕсли", ";"))
	}
	return cat(t("Если", "а", "Тогда"), x, t("КонецЕсли", ";"), y)
}

const nBlocks = 9

var ctxLeaves = [][]string{t("Прервать", ";"), t("Продолжить", ";"), t("ВызватьИсключение", ";"), t("Возврат", "1", ";"), t("Возврат", ";"), t("х", "=", "1", ";"), nil, t(";")}

func inMethod(k int, b []string) []string {
	switch k {
	case 0:
		return b
	case 1:
		return cat(t("Процедура", "п", "(", ")"), b, t("КонецПроцедуры"))
	case 2:
		return cat(t("Функция", "ф", "(", ")"), b, t("КонецФункции"))
	case 3:
		return cat(t("Функция", "ф", "(", ")", "КонецФункции"), b)
	}
	return cat(t("Функция", "ф", "(", ")", "Возврат", "1", ";", "КонецФункции", "Процедура", "п", "(", ")"), b, t("КонецПроцедуры"))
}

func sysCtx(y func(string) bool) bool {
	for m := 0; m < 5; m++ {
		for _, a := range ctxLeaves {
			if !y(plain(inMethod(m, a))) {
				return false
			}
		}
	}
	for m := 0; m < 5; m++ {
		for k := 0; k < nBlocks; k++ {
			for _, a := range ctxLeaves {
				for _, b := range ctxLeaves {
					if !y(plain(inMethod(m, block(k, a, b)))) {
						return false
					}
				}
			}
		}
	}
	for k := 0; k < nBlocks; k++ {
		for l := 0; l < nBlocks; l++ {
			for _, a := range ctxLeaves[:5] {
				for _, b := range ctxLeaves[:6] {
					for m := 0; m < 3; m += 2 {
						if !y(plain(inMethod(m, block(k, block(l, a, nil), b)))) || !y(plain(inMethod(m, cat(block(k, a, nil), block(l, b, nil))))) || !y(plain(inMethod(m, block(k, nil, cat(block(l, nil, a), b))))) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func sysStmts(y func(string) bool) bool {
	leaves := [][]string{t("х", "=", "1", ";"), t("ф", "(", "а", ",", "б", ")", ";"), t("а", ".", "ф", "(", ")", ";"), t("Новый", "А", ";"), t("~м", ":"), t("Перейти", "~м", ";"), t("Возврат", ";"),
		t("ВызватьИсключение", "\"e\"", ";"), t("а", "+", "б", ";"), t("-", "а", ";"), t("(", "а", "=", "б", ")", ";"), t("?", "(", "а", ",", "б", ",", "в", ")", ";"), t("а", "[", "1", "]", "=", "2", ";"),
		t("(", "а", ",", "б", ")", ";"), t("(", "а", ")", "=", "1", ";"), t("\"s\"", ";"), t("Выполнить", "(", "а", ")", ";"), t("ВызватьИсключение", "(", "а", ",", "б", ")", ";"), t("ВызватьИсключение", "-", "(", "а", ",", "б", ")"), nil, t(";")}
	for m := 0; m < 5; m++ {
		for _, a := range leaves {
			if !y(plain(inMethod(m, a))) {
				return false
			}
			for _, b := range leaves {
				if len(a) > 0 && a[len(a)-1] != ";" && a[len(a)-1] != ":" {
					continue
				}
				if m < 2 && !y(plain(inMethod(m, cat(a, b)))) {
					return false
				}
			}
		}
	}
	for k := 0; k < nBlocks; k++ {
		for i, a := range leaves {
			for j, b := range leaves {
				if !y(plain(inMethod((i+j)%3, block(k, a, b)))) {
					return false
				}
			}
		}
		for l := 0; l < nBlocks; l++ {
			for _, a := range leaves {
				if !y(plain(inMethod(k%3, block(k, block(l, a, t("у", "=", "2", ";")), t("з", "=", "3", ";"))))) || !y(plain(block(k, nil, block(l, t("у", "=", "2", ";"), a)))) {
					return false
				}
				if !y(plain(inMethod(2, cat(block(k, a, a), block(l, a, nil))))) {
					return false
				}
			}
			for n := 0; n < nBlocks; n++ {
				if !y(plain(block(k, block(l, block(n, t("а", "(", "1", ")", ";"), t("б", "(", "2", ")", ";")), t("в", "(", "3", ")", ";")), t("г", "(", "4", ")", ";")))) {
					return false
				}
			}
		}
	}
	return true
}

func sysDecl(y func(string) bool) bool {
	vs := [][]string{t("Перем", "а", ";"), t("Перем", "б", ";"), t("Перем", "а", ",", "б", "Экспорт", ";"), t("&НаКлиенте", "Перем", "а", ",", "в", ",", "г", ";"), t("Перем", "а", ",", "а", ";"),
		t("Процедура", "п", "(", ")", "КонецПроцедуры"), t("&НаСервере", "Функция", "ф", "(", "Знач", "а", ",", "б", "=", "1", ",", "Знач", "в", "=", "\"s\"", ")", "Экспорт", "Перем", "в", ",", "г", ";", "Перем", "д", ";", "х", "=", "1", ";", "КонецФункции"),
		t("Процедура", "п", "(", "а", ")", "Перем", "б", ",", "б", ";", "КонецПроцедуры"), t("Процедура", "п", "(", "а", ")", "Перем", "б", ";", "Перем", "б", ";", "х", "(", ")", "КонецПроцедуры"), t("х", "=", "1", ";"), t("~м", ":"), t(";")}
	for _, a := range vs {
		if !y(plain(a)) {
			return false
		}
		for _, b := range vs {
			if !y(plain(cat(a, b))) {
				return false
			}
			for _, c := range vs {
				if !y(plain(cat(a, b, c))) {
					return false
				}
			}
		}
	}
	defs := []string{"1", "-1", "2.5", "\"s\"", "Истина", "Неопределено", "'20200101'", "-а", "+а", "-(а+б)", "+(а+б)", "+(а,б)", "- -1", "-\"s\"", "+Не а", "-Не а", "-ф()", "~м", "1 = 2", "+(а=1)", "--а", "+5", "+\"s\"", "-Ложь", "а", "а+1", "-а.б[1]", "+а.б()"}
	for _, d := range defs {
		for _, dir := range []string{"", "&НаКлиенте ", "&НаСервере\n", "&НаСервереБезКонтекста "} {
			for _, e := range []string{"", " Экспорт"} {
				if !y(dir+"Процедура п(а = "+d+")"+e+" КонецПроцедуры") || !y(dir+"Функция п(Знач а = "+d+", б, Знач в)"+e+" Перем г; Возврат 1 КонецФункции") {
					return false
				}
			}
		}
	}
	for _, p := range []string{"", "а", "Знач а", "а,б", "а,Знач б,в", ",а", ",", "а,", "Знач", "Знач а,Знач б", "а б", "а=1,б=2", "а=1=2"} {
		if !y("Процедура п(" + p + ") КонецПроцедуры") {
			return false
		}
	}
	return true
}

func rep(s string, n int, sep string) string {
	xs := make([]string, n)
	for i := range xs {
		xs[i] = strings.ReplaceAll(s, "#", itoa(i))
	}
	return strings.Join(xs, sep)
}

func itoa(i int) string {
	if i >= 10 {
		return itoa(i/10) + string(rune('0'+i%10))
	}
	return string(rune('0' + i))
}

func sysLong(y func(string) bool) bool {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 40, 64, 65, 100, 130, 260} {
		for _, s := range []string{
			rep("а#=#", n, ";"), rep("ф#()", n, ";") + ";", "х=ф(" + rep("а#", n, ",") + ")", "х=(" + rep("#", n, ",") + ")", "х=Новый А(" + rep("а#", n, ",") + ")",
			"х=" + rep("а#", n, "."), "х=" + rep("а#", n, "+"), "х=" + rep("а#", n, " И "), "х=ф(" + strings.Repeat(",", n) + ")",
			"Перем " + rep("а#", n, ",") + ";", rep("Перем а#;", n, ""), "Процедура п(" + rep("а#", n, ",") + ") КонецПроцедуры", "Процедура п(" + rep("Знач а#=#", n, ",") + ") Перем " + rep("а#", n, ",") + "; " + rep("б#=1", n, ";") + " КонецПроцедуры",
			"Процедура п() " + rep("Перем а#;", n, " ") + " КонецПроцедуры", rep("Процедура п#() а=#; КонецПроцедуры", n, " "), rep("Функция п#(а#) Экспорт Возврат #; КонецФункции", n, "\n") + rep("в#(#)", n, ";"),
			"Если а Тогда " + rep("ИначеЕсли а# Тогда б#=#;", n, " ") + " Иначе в=1; КонецЕсли", "Если а Тогда " + rep("б#=#", n, ";") + " Иначе " + rep("в#=#", n, ";") + " КонецЕсли",
			"Пока а Цикл " + rep("б#=#", n, ";") + "; КонецЦикла; " + rep("в#=#", n, ";"), "Попытка " + rep("б#=#", n, ";") + " Исключение " + rep("в#=#", n, ";") + " КонецПопытки",
			strings.Repeat(";", n) + "а=1", "а=1" + strings.Repeat(";", n) + "б=2", "х=а" + rep("[#]", n, ""), "х=" + rep("ф#(#)", n, "."),
			rep("Пока а# Цикл б# = #; КонецЦикла", n, ";"), rep("~м#:", n, " "), "х=\"" + strings.Repeat("а\n|", n) + "\"", strings.Repeat("//к\n", n) + "а=1",
			"ф(" + rep("?(а#,#,б#)", n, ",") + ")", "х=?(" + rep("а#", n, "+") + "," + rep("б#", n, "*") + ",ф(" + rep("#", n, ",") + "))",
		} {
			if !y(s) {
				return false
			}
		}
	}
	return true
}

func sysDeep(y func(string) bool) bool {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 15, 16, 17, 20, 31, 32, 33, 50, 64, 65, 128, 200} {
		w := func(a, m, b string) string { return strings.Repeat(a, n) + m + strings.Repeat(b, n) }
		for _, s := range []string{
			"х=" + w("(", "а", ")"), "х=" + w("ф(", "а", ")"), "х=" + w("а[", "1", "]"), "х=" + w("-", "а", ""), "х=" + w("Не ", "а", ""), "х=" + w("- Не ", "а", ""), "х=" + w("а+(", "б", ")"), "х=" + w("?(а,б,", "в", ")"), "х=" + w("Новый А(", "1", ")"),
			w("Если а Тогда ", "б=1;", "КонецЕсли;"), w("Пока а Цикл ", "Прервать;", "КонецЦикла;"), w("Для Каждого а Из б Цикл ", "Продолжить;", "КонецЦикла;"), w("Попытка Исключение ", "ВызватьИсключение;", "КонецПопытки;"), w("Попытка ", "а();", "Исключение КонецПопытки;"), w("Если а Тогда Иначе ", "б=1;", "КонецЕсли;"),
			"х=" + w("(", "а", ""), w("Если а Тогда ", "", ""), w("Пока а Цикл ", "", "КонецЦикла;") + "Прервать;", "х=" + w("(", "", ")"), "х=" + w("+", "1", ""), "х=" + w("-", "1", ""), w("а.б(", "1", ").в") + "=1",
		} {
			if !y(s) {
				return false
			}
		}
	}
	return true
}

// sysBad: every short sequence of token texts, and valid programs cut or with one token changed
func sysBad(y func(string) bool) bool {
	toks := append([]string{"а", "1", `"s"`, "'20200101'", "~м", "&НаКлиенте", "+", "-", "*", "=", "<>", "<", "(", ")", "[", "]", ",", ";", ":", ".", "?", "!", "1а", "\"", "'x'", "&z"}, kwForms...)
	for _, a := range toks {
		if !y(a) {
			return false
		}
		for _, b := range toks {
			if !y(a + " " + b) {
				return false
			}
		}
	}
	progs := [][]string{
		t("&НаКлиенте", "Перем", "а", ",", "б", "Экспорт", ";", "Функция", "ф", "(", "Знач", "а", "=", "1", ",", "б", ")", "Экспорт", "Перем", "в", ";", "Возврат", "-", "а", ";", "КонецФункции", "х", "=", "ф", "(", ",", "1", ")", ";"),
		t("Если", "а", "Тогда", "б", "=", "1", ";", "ИначеЕсли", "в", "Тогда", "г", "(", ")", ";", "Иначе", "Попытка", "а", ".", "б", "(", "1", ")", ";", "Исключение", "ВызватьИсключение", ";", "КонецПопытки", ";", "КонецЕсли", ";"),
		t("Для", "Каждого", "а", "Из", "б", "Цикл", "Прервать", ";", "КонецЦикла", ";", "Для", "а", "=", "1", "По", "2", "Цикл", "Продолжить", ";", "КонецЦикла", ";", "Пока", "Не", "а", "Цикл", "х", "[", "1", "]", "=", "Новый", "А", "(", ")", ";", "КонецЦикла"),
		t("~м", ":", "х", "=", "?", "(", "а", ">", "1", ",", "\"s\"", ",", "'20200101'", ")", "+", "(", "1", "*", "2", ")", ";", "Выполнить", "(", "\"x\"", ")", ";", "Перейти", "~м", ";"),
		t("Процедура", "п", "(", "Знач", "а", ")", "Перем", "б", ";", "а", ".", "б", "(", ")", ".", "в", "=", "1", ";", "Возврат", ";", "КонецПроцедуры", "Перем", "в", ";"),
	}
	for _, p := range progs {
		for i := 0; i <= len(p); i++ {
			if !y(plain(p[:i])) || !y(plain(p[i:])) {
				return false
			}
			if i == len(p) {
				break
			}
			if !y(plain(cat(p[:i], p[i+1:]))) || !y(plain(cat(p[:i+1], p[i:]))) {
				return false
			}
			for _, a := range toks {
				if !y(plain(cat(p[:i], t(a), p[i:]))) || !y(plain(cat(p[:i], t(a), p[i+1:]))) {
					return false
				}
			}
		}
	}
	return true
}

// sysMany: many declarations, one name repeated at every pair of places
func sysMany(y func(string) bool) bool {
	for _, n := range []int{2, 3, 4, 5, 6, 8, 9, 12, 17} {
		names := make([]string, n)
		for i := range names {
			names[i] = "а" + itoa(i)
		}
		forms := func() []string {
			return []string{
				"Перем " + strings.Join(names, ",") + ";", "Перем " + strings.Join(names, ";Перем ") + ";", "Перем " + strings.Join(names[:n/2], ",") + strings.Repeat(";Перем ", min(1, n/2)) + strings.Join(names[n/2:], ",") + " Экспорт;",
			}
		}
		try := func() bool {
			for _, f := range forms() {
				for _, s := range []string{
					f, f + "Процедура п() КонецПроцедуры х=1;", "&НаКлиенте " + f + "х=1;", f + "Функция ф(а) Экспорт Перем а1; Возврат 1; КонецФункции", "Процедура п() " + strings.ReplaceAll(f, "Экспорт", "") + " КонецПроцедуры",
					"Функция ф(а1, а2) " + strings.ReplaceAll(f, "Экспорт", "") + " Возврат а1; КонецФункции " + "х=1;",
				} {
					if !y(s) {
						return false
					}
				}
			}
			return true
		}
		if !try() {
			return false
		}
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if i > 6 && i < n-1 && j > 0 {
					continue
				}
				old := names[i]
				names[i] = names[j]
				ok := try()
				names[i] = old
				if !ok {
					return false
				}
			}
		}
	}
	return true
}

// sysNest: every kind of block inside up to eight blocks of every kind
func sysNest(y func(string) bool) bool {
	leaves := [][]string{t("Возврат", "Неопределено", ";"), t("Прервать", ";"), t("ВызватьИсключение", ";"), t("а", "(", "1", ")", ";"), nil}
	for d := 1; d <= 8; d++ {
		for k := 0; k < nBlocks; k++ {
			for l := 0; l < nBlocks; l++ {
				for i, a := range leaves {
					s := block(l, a, leaves[(i+d)%len(leaves)])
					for e := 0; e < d; e++ {
						var after []string
						if e == d/2 {
							after = t("у", "=", "2", ";")
						}
						if k == 7 && e > 2 {
							s = block(8, s, after)
						} else {
							s = block(k, s, after)
						}
					}
					if !y(plain(inMethod([]int{2, 0, 1}[(d+l+i)%3], s))) {
						return false
					}
				}
			}
		}
	}
	return true
}

// sysNestExpr: every operand inside up to seven wrappings of every kind, two kinds alternating
func sysNestExpr(y func(string) bool) bool {
	wraps := [][2][]string{{t("1", "+", "("), t(")")}, {t("("), t(")", "*", "2")}, {t("ф", "("), t(")")}, {t("а", "["), t("]")}, {t("Не", "("), t(")")}, {t("-", "("), t(")")}, {t("?", "(", "а", ",", "б", ","), t(")")}, {t("а", ".", "ф", "(", "1", ","), t(")", ".", "в")}, {t("("), t(")")}, {t("(", "Не"), t("=", "б", ")")}, {t("Новый", "А", "("), t(")")}}
	for d := 2; d <= 7; d++ {
		for k := range wraps {
			for l := range wraps {
				for _, o := range operands {
					if d > 3 && (k+l)%3 != d%3 && len(o) > 3 {
						continue
					}
					e := o
					for i := 0; i < d; i++ {
						w := wraps[k]
						if i%2 == 1 {
							w = wraps[l]
						}
						e = cat(w[0], e, w[1])
					}
					if !y(plain(cat(t("х", "="), e))) {
						return false
					}
				}
			}
		}
	}
	return true
}
