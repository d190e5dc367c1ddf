package main

// Input generators: systematic families first, then random programs, token soups, mutations and byte strings.

import (
	"math/rand"
	"strings"
)

type G struct {
	*rand.Rand
	bad    int // one in bad statements breaks a context rule (0: never)
	inLoop int
	inTry  int
	inFn   bool
	labels bool // labels and jumps inside expressions
}

func (g *G) one(n int) bool { return n > 0 && g.Intn(n) == 0 }

func pick[T any](g *G, xs []T) T { return xs[g.Intn(len(xs))] }

var names = []string{"а", "б", "Ёж", "x1", "_п", "Стр", "истинаа", "неистина", "или1", "Имя_2", "ab", "Д", "изба", "по_", "Переменная", "й"}

var kwForms = []string{
	"процедура", "перем", "перейти", "конецпроцедуры", "знач", "если", "тогда", "иначеесли", "иначе", "конецесли", "для",
	"каждого", "из", "по", "цикл", "конеццикла", "прервать", "продолжить", "попытка", "новый", "исключение", "пока",
	"конецпопытки", "функция", "конецфункции", "возврат", "вызватьисключение", "и", "или", "истина", "ложь", "неопределено",
	"не", "экспорт", "выполнить",
}

func upper(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z', r >= 'а' && r <= 'я':
			return r - 32
		case r == 'ё':
			return 'Ё'
		}
		return r
	}, s)
}

func (g *G) caseOf(s string) string {
	switch g.Intn(4) {
	case 0:
		return s
	case 1:
		return upper(s)
	case 2:
		rs := []rune(s)
		return upper(string(rs[:1])) + string(rs[1:])
	}
	var b strings.Builder
	for _, r := range s {
		if g.Intn(2) == 0 {
			b.WriteString(upper(string(r)))
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *G) kw(s string) string { return g.caseOf(s) }

func (g *G) name() string { return pick(g, names) }

func (g *G) numLit() string {
	return pick(g, []string{"0", "1", "42", "007", "1.5", "0.25", "3.", "123456789012345678901234567890", "0.1", "2147483648", "10.000", "9007199254740993"})
}

func (g *G) strLit() string {
	s := pick(g, []string{`""`, `"а"`, `"a""b"`, `""""`, "\"a\n|b\"", "\"a\n\t |b\n|c\"", `"Не "`, `"; // x"`, "\"a\n// c\n|b\"", "\"ё\n |\"", `"'"`, `" #x"`, "\"x\r\n|y\""})
	if g.one(8) {
		s += pick(g, []string{" ", "\n", "", " \t\n "}) + pick(g, []string{`"б"`, `""`})
	}
	return s
}

func (g *G) dateLit() string {
	return pick(g, []string{"'20200229'", "'00010101'", "'00000000'", "'202002291230'", "'20201231235959'", "'2020-01-02'", "'0'", "'19991231 23:59:59'", "'00000000000000'"})
}

func (g *G) literal() []string {
	switch g.Intn(8) {
	case 0, 1, 2:
		return []string{g.numLit()}
	case 3, 4:
		return []string{g.strLit()}
	case 5:
		return []string{g.dateLit()}
	case 6:
		return []string{g.kw(pick(g, []string{"истина", "ложь"}))}
	}
	return []string{g.kw("неопределено")}
}

func cat(xs ...[]string) (out []string) {
	for _, x := range xs {
		out = append(out, x...)
	}
	return
}

func t(s ...string) []string { return s }

func (g *G) exprList(d int) []string {
	n := pick(g, []int{1, 1, 1, 2, 2, 3, 0, 5})
	if g.one(60) {
		n = 20 + g.Intn(30)
		d = 0
	}
	var out []string
	for i := 0; i < n || i == 0; i++ {
		if i > 0 {
			out = append(out, ",")
		}
		if n > 0 && !g.one(7) {
			out = append(out, g.expr(d-1)...)
		}
	}
	return out
}

func (g *G) ident(d int) []string {
	var out []string
	switch {
	case d > 0 && g.one(3):
		out = cat(t(g.name(), "("), g.exprList(d), t(")"))
	case d > 0 && g.one(15):
		switch g.Intn(3) {
		case 0:
			out = t(g.kw("выполнить"), g.strLit())
		case 1:
			out = t(g.kw("выполнить"), g.name())
		default:
			out = cat(t(g.kw("выполнить"), "("), g.expr(d-1), t(")"))
		}
	default:
		out = t(g.name())
	}
	for d > 0 && g.one(5) {
		out = cat(out, t("["), g.expr(d-1), t("]"))
	}
	return out
}

func (g *G) chain(d int) []string {
	out := g.ident(d)
	for g.one(3) {
		out = append(out, ".")
		if g.one(4) {
			out = append(out, g.kw(pick(g, kwForms)))
		} else {
			out = append(out, g.ident(d)...)
		}
	}
	return out
}

func (g *G) newObj(d int) []string {
	switch g.Intn(3) {
	case 0:
		return t(g.kw("новый"), g.name())
	case 1:
		return cat(t(g.kw("новый"), g.name(), "("), g.exprList(d), t(")"))
	}
	return cat(t(g.kw("новый"), "("), g.exprList(d), t(")"))
}

func (g *G) ternary(d int) []string {
	return cat(t("?", "("), g.expr(d-1), t(","), g.expr(d-1), t(","), g.expr(d-1), t(")"))
}

var binOps = []string{"+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "и", "или"}

func (g *G) expr(d int) []string {
	if d <= 0 {
		if g.one(3) {
			return g.literal()
		}
		return t(g.name())
	}
	switch g.Intn(16) {
	case 0, 1, 2, 3, 4, 5:
		op := pick(g, binOps)
		if len(op) > 2 || op == "и" {
			op = g.kw(op)
		}
		return cat(g.expr(d-1), t(op), g.expr(d-1))
	case 6:
		return cat(t("-"), g.expr(d-1))
	case 7:
		return cat(t(g.kw("не")), g.expr(d-1))
	case 8:
		if g.one(2) {
			return cat(t("+"), g.expr(d-1))
		}
		return cat(t("-"), g.expr(d-1))
	case 9, 10:
		if g.one(3) {
			return cat(t("("), g.exprList(d), t(")"))
		}
		return cat(t("("), g.expr(d-1), t(")"))
	case 11:
		return g.newObj(d)
	case 12:
		return g.ternary(d)
	case 13:
		if g.labels && g.one(4) {
			if g.one(2) {
				return t("~" + g.name())
			}
			return t(g.kw("перейти"), "~"+g.name())
		}
		return g.literal()
	}
	return g.chain(d)
}

func (g *G) body(d, n int) []string {
	var out []string
	if n < 0 {
		n = pick(g, []int{0, 1, 1, 2, 2, 3, 4})
	}
	for i := 0; i < n; i++ {
		if g.one(12) {
			out = append(out, ";")
		}
		if g.one(15) {
			out = append(out, "~"+g.name(), pick(g, []string{":", ";"}))
			continue
		}
		out = append(out, g.stmt(d)...)
		if i < n-1 || !g.one(3) {
			out = append(out, ";")
		}
	}
	return out
}

func (g *G) stmt(d int) []string {
	k := g.Intn(18)
	if d <= 0 && k < 6 {
		k += 6
	}
	bad := g.one(g.bad)
	switch k {
	case 0, 1:
		out := cat(t(g.kw("если")), g.expr(2), t(g.kw("тогда")), g.body(d-1, -1))
		for g.one(2) {
			out = cat(out, t(g.kw("иначеесли")), g.expr(2), t(g.kw("тогда")), g.body(d-1, -1))
		}
		if g.one(2) {
			out = cat(out, t(g.kw("иначе")), g.body(d-1, -1))
		}
		return append(out, g.kw("конецесли"))
	case 2, 3:
		var head []string
		switch g.Intn(3) {
		case 0:
			head = cat(t(g.kw("пока")), g.expr(2))
		case 1:
			head = cat(t(g.kw("для")), g.expr(1), t(g.kw("по")), g.expr(2))
		default:
			head = t(g.kw("для"), g.kw("каждого"), g.name(), g.kw("из"))
			switch g.Intn(5) {
			case 0:
				head = append(head, g.newObj(1)...)
			case 1:
				head = cat(head, t("("), g.newObj(1), t(")"))
			case 2:
				head = append(head, g.ternary(1)...)
			default:
				head = append(head, g.chain(2)...)
			}
		}
		g.inLoop++
		out := cat(head, t(g.kw("цикл")), g.body(d-1, -1), t(g.kw("конеццикла")))
		g.inLoop--
		return out
	case 4, 5:
		out := cat(t(g.kw("попытка")), g.body(d-1, -1), t(g.kw("исключение")))
		g.inTry++
		out = cat(out, g.body(d-1, -1), t(g.kw("конецпопытки")))
		g.inTry--
		return out
	case 6, 7, 8, 9:
		return cat(g.chain(2), t("="), g.expr(3))
	case 10:
		return g.chain(3)
	case 11:
		return g.expr(3)
	case 12:
		if g.inLoop > 0 != bad {
			return t(g.kw(pick(g, []string{"прервать", "продолжить"})))
		}
		return g.chain(2)
	case 13:
		if g.inTry > 0 != bad && g.one(2) {
			return t(g.kw("вызватьисключение"))
		}
		return cat(t(g.kw("вызватьисключение")), g.expr(2))
	case 14, 15:
		if g.inFn != bad && !g.one(4) {
			return cat(t(g.kw("возврат")), g.expr(2))
		}
		return t(g.kw("возврат"))
	case 16:
		return t(g.kw("перейти"), "~"+g.name())
	}
	return g.chain(3)
}

func (g *G) idents() []string {
	n := pick(g, []int{1, 1, 2, 3})
	if g.one(30) {
		n = 12
	}
	ns := g.Perm(len(names))
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 {
			out = append(out, ",")
		}
		out = append(out, names[ns[i]])
	}
	if g.bad > 0 && g.one(20) {
		out = append(out, ",", names[ns[0]])
	}
	return out
}

func (g *G) directive() []string {
	if g.one(3) {
		return t("&" + g.caseOf(pick(g, directives)[1:]))
	}
	return nil
}

func (g *G) opt(s string) []string {
	if g.one(2) {
		return t(g.kw(s))
	}
	return nil
}

func (g *G) method(d, n int) []string {
	fn := g.one(2)
	k, e := "процедура", "конецпроцедуры"
	if fn {
		k, e = "функция", "конецфункции"
	}
	var ps []string
	np := pick(g, []int{0, 1, 2, 3, 4})
	for i := 0; i < np; i++ {
		if i > 0 {
			ps = append(ps, ",")
		}
		if g.one(3) {
			ps = append(ps, g.kw("знач"))
		}
		ps = append(ps, g.name())
		if g.one(3) {
			ps = append(ps, "=")
			switch g.Intn(6) {
			case 0:
				ps = append(ps, "-")
				ps = append(ps, g.numLit())
			case 1:
				ps = append(ps, pick(g, []string{"-", "+"}))
				ps = append(ps, pick(g, [][]string{t(g.name()), g.literal(), t("(", g.name(), "+", "1", ")"), t(g.name(), "(", ")"), t(g.kw("не"), g.name())})...)
			default:
				ps = append(ps, g.literal()...)
			}
		}
	}
	var vs []string
	for g.one(3) {
		vs = cat(vs, t(g.kw("перем")), g.idents(), t(";"))
		if g.bad == 0 {
			break
		}
	}
	g.inFn = fn
	out := cat(g.directive(), t(g.kw(k), g.name(), "("), ps, t(")"), g.opt("экспорт"), vs, g.body(d, n), t(g.kw(e)))
	g.inFn = false
	return out
}

func (g *G) vars() []string {
	return cat(g.directive(), t(g.kw("перем")), g.idents(), g.opt("экспорт"), t(";"))
}

// module makes a whole program as token texts
func (g *G) module(d int) []string {
	var out []string
	if g.one(3) {
		out = append(out, g.vars()...)
		if g.bad > 0 && g.one(4) {
			out = append(out, g.vars()...)
		}
	}
	nm := pick(g, []int{0, 0, 1, 1, 2, 3})
	for i := 0; i < nm; i++ {
		out = append(out, g.method(d, -1)...)
		if g.bad > 0 && g.one(15) {
			out = append(out, g.vars()...)
		}
	}
	if nm == 0 || g.one(2) {
		out = append(out, g.body(d, -1)...)
	}
	if g.bad > 0 && g.one(25) {
		out = append(out, g.method(0, 1)...)
	}
	return out
}

// ---------------------------------------------------------------- rendering

var seps = []string{" ", " ", " ", "\n", "  ", "\t", "\r\n", "\n\n", " // к\n", "//\n", "\n#Если x\n", "\n#Область\n// y\n#КонецОбласти\n", " // a\n // b\n", "\n\t// \"x\n \t"}

func wordish(s string) bool {
	for _, r := range s {
		return rletter(r) || rdigit(r) || r == '&' || r == '~'
	}
	return false
}

func endsWord(s string) bool {
	rs := []rune(s)
	return len(rs) > 0 && (rletter(rs[len(rs)-1]) || rdigit(rs[len(rs)-1]) || rs[len(rs)-1] == '~' || rs[len(rs)-1] == '&')
}

// needSep: the two token texts would merge or change when written without a blank between them
func needSep(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	la, fb := a[len(a)-1], b[0]
	if endsWord(a) && wordish(b) && fb != '&' && fb != '~' {
		return true
	}
	if rdigit(rune(a[0])) && fb == '.' {
		return true
	}
	if (la == '"' || la == '\'') && fb == '"' {
		return true
	}
	if la == '<' && (fb == '>' || fb == '=') || la == '>' && fb == '=' || la == '/' && fb == '/' {
		return true
	}
	return false
}

func plain(toks []string) string { return strings.Join(toks, " ") }

func (g *G) render(toks []string) string {
	var b strings.Builder
	mode := g.Intn(4)
	for i, s := range toks {
		if i > 0 {
			switch {
			case !needSep(toks[i-1], s) && (mode == 0 || mode == 3 && g.one(2)):
			case mode == 1:
				b.WriteString(" ")
			default:
				b.WriteString(pick(g, seps))
			}
		} else if mode == 2 && g.one(2) {
			b.WriteString(pick(g, seps))
		}
		b.WriteString(s)
	}
	if g.one(4) {
		b.WriteString(pick(g, seps))
	}
	return b.String()
}

var soup = append([]string{"а", "б", "1", "2.5", `"s"`, "'20200101'", "~м", "&НаКлиенте", "+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "(", ")",
	"[", "]", ",", ";", ":", ".", "?", "а", "(", ")", ";", ";", "а", "="}, kwForms...)

func (g *G) tokenSoup() []string {
	n := 1 + g.Intn(12)
	out := make([]string, n)
	for i := range out {
		out[i] = pick(g, soup)
	}
	return out
}

func (g *G) mutate(toks []string) []string {
	out := append([]string{}, toks...)
	for n := 1 + g.Intn(2); n > 0 && len(out) > 0; n-- {
		i := g.Intn(len(out))
		switch g.Intn(5) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out = append(out[:i], append([]string{pick(g, soup)}, out[i:]...)...)
		case 2:
			out[i] = pick(g, soup)
		case 3:
			j := g.Intn(len(out))
			out[i], out[j] = out[j], out[i]
		default:
			out = out[:i]
		}
	}
	return out
}

var chunks = []string{"а", "Я", "Ё", "ё", "Z", "a", "_", "0", "9", "1.", ".", "..", " ", "\n", "\t", "\r", "\r\n", "\v", "\f", "\u00a0", "\u0085", "\u2028", "\ufeff",
	"//", "/", "#", "//x\n", "#y\n", "\"", "\"\"", "'", "''", "|", "\n|", "\n |", "~", "&", "&НаСервере", "&наклиенте", "<", ">", "=", "<>", "<=", ">=", "+", "-", "*", "%",
	"(", ")", "[", "]", ",", ";", ":", "?", "!", "@", "$", "^", "{", "}", "\\", "`", "\x00", "\x7f", "\x80", "\xd0", "\xd1\x91", "\xd0\x81", "\xd1", "\xff", "\xed\xa0\x80", "\xc0\x80",
	"\ufffd", "\ue002", "\ue010", "\ue02d", "İ", "ı", "K", "ǅ", "ß", "ª", "²", "٣", "中", "日本", "😀", "𝒳", "́", "Ѐ", "ѐ", "Џ", "џ", "Р", "П", "п", "р", "ж", "Ж",
	"если", "ЕСЛИ", "НЕ", "И", "Истина", "ЛОЖЬ", "Неопределено", "20200101", "0", "99999999", "1a", "1_", "5Если", "\xe2\x80", "‮", "х", "Ѓ", "ѓ", "\u0400", "\u0450", "\u042f", "\u0430", "\u0410", "\u044f", "\u0420", "\u041f"}

func (g *G) bytes() string {
	var b strings.Builder
	for n := g.Intn(9); n >= 0; n-- {
		switch g.Intn(8) {
		case 0:
			b.WriteByte(byte(g.Intn(256)))
		case 1:
			b.WriteRune(rune(0x380 + g.Intn(0x180)))
		case 2:
			b.WriteString(g.caseOf(pick(g, kwForms)))
		default:
			b.WriteString(pick(g, chunks))
		}
	}
	return b.String()
}
