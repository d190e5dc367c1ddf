package main

// Reference lexer: written from the properties, not from the code.

import (
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

type rtok struct {
	kind       int
	lit        string
	val        interface{}
	start, end int // start: first byte of the token after trivia; end: reader position after the token
	err        bool
	class      string // word, directive, number, string, date, label, op, bad
}

const kEOF = -1

var kIdent = ast.Directive + 1 // calibrated in init

var keywords = map[string]int{
	"процедура": ast.Procedure, "перем": ast.Var, "перейти": ast.GoTo, "конецпроцедуры": ast.EndProcedure,
	"знач": ast.ValueParam, "если": ast.If, "тогда": ast.Then, "иначеесли": ast.ElseIf, "иначе": ast.Else,
	"конецесли": ast.EndIf, "для": ast.For, "каждого": ast.Each, "из": ast.In, "по": ast.To, "цикл": ast.Loop,
	"конеццикла": ast.EndLoop, "прервать": ast.Break, "продолжить": ast.Continue, "попытка": ast.Try,
	"новый": ast.New, "исключение": ast.Catch, "пока": ast.While, "конецпопытки": ast.EndTry,
	"функция": ast.Function, "конецфункции": ast.EndFunction, "возврат": ast.Return,
	"вызватьисключение": ast.Throw, "и": ast.And, "или": ast.OR, "истина": ast.True, "ложь": ast.False,
	"неопределено": ast.Undefind, "не": ast.Not, "экспорт": ast.Export, "выполнить": ast.Execute,
}

var directives = []string{"&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере"}

func lower(s string) string {
	return strings.Map(lowerRune, s)
}

func lowerRune(r rune) rune {
	switch {
	case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
		return r + 32
	case r == 'Ё':
		return 'ё'
	}
	return r
}

// lowerBytes lowers a byte string, leaving invalid bytes alone
func lowerBytes(s string) string {
	b := []byte(s)
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r != utf8.RuneError {
			copy(b[i:i+n], string(lowerRune(r)))
		}
		i += n
	}
	return string(b)
}

func rdigit(r rune) bool  { return '0' <= r && r <= '9' }
func rletter(r rune) bool { return r == '_' || unicode.IsLetter(r) }
func rspace(r rune) bool  { return r == ' ' || r == '\t' || r == '\r' || r == '\n' }

type rlex struct {
	s       string
	o       int
	prevDot bool
}

func (l *rlex) at(o int) (rune, int) {
	if o >= len(l.s) {
		return kEOF, 0
	}
	return utf8.DecodeRuneInString(l.s[o:])
}

func (l *rlex) spaces() {
	for l.o < len(l.s) && rspace(rune(l.s[l.o])) {
		l.o++
	}
}

func (l *rlex) toEOL() {
	n := strings.IndexByte(l.s[l.o:], '\n')
	if n < 0 {
		l.o = len(l.s)
	} else {
		l.o += n
	}
}

func (l *rlex) trivia(regionsFirst bool) {
	for {
		l.spaces()
		if strings.HasPrefix(l.s[l.o:], "//") || (regionsFirst && strings.HasPrefix(l.s[l.o:], "#")) {
			l.toEOL()
			regionsFirst = true
			continue
		}
		return
	}
}

func (l *rlex) word() string {
	b := l.o
	for {
		r, n := l.at(l.o)
		if !(rletter(r) || rdigit(r)) {
			return l.s[b:l.o]
		}
		l.o += n
	}
}

// quoted scans a literal that starts at the quote
func (l *rlex) quoted(end rune) (string, bool) {
	var out strings.Builder
	l.o++
	for {
		r, n := l.at(l.o)
		switch {
		case r == kEOF:
			return "", false
		case r == '\n':
			l.o++
			l.spaces()
			if strings.HasPrefix(l.s[l.o:], "//") {
				l.trivia(false)
			}
			if r, _ := l.at(l.o); r != '|' {
				return "", false
			}
			l.o++
			out.WriteString("\n|")
		case r == end:
			l.o++
			if l.o < len(l.s) && l.s[l.o] == '"' {
				l.o++
				out.WriteString(`""`)
				continue
			}
			l.spaces()
			if l.o < len(l.s) && l.s[l.o] == '"' {
				l.o++
				continue
			}
			return out.String(), true
		default:
			out.WriteRune(r)
			l.o += n
		}
	}
}

func (l *rlex) next() (t rtok) {
	l.trivia(true)
	dot := l.prevDot
	l.prevDot = false
	t.start = l.o
	defer func() { t.end = l.o }()
	bad := func(class string) rtok { t.err = true; t.kind = kEOF; t.class = class; return t }

	r, n := l.at(l.o)
	one := func(k int) rtok {
		l.o += n
		t.kind, t.lit, t.class = k, string(r), "op"
		return t
	}
	two := func(k int, s string) rtok {
		l.o += 2
		t.kind, t.lit, t.class = k, s, "op"
		return t
	}
	rest := ""
	if l.o < len(l.s) {
		rest = l.s[l.o:]
	}

	switch {
	case r == kEOF:
		t.kind, t.class = kEOF, "eof"
		return t
	case rletter(r):
		t.lit = l.word()
		t.class = "word"
		t.kind = kIdent
		if k, ok := keywords[lower(t.lit)]; ok && !dot {
			t.kind = k
		}
		if t.kind == ast.True {
			t.val = true
		} else if t.kind == ast.False {
			t.val = false
		}
		return t
	case rdigit(r):
		b := l.o
		for {
			c, n := l.at(l.o)
			if !rdigit(c) && c != '.' {
				break
			}
			l.o += n
		}
		if c, _ := l.at(l.o); rletter(c) {
			return bad("number")
		}
		t.kind, t.lit, t.class = ast.Number, l.s[b:l.o], "number"
		f, err := strconv.ParseFloat(t.lit, 64)
		if err != nil {
			t.err = true
		}
		t.val = f
		return t
	case r == '"':
		s, ok := l.quoted('"')
		if !ok {
			return bad("string")
		}
		t.kind, t.lit, t.val, t.class = ast.String, s, s, "string"
		return t
	case r == '\'':
		s, ok := l.quoted('\'')
		if !ok {
			return bad("date")
		}
		ds := strings.Map(func(r rune) rune {
			if rdigit(r) {
				return r
			}
			return -1
		}, s)
		if ds == "" {
			return bad("date")
		}
		t.kind, t.lit, t.class = ast.Date, ds, "date"
		if strings.Trim(ds, "0") == "" {
			t.val = time.Time{}
			return t
		}
		v, ok := dateOf(ds)
		t.val = v
		t.err = !ok
		return t
	case r == '~':
		l.o++
		t.kind, t.lit, t.class = ast.GoToLabel, l.word(), "label"
		return t
	case r == '&':
		l.o++
		w := l.word()
		for _, d := range directives {
			if lower("&"+w) == d {
				t.kind, t.lit, t.class = ast.Directive, "&"+w, "directive"
				return t
			}
		}
		return bad("directive")
	case strings.HasPrefix(rest, "<>"):
		return two(ast.NeEQ, "<>")
	case strings.HasPrefix(rest, "<="):
		return two(ast.LE, "<=")
	case strings.HasPrefix(rest, ">="):
		return two(ast.GE, ">=")
	case r == '=':
		return one(ast.EQUAL)
	case r == '.':
		t = one('.')
		l.prevDot = true
		return t
	case strings.ContainsRune("/;(),-+*?[]:%<>", r):
		return one(int(r))
	}
	l.o += n
	return bad("bad")
}

func dateOf(d string) (time.Time, bool) {
	num := func(a, b int) int { n, _ := strconv.Atoi(d[a:b]); return n }
	switch len(d) {
	case 8, 12, 14:
	default:
		return time.Time{}, false
	}
	y, mo, da, h, mi, se := num(0, 4), num(4, 6), num(6, 8), 0, 0, 0
	if len(d) > 8 {
		h, mi = num(8, 10), num(10, 12)
	}
	if len(d) == 14 {
		se = num(12, 14)
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || da < 1 || da > days[mo-1] || h > 23 || mi > 59 || se > 59 {
		return time.Time{}, false
	}
	return time.Date(y, time.Month(mo), da, h, mi, se, 0, time.UTC), true
}

// refLex returns the tokens up to and including the end of text or the first error
func refLex(s string) []rtok {
	l := &rlex{s: s}
	var out []rtok
	for {
		t := l.next()
		out = append(out, t)
		if t.err || t.kind == kEOF {
			return out
		}
	}
}

func refPos(s string, o int) (int, int) {
	line := 1 + strings.Count(s[:o], "\n")
	b := strings.LastIndexByte(s[:o], '\n') + 1
	return line, utf8.RuneCountInString(s[b:o]) + 1
}
