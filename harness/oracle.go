package main

// One oracle per property: a function of the input text that returns what is wrong ("" if nothing is).

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"
)

type srcText string

func (s srcText) SrsCode() string { return string(s) }

type ltok struct {
	kind      int
	lit       string
	val       interface{}
	off       int
	err       error
	line, col int
}

var fLit, fVal, fOff int

func initReflect() {
	tt := reflect.TypeOf(ast.Token{})
	find := func(names ...string) int {
		for _, n := range names {
			for i := 0; i < tt.NumField(); i++ {
				if strings.EqualFold(tt.Field(i).Name, n) {
					return i
				}
			}
		}
		return -1
	}
	fLit, fVal, fOff = find("literal", "lit"), find("value", "val"), find("offset", "pos", "off")
	var t ast.Token
	if k, err := t.Next(srcText("щ")); err == nil && k > 0 {
		kIdent = k
	}
}

func field(t *ast.Token, i int) interface{} {
	if i < 0 {
		return nil
	}
	f := reflect.ValueOf(t).Elem().Field(i)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface()
}

func realNext(t *ast.Token, src srcText) (r ltok) {
	r.kind, r.err = t.Next(src)
	r.lit, _ = field(t, fLit).(string)
	r.val = field(t, fVal)
	r.off, _ = field(t, fOff).(int)
	return
}

func realLex(src string, pos bool) (out []ltok) {
	var t ast.Token
	for i := 0; i <= len(src)+2; i++ {
		r := realNext(&t, srcText(src))
		if pos {
			p := t.GetPosition()
			r.line, r.col = p.Line, p.Column
		}
		out = append(out, r)
		if r.err != nil || r.kind == kEOF {
			return
		}
	}
	return
}

func valEq(a, b interface{}) bool {
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y) && x.Format(time.RFC3339) == y.Format(time.RFC3339)
	}
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && x == y
	}
	return a == b
}

func (r ltok) String() string {
	e := ""
	if r.err != nil {
		e = " error " + r.err.Error()
	}
	return fmt.Sprintf("{kind %d, %q, value %v, reader at %d%s}", r.kind, r.lit, r.val, r.off, e)
}

func (r rtok) String() string {
	return fmt.Sprintf("{%s, kind %d, %q, value %v, bytes %d..%d, error %v}", r.class, r.kind, r.lit, r.val, r.start, r.end, r.err)
}

// lexDiff returns the first difference between the reader and the reference, with the class of the token concerned
func lexDiff(src string) (what, class, msg string) {
	ref, got := refLex(src), realLex(src, false)
	for i := range ref {
		if i >= len(got) {
			return "end", ref[i].class, fmt.Sprintf("token %d: nothing instead of %v", i, ref[i])
		}
		a, b := ref[i], got[i]
		say := func(what string) (string, string, string) {
			return what, a.class, fmt.Sprintf("token %d: %v instead of %v", i, b, a)
		}
		if a.err != (b.err != nil) {
			return say("error")
		}
		if a.err {
			return
		}
		if a.kind != b.kind {
			return say("kind")
		}
		if fLit >= 0 && a.lit != b.lit {
			return say("literal")
		}
		if fOff >= 0 && a.end != b.off && a.kind != kEOF {
			return say("extent")
		}
		switch a.class {
		case "number", "string", "date":
			if fVal >= 0 && !valEq(a.val, b.val) {
				return say("value")
			}
		case "word":
			if fVal >= 0 && (a.kind == ast.True || a.kind == ast.False) && a.val != b.val {
				return say("value")
			}
		}
	}
	return
}

func oC01(src string) string {
	what, class, msg := lexDiff(src)
	if (class == "word" || class == "directive") && (what == "kind" || what == "literal" || what == "error") {
		return msg
	}
	return ""
}

func oC02(src string) string {
	var t ast.Token
	prev := 0
	for i := 0; ; i++ {
		r := realNext(&t, srcText(src))
		if fOff < 0 {
			if r.kind == kEOF || i > len(src)+5 {
				return ""
			}
			continue
		}
		if r.off < prev {
			return fmt.Sprintf("the reader moved back from %d to %d", prev, r.off)
		}
		if r.off > len(src) {
			return fmt.Sprintf("the reader is at %d of %d bytes", r.off, len(src))
		}
		if r.err == nil && r.kind != kEOF && r.off == prev {
			return fmt.Sprintf("token %v consumed nothing at %d", r, prev)
		}
		if r.kind == kEOF && r.err == nil {
			return ""
		}
		if i > 3*len(src)+10 {
			return "the reader does not reach the end"
		}
		prev = r.off
		if r.err != nil && i > len(src)+5 {
			return ""
		}
	}
}

func oC03(src string) string {
	what, _, msg := lexDiff(src)
	if what == "kind" || what == "error" || what == "extent" || what == "end" || what == "literal" {
		return msg
	}
	return ""
}

func oC04(src string) string {
	what, class, msg := lexDiff(src)
	switch class {
	case "string", "date", "number":
		return msg
	}
	if what == "value" {
		return msg
	}
	return ""
}

// oC05: the text, and the text with every run of blanks and comments replaced by one blank, give the same tokens and tree
func oC05(src string) string {
	toks := refLex(src)
	if last := toks[len(toks)-1]; last.err {
		if a := realLex(src, false); last.class == "bad" && len(a) >= len(toks) && a[len(toks)-1].err == nil {
			return fmt.Sprintf("the character at %d is neither blank nor the start of a token, but %v is read past it", last.start, a[len(toks)-1])
		}
		toks = toks[:len(toks)-1]
		if len(toks) > 0 {
			src = src[:toks[len(toks)-1].end]
		} else {
			src = ""
		}
	} else {
		toks = toks[:len(toks)-1]
	}
	var raw []string
	for _, k := range toks {
		raw = append(raw, src[k.start:k.end])
	}
	flat := strings.Join(raw, " ")
	ft := refLex(flat)
	if len(ft) != len(toks)+1 || ft[len(ft)-1].err {
		return ""
	}
	a, b := realLex(src, false), realLex(flat, false)
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) {
			return fmt.Sprintf("%d tokens with blanks and comments, %d without", len(a), len(b))
		}
		if a[i].kind != b[i].kind || a[i].lit != b[i].lit || (a[i].err != nil) != (b[i].err != nil) {
			return fmt.Sprintf("token %d: %v with blanks and comments, %v without", i, a[i], b[i])
		}
	}
	x, y := ast.NewAST(src), ast.NewAST(flat)
	e1, e2 := x.Parse(), y.Parse()
	if (e1 != nil) != (e2 != nil) {
		return fmt.Sprintf("with blanks and comments: %v, without: %v", e1, e2)
	}
	if e1 == nil {
		if p, q := canonModule(&x.ModuleStatement).String(), canonModule(&y.ModuleStatement).String(); p != q {
			return diff("tree with blanks and comments", p, "without", q)
		}
	}
	return ""
}

func diff(an, a, bn, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return strings.ToValidUTF8(s[lo:hi], "")
	}
	return fmt.Sprintf("%s: …%s… / %s: …%s…", an, cut(a), bn, cut(b))
}

var errRe = regexp.MustCompile(`(?s)^(.*)\. line: (-?\d+), column: (-?\d+) \(unexpected literal: (".*")\)$`)

func oC06(src string) string {
	ref := refLex(src)
	got := realLex(src, true)
	for i := range got {
		if i >= len(ref) || ref[i].err || got[i].err != nil || ref[i].end != got[i].off {
			break
		}
		l, c := refPos(src, ref[i].end)
		if l != got[i].line || c != got[i].col {
			return fmt.Sprintf("position of offset %d: line %d, column %d instead of %d, %d", ref[i].end, got[i].line, got[i].col, l, c)
		}
	}
	if strings.TrimSpace(src) == "" {
		return ""
	}
	r := refParse(src)
	a := ast.NewAST(src)
	err := a.Parse()
	if err == nil || r.lexErr {
		return ""
	}
	m := errRe.FindStringSubmatch(err.Error())
	if m == nil {
		if r.syn >= 0 || len(r.sem) > 0 {
			return fmt.Sprintf("the diagnostic %q carries no position", err)
		}
		return ""
	}
	at := func(t rtok) string {
		l, c := refPos(src, t.end)
		return fmt.Sprintf("line %d, column %d, %q", l, c-(len([]rune(t.lit))+1), t.lit)
	}
	lit, e := strconv.Unquote(m[4])
	if e != nil {
		return "unreadable word in diagnostic " + err.Error()
	}
	have := fmt.Sprintf("line %s, column %s, %q", m[2], m[3], lit)
	if r.syn >= 0 {
		t := r.toks[r.syn]
		if t.kind == kEOF && r.syn > 0 {
			t = r.toks[r.syn-1]
		}
		if want := at(t); want != have {
			return fmt.Sprintf("diagnostic at %s instead of %s", have, want)
		}
		if !strings.HasPrefix(m[1], "syntax error") {
			return fmt.Sprintf("diagnostic %q for text the grammar rejects", m[1])
		}
		return ""
	}
	for _, t := range r.toks {
		if at(t) == have {
			return ""
		}
	}
	return fmt.Sprintf("diagnostic at %s, where no token is", have)
}

func accept(src string) string {
	if strings.TrimSpace(src) == "" {
		return ""
	}
	r := refParse(src)
	err := ast.NewAST(src).Parse()
	if (err == nil) != r.ok() {
		return fmt.Sprintf("parsing returned %v; the language: grammar rejects at token %d, reader error %v, rules broken %v", err, r.syn, r.lexErr, r.sem)
	}
	return ""
}

func acceptTree(src string) string {
	if strings.TrimSpace(src) == "" {
		return ""
	}
	r := refParse(src)
	a := ast.NewAST(src)
	err := a.Parse()
	if (err == nil) != r.ok() {
		return fmt.Sprintf("parsing returned %v; the language: grammar rejects at token %d, reader error %v, rules broken %v", err, r.syn, r.lexErr, r.sem)
	}
	if err == nil {
		if p, q := canonModule(&a.ModuleStatement).String(), r.tree.String(); p != q {
			return diff("tree", p, "source", q)
		}
	}
	return ""
}

var confs = []ast.PrintConf{{Margin: 4}, {Margin: 0}, {Margin: 1, OneLine: true}, {Margin: 0, OneLine: true}, {Margin: 2}}

func roundTrip(src string) string {
	a := ast.NewAST(src)
	if a.Parse() != nil {
		return ""
	}
	want := canonModule(&a.ModuleStatement).String()
	for _, c := range confs[:4] {
		text := a.Print(c)
		b := ast.NewAST(text)
		if err := b.Parse(); err != nil {
			return fmt.Sprintf("printed with %+v as %q, which does not parse: %v", c, text, err)
		}
		if got := canonModule(&b.ModuleStatement).String(); got != want {
			return fmt.Sprintf("printed with %+v as %q: %s", c, text, diff("reparsed", got, "printed", want))
		}
	}
	for _, s := range a.ModuleStatement.Body {
		if _, ok := s.(*ast.FunctionOrProcedure); ok {
			continue
		}
		text := a.PrintStatement(s)
		b := ast.NewAST(text)
		if err := b.Parse(); err != nil {
			if strings.Contains(err.Error(), "only be used") {
				continue
			}
			return fmt.Sprintf("statement printed as %q, which does not parse: %v", text, err)
		}
		if len(b.ModuleStatement.Body) != 1 || canon(b.ModuleStatement.Body[0]).String() != canon(s).String() {
			return fmt.Sprintf("statement printed as %q: %s", text, diff("reparsed", list(canonList(b.ModuleStatement.Body)).String(), "printed", canon(s).String()))
		}
	}
	return ""
}

// dump writes everything reachable, unexported fields included
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 400 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("*" + v.Elem().Type().String() + " ")
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth+1)
			b.WriteString(";")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []*N
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dump(&kb, k, depth+1)
			kb.WriteString("=>")
			dump(&kb, v.MapIndex(k), depth+1)
			es = append(es, leaf("", kb.String()))
		}
		sortN(es)
		b.WriteString(list(es).String())
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		b.WriteString(v.Type().String())
	}
}

func dumpModule(a *ast.AstNode) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(&a.ModuleStatement), 0)
	return b.String()
}

func kinds(text string) string {
	var b strings.Builder
	for _, t := range refLex(text) {
		fmt.Fprintf(&b, "%d %q %v\n", t.kind, t.lit, t.err)
	}
	return b.String()
}

func oC15(src string) string {
	a := ast.NewAST(src)
	if a.Parse() != nil {
		return ""
	}
	before := dumpModule(a)
	m1, m0, m4, m7 := a.Print(ast.PrintConf{Margin: 1}), a.Print(ast.PrintConf{}), a.Print(ast.PrintConf{Margin: 4}), a.Print(ast.PrintConf{Margin: 7})
	one := a.Print(ast.PrintConf{OneLine: true})
	one4 := a.Print(ast.PrintConf{OneLine: true, Margin: 4})
	if after := dumpModule(a); after != before {
		return diff("tree after printing", after, "before", before)
	}
	for i := 0; i < 3; i++ {
		if again := a.Print(ast.PrintConf{Margin: 4}); again != m4 {
			return diff("printed again", again, "first", m4)
		}
	}
	b := ast.NewAST(src)
	b.Parse()
	if again := b.Print(ast.PrintConf{Margin: 4}); again != m4 {
		return diff("printed from a second parse", again, "first", m4)
	}
	l0, l1, l4, l7 := strings.Split(m0, "\n"), strings.Split(m1, "\n"), strings.Split(m4, "\n"), strings.Split(m7, "\n")
	if len(l0) != len(l1) || len(l1) != len(l4) || len(l1) != len(l7) {
		return fmt.Sprintf("%d, %d, %d, %d lines for margins 0, 1, 4, 7", len(l0), len(l1), len(l4), len(l7))
	}
	for i := range l1 {
		s0, s1, s4, s7 := strings.TrimLeft(l0[i], " "), strings.TrimLeft(l1[i], " "), strings.TrimLeft(l4[i], " "), strings.TrimLeft(l7[i], " ")
		if s0 != s1 || s1 != s4 || s1 != s7 {
			return fmt.Sprintf("line %d differs with the margin: %q, %q, %q, %q", i+1, l0[i], l1[i], l4[i], l7[i])
		}
		base := len(l0[i]) - len(s0)
		n := len(l1[i]) - len(s1) - base
		if len(l4[i])-len(s4)-base != 4*n || len(l7[i])-len(s7)-base != 7*n {
			return fmt.Sprintf("line %d: blanks not proportional to the margin: %q, %q, %q", i+1, l1[i], l4[i], l7[i])
		}
	}
	if p, q := strings.ReplaceAll(one, "\n", ""), strings.ReplaceAll(m0, "\n", ""); p != q {
		return diff("on one line", p, "on many without line breaks", q)
	}
	if p, q := strings.ReplaceAll(one4, "\n", ""), strings.ReplaceAll(m4, "\n", ""); p != q {
		return diff("on one line with margin", p, "on many without line breaks", q)
	}
	if p, q := kinds(one), kinds(m0); p != q {
		return diff("words on one line", p, "on many", q)
	}
	if p, q := kinds(m4), kinds(m0); p != q {
		return diff("words with margin 4", p, "without", q)
	}
	return depthOf(a, m1)
}

// depthOf: with margin 1 the blanks before a statement equal its nesting depth
func depthOf(a *ast.AstNode, m1 string) string {
	var want []int
	var rec func(ss ast.Statements, d int)
	rec = func(ss ast.Statements, d int) {
		for _, s := range ss {
			want = append(want, d)
			switch v := s.(type) {
			case *ast.IfStatement:
				rec(v.TrueBlock, d+1)
				for _, e := range v.IfElseBlock {
					want = append(want, d)
					if i, ok := e.(*ast.IfStatement); ok {
						rec(i.TrueBlock, d+1)
					}
				}
				if v.ElseBlock != nil {
					want = append(want, d)
					rec(v.ElseBlock, d+1)
				}
				want = append(want, d)
			case *ast.LoopStatement:
				rec(v.Body, d+1)
				want = append(want, d)
			case ast.TryStatement:
				rec(v.Body, d+1)
				want = append(want, d)
				rec(v.Catch, d+1)
				want = append(want, d)
			}
		}
	}
	for _, v := range a.ModuleStatement.GlobalVariables {
		if v.Directive != "" {
			want = append(want, 0)
		}
		want = append(want, 0)
	}
	for _, s := range a.ModuleStatement.Body {
		f, ok := s.(*ast.FunctionOrProcedure)
		if !ok {
			rec(ast.Statements{s}, 0)
			continue
		}
		if f.Directive != "" {
			want = append(want, 0)
		}
		want = append(want, 0)
		for range f.ExplicitVariables {
			want = append(want, 1)
		}
		rec(f.Body, 1)
		want = append(want, 0)
	}
	i := 0
	for n, l := range strings.Split(m1, "\n") {
		s := strings.TrimLeft(l, " ")
		if s == "" || s[0] == '|' {
			continue
		}
		if i >= len(want) || len(l)-len(s) != want[i] {
			return fmt.Sprintf("line %d %q has %d blanks at margin 1, not its nesting depth", n+1, l, len(l)-len(s))
		}
		i++
	}
	return ""
}

type visit struct {
	root   *ast.FunctionOrProcedure
	parent string
	stm    string
	place  *ast.Statement // nil: a temporary place
}

func ident(s interface{}) string {
	v := reflect.ValueOf(s)
	switch v.Kind() {
	case reflect.Ptr:
		return fmt.Sprintf("%T@%x", s, v.Pointer())
	case reflect.Slice:
		return fmt.Sprintf("%T@%x+%d", s, v.Pointer(), v.Len())
	}
	if s == nil {
		return "nil"
	}
	return fmt.Sprintf("%T %s", s, canon(s))
}

func refWalk(root *ast.FunctionOrProcedure, parent interface{}, ss ast.Statements, fixed bool, out *[]visit) {
	kid := func(p interface{}, ss ast.Statements) { refWalk(root, p, ss, true, out) }
	tmp := func(p interface{}, s interface{}) { refWalk(root, p, ast.Statements{s}, false, out) }
	for i := range ss {
		r := root
		switch v := ss[i].(type) {
		case *ast.IfStatement:
			tmp(v, v.Expression)
			kid(v, v.TrueBlock)
			kid(v, v.ElseBlock)
			kid(v, v.IfElseBlock)
		case ast.TryStatement:
			kid(v, v.Body)
			kid(v, v.Catch)
		case *ast.LoopStatement:
			kid(v, v.Body)
		case *ast.FunctionOrProcedure:
			refWalk(v, v, v.Body, true, out)
			r = v
		case ast.MethodStatement:
			kid(v, v.Param.Statements)
		case *ast.ExpStatement:
			tmp(v, v.Right)
			tmp(v, v.Left)
		case ast.TernaryStatement:
			tmp(v, v.Expression)
			tmp(v, v.TrueBlock)
			tmp(v, v.ElseBlock)
		case *ast.ReturnStatement:
			tmp(v, v.Param)
		}
		vi := visit{r, ident(parent), ident(ss[i]), nil}
		if fixed {
			vi.place = &ss[i]
		}
		*out = append(*out, vi)
	}
}

func oC16(src string) string {
	a := ast.NewAST(src)
	a.Parse()
	before := dumpModule(a)
	check := func(how string, walk func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)), want []visit) string {
		var got []visit
		walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
			got = append(got, visit{root, ident(*parent), ident(*stm), stm})
		})
		for i := 0; i < len(got) || i < len(want); i++ {
			if i >= len(got) || i >= len(want) {
				return fmt.Sprintf("%s: %d calls instead of %d", how, len(got), len(want))
			}
			g, w := got[i], want[i]
			if g.stm != w.stm || g.parent != w.parent || g.root != w.root {
				return fmt.Sprintf("%s: call %d: statement %s in %s (method %s) instead of %s in %s (method %s)", how, i, g.stm, g.parent, fname(g.root), w.stm, w.parent, fname(w.root))
			}
			if w.place != nil && g.place != w.place {
				return fmt.Sprintf("%s: call %d: statement %s is not passed by its place in the tree", how, i, g.stm)
			}
		}
		return ""
	}
	var want []visit
	m := &a.ModuleStatement
	refWalk(nil, m.Body, m.Body, true, &want)
	if s := check("Walk", func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) { m.Walk(cb) }, want); s != "" {
		return s
	}
	for _, s := range m.Body {
		if f, ok := s.(*ast.FunctionOrProcedure); ok {
			want = nil
			refWalk(nil, f, f.Body, true, &want)
			if s := check("StatementWalk", func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
				ast.StatementWalk(f, f.Body, cb)
			}, want); s != "" {
				return s
			}
		}
	}
	if after := dumpModule(a); after != before {
		return diff("tree after walking", after, "before", before)
	}
	return ""
}

func fname(f *ast.FunctionOrProcedure) string {
	if f == nil {
		return "none"
	}
	return f.Name
}

func everything(src string) string {
	a := ast.NewAST(src)
	err := a.Parse()
	s := fmt.Sprint(err) + "|" + dumpModule(a) + "|" + a.Print(ast.PrintConf{Margin: 3}) + "|" + a.Print(ast.PrintConf{OneLine: true})
	n := 0
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { n++ })
	s += fmt.Sprint("|", n)
	for _, t := range realLex(src, true) {
		s += "|" + t.String()
	}
	return s + fast_tolower.FastToLower(src)
}

var companions = []string{
	"&НаКлиенте Перем ъ Экспорт; Функция Ф(Знач а = 1, б = \"x\") Экспорт Перем я; Пока а Цикл Прервать; КонецЦикла; Возврат -а; КонецФункции х = Не (1, 2);",
	"Пока Истина Цикл Если а = 1 Тогда", "Попытка а(); Исключение", "Функция Ф() Возврат 1;", "а.", "\"незакрытая", "Процедура П() Экспорт КонецПроцедуры Перем а;", "х = '20200101'; Прервать;",
}

var unused atomic.Int64

const fresh = `Перем Г# Экспорт;
&НаСервере
Функция Ф#(Знач П#, Р# = "Т#") Экспорт
	Перем Л#;
	Если П# = 1.# Тогда Х#.М#(П#, Новый К#(#)); ИначеЕсли Не А# Или -Б# > 3 Тогда ~Я#: Перейти ~Я#; Иначе В#[#] = ?(Д# > 1, Ж#, Е#); КонецЕсли;
	Для И# = # По 2# Цикл Прервать; КонецЦикла;
	Для Каждого Ц# Из Ч# Цикл Продолжить; КонецЦикла;
	Попытка О#(); Исключение ВызватьИсключение "Ш#"; КонецПопытки;
	Возврат #;
КонецФункции
Ю#.Э# = #;`

func oC17(src string) string {
	first := everything(src)
	for _, c := range companions {
		everything(c)
		if again := everything(src); again != first {
			return fmt.Sprintf("after parsing %q: %s", c, diff("result", again, "before", first))
		}
	}
	var wg sync.WaitGroup
	res := make([]string, 8)
	pan := make([]string, 8)
	for i := range res {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					pan[i] = fmt.Sprint("panic: ", e)
				}
			}()
			if i%2 == 0 {
				res[i] = everything(src)
				// names, literals and margins nobody has used before
				k := int(unused.Add(1))
				a := ast.NewAST(strings.ReplaceAll(fresh, "#", strconv.Itoa(k)))
				if a.Parse() == nil {
					a.Print(ast.PrintConf{Margin: 5 + k%997, OneLine: true})
				}
				ast.NewAST(src + "#" + strconv.Itoa(k)).Parse()
			} else {
				for _, c := range companions[:4] {
					everything(c)
				}
			}
		}()
	}
	wg.Wait()
	for i, r := range res {
		if pan[i] != "" {
			return "concurrent use: " + pan[i]
		}
		if i%2 == 0 && r != first {
			return "concurrent use: " + diff("result", r, "alone", first)
		}
	}
	return ""
}

func oC18(src string) string {
	if got, want := fast_tolower.FastToLower(src), lowerBytes(src); got != want {
		return fmt.Sprintf("%q instead of %q", got, want)
	}
	return ""
}

func oC19(src string) string {
	a := ast.NewAST(src)
	a.Parse()
	for _, c := range confs {
		a.Print(c)
	}
	for _, s := range a.ModuleStatement.Body {
		a.PrintStatement(s)
		a.PrintStatementWithConf(s, ast.PrintConf{OneLine: true})
	}
	a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		a.PrintStatement(*stm)
	})
	a.JSON()
	return ""
}

func all(fs ...func(string) string) func(string) string {
	return func(s string) string {
		for _, f := range fs {
			if m := f(s); m != "" {
				return m
			}
		}
		return ""
	}
}

var oracles = map[string]func(string) string{
	"C01": all(oC01, oNames), "C02": oC02, "C03": oC03, "C04": all(oC04, oLiterals), "C05": oC05, "C06": oC06, "C07": accept, "C08": accept,
	"C09": acceptTree, "C10": acceptTree, "C11": acceptTree, "C12": acceptTree, "C13": roundTrip, "C14": roundTrip,
	"C15": oC15, "C16": oC16, "C17": oC17, "C18": oC18, "C19": oC19,
}

// oNames: every name of the source is in the tree with the author's spelling
func oNames(src string) string {
	r := refParse(src)
	if !r.ok() || strings.TrimSpace(src) == "" {
		return ""
	}
	return acceptTree(src)
}

func oLiterals(src string) string { return oNames(src) }
