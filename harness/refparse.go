package main

// Reference parser (recursive descent over the language's grammar) and the canonical tree.

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
)

// N is a canonical tree node: kind, text, children.
type N struct {
	k    string
	s    string
	kids []*N
}

func (n *N) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *N) write(b *strings.Builder) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	b.WriteString(n.k)
	if n.s != "" {
		b.WriteString("<" + n.s + ">")
	}
	if len(n.kids) > 0 {
		b.WriteString("(")
		for i, k := range n.kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.write(b)
		}
		b.WriteString(")")
	}
}

func leaf(k, s string) *N { return &N{k: k, s: s} }
func nd(k, s string, kids ...*N) *N {
	return &N{k: k, s: s, kids: kids}
}

func num(f float64) *N { return leaf("num", strconv.FormatFloat(f, 'g', -1, 64)) }

func neg(x *N) *N {
	if x != nil && x.k == "num" {
		f, _ := strconv.ParseFloat(x.s, 64)
		return num(-f)
	}
	return nd("neg", "", x)
}

func not(x *N) *N {
	if x != nil && x.k == "bool" {
		return leaf("bool", fmt.Sprint(x.s != "true"))
	}
	return nd("not", "", x)
}

// group: redundant parentheses disappear
func group(xs []*N) *N {
	if len(xs) == 1 && xs[0] != nil {
		return xs[0]
	}
	return nd("group", strconv.Itoa(len(xs)), xs...)
}

func args(xs []*N) []*N {
	if len(xs) == 1 && xs[0] == nil {
		return nil
	}
	return xs
}

func list(xs []*N) *N { return nd("list", strconv.Itoa(len(xs)), xs...) }

// ---------------------------------------------------------------- the real tree

var tUnaryField = "addStatementField"

func flags(v reflect.Value) (minus, no bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := strings.ToLower(v.Type().Field(i).Name)
		if v.Type().Field(i).Anonymous && f.Kind() == reflect.Struct {
			m, n := flags(f)
			minus, no = minus || m, no || n
		}
		if f.Kind() == reflect.Bool && !v.Type().Field(i).IsExported() {
			if strings.Contains(name, "minus") {
				minus = minus || f.Bool()
			} else if strings.Contains(name, "not") {
				no = no || f.Bool()
			}
		}
	}
	return
}

func canonList(ss ast.Statements) []*N {
	var out []*N
	for _, s := range ss {
		out = append(out, canon(s))
	}
	return out
}

func canon(s interface{}) *N {
	if s == nil {
		return nil
	}
	n := canon0(s)
	m, no := flags(reflect.ValueOf(s))
	if m {
		n = neg(n)
	}
	if no {
		n = not(n)
	}
	return n
}

func canon0(s interface{}) *N {
	switch v := s.(type) {
	case float64:
		return num(v)
	case int:
		return num(float64(v))
	case string:
		return leaf("str", strconv.Quote(v))
	case bool:
		return leaf("bool", fmt.Sprint(v))
	case time.Time:
		return leaf("date", v.Format("2006-01-02T15:04:05.999999999Z07:00"))
	case ast.UndefinedStatement:
		return leaf("undef", "")
	case ast.VarStatement:
		return leaf("var", v.Name)
	case ast.MethodStatement:
		return nd("call", v.Name, args(canonList(v.Param.Statements))...)
	case ast.CallChainStatement:
		return nd("chain", "", canon(v.Call), canon(v.Unit))
	case ast.ItemStatement:
		return nd("item", "", canon(v.Object), canon(v.Item))
	case ast.TernaryStatement:
		return nd("tern", "", canon(v.Expression), canon(v.TrueBlock), canon(v.ElseBlock))
	case ast.NewObjectStatement:
		return nd("new", v.Constructor, args(canonList(v.Param.Statements))...)
	case ast.ExprStatements:
		return group(canonList(v.Statements))
	case *ast.ExprStatements:
		return group(canonList(v.Statements))
	case *ast.ExpStatement:
		return nd("op", opName[v.Operation], canon(v.Left), canon(v.Right))
	case ast.GoToStatement:
		if v.Label == nil {
			return leaf("goto", "<nil>")
		}
		return leaf("goto", "~"+v.Label.Name)
	case *ast.GoToLabelStatement:
		return leaf("label", "~"+v.Name)
	case ast.AssignmentStatement:
		return nd("assign", "", canon(v.Var), canon(v.Expr))
	case *ast.IfStatement:
		var eb []*N
		for _, e := range v.IfElseBlock {
			if i, ok := e.(*ast.IfStatement); ok && len(i.IfElseBlock) == 0 && len(i.ElseBlock) == 0 {
				eb = append(eb, nd("elseif", "", canon(i.Expression), list(canonList(i.TrueBlock))))
			} else {
				eb = append(eb, leaf("bad-elseif", fmt.Sprintf("%T", e)))
			}
		}
		return nd("if", "", canon(v.Expression), list(canonList(v.TrueBlock)), list(eb), list(canonList(v.ElseBlock)))
	case ast.TryStatement:
		return nd("try", "", list(canonList(v.Body)), list(canonList(v.Catch)))
	case *ast.LoopStatement:
		f := canon(v.For)
		if name, ok := v.For.(string); ok && v.In != nil {
			f = leaf("name", name)
		}
		return nd("loop", "", f, canon(v.To), canon(v.In), canon(v.WhileExpr), list(canonList(v.Body)))
	case ast.ThrowStatement:
		return nd("throw", "", canon(v.Param))
	case *ast.ReturnStatement:
		return nd("return", "", canon(v.Param))
	case ast.BreakStatement:
		return leaf("break", "")
	case ast.ContinueStatement:
		return leaf("continue", "")
	case *ast.FunctionOrProcedure:
		var ps, vs []*N
		for _, p := range v.Params {
			ps = append(ps, nd("param", fmt.Sprintf("%s %v", p.Name, p.IsValue), canon(p.Default)))
		}
		for k, x := range v.ExplicitVariables {
			n := k
			if x.Name != k {
				n += "!=" + x.Name
			}
			vs = append(vs, leaf("var", n))
		}
		sortN(vs)
		kind := map[ast.StatementType]string{ast.PFTypeFunction: "function", ast.PFTypeProcedure: "procedure"}[v.Type]
		return nd(kind, fmt.Sprintf("%s|%s|%v", v.Name, v.Directive, v.Export), list(ps), list(vs), list(canonList(v.Body)))
	}
	return leaf("?", fmt.Sprintf("%T", s))
}

var opName = map[ast.OperationType]string{
	ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpEq: "=", ast.OpGt: ">", ast.OpLt: "<",
	ast.OpNe: "<>", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpMod: "%", ast.OpOr: "ИЛИ", ast.OpAnd: "И",
}

func sortN(ns []*N) {
	sort.Slice(ns, func(i, j int) bool { return ns[i].String() < ns[j].String() })
}

func canonModule(m *ast.ModuleStatement) *N {
	var gs []*N
	for k, g := range m.GlobalVariables {
		n := fmt.Sprintf("%s|%s|%v", g.Var.Name, g.Directive, g.Export)
		if k != g.Var.Name {
			n += "!=" + k
		}
		gs = append(gs, leaf("global", n))
	}
	sortN(gs)
	return nd("module", "", list(gs), list(canonList(m.Body)))
}

// ---------------------------------------------------------------- reference parser

type rparser struct {
	toks      []rtok
	i         int
	loop, try int
	fn        bool
	sem       []string // semantic errors, prefixed with the property that states the rule
}

type synErr struct{ i int }

func (p *rparser) k() int { return p.toks[p.i].kind }
func (p *rparser) fail()  { panic(synErr{p.i}) }
func (p *rparser) take(k int) rtok {
	if p.k() != k {
		p.fail()
	}
	t := p.toks[p.i]
	p.i++
	return t
}
func (p *rparser) opt(k int) bool {
	if p.k() == k {
		p.i++
		return true
	}
	return false
}

type refResult struct {
	tree   *N
	syn    int // index of the token at which the grammar rejects, -1 if none
	lexErr bool
	sem    []string
	toks   []rtok
}

func (r *refResult) ok() bool { return r.syn < 0 && !r.lexErr && len(r.sem) == 0 }

func refParse(src string) (res *refResult) {
	toks := refLex(src)
	res = &refResult{syn: -1, toks: toks}
	if last := &toks[len(toks)-1]; last.err {
		res.lexErr = true
		last.kind = kEOF
	}
	p := &rparser{toks: toks}
	defer func() {
		res.sem = p.sem
		if e := recover(); e != nil {
			if s, ok := e.(synErr); ok {
				res.syn = s.i
			} else {
				panic(e)
			}
		}
	}()
	res.tree = p.module()
	return
}

func (p *rparser) module() *N {
	var gs, body []*N
	seen := map[string]bool{}
	for {
		dir := ""
		b := p.i
		if p.k() == ast.Directive {
			dir = p.take(ast.Directive).lit
		}
		switch p.k() {
		case ast.Var:
			p.i++
			names := p.identifiers()
			exp := p.opt(ast.Export)
			p.take(';')
			for _, n := range names {
				if len(body) > 0 {
					p.sem = append(p.sem, "C09 late variable")
				} else if seen[n] {
					p.sem = append(p.sem, "C09 duplicate variable")
				} else {
					seen[n] = true
					gs = append(gs, leaf("global", fmt.Sprintf("%s|%s|%v", n, dir, exp)))
				}
			}
			continue
		case ast.Function, ast.Procedure:
			body = append(body, p.method(dir))
			continue
		}
		if p.i != b {
			p.fail()
		}
		break
	}
	body = append(body, p.body()...)
	if p.k() != kEOF {
		p.fail()
	}
	sortN(gs)
	return nd("module", "", list(gs), list(body))
}

func (p *rparser) identifiers() (out []string) {
	out = append(out, p.take(kIdent).lit)
	for p.opt(',') {
		out = append(out, p.take(kIdent).lit)
	}
	return
}

func (p *rparser) method(dir string) *N {
	kind, end := "procedure", ast.EndProcedure
	if p.k() == ast.Function {
		kind, end = "function", ast.EndFunction
	}
	p.i++
	name := p.take(kIdent).lit
	p.take('(')
	var ps []*N
	if p.k() == kIdent || p.k() == ast.ValueParam {
		ps = append(ps, p.param())
	}
	for p.opt(',') {
		ps = append(ps, p.param())
	}
	p.take(')')
	exp := p.opt(ast.Export)
	p.fn = kind == "function"
	var vs []*N
	seen := map[string]bool{}
	for p.opt(ast.Var) {
		ids := p.identifiers()
		p.take(';')
		for _, n := range ids {
			if seen[n] {
				p.sem = append(p.sem, "C09 duplicate local")
			} else {
				seen[n] = true
				vs = append(vs, leaf("var", n))
			}
		}
	}
	sortN(vs)
	body := p.body()
	p.take(end)
	p.fn = false
	return nd(kind, fmt.Sprintf("%s|%s|%v", name, dir, exp), list(ps), list(vs), list(body))
}

func (p *rparser) param() *N {
	val := p.opt(ast.ValueParam)
	name := p.take(kIdent).lit
	var def *N
	for p.opt(ast.EQUAL) {
		def = p.simple()
	}
	return nd("param", fmt.Sprintf("%s %v", name, val), def)
}

func (p *rparser) body() (out []*N) {
	fresh := true
	for {
		switch {
		case p.k() == ';' || p.k() == ':':
			if p.k() == ':' && len(out) > 0 && out[len(out)-1].k != "label" {
				p.sem = append(p.sem, "C07 colon")
			}
			p.i++
			fresh = true
		case fresh && p.startsStmt():
			out = append(out, p.stmt())
			fresh = false
		default:
			return
		}
	}
}

func (p *rparser) startsStmt() bool {
	switch p.k() {
	case ast.If, ast.For, ast.While, ast.Try, ast.Continue, ast.Break, ast.Throw, ast.Return:
		return true
	}
	return p.startsExpr()
}

func (p *rparser) startsExpr() bool {
	switch p.k() {
	case ast.String, ast.Number, ast.Date, ast.True, ast.False, ast.Undefind, ast.GoToLabel, ast.Not, ast.New, ast.GoTo,
		ast.Execute, kIdent, '-', '+', '(', '?':
		return true
	}
	return false
}

func (p *rparser) stmt() *N {
	switch p.k() {
	case ast.If:
		p.i++
		c := p.expr(1)
		p.take(ast.Then)
		then := p.body()
		var ei, els []*N
		for p.opt(ast.ElseIf) {
			c := p.expr(1)
			p.take(ast.Then)
			ei = append(ei, nd("elseif", "", c, list(p.body())))
		}
		if p.opt(ast.Else) {
			els = p.body()
		}
		p.take(ast.EndIf)
		return nd("if", "", c, list(then), list(ei), list(els))
	case ast.While:
		p.i++
		c := p.expr(1)
		return nd("loop", "", nil, nil, nil, c, list(p.loopBody()))
	case ast.For:
		p.i++
		if p.opt(ast.Each) {
			name := p.take(kIdent).lit
			p.take(ast.In)
			in := p.loopExp()
			return nd("loop", "", leaf("name", name), nil, in, nil, list(p.loopBody()))
		}
		f := p.expr(1)
		p.take(ast.To)
		to := p.expr(1)
		return nd("loop", "", f, to, nil, nil, list(p.loopBody()))
	case ast.Try:
		p.i++
		b := p.body()
		p.take(ast.Catch)
		p.try++
		c := p.body()
		p.take(ast.EndTry)
		p.try--
		return nd("try", "", list(b), list(c))
	case ast.Continue, ast.Break:
		name := "continue"
		if p.k() == ast.Break {
			name = "break"
		}
		p.i++
		if p.loop == 0 {
			p.sem = append(p.sem, "C08 "+name)
		}
		return leaf(name, "")
	case ast.Throw:
		p.i++
		x := p.optExpr()
		if x == nil && p.try == 0 {
			p.sem = append(p.sem, "C08 throw")
		}
		return nd("throw", "", x)
	case ast.Return:
		p.i++
		x := p.optExpr()
		if x != nil && !p.fn {
			p.sem = append(p.sem, "C08 return")
		}
		return nd("return", "", x)
	case kIdent, ast.Execute:
		left := p.chain()
		if p.opt(ast.EQUAL) {
			return nd("assign", "", left, p.expr(1))
		}
		return p.rest(left, 1)
	}
	return p.expr(1)
}

func (p *rparser) loopBody() []*N {
	p.take(ast.Loop)
	p.loop++
	b := p.body()
	p.take(ast.EndLoop)
	p.loop--
	return b
}

func (p *rparser) loopExp() *N {
	switch p.k() {
	case ast.New:
		return p.newObj()
	case '(':
		p.i++
		if p.k() != ast.New {
			p.fail()
		}
		n := p.newObj()
		p.take(')')
		return n
	case '?':
		return p.ternary()
	case kIdent, ast.Execute:
		return p.chain()
	}
	p.fail()
	return nil
}

func (p *rparser) optExpr() *N {
	if p.startsExpr() {
		return p.expr(1)
	}
	return nil
}

func (p *rparser) exprs() []*N {
	out := []*N{p.optExpr()}
	for p.opt(',') {
		out = append(out, p.optExpr())
	}
	return out
}

func (p *rparser) chain() *N {
	n := p.identifier()
	for p.opt('.') {
		n = nd("chain", "", n, p.identifier())
	}
	return n
}

func (p *rparser) identifier() (n *N) {
	if p.k() == ast.Execute {
		name := p.take(ast.Execute).lit
		switch p.k() {
		case ast.String:
			n = nd("call", name, leaf("str", strconv.Quote(p.take(ast.String).lit)))
		case kIdent:
			n = nd("call", name, leaf("var", p.take(kIdent).lit))
		default:
			p.take('(')
			n = nd("call", name, p.expr(1))
			p.take(')')
		}
	} else {
		name := p.take(kIdent).lit
		if p.opt('(') {
			xs := p.exprs()
			p.take(')')
			n = nd("call", name, args(xs)...)
		} else {
			n = leaf("var", name)
		}
	}
	for p.opt('[') {
		x := p.expr(1)
		p.take(']')
		n = nd("item", "", n, x)
	}
	return
}

func (p *rparser) newObj() *N {
	p.take(ast.New)
	name := ""
	if p.k() == kIdent {
		name = p.take(kIdent).lit
		if p.k() != '(' {
			return nd("new", name)
		}
	}
	p.take('(')
	xs := p.exprs()
	p.take(')')
	return nd("new", name, args(xs)...)
}

func (p *rparser) ternary() *N {
	p.take('?')
	p.take('(')
	a := p.expr(1)
	p.take(',')
	b := p.expr(1)
	p.take(',')
	c := p.expr(1)
	p.take(')')
	return nd("tern", "", a, b, c)
}

// simple: literals, signed expressions and labels
func (p *rparser) simple() *N {
	t := p.toks[p.i]
	switch t.kind {
	case ast.String:
		p.i++
		return leaf("str", strconv.Quote(t.lit))
	case ast.Number:
		p.i++
		return num(t.val.(float64))
	case '-':
		p.i++
		return neg(p.expr(7))
	case '+':
		p.i++
		return p.expr(7)
	case ast.True, ast.False:
		p.i++
		return leaf("bool", fmt.Sprint(t.kind == ast.True))
	case ast.Date:
		p.i++
		return leaf("date", t.val.(time.Time).Format("2006-01-02T15:04:05.999999999Z07:00"))
	case ast.Undefind:
		p.i++
		return leaf("undef", "")
	case ast.GoToLabel:
		p.i++
		return leaf("label", "~"+t.lit)
	}
	p.fail()
	return nil
}

var prec = map[int]int{
	ast.OR: 1, ast.And: 2,
	ast.EQUAL: 4, ast.NeEQ: 4, ast.LE: 4, ast.GE: 4, '<': 4, '>': 4,
	'+': 5, '-': 5, '*': 6, '/': 6, '%': 6,
}

var opText = map[int]string{
	ast.OR: "ИЛИ", ast.And: "И", ast.EQUAL: "=", ast.NeEQ: "<>", ast.LE: "<=", ast.GE: ">=", '<': "<", '>': ">",
	'+': "+", '-': "-", '*': "*", '/': "/", '%': "%",
}

// expr parses an expression whose top operators bind at least as tight as min
func (p *rparser) expr(min int) *N {
	var n *N
	switch p.k() {
	case ast.Not:
		p.i++
		n = not(p.expr(4))
	case '(':
		p.i++
		n = group(p.exprs())
		p.take(')')
	case ast.New:
		n = p.newObj()
	case '?':
		n = p.ternary()
	case ast.GoTo:
		p.i++
		n = leaf("goto", "~"+p.take(ast.GoToLabel).lit)
	case kIdent, ast.Execute:
		n = p.chain()
	default:
		n = p.simple()
	}
	return p.rest(n, min)
}

func (p *rparser) rest(n *N, min int) *N {
	for {
		pr, ok := prec[p.k()]
		if !ok || pr < min {
			return n
		}
		op := p.take(p.k())
		n = nd("op", opText[op.kind], n, p.expr(pr+1))
	}
}
