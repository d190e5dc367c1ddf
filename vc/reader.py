"""Reads printed text: a lexer over atoms (constant bytes, names, literals, texts of sub-trees, folds) and a recursive-descent parser of the
published grammar; compares what was read with the node that was printed, one level deep."""
import z3
from sx import *
from base import *
from printer import *
import lex

class Mismatch(Exception): pass

OPS = {"OR": ("OR", 1), "And": ("And", 2), "=": ("=", 4), "<>": ("<>", 4), "<=": ("<=", 4), ">=": (">=", 4), "<": ("<", 4), ">": (">", 4), "+": ("+", 5), "-": ("-", 5), "*": ("*", 6), "/": ("/", 6), "%": ("%", 6)}
OPNUM = {"OpPlus": "+", "OpMinus": "-", "OpMul": "*", "OpDiv": "/", "OpEq": "=", "OpGt": ">", "OpLt": "<", "OpNe": "<>", "OpLe": "<=", "OpGe": ">=", "OpMod": "%", "OpOr": "OR", "OpAnd": "And"}

class Tok:
    __slots__ = ("k", "v", "glued", "lw", "rw", "empty")
    def __init__(self, k, v, lw, rw, empty=False):
        self.k, self.v, self.lw, self.rw, self.empty, self.glued = k, v, lw, rw, empty, True
    def __repr__(self): return "%s:%s" % (self.k, self.v if not isinstance(self.v, tuple) else self.v[0])

class Rep:
    """the iterations of a loop: fold, iterations done, per case (state, tokens); sep: tokens between iterations come as a comma"""
    def __init__(self, fold, count, cases, sep): self.fold, self.count, self.cases, self.sep = fold, count, cases, sep
    def __repr__(self): return "Rep"

BADPAIR = {("w", "w"), ("q", "q"), ("any", "w"), ("w", "any"), ("any", "any"), ("any", "q"), ("q", "any")}
BADPUNCT = {"<>", "<=", ">=", "//"}

def lex_const(b):
    """tokens of constant text: list of Tok or None for a definite blank"""
    s = b.decode("utf8"); out = []; i = 0
    while i < len(s):
        c = s[i]
        if c in " \t\r\n": out.append(None); i += 1; continue
        if c == "_" or c.isalpha() or c.isdigit():
            k = i
            while k < len(s) and (s[k] == "_" or s[k].isalpha() or s[k].isdigit()): k += 1
            w = s[i:k]; kw = lex.KEYWORDS.get(w.lower())
            if c.isdigit():
                if not w.isdigit(): raise Mismatch("malformed number %r in the printed text" % w)
                out.append(Tok("num", w, "w", "w"))
            elif kw: out.append(Tok("kw", kw, "w", "w"))
            else: out.append(Tok("name", StrV([w.encode()]), "w", "w"))
            i = k; continue
        if c == '"' or c == "'":
            k = s.find(c, i + 1)
            if k < 0 or k == i + 1 and c == '"' and k + 1 == len(s) and False:
                out.append(Tok("open", c, "q", "q")); 
                if i + 1 != len(s): raise Mismatch("text %r inside a literal" % s[i + 1:])
                i += 1; continue
            out.append(Tok("str" if c == '"' else "date", StrV([s[i + 1:k].encode()]), "q", "q")); i = k + 1; continue
        if s[i:i + 2] == "//" or c == "#": raise Mismatch("a comment in the printed text")
        if s[i:i + 2] in ("<>", "<=", ">="): out.append(Tok("p", s[i:i + 2], "p", "p")); i += 2; continue
        if c in "+-*/%=<>();:,.?[]~&": out.append(Tok("p", c, "p", "p")); i += 1; continue
        raise Mismatch("character %r in the printed text" % c)
    return out

class Reader:
    def __init__(self, E, cx, wf, own=None):
        self.E, self.cx, self.wf = E, cx, wf
    @property
    def st(self): return self.cx.st
    def yes(self, c):
        c = norm(c) if not isinstance(c, bool) else c
        if isinstance(c, bool): return c
        return self.E.proves(self.st, c)
    def no(self, c): return self.yes(Not_(c))

    # ---- tokens
    def tokens(self, v):
        """v: StrV"""
        out = []; st = {"glued": False}
        def put(t):
            t.glued = st["glued"]; st["glued"] = True
            out.append(t)
        opened = None       # an opened literal
        for a in v.at:
            if isinstance(a, bytes):
                if opened is not None:
                    q = opened[0]
                    if not a.startswith(q.encode()): raise Mismatch("a literal is followed by %r before its closing quote" % a.decode("utf8", "replace"))
                    if opened[1] is None: raise Mismatch("literal")
                    put(Tok("str" if q == '"' else "date", StrV(opened[1]), "q", "q")); opened = None
                    a = a[1:]
                # a quote that opens a literal must end this constant
                s = a.decode("utf8", "strict")
                for q in ('"', "'"):
                    if s.endswith(q) and s.count(q) % 2 == 1:
                        for t in lex_const(s[:-1].encode()):
                            if t is None: st["glued"] = False
                            else: put(t)
                        opened = (q, None); s = None; break
                if s is not None:
                    for t in lex_const(s.encode()):
                        if t is None: st["glued"] = False
                        else:
                            if t.k == "open": raise Mismatch("literal")
                            put(t)
                continue
            if opened is not None:
                if opened[1] is not None: raise Mismatch("two texts inside one literal")
                opened = (opened[0], [a]); continue
            n = a.decl().name()
            if n == "pr:nl": continue
            if n == "repeat":
                c = const_bytes(a.arg(0))
                if c is None or c.strip(b" \t\r\n") != b"": raise Mismatch("repeated text that is not blank")
                continue
            if n == "pr:expr": put(Tok("T", ("expr", a.arg(0), a.arg(1), a), "any", "any", self.maynil(a.arg(0)))); continue
            if n == "pr:var": put(Tok("T", ("var", a.arg(0), None, a), "any", "any", self.maynil(a.arg(0)))); continue
            if n == "pr:chain": put(Tok("T", ("chain", a.arg(0), None, a), "any", "any")); continue
            if n == "pr:params": put(Tok("T", ("params", a.arg(0), None, a), "any", "any", True)); continue
            if n == "pr:body": put(Tok("T", ("body", a.arg(0), a.arg(1), a), "any", "p", True)); continue
            if n == "pr:item": put(Tok("T", ("item", a.arg(0), a.arg(1), a), "any", "p")); continue
            if n == "pr:func": put(Tok("T", ("func", a.arg(0), None, a), "any", "w")); continue
            if n == "fmtFloat": put(Tok("num", a.arg(0), "w", "w")); continue
            if n.startswith("fold:"):
                for t in self.fold_tokens(a, None): put(t)
                continue
            if n == "join":
                sep = const_bytes(a.arg(1)); q = a.arg(0)
                if sep is None: raise Mismatch("a variable separator")
                if not q.decl().name().startswith("fold:"): raise Mismatch("a list of unknown texts is joined")
                ts = [t for t in lex_const(sep) if t is not None]
                if len(ts) != 1 or ts[0].k != "p" or ts[0].v != ",": raise Mismatch("separator %r" % sep.decode("utf8", "replace"))
                for t in self.fold_tokens(q, ","): put(t)
                continue
            if n == "fmtTime": raise Mismatch("a date outside its quotes")
            put(Tok("name", StrV([a]), "w", "w"))
        if opened is not None: raise Mismatch("a literal is not closed")
        self.adjacent(out)
        return out

    def maynil(self, x): return not self.no(x == self.E.w.Any.nil)

    def adjacent(self, toks):
        def bad(a, b):
            if (a.rw, b.lw) in BADPAIR: return True
            return a.k == b.k == "p" and (a.v + b.v) in BADPUNCT
        for i, t in enumerate(toks):
            # the closest tokens to the left that may touch t
            k = i - 1; g = t.glued
            while g and k >= 0:
                if bad(toks[k], t): raise Mismatch("no blank between %r and %r in the printed text" % (toks[k], t))
                if not toks[k].empty: break
                g = toks[k].glued; k -= 1

    def fold_tokens(self, a, sep):
        E = self.E; F = E.fold(a); count = a.arg(0)
        if self.yes(count == 0): return []
        one = self.yes(count == 1)
        cases = []
        for k, (cst, ds) in enumerate(F.cases):
            if F.acc(a) not in ds: raise Mismatch("a loop whose text is not collected in order")
            d = ds[F.acc(a)]
            if isinstance(d, SeqV):
                if len(d.parts) != 1 or d.parts[0][0] != "u": raise Mismatch("an iteration adds other than one text")
                d = d.parts[0][1]
            s = cst.copy()
            if one: s.assume(F.j == 0)
            # facts known here hold there as well (both are about the same tree)
            for f in self.st.pc: s.assume(f)
            if not E.feasible(s): continue
            cases.append((s, d))
        if one:
            # a single iteration: its text stands here
            if not cases: raise Mismatch("no iteration is possible")
            live = [(s, d) for s, d in cases]
            for s, d in live[:-1]:
                pass
            if len(live) > 1:
                # split on the case conditions
                i = self.choose([s for s, d in live])
                s, d = live[i]
            else: s, d = live[0]
            for f in s.pc: self.st.assume(f)
            sub = Reader(E, self.cx, self.wf)
            return sub.tokens(d)
        out = []
        for s, d in cases:
            r = Reader(E, SCtx(E, s), self.wf)
            out.append((s, r.tokens(d)))
        if sep is None and out:
            # a separator written by the body before every iteration but the first
            with_, without = [], []
            for s, t in out:
                first = E.decide(s, F.j == 0)
                if first is None and t and t[0].k == "p" and t[0].v == ",": first = None
                if t and t[0].k == "p" and t[0].v == ",":
                    if E.decide(s, F.j > 0) is not True: with_ = None; break
                    with_.append((s, t[1:]))
                elif first is True: without.append((s, t))
                else: without = None; break
            if with_ and without is not None and with_ is not None and (without or True):
                out = with_ + without; sep = ","
            elif with_ is None or without is None:
                pass
        lw = {t[0].lw if t else None for s, t in out}; rw = {t[-1].rw if t else None for s, t in out}
        blankl = all(t and not t[0].glued for s, t in out)
        # neighbouring iterations
        if sep is None:
            for _, x in out:
                for _, y in out:
                    if x and y and y[0].glued:
                        if (x[-1].rw, y[0].lw) in BADPAIR: raise Mismatch("no blank between the texts of two iterations")
        L = lw.pop() if len(lw) == 1 and None not in lw else ("w" if lw <= {"w", "p"} and False else "any")
        R = rw.pop() if len(rw) == 1 and None not in rw else "any"
        t = Tok("rep", Rep(F, count, out, sep), L, R, True)
        if blankl: 
            t.lw = "p"          # every iteration starts with a blank
        return [t]

    def choose(self, states):
        """a case whose own conditions are assumed (splits the present state)"""
        base = set(f.get_id() for f in self.st.pc)
        for i, s in enumerate(states[:-1]):
            own = [f for f in s.pc if f.get_id() not in base]
            if self.cx.cond(And_(*own) if own else True): return i
        return len(states) - 1

class SCtx:
    """a context that never splits"""
    def __init__(self, E, st): self.E, self.st = E, st
    def cond(self, b):
        b = norm(b) if not isinstance(b, bool) else b
        if isinstance(b, bool): return b
        d = self.E.decide(self.st, b)
        if d is None: raise NeedSplit(b)
        return d
    __call__ = cond
class NeedSplit(Exception): pass

# ------------------------------------------------------------------ the parser
class Top:
    """how a parsed text binds: kind in bin, not, sign, atom, text; eqfirst: its first operand is followed by ="""
    def __init__(self, kind, prec, cls=None, T=None, op=None): self.kind, self.prec, self.cls_, self.T, self.op, self.eqfirst = kind, prec, cls, T, op, False
    @property
    def cls(self):
        if callable(self.cls_): self.cls_ = self.cls_()
        return self.cls_

class Parser:
    def __init__(self, R, toks): self.R, self.toks, self.i, self.E, self.wf = R, toks, 0, R.E, R.wf
    def peek(self, n=0): return self.toks[self.i + n] if self.i + n < len(self.toks) else None
    def isp(self, v, n=0):
        t = self.peek(n); return t is not None and t.k == "p" and t.v == v
    def iskw(self, v, n=0):
        t = self.peek(n); return t is not None and t.k == "kw" and t.v == v
    def take(self): self.i += 1; return self.toks[self.i - 1]
    def need(self, v):
        if not self.isp(v): raise Mismatch("%r expected, found %s" % (v, self.peek()))
        return self.take()
    def needkw(self, v):
        if not self.iskw(v): raise Mismatch("keyword %s expected, found %s" % (v, self.peek()))
        return self.take()
    def op(self):
        t = self.peek()
        if t is None: return None
        if t.k == "p" and t.v in OPS: return OPS[t.v]
        if t.k == "kw" and t.v in OPS: return OPS[t.v]
        return None

    # ---- expressions
    def expr(self, minp=1):
        """returns (denotation, Top)"""
        start = self.i
        d, top = self.unary(minp)
        first = True
        while True:
            o = self.op()
            if o is None or o[1] < minp: break
            if top.kind == "text" and top.prec < 7 and not (top.prec == 3 and o[1] < 3): raise Mismatch("an operator follows text that is not closed")
            eqf = first and o[0] == "="
            self.take()
            r, rt = self.expr(o[1] + 1)
            if rt.kind == "text" and rt.prec == 0: raise Mismatch("an operand may contain loose operators")
            nt = Top("bin", o[1], op=o[0]); nt.eqfirst = eqf or (not first and top.eqfirst)
            d, top = ("bin", o[0], d, r), nt
            first = False
        return d, top
    def unary(self, minp):
        if self.iskw("Not"):
            self.take()
            d, t = self.expr(4)
            if t.kind == "text" and t.prec == 0: raise Mismatch("negation of text with loose operators")
            return ("not", d), Top("not", 3)
        if self.isp("-") or self.isp("+"):
            s = self.take().v
            d, t = self.unary(8)
            if t.kind == "text" and t.prec < 7: raise Mismatch("sign of text that is not closed")
            return (("neg", d) if s == "-" else d), Top("sign", 7)
        return self.postfix()
    def text(self, t):
        """an opaque text of an expression: (denotation, Top)"""
        kind, x, lv, a = t.v
        E, R, w = self.E, self.R, self.wf
        if kind == "chain": return ("core", x), Top("atom", 8, "ident" if R.yes(w.f["Ident"](x)) else "chain")
        if kind not in ("expr", "var"): raise Mismatch("text of %s where an expression is expected" % kind)
        cls = "other"
        if R.yes(w.f["Chain"](x)): cls = "ident" if R.yes(w.f["Ident"](x)) else "chain"
        else: cls = lambda: "loop" if R.yes(w.f["LoopIn"](x)) else "literal" if R.yes(w.kinds(LITERALS, x)) else "other"
        d = ("den", x)
        if cls in ("ident", "chain"): return d, Top("atom", 8, cls)
        tight = False
        if kind == "expr": tight = R.yes(lv >= 1)
        if not tight: tight = R.no(w.kinds(["*ExpStatement", "ExprStatements"], x))
        if R.yes(x == E.w.Any.nil): raise Mismatch("an operand is missing")
        if not R.no(x == E.w.Any.nil): raise Mismatch("an operand may be missing")
        if not tight: return d, Top("text", 0, cls, T=(kind, x, lv))
        h = hasprefix_f(a, sconst("Не "))
        notp = R.cx.cond(h) if not isinstance(R.cx, SCtx) else not R.no(h)
        return d, Top("text", 3 if notp else 7, cls, T=(kind, x, lv))
    def postfix(self):
        t = self.peek()
        if t is None: raise Mismatch("an expression is missing at the end of the text")
        if t.k == "T":
            self.take()
            d, top = self.text(t)
            if top.kind == "text":
                # a loose text must stand alone: what may precede it is checked by the caller through its precedence
                if top.prec < 7 and self.op() is not None and (top.prec == 0 or self.op()[1] >= 4): raise Mismatch("an operator follows text that is not closed")
                if self.isp("[") or self.isp("."): raise Mismatch("index or member of text that is not a name")
                if top.prec == 3: top = Top("text", 3, top.cls_, top.T)
                return d, top
            if top.kind == "atom" and top.cls in ("ident", "chain"): return self.members(d, top.cls)
            return d, top
        if t.k == "name" or self.iskw("Execute"): 
            d = self.ident()
            return self.members(d, "ident", True)
        if t.k == "num":
            self.take()
            return ("num", t.v), Top("sign", 7, "literal")
        if t.k == "str": self.take(); return ("str", t.v), Top("atom", 8, "literal")
        if t.k == "date": self.take(); return ("date", t.v), Top("atom", 8, "literal")
        if t.k == "kw" and t.v in ("True", "False"): self.take(); return ("bool", t.v == "True"), Top("atom", 8, "literal")
        if self.iskw("Undefind"): self.take(); return ("undef",), Top("atom", 8, "literal")
        if self.isp("~"): return ("label", self.label()), Top("atom", 8, "literal")
        if self.iskw("GoTo"): self.take(); return ("goto", self.label()), Top("atom", 8, "goto")
        if self.iskw("New"):
            self.take(); name = S(); args = None
            if self.peek() is not None and self.peek().k == "name": name = self.take().v
            if self.isp("("):
                self.take(); args = self.pieces(")"); self.need(")")
            return ("new", name, args), Top("atom", 8, "new")
        if self.isp("?"):
            self.take(); self.need("(")
            a, _ = self.expr(); self.need(","); b, _ = self.expr(); self.need(","); c, _ = self.expr(); self.need(")")
            return ("tern", a, b, c), Top("atom", 8, "tern")
        if self.isp("("):
            self.take(); ps = self.pieces(")"); self.need(")")
            return ("group", ps), Top("atom", 8, "paren")
        raise Mismatch("an expression expected, found %s" % t)
    def label(self):
        self.need("~")
        t = self.peek()
        if t is None or t.k != "name" or not t.glued: raise Mismatch("a label without a name")
        return self.take().v
    def ident(self):
        t = self.take()
        if t.k == "kw":
            name = None
        else: name = t.v
        if t.k != "kw" and t.k != "name": raise Mismatch("a name expected, found %s" % t)
        if self.isp("("):
            self.take(); ps = self.pieces(")"); self.need(")")
            return ("call", name, ps)
        if t.k == "kw": raise Mismatch("a name expected, found %s" % t)
        return ("var", name)
    def members(self, d, cls, fresh=False):
        if cls == "ident": d = self.indexes(d)
        while True:
            if self.isp("["): raise Mismatch("index after a chain")
            if self.isp("."):
                self.take()
                t = self.peek()
                if t is None: raise Mismatch("a member name is missing")
                if t.k == "T":
                    self.take(); u, top = self.text(t)
                    if not (top.kind == "atom" and top.cls == "ident"): raise Mismatch("member text that is not a name")
                else: u = self.ident()
                u = self.indexes(u)
                d = ("chain", d, u); cls = "chain"; continue
            break
        return d, Top("atom", 8, cls)
    def indexes(self, d):
        while self.isp("["):
            self.take(); e, _ = self.expr(); self.need("]")
            d = ("index", d, e)
        return d
    def pieces(self, close):
        """a comma-separated list up to close: pieces are expressions, absent ones, folds and texts of lists"""
        out = []
        t = self.peek()
        end = (lambda n=0: self.isp(close, n)) if close is not None else (lambda n=0: self.peek(n) is None)
        if t is not None and t.k == "rep" and t.v.sep == "," and end(1):
            self.take(); return [("rep", t.v, "arg")]
        if t is not None and t.k == "T" and t.v[0] == "params" and end(1):
            self.take(); return [("seq", t.v[1], "arg")]
        while True:
            if end() or self.isp(","): out.append(("absent",))
            else:
                t = self.peek()
                if t is not None and t.k == "T" and t.empty and (end(1) or self.isp(",", 1)) and t.v[0] in ("expr", "var"):
                    self.take(); out.append(("opt", t.v[1]))        # an expression or nothing, as the tree has it
                else: out.append(self.expr()[0])
            if self.isp(","): self.take(); continue
            break
        return out

    # ---- statements
    def stmts(self, until=()):
        """statements up to one of the keywords (or the end)"""
        out = []
        while True:
            t = self.peek()
            if t is None: break
            if t.k == "kw" and t.v in until: break
            if t.k == "rep" and t.v.sep is None and self.rep_kind(t.v) in until: break
            if t.k == "rep": 
                if t.v.sep is not None: raise Mismatch("a list where statements are expected")
                self.take(); out.append(("rep", t.v, "stmt")); continue
            if t.k == "T" and t.v[0] == "body": self.take(); out.append(("seq", t.v[1], "stmt")); continue
            if t.k == "T" and t.v[0] == "item": self.take(); out.append(("stmt", t.v[1])); continue
            out.append(self.stmt_sep())
        return out
    def rep_kind(self, r):
        ks = {t[0].v if t and t[0].k == "kw" else None for s, t in r.cases}
        return ks.pop() if len(ks) == 1 else None
    def stmt_sep(self):
        d = self.stmt()
        if d[0] == "label" and self.isp(":"): self.take(); return d
        self.need(";")
        return d
    def stmt(self):
        if self.iskw("If"):
            self.take(); c, _ = self.expr(); self.needkw("Then"); b = self.stmts(("ElseIf", "Else", "EndIf"))
            el = self.elifs(); e = []
            if self.iskw("Else"): self.take(); e = self.stmts(("EndIf",))
            self.needkw("EndIf")
            return ("if", c, b, el, e)
        if self.iskw("While"):
            self.take(); c, _ = self.expr(); self.needkw("Loop"); b = self.stmts(("EndLoop",)); self.needkw("EndLoop")
            return ("while", c, b)
        if self.iskw("For"):
            self.take()
            if self.iskw("Each"):
                self.take(); t = self.take()
                if t.k != "name": raise Mismatch("the variable of a loop expected, found %s" % t)
                self.needkw("In"); c = self.loop_in(); self.needkw("Loop"); b = self.stmts(("EndLoop",)); self.needkw("EndLoop")
                return ("each", t.v, c, b)
            a, _ = self.expr(); self.needkw("To"); c, _ = self.expr(); self.needkw("Loop"); b = self.stmts(("EndLoop",)); self.needkw("EndLoop")
            return ("for", a, c, b)
        if self.iskw("Try"):
            self.take(); b = self.stmts(("Catch",)); self.needkw("Catch"); c = self.stmts(("EndTry",)); self.needkw("EndTry")
            return ("try", b, c)
        if self.iskw("Break"): self.take(); return ("break",)
        if self.iskw("Continue"): self.take(); return ("continue",)
        for k, n in (("Throw", "throw"), ("Return", "return")):
            if self.iskw(k):
                self.take()
                if self.isp(";"): return (n, ("absent",))
                t = self.peek()
                if t is not None and t.k == "T" and t.empty and self.isp(";", 1): self.take(); return (n, ("opt", t.v[1]))
                return (n, self.expr()[0])
        # an assignment or an expression
        start = self.i
        t = self.peek()
        if t is not None and (t.k in ("T", "name") or self.iskw("Execute")):
            # the first operand followed by = makes an assignment
            try:
                if t.k == "T":
                    self.take(); d, top = self.text(t) if t.v[0] in ("expr", "var", "chain") and not self.is_assign(t) else (None, None)
                    if d is None:
                        if not self.isp(";"): raise Mismatch("text follows an assignment")
                        return ("stmt", t.v[1])
                    if top.kind == "atom" and top.cls in ("ident", "chain"): d, top = self.members(d, top.cls)
                else: d, top = self.postfix()
                if self.isp("=") and top.kind == "atom" and top.cls in ("ident", "chain"):
                    self.take(); e, _ = self.expr()
                    return ("assign", d, e)
            finally: pass
            self.i = start
        d, top = self.expr()
        if top.kind == "text" and top.prec == 0 and not self.R.no(isEq_f(self.E)(top.T[1])):
            raise Mismatch("an expression statement that may read as an assignment")
        if d[0] == "label" and self.isp(":"): return d
        return ("exprstmt", d)
    def is_assign(self, t): return t.v[0] == "var" and self.R.cx.cond(self.E.w.isbox("AssignmentStatement", t.v[1]))
    def elifs(self):
        out = []
        while True:
            t = self.peek()
            if t is not None and t.k == "rep" and t.v.sep is None and self.rep_kind(t.v) == "ElseIf": self.take(); out.append(("rep", t.v, "elif")); continue
            if self.iskw("ElseIf"): out.append(self.elif1()); continue
            return out
    def elif1(self):
        self.needkw("ElseIf"); c, _ = self.expr(); self.needkw("Then"); b = self.stmts(("ElseIf", "Else", "EndIf"))
        return ("elif", c, b)
    def loop_in(self):
        if self.isp("("):       # only a new object may stand in parentheses
            self.take(); d, t = self.expr(); self.need(")")
            if t.cls != "new": raise Mismatch("what a loop runs over may not stand in parentheses")
            return d
        d, t = self.expr()
        if not (t.kind == "atom" and t.cls in ("ident", "chain", "new", "tern") or t.cls == "loop"): raise Mismatch("a loop runs over an expression of another kind")
        return d

    # ---- declarations
    def directive(self):
        """a directive is a name that stands before a declaration"""
        if self.peek() is not None and self.peek().k == "name": return self.take().v
        return None
    def gvar(self):
        dr = self.directive(); self.needkw("Var")
        t = self.take()
        if t.k != "name": raise Mismatch("a variable name expected")
        ex = False
        if self.iskw("Export"): self.take(); ex = True
        self.need(";")
        return ("gvar", dr, t.v, ex)
    def param(self):
        val = False
        if self.iskw("ValueParam"): self.take(); val = True
        t = self.take()
        if t.k != "name": raise Mismatch("a parameter name expected")
        df = ("absent",)
        if self.isp("="):
            self.take()
            if self.isp("+") or self.isp("-"):
                d, top = self.unary(8); df = d
            else:
                d, top = self.unary(8)
                if top.cls != "literal": raise Mismatch("a default value that is not a literal stands without a sign")
                df = d
        return ("param", val, t.v, df)
    def function(self):
        dr = self.directive()
        fn = self.iskw("Function")
        if not fn: self.needkw("Procedure")
        else: self.take()
        t = self.take()
        if t.k != "name": raise Mismatch("the name of a method expected")
        self.need("(")
        ps = []
        if not self.isp(")"):
            q = self.peek()
            if q.k == "rep" and q.v.sep == "," and self.isp(")", 1): self.take(); ps = [("rep", q.v, "param")]
            else:
                while True:
                    ps.append(self.param())
                    if self.isp(","): self.take(); continue
                    break
        self.need(")")
        ex = False
        if self.iskw("Export"): self.take(); ex = True
        vs = []
        while True:
            q = self.peek()
            if q is not None and q.k == "rep" and self.rep_kind(q.v) == "Var": self.take(); vs.append(("rep", q.v, "lvar")); continue
            if self.iskw("Var"): vs.append(self.lvar()); continue
            break
        end = "EndFunction" if fn else "EndProcedure"
        b = self.stmts((end,)); self.needkw(end)
        return ("func", fn, dr, t.v, ps, ex, vs, b)
    def lvar(self):
        self.needkw("Var"); t = self.take()
        if t.k != "name": raise Mismatch("a variable name expected")
        self.need(";")
        return ("lvar", t.v)
    def module_item(self):
        t = self.peek()
        if t is not None and t.k == "T" and t.v[0] == "func": self.take(); return ("funcnode", t.v[1])
        if t is not None and t.k == "T" and t.v[0] == "item": self.take(); return ("stmt", t.v[1])
        if t is not None and (t.k == "name" and self.peek(1) is not None and self.peek(1).k == "kw" and self.peek(1).v in ("Function", "Procedure") or self.iskw("Function") or self.iskw("Procedure")): return self.function()
        return self.stmt_sep()
    def module(self):
        vs, items = [], []
        while True:
            t = self.peek()
            if t is None: return ("module", vs, items)
            if t.k == "rep":
                k = self.rep_item(t.v)
                self.take()
                if k == "gvar":
                    if items: raise Mismatch("variables after methods or statements")
                    vs.append(("rep", t.v, "gvar"))
                else: items.append(("rep", t.v, "item"))
                continue
            if self.iskw("Var") or t.k == "name" and self.iskw("Var", 1):
                if items: raise Mismatch("variables after methods or statements")
                vs.append(self.gvar()); continue
            items.append(self.module_item())
    def rep_item(self, r):
        for s, t in r.cases:
            if t and (t[0].k == "kw" and t[0].v == "Var" or t[0].k == "name" and len(t) > 1 and t[1].k == "kw" and t[1].v == "Var"): return "gvar"
        return "item"
    def one(self, kind):
        """one element of a fold"""
        if kind == "arg":
            if self.peek() is None: return ("absent",)
            t = self.peek()
            if t.k == "T" and t.v[0] in ("expr", "var") and t.empty and self.peek(1) is None: self.take(); return ("opt", t.v[1])
            return self.expr()[0]
        if kind == "stmt":
            t = self.peek()
            if t is not None and t.k == "T" and t.v[0] == "item": self.take(); return ("stmt", t.v[1])
            return self.stmt_sep()
        return {"elif": self.elif1, "param": self.param, "lvar": self.lvar, "gvar": self.gvar, "item": self.module_item}[kind]()
    def end(self):
        if self.peek() is not None: raise Mismatch("text is left over: %s" % self.toks[self.i:self.i + 3])

# ------------------------------------------------------------------ what a node denotes, and the comparison
class Judge:
    def __init__(self, E, cx, wf):
        self.E, self.cx, self.wf = E, cx, wf
        self.goals = []
        self.fs = E.w.seqfns("Statement")
    @property
    def st(self): return self.cx.st
    def goal(self, what, g): self.goals.append((what, g))
    def yes(self, c): return self.E.proves(self.st, c) if not isinstance(c, bool) else c
    def any(self, x): return self.E.from_any(x)
    def sfield(self, T, u, n): return self.wf.field(T, u, n)

    def kind_of(self, x, ts):
        """the box type of x (splits)"""
        for t in ts:
            if self.cx.cond(self.E.w.isbox(t, x)): return t
        return None
    def flags(self, T, u, d):
        f = self.wf
        if not f.has(T, "not"): return d
        if self.cx.cond(f.field(T, u, "unaryMinus")): d = ("neg", d)
        if self.cx.cond(f.field(T, u, "not")): d = ("not", d)
        return d
    def child(self, x):
        """expected expression of a child"""
        return ("den", x)
    def heap(self, T, ref): return z3.Select(z3.Const("mem0:" + T, z3.ArraySort(IntS, self.E.w.sort(T))), ref)

    def expr_of(self, x, core=False):
        """what expression x denotes, one level deep"""
        E, w, F = self.E, self.wf, self.wf.field
        if self.cx.cond(x == E.w.Any.nil): return ("absent",)
        t = self.kind_of(x, EXPR_KINDS)
        if t is None: raise Mismatch("not an expression")
        u = E.w.unbox(t, x); u = z3.simplify(u) if x.decl().name().startswith("box") else u
        if t == "float64": return ("num", u)
        if t == "string": return ("str", StrV([u]))
        if t == "bool": return ("bool", self.cx.cond(u))
        if t == "time.Time": return ("date", StrV([fmtTime(u, sconst("20060102150405"))]))
        if t == "UndefinedStatement": return ("undef",)
        if t == "*GoToLabelStatement": return ("label", StrV([F("GoToLabelStatement", self.heap("GoToLabelStatement", u), "Name")]))
        if t == "GoToStatement":
            return ("goto", StrV([F("GoToLabelStatement", self.heap("GoToLabelStatement", F(t, u, "Label")), "Name")]))
        fl = (lambda d: d) if core else (lambda d: self.flags(t, u, d))
        if t == "VarStatement": return fl(("var", StrV([F(t, u, "Name")])))
        if t == "MethodStatement": return fl(("call", StrV([F(t, u, "Name")]), self.args(F(t, u, "Param"))))
        if t == "CallChainStatement":
            return fl(("chain", self.child(F(t, u, "Call")), self.child(F(t, u, "Unit"))))
        if t == "ItemStatement": return ("index", self.child(F(t, u, "Object")), self.child(F(t, u, "Item")))
        if t == "TernaryStatement": return ("tern", self.child(F(t, u, "Expression")), self.child(F(t, u, "TrueBlock")), self.child(F(t, u, "ElseBlock")))
        if t == "NewObjectStatement": return ("new", StrV([F(t, u, "Constructor")]), self.args(F(t, u, "Param")))
        if t == "*ExpStatement":
            e = self.heap("ExpStatement", u)
            o = F("ExpStatement", e, "Operation"); op = None
            for n, s in OPNUM.items():
                if self.cx.cond(o == int(E.w.consts[n])): op = s; break
            if op is None: raise Mismatch("operation unknown")
            d = ("bin", op, self.child(F("ExpStatement", e, "Left")), self.child(F("ExpStatement", e, "Right")))
            return self.flags("ExpStatement", e, d)
        if t == "ExprStatements": return self.flags(t, u, ("group", [("seq", F(t, u, "Statements"), "arg")]))
        raise Mismatch(t)
    def args(self, p): return [("seq", self.wf.field("ExprStatements", p, "Statements"), "arg")]

    def stmts(self, q): return [("seq", q, "stmt")]
    def stmt_of(self, x):
        E, F = self.E, self.wf.field
        t = self.kind_of(x, STMT_KINDS)
        if t is None:
            if self.cx.cond(E.w.isbox("*GoToLabelStatement", x)): return self.expr_of(x)
            return ("exprstmt", self.expr_of(x))
        u = E.w.unbox(t, x)
        if t == "*IfStatement":
            n = self.heap("IfStatement", u)
            g = lambda k: F("IfStatement", n, k)
            return ("if", self.child(g("Expression")), self.stmts(g("TrueBlock")), [("seq", g("IfElseBlock"), "elif")], self.stmts(g("ElseBlock")))
        if t == "*LoopStatement":
            n = self.heap("LoopStatement", u); nil = E.w.Any.nil
            g = lambda k: F("LoopStatement", n, k)
            if self.cx.cond(g("WhileExpr") != nil): return ("while", self.child(g("WhileExpr")), self.stmts(g("Body")))
            if self.cx.cond(g("In") != nil): return ("each", StrV([E.w.unbox("string", g("For"))]), self.child(g("In")), self.stmts(g("Body")))
            return ("for", self.child(g("For")), self.child(g("To")), self.stmts(g("Body")))
        if t == "TryStatement": return ("try", self.stmts(F(t, u, "Body")), self.stmts(F(t, u, "Catch")))
        if t == "ThrowStatement": return ("throw", ("opt", F(t, u, "Param")))
        if t == "*ReturnStatement": return ("return", ("opt", F("ReturnStatement", self.heap("ReturnStatement", u), "Param")))
        if t == "AssignmentStatement": return ("assign", self.child(F(t, u, "Var")), ("den", E.w.box("ExprStatements", F(t, u, "Expr"))))
        if t == "BreakStatement": return ("break",)
        if t == "ContinueStatement": return ("continue",)
        raise Mismatch(t)
    def elem_of(self, kind, x):
        """expected meaning of an element of a list"""
        E, F = self.E, self.wf.field
        if kind == "arg": return ("opt", x)
        if kind == "stmt": return ("stmt", x)
        if kind == "elif":
            n = self.heap("IfStatement", E.w.unbox("*IfStatement", x))
            return ("elif", self.child(F("IfStatement", n, "Expression")), self.stmts(F("IfStatement", n, "TrueBlock")))
        if kind == "item":
            if self.cx.cond(E.w.isbox("*FunctionOrProcedure", x)): return ("funcnode", E.w.unbox("*FunctionOrProcedure", x))
            return ("stmt", x)
        if kind == "param":
            df = F("ParamStatement", x, "Default")
            return ("param", self.cx.cond(F("ParamStatement", x, "IsValue")), StrV([F("ParamStatement", x, "Name")]), ("opt", df))
        raise KeyError(kind)
    def func_of(self, ref):
        n = self.heap("FunctionOrProcedure", ref); g = lambda k: self.wf.field("FunctionOrProcedure", n, k)
        dr = g("Directive")
        fn = self.cx.cond(g("Type") == int(self.E.w.consts["PFTypeFunction"]))
        drv = None if self.cx.cond(dr == EMPTY) else StrV([dr])
        ex = self.cx.cond(g("Export"))
        return ("func", fn, drv, StrV([g("Name")]), [("seq", g("Params"), "param")], ex, [("keys", "map[string]VarStatement", g("ExplicitVariables"), "lvar")], self.stmts(g("Body")))

    # ---- comparison
    def strip(self, d):
        """redundant parentheses"""
        while d[0] == "group" and len(d[1]) == 1 and d[1][0][0] not in ("absent", "opt", "rep", "seq"): d = d[1][0]
        if d[0] == "group" and len(d[1]) == 1 and d[1][0][0] == "opt" and self.yes(d[1][0][1] != self.E.w.Any.nil): return ("den", d[1][0][1])
        if d[0] == "group" and len(d[1]) == 1 and d[1][0][0] == "seq":
            q = d[1][0][1]
            x = self.single(q)
            if x is not None: return ("den", x)
        if d[0] in ("opt", "den"):
            x = d[1]
            if self.yes(x == self.E.w.Any.nil): return ("absent",)
            if d[0] == "opt" and self.yes(x != self.E.w.Any.nil): d = ("den", x)
        if d[0] == "den":
            # a single expression in unsigned parentheses is that expression
            x = d[1]; u = self.unbox("ExprStatements", x)
            if u is not None and self.yes(self.wf.noflags("ExprStatements", u)):
                y = self.single(self.wf.field("ExprStatements", u, "Statements"))
                if y is not None: return self.strip(("den", y))
            v = x.decl().name()
        if d[0] == "core" and self.yes(self.wf.f["Chain"](d[1])): return ("den", d[1])
        return d
    def unbox(self, t, x):
        if self.yes(self.E.w.isbox(t, x)):
            u = self.E.w.unbox(t, x)
            return u.arg(0).arg(0) if False else z3.simplify(u) if x.decl().name().startswith("box") else u
        return None
    def single(self, q):
        """the only, non-nil element of a list of statements"""
        fs = self.fs
        if q.decl().name().startswith("unit<"):
            x = q.arg(0)
        elif self.yes(fs.len(q) == 1): x = fs.nth(q, z3.IntVal(0))
        else: return None
        return x if self.yes(x != self.E.w.Any.nil) else None

    def same(self, a, b, what=""):
        """a: read from the text, b: expected"""
        E = self.E
        if a[0] == b[0] == "den" and a[1].eq(b[1]): return
        a, b = self.strip(a), self.strip(b)
        if a[0] == "den" and b[0] == "den":
            if not self.yes(a[1] == b[1]): self.goal("the operand printed is the operand of the tree", a[1] == b[1])
            return
        if a[0] != b[0]:
            # one side is known one level deeper
            if b[0] == "den" and a[0] not in ("den", "core"): return self.same(a, self.expr_of(b[1]), what)
            if a[0] == "den" and b[0] not in ("den",): return self.same(self.expr_of(a[1]), b, what)
            if a[0] == "core" and b[0] not in ("core", "den"): return self.same(self.expr_of(a[1], True), b, what)
            if b[0] == "core" and a[0] not in ("core", "den"): return self.same(a, self.expr_of(b[1], True), what)
            if a[0] == "opt" and b[0] == "absent": return self.goal("nothing is printed for a missing expression", a[1] == E.w.Any.nil)
            if a[0] == "absent" and b[0] == "opt": return self.goal("an expression is printed when the tree has one", b[1] == E.w.Any.nil)
            if a[0] == "stmt" and b[0] not in ("stmt",): return self.same(self.stmt_of(a[1]), b, what)
            if a[0] == "neg" and a[1][0] == "num" and b[0] == "num": pass
            raise Mismatch("the text reads as %s, the tree has %s%s" % (a[0], b[0], what))
        k = a[0]
        if k in ("undef", "break", "continue", "absent"): return
        if k == "opt": return self.goal("the expression printed is that of the tree", a[1] == b[1])
        if k == "core" or k == "stmt" or k == "funcnode": return self.goal("the part printed is that of the tree", a[1] == b[1])
        if k == "num":
            if isinstance(a[1], str) or isinstance(b[1], str): raise Mismatch("a number")
            return self.goal("the number printed is that of the tree", a[1] == b[1])
        if k in ("str", "date", "var", "label", "goto", "lvar"): return self.goal("the %s printed is that of the tree" % {"str": "string", "date": "date", "var": "name"}.get(k, "name"), E.eq(self.st, a[1], b[1]))
        if k == "bool":
            if a[1] != b[1]: raise Mismatch("Истина and Ложь")
            return
        if k in ("neg", "not"): return self.same(a[1], b[1])
        if k == "bin":
            if a[1] != b[1]: raise Mismatch("operator %s is printed for %s" % (a[1], b[1]))
            self.same(a[2], b[2]); self.same(a[3], b[3]); return
        if k in ("chain", "index"): self.same(a[1], b[1]); self.same(a[2], b[2]); return
        if k == "tern":
            for i in (1, 2, 3): self.same(a[i], b[i])
            return
        if k == "call":
            if a[1] is not None: self.goal("the name of the call is that of the tree", E.eq(self.st, a[1], b[1]))
            return self.lists(a[2], b[2], "arg")
        if k == "new":
            self.goal("the class is that of the tree", E.eq(self.st, a[1], b[1]))
            return self.lists(a[2] if a[2] is not None else [], b[2], "arg")
        if k == "args": return self.lists(a[1], b[1], "arg")
        if k == "group": return self.lists(a[1], b[1], "arg", group=True)
        if k == "exprstmt": return self.same(a[1], b[1])
        if k in ("throw", "return"): return self.same(a[1], b[1])
        if k == "assign": self.same(a[1], b[1]); self.same(a[2], b[2]); return
        if k == "if":
            self.same(a[1], b[1]); self.lists(a[2], b[2], "stmt"); self.lists(a[3], b[3], "elif"); self.lists(a[4], b[4], "stmt"); return
        if k == "elif": self.same(a[1], b[1]); self.lists(a[2], b[2], "stmt"); return
        if k == "while": self.same(a[1], b[1]); self.lists(a[2], b[2], "stmt"); return
        if k == "each":
            self.goal("the variable of the loop", E.eq(self.st, a[1], b[1])); self.same(a[2], b[2]); self.lists(a[3], b[3], "stmt"); return
        if k == "for": self.same(a[1], b[1]); self.same(a[2], b[2]); self.lists(a[3], b[3], "stmt"); return
        if k == "try": self.lists(a[1], b[1], "stmt"); self.lists(a[2], b[2], "stmt"); return
        if k == "param":
            if a[1] != b[1]: raise Mismatch("the by-value mark of a parameter")
            self.goal("the name of the parameter", E.eq(self.st, a[2], b[2])); self.same(a[3], b[3]); return
        if k == "gvar":
            self.directive(a[1], b[1]); self.goal("the name of the variable", E.eq(self.st, a[2], b[2]))
            if a[3] != b[3]: raise Mismatch("the export mark of a variable")
            return
        if k == "func":
            if a[1] != b[1]: raise Mismatch("function and procedure")
            self.directive(a[2], b[2]); self.goal("the name of the method", E.eq(self.st, a[3], b[3])); self.lists(a[4], b[4], "param")
            if a[5] != b[5]: raise Mismatch("the export mark of a method")
            self.lists(a[6], b[6], "lvar"); self.lists(a[7], b[7], "stmt"); return
        if k == "list": return self.lists(a[1], b[1], "stmt")
        if k == "module": self.lists(a[1], b[1], "gvar"); self.lists(a[2], b[2], "item"); return
        raise Mismatch("comparison of " + k)
    def directive(self, a, b):
        if (a is None) != (b is None): raise Mismatch("a directive is lost or added")
        if a is not None: self.goal("the directive is that of the tree", self.E.eq(self.st, a, b))

    def lists(self, have, want, kind, group=False):
        E = self.E
        if len(want) != 1 or want[0][0] not in ("seq", "keys"): raise Mismatch("list")
        w = want[0]
        if w[0] == "keys": return self.keys(have, w, kind)
        q = w[1]
        f = E.w.seqfns("ParamStatement" if kind == "param" else "Statement")
        if len(have) == 1 and have[0][0] == "seq":
            h = have[0][1]
            if h.eq(q): return
            return self.goal("the list printed is that of the tree", z3.Or(h == q, z3.And(f.len(h) == 0, f.len(q) == 0)))
        if len(have) == 1 and have[0][0] == "rep": return self.rep(have[0][1], kind, f.len(q), lambda j: f.nth(q, j))
        if any(h[0] in ("rep", "seq") for h in have): raise Mismatch("a list printed in several pieces")
        if not have or kind == "arg" and len(have) == 1 and have[0][0] == "absent":
            n = z3.Or(f.len(q) == 0, z3.And(f.len(q) == 1, f.nth(q, z3.IntVal(0)) == E.w.Any.nil)) if kind == "arg" else f.len(q) == 0
            return self.goal("nothing is printed for an empty list", n)
        parts = E.seqparts(q, "Statement") if kind != "param" else ()
        if parts and all(p[0] == "u" for p in parts) and len(parts) == len(have):
            for h, p in zip(have, parts): self.elem(h, kind, E.to_term(p[1], "Statement"))
            return
        self.goal("the list has as many elements as are printed", f.len(q) == len(have))
        for k, h in enumerate(have): self.elem(h, kind, f.nth(q, z3.IntVal(k)))
    def elem(self, h, kind, x):
        e = self.elem_of(kind, x)
        if e[0] == "stmt" and h[0] != "stmt": e = self.stmt_of(x)
        if e[0] == "funcnode" and h[0] == "func": e = self.func_of(e[1])
        self.same(h, e)
    def keys(self, have, w, kind):
        """a declaration for every key of a map, in the order of the keys"""
        E = self.E; T = w[1]; O = E.optsort(T)
        c = E.map_content(self.st, MapV(w[2], T))
        ks = z3.Function("sortedKeys:" + T, c.sort(), E.w.seqsort("string"))(c)
        f = E.w.seqfns("string"); n = z3.Function("maplen:" + T, c.sort(), IntS)(c)
        def el(j):
            key = f.nth(ks, j)
            if kind == "lvar": return ("lvar", StrV([key]))
            v = O.val(z3.Select(c, key)); g = lambda m: self.wf.field(T[len("map[string]"):], v, m)
            return v
        if not have: return self.goal("nothing is printed for an empty map", n == 0)
        if len(have) == 1 and have[0][0] == "rep": return self.rep(have[0][1], kind, n, el)
        raise Mismatch("the variables are not printed one by one in the order of their names")
    def gvar_of(self, v):
        F = self.wf.field
        dr = F("GlobalVariables", v, "Directive")
        return ("gvar", None if self.cx.cond(dr == EMPTY) else StrV([dr]), StrV([F("VarStatement", F("GlobalVariables", v, "Var"), "Name")]), self.cx.cond(F("GlobalVariables", v, "Export")))
    def rep(self, r, kind, n, nth):
        """the loop runs over the whole list in order, printing element number j in iteration number j"""
        E = self.E
        self.goal("every element of the list is printed, once", r.count == n)
        for s, toks in r.cases:
            x = nth(r.fold.j)
            base = s.copy(); base.assume(z3.And(r.fold.j >= 0, r.fold.j < n))
            if not E.feasible(base): continue
            def run(cx):
                sub = Judge(E, cx, self.wf); R = Reader(E, cx, self.wf)
                try:
                    p = Parser(R, toks); h = p.one(kind); p.end()
                    if kind == "lvar": sub.same(h, x)
                    elif kind == "gvar": sub.same(h, sub.gvar_of(x))
                    else: sub.elem(h, kind, x)
                except Mismatch as e: sub.goals.append((str(e), False))
                return sub.goals
            for st2, goals in explore(E, base, run):
                for what, g in goals:
                    E.obl(st2, "post", "in an iteration: " + what, g)
