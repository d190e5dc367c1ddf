"""Contracts of the printing functions (see printer.py and reader.py)."""
import z3
from sx import *
from base import *
from printer import *
from reader import *
import reader

PROPS = ("C13", "C14", "C15")

# ------------------------------------------------------------------ a measure for the recursion
def rank_f(E): return z3.Function("rank", E.w.Any, IntS)
def rseq_f(E, k="Statement"): return z3.Function("rseq<%s>" % E.w.elemkey(k), E.w.seqsort(k), IntS)
def rank_unfolders(E, wf):
    """trees are finite: a part has a smaller rank than the whole"""
    w = E.w; rank, rq, rp = rank_f(E), rseq_f(E), rseq_f(E, "ParamStatement")
    def rk(t):
        """(guard, rank) of the whole that the struct term / list t was taken from"""
        if not z3.is_app(t): return []
        d = t.decl(); n = d.name()
        if t.sort() == w.Any: return [(z3.BoolVal(True), rank(t))]
        if t.sort() == w.seqsort("Statement"): return [(z3.BoolVal(True), rq(t))]
        if t.sort() == w.seqsort("ParamStatement"): return [(z3.BoolVal(True), rp(t))]
        if t.num_args() == 0: return []
        if n.startswith("unbox"):
            k = int(n[5:]); return [(w.isbox(w.boxes[k], t.arg(0)), rank(t.arg(0)))]
        if d.kind() == z3.Z3_OP_SELECT and t.arg(0).decl().name().startswith("mem0:"):
            T = t.arg(0).decl().name()[5:]
            if "*" + T not in w.boxidx: return []
            r = t.arg(1)
            if z3.is_app(r) and r.decl().name().startswith("unbox") and r.num_args() == 1: return [(z3.And(w.isbox("*" + T, r.arg(0)), r.decl().eq(w.unbox("*" + T, r.arg(0)).decl())), rank(r.arg(0)))]
            return [(t.arg(1) > 0, rank(w.box("*" + T, t.arg(1))))]
        if n.startswith("nth<"): return rk_seq(t)
        if d.kind() == z3.Z3_OP_DT_ACCESSOR: return rk(t.arg(0))
        return []
    def rk_seq(t):
        s, k = t.arg(0), t.arg(1)
        f = z3.Function("len<%s>" % t.decl().name()[4:-1], s.sort(), IntS)
        return [(z3.And(g, k >= 0, k < f(s)), r) for g, r in rk(s)] if s.sort() in (w.seqsort("Statement"), w.seqsort("ParamStatement")) else []
    def un(a):
        x = a.arg(0); out = [a >= 0]
        if not z3.is_app(x): return out
        d = x.decl(); n = d.name()
        if d.kind() == z3.Z3_OP_DT_ACCESSOR and not n.startswith("unbox"):
            for g, r in rk(x.arg(0)): out.append(z3.Implies(g, a < r))
        elif n.startswith("nth<"):
            for g, r in rk_seq(x): out.append(z3.Implies(g, a < r))
        elif n.startswith("unit<"): out.append(a == rank(x.arg(0)) + 1)
        elif n.startswith("cat<"):
            f = a.decl(); out.append(a == z3.If(f(x.arg(0)) >= f(x.arg(1)), f(x.arg(0)), f(x.arg(1))))
        elif n.startswith("box") and x.num_args() == 1 and z3.is_app(x.arg(0)) and x.arg(0).sort() in w.DT.values():
            u = x.arg(0)
            if u.decl().kind() == z3.Z3_OP_DT_ACCESSOR and not u.decl().name().startswith("unbox"):
                for g, r in rk(u.arg(0)): out.append(z3.Implies(g, a < r))
        return out
    return {"rank": un, rq.name(): un, rp.name(): un}

def measure(E, wf, kind, x, level=None):
    r = rank_f(E)
    isexp = wf.kinds(["*ExpStatement", "ExprStatements"], x) if kind in ("expr", "var") else None
    if kind == "expr": return 4 * r(x) + z3.If(isexp, 1, 2)
    if kind == "var": return 4 * r(x) + z3.If(isexp, 2, 1)
    if kind == "chain": return 4 * r(x) + z3.If(wf.isb("CallChainStatement", x), 0, 2)
    if kind == "iseq": return 4 * r(x)
    if kind == "item": return 4 * r(x) + 3
    if kind in ("params", "body"): return 4 * rseq_f(E)(x)
    raise KeyError(kind)

# ------------------------------------------------------------------ common parts
class PC(Contract):
    props = PROPS; safety = ("C19",)
    loops = None
    def wf(self, E): return E.wf
    def recv(self, E, st):
        p = PtrV("ref", z3.Int("in:p"), "astPrint"); E.bound(st, p.base); st.assume(z3.And(p.base > 0, p.base <= BASE))
        conf = E.load(st, PtrV("ref", p.base, "astPrint", (fidx(E, "astPrint", "conf"),)))
        E.conf0 = conf
        m = iz(E.getf(conf, fidx(E, "PrintConf", "Margin")))
        st.assume(m >= 0)
        E.env_p = {"p": p, "margin": m}
        return p
    def own_conf(self, E, st, p):
        c = E.load(st, PtrV("ref", p.base, "astPrint", (fidx(E, "astPrint", "conf"),)))
        E.obl(st, "precondition", "parts are printed with the options of the whole", E.eq(st, c, E.conf0), props=("C15",))
    def pre(self, E, st, what, g, props=("C13", "C14", "C19")):
        E.obl(st, "precondition", what, g, props=props)
    def smaller(self, E, st, kind, x):
        mine = E.env_p.get("measure")
        if mine is None: return
        E.obl(st, "variant", "the recursion of printing ends (the part printed is smaller)", z3.And(measure(E, E.wf, kind, x) >= 0, measure(E, E.wf, kind, x) < mine), props=("C19",))
    def any(self, E, name="in:x"):
        return z3.Const(name, E.w.Any)
    def result(self, st): return st.result[0]

    # ---- judging a printed text
    def judge(self, E, st, text, read, want, extra=None, props=("C13",)):
        def run(cx):
            j = Judge(E, cx, E.wf)
            try:
                R = Reader(E, cx, E.wf)
                toks = R.tokens(text)
                p = Parser(R, toks)
                d, top = read(p); p.end()
                w_ = want(j)
                if w_ is not None: j.same(d, w_)
                if extra is not None: extra(j, p, d, top, toks)
            except Mismatch as e:
                j.goals.append((str(e), False))
            except NeedSplit as e:
                j.goals.append(("undecided case %s" % e, False))
            return j.goals
        for s, goals in explore(E, st, run):
            seen = set()
            for what, g in goals:
                E.obl(s, "post", what, g, props=props)
            if not goals: E.obl(s, "post", "the text printed reads as the tree printed", True, props=props)

    # ---- layout
    def layout(self, E, st, depth):
        """blanks of the margin stand at line starts and count margin * depth; the order of a map is not seen; nothing of the tree is written"""
        text = self.result(st)
        margin = E.env_p["margin"]
        # where line breaks are left out there are no lines to speak of
        self.oneline = E.conf0 is not None and E.proves(st, bz(E.getf(E.conf0, fidx(E, "PrintConf", "OneLine"))))
        self.atoms(E, st, text, depth, margin, frozenset("B"))
    deep = None         # words whose line is one level deeper than the text (None: every line has the margin of the text)
    def starts_line(self, E, st, word, lines, depth):
        """a word begins; where it may be the first of its line, the margin stands before it"""
        if depth is None or self.oneline or lines == {"T"}: return
        if self.deep is None: E.obl(st, "post", "a line begins with the margin of its statement", "B" not in lines, props=("C15",))
        elif word is not None and word.strip().startswith(self.deep): E.obl(st, "post", "a declaration inside a method begins with the margin of the method's block", "B" not in lines, props=("C15",))
    def atoms(self, E, st, text, depth, margin, lines):
        """lines: where the text may be: at the begin of a line (B), after a margin (M), inside a line (T)"""
        B, M, T = frozenset("B"), frozenset("M"), frozenset("T")
        for a in text.at:
            if isinstance(a, bytes):
                if a.strip(b" ") == b"": continue
                if not a.startswith(b"\n"): self.starts_line(E, st, a.decode("utf8", "replace"), lines, depth)
                k = a.rstrip(b" ")
                if a.startswith(b"\n") and a.strip(b" \n") or b"\n" in a.strip(b" \n"):
                    for l in a.strip(b" \n").split(b"\n")[0 if a.startswith(b"\n") else 1:]: self.starts_line(E, st, l.decode("utf8", "replace"), B, depth)
                lines = B if a.endswith(b"\n") else T
                continue
            n = a.decl().name()
            if n == "pr:nl": lines = B; continue
            if n == "repeat":
                c = const_bytes(a.arg(0))
                if c == b" ":
                    E.obl(st, "post", "the blanks at a line start count margin times depth", depth is not None and a.arg(1) == margin * iz(depth), props=("C15",))
                    E.obl(st, "post", "the margin stands at the start of a line", lines == B or self.oneline, props=("C15",))
                    lines = M
                elif c == b"\n":
                    lines = B
                else: E.obl(st, "post", "only blanks are repeated", False, props=("C15",))
                continue
            if n == "pr:body":
                E.obl(st, "post", "a block is one level deeper than what holds it", self.inner(E, depth) is not None and a.arg(1) == self.inner(E, depth), props=("C15",)); lines = B; continue
            if n == "pr:item":
                E.obl(st, "post", "statements of a block stand at its depth", depth is not None and a.arg(1) == iz(depth), props=("C15",)); lines = T; continue
            if n.startswith("fold:"):
                F = E.fold(a); todo = [lines]; seen = set(); out = set(lines)
                while todo:
                    l = todo.pop()
                    if l in seen: continue
                    seen.add(l); out |= l
                    for s, ds in F.cases:
                        d = ds.get(F.acc(a))
                        if isinstance(d, SeqV): d = d.parts[0][1] if d.parts and d.parts[0][0] == "u" else S()
                        if d is None: continue
                        s2 = s.copy()
                        for f in st.pc: s2.assume(f)
                        if E.feasible(s2): todo.append(self.atoms(E, s2, d, depth, margin, l))
                lines = frozenset(out)
                continue
            if n == "join":
                q = a.arg(0)
                if q.decl().name().startswith("fold:"):
                    F = E.fold(q)
                    for s, ds in F.cases:
                        d = ds.get(F.acc(q))
                        if isinstance(d, SeqV) and d.parts and d.parts[0][0] == "u": self.atoms(E, s, d.parts[0][1], None, margin, T)
                lines = T; continue
            if "mapkey:" in a.sexpr() and n.startswith("mapkey:"):
                E.obl(st, "post", "the order in which a map is walked is not seen in the text", False, props=("C15",))
            if not n.startswith("pr:func"): self.starts_line(E, st, None, lines, depth)
            lines = T
        return lines
    def inner(self, E, depth): return iz(depth) + 1 if depth is not None else None
    def post_all(self, E, finals, env):
        """paths chosen by the options print the same words"""
        if E.conf0 is None or not finals: return
        conf = E.to_term(E.conf0, "PrintConf")
        ok = self.same_words(E, [(s.pc, self.result(s)) for s in finals], conf)
        for F in E.folds_meta.values():
            accs = {n for s, ds in F.cases for n in ds}
            for n in accs:
                cs = []
                for s, ds in F.cases:
                    d = ds.get(n)
                    if isinstance(d, SeqV): d = d.parts[0][1] if d.parts and d.parts[0][0] == "u" and isinstance(d.parts[0][1], StrV) else None
                    if isinstance(d, StrV): cs.append((s.pc, d))
                ok = self.same_words(E, cs, conf) and ok
        E.folds_meta.clear()
        E.obl(finals[0], "post", "the same words are printed under all options", ok, props=("C15",))
    def same_words(self, E, cases, conf):
        cache = {}
        def mentions(f):
            r = cache.get(f.get_id())
            if r is None:
                stack = [f]; seen = set(); r = False
                while stack and not r:
                    x = stack.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id())
                    if x.eq(conf): r = True
                    if z3.is_app(x) and x.decl().name() in ("repeat", "strlen", "scat"): continue
                    stack.extend(x.children())
                cache[f.get_id()] = r
            return r
        ids = [{f.get_id() for f in pc} for pc, _ in cases]
        allids = set().union(*ids) if ids else set()
        keep = {}
        def decision(f):
            """a condition on the options that splits paths"""
            i = f.get_id()
            if i not in keep:
                n = f.arg(0) if z3.is_not(f) else z3.Not(f)
                keep[i] = mentions(f) and (n.get_id() in allids or z3.simplify(n).get_id() in allids)
            return keep[i]
        def words(t):
            out = []
            for a in t.at:
                if isinstance(a, bytes): out += a.split()
                elif a.decl().name() == "repeat" or a.decl().name() == "pr:nl": continue
                else: out.append(a.sexpr())
            return out
        sp = []
        for pc, t in cases:
            rest = [f for f in pc if not decision(f)]
            if len(rest) < len(pc): sp.append((rest, words(t)))
        for i, (pc, ws) in enumerate(sp):
            for pc2, ws2 in sp[i + 1:]:
                if ws == ws2: continue
                z = State(E.w)
                for f in pc + pc2: z.assume(f)
                if E.check(z, [], timeout=3000, fuel=4) != z3.unsat: return False
        return True

# ------------------------------------------------------------------ expressions
def top_posts(E, j, p, d, top, toks, x, text, tight, kind):
    """what callers rely on about the text of an expression (see reader.Parser.text)"""
    cx = j.cx; wf = E.wf; R = p.R
    alone = len(toks) == 1 and toks[0].k == "T" and toks[0].v[0] in ("expr", "var", "chain")
    if alone:
        y = toks[0].v[1]
        for c in ("Ident", "Chain", "LoopIn"): j.goal("the text of a name, member access or what a loop runs over reads as such", z3.Implies(wf.f[c](x), wf.f[c](y)))
        j.goal("a literal reads as a literal", z3.Implies(wf.kinds(LITERALS, x), wf.kinds(LITERALS, y)))
    elif R.yes(wf.f["Ident"](x)):
        j.goal("the text of a name, call or index reads as one name", top.kind == "atom" and top.cls == "ident")
    elif R.yes(wf.f["Chain"](x)):
        j.goal("the text of a member access reads as one", top.kind == "atom" and top.cls in ("ident", "chain"))
    if not alone and R.yes(wf.f["LoopIn"](x)):
        j.goal("what a loop runs over reads as such", top.kind == "atom" and top.cls in ("ident", "chain", "new", "tern") or top.cls == "loop")
    if not alone and R.yes(wf.kinds(LITERALS, x)):
        j.goal("a literal reads as a literal", top.cls == "literal")
    if tight:
        neg = bool(text.at) and isinstance(text.at[0], bytes) and text.at[0].startswith("Не ".encode())
        same = alone and top.kind == "text" and top.prec >= 3 and len(text.at) == 1
        j.goal("an operand is closed or starts with a negation", top.kind != "bin" and (top.prec >= 7 or neg or same))
    else:
        if top.kind == "text" and top.prec == 0:
            j.goal("text that may read as an assignment is known as such", z3.Implies(isEq_f(E)(top.T[1]), isEq_f(E)(x)))
        elif top.eqfirst:
            j.goal("text that may read as an assignment is known as such", isEq_f(E)(x))

class ExprC(PC):
    """text printed for an expression"""
    name = FN["expr"]; kind = "expr"; props = PROPS
    PARTS = ((0, "nil"), (0, "*ExpStatement"), (0, "ExprStatements"), (0, "other"), (1, "*ExpStatement"), (1, "ExprStatements"), (1, "other"))
    def __init__(self, part=None): self.part = part
    def setups(self, E):
        for lv, kind in [(0, "nil")] + [(l, k) for l in (0, 1) for k in ("*ExpStatement", "ExprStatements", "other")]:
            if self.part is not None and self.part != (lv, kind): continue
            st = State(E.w); p = self.recv(E, st)
            x = self.any(E)
            level = z3.Int("in:level")
            st.assume(level == 0 if lv == 0 else level >= 1)
            nil = kind == "nil"
            if nil: st.assume(x == E.w.Any.nil)
            else:
                st.assume(E.wf.f["Expr"](x))
                for k in ("*ExpStatement", "ExprStatements"):
                    if k == kind: st.assume(E.w.isbox(k, x))
                    elif kind == "other": st.assume(z3.Not(E.w.isbox(k, x)))
            E.env_p["measure"] = measure(E, E.wf, "expr", x)
            yield st, [p, AnyV(tm=x), 0 if lv == 0 else level], {"x": x, "lv": lv, "nil": nil}
    def use(self, E, st, args):
        p, v, level = args
        x = E.to_term(v, None, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as an expression is one, or nothing", E.wf.opt(x))
        self.pre(E, st, "the level is not negative", iz(level) >= 0)
        self.smaller(E, st, "expr", x)
        level = 0 if E.decide(st, iz(level) == 0) is True else level
        t = pf(E, "expr")(x, iz(level))
        st.assume((t == EMPTY) == (x == E.w.Any.nil)); st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        text = self.result(st); x = env["x"]
        self.layout(E, st, None)
        if env["nil"]: E.obl(st, "post", "nothing is printed for nothing", E.eq(st, text, S()), props=("C13",)); return
        def extra(j, p, d, top, toks):
            top_posts(E, j, p, d, top, toks, x, text, env["lv"] == 1 or p.R.no(E.wf.kinds(["*ExpStatement", "ExprStatements"], x)), "expr")
        self.judge(E, st, text, lambda p: p.expr(), lambda j: j.expr_of(x), extra)

class VarC(ExprC):
    name = FN["var"]; kind = "var"
    def setups(self, E):
        for nil in (0, 1, 2):
            st = State(E.w); p = self.recv(E, st); x = self.any(E)
            if nil == 1: st.assume(x == E.w.Any.nil)
            elif nil == 2: st.assume(z3.And(E.wf.f["Stmt"](x), E.w.isbox("AssignmentStatement", x)))
            else: st.assume(E.wf.f["Expr"](x))
            E.env_p["measure"] = measure(E, E.wf, "var", x)
            yield st, [p, AnyV(tm=x)], {"x": x, "lv": 0, "nil": nil}
    def use(self, E, st, args):
        p, v = args
        x = E.to_term(v, None, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as a value is an expression, an assignment or nothing", z3.Or(E.wf.opt(x), z3.And(E.wf.f["Stmt"](x), E.w.isbox("AssignmentStatement", x))))
        self.smaller(E, st, "var", x)
        t = pf(E, "var")(x)
        st.assume((t == EMPTY) == (x == E.w.Any.nil)); st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        if env["nil"] != 2: return super().post(E, st, env)
        self.layout(E, st, None)
        text = self.result(st); x = env["x"]
        self.judge(E, st, text, lambda p: (p.stmt(), None), lambda j: j.stmt_of(x), None, props=("C13", "C14"))

class ChainC(PC):
    name = FN["chain"]; kind = "chain"
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st); x = self.any(E)
        st.assume(z3.Or(E.wf.f["Chain"](x), z3.And(E.wf.f["Expr"](x), E.w.isbox("CallChainStatement", x))))
        E.env_p["measure"] = measure(E, E.wf, "chain", x)
        return st, [p, AnyV(tm=x)], {"x": x}
    def use(self, E, st, args):
        p, v = args
        x = E.to_term(v, None, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as a member access is one", z3.Or(E.wf.f["Chain"](x), z3.And(E.wf.f["Expr"](x), E.w.isbox("CallChainStatement", x))))
        self.smaller(E, st, "chain", x)
        t = pf(E, "chain")(x)
        st.assume(t != EMPTY); st.assume(strlen(t) > 0)
        return StrV([t])
    def post(self, E, st, env):
        x = env["x"]; text = self.result(st)
        self.layout(E, st, None)
        def extra(j, p, d, top, toks):
            j.goal("a member access reads as one", top.kind == "atom" and top.cls in ("ident", "chain"))
            if p.R.yes(E.wf.f["Ident"](x)): j.goal("a name reads as a name", top.cls == "ident")
        self.judge(E, st, text, lambda p: p.expr(), lambda j: j.expr_of(x, True), extra)

class ParamsC(PC):
    name = FN["params"]; kind = "params"
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st)
        q = z3.Const("in:q", E.w.seqsort("Statement"))
        s = E.from_term(q, "Statements"); E.seq_len(s, st)
        st.assume(E.wf.s["Args"](q))
        E.env_p["measure"] = measure(E, E.wf, "params", q)
        return st, [p, s], {"q": q}
    def use(self, E, st, args):
        p, v = args
        v = E.freeze(v, st) if isinstance(v, ArrSlice) else v
        q = E.seq_term(v, st); E.seq_len(v, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as arguments are expressions or nothing", E.wf.s["Args"](q))
        self.smaller(E, st, "params", q)
        t = pf(E, "params")(q)
        st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        self.layout(E, st, None)
        q = env["q"]
        self.judge(E, st, self.result(st), lambda p: (("args", p.pieces(None)), None), lambda j: ("args", [("seq", q, "arg")]))

class IsEqC(PC):
    name = ISCMP; kind = "iseq"
    def setup(self, E):
        st = State(E.w); x = self.any(E)
        E.env_p = {"margin": z3.IntVal(0), "measure": measure(E, E.wf, "iseq", x)}
        st.assume(z3.Or(E.wf.opt(x), E.wf.f["Stmt"](x)))
        return st, [AnyV(tm=x)], {"x": x}
    def use(self, E, st, args):
        x = E.to_term(args[0], None, st)
        self.pre(E, st, "what is asked about is a statement or nothing", z3.Or(E.wf.opt(x), E.wf.f["Stmt"](x)), props=("C13", "C19"))
        if "measure" in E.env_p and E.cur == self.name: self.smaller(E, st, "iseq", x)
        return isEq_f(E)(x)
    def post(self, E, st, env):
        E.obl(st, "post", "it tells whether the text would read as an assignment", bz(self.result(st)) == isEq_f(E)(env["x"]), props=("C13", "C14"))
        frame_check(E, st, [], props=("C15", "C17"))

class NlC(PC):
    name = FN["nl"]; kind = "nl"
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st); n = z3.Int("in:count"); st.assume(n >= 0)
        return st, [p, n], {"n": n}
    def use(self, E, st, args):
        p, n = args
        self.own_conf(E, st, p)
        self.pre(E, st, "the number of line breaks is not negative", iz(n) >= 0, props=("C19",))
        t = pf(E, "nl")(iz(n)); st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        text = self.result(st)
        ok = all((a.strip(b"\n") == b"") if isinstance(a, bytes) else a.decl().name() == "repeat" and const_bytes(a.arg(0)) == b"\n" for a in text.at)
        E.obl(st, "post", "a line break consists of line breaks only", ok, props=("C14", "C15"))
        one = E.getf(E.conf0, fidx(E, "PrintConf", "OneLine"))
        E.obl(st, "post", "printing on one line there are none", z3.Implies(bz(one), z3.BoolVal(not text.at)), props=("C15",))
        frame_check(E, st, [], props=("C15", "C17"))

# ------------------------------------------------------------------ statements
class BodyC(PC):
    name = FN["body"]; kind = "body"; props = ("C14", "C15")
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st)
        q = z3.Const("in:q", E.w.seqsort("Statement")); s = E.from_term(q, "Statements"); E.seq_len(s, st)
        depth = z3.Int("in:depth"); st.assume(depth >= 0)
        st.assume(E.wf.s["Stmts"](q))
        E.env_p["measure"] = measure(E, E.wf, "body", q)
        return st, [p, s, depth], {"q": q, "depth": depth}
    def use(self, E, st, args):
        p, v, depth = args
        v = E.freeze(v, st) if isinstance(v, ArrSlice) else v
        q = E.seq_term(v, st); E.seq_len(v, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as a block are statements", E.wf.s["Stmts"](q), props=("C14", "C19"))
        self.pre(E, st, "the depth is not negative", iz(depth) >= 0, props=("C14", "C19"))
        self.smaller(E, st, "body", q)
        t = pf(E, "body")(q, norm(iz(depth))); st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        self.layout(E, st, env["depth"])
        text = self.result(st)
        def ends(at):
            if not at: return False
            a = at[-1]
            if isinstance(a, bytes): return a.endswith(b"\n")
            n = a.decl().name()
            if n == "pr:nl": return True
            if not n.startswith("fold:"): return False
            # what the iterations of a loop leave: each of them ends with a line break, and so does the text before it
            F = E.fold(a)
            return ends(at[:-1]) and all(ends(F.delta(k, a).at) for k in range(len(F.cases)))
        nl = ends(text.at)
        E.obl(st, "post", "a block ends its last line", nl or self.oneline, props=("C15",))
        self.judge(E, st, text, lambda p: (("list", p.stmts()), None), lambda j: ("list", [("seq", env["q"], "stmt")]), props=("C14",))

class ItemC(PC):
    name = FN["item"]; kind = "item"; props = ("C14", "C15")
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st); x = self.any(E)
        depth = z3.Int("in:depth"); st.assume(depth >= 0)
        st.assume(E.wf.f["Stmt"](x))
        E.env_p["measure"] = measure(E, E.wf, "item", x)
        return st, [p, AnyV(tm=x), depth], {"x": x, "depth": depth}
    def use(self, E, st, args):
        p, v, depth = args
        x = E.to_term(v, None, st)
        self.own_conf(E, st, p)
        self.pre(E, st, "what is printed as a statement is one", E.wf.f["Stmt"](x), props=("C14", "C19"))
        self.pre(E, st, "the depth is not negative", iz(depth) >= 0, props=("C14", "C19"))
        self.smaller(E, st, "item", x)
        t = pf(E, "item")(x, norm(iz(depth))); st.assume(strlen(t) > 0)
        return StrV([t])
    def post(self, E, st, env):
        self.layout(E, st, env["depth"])
        x = env["x"]; text = self.result(st)
        one = bool(text.at) and (not isinstance(text.at[0], bytes) and text.at[0].decl().name() == "repeat")
        E.obl(st, "post", "a statement starts with its margin", one, props=("C15",))
        self.judge(E, st, text, lambda p: (p.stmt_sep(), None), lambda j: j.stmt_of(x), props=("C14", "C13"))

class FuncC(PC):
    name = FN["func"]; kind = "func"; props = ("C14", "C15")
    deep = "Перем"
    def inner(self, E, depth): return z3.IntVal(1)
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st)
        f = PtrV("ref", z3.Int("in:f"), "FunctionOrProcedure"); E.bound(st, f.base); st.assume(z3.And(f.base > 0, f.base <= BASE))
        st.assume(E.wf.node["FunctionOrProcedure"](f.base))
        return st, [p, f], {"f": f}
    def use(self, E, st, args):
        p, f = args
        self.own_conf(E, st, p)
        self.pre(E, st, "the method printed is one the parser built", z3.And(iz(f.base) > 0, E.wf.node["FunctionOrProcedure"](iz(f.base))), props=("C14", "C19"))
        t = pf(E, "func")(iz(f.base)); st.assume(strlen(t) > 0)
        return StrV([t])
    def post(self, E, st, env):
        self.layout(E, st, z3.IntVal(1))
        self.judge(E, st, self.result(st), lambda p: (p.function(), None), lambda j: j.func_of(env["f"].base), props=("C14",))

class ModuleC(PC):
    name = FN["module"]; kind = "module"; props = ("C14", "C15")
    deep = "\0"
    def setup(self, E):
        st = State(E.w); p = self.recv(E, st)
        a = E.load(st, PtrV("ref", p.base, "astPrint", (fidx(E, "astPrint", "ast"),)))
        st.assume(iz(a.base) > 0)
        m = fidx(E, "AstNode", "ModuleStatement")
        ld = lambda n: E.load(st, PtrV("ref", a.base, "AstNode", (m, fidx(E, "ModuleStatement", n))))
        body = E.seq_term(ld("Body"), st); E.seq_len(ld("Body"), st)
        gv = ld("GlobalVariables")
        st.assume(E.wf.s["Items"](body))
        return st, [p], {"body": body, "gv": gv}
    def use(self, E, st, args):
        p = args[0]
        self.own_conf(E, st, p)
        a = E.load(st, PtrV("ref", p.base, "astPrint", (fidx(E, "astPrint", "ast"),)))
        self.pre(E, st, "there is a module to print", iz(a.base) > 0, props=("C19", "C14"))
        m = fidx(E, "AstNode", "ModuleStatement")
        body = E.seq_term(E.load(st, PtrV("ref", a.base, "AstNode", (m, fidx(E, "ModuleStatement", "Body")))), st)
        self.pre(E, st, "the module printed is one the parser built", E.wf.s["Items"](body), props=("C14", "C19"))
        t = z3.Function("pr:module", IntS, Str)(iz(a.base)); st.assume(strlen(t) >= 0)
        return StrV([t])
    def post(self, E, st, env):
        self.layout(E, st, z3.IntVal(0))
        self.judge(E, st, self.result(st), lambda p: (p.module(), None), lambda j: ("module", [("keys", "map[string]GlobalVariables", iz(env["gv"].ref), "gvar")], [("seq", env["body"], "item")]), props=("C14",))

# ------------------------------------------------------------------ entry points
class PrintC(PC):
    name = "(*AstNode).Print"; props = ("C14", "C15")
    def setups(self, E):
        for nil in (0, 1):
            st = State(E.w)
            a = PtrV("ref", z3.Int("in:ast"), "AstNode"); E.bound(st, a.base)
            st.assume(a.base == 0 if nil else z3.And(a.base > 0, a.base <= BASE))
            conf = E.from_term(z3.Const("in:conf", E.w.sort("PrintConf")), "PrintConf"); E.conf0 = conf
            m = iz(E.getf(conf, fidx(E, "PrintConf", "Margin"))); st.assume(m >= 0)
            E.env_p = {"margin": m}
            if not nil:
                body = E.load(st, PtrV("ref", a.base, "AstNode", (fidx(E, "AstNode", "ModuleStatement"), fidx(E, "ModuleStatement", "Body"))))
                E.seq_len(body, st); st.assume(E.wf.s["Items"](E.seq_term(body, st)))
            if nil: a = PtrV("nil", None, "AstNode") if False else a
            yield st, [a, conf], {"a": a, "nil": nil}
    def post(self, E, st, env):
        text = self.result(st)
        if env["nil"]: E.obl(st, "post", "nothing is printed for nothing", E.eq(st, text, S()), props=("C14",))
        else: E.obl(st, "post", "the module is printed", E.eq(st, text, StrV([z3.Function("pr:module", IntS, Str)(iz(env["a"].base))])), props=("C14", "C15"))
        frame_check(E, st, [], props=("C15", "C17"))

class PrintStC(PC):
    name = "(*AstNode).PrintStatementWithConf"; props = ("C14", "C15"); withconf = True
    def setups(self, E):
        for nil in (0, 1):
            st = State(E.w)
            a = PtrV("ref", z3.Int("in:ast"), "AstNode"); E.bound(st, a.base); st.assume(a.base <= BASE)
            x = self.any(E)
            st.assume(x == E.w.Any.nil if nil else E.wf.f["Stmt"](x))
            args = [a, AnyV(tm=x)]
            if self.withconf:
                conf = E.from_term(z3.Const("in:conf", E.w.sort("PrintConf")), "PrintConf"); E.conf0 = conf
                m = iz(E.getf(conf, fidx(E, "PrintConf", "Margin"))); st.assume(m >= 0)
                args.append(conf)
            else:
                conf = E.setf(E.zero("PrintConf"), (fidx(E, "PrintConf", "Margin"),), 4); E.conf0 = conf
                m = z3.IntVal(4)
            E.env_p = {"margin": m}
            yield st, args, {"x": x, "nil": nil}
    def post(self, E, st, env):
        text = self.result(st)
        if env["nil"]: E.obl(st, "post", "nothing is printed for nothing", E.eq(st, text, S()), props=("C14",))
        else: E.obl(st, "post", "the statement is printed", E.eq(st, text, StrV([pf(E, "item")(env["x"], z3.IntVal(0))])), props=("C14", "C15"))
        frame_check(E, st, [], props=("C15", "C17"))

class PrintSt0C(PrintStC):
    name = "(*AstNode).PrintStatement"; withconf = False

def print_contracts():
    return [ExprC(), VarC(), ChainC(), ParamsC(), IsEqC(), NlC(), BodyC(), ItemC(), FuncC(), ModuleC(), PrintC(), PrintStC(), PrintSt0C()]

def make_engine(w):
    E = PrintEngine(w); E.env = {}
    E.wf = WF(E)
    import lex
    E.unfolders = lex.low_unfolders(E)
    E.unfolders.update(E.wf.unfolders())
    E.unfolders.update(rank_unfolders(E, E.wf))
    E.lazy = {n for n in E.unfolders if n.startswith("wf:") or n.startswith("wfNode:") or n == "isEq"}
    run_init(E)
    E.contracts = {c.name: c for c in print_contracts() if c.name in w.funcs and "use" in dir(c)}
    E.env_p = {}
    return E

def prove_print(E, con):
    obl = prove(E, con)[0]
    return obl
