"""The printer: folds for its loops, a reader of printed text (mini-lexer and recursive descent over the published grammar) and
the contracts of the printing functions.

A printing function is executed symbolically; its result is a list of atoms - constant bytes, texts of names and literals, texts
of sub-trees (opaque, produced by contract) and folds (the text a loop builds).  The judge lexes and parses that list by the
published grammar and compares the tree read with the node printed, one level deep; sub-trees are compared by identity."""
import z3
from sx import *
from base import *
import sx, lex, decl

P = "(*astPrint)."
FN = {k: P + v for k, v in dict(expr="printExpression", var="printVarStatement", chain="printCallChainStatement", params="printParams", body="printBody",
    item="printBodyItem", func="printFunctionOrProcedure", nl="newLine", module="print").items()}
ISCMP = "isComparison"

# ------------------------------------------------------------------ opaque texts
def pf(E, kind):
    A = E.w.Any; Sq = E.w.seqsort("Statement")
    return {"expr": lambda: z3.Function("pr:expr", A, IntS, Str), "var": lambda: z3.Function("pr:var", A, Str), "chain": lambda: z3.Function("pr:chain", A, Str),
        "params": lambda: z3.Function("pr:params", Sq, Str), "body": lambda: z3.Function("pr:body", Sq, IntS, Str), "item": lambda: z3.Function("pr:item", A, IntS, Str),
        "func": lambda: z3.Function("pr:func", IntS, Str), "nl": lambda: z3.Function("pr:nl", IntS, Str)}[kind]()
repeat_f = z3.Function("repeat", Str, IntS, Str)
hasprefix_f = z3.Function("hasPrefix", Str, Str, BoolS)
fmtFloat = z3.Function("fmtFloat", Flt, Str)
fmtTime = z3.Function("fmtTime", Tm, Str, Str)
SeqStr = None
def join_f(E): return z3.Function("join", E.w.seqsort("string"), Str, Str)
def isEq_f(E): return z3.Function("isEq", E.w.Any, BoolS)

# ------------------------------------------------------------------ well-formed trees
EXPR_KINDS = ["float64", "string", "bool", "time.Time", "UndefinedStatement", "*GoToLabelStatement", "GoToStatement", "VarStatement", "MethodStatement", "CallChainStatement",
    "ItemStatement", "TernaryStatement", "NewObjectStatement", "*ExpStatement", "ExprStatements"]
LITERALS = ["float64", "string", "bool", "time.Time", "UndefinedStatement", "*GoToLabelStatement"]
STMT_KINDS = ["*IfStatement", "*LoopStatement", "TryStatement", "BreakStatement", "ContinueStatement", "ThrowStatement", "*ReturnStatement", "AssignmentStatement"]

class WF:
    """the classes of trees; wf:<class>(x) is unfolded by its definition wherever it occurs"""
    ANY = ("Expr", "Ident", "Chain", "LoopIn", "Stmt", "Item", "Elif")
    SEQ = {"Stmts": "Stmt", "Args": "Opt", "Elifs": "Elif", "Items": "Item"}
    def __init__(self, E):
        self.E = E; w = self.w = E.w; self.A = w.Any
        self.f = {c: z3.Function("wf:" + c, w.Any, BoolS) for c in self.ANY}
        self.s = {c: z3.Function("wf:" + c, w.seqsort("Statement"), BoolS) for c in self.SEQ}
        self.node = {t: z3.Function("wfNode:" + t, IntS, BoolS) for t in ("ExpStatement", "IfStatement", "LoopStatement", "ReturnStatement", "FunctionOrProcedure", "GoToLabelStatement")}
        self.params = z3.Function("wf:Params", w.seqsort("ParamStatement"), BoolS)
    def isb(self, t, x): return self.w.isbox(t, x)
    def isnil(self, x): return x == self.A.nil
    def field(self, T, tm, name):
        """term of a (possibly promoted) field of a struct term"""
        E = self.E
        v = TermV(T, tm)
        for k, f in enumerate(self.w.T(T)["fields"] or []):
            if f["name"] == name:
                return E.to_term(E.getf(v, k), f["type"])
            if f.get("embedded") or f["name"] == "addStatementField":
                pass
        a = fidx(E, T, "addStatementField")
        return E.to_term(E.getf(E.getf(v, a), fidx(E, "addStatementField", name)), "bool")
    def has(self, T, name):
        fs = [f["name"] for f in self.w.T(T)["fields"] or []]
        return name in fs or name in ("not", "unaryMinus") and "addStatementField" in fs
    def noflags(self, T, tm):
        if not self.has(T, "not"): return z3.BoolVal(True)
        return z3.And(z3.Not(self.field(T, tm, "not")), z3.Not(self.field(T, tm, "unaryMinus")))
    def opt(self, x): return z3.Or(self.isnil(x), self.f["Expr"](x))
    def seq_class(self, s):
        """the class of a list that is a field of a node"""
        if not z3.is_app(s) or s.num_args() != 1 or s.decl().kind() != z3.Z3_OP_DT_ACCESSOR: return None
        T = next((t for t, d in self.w.DT.items() if d == s.arg(0).sort()), None)
        n = s.decl().name()
        if T is None or not n.startswith("f"): return None
        f = self.w.T(T)["fields"][int(n[1:])]["name"]
        return {"Statements": "Args", "TrueBlock": "Stmts", "ElseBlock": "Stmts", "Catch": "Stmts", "IfElseBlock": "Elifs", "Body": "Items" if T == "ModuleStatement" else "Stmts"}.get(f)
    def param(self, tm):
        """an argument list held as ExprStatements: never signed itself"""
        return z3.And(self.noflags("ExprStatements", tm), self.s["Args"](self.field("ExprStatements", tm, "Statements")))
    def kinds(self, ts, x): return z3.Or(*[self.isb(t, x) for t in ts])
    def node_ok(self, T, x):
        r = self.w.unbox("*" + T, x)
        return z3.And(r > 0, self.node[T](r))
    def struct(self, t, u):
        """condition on the fields of a struct value of kind t (no pointers)"""
        F = lambda n: self.field(t, u, n); f, s = self.f, self.s
        if t == "MethodStatement": return self.param(F("Param"))
        if t == "CallChainStatement": return z3.And(f["Ident"](F("Unit")), f["Chain"](F("Call")))
        if t == "ItemStatement": return z3.And(f["Expr"](F("Item")), f["Ident"](F("Object")))
        if t == "TernaryStatement": return z3.And(f["Expr"](F("Expression")), f["Expr"](F("TrueBlock")), f["Expr"](F("ElseBlock")))
        if t == "NewObjectStatement": return self.param(F("Param"))
        if t == "ExprStatements": return s["Args"](F("Statements"))
        if t == "GoToStatement":
            return F("Label") > 0
        if t == "AssignmentStatement":
            e = F("Expr"); q = self.field("ExprStatements", e, "Statements"); fs = self.w.seqfns("Statement")
            return z3.And(f["Chain"](F("Var")), f["Expr"](self.w.box("ExprStatements", e)), self.noflags("ExprStatements", e), fs.len(q) == 1, f["Expr"](fs.nth(q, z3.IntVal(0))))
        if t == "TryStatement": return z3.And(s["Stmts"](F("Body")), s["Stmts"](F("Catch")))
        if t == "ThrowStatement": return self.opt(F("Param"))
        return z3.BoolVal(True)
    def fields(self, T, get):
        """condition on the fields of a node of type T; get(name) gives the term of a field"""
        f, s, nil = self.f, self.s, self.isnil
        if T == "ExpStatement":
            return [f["Expr"](get("Left")), f["Expr"](get("Right")), get("Operation") >= 1, get("Operation") <= 13]
        if T == "IfStatement":
            return [f["Expr"](get("Expression")), s["Stmts"](get("TrueBlock")), s["Elifs"](get("IfElseBlock")), s["Stmts"](get("ElseBlock"))]
        if T == "LoopStatement":
            F_, To, In, W = get("For"), get("To"), get("In"), get("WhileExpr")
            return [s["Stmts"](get("Body")), z3.Or(
                z3.And(f["Expr"](W), nil(F_), nil(To), nil(In)),
                z3.And(nil(W), self.isb("string", F_), nil(To), f["LoopIn"](In)),
                z3.And(nil(W), nil(In), f["Expr"](F_), f["Expr"](To)))]
        if T == "ReturnStatement": return [self.opt(get("Param"))]
        if T == "FunctionOrProcedure":
            return [s["Stmts"](get("Body")), self.params(get("Params")), z3.Or(get("Type") == 1, get("Type") == 2)]
        return []
    def define(self, c, x):
        f = self.f; isb = self.isb
        u = lambda t: self.w.unbox(t, x)
        def kind(t, flags=True):
            k = [isb(t, x)]
            if t.startswith("*"): k.append(self.node_ok(t[1:], x))
            elif t in self.w.DT:
                k.append(self.struct(t, u(t)))
                if not flags: k.append(self.noflags(t, u(t)))
            return z3.And(*k)
        if c == "Expr": return z3.Or(*[kind(t) for t in EXPR_KINDS])
        if c == "Ident": return z3.Or(*[kind(t, False) for t in ("VarStatement", "MethodStatement", "ItemStatement")])
        if c == "Chain": return z3.Or(f["Ident"](x), kind("CallChainStatement", False))
        if c == "LoopIn": return z3.Or(f["Chain"](x), kind("NewObjectStatement"), kind("TernaryStatement"))
        if c == "Stmt": return z3.Or(*([kind(t) for t in STMT_KINDS] + [f["Expr"](x)]))
        if c == "Item": return z3.Or(kind("*FunctionOrProcedure"), f["Stmt"](x))
        if c == "Elif": return kind("*IfStatement")
        raise KeyError(c)
    def elem(self, c, x):
        e = self.SEQ[c]
        return self.opt(x) if e == "Opt" else self.f[e](x)
    def sub(self, c, x):
        """inclusions that hold by the definitions (stated to save unfolding)"""
        if c == "Ident": return [z3.Implies(self.f["Ident"](x), z3.And(self.f["Chain"](x), self.f["Expr"](x)))]
        if c == "Chain": return [z3.Implies(self.f["Chain"](x), z3.And(self.f["LoopIn"](x), self.f["Expr"](x)))]
        if c == "LoopIn": return [z3.Implies(self.f["LoopIn"](x), self.f["Expr"](x))]
        return []
    def unfolders(self, heap=True):
        out = {}
        for c in self.ANY:
            out["wf:" + c] = lambda a, c=c: [a == self.define(c, a.arg(0))] + self.sub(c, a.arg(0))
        fs = self.w.seqfns("Statement")
        for c in self.SEQ:
            def u(a, c=c):
                s = z3.simplify(a.arg(0)); n = s.decl().name()
                o = []
                if not s.eq(a.arg(0)): o.append(a == self.s[c](s))
                if n.startswith("cat<"): o.append(a == z3.And(self.s[c](s.arg(0)), self.s[c](s.arg(1))))
                elif n.startswith("unit<"): o.append(a == self.elem(c, s.arg(0)))
                elif n.startswith("nil<") or n.startswith("empty<"): o.append(a)
                if c == "Stmts": o.append(z3.Implies(a, self.s["Items"](a.arg(0))))     # every element that is a statement is an item
                return o
            out["wf:" + c] = u
        def un(a):
            s, k = a.arg(0), a.arg(1)
            ok = z3.And(k >= 0, k < fs.len(s))
            c = self.seq_class(s)
            return [z3.Implies(z3.And(self.s[c](s), ok), self.elem(c, a)) for c in ([c] if c else self.SEQ)]
        out["nth<%s>" % fs.k] = un
        ps = self.w.seqfns("ParamStatement")
        out["nth<%s>" % ps.k] = lambda a: [z3.Implies(z3.And(self.params(a.arg(0)), a.arg(1) >= 0, a.arg(1) < ps.len(a.arg(0))), self.opt(self.field("ParamStatement", a, "Default")))]
        def up(a):
            s = a.arg(0); n = s.decl().name()
            if n.startswith("cat<"): return [a == z3.And(self.params(s.arg(0)), self.params(s.arg(1)))]
            if n.startswith("unit<"): return [a == self.opt(self.field("ParamStatement", s.arg(0), "Default"))]
            if n.startswith("nil<") or n.startswith("empty<"): return [a]
            return []
        out["wf:Params"] = up
        if heap:
            for T in self.node:
                def nd(a, T=T):
                    tm = z3.Select(z3.Const("mem0:" + T, z3.ArraySort(IntS, self.w.sort(T))), a.arg(0))
                    return [z3.Implies(a, c) for c in self.fields(T, lambda n: self.field(T, tm, n))]
                out["wfNode:" + T] = nd
            def ueq(a):
                x = a.arg(0)
                r = self.w.unbox("*ExpStatement", x)
                e = z3.Select(z3.Const("mem0:ExpStatement", z3.ArraySort(IntS, self.w.sort("ExpStatement"))), r)
                s = self.w.unbox("ExprStatements", x); q = self.field("ExprStatements", s, "Statements")
                OpEq = int(self.w.consts["OpEq"])
                return [a == z3.If(self.isb("*ExpStatement", x), z3.And(self.field("ExpStatement", e, "Operation") == OpEq, self.noflags("ExpStatement", e)),
                    z3.If(self.isb("ExprStatements", x), z3.And(fs.len(q) == 1, self.noflags("ExprStatements", s), isEq_f(self.E)(fs.nth(q, z3.IntVal(0)))), False))]
            out["isEq"] = ueq
        # keys of a map in order
        def unk(a):
            s = a.arg(0)
            if s.decl().name().startswith("sortedKeys:"):
                T = s.decl().name()[11:]; O = self.E.optsort(T)
                k = a.arg(1); n = z3.Function("maplen:" + T, s.arg(0).sort(), IntS)(s.arg(0))
                return [z3.Implies(z3.And(k >= 0, k < n), O.is_some(z3.Select(s.arg(0), a)))]
            return []
        out["nth<string>"] = unk
        def ulen(a):
            s = a.arg(0)
            if s.decl().name().startswith("sortedKeys:"):
                T = s.decl().name()[11:]
                return [a == z3.Function("maplen:" + T, s.arg(0).sort(), IntS)(s.arg(0)), a >= 0]
            return []
        out["len<string>"] = ulen
        return out

# ------------------------------------------------------------------ models
PSTD = {}
def pstd(*names):
    def d(f):
        for n in names: PSTD[n] = f
        return f
    return d

@pstd("strings.Repeat")
def _repeat(E, st, a, i):
    s, n = a
    if not E.safety(st, "strings.Repeat: the count is not negative", norm(iz(n) >= 0)): return False
    c, k = s.const(), conc(norm(n))
    if c == b"": return S()
    if c is not None and k is not None: return S(c * k)
    return StrV([repeat_f(s.term(), iz(norm(n)))])

@pstd("strings.HasPrefix")
def _hasprefix(E, st, a, i):
    s, p = a
    pc = p.const()
    if pc is None: raise Unsupported("HasPrefix with a variable prefix")
    if pc == b"": return True
    if s.at and isinstance(s.at[0], bytes):
        h = s.at[0]
        if h.startswith(pc): return True
        if not pc.startswith(h) or len(s.at) == 1: return False
    if not s.at: return False
    return hasprefix_f(s.term(), sconst(pc))

@pstd("strconv.FormatFloat")
def _ff(E, st, a, i):
    if conc(norm(a[1])) == ord("f") and conc(norm(a[2])) == -1 and conc(norm(a[3])) == 64: return StrV([fmtFloat(a[0])])
    return StrV([z3.Function("fmtFloatOther", Flt, IntS, IntS, IntS, Str)(a[0], iz(a[1]), iz(a[2]), iz(a[3]))])

@pstd("(time.Time).Format")
def _tf(E, st, a, i):
    return StrV([fmtTime(a[0], a[1].term())])

def string_seq(E, st, v):
    """pure value of a list of strings; a filled array becomes a fold"""
    if isinstance(v, SeqV): return v
    o = st.arrays[v.arr]
    if o.lst is None and conc(v.lo) == 0 and z3.is_app(o.arr) and o.arr.decl().name().startswith("fill:"):
        j = o.arr.arg(0)
        if E.decide(st, iz(v.len) == j) is True:
            o.frozen = True
            fold = E.fold_of[o.arr.decl().name()]
            return SeqV("string", [("s", z3.Function("fold:%d:%s" % fold, IntS, E.w.seqsort("string"))(j))])
    return E.freeze(v, st)

@pstd("strings.Join")
def _join(E, st, a, i):
    q = string_seq(E, st, a[0]); sep = a[1]
    if all(p[0] == "u" for p in q.parts):
        out = S()
        for k, p in enumerate(q.parts):
            if k: out = out + sep
            out = out + p[1]
        return out
    if q.parts[0][0] == "u":
        # one element is there: every other one follows a separator
        out = q.parts[0][1]
        for p in q.parts[1:]:
            if p[0] == "u": out = out + sep + p[1]; continue
            t = p[1]
            if not t.decl().name().startswith("fold:"): break
            F = E.fold(t); a = F.acc(t); G = FoldMeta(ctr_now(), F.j); G.map, G.marker = F.map, F.marker
            for b, ds in F.cases:
                d = ds.get(a)
                if not isinstance(d, SeqV) or any(x[0] != "u" for x in d.parts): break
                txt = S()
                for x in d.parts: txt = txt + sep + x[1]
                G.cases.append((b, {a: txt}))
            if len(G.cases) != len(F.cases): break
            E.folds_meta[G.id] = G
            out = out + StrV([z3.Function("fold:%d:%s" % (G.id, a), IntS, Str)(t.arg(0))])
        else: return out
    return StrV([join_f(E)(E.seq_term(q, st), sep.term())])

@pstd("maps.Keys")
def _mkeys(E, st, a, i):
    c = E.map_content(st, a[0])
    return AnyV(tm=z3.Const("mapkeys", E.w.Any)) if c is None else MapKeys(a[0].T, c)
class MapKeys:
    def __init__(self, T, c): self.T, self.c = T, c
@pstd("slices.Sorted")
def _ssorted(E, st, a, i):
    if not isinstance(a[0], MapKeys): raise Unsupported("slices.Sorted of an unknown sequence")
    m = a[0]
    if "string" not in m.T.split("]")[0]: raise Unsupported("keys")
    return SeqV("string", [("s", z3.Function("sortedKeys:" + m.T, m.c.sort(), E.w.seqsort("string"))(m.c))])
@pstd("sort.Strings", "slices.Sort")
def _sort(E, st, a, i):
    v = a[0]
    r = sorted_seq(E, st, string_seq(E, st, v))
    if isinstance(v, ArrSlice) and not E.proves(st, iz(v.lo) == 0): raise Unsupported("sort.Strings of a part of an array")
    if isinstance(v, ArrSlice):
        # the array is not written through any other name from here on
        st.arrays[v.arr].frozen = True
        same = lambda x: isinstance(x, ArrSlice) and x.arr == v.arr
        whole = lambda x: E.proves(st, z3.And(iz(x.lo) == iz(v.lo), iz(x.len) == iz(v.len)))
        for fr in st.frames:
            for k, x in list(fr.regs.items()):
                if same(x):
                    if not whole(x): fr.regs.pop(k)
                    else: fr.regs[k] = r
        for T, m in list(st.mem.items()):
            ups = tuple((ref, r if same(u) and whole(u) else u) for ref, u in m.ups)
            if any(same(u) for _, u in ups): raise Unsupported("a part of a sorted array is stored")
            if ups != m.ups: st.mem[T] = MemArr(m.base, ups)
        return None
    for fr in st.frames:
        for k, x in list(fr.regs.items()):
            if x is v: fr.regs[k] = r
    for T, m in list(st.mem.items()):
        ups = tuple((ref, r if u is v else u) for ref, u in m.ups)
        if ups != m.ups: st.mem[T] = MemArr(m.base, ups)
    return None

def natural_less(E, fv):
    """the closure compares elements i and j of its one captured list with <: the captured cell"""
    f = E.w.funcs.get(fv.fn) if isinstance(fv, FuncV) and fv.fn else None
    if f is None or len(f["blocks"]) != 1 or len(fv.bind) != 1 or len(f["params"]) != 2: return None
    pi, pj = [p["name"] for p in f["params"]]; cell = f["free"][0]["name"]; env = {}
    def v(x): return env.get(x["n"]) if x["k"] == "reg" and x["n"] in env else ("free",) if x["k"] == "free" and x["n"] == cell else (x["n"],) if x["k"] == "reg" and x["n"] in (pi, pj) else None
    for i in f["blocks"][0]["instrs"]:
        if i["op"] == "un" and i["o"] == "*": env[i["r"]] = ("load", v(i["x"]))
        elif i["op"] == "indexaddr": env[i["r"]] = ("at", v(i["x"]), v(i["i"]))
        elif i["op"] == "bin": env[i["r"]] = (i["o"], v(i["x"]), v(i["y"]))
        elif i["op"] == "return": 
            el = lambda k: ("load", ("at", ("load", ("free",)), (k,)))
            return fv.bind[0] if v(i["x"][0]) in (("<", el(pi), el(pj)), (">", el(pj), el(pi))) else None
        else: return None
    return None

@pstd("sort.Slice", "sort.SliceStable")
def _sortslice(E, st, a, i):
    cell = natural_less(E, a[1])
    if cell is None or not isinstance(a[0], AnyV) or a[0].t != "[]string": raise Unsupported("sort.Slice with another order")
    v = E.load(st, cell)
    if not E.seq_term(a[0].v, st).eq(E.seq_term(E.freeze(v, st), st)): raise Unsupported("sort.Slice of another list")
    return _sort(E, st, [v], i)

@pstd("sort.Sort", "sort.Stable")
def _sortsort(E, st, a, i):
    if not isinstance(a[0], AnyV) or a[0].t != "sort.StringSlice": raise Unsupported("sort.Sort with another order")
    return _sort(E, st, [a[0].v], i)

@pstd("slices.SortFunc", "slices.SortStableFunc")
def _sortfunc(E, st, a, i):
    f = a[1]
    if not isinstance(f, FuncV) or (f.fn or "").split("[")[0] not in ("strings.Compare", "cmp.Compare"): raise Unsupported("slices.SortFunc with another order")
    return _sort(E, st, [a[0]], i)

def sorted_seq(E, st, v):
    if len(v.parts) == 1 and v.parts[0][0] == "s" and v.parts[0][1].decl().name().startswith("fold:"):
        t = v.parts[0][1]
        F = E.fold(t)
        if F.map is not None and len(F.cases) == 1:
            d = F.delta(0, t)
            c = F.map["content"]
            key = z3.Function("mapkey:" + F.map["T"], c.sort(), IntS, IntS, Str)(c, z3.IntVal(F.map["n"]), F.j)
            if len(d.parts) == 1 and d.parts[0][0] == "u" and len(d.parts[0][1].at) == 1 and d.parts[0][1].at[0] is not None and not isinstance(d.parts[0][1].at[0], bytes) and d.parts[0][1].at[0].eq(key) and E.decide(st, t.arg(0) == F.map["len"]) is True:
                return SeqV("string", [("s", z3.Function("sortedKeys:" + F.map["T"], c.sort(), E.w.seqsort("string"))(c))])
    f = E.w.seqfns("string")
    t = z3.Function("sorted", f.S, f.S)(E.seq_term(v, st))
    st.assume(f.len(t) == f.len(E.seq_term(v, st)))
    return SeqV("string", [("s", t)])

# ------------------------------------------------------------------ folds
def unscat(t):
    """the text of a term, concatenations opened"""
    if z3.is_app(t) and t.decl().name() == "scat": return unscat(t.arg(0)) + unscat(t.arg(1))
    if t.eq(EMPTY): return S()
    c = const_bytes(t)
    return S(c) if c is not None else StrV([t])
class FoldMeta:
    def __init__(self, id, j):
        self.id, self.j, self.cases, self.map, self.marker = id, j, [], None, None    # cases: [(state, {acc: StrV | SeqV})]
    def acc(self, t): return t.decl().name().split(":", 2)[2]
    def delta(self, k, t): return self.cases[k][1][self.acc(t)]

class PrintEngine(Engine):
    def __init__(self, w, **kw):
        std = dict(STD); std.update(PSTD); kw["stdlib"] = std
        super().__init__(w, **kw)
        self.folds_meta = {}; self.fold_of = {}
        self.conf0 = None
    def proves(self, st, c):
        """c holds (one query only)"""
        return self.decide(st, c, True) is True
    def decide(self, st, c, only_true=False):
        c = norm(c)
        if isinstance(c, bool): return c
        if c.get_id() in st.pcset: return True
        n = z3.Not(c)
        if z3.simplify(n).get_id() in st.pcset: return False
        if z3.is_not(c) and c.arg(0).get_id() in st.pcset: return False
        # a box of one kind is of no other; a number is one number
        b = c.arg(0) if z3.is_not(c) else c
        r = self.obvious(st, b)
        if r is not None: return (not r) if b is not c else r
        if self.check(st, [n], timeout=3000, fuel=4) == z3.unsat: return True
        if only_true: return None
        if self.check(st, [c], timeout=3000, fuel=4) == z3.unsat: return False
        return None
    def obvious(self, st, c):
        x = k = None
        if not z3.is_app(c): return None
        if c.decl().kind() == z3.Z3_OP_DT_IS and c.arg(0).sort() == self.w.Any: x, k = c.arg(0), c.decl()
        elif z3.is_eq(c):
            a, b = c.arg(0), c.arg(1)
            if a.sort() == self.w.Any:
                if a.eq(self.w.Any.nil): x = b
                elif b.eq(self.w.Any.nil): x = a
            elif a.sort() == IntS:
                v = conc(b); o = a
                if v is None: v = conc(a); o = b
                if v is None or conc(o) is not None: return None
                oi = o.get_id()
                for f in st.pc:
                    if z3.is_eq(f):
                        p, q = f.arg(0), f.arg(1)
                        if p.get_id() == oi and conc(q) is not None: return conc(q) == v
                        if q.get_id() == oi and conc(p) is not None: return conc(p) == v
                return None
        if x is None: return None
        xi = x.get_id()
        for f in st.pc:
            if z3.is_app(f) and f.num_args() == 1 and f.decl().kind() == z3.Z3_OP_DT_IS and f.arg(0).get_id() == xi:
                return k is not None and f.decl().eq(k)
        return None
    def fold(self, t): return self.folds_meta[int(t.decl().name().split(":", 2)[1])]

    def enter_loop(self, st, fr, target, pred, body):
        spec = self.loop_spec(LoopCtx(self, fr.fn, target, st, {}, []))
        if not isinstance(spec, NoLoopSpec) or type(spec) is not NoLoopSpec: return super().enter_loop(st, fr, target, pred, body)
        blk = fr.fn["blocks"][target]
        pi = blk["preds"].index(pred)
        vars_ = self.loop_vars(st, fr, target)
        entry_phi = {i["r"]: self.val(st, fr, i["e"][pi]) for i in blk["instrs"] if i["op"] == "phi"}
        fid = ctr_now(); jt = fresh("it", IntS); jn = fresh("n", IntS); marker = ctr_now()     # number of an iteration; number of iterations done
        j = jt
        entry = st
        used = set()
        for b in body:
            for i in fr.fn["blocks"][b]["instrs"]:
                if i["op"] == "next": used.add(i["x"].get("n"))
        iters = [v.id for r, v in fr.regs.items() if isinstance(v, IterV) and r in used and v.id in st.iters]
        locs, types, arrs = [], [], []
        plain, nonlin, badbound = set(), set(), set()
        meta = FoldMeta(fid, j); meta.marker = marker
        for r in range(60):
            accs = {}; arraccs = {}
            def header(fin):
                j = jn if fin else jt
                accs.clear(); arraccs.clear()
                hs = entry.copy(); f2 = hs.frames[-1]
                hs.assume(j >= 0)
                phis = {}
                for (rn, t) in vars_:
                    ev = entry_phi[rn]; nm = "phi:" + rn
                    isint = isinstance(ev, int) and not isinstance(ev, bool) or z3.is_expr(ev) and ev.sort() == IntS
                    if isint and rn not in nonlin: phis[rn] = norm(iz(ev) + j); continue
                    if nm not in plain and isinstance(ev, (StrV, SeqV)): phis[rn] = self.acc_value(hs, accs, nm, ev, fid, j, fin); continue
                    phis[rn] = self.havoc_val(hs, t, rn, ev)
                for T in types:
                    if T.startswith("map:"): hs.mem[T] = MemArr(fresh("mem:" + T, z3.ArraySort(IntS, z3.ArraySort(Str, self.optsort(T[4:])))))
                    else: hs.mem[T] = MemArr(fresh("mem:" + T, z3.ArraySort(IntS, self.w.sort(T))))
                for p in locs:
                    T = self.field_type(p.T, p.path); ev = self.load(entry, p); nm = "loc:%r" % (p,)
                    if nm not in plain and isinstance(ev, (StrV, SeqV)): self.store(hs, p, self.acc_value(hs, accs, nm, ev, fid, j, fin))
                    else: self.store(hs, p, self.havoc_val(hs, T, "loc"))
                for a in arrs:
                    o = hs.arrays[a]
                    if o.lst is not None: raise Unsupported("a loop writes a small array")
                    nm = "arr:" + a
                    if nm in plain: o.arr = fresh("arr", o.arr.sort())
                    elif fin:
                        g = z3.Function("fill:%d:%s" % (fid, nm), IntS, o.arr.sort()); o.arr = g(j); self.fold_of[g.name()] = (fid, nm)
                    else:
                        o.arr = fresh("fillh", o.arr.sort()); arraccs[nm] = (a, o.arr)
                for it in iters:
                    d = dict(hs.iters[it])
                    if d["kind"] == "map": d["pos"] = j; hs.assume(j <= d["len"])
                    else: d["pos"] = fresh("iter", IntS); hs.assume(z3.And(d["pos"] >= 0, d["pos"] <= strlen(d["str"])))
                    hs.iters[it] = d
                self.goto(hs, f2, target, pred)
                for rn, t in vars_: f2.regs[rn] = phis[rn]
                bnd = self.header_bound(hs, target, marker)
                if bnd is not None and "bound" not in badbound:
                    X, Y = bnd
                    e0 = z3.substitute(X, (j, z3.IntVal(0))) <= z3.substitute(Y, (j, z3.IntVal(0)))
                    if self.check(entry, [z3.Not(e0)], timeout=4000) == z3.unsat: hs.assume(X <= Y)
                    else: badbound.add("bound")
                return hs, bnd
            hs, bnd = header(False)
            lc = LoopCtx(self, fr.fn, target, entry, entry_phi, vars_); lc.iters = iters
            L = {"phase": "A", "back": [], "lc": lc, "Vn": None}
            hs.frames[-1].loops = hs.frames[-1].loops + ((target, L),)
            hs.writes = []
            npc = len(hs.pc)
            self.quiet += 1
            try: self.run(hs.copy(), None)
            finally: self.quiet -= 1
            if self.new_writes(L["back"] + L.get("exits", []), entry, marker, locs, types, arrs, L): continue
            changed = False; cases = []
            for b in L["back"]:
                bp = b.ghost["back_phi"]; ds = {}
                hp = hs.frames[-1].regs
                for (rn, t) in vars_:
                    ev = entry_phi[rn]
                    isint = isinstance(ev, int) and not isinstance(ev, bool) or z3.is_expr(ev) and ev.sort() == IntS
                    if isint and rn not in nonlin:
                        if self.decide(b, iz(bp[rn]) == iz(entry_phi[rn]) + j + 1) is not True: nonlin.add(rn); changed = True
                for nm, (hv, acc) in accs.items():
                    bv = bp[nm[4:]] if nm.startswith("phi:") else next(self.load(b, p) for p in locs if nm == "loc:%r" % (p,))
                    d = self.acc_delta(hv, bv)
                    if d is None or self.uses(d, acc): plain.add(nm); changed = True
                    else: ds[nm] = d
                for nm, (a, h) in arraccs.items():
                    v = b.arrays[a].arr
                    ok = z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE and v.arg(0).eq(h) and self.decide(b, v.arg(1) == j) is True
                    if not ok: plain.add(nm); changed = True
                    else:
                        x = v.arg(2)
                        ds[nm] = SeqV(b.arrays[a].elem, [("u", unscat(x) if x.sort() == Str else self.from_term(x, b.arrays[a].elem))])
                if bnd is not None and "bound" not in badbound:
                    X, Y = bnd
                    if self.check(b, [z3.Not(z3.substitute(X, (j, j + 1)) <= z3.substitute(Y, (j, j + 1)))], timeout=4000) != z3.unsat: badbound.add("bound"); changed = True
                cases.append((b, ds))
            if changed: continue
            # conditions and texts of an iteration may not depend on what was accumulated before
            accterms = [a for (_, a) in accs.values()] + [h for (_, h) in arraccs.values()]
            for b, ds in cases:
                for f in b.pc[npc:]:
                    for nm, (hv, a) in list(accs.items()):
                        if nm not in plain and self.mentions(f, a): plain.add(nm); changed = True
                for nm, d in ds.items():
                    for nm2, (hv, a) in accs.items():
                        if self.uses(d, a) and nm2 not in plain: plain.add(nm2); changed = True
            if changed: continue
            break
        else: raise Unsupported("loop inference does not converge in " + fr.fn["name"])
        meta.cases = cases
        for it in iters:
            if entry.iters[it]["kind"] == "map": meta.map = entry.iters[it]
        self.folds_meta[fid] = meta
        hs, bnd = header(True)
        if not self.quiet:
            for nm in accs: self.obls.append(Obl(self.cur, "invariant", "loop in %s: %s is its value on entry followed by the texts of the iterations done" % (fr.fn["name"], nm), self.line_of(st), True, "", 0, self.curprops))
            ok = bool(iters) or (bnd is not None and "bound" not in badbound)
            self.obls.append(Obl(self.cur, "variant", "loop in %s terminates (a bounded counter)" % fr.fn["name"], self.line_of(st), ok, "" if ok else "no bound found for the loop", 0, self.safety_props))
        L = {"phase": "B", "back": [], "lc": lc, "Vn": None, "locs": list(locs), "variants": None}
        hs.frames[-1].loops = hs.frames[-1].loops + ((target, L),)
        hs.writes = list(entry.writes) + list(locs)
        return [hs]

    def acc_value(self, hs, accs, nm, ev, fid, j, fin):
        if isinstance(ev, StrV):
            a = z3.Function("fold:%d:%s" % (fid, nm), IntS, Str)(j) if fin else fresh("acc", Str)
            v = StrV(ev.at + (a,))
        else:
            srt = self.w.seqsort(ev.elem)
            a = z3.Function("fold:%d:%s" % (fid, nm), IntS, srt)(j) if fin else fresh("acc", srt)
            v = SeqV(ev.elem, ev.parts + (("s", a),), ev.base)
        accs[nm] = (v, a)
        return v
    def acc_delta(self, hv, bv):
        if isinstance(hv, StrV):
            h, b = list(hv.at), list(bv.at)
            if len(b) < len(h): return None
            for k, x in enumerate(h):
                y = b[k]
                if isinstance(x, bytes) != isinstance(y, bytes): return None
                if isinstance(x, bytes):
                    if x != y: return None
                elif not x.eq(y): return None
            return StrV(b[len(h):])
        if isinstance(hv, SeqV) and isinstance(bv, SeqV):
            if len(bv.parts) < len(hv.parts): return None
            for x, y in zip(hv.parts, bv.parts):
                if x is not y and not (x[0] == y[0] == "s" and x[1].eq(y[1])): return None
            return SeqV(bv.elem, bv.parts[len(hv.parts):])
        return None
    def mentions(self, f, a):
        stack = [f]; seen = set(); ai = a.get_id()
        while stack:
            x = stack.pop()
            if x.get_id() == ai: return True
            if x.get_id() in seen: continue
            seen.add(x.get_id()); stack.extend(x.children())
        return False
    def uses(self, d, a):
        if isinstance(d, StrV): return any(not isinstance(x, bytes) and self.mentions(x, a) for x in d.at)
        return any(self.mentions(self.to_term(p[1], d.elem) if p[0] == "u" else p[1], a) for p in d.parts)
    def header_bound(self, hs, target, marker):
        """(X, Y) with X <= Y an invariant of a counting loop: its header compares X with Y"""
        s2 = hs.copy(); fr = s2.frames[-1]; blk = fr.fn["blocks"][target]
        self.quiet += 1
        try:
            while True:
                i = blk["instrs"][fr.idx]
                if i["op"] == "if": break
                if i["op"] in ("jump", "return", "next", "panic"): return None
                if i["op"] == "call" and (i["call"].get("fn") or {}).get("k") != "builtin": return None
                if self.step(s2, None) is not None: return None
            d = next((k for k in blk["instrs"] if k.get("r") == i["x"].get("n")), None)
            if d is None or d["op"] != "bin": return None
            x, y, o = self.val(s2, fr, d["x"]), self.val(s2, fr, d["y"]), d["o"]
        except (Unsupported, KeyError): return None
        finally: self.quiet -= 1
        if not all(isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS for v in (x, y)): return None
        x, y = iz(x), iz(y)
        if o in (">", ">="): x, y, o = y, x, {">": "<", ">=": "<="}[o]
        if o == "<=": y = y + 1
        elif o not in ("<", "!="): return None
        for v in (x, y):
            if self.term_newer(v, marker): return None
        return x, y
    def term_newer(self, t, marker):
        return super().term_newer(t, marker)

    def load(self, st, p, T=None):
        return super().load(st, p, T)
