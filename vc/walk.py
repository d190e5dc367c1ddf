"""The walk over the tree, against a ghost trace of the calls of the callback.

W(t, root, node, list) is the trace after walking a list: t followed, for each statement of the list in order, by the walks of its
blocks and operands (as the specification orders them) and then the call of the callback for the statement itself."""
import z3
from sx import *
from base import *
from printer import PrintEngine, WF
from printc import rank_unfolders, rseq_f
import printer, lex

PROPS = ("C16",)
Trace = z3.DeclareSort("Trace"); Place = z3.DeclareSort("Place")
TMP = z3.Const("place:copy", Place)

class WalkWF(WF):
    """one more class: what a walk may be given - items of a module, statements, branches, or operands, some absent"""
    SEQ = dict(WF.SEQ, Walks="OptItem")
    def elem(self, c, x):
        if c == "Walks": return z3.Or(self.isnil(x), self.f["Item"](x))
        return WF.elem(self, c, x)
    def unfolders(self, heap=True):
        out = WF.unfolders(self, heap)
        for c in ("Stmts", "Args", "Elifs", "Items"):
            old = out["wf:" + c]
            out["wf:" + c] = lambda a, old=old: old(a) + [z3.Implies(a, self.s["Walks"](a.arg(0)))]     # element by element: each is an item or absent
        oldi = out["wf:Elif"]
        out["wf:Elif"] = lambda a: oldi(a) + [z3.Implies(a, self.f["Stmt"](a.arg(0)))]
        olde = out["wf:Expr"]
        out["wf:Expr"] = lambda a: olde(a) + [z3.Implies(a, self.f["Stmt"](a.arg(0)))]
        olds = out["wf:Stmt"]
        out["wf:Stmt"] = lambda a: olds(a) + [z3.Implies(a, self.f["Item"](a.arg(0)))]
        return out

class Spec:
    def __init__(self, E):
        self.E = E; w = self.w = E.w; Sq = w.seqsort("Statement")
        self.fs = w.seqfns("Statement")
        self.W = z3.Function("walk:W", Trace, IntS, w.Any, Sq, Trace)
        self.D = z3.Function("walk:D", Trace, IntS, w.Any, Sq, IntS, Trace)
        self.step = z3.Function("walk:step", Trace, IntS, w.Any, Place, w.Any, Trace)
        self.ev = z3.Function("walk:ev", Trace, IntS, w.Any, Place, w.Any, Trace)
        self.place = z3.Function("walk:place", Sq, IntS, Place)
    def node(self, T, x):
        r = self.w.unbox("*" + T, x)
        return z3.Select(z3.Const("mem0:" + T, z3.ArraySort(IntS, self.w.sort(T))), r)
    def kinds(self, t, root, x):
        """[(kind, trace after its blocks and operands)]: the order of the specification"""
        F = self.E.wf.field; W, w = self.W, self.w
        def op(t, v): return self.step(t, root, x, TMP, v)
        out = []
        n = self.node("IfStatement", x); f = lambda k: F("IfStatement", n, k)
        out.append(("*IfStatement", W(W(W(op(t, f("Expression")), root, x, f("TrueBlock")), root, x, f("ElseBlock")), root, x, f("IfElseBlock"))))
        n1 = w.unbox("TryStatement", x)
        out.append(("TryStatement", W(W(t, root, x, F("TryStatement", n1, "Body")), root, x, F("TryStatement", n1, "Catch"))))
        n2 = self.node("LoopStatement", x)
        out.append(("*LoopStatement", W(t, root, x, F("LoopStatement", n2, "Body"))))
        r = w.unbox("*FunctionOrProcedure", x)
        out.append(("*FunctionOrProcedure", W(t, r, x, F("FunctionOrProcedure", self.node("FunctionOrProcedure", x), "Body"))))
        n3 = w.unbox("MethodStatement", x)
        out.append(("MethodStatement", W(t, root, x, F("ExprStatements", F("MethodStatement", n3, "Param"), "Statements"))))
        n4 = self.node("ExpStatement", x)
        out.append(("*ExpStatement", op(op(t, F("ExpStatement", n4, "Right")), F("ExpStatement", n4, "Left"))))
        n5 = w.unbox("TernaryStatement", x); g = lambda k: F("TernaryStatement", n5, k)
        out.append(("TernaryStatement", op(op(op(t, g("Expression")), g("TrueBlock")), g("ElseBlock"))))
        out.append(("*ReturnStatement", op(t, F("ReturnStatement", self.node("ReturnStatement", x), "Param"))))
        return out
    def unfolders(self):
        w = self.w
        def uW(a):
            t, r, p, s = a.arg(0), a.arg(1), a.arg(2), a.arg(3)
            s2 = z3.simplify(s); n = s2.decl().name()
            if n.startswith("unit<"): return [a == self.step(t, r, p, TMP, s2.arg(0))]
            if n.startswith("cat<") and units(s2): return [a == self.W(self.W(t, r, p, s2.arg(0)), r, p, s2.arg(1))]
            if n.startswith("nil<") or n.startswith("empty<"): return [a == t]
            return [a == self.D(t, r, p, s, self.fs.len(s)), self.fs.len(s) >= 0]
        def units(s):
            n = s.decl().name()
            return n.startswith("unit<") or n.startswith("cat<") and units(s.arg(0)) and units(s.arg(1))
        def uD(a):
            t, r, p, s, i = a.children()
            k = z3.simplify(i - 1)
            return [a == z3.If(i <= 0, t, self.step(self.D(t, r, p, s, k), r, p, self.place(s, k), self.fs.nth(s, k)))]
        def uplace(a):
            return [a == TMP] if units(z3.simplify(a.arg(0))) else []
        def ustep(a):
            t, r, p, pl, x = a.children()
            body = t
            for k, v in reversed(self.kinds(t, r, x)): body = z3.If(w.isbox(k, x), v, body)
            root = z3.If(w.isbox("*FunctionOrProcedure", x), w.unbox("*FunctionOrProcedure", x), r)
            return [a == self.ev(body, root, p, pl, x)]
        return {"walk:W": uW, "walk:D": uD, "walk:place": uplace, "walk:step": ustep}

def hook(E, st, fv, args):
    """a call of the callback"""
    if fv.sym is None or not fv.sym.eq(E.walk_cb): raise Unsupported("call of another function value")
    root, pp, ps = args
    if not E.chk_ptr(st, pp, "the enclosing node passed is a pointer") or not E.chk_ptr(st, ps, "the statement passed is a pointer"): return None
    p = E.to_term(E.load(st, pp), None, st)
    x = E.to_term(E.load(st, ps), None, st)
    if ps.kind == "seqelem" and not ps.path: pl = E.walk.place(E.seq_term(ps.base, st), iz(norm(iz(ps.idx))))
    elif ps.kind in ("elem", "ref"): pl = TMP
    else: raise Unsupported("place of a statement: " + ps.kind)
    st.ghost["gtrace"] = E.walk.ev(st.ghost["gtrace"], iz(root.base), p, pl, x)
    return None

class WalkLoops(NoLoopSpec):
    def cands(self, lc, V):
        E = lc.E; e = E.walk_env; S_ = E.walk; out = []
        if e is None: return out
        n = S_.fs.len(e["s"])
        for r, v in V.phi.items():
            if not (isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS): continue
            for d in (0, 1):
                def ix(W, r=r, d=d): return iz(norm(iz(W.phi[r]) + d))
                out.append(("%s+%d is a position in the list" % (r, d), lambda W, ix=ix: z3.And(ix(W) >= 0, ix(W) <= n)))
                out.append(("the statements before %s+%d have been walked" % (r, d), lambda W, ix=ix: W.st.ghost["gtrace"] == S_.D(e["t"], e["root"], e["p"], e["s"], ix(W))))
        return out
    def variants(self, lc, V):
        E = lc.E
        if E.walk_env is None: return None
        n = E.walk.fs.len(E.walk_env["s"])
        return [("len - " + r, lambda W, r=r: n - iz(W.phi[r])) for r, v in V.phi.items() if isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS]

def no_copies(E):
    def f(st, a, b):
        for q in (a, b):
            if isinstance(q, ArrSlice): q = E.freeze(q, st)
            E.obl(st, "frame", "no block is copied while walking (the callback gets the place in the tree)", all(x[0] == "u" for x in q.parts), props=("C16",))
    return f

class WC(Contract):
    props = PROPS; safety = ("C19", "C16")
    loops = WalkLoops()
    def state(self, E):
        st = State(E.w)
        E.walk_cb = z3.Int("in:callback"); E.hook_event = hook; E.on_append = no_copies(E)
        st.ghost["gtrace"] = z3.Const("t0", Trace)
        E.walk_env = None
        return st
    def done(self, E, st, want):
        E.obl(st, "post", "the callback is called once for every statement of every block and operand walked, in order, children first, with its method, its enclosing node and its place", st.ghost["gtrace"] == want)
        frame_check(E, st, [], props=("C16", "C17"))

class HelperC(WC):
    """walks one list"""
    def __init__(self, name): self.name = name
    def setup(self, E):
        st = self.state(E)
        root = PtrV("ref", z3.Int("in:root"), "FunctionOrProcedure"); E.bound(st, root.base); st.assume(z3.And(root.base >= 0, root.base <= BASE))
        p = z3.Const("in:parent", E.w.Any); q = z3.Const("in:list", E.w.seqsort("Statement"))
        s = E.from_term(q, "Statements"); E.seq_len(s, st)
        st.assume(E.wf.s["Walks"](q))
        E.walk_env = {"t": st.ghost["gtrace"], "root": root.base, "p": p, "s": q, "measure": rseq_f(E)(q)}
        return st, [root, AnyV(tm=p), s, FuncV(sym=E.walk_cb)], E.walk_env
    def post(self, E, st, e):
        self.done(E, st, E.walk.W(e["t"], e["root"], e["p"], e["s"]))
    def use(self, E, st, args):
        root, p, s, cb = args
        s = E.freeze(s, st) if isinstance(s, ArrSlice) else s
        E.obl(st, "precondition", "the walk goes on with the same callback", isinstance(cb, FuncV) and cb.sym is not None and cb.sym.eq(E.walk_cb))
        q = E.seq_term(s, st); E.seq_len(s, st)
        E.obl(st, "precondition", "what is walked is a list of the tree", E.wf.s["Walks"](q), props=("C16", "C19"))
        if E.walk_env is not None:
            m = rseq_f(E)(q)
            E.obl(st, "variant", "the recursion of the walk ends (the list walked is smaller)", z3.And(m >= 0, m < E.walk_env["measure"]), props=("C19", "C16"))
        st.ghost["gtrace"] = E.walk.W(st.ghost["gtrace"], iz(root.base), E.to_term(p, None, st), q)
        return None

class TopC(WC):
    name = "StatementWalk"
    def setup(self, E):
        st = self.state(E)
        p = z3.Const("in:parent", E.w.Any); q = z3.Const("in:list", E.w.seqsort("Statement"))
        s = E.from_term(q, "Statements"); E.seq_len(s, st)
        st.assume(E.wf.s["Walks"](q))
        return st, [AnyV(tm=p), s, FuncV(sym=E.walk_cb)], {"t": st.ghost["gtrace"], "p": p, "s": q}
    def post(self, E, st, e):
        self.done(E, st, E.walk.W(e["t"], z3.IntVal(0), e["p"], e["s"]))

class ModuleC(WC):
    name = "(*ModuleStatement).Walk"
    def setup(self, E):
        st = self.state(E)
        m = PtrV("ref", z3.Int("in:m"), "ModuleStatement"); E.bound(st, m.base); st.assume(z3.And(m.base > 0, m.base <= BASE))
        body = E.load(st, PtrV("ref", m.base, "ModuleStatement", (fidx(E, "ModuleStatement", "Body"),)))
        q = E.seq_term(body, st); E.seq_len(body, st)
        st.assume(E.wf.s["Items"](q))
        return st, [m, FuncV(sym=E.walk_cb)], {"t": st.ghost["gtrace"], "s": q}
    def post(self, E, st, e):
        self.done(E, st, E.walk.W(e["t"], z3.IntVal(0), E.w.box("Statements", e["s"]), e["s"]))

def helper_name(w):
    """the recursive function that walks a list (by its parameters)"""
    out = []
    for n, f in w.funcs.items():
        ts = [w.canon(p["type"]) if isinstance(p, dict) and "type" in p else None for p in f["params"]]
        if len(ts) == 4 and ts[0] == "*FunctionOrProcedure" and ts[2] == "Statements" and w.T(ts[3])["kind"] == "func": out.append(n)
    return out[0] if len(out) == 1 else "walkHelper"

def walk_contracts(w=None): return [HelperC(helper_name(w) if w else "walkHelper"), TopC(), ModuleC()]

def make_engine(w):
    E = PrintEngine(w); E.env = {}
    E.wf = WalkWF(E); E.walk = Spec(E); E.walk_env = None
    E.unfolders = lex.low_unfolders(E)
    E.unfolders.update(E.wf.unfolders()); E.unfolders.update(rank_unfolders(E, E.wf)); E.unfolders.update(E.walk.unfolders())
    E.lazy = {n for n in E.unfolders if n.startswith("wf:") or n.startswith("wfNode:")}
    run_init(E)
    E.contracts = {c.name: c for c in walk_contracts(w) if c.name in w.funcs and hasattr(c, "use")}
    return E
