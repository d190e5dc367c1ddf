"""Declarations: entering declared names into a map, appending items to the module, the signs of expressions."""
import z3
from sx import *
from base import *
from sx import fneg
import lex

_av = {}
def av_fns(E):
    """avMap(content, names, i), avDup(content, names, i): the names from the i-th on entered one after another"""
    if "f" not in _av:
        T = "map[string]VarStatement"
        A = z3.ArraySort(Str, E.optsort(T)); Sq = E.w.seqsort("Token")
        _av["f"] = (z3.Function("avMap", A, Sq, IntS, A), z3.Function("avDup", A, Sq, IntS, BoolS))
    return _av["f"]

def av_step(E, a):
    """one unfolding, for an application of either function"""
    c, s, i = a.arg(0), a.arg(1), a.arg(2)
    fm, fd = av_fns(E)
    f = E.w.seqfns("Token"); O = E.optsort("map[string]VarStatement")
    tok = f.nth(s, i)
    lit = E.getf(TermV("Token", tok), fidx(E, "Token", "literal")).term()
    v = E.to_term(E.setf(E.zero("VarStatement"), (fidx(E, "VarStatement", "Name"),), StrV([lit])), "VarStatement")
    has = O.is_some(z3.Select(c, lit)); nc = z3.Store(c, lit, O.some(v))
    end = i >= f.len(s)
    if a.decl().name() == "avMap": return [a == z3.If(z3.Or(end, has), c, fm(nc, s, i + 1))]
    return [a == z3.And(z3.Not(end), z3.Or(has, fd(nc, s, i + 1)))]

def unfolders(E): return {"avMap": lambda a: av_step(E, a), "avDup": lambda a: av_step(E, a)}

def av_map(E): return lambda c, s: av_fns(E)[0](c, s, z3.IntVal(0))
def av_dup(E): return lambda c, s: av_fns(E)[1](c, s, z3.IntVal(0))


_gv = {}
def gv_fns(E):
    """gvMap(content, declarations, i), gvDup(...): module variables from the i-th on entered one after another; a repeated one is not entered"""
    if "f" not in _gv:
        A = z3.ArraySort(Str, E.optsort("map[string]GlobalVariables")); Sq = E.w.seqsort("GlobalVariables")
        _gv["f"] = (z3.Function("gvMap", A, Sq, IntS, A), z3.Function("gvDup", A, Sq, IntS, BoolS))
    return _gv["f"]

def gv_name(E, tm):
    v = E.getf(TermV("GlobalVariables", tm), fidx(E, "GlobalVariables", "Var"))
    return E.getf(v, fidx(E, "VarStatement", "Name")).term()

def gv_step(E, a):
    c, s, i = a.arg(0), a.arg(1), a.arg(2)
    fm, fd = gv_fns(E); f = E.w.seqfns("GlobalVariables"); O = E.optsort("map[string]GlobalVariables")
    g = f.nth(s, i); nm = gv_name(E, g)
    has = O.is_some(z3.Select(c, nm)); nc = z3.Store(c, nm, O.some(g)); end = i >= f.len(s)
    if a.decl().name() == "gvMap": return [a == z3.If(end, c, z3.If(has, fm(c, s, i + 1), fm(nc, s, i + 1)))]
    return [a == z3.And(z3.Not(end), z3.Or(has, fd(nc, s, i + 1)))]

def unfolders(E): return {"avMap": lambda a: av_step(E, a), "avDup": lambda a: av_step(E, a), "gvMap": lambda a: gv_step(E, a), "gvDup": lambda a: gv_step(E, a)}

R = z3.Int("R")     # an arbitrary other object

def int_phis(V): return [(r, v) for r, v in V.phi.items() if isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS]

def nilAny(E): return AnyV(tm=E.w.Any.nil)

# ------------------------------------------------------------------ appendVarStatements
class VarsLoops(NoLoopSpec):
    def cands(self, lc, V):
        E = lc.E; env = E.env_vars; out = []
        m, c0, s, c = env["m"], env["c0"], env["s"], av_fns(E)
        f = E.w.seqfns("Token")
        for r, v in int_phis(V):
            for d in (0, 1):
                def ix(W, r=r, d=d): return norm(iz(W.phi[r]) + d)
                out.append(("%s+%d is a position in the list" % (r, d), lambda W, ix=ix: z3.And(iz(ix(W)) >= 0, iz(ix(W)) <= f.len(s))))
                out.append(("entering the names from %s+%d on gives the same result" % (r, d), lambda W, ix=ix: z3.And(c[0](E.map_content(W.st, m), s, iz(ix(W))) == c[0](c0, s, z3.IntVal(0)), c[1](E.map_content(W.st, m), s, iz(ix(W))) == c[1](c0, s, z3.IntVal(0)))))
        out.append(("other maps are kept", lambda W: z3.Implies(R != iz(m.ref), E.map_content(W.st, MapV(R, m.T)) == env["other0"])))
        return out
    def variants(self, lc, V):
        E = lc.E; f = E.w.seqfns("Token"); s = E.env_vars["s"]
        return [("len - " + r, lambda W, r=r: f.len(s) - iz(W.phi[r])) for r, v in int_phis(V)]

class VarsC(Contract):
    name = "appendVarStatements"; props = ("C09",); safety = ("C19",)
    loops = VarsLoops()
    def setup(self, E):
        st = State(E.w)
        T = "map[string]VarStatement"
        ref = z3.Int("in:map"); E.bound(st, ref); st.assume(z3.And(ref > 0, ref <= BASE))
        m = MapV(ref, T)
        toks = SeqV("Token", [("s", z3.Const("in:names", E.w.seqsort("Token")))])
        E.seq_len(toks, st)
        c0 = E.map_content(st, m)
        st.assume(z3.And(R > 0, R <= BASE))
        env = {"m": m, "c0": c0, "s": E.seq_term(toks, st), "other0": E.map_content(st, MapV(R, T))}
        E.env_vars = env
        return st, [m, toks], env
    def post(self, E, st, env):
        res, err = st.result
        dup = av_dup(E)(env["c0"], env["s"])
        nil = bz(E.eq(st, err, nilAny(E)))
        E.obl(st, "post", "an error is returned exactly when a name is declared twice", nil == z3.Not(dup))
        E.obl(st, "post", "without an error the map given is returned", z3.Implies(nil, iz(res.ref) == iz(env["m"].ref)))
        E.obl(st, "post", "without an error all names are entered under their own name", z3.Implies(nil, E.map_content(st, env["m"]) == av_map(E)(env["c0"], env["s"])))
        E.obl(st, "post", "the map returned is never nil", iz(res.ref) != 0, props=("C09", "C19"))
        E.obl(st, "frame", "other maps are kept", z3.Implies(R != iz(env["m"].ref), E.map_content(st, MapV(R, env["m"].T)) == env["other0"]), props=("C09", "C17"))
        frame_check(E, st, [(None, "map:" + env["m"].T, None), (env["m"].ref, "map:" + env["m"].T, None)], props=("C09", "C17"))

# ------------------------------------------------------------------ Append
APPEND = "(*ModuleStatement).Append"
GVT = "map[string]GlobalVariables"

class Mod:
    """the module inside a parser"""
    def __init__(self, E, a):
        self.E, self.a = E, a
        self.mi = fidx(E, "AstNode", "ModuleStatement")
        self.p = PtrV("ref", a.base, "AstNode", (self.mi,))
        self.bi, self.gi = fidx(E, "ModuleStatement", "Body"), fidx(E, "ModuleStatement", "GlobalVariables")
    def get(self, st, k): return self.E.load(st, PtrV("ref", self.a.base, "AstNode", (self.mi, k)))
    def set(self, st, k, v): self.E.store(st, PtrV("ref", self.a.base, "AstNode", (self.mi, k)), v)
    def body(self, st): return self.get(st, self.bi)
    def gv(self, st): return self.get(st, self.gi)
    def content(self, st): return self.E.map_content(st, self.gv(st))
    def err(self, st): return self.E.load(st, PtrV("ref", self.a.base, "AstNode", (fidx(self.E, "AstNode", "err"),)))

class AppendLoops(NoLoopSpec):
    def cands(self, lc, V):
        E = lc.E; env = E.env_app; out = []
        if "s" not in env: return out
        m, c0, s, err0, n0 = env["mod"], env["c0"], env["s"], env["err0"], env["n0"]
        fm, fd = gv_fns(E); f = E.w.seqfns("GlobalVariables"); z = z3.IntVal(0)
        def err_same(W): return bz(E.eq(W.st, m.err(W.st), err0))
        def err_set(W): return z3.Not(bz(E.eq(W.st, m.err(W.st), nilAny(E))))
        out.append(("the map is the first one or a new one", lambda W: z3.Or(iz(m.gv(W.st).ref) == iz(env["g0"].ref), z3.And(iz(env["g0"].ref) == 0, iz(m.gv(W.st).ref) > BASE))))
        out.append(("other maps are kept", lambda W: z3.Implies(z3.And(R != iz(env["g0"].ref)), E.map_content(W.st, MapV(R, GVT)) == env["other0"])))
        out.append(("after statements nothing is entered", lambda W: z3.Implies(n0 > 0, m.content(W.st) == c0)))
        for r, v in int_phis(V):
            for d in (0, 1):
                def ix(W, r=r, d=d): return iz(norm(iz(W.phi[r]) + d))
                out.append(("%s+%d is a position in the list" % (r, d), lambda W, ix=ix: z3.And(ix(W) >= 0, ix(W) <= f.len(s))))
                out.append(("after statements a declaration is an error (%s+%d)" % (r, d), lambda W, ix=ix: z3.Implies(n0 > 0, z3.If(ix(W) > 0, err_set(W), err_same(W)))))
                out.append(("entering the variables from %s+%d on gives the same" % (r, d), lambda W, ix=ix: z3.Implies(n0 == 0, fm(m.content(W.st), s, ix(W)) == fm(c0, s, z))))
                out.append(("a repeated variable is an error (%s+%d)" % (r, d), lambda W, ix=ix: z3.Implies(n0 == 0, z3.If(fd(c0, s, z), z3.Or(err_set(W), fd(m.content(W.st), s, ix(W))), z3.And(err_same(W), z3.Not(fd(m.content(W.st), s, ix(W))))))))
        return out
    def variants(self, lc, V):
        E = lc.E; env = E.env_app
        if "s" not in env: return []
        f = E.w.seqfns("GlobalVariables")
        return [("len - " + r, lambda W, r=r: f.len(env["s"]) - iz(W.phi[r])) for r, v in int_phis(V)]

class AppendC(Contract):
    name = APPEND; props = ("C09", "C10"); safety = ("C19",)
    loops = AppendLoops()
    def setups(self, E):
        for k in ("GlobalVariables", "[]GlobalVariables", "Statements", "*FunctionOrProcedure"): yield self.setup1(E, k)
    def setup1(self, E, k):
        st = State(E.w)
        a = PtrV("ref", z3.Int("in:ast"), "AstNode")
        E.bound(st, a.base); st.assume(z3.And(a.base > 0, a.base <= BASE))
        m = Mod(E, a)
        if k == "*FunctionOrProcedure":
            x = param_value(E, st, k, "item"); st.assume(iz(x.base) > 0)
        else:
            x = E.from_term(z3.Const("in:item", E.w.sort(k)), k)
        g0 = m.gv(st); E.bound(st, iz(g0.ref)); st.assume(z3.And(iz(g0.ref) >= 0, iz(g0.ref) <= BASE))
        st.assume(z3.And(R > 0, R <= BASE))
        body0 = m.body(st)
        from parse import wf_of
        st.assume(E.wf.s["Items"](E.seq_term(body0, st)))
        if k in ("Statements", "*FunctionOrProcedure"): st.assume(wf_of(E, "Stmts" if k == "Statements" else k, x, st))
        env = {"a": a, "mod": m, "x": x, "k": k, "g0": g0, "body0": body0, "n0": iz(E.seq_len(body0, st)), "err0": m.err(st), "c0": m.content(st), "other0": E.map_content(st, MapV(R, GVT))}
        if k == "[]GlobalVariables":
            env["s"] = E.seq_term(x, st); E.seq_len(x, st)
        E.env_app = env
        # the owner of a list extends it
        E.on_append = lambda s_, a_, b_: self.owner(E, s_, a_)
        return st, [m.p, AnyV(t=k, v=x), AnyV(t="*AstNode", v=a)], env
    def owner(self, E, st, a):
        env = E.env_app
        E.obl(st, "frame", "only the module's own list is extended", E.eq(st, a, env["mod"].body(st)), props=("C09", "C17"))
    def post(self, E, st, env):
        m, k, x = env["mod"], env["k"], env["x"]
        body, err = m.body(st), m.err(st)
        nil = nilAny(E)
        err_set = z3.Not(bz(E.eq(st, err, nil))); err_same = bz(E.eq(st, err, env["err0"]))
        n0, c0 = env["n0"], env["c0"]
        same_map = m.content(st) == c0
        O = E.optsort(GVT)
        if k == "GlobalVariables":
            nm = gv_name(E, E.to_term(x, k, st)); has = O.is_some(z3.Select(c0, nm))
            bad = z3.Or(n0 > 0, has)
            E.obl(st, "post", "a module variable after statements or methods, or declared before, is an error; another is not", z3.If(bad, err_set, err_same))
            E.obl(st, "post", "a new module variable is entered under its name with all its marks, and no other changes", m.content(st) == z3.If(bad, c0, z3.Store(c0, nm, O.some(E.to_term(x, k, st)))))
            E.obl(st, "post", "a module variable adds no statement", E.eq(st, body, env["body0"]))
        elif k == "[]GlobalVariables":
            fm, fd = gv_fns(E); s = env["s"]; n = E.w.seqfns("GlobalVariables").len(s); z = z3.IntVal(0)
            E.obl(st, "post", "a list of variables after statements or methods, or with a name declared before, is an error; another is not", z3.If(z3.Or(z3.And(n0 > 0, n > 0), z3.And(n0 == 0, fd(c0, s, z))), err_set, err_same))
            E.obl(st, "post", "every new variable of the list is entered", z3.If(n0 > 0, same_map, m.content(st) == fm(c0, s, z)))
            E.obl(st, "post", "variables add no statement", E.eq(st, body, env["body0"]))
        else:
            E.obl(st, "post", "methods and statements do not touch the variables", And_(iz(m.gv(st).ref) == iz(env["g0"].ref), same_map))
            if k == "Statements":
                E.obl(st, "post", "the statements are put at the end of the module in order", self.appended(E, st, body, env["body0"], x))
                E.obl(st, "post", "statements are no error", err_same)
            else:
                last = E.seq_nth(env["body0"], n0 - 1, st)
                bad = z3.And(n0 > 0, z3.Not(E.w.isbox("*FunctionOrProcedure", E.to_term(last, None, st))))
                E.obl(st, "post", "a method after module statements is an error, another is not", z3.If(bad, err_set, err_same))
                one = SeqV("Statement", [("u", AnyV(t=k, v=x))])
                for b in (True, False):
                    t = st.copy(); t.assume(bad if b else z3.Not(bad))
                    if not E.feasible(t): continue
                    E.obl(t, "post", "a method is put at the end of the module" if not b else "a misplaced method changes nothing", self.appended(E, t, m.body(t), env["body0"], one) if not b else E.eq(t, m.body(t), env["body0"]))
        from parse import wf_of, WFPROPS
        E.obl(st, "post", "the module stays well formed", wf_of(E, "Items", body, st), props=WFPROPS)
        E.obl(st, "frame", "other maps are kept", z3.Implies(R != iz(env["g0"].ref), E.map_content(st, MapV(R, GVT)) == env["other0"]), props=("C09", "C17"))
        mi = m.mi
        # the module's fields other than the two
        ms, ms0 = E.load(st, m.p), env.get("ms0")
        frame_check(E, st, [(env["a"].base, "AstNode", mi), (env["a"].base, "AstNode", fidx(E, "AstNode", "err")), (None, "map:" + GVT, None)], props=("C09", "C17"))
        for j, f in enumerate(E.w.T("ModuleStatement")["fields"]):
            if j in (m.bi, m.gi): continue
            old = E.mem0.get("AstNode", {}).get(str(env["a"].base))
            if old is None: old = E.from_term(z3.Select(z3.Const("mem0:AstNode", z3.ArraySort(IntS, E.w.sort("AstNode"))), env["a"].base), "AstNode")
            E.obl(st, "frame", "ModuleStatement.%s is unchanged" % f["name"], E.eq(st, E.getf(ms, j), E.getf(E.getf(old, mi), j)), props=("C09", "C17"))
    def appended(self, E, st, have, old, more):
        f = E.w.seqfns("Statement")
        have = E.freeze(have, st) if isinstance(have, ArrSlice) else have
        want = E.seq_append(old, more, st)
        r = E.eq(st, have, want)
        if r is True: return r
        # the same elements
        n = z3.Int("K")
        h, a, b = E.seq_len(have, st), E.seq_len(old, st), E.seq_len(more, st)
        return r
    def use(self, E, st, args):
        m, item, yl = args
        E.obl(st, "precondition", "Append is called on the module of the parser", m.kind == "ref" and m.T == "AstNode" and yl.t == "*AstNode" and yl.v.base.eq(m.base), props=("C09",))
        if item.t != "GlobalVariables": raise Unsupported("recursive Append of %s" % item.t)
        md = Mod(E, PtrV("ref", m.base, "AstNode")); O = E.optsort(GVT)
        tm = E.to_term(item.v, "GlobalVariables", st); nm = gv_name(E, tm)
        out = []
        def spec(c):
            if c(iz(E.seq_len(md.body(c.st), c.st)) > 0) or c(O.is_some(z3.Select(md.content(c.st), nm))): return "bad"
            return "new" if c(iz(md.gv(c.st).ref) == 0) else "ok"
        for s, v in explore(E, st, spec):
            if not E.feasible(s): continue
            if v == "bad":
                e = fresh("apperr", E.w.Any); s.assume(e != E.w.Any.nil)
                E.store(s, PtrV("ref", m.base, "AstNode", (fidx(E, "AstNode", "err"),)), AnyV(tm=e))
                # an empty map may have been created
                out.append((s, None))
                if E.decide(s, iz(md.gv(s).ref) == 0) is not False:
                    t = s.copy(); t.assume(iz(md.gv(t).ref) == 0)
                    r = t.newref(); E.map_set_content(t, MapV(r, GVT), z3.K(Str, O.none)); md.set(t, md.gi, MapV(r, GVT))
                    out.append((t, None))
                continue
            c = z3.Store(md.content(s), nm, O.some(tm))
            if v == "new":
                r = s.newref(); E.map_set_content(s, MapV(r, GVT), c); md.set(s, md.gi, MapV(r, GVT))
            else: E.map_set_content(s, md.gv(s), c)
            out.append((s, None))
        return out

# ------------------------------------------------------------------ signs
def flag_path(E, t):
    """where a node type keeps its sign flags"""
    x = E.w.T(t)
    if x["kind"] == "ptr": t = x["elem"]; x = E.w.T(t)
    if x["kind"] != "struct": return None
    for k, f in enumerate(x["fields"] or []):
        if f["name"] == "addStatementField": return t, k
    return None

class SignC(Contract):
    props = ("C12",); safety = ("C12", "C19")
    def __init__(self, name, flag): self.name, self.flag = name, flag
    def setups(self, E):
        from parse import EXPR
        for t in EXPR: yield self.setup1(E, t)
    def setup1(self, E, t):
        st = State(E.w)
        x = E.from_term(z3.Const("in:x", E.w.sort(t)), t)
        if t.startswith("*"):
            E.bound(st, iz(x.base)); st.assume(z3.And(iz(x.base) > 0, iz(x.base) <= BASE))
        st.assume(E.wf.f["Expr"](E.to_term(AnyV(t=t, v=x), None, st)))
        node = None; fl = flag_path(E, t)
        if fl: node = E.load(st, x) if t.startswith("*") else x
        f = {}
        if fl:
            for n in ("unaryMinus", "not"): f[n] = bz(E.getf(E.getf(node, fl[1]), fidx(E, "addStatementField", n)))
        # a node with both flags set is a negation of a signed operand: only НЕ is put on top of a sign
        return st, [AnyV(t=t, v=x)], {"t": t, "x": x, "fl": fl, "f": f, "node": node}
    def post(self, E, st, env):
        from parse import match, V, EXPR
        t, x, fl, f = env["t"], env["x"], env["fl"], env["f"]
        r = st.result[0]
        nm = "unaryMinus" if self.flag == "unaryMinus" else "not"
        if not isinstance(r, AnyV) or r.t is None:
            E.obl(st, "post", "the result is a node of a known kind", False); return
        E.obl(st, "post", "the result is an expression", r.t in EXPR and (not r.t.startswith("*") or norm(iz(r.v.base) != 0)), props=("C12", "C19"))
        from parse import WFPROPS, wf_new
        w = st.copy(); wf_new(E, w, BASE)
        E.obl(w, "post", "the result is well formed", E.wf.f["Expr"](E.to_term(r, None, w)), props=WFPROPS)
        fi = fidx(E, "addStatementField", self.flag)
        touched = []
        # the operand wrapped in a list of one with the sign
        wrapped = r.t == "ExprStatements" and match(E, st, r.v, V("ExprStatements", Statements=SeqV("Statement", [("u", AnyV(t=t, v=x))]), addStatementField=E.setf(E.zero("addStatementField"), (fi,), True)), BASE)
        if t == "float64" and nm == "unaryMinus":
            E.obl(st, "post", "a number literal is folded to its negation", r.t == t and E.eq(st, r.v, E_neg(E, x)))
        elif t == "bool" and nm == "not":
            E.obl(st, "post", "a truth literal is folded to its negation", r.t == t and norm(bz(r.v) == z3.Not(bz(x))))
        elif fl:
            free = z3.Not(f["not"]) if nm == "not" else z3.And(z3.Not(f["not"]), z3.Not(f["unaryMinus"]))
            want = E.setf(env["node"], (fl[1], fi), True)
            direct = False
            if r.t == t and t.startswith("*"):
                if r.v.kind == "ref" and not r.v.path:
                    have = E.load(st, r.v)
                    direct = And_(free, E.eq(st, have, want))
                    if conc(r.v.base) is None or conc(r.v.base) <= BASE:
                        direct = And_(direct, E.ref_eq(st, r.v.base, x.base) is True); touched = [(x.base, t[1:], fl[1])]
            elif r.t == t: direct = And_(free, E.eq(st, r.v, want))
            E.obl(st, "post", "the sign is recorded on the operand, or on a list holding just it when the operand has a sign that must stay apart", Or_(direct, wrapped))
            if touched:
                E.obl(st, "frame", "a wrapped operand keeps its own signs", Or_(direct, E.eq(st, E.load(st, x), env["node"])))
        else:
            E.obl(st, "post", "the sign is recorded on a list holding just the operand", wrapped)
        frame_check(E, st, touched, props=("C12", "C17"))

def E_neg(E, x):
    """the negation of a floating-point number, as the engine writes it"""
    return fneg(x)

# ------------------------------------------------------------------ Parse
class MachineUse:
    """(*yyParserImpl).Parse: obligations of the units of the parser"""
    name = "(*yyParserImpl).Parse"
    def use(self, E, st, args):
        r, yl = args
        E.obl(st, "precondition", "the parser is started on the module's own reader", yl.t == "*AstNode", props=("C07",))
        a = yl.v
        env = E.env_parse
        from parse import wf_of, WFPROPS
        E.obl(st, "precondition", "the parser starts with a well-formed module", wf_of(E, "Items", Mod(E, a).body(st), st), props=WFPROPS)
        E.obl(st, "precondition", "the parser starts with no open loop, handler or function and no error", And_(*[env["zero"](st, f) for f in ("isLoop", "isTry", "isFunction", "err")]), props=("C07", "C08"))
        res = fresh("accepted", IntS)
        n = E.load(st, a)
        for f in ("err", "currentToken", "ModuleStatement", "isLoop", "isTry", "isFunction"):
            k = fidx(E, "AstNode", f)
            n = E.setf(n, (k,), E.havoc_val(st, E.w.T("AstNode")["fields"][k]["type"], "p:" + f))
        E.store(st, PtrV("ref", a.base, "AstNode"), n)
        from parse import wf_of
        st.assume(wf_of(E, "Items", Mod(E, a).body(st), st))       # kept by every Append, and nothing else writes it (units of the parser)
        err = E.getf(E.load(st, a), fidx(E, "AstNode", "err"))
        st.assume(z3.Implies(res != 0, z3.Not(bz(E.eq(st, err, nilAny(E))))))
        st.ghost["parsed"] = st.ghost.get("parsed", ()) + (res,)
        return res

class ParseC(Contract):
    name = "(*AstNode).Parse"; props = ("C07",); safety = ("C07", "C19")
    def setup(self, E):
        st = State(E.w)
        a = PtrV("ref", z3.Int("in:ast"), "AstNode")
        E.bound(st, a.base); st.assume(z3.And(a.base > 0, a.base <= BASE))
        n = E.load(st, a)
        s = z3.Const("in:code", Str)
        # as NewAST makes it
        n = E.setf(E.zero("AstNode"), (fidx(E, "AstNode", "code"),), StrV([s]))
        E.write_ref(st, a.base, "AstNode", n)
        def zero(st_, f):
            k = fidx(E, "AstNode", f)
            return bz(E.eq(st_, E.getf(E.load(st_, a), k), E.zero(E.w.T("AstNode")["fields"][k]["type"])))
        E.env_parse = {"a": a, "zero": zero}
        E.contracts = dict(E.contracts); E.contracts[MachineUse.name] = MachineUse()
        st.ghost["parsed"] = ()
        return st, [a], {"a": a, "s": s, "n0": n}
    def post(self, E, st, env):
        r = st.result[0]; a = env["a"]
        ps = st.ghost["parsed"]
        err = E.load(st, PtrV("ref", a.base, "AstNode", (fidx(E, "AstNode", "err"),)))
        nil = nilAny(E)
        E.obl(st, "post", "an error recorded while parsing is returned, and none is made up", bz(E.eq(st, r, nil)) == bz(E.eq(st, err, nil)))
        if not ps:
            blank = strlen(z3.Function("trimSpace", Str, Str)(env["s"])) == 0
            E.obl(st, "post", "only a blank text is not parsed", blank)
            for f in ("ModuleStatement", "err"):
                k = fidx(E, "AstNode", f)
                E.obl(st, "post", "a blank text gives the empty module and no error", E.eq(st, E.getf(E.load(st, a), k), E.getf(env["n0"], k)))
        else:
            E.obl(st, "post", "the text is parsed once", len(ps) == 1)
            E.obl(st, "post", "success means the text was accepted", z3.Implies(bz(E.eq(st, r, nil)), ps[-1] == 0))
        from parse import wf_of, WFPROPS
        E.obl(st, "post", "the module left behind is well formed, also after an error", wf_of(E, "Items", Mod(E, a).body(st), st), props=WFPROPS)
        allow = [(a.base, "AstNode", fidx(E, "AstNode", f)) for f in ("err", "currentToken", "ModuleStatement", "isLoop", "isTry", "isFunction")]
        frame_check(E, st, allow, props=("C07", "C17"))

class NewC(Contract):
    name = "NewAST"; props = ("C07", "C17"); safety = ("C19",)
    def setup(self, E):
        st = State(E.w); s = z3.Const("in:code", Str)
        return st, [StrV([s])], {"s": s, "first": st.nref}
    def post(self, E, st, env):
        from parse import match, N
        E.obl(st, "post", "a new parser holds the text and nothing else", match(E, st, st.result[0], N("AstNode", code=StrV([env["s"]])), env["first"]))
        frame_check(E, st, [])

class SrcC(Contract):
    name = "(*AstNode).SrsCode"; props = ("C17",); safety = ("C19",)
    def setup(self, E):
        st = State(E.w)
        a = PtrV("ref", z3.Int("in:ast"), "AstNode")
        E.bound(st, a.base); st.assume(z3.And(a.base > 0, a.base <= BASE))
        return st, [a], {"a": a, "c": E.getf(E.load(st, a), fidx(E, "AstNode", "code"))}
    def post(self, E, st, env):
        E.obl(st, "post", "the text is returned as given", E.eq(st, st.result[0], env["c"]))
        frame_check(E, st, [])

def decl_contracts(): return [VarsC(), AppendC(), SignC("unaryMinus", "unaryMinus"), SignC("not", "not"), ParseC(), NewC(), SrcC()]
