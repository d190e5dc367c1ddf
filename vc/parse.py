"""The parser under contract: the tables against the published grammar, the stack machine that interprets them, and the action of
every production against its specification (attribute grammar)."""
import z3, re, itertools
from sx import *
from base import *
import gram, lex
from sx import MemArr

PARSE = "(*yyParserImpl).Parse"

# ------------------------------------------------------------------ the automaton
_L = None
def lalr():
    global _L
    if _L is None: _L = gram.LALR(gram.parse_grammar())
    return _L

class CharMap:
    """lexer codes <-> terminals of the grammar <-> internal token numbers (through yylex1, executed)"""
    pass

def codes(E):
    if hasattr(E, "_codes"): return E._codes
    out = E._codes = {}
    for t in sorted(lalr().terms):
        if t == "$end": out[t] = -1
        elif t.startswith("'"): out[t] = ord(t[1])
        else:
            if t not in E.w.consts: raise Unsupported("token %s has no constant" % t)
            out[t] = int(E.w.consts[t])
    return out

class LexStub:
    """Lex returning one given code"""
    def __init__(self, code): self.code = code
    def use(self, E, st, args): return self.code

def token_numbers(E):
    """internal number of every terminal: yylex1 executed on each code the lexer returns"""
    if hasattr(E, "_toks"): return E._toks
    C = codes(E); out = {}
    save = E.contracts; cur_ = E.cur
    try:
        for t, c in C.items():
            E.contracts = dict(save); E.contracts["(*AstNode).Lex"] = LexStub(c)
            E.cur = "yylex1"
            st = State(E.w); a = PtrV("ref", z3.Int("in:ast"), "AstNode"); l = PtrV("ref", z3.Int("in:lval"), "yySymType")
            start(E, "yylex1", st, [AnyV(t="*AstNode", v=a), l])
            E.quiet += 1
            try: fs = E.run(st)
            finally: E.quiet -= 1
            if len(fs) != 1: raise Unsupported("yylex1 is not deterministic")
            ch, tok = fs[0].result
            if not isinstance(tok, int) or not isinstance(ch, int): raise Unsupported("yylex1: unknown result")
            out[t] = (ch, tok)
    finally: E.contracts = save; E.cur = cur_
    E._toks = out
    return out

class Iso:
    """the running tables simulate the published grammar's automaton"""
    def __init__(self, E):
        self.problems = []
        bad = self.problems.append
        L = self.L = lalr()
        def get(n):
            if n not in E.globals or not isinstance(E.globals[n], ArrObj): raise Unsupported("no table " + n)
            return [int(x) for x in E.globals[n].lst]
        T = self.T = gram.Tables(get)
        flag = E.w.consts.get("yyFlag")
        if flag is not None: T.FLAG = int(flag)
        tn = {t: n for t, (c, n) in token_numbers(E).items()}
        if len(set(tn.values())) != len(tn): bad("two terminals share an internal number")
        self.tn = tn
        if tn["$end"] != 1: bad("the end of the text is not token 1")
        for t, (c, n) in token_numbers(E).items():
            if t == "$end" and c >= 0 or t != "$end" and c < 0: bad("lookahead code of %s" % t)
        self.prod = {}; self.nprod = {}; self.nt = {}; self.st = {0: 0}; self.ss = {0: 0}
        work = [0]; pend = []
        try:
            while work or pend:
                while work:
                    ss = work.pop(); cs = self.st[ss]
                    for t in L.terms:
                        a = L.action[ss].get(t); b = T.action(cs, tn[t])
                        if a is None:
                            if b[0] in ("s", "a"): bad("state %d accepts %s where the grammar does not" % (cs, t))
                            continue
                        if a[0] == "s":
                            if b[0] != "s": bad("state %d does not shift %s" % (cs, t)); continue
                            self.pair(a[1], b[1], work)
                        elif a[0] == "a":
                            if b[0] != "a": bad("state %d does not accept at the end" % cs)
                        else:
                            if b[0] != "r": bad("state %d does not reduce %r on %s" % (cs, L.prods[a[1]], t)); continue
                            self.setprod(a[1], b[1])
                    pend.append(ss)
                progress = False; rest = []
                for ss in pend:
                    cs = self.st[ss]; miss = False
                    for A, q in L.edges[ss].items():
                        if A not in L.nts: continue
                        if A not in self.nt: miss = True; continue
                        n0 = len(self.st)
                        self.pair(q, T.goto(cs, self.nt[A]), work)
                        progress = progress or len(self.st) != n0
                    if miss: rest.append(ss)
                if not work and len(rest) == len(pend) and not progress: bad("nonterminals without a reduction"); break
                pend = rest
        except IndexError:
            bad("a table is read outside its range")
        # states reached by shift and goto only; predecessors
        self.edges = {}       # code state -> {symbol: code state}
        self.preds = {}
        for ss, cs in self.st.items():
            self.edges[cs] = {X: self.st[q] for X, q in L.edges[ss].items() if q in self.st}
            for X, q in self.edges[cs].items(): self.preds.setdefault(q, set()).add((cs, X))
        if 0 in self.preds: bad("the initial state has a predecessor")
        # every reduction: the stack above the state below spells the right side
        self.below = {}
        for ss, cs in self.st.items():
            reds = set()
            for t in tn.values():
                a = T.action(cs, t)
                if a[0] == "r": reds.add(a[1])
            for n in reds:
                p = self.nprod.get(n)
                if p is None: bad("state %d reduces production %d, unknown to the grammar" % (cs, n)); continue
                rhs = L.prods[p].rhs
                cur_ = {cs}
                for X in reversed(rhs):
                    nx = set()
                    for q in cur_:
                        if q == 0: bad("reduction of %r in state %d may empty the stack" % (L.prods[p], cs))
                        for (r, Y) in self.preds.get(q, ()):
                            if Y != X: bad("reduction of %r in state %d over other symbols" % (L.prods[p], cs))
                            nx.add(r)
                    cur_ = nx
                self.below.setdefault(n, set()).update(cur_)
        for n, qs in self.below.items():
            A = L.prods[self.nprod[n]].lhs
            for q in qs:
                if A not in self.edges.get(q, {}): bad("no transition on %s from state %d" % (A, q))
        # how deep in the stack a state can be at least
        self.dist = {0: 0}; w = [0]
        while w:
            q = w.pop(0)
            for r in self.edges[q].values():
                if r not in self.dist: self.dist[r] = self.dist[q] + 1; w.append(r)
        if set(self.dist) != set(self.ss): bad("some state is not reachable")
        # a token the grammar rejects in a state is never shifted after the reductions taken by default
        self.check_defaults(bad)
        self.check_empty(bad)
    def pair(self, ss, cs, work):
        if ss in self.st:
            if self.st[ss] != cs: self.problems.append("state %d and state %d play one role" % (self.st[ss], cs))
            return
        if cs in self.ss:
            self.problems.append("state %d plays two roles" % cs); return
        self.st[ss] = cs; self.ss[cs] = ss; work.append(ss)
    def setprod(self, p, n):
        L = self.L; bad = self.problems.append
        if p in self.prod:
            if self.prod[p] != n: bad("production %r has two numbers" % L.prods[p])
            return
        if n in self.nprod: bad("production number %d stands for two productions" % n); return
        self.prod[p] = n; self.nprod[n] = p
        if self.T.r2[n] != len(L.prods[p].rhs): bad("length of production %r" % L.prods[p])
        A = L.prods[p].lhs
        if self.nt.setdefault(A, self.T.r1[n]) != self.T.r1[n]: bad("left side of production %r" % L.prods[p])
        if sum(1 for v in self.nt.values() if v == self.T.r1[n]) > 1: bad("two nonterminals share a number")
    def check_defaults(self, bad):
        L = self.L; T = self.T
        for t, k in self.tn.items():
            seen = set(); work = [cs for ss, cs in self.st.items() if t not in L.action[ss] and T.action(cs, k)[0] == "r"]
            while work:
                cs = work.pop()
                if cs in seen: continue
                seen.add(cs)
                a = T.action(cs, k)
                if a[0] in ("s", "a"): bad("after a rejected token %s is taken in state %d" % (t, cs)); continue
                if a[0] != "r": continue
                A = L.prods[self.nprod[a[1]]].lhs
                # the states below, walking back from this state
                cur_ = {cs}
                for X in L.prods[self.nprod[a[1]]].rhs: cur_ = {r for q in cur_ for (r, Y) in self.preds.get(q, ())}
                for q in cur_: work.append(self.edges[q][A])
    def check_empty(self, bad):
        """on the empty text the parser accepts without an error (no diagnostic is needed before a token was read)"""
        stack = [0]; self.empty_prods = []
        for _ in range(1000):
            a = self.T.action(stack[-1], self.tn["$end"])
            if a[0] == "a": return
            if a[0] != "r": break
            n = a[1]; p = self.L.prods[self.nprod[n]]
            self.empty_prods.append(p.name)
            if p.rhs: del stack[-len(p.rhs):]
            stack.append(self.edges[stack[-1]][p.lhs])
        bad("the empty text is not accepted")

def get_iso(E):
    if not hasattr(E, "_iso"): E._iso = Iso(E)
    return E._iso

def unit_tables(E):
    E.cur, E.curprops = "the tables of the parser", ("C11",)
    st = State(E.w)
    I = get_iso(E)
    L = I.L
    def o(what, ok, detail="", props=("C11",)):
        E.obls.append(Obl(E.cur, "table", what, "y.go", bool(ok), detail, 0, props))
    o("the tables have exactly the states, shifts, reductions and transitions of the published grammar with its precedences", not I.problems, "; ".join(I.problems[:8]))
    final = {q for e in L.edges for X, q in (L.edges[e] if isinstance(e, int) and isinstance(L.edges, dict) else e).items() if X == "$end"}   # accepting is an action, not a state
    o("every state of the grammar's automaton is present", len(I.st) == len(L.kernels) - len(final) and not final & set(I.st), "%d of %d" % (len(I.st), len(L.kernels)))
    o("every production of the grammar is present", len(I.prod) == len(L.prods) - 1, "%d of %d" % (len(I.prod), len(L.prods) - 1))
    for ss, cs in sorted(I.st.items()):
        acts = {t: L.action[ss].get(t) for t in L.terms}
        ok = True
        for t, a in acts.items():
            b = I.T.action(cs, I.tn[t])
            if a is None: ok = ok and b[0] in ("e", "r")
            elif a[0] == "s": ok = ok and b == ("s", I.st.get(a[1]))
            elif a[0] == "r": ok = ok and b == ("r", I.prod.get(a[1]))
            else: ok = ok and b == ("a",)
        o("state %d acts on all %d tokens as the grammar's automaton" % (cs, len(acts)), ok)
    # every code the reader returns is a terminal of the grammar
    kw, di = lex.spec_tables(E)
    C = set(codes(E).values())
    ret = set(kw.values()) | set(di.values()) | {ord(x) for x in lex.SINGLE + ".<>"} | {-1} | {lex.tokc(E, n) for n in ("token_identifier", "Number", "Date", "EQUAL", "String", "NeEQ", "LE", "GE", "GoToLabel")}
    o("every code the reader returns is a terminal of the grammar", ret <= C, str(sorted(ret - C)))
    # structure the counters rely on
    gr = I.edges
    def reach(froms):
        seen = set(froms); w = list(froms)
        while w:
            q = w.pop()
            for r in gr.get(q, {}).values():
                if r not in seen: seen.add(r); w.append(r)
        return seen
    after = reach([r for q, e in gr.items() for X, r in e.items() if X == "$func"])
    o("a function never contains another function", not any("$func" in gr.get(q, {}) for q in after), props=("C08",))
    conf = [c for c in L.conflicts]
    o("the grammar's only conflict is between assignment and comparison after a member chain, settled for assignment", len(conf) == 1 and conf[0][1] == "EQUAL" and conf[0][2] == "shift" and L.prods[conf[0][3]].name == "exprChain", str(conf))
    # the precedence table itself: in every state the choice between two operators follows it
    ops = {}
    for p, pr in enumerate(L.prods):
        if len(pr.rhs) == 3 and pr.lhs == "expr" and pr.rhs[0] == "expr": ops[pr.rhs[1]] = p
    lev = {t: k for k, (a, ts) in enumerate(gram.PREC) for t in ts}
    n = 0; ok = True
    for ss, k in enumerate(L.kernels):
        for (p, d) in k:
            if d == 3 and L.prods[p].rhs[1:2] and L.prods[p].rhs[1] in ops and p == ops[L.prods[p].rhs[1]]:
                for t in ops:
                    a = L.action[ss].get(t)
                    if a is None: continue
                    n += 1
                    want = "r" if lev[L.prods[p].rhs[1]] >= lev[t] else "s"
                    ok = ok and a[0] == want and I.T.action(I.st[ss], I.tn[t])[0] == want
    o("of two binary operators the tighter one, and of equal ones the left one, is grouped first (%d pairs)" % n, ok and n >= 100)
    return E.obls

# ------------------------------------------------------------------ liveness and cut points
def liveness(fn):
    if "_live" in fn: return fn["_live"]
    B = fn["blocks"]
    def opn(x, out):
        if isinstance(x, dict):
            if x.get("k") == "reg": out.add(x["n"])
            else:
                for k, v in x.items():
                    if isinstance(v, (dict, list)): opn(v, out)
        elif isinstance(x, list):
            for v in x: opn(v, out)
    info = []
    for b in B:
        use, df = set(), set()
        for i in b["instrs"]:
            if i["op"] == "phi": df.add(i["r"]); continue
            u = set(); opn({k: v for k, v in i.items() if k not in ("r",)}, u)
            use |= u - df
            if i.get("r"): df.add(i["r"])
        info.append((use, df))
    live = [set() for _ in B]; ch = True
    while ch:
        ch = False
        for b in reversed(B):
            k = b["i"]; out = set()
            for s in b["succs"]:
                o = set(live[s])
                pi = B[s]["preds"].index(k)
                for i in B[s]["instrs"]:
                    if i["op"] != "phi": break
                    o.discard(i["r"])
                    e = i["e"][pi]
                    if e["k"] == "reg": o.add(e["n"])
                out |= o
            n = info[k][0] | (out - info[k][1])
            # phi results of the block are live into its body: keep them
            if n != live[k]: live[k] = n; ch = True
    fn["_live"] = live
    return live

def live_at(fn, blk, idx):
    """registers needed from instruction idx of a block on"""
    live = liveness(fn); B = fn["blocks"]; b = B[blk]
    out = set()
    for s in b["succs"]:
        o = set(live[s]); pi = B[s]["preds"].index(blk)
        for i in B[s]["instrs"]:
            if i["op"] != "phi": break
            o.discard(i["r"]); e = i["e"][pi]
            if e["k"] == "reg": o.add(e["n"])
        out |= o
    for i in reversed(b["instrs"][idx:]):
        if i.get("r"): out.discard(i["r"])
        def opn(x):
            if isinstance(x, dict):
                if x.get("k") == "reg": out.add(x["n"])
                else:
                    for v in x.values():
                        if isinstance(v, (dict, list)): opn(v)
            elif isinstance(x, list):
                for v in x: opn(v)
        opn({k: v for k, v in i.items() if k != "r"})
    return out

# ------------------------------------------------------------------ contracts used inside the parser
class PError(lex.ErrorC):
    def use(self, E, st, args):
        st.ghost["events"] = st.ghost.get("events", ()) + (("error", args[1]),)
        return lex.ErrorC.use(self, E, st, args)

def ast_field(E, st, a, f): return E.getf(E.load(st, a), fidx(E, "AstNode", f))

class PLex(lex.LexC):
    """Lex as the parser sees it: one of the codes of the grammar's terminals with the token stored; or the end of the text, and then
    again the end; or a reading error, recorded, and then anything"""
    def use(self, E, st, args):
        a, l = args
        out = []
        for t, c in codes(E).items():
            if st.ghost.get("eof") and c != -1: continue
            for bad in ((False, True) if c == -1 and not st.ghost.get("eof") else (False,)):
                s = st.copy()
                tok = E._toksort[t]
                E.store(s, PtrV("ref", l.base, l.T, l.path + (fidx(E, "yySymType", "token"),)), tok)
                if c != -1:
                    E.store(s, PtrV("ref", a.base, "AstNode", (fidx(E, "AstNode", "currentToken"),)), tok)
                elif bad:
                    e1 = z3.Const("lexerr", E.w.Any)
                    s.assume(e1 != E.w.Any.nil)
                    E.store(s, PtrV("ref", a.base, "AstNode", (fidx(E, "AstNode", "err"),)), AnyV(tm=e1))
                    s.ghost["bad"] = True
                else: s.ghost["eof"] = True
                s.ghost["events"] = s.ghost.get("events", ()) + (("lex", t),)
                out.append((s, c))
        return out

class PAppend:
    name = "(*ModuleStatement).Append"
    def use(self, E, st, args):
        m, item, yl = args
        if item.t == "[]GlobalVariables": pass
        elif item.t in ("Statements", "*FunctionOrProcedure"): E.obl(st, "precondition", "what is appended to the module is well formed", wf_of(E, "Stmts" if item.t == "Statements" else item.t, item.v, st), props=WFPROPS)
        E.obl(st, "precondition", "Append is called on the module of the parser and with the parser", m.kind == "ref" and m.T == "AstNode" and m.base.eq(E.p_ast.base) and yl.t == "*AstNode" and yl.v.base.eq(E.p_ast.base), props=("C09",))
        st.ghost["events"] = st.ghost.get("events", ()) + (("append", item),)
        # the module and a recorded error change; an error is never forgotten
        p = E.p_ast
        e0 = E.to_term(ast_field(E, st, p, "err"), None, st)
        e1 = fresh("apperr", E.w.Any)
        st.assume(z3.Implies(e0 != E.w.Any.nil, e1 != E.w.Any.nil))
        E.store(st, PtrV("ref", p.base, "AstNode", (fidx(E, "AstNode", "err"),)), AnyV(tm=e1))
        mi = fidx(E, "AstNode", "ModuleStatement")
        for f in ("Body", "GlobalVariables"):
            k = fidx(E, "ModuleStatement", f); t = E.w.T("ModuleStatement")["fields"][k]["type"]
            E.store(st, PtrV("ref", p.base, "AstNode", (mi, k)), E.havoc_val(st, t, "mod"))
        return None

class PSign:
    """unaryMinus / not: an operand with the sign recorded (their own contracts: unit unary)"""
    def __init__(self, name): self.name = name
    def use(self, E, st, args):
        x = args[0]
        tm = E.to_term(x, None, st)
        E.obl(st, "precondition", "%s is called with an expression" % self.name, typed(E, tm, EXPR), props=("C12", "C19"))
        E.obl(st, "precondition", "%s is called with a well-formed expression" % self.name, E.wf.f["Expr"](tm), props=WFPROPS)
        g = z3.Function("spec:" + self.name, E.w.Any, E.w.Any)
        r = g(tm)
        st.assume(z3.And(typed(E, r, EXPR), E.wf.f["Expr"](r)))
        # a pointed-to operand may have been marked in place
        m = E.memarr(st, "ExpStatement")
        p = z3.If(E.w.isbox("*ExpStatement", tm), E.w.unbox("*ExpStatement", tm), z3.IntVal(-1))
        E.memarr(st, "ExpStatement"); st.mem["ExpStatement"] = MemArr(z3.Store(E.mem_term(st, "ExpStatement"), p, fresh("marked", E.w.sort("ExpStatement"))))
        st.ghost["events"] = st.ghost.get("events", ()) + (("sign", self.name, tm),)
        return AnyV(tm=r)

avMap = {}
class PVars:
    """appendVarStatements"""
    name = "appendVarStatements"
    def use(self, E, st, args):
        m, toks = args
        from decl import av_map, av_dup
        E.obl(st, "precondition", "appendVarStatements gets a map", norm(iz(m.ref) != 0), props=("C09", "C19"))
        c0 = E.map_content(st, m); s = E.seq_term(E.freeze(toks, st), st)
        f = E.w.seqfns("Token"); n = E.seqlen_t(s, f, st)
        dup = av_dup(E)(c0, s)
        st.ghost["events"] = st.ghost.get("events", ()) + (("vars", m, c0, s),)
        out = []
        a = st.copy(); a.assume(z3.Not(dup))
        if E.feasible(a):
            E.map_set_content(a, m, av_map(E)(c0, s))
            out.append((a, (m, AnyV(tm=E.w.Any.nil))))
        b = st.copy(); b.assume(dup)
        if E.feasible(b):
            O = E.optsort(m.T)
            E.map_set_content(b, m, fresh("mapafter", c0.sort()))
            r = b.newref(); nm = MapV(r, m.T)
            E.map_set_content(b, nm, z3.K(Str, O.none))
            out.append((b, (nm, AnyV(tm=E.w.Any.other(z3.IntVal(TAG_ERR), fresh("dup", IntS))))))
        return out

# ------------------------------------------------------------------ what a symbol on the stack carries
IDENT = ("VarStatement", "MethodStatement", "ItemStatement")
CHAIN = IDENT + ("CallChainStatement",)
EXPR = ("string", "bool", "float64", "time.Time", "UndefinedStatement", "*GoToLabelStatement", "ExprStatements", "*ExpStatement", "NewObjectStatement", "GoToStatement", "TernaryStatement") + CHAIN
STMT = EXPR + ("AssignmentStatement", "*IfStatement", "*LoopStatement", "TryStatement", "ContinueStatement", "BreakStatement", "ThrowStatement", "*ReturnStatement")
FIELD = {"identifier": "stmt", "through_dot": "stmt", "execute_param": "stmt", "simple_expr": "stmt", "expr": "stmt", "opt_expr": "stmt", "stmt": "stmt", "opt_stmt": "stmt", "loopExp": "stmt",
    "new_object": "stmt", "ternary": "stmt", "stmt_tryCatch": "stmt", "exprs": "exprs", "body": "body", "opt_body": "opt_body", "stmt_if": "stmt_if", "stmt_loop": "stmt_loop", "funcProc": "funcProc",
    "global_variables": "global_variables", "opt_directive": "opt_directive", "opt_export": "opt_export", "identifiers": "identifiers", "explicit_variables": "explicit_variables",
    "opt_explicit_variables": "opt_explicit_variables", "declarations_method_param": "declarations_method_param", "declarations_method_params": "declarations_method_params", "goToLabel": "goToLabel",
    "opt_elseif_list": "opt_elseif_list", "opt_else": "opt_else", "separator": "token", "semicolon": "token", "colon": "token", "comma": "token", "dot": "token"}
TYPES = {"identifier": IDENT, "through_dot": CHAIN, "execute_param": ("string", "VarStatement"), "simple_expr": EXPR, "expr": EXPR, "stmt": STMT, "loopExp": CHAIN + ("NewObjectStatement", "TernaryStatement"),
    "new_object": ("NewObjectStatement",), "ternary": ("TernaryStatement",), "stmt_tryCatch": ("TryStatement",)}
OPT = {"opt_expr": EXPR, "opt_stmt": STMT}
TOKVAL = {"String": ("string",), "Number": ("float64",), "Date": ("time.Time",), "True": ("bool",), "False": ("bool",)}
TOKLIT = {"';'": ";", "':'": ":", "','": ",", "'.'": "."}

def typed(E, tm, ts):
    """the value is one of these dynamic types, and no nil pointer"""
    out = []
    for t in ts:
        c = E.w.isbox(t, tm)
        if t.startswith("*"): c = z3.And(c, E.w.unbox(t, tm) != 0)
        out.append(c)
    return z3.Or(*out)

def sym_inv(E, X, v, st):
    """facts about a stack slot holding symbol X (v: the slot's value); list of (what, formula)"""
    def f(n): return E.getf(v, fidx(E, "yySymType", n))
    def t(n): return E.to_term(f(n), E.w.T("yySymType")["fields"][fidx(E, "yySymType", n)]["type"], st)
    out = []
    if X in TYPES: out.append(("the value of %s is a node of its kind" % X, typed(E, t("stmt"), TYPES[X])))
    elif X in OPT: out.append(("the value of %s is a node of its kind or absent" % X, z3.Or(t("stmt") == E.w.Any.nil, typed(E, t("stmt"), OPT[X]))))
    elif X in ("stmt_if", "stmt_loop", "funcProc", "goToLabel", "explicit_variables", "opt_explicit_variables"):
        out.append(("the value of %s is present" % X, t(FIELD[X]) != 0))
    elif X in TOKVAL:
        tok = f("token"); val = E.getf(tok, fidx(E, "Token", "value"))
        out.append(("the value of the literal", typed(E, E.to_term(val, None, st), TOKVAL[X])))
    if X in TOKLIT or X in ("semicolon", "colon", "comma", "dot"):
        s = TOKLIT.get(X) or {"semicolon": ";", "colon": ":", "comma": ",", "dot": "."}[X]
        out.append(("the text of the mark", bz(E.eq(st, E.getf(f("token"), fidx(E, "Token", "literal")), S(s)))))
    if X == "separator":
        l = E.getf(f("token"), fidx(E, "Token", "literal"))
        out.append(("a separator is ; or :", z3.Or(bz(E.eq(st, l, S(";"))), bz(E.eq(st, l, S(":"))))))
    if X in ("opt_directive", "opt_export"):
        # absent, or a pointer to a token with this slot's text
        p = f(FIELD[X])
        out.append(("the %s points to the token of its slot" % X, slot_token(E, st, p, f("token"))))
    return out

# ------------------------------------------------------------------ the class of tree a symbol carries (the printers and the walk rely on it)
WFCLASS = {"identifier": "Ident", "through_dot": "Chain", "execute_param": "Expr", "simple_expr": "Expr", "expr": "Expr", "opt_expr": "Opt", "stmt": "Stmt", "opt_stmt": "OptStmt", "loopExp": "LoopIn",
    "new_object": "Expr", "ternary": "Expr", "stmt_tryCatch": "Stmt", "exprs": "Param", "body": "Stmts", "opt_body": "Stmts", "stmt_if": "*IfStatement", "stmt_loop": "*LoopStatement",
    "funcProc": "*FunctionOrProcedure", "goToLabel": "*GoToLabelStatement", "declarations_method_param": "Default", "declarations_method_params": "Params", "opt_elseif_list": "Elifs", "opt_else": "Stmts"}
WFPROPS = ("C13", "C14", "C15", "C16", "C19")

def wf_of(E, c, v, st):
    """the value is a tree of class c"""
    W = E.wf
    if c.startswith("*"):
        r = iz(v.base) if isinstance(v, PtrV) else v.v.base
        return z3.And(r > 0, W.node[c[1:]](r))
    if c == "Params": return W.params(E.seq_term(E.freeze(v, st) if isinstance(v, ArrSlice) else v, st))
    if c in W.SEQ: return W.s[c](E.seq_term(E.freeze(v, st) if isinstance(v, ArrSlice) else v, st))
    if c == "Param": return W.param(E.to_term(v, "ExprStatements", st))
    if c == "Default": return W.opt(W.field("ParamStatement", E.to_term(v, "ParamStatement", st), "Default"))
    tm = E.to_term(v, None, st)
    if c == "Opt": return W.opt(tm)
    if c == "OptStmt": return z3.Or(W.isnil(tm), W.f["Stmt"](tm))
    return W.f[c](tm)

def wf_inv(E, X, v, st):
    c = WFCLASS.get(X)
    if c is None: return None
    return wf_of(E, c, E.getf(v, fidx(E, "yySymType", FIELD[X])), st)

def wf_new(E, s, first):
    """what it means for a node made here to be well formed: its fields are (nothing writes a node again but the signs, which keep these fields)"""
    for T, m in list(s.mem.items()):
        if T not in E.wf.node: continue
        done = set()
        for (r, v) in reversed(m.ups):
            c = conc(r)
            if c is None or c <= first or c in done: continue
            done.add(c)
            tm = E.to_term(v, T, s)
            s.assume(E.wf.node[T](z3.IntVal(c)) == z3.And(*(E.wf.fields(T, lambda n: E.wf.field(T, tm, n)) or [z3.BoolVal(True)])))

def slot_token(E, st, p, tok):
    if p.kind == "ref" and not p.path:
        if conc(p.base) == 0: return z3.BoolVal(True)
        have = E.load(st, p)
        li = fidx(E, "Token", "literal")
        return z3.Or(iz(p.base) == 0, bz(E.eq(st, E.getf(have, li), E.getf(tok, li))))
    have = E.load(st, p); li = fidx(E, "Token", "literal")
    return bz(E.eq(st, E.getf(have, li), E.getf(tok, li)))

# ------------------------------------------------------------------ expected values
class N:        # pointer to a node created by this action
    def __init__(self, T, **f): self.T, self.f = T, f
class V:        # struct value, fields not named are zero
    def __init__(self, T, **f): self.T, self.f = T, f
class B:        # boxed
    def __init__(self, x, t=None): self.x, self.t = x, t
class Cases:    # [(cond, want)]
    def __init__(self, cs): self.cs = cs

def match(E, st, have, want, first):
    """condition under which the value is the wanted one; `first`: references above it are new"""
    if isinstance(want, Cases):
        return And_(*[Or_(Not_(c), match(E, st, have, w_, first)) for c, w_ in want.cs])
    if isinstance(have, AnyV) and isinstance(want, (N, V, B)):
        t = ("*" + want.T) if isinstance(want, N) else want.T if isinstance(want, V) else want.t
        if have.t is None:
            return False if not isinstance(want, B) else E.eq(st, have, AnyV(t=t, v=want.x))
        if have.t != t: return False
        return match(E, st, have.v, want.x if isinstance(want, B) else want, first)
    if isinstance(want, N):
        if not isinstance(have, PtrV) or have.kind != "ref" or have.path or have.T != want.T: return False
        c = conc(have.base)
        if c is None or c <= first: return False
        return match(E, st, E.load(st, have), V(want.T, **want.f), first)
    if isinstance(want, V):
        if not isinstance(have, (StructV, TermV)) or have.T != want.T: return False
        out = []
        for k, f in enumerate(E.w.T(want.T)["fields"] or []):
            h = E.getf(have, k)
            if f["name"] in want.f: out.append(match(E, st, h, want.f[f["name"]], first))
            else: out.append(match(E, st, h, E.zero(f["type"]), first))
        for n in want.f: fidx(E, want.T, n)
        return And_(*out)
    if isinstance(want, SeqV) and any(p[0] == "u" and isinstance(p[1], (N, V, B)) for p in want.parts):
        have = E.freeze(have, st) if isinstance(have, ArrSlice) else have
        if len(have.parts) != len(want.parts): return False
        out = []
        for h, w_ in zip(have.parts, want.parts):
            if h[0] != w_[0]: return False
            out.append(match(E, st, h[1], w_[1], first) if h[0] == "u" else (True if h[1].eq(w_[1]) else h[1] == w_[1]))
        return And_(*out)
    if want is None: return True
    return E.eq(st, have, want)

def seq(E, elem, *parts):
    """list made of single values and whole lists"""
    out = []
    for p in parts:
        if isinstance(p, SeqV): out.extend(p.parts)
        else: out.append(("u", p))
    return SeqV(elem, out)

BINOP = {"plus": "OpPlus", "minus": "OpMinus", "mul": "OpMul", "div": "OpDiv", "mod": "OpMod", "gt": "OpGt", "lt": "OpLt", "eq": "OpEq", "or": "OpOr", "and": "OpAnd", "ne": "OpNe", "le": "OpLe", "ge": "OpGe"}
PASS = {  # productions whose value is the value of one symbol
    "someBody": 1, "someStmt": 1, "sepSemi": 1, "sepColon": 1, "someVars": 1, "else": 2, "loopChain": 1, "loopNew": 1, "loopParenNew": 2, "loopTernary": 1, "stmtExpr": 1, "stmtTry": 1, "chain1": 1, "simple": 1,
    "exprNew": 1, "exprTernary": 1, "exprChain": 1, "someExpr": 1, "pos": 2, "semicolon": 1, "colon": 1, "comma": 1, "dot": 1}
EVENTS = {"moduleBody": "append", "moduleItems": "append", "mainVars": "append", "mainFunc": "append", "neg": "sign", "not": "sign", "vars1": "vars", "varsN": "vars"}

class Children:
    def __init__(self, E, st, rhs, slots): self.E, self.st, self.rhs, self.slots = E, st, rhs, slots
    def f(self, i, field): return self.E.getf(self.slots[i - 1], fidx(self.E, "yySymType", field))
    def __call__(self, i):
        """value of the i-th symbol"""
        return self.f(i, FIELD.get(self.rhs[i - 1], "token"))
    def lit(self, i): return self.E.getf(self.f(i, "token"), fidx(self.E, "Token", "literal"))
    def val(self, i): return self.E.getf(self.f(i, "token"), fidx(self.E, "Token", "value"))

def spec(E, name, c, st, ev):
    """expected value of the left side (None: it has none)"""
    ST = "Statement"
    if name in PASS:
        v = c(PASS[name])
        return v
    if name in BINOP: return N("ExpStatement", Operation=int(E.w.consts[BINOP[name]]), Left=c(1), Right=c(3))
    if name in ("module0", "moduleBody", "moduleItems", "items1", "itemsN", "mainVars", "mainFunc") or name.startswith("$"): return None
    if name in ("noDirective", "noExport"): return PtrV("ref", 0, "Token")
    if name in ("directive", "export"): return None     # the slot invariant says it
    if name == "globals": return None                   # quantified: checked element by element
    if name in ("function", "procedure"):
        fn = name == "function"
        d = c(1)
        direct = Cases([(E.eq(st, d, PtrV("ref", 0, "Token")), S()), (Not_(E.eq(st, d, PtrV("ref", 0, "Token"))), c.lit(1))])
        return N("FunctionOrProcedure", Type=int(E.w.consts["PFTypeFunction" if fn else "PFTypeProcedure"]), Name=c.lit(3), Directive=direct, Params=c(5), Export=Not_(E.eq(st, c(7), PtrV("ref", 0, "Token"))),
                 ExplicitVariables=c(9 if fn else 8), Body=c(10 if fn else 9))
    if name == "noBody" or name == "noElse": return SeqV(ST, (), "nil")
    if name == "body1": return seq(E, ST, c(1))
    if name == "bodyN":
        n = E.eq(st, c(3), AnyV(tm=E.w.Any.nil))
        return Cases([(n, c(1)), (Not_(n), seq(E, ST, c(1), c(3)))])
    if name in ("noStmt", "noExpr"): return AnyV(tm=E.w.Any.nil)
    if name == "noVars": return "newmap"
    if name in ("vars1", "varsN"): return "vars"
    if name == "if": return N("IfStatement", Expression=c(2), TrueBlock=c(4), IfElseBlock=c(5), ElseBlock=c(6))
    if name == "noElseif": return SeqV(ST, (), "empty")
    if name == "elseif": return seq(E, ST, N("IfStatement", Expression=c(2), TrueBlock=c(4)), c(5))
    if name == "ternary": return V("TernaryStatement", Expression=c(3), TrueBlock=c(5), ElseBlock=c(7))
    if name == "foreach": return N("LoopStatement", For=B(c.lit(3), "string"), In=c(5), Body=c(8))
    if name == "for": return N("LoopStatement", For=c(2), To=c(4), Body=c(7))
    if name == "while": return N("LoopStatement", WhileExpr=c(2), Body=c(5))
    if name == "assign": return V("AssignmentStatement", Var=c(1), Expr=V("ExprStatements", Statements=seq(E, ST, c(3))))
    if name in ("stmtIf", "stmtLoop"): return B(c(1), "*IfStatement" if name == "stmtIf" else "*LoopStatement")
    if name == "label": return B(c(1), "*GoToLabelStatement")
    if name == "continue": return V("ContinueStatement")
    if name == "break": return V("BreakStatement")
    if name == "throw": return V("ThrowStatement", Param=c(2))
    if name == "return": return N("ReturnStatement", Param=c(2))
    if name == "chainN": return V("CallChainStatement", Unit=c(3), Call=c(1))
    if name in ("name", "execName"): return V("VarStatement", Name=c.lit(1))
    if name == "call": return V("MethodStatement", Name=c.lit(1), Param=c(3))
    if name == "index": return V("ItemStatement", Object=c(1), Item=c(3))
    if name == "execute": return V("MethodStatement", Name=c.lit(1), Param=V("ExprStatements", Statements=seq(E, ST, c(2))))
    if name == "executeParen": return V("MethodStatement", Name=c.lit(1), Param=V("ExprStatements", Statements=seq(E, ST, c(3))))
    if name in ("execString", "string", "number", "true", "false", "date"): return c.val(1)
    if name == "try": return V("TryStatement", Body=c(2), Catch=c(5))
    if name == "paren": return B(c(2), "ExprStatements")
    if name == "neg": return ev
    if name == "not": return ev
    if name == "goto": return V("GoToStatement", Label=c(2))
    if name == "exprs1": return V("ExprStatements", Statements=seq(E, ST, c(1)))
    if name == "exprsN":
        x = c(1); k = fidx(E, "ExprStatements", "Statements")
        return E.setf(x, (k,), seq(E, ST, E.getf(x, k), c(3)))
    if name == "undefined": return V("UndefinedStatement")
    if name == "param": return V("ParamStatement", Name=c.lit(1))
    if name == "paramValue": return V("ParamStatement", Name=c.lit(2), IsValue=True)
    if name == "paramDefault": return E.setf(c(1), (fidx(E, "ParamStatement", "Default"),), c(3))
    if name == "noParams": return SeqV("ParamStatement", (), "empty")
    if name == "params1": return seq(E, "ParamStatement", c(1))
    if name == "paramsN": return seq(E, "ParamStatement", c(1), c(3))
    if name == "newName": return V("NewObjectStatement", Constructor=c.lit(2))
    if name == "newArgs": return V("NewObjectStatement", Constructor=c.lit(2), Param=c(4))
    if name == "newFunc": return V("NewObjectStatement", Param=c(3))
    if name == "goToLabel": return N("GoToLabelStatement", Name=c.lit(1))
    if name == "ids1": return seq(E, "Token", c.f(1, "token"))
    if name == "idsN": return seq(E, "Token", c(1), c.f(3, "token"))
    raise Unsupported("no specification for production " + name)

MARK = {"$each": "loop", "$for": "loop", "$while": "loop", "$try": "try"}
def delta(p, kind):
    """change of the number of open constructs on the stack"""
    d = 1 if MARK.get(p.lhs) == kind else 0
    return d - sum(1 for X in p.rhs if MARK.get(X) == kind)

def err_cond(E, st, name, c, env):
    """when the action must report an error (z3 / bool); None: never"""
    nil = AnyV(tm=E.w.Any.nil)
    if name in ("break", "continue"): return env["loop"] == 0
    if name == "throw": return And_(env["try"] == 0, E.eq(st, c(2), nil))
    if name == "return": return And_(z3.Not(env["func"]), Not_(E.eq(st, c(2), nil)))
    if name == "bodyN":
        b = c(1); n = iz(E.seq_len(b, st))
        last = E.seq_nth(b, n - 1, st)
        return And_(E.eq(st, c.lit(2), S(":")), n > 0, Not_(bz(E.w.isbox("*GoToLabelStatement", E.to_term(last, None, st)))))
    if name in ("vars1", "varsN"):
        from decl import av_dup
        for e in st.ghost.get("events", ()):
            if e[0] == "vars": return av_dup(E)(e[2], e[3])
        return False
    return False

def value_props(name):
    p = ["C10"]
    if name in ("neg", "not", "pos"): p.append("C12")
    if name in BINOP: p.append("C11")
    if name in ("globals", "vars1", "varsN", "function", "procedure", "body1", "bodyN", "directive", "export", "noDirective", "noExport", "someBody", "noBody", "noVars", "someVars", "ids1", "idsN"): p.append("C09")
    if name in ("string", "number", "true", "false", "date", "execString"): p.append("C04")
    return tuple(p)

# ------------------------------------------------------------------ the machine
def mentions(t, names, cache):
    i = t.get_id()
    r = cache.get(i)
    if r is not None: return r[0]
    n = t.decl().name() if z3.is_app(t) else ""
    r = n in names or n.startswith("tbl:") or any(mentions(c, names, cache) for c in t.children())
    cache[i] = (r, t)
    return r

class ParseEngine(Engine):
    """engine that knows the parser's tables: a formula over the state below a reduction (Q) is decided for each possible Q"""
    Q = None; qset = ()
    _qm = {}
    def qev(self, t, q, memo):
        """value of a term over Q and the tables, None when it is about something else"""
        i = t.get_id()
        if i in memo: return memo[i]
        r = None
        if z3.is_int_value(t): r = t.as_long()
        elif z3.is_true(t): r = True
        elif z3.is_false(t): r = False
        elif z3.is_app(t):
            n = t.decl().name(); ch = t.children(); k = t.decl().kind()
            if not ch: r = q if n == self.Q.decl().name() else None
            else:
                v = [self.qev(c, q, memo) for c in ch]
                if k == z3.Z3_OP_AND: r = False if any(x is False for x in v) else (True if all(x is True for x in v) else None)
                elif k == z3.Z3_OP_OR: r = True if any(x is True for x in v) else (False if all(x is False for x in v) else None)
                elif k == z3.Z3_OP_IMPLIES: r = True if v[0] is False or v[1] is True else (False if v[0] is True and v[1] is False else None)
                elif k == z3.Z3_OP_ITE: r = v[1] if v[0] is True else v[2] if v[0] is False else None
                elif any(x is None for x in v): r = None
                elif k == z3.Z3_OP_NOT: r = not v[0]
                elif k == z3.Z3_OP_ADD: r = sum(v)
                elif k == z3.Z3_OP_SUB: r = v[0] - sum(v[1:])
                elif k == z3.Z3_OP_UMINUS: r = -v[0]
                elif k == z3.Z3_OP_MUL:
                    r = 1
                    for x in v: r *= x
                elif k == z3.Z3_OP_LE: r = v[0] <= v[1]
                elif k == z3.Z3_OP_LT: r = v[0] < v[1]
                elif k == z3.Z3_OP_GE: r = v[0] >= v[1]
                elif k == z3.Z3_OP_GT: r = v[0] > v[1]
                elif k == z3.Z3_OP_EQ: r = v[0] == v[1]
                elif k == z3.Z3_OP_DISTINCT: r = len(set(v)) == len(v)
                elif n.startswith("tbl:"):
                    a = self.globals[n[4:]].lst
                    r = int(a[v[0]]) if 0 <= v[0] < len(a) else None
        memo[i] = r
        return r
    def check(self, st, extra, timeout=None, fuel=2, model=False):
        if self.Q is None: return Engine.check(self, st, extra, timeout, fuel, model)
        names = (self.Q.decl().name(),)
        pcq = [f for f in st.pc if mentions(f, names, self._qm)]
        exq = [f for f in extra if mentions(f, names, self._qm)]
        exo = [f for f in extra if not mentions(f, names, self._qm)]
        class P: pass
        p = P(); p.pc = [f for f in st.pc if not mentions(f, names, self._qm)]
        def sub(f, q): return f
        qs = [q for q in self.qset if not any(self.qev(f, q, {}) is False for f in pcq)]
        res = (z3.unsat, None)
        plain = False
        for q in qs:
            v = [self.qev(f, q, {}) for f in exq]
            if any(x is False for x in v): continue
            if all(x is True for x in v): plain = True; continue
            mixed = [self.qsub(f, q) for f, x in zip(exq, v) if x is None]
            r, m = Engine.check(self, p, exo + mixed, timeout, fuel, True)
            if r != z3.unsat: res = (r, m); break
        if res[0] == z3.unsat and plain: res = Engine.check(self, p, exo, timeout, fuel, True)
        return res if model else res[0]
    def qsub(self, f, q):
        f = z3.substitute(f, (self.Q, z3.IntVal(q)))
        def ev(t):
            if not z3.is_app(t) or t.num_args() == 0: return t
            ch = [ev(c) for c in t.children()]
            n = t.decl().name()
            if n.startswith("tbl:"):
                c = conc(norm(ch[0])); a = self.globals[n[4:]].lst
                if c is not None and 0 <= c < len(a): return z3.IntVal(int(a[c]))
            return t.decl()(*ch)
        return z3.simplify(ev(f))

class GlobLoops(NoLoopSpec):
    """the loop that fills the list of declared variables, seen at one arbitrary index"""
    def __init__(self, J, want, zero, n=None): self.J, self.want, self.zero, self.fresh, self.n = J, want, zero, set(), n
    def accs(self, W):
        out = [("phi:" + r, v) for r, v in W.phi.items()] + [("loc:%r" % (p,), v) for p, v in W.loc]
        return {n: v for n, v in out if isinstance(v, SeqV) and v.elem == "GlobalVariables" or isinstance(v, ArrSlice) and v.elem == "GlobalVariables"}
    def cands(self, lc, V):
        out = []; J = self.J; E = lc.E
        Ve = lc.valuation_entry([p for p, v in V.loc]); entry = self.accs(Ve)
        for an, v in self.accs(V).items():
            # a list built from nothing inside the action belongs to the loop that extends it
            e = entry.get(an)
            if e is not None and (isinstance(e, ArrSlice) and lc.entry.arrays[e.arr].lst == [] or isinstance(e, SeqV) and not e.parts) and isinstance(v, SeqV):
                self.fresh |= {str(q[1]) for q in v.parts if q[0] == "s"}
        def acc(W, an):
            v = self.accs(W)[an]
            return E.freeze(v, W.st) if isinstance(v, ArrSlice) else v
        for an in self.accs(V):
            for r, v in V.phi.items():
                if not (isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS): continue
                for d in (0, 1):
                    out.append(("%s has %s+%d entries" % (an, r, d), lambda W, r=r, d=d, an=an: norm(iz(E.seq_len(acc(W, an), W.st)) == iz(W.phi[r]) + d)))
            def g(W, an=an):
                a = acc(W, an)
                if not a.parts: return True
                return z3.Implies(z3.And(J >= 0, J < iz(E.seq_len(a, W.st))), E.to_term(E.seq_nth(a, J, W.st), "GlobalVariables", W.st) == self.want)
            out.append(("the entries of %s are filled" % an, g))
        for r, v in V.phi.items():
            if not (isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and v.sort() == IntS): continue
            for d in (0, 1):
                out.append(("%s+%d >= 0" % (r, d), lambda W, r=r, d=d: norm(iz(W.phi[r]) + d >= 0)))
                if self.n is not None: out.append(("%s+%d <= the number of names" % (r, d), lambda W, r=r, d=d: norm(iz(W.phi[r]) + d <= self.n)))
                for aid, a in lc.entry.arrays.items():
                    if isinstance(a, StkArr) or a.lst is not None or a.elem != "GlobalVariables": continue
                    def g(W, r=r, d=d, aid=aid):
                        return z3.Implies(z3.And(J >= 0, J < a_len(W, aid)), z3.Select(W.st.arrays[aid].arr, J) == z3.If(J < iz(W.phi[r]) + d, self.want, self.zero))
                    out.append(("the first %s+%d entries of the list are filled" % (r, d), g))
        return out
def a_len(W, aid): return iz(W.st.arrays[aid].len)

class Machine:
    def __init__(self, E):
        self.E = E
        if PARSE not in E.w.funcs: raise Unsupported("no function " + PARSE)
        self.fn = E.w.funcs[PARSE]
        E.cur = PARSE; E.curprops = ("C11", "C10"); E.safety_props = ("C19", "C11")
        E.stack_elem = "yySymType"
        E.cutfn = PARSE
        self.I = get_iso(E)
        if self.I.problems: raise Unsupported("the tables do not match the grammar: " + "; ".join(self.I.problems[:3]))
        E.contracts = dict(E.contracts)
        E.contracts["(*AstNode).Error"] = PError()
        E.contracts["(*AstNode).Lex"] = PLex()
        E.contracts["(*ModuleStatement).Append"] = PAppend()
        for n in ("unaryMinus", "not"): E.contracts[n] = PSign(n)
        E.contracts["appendVarStatements"] = PVars()
        loops = E.natural_loops(self.fn)
        B = self.fn["blocks"]
        def reads(b, tab): return any(i["op"] == "indexaddr" and i["x"].get("k") == "global" and i["x"]["n"] == tab for i in B[b]["instrs"])
        outer = [h for h, b in loops.items() if all(o == h or h not in loops[o] for o in loops)]
        outer = [h for h in outer if any(reads(b, "yyR2") for b in loops[h])]
        if len(outer) != 1: raise Unsupported("the main loop of the parser is not recognised")
        self.H1 = outer[0]
        self.H2 = None; self.HR = None
        inner = [h for h in loops if h != self.H1 and h in loops[self.H1]]
        for h in inner:
            if reads(h, "yyPact"): self.H2 = h
        # the loop that pops the stack after an error: its body reads yyPact and is not H2
        for h in inner:
            if h != self.H2 and any(reads(b, "yyPact") for b in loops[h]) and not any(reads(b, "yyDef") for b in loops[h]): self.HR = h
        if self.H2 is None or self.HR is None: raise Unsupported("the loops of the parser are not recognised")
        self.cuts = (self.H1, self.H2, self.HR)
        self.astf = {f["name"]: k for k, f in enumerate(E.w.T("AstNode")["fields"])}
        def opened(n):
            v = TermV("yySymType", z3.Const(n, E.w.sort("yySymType")))
            return StructV("yySymType", [E.getf(v, k) for k in range(len(E.w.T("yySymType")["fields"]))])
        self.VAL = opened("VAL"); self.LVAL = opened("LVAL"); self.SLOT = opened("slot0")
        E._toksort = {t: TermV("Token", z3.Const("lextok:" + t, E.w.sort("Token"))) for t in lalr().terms}
        self.P = z3.Int("P"); self.LEN = z3.Int("LEN")
        self.role = {}

    def res(self, kind, what, ok, detail="", props=None):
        self.E.obls.append(Obl(self.E.cur, kind, what, "y.go", bool(ok), detail, 0, props or self.E.curprops))

    # --- P0: from the call to the first arrival at the head of the main loop
    def entry(self):
        E = self.E
        st = State(E.w)
        r = PtrV("ref", z3.Int("in:rcvr"), "yyParserImpl"); a = PtrV("ref", z3.Int("in:ast"), "AstNode")
        self.r = r; E.p_ast = a
        self.known_refs(st)
        E.stack_base = z3.IntVal(-1)
        st.ghost["events"] = ()
        start(E, PARSE, st, [r, AnyV(t="*AstNode", v=a)])
        fs = self.run(st)
        if len(fs) != 1 or fs[0].cut != ("block", self.H1): raise Unsupported("the start of the parser")
        s = fs[0]
        self.cells = {}
        for b in self.fn["blocks"]:
            for i in b["instrs"]:
                if i["op"] == "alloc" and i.get("c") in ("yystate", "yytoken", "yyVAL"): self.cells[i["c"]] = i["r"]
        if len(self.cells) != 3: raise Unsupported("cells of the parser")
        self.s0 = s
        self.arrive(s, self.H1, z3.IntVal(-1))
        sl = self.stack(s)
        self.res("invariant", "the parser starts with an empty stack, in the initial state, with no token read and no error", sl is not None and sl.origin in ("initial", "new") and not sl.wr and conc(norm(sl.len)) is not None and conc(norm(sl.len)) >= 1
                 and conc(E.load(s, self.cell(s, "yystate"))) == 0 and conc(E.load(s, self.cell(s, "yytoken"))) == -1 and conc(E.load(s, self.rc("char"))) == -1 and s.ghost["events"] == ())
        return s

    def known_refs(self, st):
        for x in (self.r, self.E.p_ast):
            self.E.bound(st, x.base); st.assume(z3.And(x.base > 0, x.base <= BASE))

    def run(self, st, table=None, cuts=None):
        E = self.E
        E.cutblocks = cuts or self.cuts; E.cuttable = table; E.cutstates = []
        fin = E.run(st)
        for f in fin: f.cut = ("return", None)
        r = E.cutstates + fin
        E.cutstates = []
        return r

    def live_vals(self, s):
        fr = s.frames[-1]
        return {r: fr.regs[r] for r in live_at(self.fn, fr.blk, fr.idx) if r in fr.regs}

    def roles(self, s, top):
        """role of every live register at a cut"""
        E = self.E; out = {}
        for r, v in self.live_vals(s).items():
            if isinstance(v, ArrSlice) and isinstance(s.arrays[v.arr], StkArr):
                if conc(norm(v.lo)) != 0: raise Unsupported("the parser's stack is a part of an array")
                out[r] = ("stack",)
            elif isinstance(v, PtrV) and v.kind == "ref" and not v.path: out[r] = ("ref", str(v.base), v.T)
            elif isinstance(v, (AnyV, FuncV)): out[r] = ("fix", repr(v) if isinstance(v, AnyV) else v.fn)
            elif isinstance(v, bool): out[r] = ("bool", v)
            elif isinstance(v, int) or z3.is_expr(v) and v.sort() == IntS:
                d = conc(norm(iz(v) - top))
                if d == 0: out[r] = ("top", 0)
                else:
                    c = conc(norm(v))
                    if c is None: raise Unsupported("register %s at a cut of the parser" % r)
                    out[r] = ("int", c)
            else: raise Unsupported("register %s at a cut of the parser: %r" % (r, v))
        return out

    def arrive(self, s, key, top):
        """the registers at a cut play the same roles every time"""
        r = self.roles(s, top)
        s.ghost["top"] = top
        if key not in self.role:
            self.role[key] = (r, s); return True
        return self.role[key][0] == r

    def stack(self, s):
        st = [v for v in self.live_vals(s).values() if isinstance(v, ArrSlice) and isinstance(s.arrays[v.arr], StkArr)]
        if len({v.arr for v in st}) != 1: return None
        a = s.arrays[st[0].arr]
        return a if norm(iz(st[0].len) - iz(a.len)) == 0 else None

    def cell(self, s, name): return s.frames[0].regs[self.cells[name]]
    def rc(self, f): return PtrV("ref", self.r.base, "yyParserImpl", (fidx(self.E, "yyParserImpl", f),))

    def make(self, key, state, tok, char, slots, n=None):
        """a general state at a cut: the invariant of the parser's loop and nothing else"""
        E = self.E
        rl, rep = self.role[key]
        st = State(E.w)
        st.nref = self.s0.nref + 100
        old = rep.frames[-1]
        fr = Frame(old.fn); fr.blk, fr.idx, fr.pred = old.blk, old.idx, old.pred; fr.defers = list(old.defers); fr.bind = old.bind
        st.frames = [fr]
        self.known_refs(st)
        P, LEN = self.P, self.LEN
        E.stack_base = P
        aid = "stk"
        st.arrays[aid] = StkArr("yySymType", P, LEN, "stk", dict(slots))
        st.assume(z3.And(P < LEN, P >= -1, LEN >= 1, LEN < 2**62))
        for r, k in rl.items():
            if k[0] == "stack": fr.regs[r] = ArrSlice("yySymType", aid, 0, LEN)
            elif k[0] == "top": fr.regs[r] = norm(P + k[1])
            elif k[0] == "n": fr.regs[r] = n
            else: fr.regs[r] = old.regs[r]
        # what the deferred function and the cells are reached through
        for r, v in self.s0.frames[-1].regs.items():
            if r not in fr.regs and (isinstance(v, FuncV) or isinstance(v, PtrV) and v.kind == "ref" and conc(v.base) is not None): fr.regs[r] = v
        for T, m in self.s0.mem.items():
            st.mem[T] = MemArr(m.base, tuple((r, v) for r, v in m.ups if conc(r) is not None and conc(r) > BASE))
        E.store(st, self.cell(st, "yystate"), state); E.store(st, self.cell(st, "yytoken"), tok)
        E.store(st, self.cell(st, "yyVAL"), self.VAL)
        E.store(st, self.rc("char"), char)
        E.store(st, self.rc("lval"), self.LVAL)
        st.writes = []
        st.ghost["events"] = ()
        st.mem0 = {k: {str(r): v for r, v in m.ups} for k, m in st.mem.items()}
        E.mem0 = st.mem0
        return st

    def same_ast(self, s, base, fields=()):
        """conditions: fields of the AstNode other than these are unchanged"""
        E = self.E; out = []
        a, b = E.load(s, E.p_ast), E.load(base, E.p_ast)
        if a is b or isinstance(a, TermV) and isinstance(b, TermV) and a.t.eq(b.t): return []
        for n, k in self.astf.items():
            if n in fields: continue
            out.append((n, bz(E.eq(s, E.getf(a, k), E.getf(b, k)))))
        return out

    # --- P1: pushing a state
    def push(self):
        E = self.E; P = self.P
        STATE, TOK, CHAR = z3.Int("STATE"), z3.Int("TOK"), z3.Int("CHAR")
        st = self.make(self.H1, STATE, TOK, CHAR, {})
        base = st.copy()
        k = 0
        for s in self.run(st):
            k += 1
            if s.cut != ("block", self.H2): self.res("invariant", "after the push the parser looks at the new state", False, str(s.cut)); continue
            a = self.stack(s)
            ok = a is not None and a.origin == "stk" and set(a.wr) == {1} and self.arrive(s, self.H2, norm(P + 1))
            self.res("invariant", "a push writes one slot above the top and keeps the slots below", ok)
            if not ok: continue
            want = E.setf(self.VAL, (fidx(E, "yySymType", "yys"),), STATE)
            E.obl(s, "invariant", "the slot pushed holds the value and the state", E.eq(s, a.known[1], want))
            E.obl(s, "invariant", "the stack has room for the slot pushed", z3.And(iz(P) + 1 < iz(a.len), iz(P) + 1 >= 0))
            for nm, v in (("yystate", STATE), ("yytoken", TOK)): E.obl(s, "invariant", "a push keeps %s" % nm, E.eq(s, E.load(s, self.cell(s, nm)), v))
            E.obl(s, "invariant", "a push keeps the token read", And_(E.eq(s, E.load(s, self.rc("char")), CHAR), E.eq(s, E.load(s, self.rc("lval")), self.LVAL), s.ghost["events"] == ()))
            for n, c in self.same_ast(s, base): E.obl(s, "frame", "a push keeps AstNode.%s" % n, c)
        self.res("cover", "the push is reached", k > 0)

    def squash(self, n0, what):
        """keep the failures among the obligations since n0, and one line for the others"""
        new = self.E.obls[n0:]; bad = [o for o in new if not o.ok]
        del self.E.obls[n0:]
        by = {}
        for o in new:
            if o.ok: by.setdefault((o.kind, tuple(o.props)), []).append(o)
        for (k, p), os_ in by.items(): self.E.obls.append(Obl(self.E.cur, k, "%s: %d %s obligations" % (what, len(os_), k), "y.go", True, "", sum(o.t for o in os_), p))
        self.E.obls.extend(bad)

    # --- P2: choosing the action
    def choose(self, states):
        E = self.E; T = self.I.T; tn = self.I.tn; C = codes(E); P = self.P
        terms = sorted(tn)
        for cs in states:
            n0 = len(E.obls)
            okall = []
            cases = [(None, -1, -1), (None, -1, 1)] + [(t, C[t], tn[t]) for t in terms if C[t] >= 0]
            for t, ch, tk in cases:
                slot = E.setf(self.SLOT, (fidx(E, "yySymType", "yys"),), cs)
                st = self.make(self.H2, cs, tk, ch, {0: slot})
                st.assume(P >= 0)
                base = st.copy()
                fs = self.run(st, table="yyR2")
                seen = set()
                for s in fs:
                    ev = s.ghost["events"]
                    lx = [e[1] for e in ev if e[0] == "lex"]
                    er = [e for e in ev if e[0] == "error"]
                    if t is not None and lx or any(x != "$end" for x in lx[:-1]): okall.append("reads a token and drops it"); continue
                    la = t if t is not None else lx[-1] if lx else None
                    seen.add(la)
                    if len(lx) > 1:     # the end was read, and again
                        if lx[-1] != "$end" and not s.ghost.get("bad"): okall.append("reads past the end"); continue
                        want = {T.default(cs, tn[la])}
                        if want == {("e",)} or want == {("a",)} or next(iter(want)) in {T.action(cs, x) for x in tn.values()}: pass
                        else: okall.append("another reduction after a reading error"); continue
                    else: want = {T.action(cs, tn[x]) for x in ([la] if la else terms)}
                    if len(want) != 1: okall.append("acts without looking at the token"); continue
                    okall.append(self.outcome(s, base, cs, la, want.pop(), ev, er, t is not None))
                if not seen: okall.append("nothing is reached")
                if t is None and seen != {None} and not seen >= set(terms): okall.append("some token has no action")
            bad = [x for x in okall if x is not True]
            self.squash(n0, "state %d" % cs)
            self.res("post", "in state %d the parser does for every token what the tables say (%d cases)" % (cs, len(okall)), not bad, "; ".join(map(str, bad[:5])))

    def outcome(self, s, base, cs, la, want, ev, er, had):
        """True, or what is wrong"""
        E = self.E; T = self.I.T; C = codes(E)
        def ld(n): return E.load(s, self.cell(s, n))
        if want[0] == "a":
            return True if s.cut[0] == "return" and conc(s.result[0]) == 0 and not er else "does not accept"
        a = self.stack(s) if s.cut[0] != "return" else None
        if a is None or a.origin != "stk" or a.wr: return "the stack is changed before the action (%s)" % (s.cut,)
        allow = ("err", "currentToken") if not had and la is not None or er else ()
        for n, c in self.same_ast(s, base, allow):
            if c is not True and not z3.is_true(z3.simplify(c)): return "AstNode.%s is changed" % n
        tok = (C[la], self.I.tn[la]) if la is not None else None
        def token_kept():
            ch, tk = conc(norm(E.load(s, self.rc("char")))), conc(norm(ld("yytoken")))
            lv = E.load(s, self.rc("lval"))
            if la is None: return ch == -1 and tk in (-1, 1) and E.eq(s, lv, self.LVAL) is True
            if (ch, tk) != tok: return False
            if had: return E.eq(s, lv, self.LVAL) is True
            return self.read_token(s, lv, la)
        if want[0] == "s":
            if s.cut != ("block", self.H1) or er: return "does not shift %s" % la
            if not self.arrive(s, self.H1, self.P): return "counters at a shift"
            if conc(ld("yystate")) != want[1] or conc(E.load(s, self.rc("char"))) != -1 or conc(ld("yytoken")) != -1: return "shifts %s to another state" % la
            v = ld("yyVAL")
            return True if (E.eq(s, v, self.LVAL) is True if had else self.read_token(s, v, la)) else "the slot does not get the token %s" % la
        if want[0] == "r":
            if s.cut != ("table", "yyR2") or er: return "does not reduce on %s" % la
            i = self.fn["blocks"][s.frames[-1].blk]["instrs"][s.frames[-1].idx]
            n = conc(norm(E.val(s, s.frames[-1], i["i"])))
            if n != want[1]: return "reduces %s instead of %s" % (n, want[1])
            if not self.arrive_r(s, n): return "registers at a reduction"
            return True if token_kept() else "the token is lost before a reduction"
        if len(er) != 1: return "no error is reported on %s" % la
        if s.cut != ("block", self.HR): return "an error does not end the parse"
        return True if self.arrive(s, self.HR, self.P) else "counters at an error"

    def read_token(self, s, lv, la):
        E = self.E; k = fidx(E, "yySymType", "token")
        want = E.setf(self.LVAL, (k,), E._toksort[la])
        return E.eq(s, lv, want) is True or E.decide(s, bz(E.eq(s, lv, want))) is True

    def arrive_r(self, s, n):
        """roles at the reduction; integers are settled once several reductions were seen (fix_roles)"""
        r = self.roles(s, self.P)
        if "R" not in self.role:
            self.role["R"] = (r, s); self.rseen = {}
        have = self.role["R"][0]
        if set(have) != set(r): return False
        for k, v in r.items():
            if v[0] == "int": self.rseen.setdefault(k, set()).add((n, v[1]))
            elif have[k] != v: return False
        return True
    def fix_roles(self):
        """every integer register at a reduction holds the production's number or one constant"""
        r, s = self.role["R"]; out = dict(r); ok = True
        for k, vs in self.rseen.items():
            if r[k][0] != "int": ok = False
            elif all(n == v for n, v in vs) and len(vs) > 1: out[k] = ("n",)
            elif len({v for n, v in vs}) == 1: out[k] = ("int", next(iter(vs))[1])
            else: ok = False
        self.role["R"] = (out, s)
        self.res("invariant", "at a reduction every register holds the stack, its top, the production or a constant", ok)
        return ok

    # --- after an error: slots are popped until none is left
    def recover(self):
        E = self.E; P = self.P
        n0 = len(E.obls); bad = []
        ys = fidx(E, "yySymType", "yys")
        for q in sorted(self.I.ss):
            slot = E.setf(self.SLOT, (ys,), q)
            st = self.make(self.HR, 0, 0, 0, {0: slot})
            base = st.copy(); k = 0
            for s in self.run(st):
                k += 1
                if s.ghost["events"]: bad.append("events while popping"); continue
                for n, c in self.same_ast(s, base):
                    if not z3.is_true(z3.simplify(c)): bad.append("AstNode.%s" % n)
                if s.cut[0] == "return":
                    if conc(s.result[0]) == 0: bad.append("success after an error")
                    continue
                if s.cut != ("block", self.HR): bad.append("state %d continues after an error" % q); continue
                a = self.stack(s)
                if a is None or a.wr or not self.pops(s): bad.append("pop in state %d" % q)
            if not k: bad.append("nothing is reached from state %d" % q)
        self.squash(n0, "after an error")
        self.res("post", "after an error the parser pops its stack and fails, in each of the %d states" % len(self.I.ss), not bad, "; ".join(bad[:5]), props=("C07", "C11"))

    def pops(self, s):
        rl, _ = self.role[self.HR]
        r = self.roles(s, norm(self.P - 1))
        # with P = -1 excluded by the loop's own test
        return r == rl

    # --- P3: one reduction
    def reduce(self, name):
        E = self.E; I = self.I; L = I.L; P = self.P
        p = next(k for k, x in enumerate(L.prods) if x.name == name)
        n = I.prod[p]; rhs = L.prods[p].rhs; lhs = L.prods[p].lhs; k = len(rhs)
        E.cur = "%s: action of %s -> %s" % (PARSE, lhs, " ".join(rhs) or "(empty)")
        ys = fidx(E, "yySymType", "yys")
        slots = {j: TermV("yySymType", z3.Const("slot%d" % (j + k), E.w.sort("yySymType"))) for j in range(1 - k, 1)}
        Q = z3.Int("Q"); E.Q = Q; E.qset = tuple(sorted(I.below[n]))
        if not E.qset: self.res("cover", "some state is below the reduction", False); return
        slots[-k] = E.setf(slots.get(-k) or TermV("yySymType", z3.Const("slotq", E.w.sort("yySymType"))), (ys,), Q)
        CHAR, TOK = z3.Int("CHAR"), z3.Int("TOK")
        st = self.make("R", z3.Int("STATE"), TOK, CHAR, slots, n)
        st.assume(P - k >= min(I.dist[q] for q in E.qset))     # slot j never holds a state nearer to the start than j steps
        kids = [slots[j] for j in range(1 - k, 1)]
        c = Children(E, st, rhs, kids)
        for X, v in zip(rhs, kids):
            for w_, f in sym_inv(E, X, v, st): st.assume(f)
            wf = wf_inv(E, X, v, st)
            if wf is not None: st.assume(wf)
            pv = E.getf(v, fidx(E, "yySymType", FIELD.get(X, "token")))
            if isinstance(pv, PtrV) and pv.kind == "ref": st.assume(z3.And(iz(pv.base) >= 0, iz(pv.base) <= BASE))    # older objects only
        ast0 = E.load(st, E.p_ast)
        env = {}
        def af(v, f): return E.getf(v, self.astf[f])
        env["loop"], env["try"], env["func"] = iz(af(ast0, "isLoop")), iz(af(ast0, "isTry")), bz(af(ast0, "isFunction"))
        # the counters are the numbers of open constructs on the stack
        nl = sum(1 for X in rhs if MARK.get(X) == "loop"); nt = sum(1 for X in rhs if MARK.get(X) == "try")
        st.assume(z3.And(env["loop"] >= nl, env["try"] >= nt, env["loop"] < 2**30, env["try"] < 2**30))
        base = st.copy(); first = st.nref
        E.loopspec = None
        if name == "globals": self.globals_spec(E, st, c, base)
        reach = 0
        # a list is extended only by its owner: the slot whose symbol is consumed by this reduction, once
        def owner(s, a, b):
            if E.quiet: return
            a = E.freeze(a, s) if isinstance(a, ArrSlice) else a
            old = [q for q in a.parts if q[0] == "s"]
            if not old: return
            own = []
            for X, v in zip(rhs, kids):
                for fn_ in (FIELD.get(X),):
                    if fn_ is None: continue
                    w_ = E.getf(v, fidx(E, "yySymType", fn_))
                    if isinstance(w_, StructV) or isinstance(w_, TermV):
                        try: w_ = E.getf(w_, fidx(E, w_.T, "Statements"))
                        except Unsupported: continue
                    if isinstance(w_, SeqV): own.append(w_.parts)
            # (values made by a contract are compared as terms)
            ok = any(len(o_) == len(a.parts) and all(x[0] == y[0] and (x[0] != "s" or x[1].eq(y[1])) for x, y in zip(o_, a.parts)) for o_ in own)
            if not ok and isinstance(E.contracts.get(E.cur), Contract) and isinstance(E.contracts[E.cur].loops, GlobLoops):
                ok = all(str(q[1]) in E.contracts[E.cur].loops.fresh for q in old)
            used = s.ghost.get("extended", ())
            key = str([q[1] for q in old])
            E.obl(s, "frame", "a list is extended only by its owner, once", ok and key not in used, props=("C10", "C17"))
            s.ghost["extended"] = used + (key,)
        E.on_append = owner
        for s in self.run(st):
            reach += 1
            if s.cut != ("block", self.H1):
                self.res("post", "after a reduction its left side is pushed", False, str(s.cut)); continue
            a = self.stack(s)
            ok = a is not None and a.origin == "stk" and not a.wr and self.arrive(s, self.H1, norm(P - k))
            self.res("post", "the reduction removes exactly the %d symbols of the right side and nothing else, and keeps the counters" % k, ok, props=("C11", "C10"))
            if not ok: continue
            # the state entered
            have = iz(E.load(s, self.cell(s, "yystate")))
            A = I.nt[lhs]
            for q in E.qset:
                if any(E.qev(f, q, {}) is False for f in s.pc if mentions(f, (Q.decl().name(),), E._qm)): continue
                v = E.qev(have, q, {})
                if v != I.edges[q].get(lhs): self.res("post", "after the reduction in state %d the parser is in the state the grammar says" % q, False, "%s instead of %s" % (v, I.edges[q].get(lhs)), props=("C11", "C10"))
            self.res("post", "the state entered is the grammar's, for each of the %d states below" % len(E.qset), True, props=("C11", "C10"))
            E.obl(s, "post", "a reduction keeps the token read", And_(E.eq(s, E.load(s, self.rc("char")), CHAR), E.eq(s, E.load(s, self.cell(s, "yytoken")), TOK), E.eq(s, E.load(s, self.rc("lval")), self.LVAL)), props=("C10", "C11"))
            self.judge(s, base, name, p, c, env, first)
        self.res("cover", "the action of %s is reached" % name, reach > 0, props=("C10", "C11", "C19"))
        E.Q = None; E.on_append = None

    def judge(self, s, base, name, p, c, env, first):
        """value, events, flags and frame of an action"""
        E = self.E; I = self.I; lhs, rhs = I.L.prods[p].lhs, I.L.prods[p].rhs
        vp = value_props(name)
        val = E.load(s, self.cell(s, "yyVAL"))
        evs = s.ghost["events"]
        errs = [e for e in evs if e[0] == "error"]
        apps = [e for e in evs if e[0] == "append"]
        signs = [e for e in evs if e[0] == "sign"]
        vars_ = [e for e in evs if e[0] == "vars"]
        # errors
        ec = err_cond(E, s, name, c, env)
        eprop = {"break": ("C08", "C07"), "continue": ("C08", "C07"), "throw": ("C08", "C07"), "return": ("C08", "C07"), "vars1": ("C09", "C07"), "varsN": ("C09", "C07")}.get(name, ("C07", "C10"))
        if errs:
            E.obl(s, "post", "an error is reported only where the language forbids the construct", ec, props=eprop)
            E.obl(s, "post", "an error is recorded", z3.Not(bz(E.eq(s, E.getf(E.load(s, E.p_ast), self.astf["err"]), AnyV(tm=E.w.Any.nil)))), props=eprop)
            if name in I.empty_prods: self.res("precondition", "an error is reported only after a token was read", False, props=("C06", "C07"))
        else:
            E.obl(s, "post", "no error is reported where the language allows the construct, and one is where it does not", Not_(ec), props=eprop)
        # calls
        want = EVENTS.get(name)
        self.res("post", "the action appends to the module exactly what it must", len(apps) == (1 if want == "append" else 0), props=("C09", "C10"))
        if want == "append" and len(apps) == 1:
            i = {"moduleBody": 1, "moduleItems": 2, "mainVars": 1, "mainFunc": 1}[name]
            X = rhs[i - 1]; t = {"body": "Statements", "opt_body": "Statements", "global_variables": "[]GlobalVariables", "funcProc": "*FunctionOrProcedure"}[X]
            E.obl(s, "post", "the symbol's value is appended to the module", match(E, s, apps[0][1], B(c(i), t), first), props=("C09", "C10"))
        ev = None
        if want == "sign":
            ok = len(signs) == 1 and signs[0][1] == {"neg": "unaryMinus", "not": "not"}[name]
            self.res("post", "the sign is applied once", ok, props=("C12",))
            if not ok: return
            E.obl(s, "post", "the sign is applied to the operand", signs[0][2] == E.to_term(c(2), None, s), props=("C12",))
            ev = AnyV(tm=z3.Function("spec:" + signs[0][1], E.w.Any, E.w.Any)(E.to_term(c(2), None, s)))
        else: self.res("post", "no sign is applied", not signs, props=("C12",))
        # value
        if name == "globals": self.globals_post(s, c, val, vp)
        elif want == "vars":
            ok = len(vars_) == 1
            self.res("post", "the declared names are entered once", ok, props=("C09",))
            if ok: self.vars_post(s, name, c, val, vars_[0], ec, first)
        else:
            self.res("post", "no names are entered", not vars_, props=("C09",))
            sp = spec(E, name, c, s, ev)
            if sp is not None:
                h = E.getf(val, fidx(E, "yySymType", FIELD[lhs]))
                if isinstance(sp, str) and sp == "newmap":
                    ok = isinstance(h, MapV) and conc(h.ref) is not None and conc(h.ref) > first
                    self.res("post", "no declarations are an empty new map", ok, props=vp)
                    if ok: E.obl(s, "post", "no declarations are an empty map", E.map_content(s, h) == z3.K(Str, E.optsort(h.T).none), props=vp)
                else:
                    E.obl(s, "post", "the node of %s is built from its parts" % name, match(E, s, h, sp, first), props=vp)
            if name in ("directive", "export"):
                h = E.getf(val, fidx(E, "yySymType", FIELD[lhs]))
                E.obl(s, "post", "the token is present", Not_(E.eq(s, h, PtrV("ref", 0, "Token"))), props=vp)
                E.obl(s, "post", "the slot keeps the token", E.eq(s, E.getf(E.getf(val, fidx(E, "yySymType", "token")), fidx(E, "Token", "literal")), c.lit(1)), props=vp)
        for w_, f in sym_inv(E, lhs, val, s): E.obl(s, "invariant", w_, f, props=vp + ("C19",))
        if lhs in WFCLASS:
            t = s.copy(); wf_new(E, t, first)
            E.obl(t, "invariant", "the tree of %s is well formed" % lhs, wf_inv(E, lhs, val, t), props=WFPROPS)
        # flags
        a = E.load(s, E.p_ast)
        E.obl(s, "post", "the number of open loops follows the loops on the stack", iz(E.getf(a, self.astf["isLoop"])) == env["loop"] + delta(I.L.prods[p], "loop"), props=("C08",))
        E.obl(s, "post", "the number of open handlers follows the handlers on the stack", iz(E.getf(a, self.astf["isTry"])) == env["try"] + delta(I.L.prods[p], "try"), props=("C08",))
        f = bz(E.getf(a, self.astf["isFunction"]))
        E.obl(s, "post", "the parser knows whether it is in a function", f == (z3.BoolVal(True) if name == "$func" else z3.BoolVal(False) if name == "function" else env["func"]), props=("C08",))
        # frame
        allow = ["isLoop", "isTry", "isFunction"] + (["err"] if errs or apps else []) + (["ModuleStatement"] if apps else [])
        for n_, cnd in self.same_ast(s, base, allow): E.obl(s, "frame", "the action keeps AstNode.%s" % n_, cnd, props=("C17", "C07", "C06") if n_ != "err" else ("C07",))
        for T, m in s.mem.items():
            b0 = base.mem.get(T)
            if T in ("AstNode", "yyParserImpl"): continue
            if T == "ExpStatement" and signs: continue      # the sign's own contract says what it may mark
            for (r, v) in m.ups:
                cr = conc(r)
                if cr is not None and cr > BASE: continue
                if T.startswith("map:") and (vars_ or apps): continue
                E.obl(s, "frame", "the action writes no older object of type %s" % T, False, props=("C17", "C10"))
            if (b0.base if b0 else z3.Const("mem0:" + T, m.base.sort())).eq(m.base): continue
            E.obl(s, "frame", "the action writes no older object of type %s" % T, False, props=("C17", "C10"))

    def vars_post(self, s, name, c, val, e, ec, first):
        E = self.E
        _, m, c0, toks = e
        h = E.getf(val, fidx(E, "yySymType", "explicit_variables"))
        lst = c(2) if name == "vars1" else c(3)
        E.obl(s, "post", "the names entered are the declared ones", E.eq(s, SeqV("Token", [("s", toks)]), lst), props=("C09", "C10"))
        if name == "vars1":
            E.obl(s, "post", "the first declaration starts from an empty map", And_(conc(m.ref) is not None and conc(m.ref) > first, c0 == z3.K(Str, E.optsort(m.T).none)), props=("C09", "C10"))
        else:
            E.obl(s, "post", "a further declaration adds to the map of the earlier ones", E.eq(s, m, c(1)), props=("C09", "C10"))
        if not any(x[0] == "error" for x in s.ghost["events"]):
            E.obl(s, "post", "the declared names are the value", E.eq(s, h, m), props=("C09", "C10"))
        else: self.res("post", "a repeated name leaves some map", isinstance(h, MapV), props=("C09",))

    def globals_spec(self, E, st, c, base):
        J = z3.Int("J")
        ids = c(3); f = E.w.seqfns("Token")
        tk = f.nth(E.seq_term(ids, st), J)
        dirp, exp = c(1), c(4)
        nil = PtrV("ref", 0, "Token")
        d = z3.If(bz(E.eq(st, dirp, nil)), EMPTY, c.lit(1).term())
        name = E.getf(TermV("Token", tk), fidx(E, "Token", "literal"))
        want = StructV("GlobalVariables", [None] * len(E.w.T("GlobalVariables")["fields"]))
        want = E.zero("GlobalVariables")
        for n_, v in (("Directive", StrV([d])), ("Export", z3.Not(bz(E.eq(st, exp, nil)))), ("Var", E.setf(E.zero("VarStatement"), (fidx(E, "VarStatement", "Name"),), name))):
            want = E.setf(want, (fidx(E, "GlobalVariables", n_),), v)
        self.gw = (J, E.to_term(want, "GlobalVariables", st), ids)
        z = E.to_term(E.zero("GlobalVariables"), "GlobalVariables", st)
        st.assume(E.seqlen_t(E.seq_term(ids, st), f, st) >= 0)
        # what the slot invariant says about the directive's text, in the form the loop reads it
        class C(Contract): pass
        k = C(); k.loops = GlobLoops(J, self.gw[1], z, iz(E.seq_len(ids, st)))
        self.E.contracts[self.E.cur] = k

    def globals_post(self, s, c, val, vp):
        E = self.E; J, want, ids = self.gw
        h = E.getf(val, fidx(E, "yySymType", "global_variables"))
        n = iz(E.seq_len(h, s))
        ni = iz(E.seq_len(ids, s))
        E.obl(s, "post", "there is one variable for each declared name", n == ni, props=vp)
        t = s.copy(); t.assume(z3.And(J >= 0, J < ni))
        if isinstance(h, ArrSlice): h = E.freeze(h, t)
        E.obl(t, "post", "each variable has its name, the directive and the export flag of its declaration", E.to_term(E.seq_nth(h, J, t), "GlobalVariables", t) == want, props=vp)

NGROUPS = 8
def machine(E):
    m = Machine(E)
    m.entry(); m.push()
    return m

def unit_machine(E, part, parts):
    m = machine(E)
    if part == 0: m.recover_later = True
    sts = sorted(m.I.ss)
    m.choose(sts[part::parts])
    m.fix_roles()
    if m.HR in m.role: m.recover()
    return E.obls

def unit_reduce(E, part, parts):
    m = machine(E)
    n0 = len(E.obls)
    # two reductions and one shift fix the roles of the registers (all states: the machine units)
    T = m.I.T
    few = {}
    for cs in sorted(m.I.ss):
        for t in m.I.tn.values():
            a = T.action(cs, t)
            if a[0] == "r" and T.pact[cs] <= T.FLAG: few.setdefault(a[1], cs)
    m.choose(list(few.values())[:3])
    m.fix_roles()
    m.squash(n0, "roles")
    names = [x.name for x in m.I.L.prods[1:]]
    for nm in names[part::parts]: m.reduce(nm)
    return E.obls
