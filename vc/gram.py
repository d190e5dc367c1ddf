"""The published grammar (written down here once, independently of the generated tables), its LALR(1) automaton with
precedence, and the comparison of the tables that run with that automaton."""

# precedence, loosest first; tokens not listed have none
PREC = [("nonassoc", ["LOW_PREC"]), ("left", ["OR"]), ("left", ["And"]), ("right", ["Not"]),
        ("left", ["EQUAL", "NeEQ", "LE", "GE", "'>'", "'<'"]), ("left", ["'+'", "'-'"]), ("left", ["'*'", "'/'", "'%'"]), ("right", ["UNARMinus", "UNARYPlus"])]

TOKENS = ("Directive token_identifier Procedure Var EndProcedure If Then ElseIf Else EndIf For Each In To Loop EndLoop Break Not ValueParam While GoToLabel "
          "Continue Try Catch EndTry Number String New Function EndFunction Return Throw NeEQ EQUAL LE GE OR And True False Undefind Export Date GoTo Execute").split()
CHARS = [c for c in "><+-*/%();:,.?[]"]

# name of a production -> left side, right side, [precedence token]; $-symbols are actions in the middle of a rule
G = """
module0: module ->
moduleBody: module -> body
moduleItems: module -> main_items opt_body
items1: main_items -> main
itemsN: main_items -> main_items main
mainVars: main -> global_variables
mainFunc: main -> funcProc
noDirective: opt_directive ->
directive: opt_directive -> Directive
noExport: opt_export ->
export: opt_export -> Export
globals: global_variables -> opt_directive Var identifiers opt_export semicolon
$func: $func ->
function: funcProc -> opt_directive Function token_identifier '(' declarations_method_params ')' opt_export $func opt_explicit_variables opt_body EndFunction
procedure: funcProc -> opt_directive Procedure token_identifier '(' declarations_method_params ')' opt_export opt_explicit_variables opt_body EndProcedure
noBody: opt_body ->
someBody: opt_body -> body
body1: body -> stmt
bodyN: body -> opt_body separator opt_stmt
noStmt: opt_stmt ->
someStmt: opt_stmt -> stmt
sepSemi: separator -> semicolon
sepColon: separator -> colon
noVars: opt_explicit_variables ->
someVars: opt_explicit_variables -> explicit_variables
vars1: explicit_variables -> Var identifiers semicolon
varsN: explicit_variables -> explicit_variables Var identifiers semicolon
if: stmt_if -> If expr Then opt_body opt_elseif_list opt_else EndIf
noElseif: opt_elseif_list ->
elseif: opt_elseif_list -> ElseIf expr Then opt_body opt_elseif_list
noElse: opt_else ->
else: opt_else -> Else opt_body
ternary: ternary -> '?' '(' expr comma expr comma expr ')'
$each: $each ->
foreach: stmt_loop -> For Each token_identifier In loopExp Loop $each opt_body EndLoop
$for: $for ->
for: stmt_loop -> For expr To expr Loop $for opt_body EndLoop
$while: $while ->
while: stmt_loop -> While expr Loop $while opt_body EndLoop
loopChain: loopExp -> through_dot
loopNew: loopExp -> new_object
loopParenNew: loopExp -> '(' new_object ')'
loopTernary: loopExp -> ternary
assign: stmt -> through_dot EQUAL expr
stmtExpr: stmt -> expr %LOW_PREC
stmtIf: stmt -> stmt_if
stmtLoop: stmt -> stmt_loop
stmtTry: stmt -> stmt_tryCatch
continue: stmt -> Continue
break: stmt -> Break
throw: stmt -> Throw opt_expr
return: stmt -> Return opt_expr
chain1: through_dot -> identifier
chainN: through_dot -> through_dot dot identifier
name: identifier -> token_identifier
call: identifier -> token_identifier '(' exprs ')'
index: identifier -> identifier '[' expr ']'
execute: identifier -> Execute execute_param
executeParen: identifier -> Execute '(' expr ')'
execString: execute_param -> String
execName: execute_param -> token_identifier
$try: $try ->
try: stmt_tryCatch -> Try opt_body Catch $try opt_body EndTry
simple: expr -> simple_expr
paren: expr -> '(' exprs ')'
plus: expr -> expr '+' expr
minus: expr -> expr '-' expr
mul: expr -> expr '*' expr
div: expr -> expr '/' expr
mod: expr -> expr '%' expr
gt: expr -> expr '>' expr
lt: expr -> expr '<' expr
eq: expr -> expr EQUAL expr
or: expr -> expr OR expr
and: expr -> expr And expr
ne: expr -> expr NeEQ expr
le: expr -> expr LE expr
ge: expr -> expr GE expr
not: expr -> Not expr
exprNew: expr -> new_object
goto: expr -> GoTo goToLabel
exprTernary: expr -> ternary
exprChain: expr -> through_dot
noExpr: opt_expr ->
someExpr: opt_expr -> expr
exprs1: exprs -> opt_expr
exprsN: exprs -> exprs comma opt_expr
string: simple_expr -> String
number: simple_expr -> Number
neg: simple_expr -> '-' expr %UNARMinus
pos: simple_expr -> '+' expr %UNARYPlus
true: simple_expr -> True
false: simple_expr -> False
date: simple_expr -> Date
undefined: simple_expr -> Undefind
label: simple_expr -> goToLabel
param: declarations_method_param -> token_identifier
paramValue: declarations_method_param -> ValueParam token_identifier
paramDefault: declarations_method_param -> declarations_method_param EQUAL simple_expr
noParams: declarations_method_params ->
params1: declarations_method_params -> declarations_method_param
paramsN: declarations_method_params -> declarations_method_params comma declarations_method_param
newName: new_object -> New token_identifier
newArgs: new_object -> New token_identifier '(' exprs ')'
newFunc: new_object -> New '(' exprs ')'
goToLabel: goToLabel -> GoToLabel
ids1: identifiers -> token_identifier %LOW_PREC
idsN: identifiers -> identifiers comma token_identifier %LOW_PREC
semicolon: semicolon -> ';'
colon: colon -> ':'
comma: comma -> ','
dot: dot -> '.'
"""

class Prod:
    __slots__ = ("name", "lhs", "rhs", "prec")
    def __init__(self, name, lhs, rhs, prec): self.name, self.lhs, self.rhs, self.prec = name, lhs, tuple(rhs), prec
    def __repr__(self): return "%s -> %s" % (self.lhs, " ".join(self.rhs))

def parse_grammar(text=G):
    out = []
    for l in text.strip().splitlines():
        name, r = l.split(": ", 1)
        lhs, rhs = r.split("->")
        syms = rhs.split(); prec = None
        if syms and syms[-1].startswith("%") : prec = syms.pop()[1:]
        out.append(Prod(name, lhs.strip(), syms, prec))
    return out

class LALR:
    """LR(0) automaton, LALR(1) lookaheads by propagation, conflicts settled by precedence, then shift, then the earlier rule"""
    def __init__(self, prods):
        self.prods = [Prod("$accept", "$accept", ("module", "$end"), None)] + prods
        P = self.prods
        self.nts = {p.lhs for p in P}
        self.by = {}
        for i, p in enumerate(P): self.by.setdefault(p.lhs, []).append(i)
        self.terms = {s for p in P for s in p.rhs if s not in self.nts}
        lev = {}
        for k, (assoc, ts) in enumerate(PREC):
            for t in ts: lev[t] = (k + 1, assoc)
        self.lev = lev
        self.pprec = []
        for p in P:
            t = p.prec
            if t is None:
                for s in p.rhs:
                    if s in lev and s not in self.nts: t = s       # the last terminal with a precedence decides
            self.pprec.append(lev.get(t))
        # nullable, first
        self.null = set(); ch = True
        while ch:
            ch = False
            for p in P:
                if p.lhs not in self.null and all(s in self.null for s in p.rhs): self.null.add(p.lhs); ch = True
        self.first = {t: {t} for t in self.terms}
        for n in self.nts: self.first[n] = set()
        ch = True
        while ch:
            ch = False
            for p in P:
                f = self.first[p.lhs]; n0 = len(f)
                for s in p.rhs:
                    f |= self.first[s]
                    if s not in self.null: break
                if len(f) != n0: ch = True
        self._build()
    def _closure0(self, kernel):
        items = set(kernel); st = list(kernel)
        while st:
            p, d = st.pop()
            r = self.prods[p].rhs
            if d < len(r) and r[d] in self.nts:
                for q in self.by[r[d]]:
                    if (q, 0) not in items: items.add((q, 0)); st.append((q, 0))
        return items
    def _firsts(self, seq):
        out = set()
        for s in seq:
            out |= self.first[s]
            if s not in self.null: return out, False
        return out, True
    def _build(self):
        P = self.prods
        k0 = frozenset({(0, 0)})
        self.kernels = [k0]; num = {k0: 0}; self.edges = []
        i = 0
        while i < len(self.kernels):
            cl = self._closure0(self.kernels[i])
            nxt = {}
            for p, d in cl:
                r = P[p].rhs
                if d < len(r): nxt.setdefault(r[d], set()).add((p, d + 1))
            e = {}
            for s in sorted(nxt):
                k = frozenset(nxt[s])
                if k not in num: num[k] = len(self.kernels); self.kernels.append(k)
                e[s] = num[k]
            self.edges.append(e)
            i += 1
        # lookaheads of kernel items
        la = {(s, it): set() for s, k in enumerate(self.kernels) for it in k}
        prop = {}
        for s, k in enumerate(self.kernels):
            for it in k:
                # LR(1) closure of [it, #]
                c = {it: {"#"}}; work = [it]
                while work:
                    x = work.pop()
                    p, d = x; r = P[p].rhs
                    if d < len(r) and r[d] in self.nts:
                        f, nl = self._firsts(r[d + 1:])
                        add = set(f) | (c[x] if nl else set())
                        for q in self.by[r[d]]:
                            y = (q, 0)
                            if y not in c: c[y] = set(); new = True
                            else: new = False
                            if not add <= c[y] or new:
                                c[y] |= add; work.append(y)
                for (p, d), l in c.items():
                    r = P[p].rhs
                    if d < len(r):
                        t = (self.edges[s][r[d]], (p, d + 1))
                        for a in l:
                            if a == "#": prop.setdefault((s, it), set()).add(t)
                            else: la[t].add(a)
        work = list(la)
        while work:
            x = work.pop()
            for y in prop.get(x, ()):
                if not la[x] <= la[y]: la[y] |= la[x]; work.append(y)
        self.la = la
        # actions
        self.action = []; self.conflicts = []
        for s, k in enumerate(self.kernels):
            red = {}
            c = {it: set(la[s, it]) for it in k}; work = list(k)
            while work:
                x = work.pop(); p, d = x; r = P[p].rhs
                if d < len(r) and r[d] in self.nts:
                    f, nl = self._firsts(r[d + 1:])
                    add = set(f) | (c[x] if nl else set())
                    for q in self.by[r[d]]:
                        y = (q, 0)
                        if y not in c: c[y] = set(add); work.append(y)
                        elif not add <= c[y]: c[y] |= add; work.append(y)
            act = {}
            for t, q in self.edges[s].items():
                if t not in self.nts: act[t] = ("s", q)
            for (p, d) in sorted(c):
                if d != len(P[p].rhs): continue
                for t in c[p, d]:
                    o = act.get(t)
                    if o is None: act[t] = ("r", p); continue
                    if o[0] == "s":
                        lp, lt = self.pprec[p], self.lev.get(t)
                        if lp is None or lt is None: self.conflicts.append((s, t, "shift", p)); continue
                        if lp[0] > lt[0] or lp[0] == lt[0] and lt[1] == "left": act[t] = ("r", p)
                        elif lp[0] == lt[0] and lt[1] == "nonassoc": act[t] = ("e",)
                    elif o[0] == "r" and p < o[1]: act[t] = ("r", p); self.conflicts.append((s, t, "rr", o[1]))
                    elif o[0] == "r": self.conflicts.append((s, t, "rr", p))
            for t in list(act):
                if act[t] == ("r", 0): act[t] = ("a",)
            # the accept state: module . $end
            for (p, d) in c:
                if p == 0 and d == 1: act["$end"] = ("a",)
            self.action.append({t: a for t, a in act.items() if a != ("e",)})

class Tables:
    """the tables that run, decoded the way the generated parser reads them (the reading itself is proved: see parse.py)"""
    FLAG = -1000
    def __init__(self, get):
        """get(name) -> list of ints"""
        self.act, self.pact, self.pgo, self.r1, self.r2, self.chk, self.deff, self.exca = (list(get(n)) for n in
            ("yyAct", "yyPact", "yyPgo", "yyR1", "yyR2", "yyChk", "yyDef", "yyExca"))
        self.n = len(self.pact); self.last = len(self.act)
    def action(self, s, t):
        n = self.pact[s]
        if n > self.FLAG:
            n += t
            if 0 <= n < self.last:
                n = self.act[n]
                if self.chk[n] == t: return ("s", n)
        return self.default(s, t)
    def default(self, s, t):
        n = self.deff[s]
        if n == -2:
            xi = 0
            while not (self.exca[xi] == -1 and self.exca[xi + 1] == s): xi += 2
            xi += 2
            while not (self.exca[xi] < 0 or self.exca[xi] == t): xi += 2
            n = self.exca[xi + 1]
            if n < 0: return ("a",)
        return ("e",) if n == 0 else ("r", n)
    def goto(self, q, lhs):
        g = self.pgo[lhs]; j = g + q + 1
        if j >= self.last: return self.act[g]
        s = self.act[j]
        if self.chk[s] != -lhs: return self.act[g]
        return s
