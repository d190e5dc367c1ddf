"""Specification of the lexer and the contracts of its functions."""
import z3
from sx import *
from base import *

# ------------------------------------------------------------------ specification functions on (text, position)
def F1(n): return z3.Function(n, Str, IntS, IntS)
spaceEnd, eolEnd, identEnd, numEnd, triv = F1("spaceEnd"), F1("eolEnd"), F1("identEnd"), F1("numEnd"), F1("triviaEnd")
strEnd = z3.Function("strEnd", Str, IntS, IntS, IntS)          # text, position of a character inside, closing quote -> position after, -1 if not terminated
strVal = z3.Function("strVal", Str, IntS, IntS, Str)
lowStr = z3.Function("lowStr", Str, Str)
digits = z3.Function("digitsOf", Str, Str)
digFrom = z3.Function("digitsFrom", Str, IntS, Str)

def at_triv(s, p):
    return z3.Or(cur(s, p) == 35, z3.And(cur(s, p) == 47, cur(s, nxt(s, p)) == 47))
def trivia(s, p):
    """position of the next token from a position between tokens"""
    return triv(s, spaceEnd(s, iz(p)))

def rng(s, p): return z3.And(p >= 0, p <= strlen(s))

# definition and (proved) lemma of each
def d_scan(F, stepc):
    def d(s, p): return F(s, p) == z3.If(stepc(cur(s, p)), F(s, nxt(s, p)), p)
    return d
def c_space(c): return isspace(c)
def c_noeol(c): return z3.And(c != 10, c != -1)
def c_ident(c): return isident(c)
def c_num(c): return z3.Or(isdigit(c), c == 46)

DEFS = {
    "spaceEnd": d_scan(spaceEnd, c_space), "eolEnd": d_scan(eolEnd, c_noeol), "identEnd": d_scan(identEnd, c_ident), "numEnd": d_scan(numEnd, c_num),
    "triviaEnd": lambda s, p: triv(s, p) == z3.If(at_triv(s, p), triv(s, spaceEnd(s, eolEnd(s, p))), p),
}
def lem_scan(F, stepc):
    def l(s, p):
        e = F(s, p)
        return z3.Implies(rng(s, p), z3.And(p <= e, e <= strlen(s), z3.Not(stepc(cur(s, e)))))
    return l
LEMMAS = {
    "spaceEnd": lem_scan(spaceEnd, c_space), "eolEnd": lem_scan(eolEnd, c_noeol), "identEnd": lem_scan(identEnd, c_ident), "numEnd": lem_scan(numEnd, c_num),
    "triviaEnd": lambda s, p: z3.Implies(z3.And(rng(s, p), z3.Not(isspace(cur(s, p)))), z3.And(p <= triv(s, p), triv(s, p) <= strlen(s), z3.Not(at_triv(s, triv(s, p))), z3.Not(isspace(cur(s, triv(s, p)))))),
}

# string bodies: p is the position of the opening quote (or of the character just consumed)
def str_cases(s, p, q):
    """p: position of the character before the next one to read. returns list of (guard, kind, data)"""
    n = nxt(s, p)
    c = cur(s, n)
    # a line break: blanks and comments of the next line are skipped, then a bar is required
    a = spaceEnd(s, nxt(s, n))
    slash2 = z3.And(cur(s, a) == 47, cur(s, nxt(s, a)) == 47)
    b = z3.If(slash2, triv(s, a), a)
    after = spaceEnd(s, nxt(s, n))       # after the closing quote: blanks
    return n, c, b, after

def d_strEnd(s, p, q):
    n, c, b, after = str_cases(s, p, q)
    return z3.If(c == 10, z3.If(z3.Or(cur(s, b) == 124, isspace(cur(s, b))), strEnd(s, b, q), -1),
           z3.If(c == -1, -1,
           z3.If(c == q, z3.If(cur(s, nxt(s, n)) == 34, strEnd(s, nxt(s, n), q),
                         z3.If(cur(s, after) == 34, strEnd(s, after, q), after)),
                 strEnd(s, n, q))))
def d_strVal(s, p, q):
    n, c, b, after = str_cases(s, p, q)
    return z3.If(c == 10, z3.If(z3.Or(cur(s, b) == 124, isspace(cur(s, b))), scat(sconst("\n"), scat(rune2strf(cur(s, b)), strVal(s, b, q))), EMPTY),
           z3.If(c == -1, EMPTY,
           z3.If(c == q, z3.If(cur(s, nxt(s, n)) == 34, scat(sconst('""'), strVal(s, nxt(s, n), q)),
                         z3.If(cur(s, after) == 34, strVal(s, after, q), EMPTY)),
                 scat(rune2strf(c), strVal(s, n, q)))))
def lem_strEnd(s, p, q):
    e = strEnd(s, p, q)
    return z3.Implies(z3.And(p >= 0, p < strlen(s)), z3.Or(e == -1, z3.And(e > p, e <= strlen(s), z3.Not(isspace(cur(s, e))))))

def unfolders(E=None):
    """facts about applications of specification functions: lemmas always, definitions when switched on (E.defs_on)"""
    U = dict(BASE_UNF)
    on = lambda n: E is None or E.defs_on is None or n in E.defs_on
    for n in DEFS:
        def u(a, n=n):
            s, p = a.arg(0), a.arg(1)
            out = [LEMMAS[n](s, p)]
            if on(n): out.append(DEFS[n](s, p))
            elif n == "triviaEnd":
                # one step of the definition: nothing is skipped at a token
                out.append(z3.Implies(z3.Not(at_triv(s, p)), a == p))
            return out
        U[n] = u
    def us(a):
        s, p, q = a.arg(0), a.arg(1), a.arg(2)
        if not on("strEnd"): return [lem_strEnd(s, p, q)]
        return [strEnd(s, p, q) == d_strEnd(s, p, q), strVal(s, p, q) == d_strVal(s, p, q), lem_strEnd(s, p, q)]
    U["strEnd"] = us
    U["strVal"] = us
    def ud(a):
        s, p = a.arg(0), a.arg(1)
        r = rune_f(s, p)
        return [z3.Implies(z3.And(p >= 0, p < strlen(s)), a == z3.If(isdigit(r), scat(rune2strf(r), digFrom(s, nxt(s, p))), digFrom(s, nxt(s, p)))),
                z3.Implies(p == strlen(s), a == EMPTY)]
    U["digitsFrom"] = ud
    U["digitsOf"] = lambda a: [a == digFrom(a.arg(0), z3.IntVal(0)), strlen(a.arg(0)) >= 0]
    U["runesTo"] = u_runesTo
    for k in ("linesTo", "charsTo", "breakTo", "linesB", "breakB"): U[k] = pos_facts(k)
    U["lowStr"] = lambda a: [strlen(a) == strlen(a.arg(0))]
    return U

def lowrune(r):
    return z3.If(z3.Or(z3.And(r >= 65, r <= 90), z3.And(r >= 0x410, r <= 0x42F)), r + 32, z3.If(r == 0x401, z3.IntVal(0x451), r))
lowB = z3.Function("lowB", Str, IntS, IntS)      # byte of the lowered text

def enc2(r, k): return 0xC0 + r / 64 if k == 0 else 0x80 + r % 64

def prove_lemmas(E, props):
    """induction (on the distance to the end of the text) for every lemma about a specification function"""
    s = z3.Const("s", Str); p = z3.Int("p"); q = z3.Int("q")
    out = []
    U = E.unfolders
    def run(name, hyps, goal, own):
        st = State(E.w)
        st.assume(strlen(s) >= 0)
        for h in hyps: st.assume(h)
        save = E.unfolders; 
        E.unfolders = {k: v for k, v in U.items() if k not in own}; E.facts_cache = {}; E.ti_cache = {}
        E.cur, E.curprops = "lemma", props
        E.obl(st, "lemma", name, goal, props=props, fuel=4)
        E.unfolders = save; E.facts_cache = {}; E.ti_cache = {}
    for n, stepc, F in (("spaceEnd", c_space, spaceEnd), ("eolEnd", c_noeol, eolEnd), ("identEnd", c_ident, identEnd), ("numEnd", c_num, numEnd)):
        IH = z3.Implies(stepc(cur(s, p)), LEMMAS[n](s, nxt(s, p)))
        run("%s stays inside the text, does not move back and stops at the first other character" % n, [rng(s, p), DEFS[n](s, p), IH], LEMMAS[n](s, p), {n})
        run("%s: the recursion advances" % n, [rng(s, p)], z3.Implies(stepc(cur(s, p)), z3.And(nxt(s, p) > p, nxt(s, p) <= strlen(s))), {n})
    m = spaceEnd(s, eolEnd(s, p))
    run("triviaEnd stays inside the text and stops at a token", [rng(s, p), DEFS["triviaEnd"](s, p), z3.Implies(at_triv(s, p), LEMMAS["triviaEnd"](s, m))], LEMMAS["triviaEnd"](s, p), {"triviaEnd"})
    run("triviaEnd: the recursion advances", [rng(s, p)], z3.Implies(at_triv(s, p), z3.And(m > p, m <= strlen(s))), {"triviaEnd"})
    n_, c, b, after = str_cases(s, p, q)
    pre = [p >= 0, p < strlen(s), z3.Or(q == 34, q == 39), strEnd(s, p, q) == d_strEnd(s, p, q)]
    ih = [z3.Implies(z3.And(x > p, x < strlen(s)), lem_strEnd(s, x, q)) for x in (b, nxt(s, n_), after, n_)]
    run("strEnd stays inside the text and moves forward", pre + ih, lem_strEnd(s, p, q), {"strEnd", "strVal"})

# ------------------------------------------------------------------ helpers on the lexer state
class Lx:
    """accessors of the Token/AstNode pair the lexer works on"""
    def __init__(self, E, st, tp):
        self.E = E
        self.tp = tp
        self.i = {f["name"]: k for k, f in enumerate(E.w.T("Token")["fields"])}
    def get(self, st, f): return self.E.getf(self.E.load(st, self.tp), self.i[f])
    def set(self, st, f, v): self.E.store(st, PtrV("ref", self.tp.base, self.tp.T, self.tp.path + (self.i[f],)), v)

def code_of(E, st, astp):
    return E.getf(E.load(st, astp), fidx(E, "AstNode", "code"))

def ast_ptr(E, st, t):
    """the *AstNode behind token field ast"""
    a = t.get(st, "ast")
    if a.t == "*AstNode": return a.v
    if a.t: raise Unsupported("reader over " + a.t)
    d = E.decide(st, E.w.isbox("*AstNode", a.tm))
    if d is not True: return None
    return E.unbox_val(st, a.tm, "*AstNode")

def lex_setup(E, ast_in_field=True):
    st = State(E.w)
    t = PtrV("ref", z3.Int("in:t"), "Token")
    a = PtrV("ref", z3.Int("in:ast"), "AstNode")
    for x in (t, a):
        E.bound(st, x.base); st.assume(z3.And(x.base > 0, x.base <= BASE))
    lx = Lx(E, st, t)
    if ast_in_field:
        tm = lx.get(st, "ast")
        st.assume(tm.tm == E.w.box("*AstNode", a.base))
        # record the boxed value so that method calls are resolved
        old = E.load(st, t)
        E.write_ref(st, t.base, "Token", E.setf(old, (lx.i["ast"],), AnyV(t="*AstNode", v=a)))
    # name the text and the position
    s = z3.Const("in:code", Str); off = z3.Int("in:offset")
    E.write_ref(st, a.base, "AstNode", E.setf(E.load(st, a), (fidx(E, "AstNode", "code"),), StrV([s])))
    E.write_ref(st, t.base, "Token", E.setf(E.load(st, t), (lx.i["offset"],), off))
    st.assume(strlen(s) >= 0); st.assume(off >= 0); st.assume(off <= strlen(s))
    # the text is shorter than the largest integer (it exists in memory)
    st.assume(strlen(s) < 2**62)
    return st, lx, a, s, off

class LexLoops:
    """invariant candidates for loops over the text"""
    shapes_trace = None
    def cands(self, lc, V):
        E = lc.E
        out = []
        env = E.env
        s = env.get("s")
        Ve = lc.valuation_entry([p for p, v in V.loc])
        ents = dict(Ve.ints()) if True else {}
        its = V.ints()
        chars = {"phi:" + r for r, ty in lc.vars if ty in ("rune", "int32", "byte", "uint8")} | {"loc:%r" % (p,) for p, v in V.loc if E.field_type(p.T, p.path) in ("rune", "int32", "byte", "uint8")}
        if s is not None:
            for nm, v in its:
                e = dict(Ve.ints()).get(nm)
                if e is None or nm in chars: continue
                def mk(f):      # f(V, current value, entry value)
                    def g(W, nm=nm, e=e):
                        w = dict(W.ints())[nm]
                        return f(W, w, e)
                    return g
                out.append(("%s does not move back" % nm, mk(lambda W, w, e: iz(w) >= iz(e))))
                out.append(("%s stays inside the text" % nm, mk(lambda W, w, e: z3.And(iz(w) >= 0, iz(w) <= strlen(s)))))
                out.append(("%s stays before the end of the text" % nm, mk(lambda W, w, e: iz(w) < strlen(s))))
                for F in (() if "q" in env else (spaceEnd, eolEnd, identEnd, numEnd, triv)):
                    out.append(("%s(%s) is unchanged" % (F.name(), nm), mk(lambda W, w, e, F=F: F(s, iz(w)) == F(s, iz(e)))))
                out.append(("trivia(%s) is unchanged" % nm, mk(lambda W, w, e: trivia(s, w) == trivia(s, e))))
                if "q" in env:
                    q = env["q"]
                    out.append(("strEnd(%s) is unchanged" % nm, mk(lambda W, w, e: strEnd(s, iz(w), q) == strEnd(s, iz(e), q))))
                for nm2, v2 in its:
                    if nm2 == nm or nm2 not in chars: continue
                    def g2(W, nm=nm, nm2=nm2):
                        d = dict(W.ints()); o = iz(d[nm])
                        return z3.And(iz(d[nm2]) == cur(s, o), z3.Implies(o < strlen(s), rune2strf(iz(d[nm2])) == rune2strf(rune_f(s, o))))
                    out.append(("%s is the character at %s" % (nm2, nm), g2))
                # accumulated text
                for an, acc in self.accs(lc, V):
                    e_acc = dict(self.accs(lc, Ve)).get(an)
                    if e_acc is None: continue
                    def g3(W, nm=nm, e=e, an=an, e_acc=e_acc):
                        w = dict(W.ints())[nm]; a = dict(self.accs(lc, W)).get(an)
                        return bz(E.str_eq(a, e_acc + StrV([ssub(s, iz(e), iz(w))])))
                    out.append(("%s is the text read up to %s" % (an, nm), g3))
                    if "q" in env:
                        def g4(W, nm=nm, e=e, an=an, e_acc=e_acc):
                            w = dict(W.ints())[nm]; a = dict(self.accs(lc, W)).get(an)
                            return z3.Implies(strEnd(s, iz(w), env["q"]) != -1, bz(E.str_eq(a + StrV([strVal(s, iz(w), env["q"])]), e_acc + StrV([strVal(s, iz(e), env["q"])]))))
                        out.append(("%s and the rest from %s make the literal" % (an, nm), g4))
        # characters counted by a loop over a text
        for it in lc.iters:
            d0 = lc.entry.iters.get(it)
            if d0 is None or d0["kind"] != "str": continue
            for nm, v in its:
                e = dict(Ve.ints()).get(nm)
                if e is None or nm in chars or nm == "iter": continue
                def gr(W, nm=nm, it=it, e=e, txt=d0["str"]): return iz(dict(W.ints())[nm]) == iz(e) + runesTo(txt, iz(W.it[it]))
                out.append(("%s counts the characters of the text" % nm, gr))
            if "posn" in env:
                def gi(W, it=it, txt=d0["str"]): return z3.And(iz(W.it[it]) >= 0, iz(W.it[it]) <= strlen(txt))
                out.append(("the loop stays inside its text", gi))
        if "d" in env:          # extractDigits: text d
            d = env["d"]
            for nm, v in its:
                def g8(W, nm=nm):
                    w = dict(W.ints())[nm]
                    return z3.And(iz(w) >= 0, iz(w) <= strlen(d))
                out.append(("%s stays inside the text" % nm, g8))
                for an, acc in self.accs(lc, V):
                    e_acc = dict(self.accs(lc, Ve)).get(an)
                    if e_acc is None: continue
                    def g5(W, nm=nm, an=an, e_acc=e_acc):
                        w = dict(W.ints())[nm]; a = dict(self.accs(lc, W)).get(an)
                        return bz(E.str_eq(a + StrV([digFrom(d, iz(w))]), e_acc + StrV([digits(d)])))
                    out.append(("%s and the digits from %s make the result" % (an, nm), g5))
        if "posn" in env:       # GetPosition: the text before the position
            ps, po = env["posn"]; pre = ssub(ps, z3.IntVal(0), po)
            for nm, v in its:
                def gin(W, nm=nm):
                    w = dict(W.ints())[nm]
                    return z3.And(iz(w) >= 0, iz(w) <= po)
                out.append(("%s stays before the position" % nm, gin))
                e = dict(Ve.ints()).get(nm)
                if e is None: continue
                for nm2, v2 in its:
                    if nm2 == nm: continue
                    for what, f in (("the line breaks before %s are counted by %s", lambda w, w2, e: w == e + linesTo(pre, w2)), ("the characters of the line before %s are counted by %s", lambda w, w2, e: w == e + charsTo(pre, w2)),
                                    ("the line of %s starts at %s", lambda w, w2, e: w == breakTo(pre, w2)), ("the line breaks before byte %s are counted by %s", lambda w, w2, e: w == e + linesB(ps, w2)), ("the line of byte %s starts at %s", lambda w, w2, e: w == breakB(ps, w2))):
                        def gp(W, nm=nm, nm2=nm2, e=e, f=f):
                            d = dict(W.ints())
                            return f(iz(d[nm]), iz(d[nm2]), iz(e))
                        out.append((what % (nm2, nm), gp))
        if "low" in env:
            src = env["low"]; J = env["J"]
            for nm, v in its:
                for aid in list(V.st.arrays):
                    if "bytes:" + aid not in V.st.ghost: continue
                    def g6(W, nm=nm, aid=aid):
                        w = dict(W.ints())[nm]
                        return z3.Select(W.st.arrays[aid].arr, J) == z3.If(J < iz(w), lowB(src, J), byte_f(src, J))
                    out.append(("bytes before %s are lowered, the others unchanged" % nm, g6))
                def g7(W, nm=nm):
                    return isStart(src, iz(dict(W.ints())[nm]))
                out.append(("%s is the start of a character" % nm, g7))
                def g8(W, nm=nm):
                    w = dict(W.ints())[nm]
                    return z3.And(iz(w) >= 0, iz(w) <= strlen(src))
                out.append(("%s stays inside the text" % nm, g8))
        return out
    def accs(self, lc, V):
        """string-like accumulators: name -> StrV"""
        E = lc.E
        out = []
        def add(n, v):
            if isinstance(v, ArrSlice) and E.w.elemkey(v.elem) == "Int" and ("bytes:" + str(v.arr)) not in V.st.ghost:
                a = V.st.arrays.get(v.arr)
                if a is not None and a.lst is not None: v = E.freeze(v, V.st)
            if isinstance(v, StrV): out.append((n, v))
            elif isinstance(v, SeqV) and E.w.elemkey(v.elem) == "Int": out.append((n, runes_to_str(E, V.st, v)))
        for r, v in V.phi.items(): add("phi:" + r, v)
        for p, v in V.loc: add("loc:%r" % (p,), v)
        return out
    def shapes(self, lc, V, vid, T, ev, hs): return []
    def variants(self, lc, V):
        E = lc.E
        out = []
        s = E.env.get("s")
        for nm, v in V.ints():
            if s is not None:
                out.append(("text left after " + nm, lambda W, nm=nm: strlen(s) - iz(dict(W.ints())[nm])))
            if "posn" in E.env: out.append(("text left before the position, by " + nm, lambda W, nm=nm: E.env["posn"][1] - iz(dict(W.ints())[nm])))
            for t in ("d", "low"):
                if t in E.env: out.append(("text left", lambda W, nm=nm, t=t: strlen(E.env[t]) - iz(dict(W.ints())[nm])))
        return out

class LexContract(Contract):
    defs = set()
    loops = LexLoops()
    safety = ("C02", "C19")
    tokparam = True
    def setup(self, E):
        st, lx, a, s, off = lex_setup(E)
        E.env = {"s": s}
        env = {"lx": lx, "ast": a, "s": s, "off": off}
        args = [lx.tp]
        self.more(E, st, env, args)
        return st, args, env
    def more(self, E, st, env, args): pass
    def common(self, E, st, env, newoff, props=None):
        lx = env["lx"]
        o = iz(lx.get(st, "offset"))
        E.obl(st, "post", "the read position ends at " + self.where, o == newoff, props=props or self.props)
        E.obl(st, "post", "the read position stays inside the text and does not move back", z3.And(o >= iz(env["off"]), o <= strlen(env["s"])), props=("C02",))
        frame_check(E, st, [(lx.tp.base, "Token", lx.i["offset"])] + [(lx.tp.base, "Token", lx.i[f]) for f in self.mods], props=self.props)
    mods = ()
    # ---- use at a call
    def pre_use(self, E, st, args):
        t = args[0]
        if not E.chk_ptr(st, t, "call of %s" % self.name): return None
        lx = Lx(E, st, t)
        a = ast_ptr(E, st, lx)
        if a is None:
            E.obl(st, "precondition", "%s is called with a reader over a module" % self.name, False, props=self.safety); return None
        s = code_of(E, st, a).term()
        off = lx.get(st, "offset")
        E.obl(st, "precondition", "%s is called with the position inside the text" % self.name, z3.And(iz(off) >= 0, iz(off) <= strlen(s)), props=self.safety)
        return lx, s, off

def measure(E, st, name, s, off):
    """termination of the mutually recursive skip functions"""
    env = getattr(E, "measure0", None)
    if env is None: return
    cur_name, s0, off0 = env
    if cur_name != E.cur: return
    rank = {"(*Token).skipRegions": 1, "(*Token).skipComment": 0}
    if cur_name in rank and name in rank:
        m0 = 2 * (strlen(s0) - off0) + rank[cur_name]; m1 = 2 * (strlen(s) - iz(off)) + rank[name]
        E.obl(st, "variant", "%s calls %s on a smaller problem" % (cur_name, name), z3.And(m1 < m0, m1 >= 0), props=("C02",))

class SkipC(LexContract):
    defs = {"spaceEnd", "eolEnd", "triviaEnd"}
    def __init__(self, name, where, f, props):
        self.name, self.where, self.f, self.props = name, where, f, props
    def more(self, E, st, env, args): E.measure0 = (self.name, env["s"], env["off"])
    def post(self, E, st, env):
        self.common(E, st, env, self.f(env["s"], env["off"]))
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        measure(E, st, self.name, s, off)
        o = fresh("pos", IntS)
        st.assume(o == self.f(s, iz(off)))
        st.assume(z3.And(o >= iz(off), o <= strlen(s)))
        lx.set(st, "offset", o)
        return None

def f_space(s, p): return spaceEnd(s, iz(p))
def f_comment(s, p):
    p = iz(p)
    return z3.If(z3.And(cur(s, p) == 47, cur(s, nxt(s, p)) == 47), triv(s, p), p)
def f_regions(s, p): return triv(s, iz(p))

class ScanIdent(LexContract):
    defs = {"identEnd"}
    name = "(*Token).scanIdentifier"; props = ("C01", "C03"); where = "the end of the word"
    def post(self, E, st, env):
        s, off = env["s"], iz(env["off"])
        self.common(E, st, env, identEnd(s, off))
        E.obl(st, "post", "the result is exactly the text of the word", bz(E.str_eq(st.result[0], StrV([ssub(s, off, identEnd(s, off))]))), fuel=4)
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        off = iz(off)
        e = identEnd(s, off)
        lx.set(st, "offset", e)
        st.assume(z3.And(e >= off, e <= strlen(s)))
        return StrV([ssub(s, off, e)])

class ScanNumber(LexContract):
    defs = {"numEnd"}
    name = "(*Token).scanNumber"; props = ("C03", "C04"); where = "the end of the number"
    def post(self, E, st, env):
        s, off = env["s"], iz(env["off"])
        self.common(E, st, env, numEnd(s, off))
        e = numEnd(s, off)
        lit, err = st.result
        bad = isletter(cur(s, e))
        nil = E.eq(st, err, AnyV(tm=E.w.Any.nil))
        E.obl(st, "post", "an error is reported exactly when a letter follows the digits", bz(nil) == z3.Not(bad))
        E.obl(st, "post", "the result is exactly the text of the number", z3.Implies(z3.Not(bad), bz(E.str_eq(lit, StrV([ssub(s, off, e)])))), fuel=4)
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        off = iz(off); e = numEnd(s, off)
        lx.set(st, "offset", e)
        st.assume(z3.And(e >= off, e <= strlen(s)))
        bad = isletter(cur(s, e))
        out = []
        for b in (False, True):
            s2 = st.copy(); s2.assume(bad if b else z3.Not(bad))
            if not E.feasible(s2): continue
            if b:
                k = fresh("numErr", IntS)
                out.append((s2, (StrV([fresh("junk", Str)]), AnyV(tm=E.w.Any.other(z3.IntVal(TAG_ERR), k)))))
            else: out.append((s2, (StrV([ssub(s, off, e)]), AnyV(tm=E.w.Any.nil))))
        return out

class ScanString(LexContract):
    defs = {"strEnd"}
    name = "(*Token).scanString"; props = ("C03", "C04"); where = "the end of the literal"
    def more(self, E, st, env, args):
        q = z3.Int("in:end")
        st.assume(z3.Or(q == 34, q == 39))
        st.assume(cur(env["s"], env["off"]) == q)
        args.append(q); env["q"] = q
        E.env["q"] = q
    def post(self, E, st, env):
        s, off, q = env["s"], iz(env["off"]), env["q"]
        lit, err = st.result
        lx = env["lx"]
        o = iz(lx.get(st, "offset"))
        e = strEnd(s, off, q)
        nil = bz(E.eq(st, err, AnyV(tm=E.w.Any.nil)))
        E.obl(st, "post", "an error is reported exactly when the literal is not terminated", nil == (e != -1))
        E.obl(st, "post", "the read position ends after the literal and the blanks behind it", z3.Implies(e != -1, o == e))
        E.obl(st, "post", "the result is the content of the literal", z3.Implies(e != -1, bz(E.str_eq(lit, StrV([strVal(s, off, q)])))), fuel=3)
        E.obl(st, "post", "the read position stays inside the text and does not move back", z3.And(o >= off, o <= strlen(s)), props=("C02",))
        frame_check(E, st, [(lx.tp.base, "Token", lx.i["offset"])], props=self.props)
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        q = iz(args[1]); off = iz(off)
        E.obl(st, "precondition", "scanString starts at a quote", z3.And(z3.Or(q == 34, q == 39), cur(s, off) == q), props=self.props)
        e = strEnd(s, off, q)
        out = []
        for b in (True, False):
            s2 = st.copy(); s2.assume(e != -1 if b else e == -1)
            if not E.feasible(s2): continue
            o = fresh("pos", IntS)
            if b: o = e
            s2.assume(z3.And(o >= off, o <= strlen(s)))
            Lx(E, s2, args[0]).set(s2, "offset", o)
            if b: out.append((s2, (StrV([strVal(s, off, q)]), AnyV(tm=E.w.Any.nil))))
            else: out.append((s2, (StrV([fresh("junk", Str)]), AnyV(tm=E.w.Any.other(z3.IntVal(TAG_ERR), fresh("strErr", IntS))))))
        return out

class Digits(Contract):
    name = "extractDigits"; props = ("C04",); loops = LexLoops(); safety = ("C02", "C19")
    def setup(self, E):
        st = State(E.w)
        d = z3.Const("in:str", Str)
        st.assume(strlen(d) >= 0); st.assume(strlen(d) < 2**62)
        E.env = {"d": d}
        return st, [StrV([d])], {"d": d}
    def post(self, E, st, env):
        E.obl(st, "post", "the result is the digits of the text, in order", bz(E.str_eq(st.result[0], StrV([digits(env["d"])]))), fuel=3)
        frame_check(E, st, [], props=self.props)
    def use(self, E, st, args):
        c = args[0].const()
        return StrV([digits(args[0].term())])

def lower_ascii_cyr(b):
    return b.decode("utf8", "surrogateescape").translate({**{c: c + 32 for c in range(65, 91)}, **{c: c + 32 for c in range(0x410, 0x430)}, 0x401: 0x451}).encode("utf8", "surrogateescape")

class Lower(Contract):
    name = "fastToLower"; props = ("C01", "C18"); loops = LexLoops(); safety = ("C02", "C19")
    def setup(self, E):
        st = State(E.w)
        src = z3.Const("in:s", Str); J = z3.Int("J")
        st.assume(strlen(src) >= 0); st.assume(strlen(src) < 2**62)
        st.assume(z3.And(J >= 0, J < strlen(src)))
        E.env = {"low": src, "J": J}
        return st, [StrV([src])], {"src": src, "J": J}
    def post(self, E, st, env):
        src, J = env["src"], env["J"]
        r = st.result[0].term()
        if r.decl().name() != "strOfBytes": raise Unsupported("fastToLower: result is not made of bytes")
        arr, n = r.arg(0), r.arg(1)
        E.obl(st, "post", "the result has the length of the argument", n == strlen(src))
        E.obl(st, "post", "byte J of the result is byte J of the lowered text, for every J", z3.Select(arr, J) == lowB(src, J), fuel=3)
        frame_check(E, st, [], props=self.props)
    def use(self, E, st, args):
        # lowering works character by character; constants are whole characters
        return StrV([lower_ascii_cyr(a) if isinstance(a, bytes) else lowStr(a) for a in args[0].at])

isStart = z3.Function("isStart", Str, IntS, BoolS)
def u_start(a):
    s, x = a.arg(0), a.arg(1)
    if z3.is_int_value(x) and x.as_long() == 0: return [a]
    out = []
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD:
        for y in x.children():
            if z3.is_app(y) and y.decl().name() == "size" and y.arg(0).eq(s):
                p = y.arg(1)
                out.append(z3.Implies(z3.And(isStart(s, p), p >= 0, p < strlen(s), x == p + y), a))
    return out
def lowB_facts(s, p, J):
    """the bytes of the character that starts at p in the lowered text (definition of lowB)"""
    r, n = rune_f(s, p), size_f(s, p)
    lr = lowrune(r)
    return [z3.Implies(z3.And(isStart(s, p), p >= 0, p < strlen(s), J >= p, J < p + n),
        lowB(s, J) == z3.If(r < 0x80, lr, z3.If(r < 0x800, z3.If(J == p, 0xC0 + lr / 64, 0x80 + lr % 64), byte_f(s, J))))]
def low_unfolders(E):
    U = unfolders(E)
    U["isStart"] = u_start
    def ur(a):
        out = rune_facts(a.arg(0), a.arg(1))
        if "J" in E.env: out += lowB_facts(a.arg(0), a.arg(1), E.env["J"])
        return out
    U["rune"] = U["size"] = ur
    return U

# ------------------------------------------------------------------ the tokens
KEYWORDS = {   # reserved word -> name of its token
    "процедура": "Procedure", "перем": "Var", "перейти": "GoTo", "конецпроцедуры": "EndProcedure", "знач": "ValueParam", "если": "If", "тогда": "Then",
    "иначеесли": "ElseIf", "иначе": "Else", "конецесли": "EndIf", "для": "For", "каждого": "Each", "из": "In", "по": "To", "цикл": "Loop",
    "конеццикла": "EndLoop", "прервать": "Break", "продолжить": "Continue", "попытка": "Try", "новый": "New", "исключение": "Catch", "пока": "While",
    "конецпопытки": "EndTry", "функция": "Function", "конецфункции": "EndFunction", "возврат": "Return", "вызватьисключение": "Throw", "и": "And",
    "или": "OR", "истина": "True", "ложь": "False", "неопределено": "Undefind", "не": "Not", "экспорт": "Export", "выполнить": "Execute"}
DIRECTIVES = ["&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере"]
SINGLE = "/;(),-+*?[]:%"

def tokc(E, n):
    c = E.w.consts.get(n)
    if c is None: raise Unsupported("no token " + n)
    return int(c)

def kw_fns(E, table):
    cid = E.mapconst_id(table)
    return z3.Function("kdom%d" % cid, Str, BoolS), z3.Function("kget%d" % cid, Str, IntS)

def spec_tables(E):
    kw = {k.encode(): tokc(E, v) for k, v in KEYWORDS.items()}
    di = {k.encode(): tokc(E, "Directive") for k in DIRECTIVES}
    return kw, di

def err_nil(E, st, e): return bz(E.eq(st, e, AnyV(tm=E.w.Any.nil)))

nxTok = z3.Function("nxTok", Str, IntS, BoolS, IntS); nxLit = z3.Function("nxLit", Str, IntS, BoolS, Str)
nxOff = z3.Function("nxOff", Str, IntS, BoolS, IntS); nxOk = z3.Function("nxOk", Str, IntS, BoolS, BoolS); nxPd = z3.Function("nxPd", Str, IntS, BoolS, BoolS)

def spec_next(E, c, s, off, pd):
    """(ok, token, literal, end, dot): the next token of the text"""
    q = trivia(s, off); ch = cur(s, q)
    T = lambda n: tokc(E, n)
    kw, di = spec_tables(E)
    if c(isletter(ch)):
        e = identEnd(s, q); lit = StrV([ssub(s, q, e)])
        low = StrV([lowStr(ssub(s, q, e))])
        dom, get = kw_fns(E, kw)
        if not c(pd) and c(dom(low.term())): return True, get(low.term()), lit, e, False
        return True, T("token_identifier"), lit, e, False
    if c(ch == 46): return True, 46, S("."), nxt(s, q), z3.Not(pd)
    if c(isdigit(ch)):
        e = numEnd(s, q)
        if c(isletter(cur(s, e))): return False, None, None, None, None
        return True, T("Number"), StrV([ssub(s, q, e)]), e, False
    if c(ch == 39):
        e = strEnd(s, q, z3.IntVal(39))
        if c(e == -1): return False, None, None, None, None
        d = digits(strVal(s, q, z3.IntVal(39)))
        if c(d == EMPTY): return False, None, None, None, None
        return True, T("Date"), StrV([d]), e, False
    for x in SINGLE:
        if c(ch == ord(x)): return True, ord(x), S(x), nxt(s, q), False
    if c(ch == 61): return True, T("EQUAL"), S("="), nxt(s, q), False
    if c(ch == 34):
        e = strEnd(s, q, z3.IntVal(34))
        if c(e == -1): return False, None, None, None, None
        return True, T("String"), StrV([strVal(s, q, z3.IntVal(34))]), e, False
    if c(ch == 60):
        n = nxt(s, q)
        if c(cur(s, n) == 62): return True, T("NeEQ"), S("<>"), nxt(s, n), False
        if c(cur(s, n) == 61): return True, T("LE"), S("<="), nxt(s, n), False
        return True, 60, S("<"), n, False
    if c(ch == 62):
        n = nxt(s, q)
        if c(cur(s, n) == 61): return True, T("GE"), S(">="), nxt(s, n), False
        return True, 62, S(">"), n, False
    if c(ch == 38):
        n = nxt(s, q); e = identEnd(s, n)
        lit = ssub(s, n, e)
        low = StrV([b"&", lowStr(lit)])
        dom, get = kw_fns(E, di)
        if c(dom(low.term())): return True, get(low.term()), StrV([b"&", lit]), e, False
        return False, None, None, None, None
    if c(ch == 126):
        n = nxt(s, q); e = identEnd(s, n)
        return True, T("GoToLabel"), StrV([ssub(s, n, e)]), e, False
    if c(ch == -1): return True, -1, S(""), q, False
    return False, None, None, None, None

VALUE_TOKENS = ("Number", "String", "Date", "Undefind", "True", "False")

class NextTok(LexContract):
    name = "(*Token).next"; props = ("C03",); where = "the end of the token"
    def setups(self, E):
        st, lx, a, s, off = lex_setup(E)
        E.env = {"s": s}
        pd = lx.get(st, "prevDot")
        pdc = z3.Bool("in:prevDot")
        E.write_ref(st, lx.tp.base, "Token", E.setf(E.load(st, lx.tp), (lx.i["prevDot"],), pdc))
        yield st, [lx.tp], {"lx": lx, "s": s, "off": off, "pd": pdc}
    def post(self, E, st, env):
        lx, s, off, pd = env["lx"], env["s"], iz(env["off"]), env["pd"]
        T = lambda n: tokc(E, n)
        for st, (ok, tok, lit, end, dot) in explore(E, st, lambda c: spec_next(E, c, s, off, pd)):
            rt, rl, re_ = st.result
            o = iz(lx.get(st, "offset"))
            nil = err_nil(E, st, re_)
            ch = cur(s, trivia(s, off))
            word = E.decide(st, isletter(ch)) is True or E.decide(st, ch == 38) is True
            P = ("C01", "C03") if word else ("C03",)
            num = E.decide(st, isdigit(ch)) is True
            litp = E.decide(st, z3.Or(ch == 34, ch == 39)) is True
            if num or litp: P = P + ("C04",)
            E.obl(st, "post", "the read position stays inside the text and does not move back", z3.And(o >= off, o <= strlen(s)), props=("C02",))
            if not ok:
                E.obl(st, "post", "a character sequence that is no token is an error", z3.Not(nil), props=P + ("C07",))
                # the code of a rejected character may coincide with a token number: the literal is then that character
                E.obl(st, "post", "no number or date is returned with an error", z3.And(*[z3.Implies(iz(rt) == T(n), bz(E.str_eq(rl, StrV([rune2strf(z3.IntVal(T(n)))])))) for n in ("Number", "Date")]), props=("C07",))
                continue
            E.obl(st, "post", "a token is not an error", nil, props=P)
            E.obl(st, "post", "the token class", iz(rt) == iz(tok), props=P)
            E.obl(st, "post", "the literal is the text of the token", bz(E.str_eq(rl, lit)), props=P)
            E.obl(st, "post", "the token starts after blanks and comments and ends with its last character", o == end, props=P + ("C05",))
            if not isinstance(tok, int) or tok != -1: E.obl(st, "post", "a token consumes text", o > off, props=("C02",))
            E.obl(st, "post", "a word is taken as a name exactly directly after a dot", bz(lx.get(st, "prevDot")) == z3.BoolVal(isinstance(tok, int) and tok == 46), props=("C01", "C03"))
        frame_check(E, st, [(lx.tp.base, "Token", lx.i[f]) for f in ("offset", "prevDot")], props=("C03", "C17"))
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        off = iz(off); pd = bz(lx.get(st, "prevDot"))
        a = (s, off, pd)
        ok, tok, lit, end = nxOk(*a), nxTok(*a), nxLit(*a), nxOff(*a)
        st.assume(z3.And(end >= off, end <= strlen(s)))
        st.assume(z3.Implies(z3.And(ok, tok != -1), end > off))
        # (a single character above U+00FF is neither a number nor a date: trusted fact about ParseFloat and time.Parse)
        st.assume(z3.Implies(z3.And(z3.Not(ok), tok == tokc(E, "Number")), z3.Not(isFloat(lit))))
        st.assume(z3.Implies(z3.And(z3.Not(ok), tok == tokc(E, "Date")), z3.And(strCount(lit, sconst("0")) != strlen(lit), *[z3.Not(isTime(sconst(f), lit)) for f in DATE_FORMATS])))
        lx.set(st, "offset", end)
        lx.set(st, "prevDot", nxPd(*a))
        e = E.w.Any.other(z3.IntVal(TAG_ERR), z3.Function("nxErr", Str, IntS, BoolS, IntS)(*a))
        return (tok, StrV([lit]), AnyV(tm=z3.If(ok, E.w.Any.nil, e)))

parseFloat = z3.Function("parseFloat", Str, Flt); isFloat = z3.Function("isFloat", Str, BoolS)
timeParse = z3.Function("timeParse", Str, Str, Tm); isTime = z3.Function("isTime", Str, Str, BoolS)
strCount = z3.Function("strCount", Str, Str, IntS)
DATE_FORMATS = ("20060102", "200601021504", "20060102150405")

def spec_value(E, c, tok, lit):
    """('none'|'err'|value) of a token"""
    T = lambda n: tokc(E, n)
    if c(tok == T("Number")):
        return AnyV(t="float64", v=parseFloat(lit)) if c(isFloat(lit)) else "err"
    if c(tok == T("String")): return AnyV(t="string", v=StrV([lit]))
    if c(tok == T("Date")):
        if c(strCount(lit, sconst("0")) == strlen(lit)): return AnyV(t="time.Time", v=z3.Const("zeroTime", Tm))
        for f in DATE_FORMATS:
            if c(isTime(sconst(f), lit)): return AnyV(t="time.Time", v=timeParse(sconst(f), lit))
        return "err"
    if c(tok == T("Undefind")): return AnyV(tm=E.w.Any.nil)
    if c(tok == T("True")): return AnyV(t="bool", v=True)
    if c(tok == T("False")): return AnyV(t="bool", v=False)
    return "none"

tkOk = z3.Function("tkOk", Str, IntS, BoolS, BoolS)
class NextValue(LexContract):
    name = "(*Token).Next"; props = ("C04",); where = "the end of the token"
    def setups(self, E):
        st, lx, a, s, off = lex_setup(E, ast_in_field=False)
        E.env = {"s": s}
        E.write_ref(st, lx.tp.base, "Token", E.setf(E.load(st, lx.tp), (lx.i["prevDot"],), z3.Bool("in:prevDot")))
        yield st, [lx.tp, AnyV(t="*AstNode", v=a)], {"lx": lx, "s": s, "off": off, "pd": z3.Bool("in:prevDot"), "a": a}
    def post(self, E, st, env):
        lx, s, off, pd = env["lx"], env["s"], iz(env["off"]), env["pd"]
        k = (s, off, pd)
        st0 = st
        for st, v in explore(E, st, lambda c: (c(nxOk(*k)), spec_value(E, c, nxTok(*k), nxLit(*k)))):
            ok, v = v
            tok, err = st.result
            nil = err_nil(E, st, err)
            E.obl(st, "post", "the token is the one read", iz(tok) == nxTok(*k), props=("C03",))
            E.obl(st, "post", "the literal is the one read", bz(E.str_eq(lx.get(st, "literal"), StrV([nxLit(*k)]))), props=("C01", "C03", "C06"))
            E.obl(st, "post", "the position is the one after the token", iz(lx.get(st, "offset")) == nxOff(*k), props=("C02", "C05"))
            E.obl(st, "post", "whether the token follows a dot is kept", bz(lx.get(st, "prevDot")) == nxPd(*k), props=("C01",))
            E.obl(st, "post", "the token refers to its module", bz(E.eq(st, lx.get(st, "ast"), AnyV(t="*AstNode", v=env["a"]))), props=("C06", "C19"))
            if not ok or v == "err":
                E.obl(st, "post", "no reading error is lost", z3.Not(nil), props=("C04", "C07"))
                continue
            E.obl(st, "post", "a well-formed token is not an error", nil, props=("C04", "C03"))
            if v != "none":
                E.obl(st, "post", "the value of the literal", bz(E.eq(st, lx.get(st, "value"), v)), props=("C04",))
        frame_check(E, st0, [(lx.tp.base, "Token", lx.i[f]) for f in ("offset", "prevDot", "ast", "value", "literal")], props=("C17",))
    def use(self, E, st, args):
        t, a = args
        if not E.chk_ptr(st, t, "call of Next"): return False
        lx = Lx(E, st, t)
        if a.t != "*AstNode": raise Unsupported("Next over another reader")
        lx.set(st, "ast", a)
        s = code_of(E, st, a.v).term(); off = iz(lx.get(st, "offset")); pd = bz(lx.get(st, "prevDot"))
        E.obl(st, "precondition", "Next is called with the position inside the text", z3.And(off >= 0, off <= strlen(s)), props=self.safety)
        k = (s, off, pd)
        st.assume(z3.And(nxOff(*k) >= off, nxOff(*k) <= strlen(s)))
        st.assume(z3.Implies(z3.And(nxOk(*k), nxTok(*k) != -1), nxOff(*k) > off))
        lx.set(st, "offset", nxOff(*k)); lx.set(st, "prevDot", nxPd(*k)); lx.set(st, "literal", StrV([nxLit(*k)]))
        lx.set(st, "value", AnyV(tm=z3.Function("tkVal", Str, IntS, BoolS, E.w.Any)(*k)))
        st.assume(z3.Implies(tkOk(*k), nxOk(*k)))
        e = E.w.Any.other(z3.IntVal(TAG_ERR), z3.Function("tkErr", Str, IntS, BoolS, IntS)(*k))
        return (nxTok(*k), AnyV(tm=z3.If(tkOk(*k), E.w.Any.nil, e)))

# ------------------------------------------------------------------ positions and diagnostics
strLastIndex = z3.Function("strLastIndex", Str, Str, IntS); runeCount = z3.Function("runeCount", Str, IntS)
def spec_pos(s, off):
    pre = ssub(s, z3.IntVal(0), off)
    bol = strLastIndex(pre, sconst("\n")) + 1
    return strCount(pre, sconst("\n")) + 1, runeCount(ssub(s, bol, off)) + 1

# counts over the characters (and bytes) before an offset that a loop over a text stands at
runesTo = F1("runesTo")
def u_runesTo(a):
    p, i = a.arg(0), a.arg(1)
    return [z3.Implies(i == 0, a == 0), z3.Implies(i == strlen(p), a == runeCount(p)), a >= 0,
            *[z3.Implies(z3.And(i >= 0, i < strlen(p)), runesTo(p, n) == a + 1) for n in (nxt(p, i), i + size_f(p, i))]]
linesTo, charsTo, breakTo, linesB, breakB = F1("linesTo"), F1("charsTo"), F1("breakTo"), F1("linesB"), F1("breakB")
def pos_facts(kind):
    NL = sconst("\n")
    def whole(p): return strCount(p, NL), strLastIndex(p, NL) + 1
    def u(a):
        p, i = a.arg(0), a.arg(1)
        if kind in ("linesB", "breakB"):      # text s, byte offset i: about s[:i]
            n, b = whole(ssub(p, z3.IntVal(0), i))
            F = linesB if kind == "linesB" else breakB
            brk = byte_f(p, i) == 10
            step = (z3.If(brk, a + 1, a)) if kind == "linesB" else z3.If(brk, i + 1, a)
            out = [z3.Implies(i == 0, a == 0), z3.Implies(z3.And(i >= 0, i <= strlen(p)), a == (n if kind == "linesB" else b)), a >= 0]
            out.append(z3.Implies(z3.And(i >= 0, i < strlen(p)), F(p, i + 1) == step))
            return out
        F = {"linesTo": linesTo, "charsTo": charsTo, "breakTo": breakTo}[kind]
        n, b = whole(p)
        brk = rune_f(p, i) == 10
        step = {"linesTo": z3.If(brk, a + 1, a), "charsTo": z3.If(brk, 0, a + 1), "breakTo": z3.If(brk, i + 1, a)}[kind]
        if z3.is_app(p) and p.decl().name() == "ssub" and z3.is_int_value(p.arg(1)) and p.arg(1).as_long() == 0: rest = ssub(p.arg(0), b, p.arg(2))
        else: rest = ssub(p, b, strlen(p))
        end = {"linesTo": n, "charsTo": runeCount(rest), "breakTo": b}[kind]
        return [z3.Implies(i == 0, a == 0), z3.Implies(i == strlen(p), a == end), z3.Implies(z3.And(i >= 0, i < strlen(p)), F(p, nxt(p, i)) == step), z3.Implies(z3.And(i >= 0, i < strlen(p)), F(p, i + size_f(p, i)) == step), a >= 0]
    return u

class GetPos(LexContract):
    name = "(*Token).GetPosition"; props = ("C06",); safety = ("C06", "C19"); where = ""
    def more(self, E, st, env, args): E.env = {"posn": (env["s"], iz(env["off"]))}
    def post(self, E, st, env):
        l, c = spec_pos(env["s"], iz(env["off"]))
        r = st.result[0]
        T = E.w.T("Position")["fields"]
        E.obl(st, "post", "the line is the number of line breaks before the position plus one", iz(E.getf(r, fidx(E, "Position", "Line"))) == l)
        E.obl(st, "post", "the column is the number of characters since the last line break plus one", iz(E.getf(r, fidx(E, "Position", "Column"))) == c)
        frame_check(E, st, [], props=("C06", "C17"))
    def use(self, E, st, args):
        r = self.pre_use(E, st, args)
        if r is None: return False
        lx, s, off = r
        l, c = spec_pos(s, iz(off))
        f = [0, 0]
        f[fidx(E, "Position", "Line")] = l; f[fidx(E, "Position", "Column")] = c
        st.assume(z3.And(l >= 1, c >= 1, l < 2**62, c < 2**62))
        return StructV("Position", f)

class ErrorC(Contract):
    name = "(*AstNode).Error"; props = ("C06", "C07"); safety = ("C06", "C19")
    def setup(self, E):
        st = State(E.w)
        a = PtrV("ref", z3.Int("in:ast"), "AstNode")
        E.bound(st, a.base); st.assume(z3.And(a.base > 0, a.base <= BASE))
        s = z3.Const("in:code", Str); off = z3.Int("in:offset"); lit = z3.Const("in:literal", Str)
        n = E.load(st, a)
        ct = fidx(E, "AstNode", "currentToken")
        lx = Lx(E, st, PtrV("ref", a.base, "AstNode", (ct,)))
        n = E.setf(n, (fidx(E, "AstNode", "code"),), StrV([s]))
        n = E.setf(n, (ct, lx.i["ast"]), AnyV(t="*AstNode", v=a)); n = E.setf(n, (ct, lx.i["offset"]), off); n = E.setf(n, (ct, lx.i["literal"]), StrV([lit]))
        E.write_ref(st, a.base, "AstNode", n)
        st.assume(z3.And(strlen(s) >= 0, strlen(s) < 2**62, off >= 0, off <= strlen(s)))
        m = z3.Const("in:msg", Str)
        E.env = {}
        return st, [a, StrV([m])], {"a": a, "s": s, "off": off, "lit": lit, "m": m}
    def post(self, E, st, env):
        l, c = spec_pos(env["s"], env["off"])
        want = StrV([env["m"], b". line: ", itoa(l), b", column: ", itoa(c - (runeCount(env["lit"]) + 1)), b" (unexpected literal: ", quote(env["lit"]), b")"])
        err = E.getf(E.load(st, env["a"]), fidx(E, "AstNode", "err"))
        E.obl(st, "post", "an error is recorded", z3.Not(err_nil(E, st, err)), props=("C07",))
        tm = E.to_term(err, None, st)
        ok = False
        if tm.decl().name() == "other" and tm.arg(1).decl().name() == "errid":
            t = tm.arg(1).arg(0)
            ok = self.same(E, st, t, want)
        E.obl(st, "post", "the diagnostic carries the message, the line and column of the offending word and the word", ok, props=("C06",))
        frame_check(E, st, [(env["a"].base, "AstNode", fidx(E, "AstNode", "err"))], props=("C06", "C17"))
    def same(self, E, st, t, want):
        """the text equals the wanted one (numbers compared as numbers)"""
        def flat(x):
            if x.decl().name() == "scat": return flat(x.arg(0)) + flat(x.arg(1))
            return [x]
        a = StrV(flat(t)).at; b = want.at
        if len(a) != len(b): return False
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, bytes) or isinstance(y, bytes):
                if x != y: return False
                continue
            if x.eq(y): continue
            if x.decl().name() == y.decl().name() == "itoa": cs.append(x.arg(0) == y.arg(0))
            else: cs.append(x == y)
        return And_(*cs)
    def use(self, E, st, args):
        a = args[0]
        if not E.chk_ptr(st, a, "call of Error"): return False
        E.store(st, PtrV("ref", a.base, "AstNode", a.path + (fidx(E, "AstNode", "err"),)), AnyV(tm=E.w.Any.other(z3.IntVal(TAG_ERR), fresh("diag", IntS))))
        return None

class LexC(Contract):
    """(*AstNode).Lex"""
    name = "(*AstNode).Lex"; props = ("C07",); safety = ("C02", "C19")
    def setup(self, E):
        st = State(E.w)
        a = PtrV("ref", z3.Int("in:ast"), "AstNode"); l = PtrV("ref", z3.Int("in:lval"), "yySymType")
        for x in (a, l):
            E.bound(st, x.base); st.assume(z3.And(x.base > 0, x.base <= BASE))
        s = z3.Const("in:code", Str); off = z3.Int("in:offset"); pd = z3.Bool("in:prevDot")
        E.write_ref(st, a.base, "AstNode", E.setf(E.load(st, a), (fidx(E, "AstNode", "code"),), StrV([s])))
        tk = fidx(E, "yySymType", "token")
        lx = Lx(E, st, PtrV("ref", l.base, "yySymType", (tk,)))
        v = E.load(st, l)
        v = E.setf(v, (tk, lx.i["offset"]), off); v = E.setf(v, (tk, lx.i["prevDot"]), pd)
        E.write_ref(st, l.base, "yySymType", v)
        st.assume(z3.And(strlen(s) >= 0, strlen(s) < 2**62, off >= 0, off <= strlen(s)))
        E.env = {"s": s}
        ct0 = E.getf(E.load(st, a), fidx(E, "AstNode", "currentToken"))
        err0 = E.getf(E.load(st, a), fidx(E, "AstNode", "err"))
        return st, [a, l], {"a": a, "l": l, "lx": lx, "s": s, "off": off, "pd": pd, "ct0": ct0, "err0": err0}
    def post(self, E, st, env):
        k = (env["s"], env["off"], env["pd"]); a = env["a"]
        st0 = st
        def spec(c):
            if c(strlen(env["s"]) == 0): return "empty"
            if not c(tkOk(*k)): return "err"
            if c(nxTok(*k) == -1): return "eof"
            return "tok"
        for st, v in explore(E, st, spec):
            r = iz(st.result[0])
            n = E.load(st, a)
            err = E.getf(n, fidx(E, "AstNode", "err")); ct = E.getf(n, fidx(E, "AstNode", "currentToken"))
            same = bz(E.eq(st, err, env["err0"]))
            if v == "err":
                E.obl(st, "post", "a reading error is recorded in the module", z3.Not(err_nil(E, st, err)))
                E.obl(st, "post", "after a reading error the text ends for the parser", r == -1)
            else:
                E.obl(st, "post", "reading a token does not touch a recorded error", same)
                if v == "tok":
                    E.obl(st, "post", "the parser gets the token read", r == nxTok(*k), props=("C07", "C03"))
                    E.obl(st, "post", "the token becomes the current token", bz(E.eq(st, ct, E.load(st, PtrV("ref", env["l"].base, "yySymType", (fidx(E, "yySymType", "token"),))))), props=("C06",))
                else:
                    E.obl(st, "post", "the end of the text is reported", r == -1)
            if v != "tok":
                E.obl(st, "post", "the current token stays the last one read", bz(E.eq(st, ct, env["ct0"])), props=("C06",))
            o = iz(env["lx"].get(st, "offset"))
            E.obl(st, "post", "the read position stays inside the text and moves forward", z3.And(o >= env["off"], o <= strlen(env["s"]), z3.BoolVal(v != "tok") if v != "tok" else o > env["off"]), props=("C02",))
        frame_check(E, st0, [(a.base, "AstNode", fidx(E, "AstNode", f)) for f in ("err", "currentToken")] + [(env["l"].base, "yySymType", fidx(E, "yySymType", "token"))], props=("C17",))

class Tables(Contract):
    """the keyword tables have exactly the language's reserved words"""
    name = "init"; props = ("C01",)

def check_tables(E):
    E.cur, E.curprops = "init", ("C01",)
    st = State(E.w)
    kw, di = spec_tables(E)
    g = [(n, v) for n, v in E.globals.items() if isinstance(v, MapV) and v.const is not None]
    for what, want in (("reserved words", kw), ("directives", di)):
        E.obl(st, "table", "a package table holds exactly the %s with their tokens" % what, any(v.const == want for n, v in g))

def lexer_contracts():
    return [SkipC("(*Token).skipSpace", "the end of the blanks", f_space, ("C05",)),
        SkipC("(*Token).skipComment", "the end of the comment", f_comment, ("C05",)),
        SkipC("(*Token).skipRegions", "the end of the preprocessor lines", f_regions, ("C05",)),
        ScanIdent(), ScanNumber(), ScanString(), Digits(), Lower(), NextTok(), NextValue(), GetPos(), ErrorC(), LexC()]
