"""Models of the standard library, character-level facts, execution of package initialisation, proof driver."""
import time, re, os
import z3
from sx import *
import sx

RUNEERR = 0xFFFD
# ------------------------------------------------------------------ characters
uniLetter = z3.Function("uniLetter", IntS, BoolS)
rune2strf = sx.rune2str
itoa = z3.Function("itoa", IntS, Str)
quote = z3.Function("quote", Str, Str)
fmtv = z3.Function("fmtv", z3.DeclareSort("Fmt"), Str)
SeqInt = z3.DeclareSort("Seq<Int>")
runes2strf = sx.runes2str

def L(s): return strlen(s)
def cur(s, p):
    return z3.If(iz(p) >= L(s), z3.IntVal(-1), rune_f(s, iz(p)))
def nxt(s, p): return iz(p) + size_f(s, iz(p))
def isspace(c): return z3.Or(c == 32, c == 9, c == 13, c == 10)
def isdigit(c): return z3.And(c >= 48, c <= 57)
def isletter(c): return z3.Or(uniLetter(c), c == 95)
def isident(c): return z3.Or(isletter(c), isdigit(c))

def rune_facts(s, p):
    r, n, l = rune_f(s, p), size_f(s, p), strlen(s)
    b0, b1 = byte_f(s, p), byte_f(s, p + 1)
    return [l >= 0,
        z3.Implies(z3.And(p >= 0, p < l), z3.And(n >= 1, n <= 4, p + n <= l, r >= 0, r <= 0x10FFFF, z3.Or(r < 0xD800, r > 0xDFFF),
            z3.Implies(r < 0x80, z3.And(n == 1, b0 == r)),
            z3.Implies(z3.And(r >= 0x80, r < 0x800), z3.And(n == 2, b0 == 0xC0 + r / 64, b1 == 0x80 + r % 64)),
            z3.Implies(z3.And(r >= 0x800, r < 0x10000, r != RUNEERR), n == 3),
            z3.Implies(r == RUNEERR, z3.Or(n == 1, n == 3)),
            z3.Implies(r >= 0x10000, n == 4),
            b0 >= 0, b0 <= 255, z3.Implies(b0 < 0x80, r == b0))),
        z3.Implies(p == l, z3.And(n == 0, r == RUNEERR))]

def u_rune(a): return rune_facts(a.arg(0), a.arg(1))
def u_byte(a): return [z3.Implies(z3.And(a.arg(1) >= 0, a.arg(1) < strlen(a.arg(0))), z3.And(a >= 0, a <= 255))]
def u_letter(a):
    c = a.arg(0)
    return [z3.Implies(c < 128, a == z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))),
            z3.Implies(c == RUNEERR, z3.Not(a)),
            z3.Implies(z3.And(c >= 0x410, c <= 0x44F), a), z3.Implies(c == 0x401, a), z3.Implies(c == 0x451, a)]
def u_rune2str(a):
    c = a.arg(0)
    out = [z3.Implies(z3.And(c >= 0, c < 128), strlen(a) == 1), strlen(a) >= 1]
    if z3.is_app(c) and c.decl().name() == "rune":
        s, p = c.arg(0), c.arg(1)
        out.append(z3.Implies(z3.And(p >= 0, p < strlen(s), c != RUNEERR), a == ssub(s, p, p + size_f(s, p))))
    return out
def u_ssub(a):
    s, lo, hi = a.arg(0), a.arg(1), a.arg(2)
    ok = z3.And(lo >= 0, lo <= hi, hi <= strlen(s))
    more = []
    if z3.is_app(hi) and hi.decl().kind() == z3.Z3_OP_ADD:
        for y in hi.children():
            if z3.is_app(y) and y.decl().name() == "size" and y.arg(0).eq(s) and not y.arg(1).eq(lo):
                x = y.arg(1)
                more.append(z3.Implies(z3.And(lo >= 0, lo <= x, x < strlen(s), hi == x + y), a == scat(ssub(s, lo, x), ssub(s, x, hi))))
    return more + [strlen(s) >= 0, z3.Implies(ok, strlen(a) == hi - lo), z3.Implies(z3.And(ok, lo == hi), a == EMPTY), z3.Implies(z3.And(lo == 0, hi == strlen(s)), a == s)]
def u_scat(a):
    x, y = a.arg(0), a.arg(1)
    out = [strlen(a) == strlen(x) + strlen(y), strlen(x) >= 0, strlen(y) >= 0]
    def is_sub(t): return z3.is_app(t) and t.decl().name() == "ssub"
    def ends(t):       # candidate representations of t as a substring
        if is_sub(t): yield t, None
        if z3.is_app(t) and t.decl().name() == "rune2str" and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "rune":
            s, p = t.arg(0).arg(0), t.arg(0).arg(1)
            yield ssub(s, p, p + size_f(s, p)), t
        if z3.is_app(t) and t.decl().name() == "scat":
            yield from ends(t.arg(0))
    for X, ex in ends(x):
        for Y, ey in ends(y):
            if X.arg(0).eq(Y.arg(0)):
                s, i, j, j2, k = X.arg(0), X.arg(1), X.arg(2), Y.arg(1), Y.arg(2)
                conds = [j == j2, i >= 0, i <= j, j <= k, k <= strlen(s)]
                if ex is not None: conds.append(ex == X)
                if ey is not None: conds.append(ey == Y)
                if y.decl().name() == "scat":
                    out.append(z3.Implies(z3.And(*conds), a == scat(ssub(s, i, k), y.arg(1))))
                else:
                    out.append(z3.Implies(z3.And(*conds), a == ssub(s, i, k)))
    return out
def u_strlen(a): return [a >= 0, z3.Implies(a == 0, a.arg(0) == EMPTY)]
def u_itoa(a): return [strlen(a) >= 1]

BASE_UNF = {"rune": u_rune, "size": u_rune, "byte": u_byte, "uniLetter": u_letter, "rune2str": u_rune2str, "ssub": u_ssub, "scat": u_scat, "strlen": u_strlen, "itoa": u_itoa}

# ------------------------------------------------------------------ errors and formatting
errid = z3.Function("errid", Str, IntS)
wrapid = z3.Function("wrapid", Str, z3.IntSort(), IntS)
TAG_ERR, TAG_WRAP = 1, 2

def fmt_arg(E, st, a, verb):
    """text of one argument (an AnyV) under a verb"""
    if a.t == "string" and verb in "sv": return a.v
    if a.t == "string" and verb == "q": return StrV([quote(a.v.term())])
    if a.t in INTKINDS and verb in "dv":
        c = conc(norm(a.v))
        return S(str(c)) if c is not None else StrV([itoa(iz(a.v))])
    if a.t == "bool" and verb in "v":
        return StrV([z3.If(bz(a.v), sconst("true"), sconst("false"))])
    tm = E.to_term(a, None, st)
    if verb in "vw" and a.t is None: return StrV([z3.Function("errText", E.w.Any, Str)(tm)])
    return StrV([z3.Function("fmt:" + verb, E.w.Any, Str)(tm)])

def sprintf(E, st, f, args):
    fc = f.const()
    vals = seq_list(E, st, args)
    if fc is None or vals is None:
        raise Unsupported("Sprintf with a variable format")
    out = S(); k = 0
    for m in re.finditer(rb"%([-+# 0]*)(\d*)(\.\d+)?([a-zA-Z%])|[^%]+", fc):
        t = m.group(0)
        if not t.startswith(b"%"): out = out + S(t); continue
        v = m.group(4).decode()
        if v == "%": out = out + S("%"); continue
        if k >= len(vals): raise Unsupported("Sprintf: missing argument")
        mod = (m.group(1) + m.group(2) + (m.group(3) or b"")).decode()
        a = vals[k]; k += 1
        if mod:
            out = out + StrV([z3.Function("fmt:" + mod + v, E.w.Any, Str)(E.to_term(a, None, st))])
        else: out = out + fmt_arg(E, st, a, v)
    if k != len(vals): raise Unsupported("Sprintf: extra argument")
    return out

def seq_list(E, st, v):
    if isinstance(v, ArrSlice):
        a = st.arrays[v.arr]
        if a.lst is None or conc(v.lo) is None or conc(v.len) is None: return None
        return a.lst[conc(v.lo):conc(v.lo) + conc(v.len)]
    if all(p[0] == "u" for p in v.parts): return [p[1] for p in v.parts]
    return None

def mkerr(E, st, text):
    return AnyV(tm=E.w.Any.other(z3.IntVal(TAG_ERR), errid(text.term())))

# ------------------------------------------------------------------ stdlib models
STD = {}
def std(*names):
    def d(f):
        for n in names: STD[n] = f
        return f
    return d

@std("unicode/utf8.DecodeRuneInString")
def _dec(E, st, a, i):
    v = a[0]
    if len(v.at) == 1 and not isinstance(v.at[0], bytes) and v.at[0].decl().name() == "ssub":
        t = v.at[0]
        s, lo, hi = t.arg(0), t.arg(1), t.arg(2)
        if hi.eq(strlen(s)): return (rune_f(s, lo), size_f(s, lo))
    c = v.const()
    t = v.term()
    return (rune_f(t, z3.IntVal(0)), size_f(t, z3.IntVal(0)))

@std("unicode.IsLetter")
def _isl(E, st, a, i):
    c = conc(norm(a[0]))
    if c is not None and c < 128: return (65 <= c <= 90) or (97 <= c <= 122)
    return uniLetter(iz(a[0]))

@std("fmt.Errorf")
def _errorf(E, st, a, i):
    return mkerr(E, st, sprintf(E, st, a[0], a[1]))
@std("fmt.Sprintf")
def _sprintf(E, st, a, i):
    return sprintf(E, st, a[0], a[1])
@std("fmt.Println", "fmt.Printf", "fmt.Print")
def _println(E, st, a, i):
    return (0, AnyV(tm=E.w.Any.nil))
@std("github.com/pkg/errors.Wrap")
def _wrap(E, st, a, i):
    e = a[0]
    tm = E.to_term(e, None, st)
    g = z3.Function("wrapErr", E.w.Any, Str, IntS)
    isn = E.eq(st, e, AnyV(tm=E.w.Any.nil))
    r = E.w.Any.other(z3.IntVal(TAG_WRAP), g(tm, a[1].term()))
    if isn is True: return AnyV(tm=E.w.Any.nil)
    if isn is False: return AnyV(tm=r)
    return AnyV(tm=z3.If(isn, E.w.Any.nil, r))
@std("strconv.ParseFloat")
def _pf(E, st, a, i):
    t = a[0].term()
    f = z3.Function("parseFloat", Str, Flt)(t)
    ok = z3.Function("isFloat", Str, BoolS)(t)
    e = E.w.Any.other(z3.IntVal(TAG_ERR), z3.Function("pfErr", Str, IntS)(t))
    return (f, AnyV(tm=z3.If(ok, E.w.Any.nil, e)))
@std("strings.Count")
def _count(E, st, a, i):
    r = z3.Function("strCount", Str, Str, IntS)(a[0].term(), a[1].term())
    st.assume(z3.And(r >= 0, r <= slen(a[0]) + 1))
    return r
@std("strings.LastIndex")
def _lasti(E, st, a, i):
    r = z3.Function("strLastIndex", Str, Str, IntS)(a[0].term(), a[1].term())
    st.assume(z3.And(r >= -1, z3.Implies(r >= 0, r + slen(a[1]) <= slen(a[0]))))
    return r
@std("strings.LastIndexByte", "strings.LastIndexRune")
def _lastib(E, st, a, i):
    c = conc(norm(a[1]))
    if c is None or not 0 <= c < 128: raise Unsupported("search of a variable character")
    return _lasti(E, st, [a[0], S(bytes([c]))], i)
@std("strings.Split")
def _split(E, st, a, i):
    cut = a[1].const()
    if cut is None or len(cut) != 1: raise Unsupported("call of strings.Split")
    # the parts before the last one are named, the last one is what follows the last separator
    f = E.w.seqfns("string")
    n = z3.Function("strCount", Str, Str, IntS)(a[0].term(), a[1].term()); k = z3.Function("strLastIndex", Str, Str, IntS)(a[0].term(), a[1].term()) + 1
    head = fresh("parts", E.w.seqsort("string"))
    st.assume(z3.And(n >= 0, k >= 0, k <= slen(a[0]), E.seqlen_t(head, f, st) == n))
    t = a[0].term()
    last = ssub(t.arg(0), t.arg(1) + k if not (z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 0) else k, t.arg(2)) if t.decl().name() == "ssub" else ssub(t, k, strlen(t))
    return SeqV("string", [("s", head), ("u", StrV([last]))])
@std("strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ReplaceAll")
def _trimset(E, st, a, i):
    cut = a[1].const(); fn = i["call"]["full"]
    if cut is None or len(cut) != 1 or cut[0] >= 128 or (fn.endswith("ReplaceAll") and a[2].const() != b""): raise Unsupported("call of " + fn)
    t = z3.Function(fn, Str, Str, Str)(a[0].term(), a[1].term())
    # nothing is left exactly when the text holds nothing else
    st.assume(z3.And(strlen(t) >= 0, strlen(t) <= slen(a[0]), (t == EMPTY) == (z3.Function("strCount", Str, Str, IntS)(a[0].term(), a[1].term()) == slen(a[0])), z3.Implies(strlen(t) == 0, t == EMPTY)))
    return StrV([t])
@std("time.Parse")
def _tp(E, st, a, i):
    g = z3.Function("timeParse", Str, Str, Tm)(a[0].term(), a[1].term())
    ok = z3.Function("isTime", Str, Str, BoolS)(a[0].term(), a[1].term())
    e = E.w.Any.other(z3.IntVal(TAG_ERR), z3.Function("tpErr", Str, Str, IntS)(a[0].term(), a[1].term()))
    # on failure time.Parse returns the zero time
    return (z3.If(ok, g, z3.Const("zeroTime", Tm)), AnyV(tm=z3.If(ok, E.w.Any.nil, e)))
@std("strings.TrimSpace")
def _trim(E, st, a, i):
    c = a[0].const()
    if c is not None: return S(c.strip())
    t = z3.Function("trimSpace", Str, Str)(a[0].term())
    st.assume(z3.And(strlen(t) >= 0, strlen(t) <= slen(a[0])))
    return StrV([t])
@std("unicode/utf8.RuneCountInString")
def _rc(E, st, a, i):
    r = z3.Function("runeCount", Str, IntS)(a[0].term())
    st.assume(z3.And(r >= 0, r <= slen(a[0])))
    return r

# reads and writes of atomic integers (sequential meaning)
@std("(*sync/atomic.Int32).Load")
def _ald(E, st, a, i):
    return E.load(st, a[0])
@std("(*sync/atomic.Int32).Add")
def _aad(E, st, a, i):
    v = norm(iz(E.load(st, a[0])) + iz(a[1]))
    E.store(st, a[0], v)
    return v
@std("(*sync/atomic.Int32).Store")
def _ast(E, st, a, i):
    E.store(st, a[0], a[1]); return None

@std("reflect.ValueOf")
def _rvo(E, st, a, i): return RVal(a[0])
@std("(reflect.Value).IsNil")
def _risnil(E, st, a, i):
    v = a[0].v
    if v.t is None: raise Unsupported("reflect.Value.IsNil of an unknown dynamic type")
    k = E.w.T(v.t)["kind"]
    if not E.safety(st, "reflect IsNil on a pointer, map, slice, function or interface", k in ("ptr", "map", "slice", "func", "iface")): return False
    return norm(E.eq(st, v.v, E.zero(v.t)))
@std("(reflect.Value).IsValid")
def _risv(E, st, a, i):
    v = a[0].v
    return True if v.t else norm(Not_(E.eq(st, v, AnyV(tm=E.w.Any.nil))))
# a constant set of characters
def _crune(E, st, a, i):
    c = a[0].const()
    try: cs = c.decode("utf-8") if c is not None else None
    except UnicodeDecodeError: cs = None
    if cs is None or "\ufffd" in cs: raise Unsupported("search of a character in a variable text")
    k = conc(norm(a[1]))
    return cs, k
@std("strings.ContainsRune")
def _containsrune(E, st, a, i):
    cs, k = _crune(E, st, a, i)
    if k is not None: return k >= 0 and k < 0x110000 and chr(k) in cs
    return norm(z3.Or(*[iz(a[1]) == ord(c) for c in sorted(set(cs))])) if cs else False
@std("strings.IndexRune")
def _indexrune(E, st, a, i):
    cs, k = _crune(E, st, a, i)
    r = z3.IntVal(-1)
    for c in reversed(range(len(cs))):
        r = z3.If(iz(a[1]) == ord(cs[c]), z3.IntVal(len(cs[:c].encode())), r)
    return norm(r)
@std("strings.IndexByte")
def _indexbyte(E, st, a, i):
    c = a[0].const()
    if c is None:
        r = z3.Function("strIndexByte", Str, IntS, IntS)(a[0].term(), iz(a[1]))
        st.assume(z3.And(r >= -1, r < slen(a[0]), z3.Implies(r >= 0, byte_f(a[0].term(), r) == iz(a[1]))))
        return r
    r = z3.IntVal(-1)
    for k in reversed(range(len(c))): r = z3.If(iz(a[1]) == c[k], z3.IntVal(k), r)
    return norm(r)
@std("strings.HasPrefix")
def _lexhasprefix(E, st, a, i):
    p = a[1].const(); c = a[0].const()
    if p is None: raise Unsupported("HasPrefix with a variable prefix")
    if c is not None: return c.startswith(p)
    t = a[0].term()
    if t.decl().name() == "ssub":
        s, lo, hi = t.arg(0), t.arg(1), t.arg(2)
        return norm(z3.And(lo + len(p) <= hi, *[byte_f(s, lo + k if k else lo) == p[k] for k in range(len(p))]))
    return norm(z3.And(slen(a[0]) >= len(p), *[byte_f(t, z3.IntVal(k)) == p[k] for k in range(len(p))]))
@std("unicode/utf8.RuneLen")
def _runelen(E, st, a, i):
    c = iz(a[0])
    return norm(z3.If(c < 0, -1, z3.If(c < 0x80, 1, z3.If(c < 0x800, 2, z3.If(z3.And(c >= 0xD800, c <= 0xDFFF), -1, z3.If(c < 0x10000, 3, z3.If(c <= 0x10FFFF, 4, -1)))))))
@std("errors.New", "github.com/pkg/errors.New")
def _errnew(E, st, a, i): return mkerr(E, st, a[0])
@std("github.com/pkg/errors.Errorf")
def _perrorf(E, st, a, i): return mkerr(E, st, sprintf(E, st, a[0], a[1]))
@std("github.com/pkg/errors.WithMessage")
def _withmsg(E, st, a, i): return _wrap(E, st, a, i)
@std("github.com/pkg/errors.WithStack")
def _withstack(E, st, a, i): return _wrap(E, st, [a[0], S()], i)
@std("github.com/pkg/errors.Wrapf")
def _wrapf(E, st, a, i): return _wrap(E, st, [a[0], sprintf(E, st, a[1], a[2])], i)
@std("strconv.Itoa")
def _itoa(E, st, a, i):
    c = conc(norm(a[0]))
    return S(str(c)) if c is not None else StrV([itoa(iz(a[0]))])
@std("strconv.Quote")
def _quote(E, st, a, i): return StrV([quote(a[0].term())])
def _writer(a):
    if a.t in ("*strings.Builder", "*bytes.Buffer"): return a.v
    raise Unsupported("writing into an unknown writer")
@std("io.WriteString")
def _iows(E, st, a, i):
    w = _writer(a[0]); E.store(st, w, E.load(st, w) + a[1]); return (norm(slen(a[1])), AnyV(tm=E.w.Any.nil))
@std("fmt.Fprintf")
def _fprintf(E, st, a, i):
    w = _writer(a[0]); t = sprintf(E, st, a[1], a[2])
    E.store(st, w, E.load(st, w) + t); return (norm(slen(t)), AnyV(tm=E.w.Any.nil))
@std("fmt.Fprint", "fmt.Sprint")
def _fprint(E, st, a, i):
    fp = i["call"]["full"].endswith("Fprint")
    vals = seq_list(E, st, a[1 if fp else 0])
    # spaces are put between operands when neither is a string
    if vals is None or any(v.t != "string" for v in vals): raise Unsupported("fmt.Sprint of values that are not texts")
    t = S()
    for v in vals: t = t + v.v
    if not fp: return t
    w = _writer(a[0]); E.store(st, w, E.load(st, w) + t); return (norm(slen(t)), AnyV(tm=E.w.Any.nil))
# strings.Builder
def _bload(E, st, p): return E.load(st, p)
@std("(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString")
def _bws(E, st, a, i):
    E.store(st, a[0], E.load(st, a[0]) + a[1]); return (norm(slen(a[1])), AnyV(tm=E.w.Any.nil))
@std("(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune")
def _bwr(E, st, a, i):
    c = conc(norm(a[1]))
    x = S(rune_bytes(c)) if c is not None else StrV([rune2strf(iz(a[1]))])
    E.store(st, a[0], E.load(st, a[0]) + x); return (1, AnyV(tm=E.w.Any.nil))
@std("(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte")
def _bwb(E, st, a, i):
    c = conc(norm(a[1]))
    if c is None: raise Unsupported("WriteByte")
    E.store(st, a[0], E.load(st, a[0]) + S(bytes([c]))); return AnyV(tm=E.w.Any.nil)
@std("(*strings.Builder).String", "(*bytes.Buffer).String")
def _bs(E, st, a, i): return E.load(st, a[0])
@std("(*strings.Builder).Len", "(*bytes.Buffer).Len")
def _bl(E, st, a, i): return norm(slen(E.load(st, a[0])))
@std("(*strings.Builder).Grow", "(*strings.Builder).Reset", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Reset")
def _bg(E, st, a, i):
    if i["call"]["full"].endswith("Reset"): E.store(st, a[0], S())
    return None

# ------------------------------------------------------------------ package initialisation
def run_init(E):
    """executes the package's init concretely; fills E.globals"""
    f = E.w.funcs["init"]
    st = State(E.w)
    save = E.cur
    E.cur = "init"
    regs = {}
    for g in E.w.d["globals"]:
        T = E.w.T(g["type"])["elem"]
        if E.w.T(T)["kind"] != "array": E.globals[g["name"]] = E.zero(T)
    def ov(o):
        if o["k"] == "reg": return regs[o["n"]]
        return E.val(st, Frame(f), o)
    def value(v):       # a slice literal as a value: its elements (all of them are stored before it is used)
        if isinstance(v, tuple) and v[0] == "sliced": return SeqV(v[1].elem, [("u", value(x)) for x in v[1].lst])
        if isinstance(v, tuple) and v[0] == "arrval": return v[1]
        return v
    blk = f["blocks"]
    if len(blk) != 1: raise Unsupported("init with control flow")
    arrs = {}
    for i in blk[0]["instrs"]:
        op = i["op"]
        if op == "alloc":
            T = E.w.T(i["t"])["elem"]; x = E.w.T(T)
            if x["kind"] != "array": regs[i["r"]] = ("el", ArrObj(T, lst=[E.zero(T)], ln=1), 0, ())
            else: regs[i["r"]] = ("arr", ArrObj(x["elem"], lst=[E.zero(x["elem"])] * x["len"], ln=x["len"]))
        elif op == "indexaddr":
            x = ov(i["x"]); k = ov(i["i"])
            if isinstance(x, PtrV) and x.kind == "glob":
                if x.base not in E.globals:
                    e = E.w.T(x.T)
                    E.globals[x.base] = ArrObj(e["elem"], lst=[E.zero(e["elem"])] * e["len"], ln=e["len"])
                regs[i["r"]] = ("el", E.globals[x.base], k, ())
            else: regs[i["r"]] = ("el", x[1], k, ())
        elif op == "fieldaddr":
            x = ov(i["x"])
            if isinstance(x, tuple) and x[0] == "el": regs[i["r"]] = x[:3] + (x[3] + (i["f"],),)
            elif isinstance(x, PtrV) and x.kind == "glob": regs[i["r"]] = PtrV("glob", x.base, x.T, x.path + (i["f"],))
            else: raise Unsupported("init fieldaddr")
        elif op == "store":
            a = ov(i["a"]); v = ov(i["v"])
            v = value(v)
            if v == ("unknown",) and isinstance(v, tuple):
                if not (isinstance(a, PtrV) and a.kind == "glob" and not a.path): raise Unsupported("init store")
                E.globals.pop(a.base, None)
            elif isinstance(a, tuple) and a[0] == "el": a[1].lst[a[2]] = E.setf(a[1].lst[a[2]], a[3], v) if a[3] else v
            elif isinstance(a, PtrV) and a.kind == "glob":
                E.globals[a.base] = E.setf(E.globals.get(a.base), a.path, v) if a.path else v
            else: raise Unsupported("init store")
        elif op == "un":
            x = ov(i["x"])
            if isinstance(x, tuple) and x[0] == "arr": regs[i["r"]] = ("arrval", x[1])
            elif isinstance(x, tuple) and x[0] == "el":
                v = x[1].lst[x[2]]
                for k in x[3]: v = E.getf(v, k)
                regs[i["r"]] = v
            elif isinstance(x, PtrV) and x.kind == "glob" and x.base in E.globals:
                v = E.globals[x.base]
                for k in x.path: v = E.getf(v, k)
                regs[i["r"]] = v
            else: raise Unsupported("init un")
        elif op == "makemap": regs[i["r"]] = MapV(-1, i["t"], const={})
        elif op == "mapupdate":
            k = ov(i["key"]); k = k.const() if isinstance(k, StrV) else conc(norm(k)) if isinstance(k, int) or z3.is_expr(k) else None
            if k is None: raise Unsupported("init: map key")
            ov(i["m"]).const[k] = value(ov(i["v"]))
        elif op == "call":
            fn = i["call"]["fn"]["n"]
            if i["call"].get("full") == "fmt.Errorf" or fn == "fmt.Errorf":
                a = [value(ov(x)) for x in i["call"]["args"]]
                regs[i["r"]] = mkerr(E, st, sprintf(E, st, a[0], a[1]))
            elif fn not in E.w.funcs and fn.endswith("init"): pass
            elif fn not in E.w.funcs and i["call"].get("full") in E.stdlib:
                regs[i["r"]] = E.stdlib[i["call"]["full"]](E, st, [value(ov(x)) for x in i["call"]["args"]], i)
            elif fn not in E.w.funcs and "full" in i["call"]: regs[i["r"]] = ("unknown",)       # a library value: reading the variable is out of reach
            else: raise Unsupported("init calls " + fn)
        elif op == "slice":
            x = ov(i["x"])
            if i["lo"] or i["hi"] or not (isinstance(x, tuple) and x[0] == "arr"): raise Unsupported("init slice")
            regs[i["r"]] = ("sliced", x[1])
        elif op == "return": break
        elif op in ("changetype", "convert", "makeiface", "changeiface"):
            fr = Frame(f); fr.regs = regs
            getattr(E, "i_" + op)(st, fr, i)
        else: raise Unsupported("init: " + op)
    for g in E.w.d["globals"]:
        T = E.w.T(g["type"])["elem"]; x = E.w.T(T)
        if x["kind"] == "array" and (g["name"] not in E.globals or not isinstance(E.globals[g["name"]], ArrObj)):
            E.globals[g["name"]] = ArrObj(x["elem"], lst=[E.zero(x["elem"])] * x["len"], ln=x["len"])
    E.cur = save

# ------------------------------------------------------------------ specification evaluation with case splits
class Ctx:
    def __init__(self, E, st, script):
        self.E, self.st, self.script, self.pos, self.forks = E, st, script, 0, []
    def cond(self, b):
        b = norm(b) if not isinstance(b, bool) else b
        if isinstance(b, bool): return b
        d = self.E.decide(self.st, b)
        if d is not None: return d
        if self.pos < len(self.script): v = self.script[self.pos]
        else:
            v = True
            self.forks.append(self.script + [False])
            self.script = self.script + [True]
        self.pos += 1
        self.st.assume(b if v else z3.Not(b))
        return v
    __call__ = cond

def explore(E, st, fn, limit=400):
    """runs specification code fn(ctx); returns [(state, value)] over all case splits"""
    work = [[]]; out = []
    while work:
        sc = work.pop()
        c = Ctx(E, st.copy(), sc)
        v = fn(c)
        out.append((c.st, v))
        work.extend(c.forks)
        if len(out) > limit: raise Unsupported("too many cases in a specification")
    return out

# ------------------------------------------------------------------ contracts
class Contract:
    name = None
    props = ()
    safety = ("C19",)
    loops = None
    def setup(self, E):
        """returns (state, args, env)"""
        raise NotImplementedError
    def post(self, E, st, env):
        pass
    # use(E, st, args) defined by contracts that callers may rely on

def param_value(E, st, t, name):
    w = E.w; x = w.T(t)
    if x["kind"] == "func": return FuncV(sym=z3.Const(name, IntS))
    tm = z3.Const("in:" + name, w.sort(t))
    E.constrain(st, tm, t)
    v = E.from_term(tm, t)
    if isinstance(v, PtrV):
        E.bound(st, v.base)
        st.assume(z3.And(tm >= 0, tm <= BASE))
    return v

def start(E, fname, st, args):
    f = E.w.funcs[fname]
    fr = Frame(f)
    for p, a in zip(f["params"], args): fr.regs[p["name"]] = a
    st.frames.append(fr)

def reset_caches(E):
    E.facts_cache = {}; E.ti_cache = {}; E.sf_cache = {}; E.ids_cache = {}

def prove(E, con):
    """one function against its contract; first with few definitions unfolded, then with all of them"""
    t0 = time.time()
    n0 = len(E.obls)
    E.defs_on = getattr(con, "defs", None)
    reset_caches(E)
    obl, t = prove1(E, con)
    if not os.environ.get("NORETRY") and E.defs_on is not None and any(not o.ok for o in obl):
        first = E.obls[n0:]
        del E.obls[n0:]
        E.defs_on = None
        reset_caches(E)
        obl, t = prove1(E, con)
        if sum(not o.ok for o in obl) > sum(not o.ok for o in first):
            E.obls[n0:] = first
    E.defs_on = None
    reset_caches(E)
    return E.obls[n0:], time.time() - t0

def prove1(E, con):
    n0 = len(E.obls)
    t0 = time.time()
    E.cur, E.curprops, E.safety_props = con.name, con.props, con.safety
    try:
        if con.name not in E.w.funcs:
            raise Unsupported("function %s is not in the program" % con.name)
        for k, (st, args, env) in enumerate(con.setups(E) if hasattr(con, "setups") else [con.setup(E)]):
            # vacuity: the precondition is satisfiable
            if E.check(st, []) == z3.unsat:
                E.obls.append(Obl(con.name, "cover", "precondition is satisfiable", None, False, "", 0, con.props)); continue
            st.mem0 = {k: {str(r): v for r, v in m.ups} for k, m in st.mem.items()}
            E.mem0 = st.mem0
            start(E, con.name, st, args)
            finals = E.run(st)
            reach = 0
            for s in finals:
                if reach == 0 and E.check(s, []) != z3.unsat: reach += 1
                con.post(E, s, env)
            if hasattr(con, "post_all"): con.post_all(E, finals, env)
            E.obls.append(Obl(con.name, "cover", "some execution returns (the contract is not vacuous)", None, reach > 0, "", 0, con.props))
    except Unsupported as e:
        E.obls.append(Obl(con.name, "unsupported", "the function is within reach of the verifier: %s" % e, None, False, "unsupported", 0, tuple(con.props) + tuple(con.safety)))
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, z3.Z3Exception, RecursionError) as e:
        import traceback
        tb = traceback.format_exc()
        E.obls.append(Obl(con.name, "unsupported", "the function is within reach of the verifier: %s %s" % (type(e).__name__, e), None, False, tb[-1500:], 0, tuple(con.props) + tuple(con.safety)))
    return E.obls[n0:], time.time() - t0

def fields_of(E, v, T):
    return [(f["name"], E.getf(v, k)) for k, f in enumerate(E.w.T(T)["fields"] or [])]

def fidx(E, T, name):
    for k, f in enumerate(E.w.T(T)["fields"] or []):
        if f["name"] == name: return k
    raise Unsupported("field %s.%s" % (T, name))

def frame_check(E, st, allowed, props=None):
    """every object that existed before keeps its content except the allowed (ref, T, field path or None)"""
    for key, m in st.mem.items():
        T = key[4:] if key.startswith("map:") else key
        base0 = "mem0:" + key
        if m.base.decl().name() != base0:
            if not any(a[0] is None and a[1] == key for a in allowed):
                E.obl(st, "frame", "memory of type %s is not written" % key, False, props=props)
            continue
        for (r, v) in m.ups:
            c = conc(r)
            if c is not None and c > BASE: continue
            full = [a for a in allowed if a[1] == key and (a[0] is None or a[2] is None and E.ref_eq(st, a[0], r) is True)]
            if full: continue
            if key.startswith("map:"):
                old = E.mem0.get(key, {}).get(str(r))
                E.obl(st, "frame", "map %s is not written" % T, v == (old if old is not None else z3.Select(m.base, iz(r))), props=props)
                continue
            old = E.mem0.get(key, {}).get(str(r))
            if old is None: old = E.from_term(z3.Select(m.base, iz(r)), T)
            alw = [a for a in allowed if a[1] == key and E.ref_eq(st, a[0], r) is True]
            for k, f in enumerate(E.w.T(T)["fields"] or []):
                if any(a[2] == k for a in alw): continue
                E.obl(st, "frame", "%s.%s is unchanged" % (T, f["name"]), E.eq(st, E.getf(v, k), E.getf(old, k)), props=props)
