"""The Go wrapper of the C lowering routine, over the contracts of the routine (proved in cverify) and of cgo's plumbing (assumed)."""
import os, json
import z3
from sx import *
from base import *
import dump as D
import cverify

PROPS = ("C18",)
CLOW = z3.Function("clow", Str, Str)     # the text with every byte lowered as the specification of the routine says

def live(E, st, p, what):
    if not (isinstance(p, PtrV) and p.kind == "cbuf"): raise Unsupported("C pointer: %s" % (p,))
    content, state = st.ghost["cbuf:%d" % p.base]
    E.obl(st, "safety", "%s: the C buffer has not been freed" % what, state == "live", props=PROPS)
    if p.idx: raise Unsupported("C pointer inside the buffer")
    return content

def m_cstring(E, st, args, i):
    k = next_id(st); st.ghost["cbuf:%d" % k] = (args[0], "live")
    return PtrV("cbuf", k, "_Ctype_char", idx=0)
def next_id(st):
    k = st.ghost.get("cbufs", 0); st.ghost["cbufs"] = k + 1
    return k + 1
def m_routine(E, st, args, i):
    c = live(E, st, args[0], "the routine")
    E.obl(st, "pre", "the routine is given the length of its text", norm(iz(args[1]) == iz(slen(c))), props=PROPS)
    t = CLOW(c.term()); st.assume(strlen(t) == slen(c))
    st.ghost["cbuf:%d" % args[0].base] = (StrV([t]), "live")
    return None
def text(E, st, p, n, what):
    c = live(E, st, p, what)
    E.obl(st, "safety", "%s stays inside the C buffer" % what, z3.And(iz(n) >= 0, iz(n) <= iz(slen(c)) + 1), props=PROPS)
    E.obl(st, "pre", "%s takes the whole text" % what, norm(iz(n) == iz(slen(c))), props=PROPS)
    return c
def m_gostringn(E, st, args, i): return text(E, st, args[0], args[1], "C.GoStringN")
def m_free(E, st, args, i):
    c = live(E, st, args[0], "C.free"); st.ghost["cbuf:%d" % args[0].base] = (c, "freed")
    return None
def m_check(E, st, args, i): return None

class CSlice:
    def __init__(self, p, n): self.p, self.n = p, n

class WrapEngine(Engine):
    def builtin(self, st, fr, i, name, args):
        if name == "Slice" and isinstance(args[0], PtrV) and args[0].kind == "cbuf":
            text(self, st, args[0], args[1], "unsafe.Slice")
            fr.regs[i["r"]] = CSlice(args[0], args[1]); return None
        return Engine.builtin(self, st, fr, i, name, args)
    def convert(self, st, v, fn, tn, ft, tt):
        if isinstance(v, CSlice):
            if tt["kind"] == "basic" and tt.get("basic") == "string": return text(self, st, v.p, v.n, "the conversion to a string")
            raise Unsupported("C bytes converted to " + tn)
        if isinstance(v, PtrV) and v.kind == "cbuf" and tn in ("unsafe.Pointer", "*byte", "*uint8", "*_Ctype_char", "*int8", "*_Ctype_uchar", "*_Ctype_schar"): return v
        return Engine.convert(self, st, v, fn, tn, ft, tt)

class WrapC(Contract):
    name = "FastToLower"; props = PROPS; safety = PROPS
    loops = NoLoopSpec()
    def setup(self, E):
        st = State(E.w)
        s = param_value(E, st, "string", "str")
        st.assume(z3.And(slen(s) >= 0, slen(s) < 2**62))
        return st, [s], {"s": s}
    def post(self, E, st, env):
        r = st.result[0]
        want = CLOW(env["s"].term())
        st.assume(strlen(want) == slen(env["s"])); st.assume(z3.Implies(strlen(want) == 0, want == EMPTY))
        E.obl(st, "post", "the result is the lowered text", norm(E.eq(st, r, StrV([want]))), props=PROPS)
        frame_check(E, st, [], props=PROPS)

PKG = "./ast/fast_tolower"
def world():
    d = D.dump(PKG)
    d["funcs"] = [f for f in d["funcs"] if not f["name"].lower().startswith(("_c", "init"))]      # cgo's generated plumbing
    return World(d)
def unit_wrapper(E0):
    w = world()
    E = WrapEngine(w, stdlib=STD); E.env = {}
    names = set(cverify.routine_names(w))
    std = dict(STD)
    std.update({"_Cfunc_CString": m_cstring, "_Cfunc_GoStringN": m_gostringn, "_Cfunc_free": m_free, "_cgoCheckPointer": m_check})
    for n in names: std["_Cfunc_" + n] = m_routine
    E.stdlib = std
    obls, _ = prove(E, WrapC())
    E0.nq += E.nq
    E0.obls += obls
    return E0.obls

def unit_c(E0):
    w = world()
    try:
        f, ir = cverify.compile_ir(os.path.join(D.REPO, PKG)); funcs, globs = cverify.parse_ir(ir)
        names = cverify.routine_names(w)
        if not names: raise Unsupported("the wrapper calls no routine of its own")
        for n in names:
            if n not in funcs: raise Unsupported("the routine %s is not in the preamble" % n)
            cverify.CV(f, funcs, globs, n, E0, PROPS).prove()
    except Unsupported as e:
        E0.obls.append(Obl("fastToLower (C)", "unsupported", "the routine is within reach of the verifier: %s" % e, None, False, "unsupported", 0, PROPS))
    return E0.obls
