"""Symbolic executor / verification-condition generator over the dumped SSA of /repo's current source.

Every function with a contract is executed symbolically from an arbitrary state satisfying its precondition; calls to
functions with a contract use the contract only, other calls of the package are inlined, loops are cut at their header
with invariants selected (Houdini) from a pool of candidates.  Obligations go to z3.
"""
import sys, time, itertools
import z3
sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass

import os
DEBUG = os.environ.get('SXDEBUG')
BASE = 1000000          # reference numbers below are allocated before the function under proof starts
z3.set_param("smt.random_seed", 1)

# ---------------------------------------------------------------- sorts
Str = z3.DeclareSort("Str")
Flt = z3.DeclareSort("Flt")
Tm = z3.DeclareSort("Tm")
Opq = z3.DeclareSort("Opq")
IntS, BoolS = z3.IntSort(), z3.BoolSort()

INTKINDS = {"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "rune", "byte"}

class World:
    """Types, sorts and boxed values of one dump."""
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.funcs = {f["name"]: f for f in d["funcs"]}
        for f in d["funcs"]:
            for b in f["blocks"]:
                b["instrs"] = b["instrs"] or []
            f["params"] = f["params"] or []
            f["free"] = f["free"] or []
            f["results"] = f["results"] or []
        self.methods = d["methods"]
        self.consts = d["consts"]
        self._mk_sorts()
        self.loops = {}

    def T(self, t):
        return self.types[t]

    def canon(self, t):
        """canonical name: aliases (byte, rune, any) resolved one level"""
        x = {"byte": "uint8", "rune": "int32", "any": "interface{}"}.get(t)
        return x or t

    def kind(self, t):
        return self.types[t]["kind"]

    def is_special(self, t):
        return t in ("sync/atomic.Int32", "strings.Builder", "time.Time", "bytes.Buffer", "reflect.Value")

    def struct_local(self, t):
        x = self.types.get(t)
        return x is not None and x["kind"] == "struct" and not self.is_special(t) and "." not in t.split("{")[0] and not t.startswith("struct{")

    def _mk_sorts(self):
        boxes = set()
        for f in self.d["funcs"]:
            for b in f["blocks"]:
                for i in b["instrs"] or []:
                    if i["op"] == "makeiface":
                        boxes.add(self.canon(i["x"]["t"]))
                    if i["op"] == "assert" and self.kind(i["at"]) != "iface":
                        boxes.add(self.canon(i["at"]))
        for t in ("int", "int32", "int64", "float32", "float64", "string", "bool", "time.Time"):
            boxes.add(t)
        for t in self.types:
            if self.struct_local(t) and ("*" + t) in self.types:
                boxes.add(t); boxes.add("*" + t)
            elif self.types[t].get("named") and "." not in t and self.types[t]["kind"] in ("basic", "slice") and not t.startswith("$"):
                boxes.add(t)
        self.boxes = sorted(boxes)
        structs = sorted(t for t in self.types if self.struct_local(t))
        AnyD = z3.Datatype("Any")
        DT = {t: z3.Datatype("S_" + t) for t in structs}
        self._sortcache = {}
        seqsorts = self.seqsorts = {}

        def fsort(t):           # sort usable inside the declaration
            k = self.types[t]["kind"]
            if t in DT: return DT[t]
            if k == "iface": return AnyD
            return self._plain(t, fsort)
        self._fs = fsort
        # sequence sorts are uninterpreted, one per element type
        AnyD.declare("nil")
        self.boxctor = {}
        for i, t in enumerate(self.boxes):
            k = self.types[t]["kind"] if t in self.types else "basic"
            AnyD.declare("box%d" % i, ("unbox%d" % i, fsort(t) if t in self.types else self._plain(t, fsort)))
        AnyD.declare("other", ("otag", IntS), ("oid", IntS))
        for t in structs:
            fs = self.types[t]["fields"] or []
            DT[t].declare("mk", *[("f%d" % i, fsort(f["type"])) for i, f in enumerate(fs)])
        order = [AnyD] + [DT[t] for t in structs]
        made = z3.CreateDatatypes(*order)
        self.Any = made[0]
        self.DT = {t: made[i + 1] for i, t in enumerate(structs)}
        self.boxidx = {t: i for i, t in enumerate(self.boxes)}
        self._seq = {}

    def _plain(self, t, rec):
        x = self.types.get(t)
        if t == "sync/atomic.Int32": return IntS
        if t == "strings.Builder": return Str
        if t == "bytes.Buffer": return Str
        if t == "time.Time": return Tm
        if t == "float64" or t == "float32": return Flt
        if t == "string": return Str
        if t == "bool": return BoolS
        if t in INTKINDS: return IntS
        if x is None: return Opq
        k = x["kind"]
        if k == "basic":
            b = x["basic"]
            if b == t: return Opq
            return self._plain(b, rec)
        if k == "ptr" or k == "map" or k == "func": return IntS
        if k == "slice":
            return self.seqsort(x["elem"])
        if k == "array": return Opq
        return Opq

    def elemkey(self, t):
        x = self.types.get(t)
        if x is not None and x["kind"] == "iface": return "Any"
        c = self.canon(t)
        if x is not None and x["kind"] == "basic": return "Int" if x["basic"] in INTKINDS else x["basic"]
        return c

    def seqsort(self, elem):
        k = self.elemkey(elem)
        if k not in self.seqsorts:
            self.seqsorts[k] = z3.DeclareSort("Seq<%s>" % k)
        return self.seqsorts[k]

    def sort(self, t):
        if t in self._sortcache: return self._sortcache[t]
        if t in self.DT: s = self.DT[t]
        elif self.types.get(t, {}).get("kind") == "iface": s = self.Any
        else: s = self._plain(t, None)
        self._sortcache[t] = s
        return s

    # boxed values
    def box(self, t, term):
        t = self.canon(t)
        if t not in self.boxidx: raise Unsupported("box " + t)
        return getattr(self.Any, "box%d" % self.boxidx[t])(term)

    def isbox(self, t, a):
        t = self.canon(t)
        if t not in self.boxidx: raise Unsupported("isbox " + t)
        return getattr(self.Any, "is_box%d" % self.boxidx[t])(a)

    def unbox(self, t, a):
        t = self.canon(t)
        return getattr(self.Any, "unbox%d" % self.boxidx[t])(a)

    def seqfns(self, elem):
        k = self.elemkey(elem)
        if k in self._seq: return self._seq[k]
        S = self.seqsort(elem); E = self.sort(elem)
        class F: pass
        f = F()
        f.S, f.E = S, E
        f.nil = z3.Const("nil<%s>" % k, S); f.empty = z3.Const("empty<%s>" % k, S)
        f.unit = z3.Function("unit<%s>" % k, E, S)
        f.cat = z3.Function("cat<%s>" % k, S, S, S)
        f.len = z3.Function("len<%s>" % k, S, IntS)
        f.nth = z3.Function("nth<%s>" % k, S, IntS, E)
        f.slice = z3.Function("slice<%s>" % k, S, IntS, IntS, S)
        f.k = k
        f.elem = elem
        self._seq[k] = f
        return f

# ---------------------------------------------------------------- string constants and facts
_ctr = itertools.count()
def fresh(name, sort):
    return z3.Const("%s!%d" % (name, next(_ctr)), sort)

def ctr_now():
    return next(_ctr)

EMPTY = z3.Const("str:", Str)
strlen = z3.Function("strlen", Str, IntS)
scat = z3.Function("scat", Str, Str, Str)
ssub = z3.Function("ssub", Str, IntS, IntS, Str)
rune_f = z3.Function("rune", Str, IntS, IntS)
size_f = z3.Function("size", Str, IntS, IntS)
byte_f = z3.Function("byte", Str, IntS, IntS)
runes2str = z3.Function("runes2str", z3.DeclareSort("Seq<Int>"), Str)
rune2str = z3.Function("rune2str", IntS, Str)

_consts = {}
def sconst(b):
    if isinstance(b, str): b = b.encode()
    if b == b"": return EMPTY
    if b not in _consts:
        _consts[b] = z3.Const("str:" + b.hex(), Str)
    return _consts[b]

def const_bytes(t):
    n = t.decl().name()
    if t.num_args() == 0 and n.startswith("str:"):
        return bytes.fromhex(n[4:])
    return None

class Fold:
    """atom: spec fold (name, sequence-ish key terms..., upto index)"""

class StrV:
    __slots__ = ("at",)
    def __init__(self, atoms):
        out = []
        for a in atoms:
            if isinstance(a, (bytes, str)):
                b = a.encode() if isinstance(a, str) else a
                if b == b"": continue
                if out and isinstance(out[-1], bytes): out[-1] = out[-1] + b
                else: out.append(b)
            else:
                cb = const_bytes(a)
                if cb is not None:
                    if cb == b"": continue
                    if out and isinstance(out[-1], bytes): out[-1] = out[-1] + cb
                    else: out.append(cb)
                else: out.append(a)
        self.at = tuple(out)
    def __add__(self, o):
        return StrV(self.at + o.at)
    def const(self):
        if not self.at: return b""
        if len(self.at) == 1 and isinstance(self.at[0], bytes): return self.at[0]
        return None
    def term(self):
        ts = [sconst(a) if isinstance(a, bytes) else a for a in self.at]
        if not ts: return EMPTY
        r = ts[-1]
        for t in reversed(ts[:-1]):
            r = scat(t, r)
        return r
    def __repr__(self):
        return "·".join(repr(a.decode("utf8", "replace")) if isinstance(a, bytes) else str(a) for a in self.at) or "''"

def S(*a): return StrV(a)

class SeqV:
    """slice value: parts ('u', value) or ('s', term); elem type name; base 'nil'/'empty' when there are no parts"""
    __slots__ = ("elem", "parts", "base", "arr")
    def __init__(self, elem, parts, base="empty"):
        self.elem, self.parts, self.base = elem, tuple(parts), base
    def __repr__(self):
        return "[" + ", ".join(str(p[1]) if p[0] == "u" else "*" + str(p[1]) for p in self.parts) + "]" + ("nil" if not self.parts and self.base == "nil" else "")

class ArrSlice:
    """view of a mutable array"""
    __slots__ = ("elem", "arr", "lo", "len")
    def __init__(self, elem, arr, lo, ln):
        self.elem, self.arr, self.lo, self.len = elem, arr, lo, ln

class PtrV:
    __slots__ = ("kind", "base", "T", "path", "idx")
    def __init__(self, kind, base, T, path=(), idx=None):
        self.kind, self.base, self.T, self.path, self.idx = kind, base, T, tuple(path), idx
    def __repr__(self):
        return "&%s(%s:%s)%s%s" % (self.kind, self.base, self.T, "" if self.idx is None else "[%s]" % self.idx, list(self.path) if self.path else "")

class AnyV:
    __slots__ = ("t", "v", "tm")
    def __init__(self, t=None, v=None, tm=None):
        self.t, self.v, self.tm = t, v, tm
    def __repr__(self):
        return "box<%s>(%s)" % (self.t, self.v) if self.t else "any(%s)" % self.tm

class StructV:
    __slots__ = ("T", "f")
    def __init__(self, T, f):
        self.T, self.f = T, tuple(f)
    def __repr__(self):
        return self.T + "{" + ", ".join(map(str, self.f)) + "}"

class TermV:
    __slots__ = ("T", "t")
    def __init__(self, T, t):
        self.T, self.t = T, t
    def __repr__(self):
        return "%s(%s)" % (self.T, self.t)

class FuncV:
    __slots__ = ("fn", "bind", "sym")
    def __init__(self, fn=None, bind=(), sym=None):
        self.fn, self.bind, self.sym = fn, bind, sym

class MapV:
    __slots__ = ("ref", "T", "const")
    def __init__(self, ref, T, const=None):
        self.ref, self.T, self.const = ref, T, const

class RVal:     # reflect.ValueOf(x)
    __slots__ = ("v",)
    def __init__(self, v): self.v = v

class IterV:
    __slots__ = ("id",)
    def __init__(self, i): self.id = i

class BytesPtr:  # unsafe.SliceData
    __slots__ = ("s",)
    def __init__(self, s): self.s = s

def iz(x):
    """int value to z3"""
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x

def bz(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x

def conc(x):
    """concrete python value of an int/bool or None"""
    if isinstance(x, (bool, int)): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return None

def norm(x):
    if isinstance(x, (bool, int)): return x
    s = z3.simplify(x)
    c = conc(s)
    return s if c is None else c

def Not_(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)

def And_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)

def Or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

class MemArr:
    __slots__ = ("base", "ups")
    def __init__(self, base, ups=()):
        self.base, self.ups = base, ups

class ArrObj:
    """a Go array / backing array: list of values, or z3 array with symbolic length"""
    __slots__ = ("elem", "lst", "arr", "len", "frozen")
    def __init__(self, elem, lst=None, arr=None, ln=None):
        self.elem, self.lst, self.arr, self.len, self.frozen = elem, lst, arr, ln, False
    def copy(self):
        a = ArrObj(self.elem, list(self.lst) if self.lst is not None else None, self.arr, self.len); a.frozen = self.frozen
        return a

class StkArr:
    """a stack of structs: slots relative to a symbolic index; slots not known are arbitrary (contents given by `slots`)"""
    __slots__ = ("elem", "base", "known", "origin", "len", "frozen", "lst", "arr", "wr", "rd")
    def __init__(self, elem, base, ln, origin, known=None):
        self.elem, self.base, self.len, self.origin = elem, base, ln, origin
        self.known = known or {}; self.frozen = False; self.lst = self.arr = None; self.wr = (); self.rd = ()
    def copy(self):
        a = StkArr(self.elem, self.base, self.len, self.origin, dict(self.known)); a.frozen = self.frozen; a.wr = self.wr; a.rd = self.rd
        return a

class Frame:
    __slots__ = ("fn", "regs", "blk", "idx", "pred", "defers", "loops", "ret", "unroll", "bind", "retreg", "fid")
    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.blk = 0; self.idx = 0; self.pred = None
        self.defers = []; self.loops = (); self.unroll = {}; self.bind = {}; self.retreg = None; self.fid = None
    def copy(self):
        f = Frame(self.fn); f.regs = dict(self.regs); f.blk, f.idx, f.pred = self.blk, self.idx, self.pred
        f.defers = list(self.defers); f.loops = self.loops; f.unroll = dict(self.unroll); f.bind = self.bind; f.retreg = self.retreg; f.fid = self.fid
        return f

class State:
    def __init__(self, w):
        self.w = w
        self.frames = []
        self.mem = {}
        self.arrays = {}
        self.iters = {}
        self.pc = []
        self.pcset = set()
        self.ghost = {}
        self.writes = []
        self.nref = BASE
        self.result = None
        self.cut = None
    def copy(self):
        s = State.__new__(State)
        s.w = self.w
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.arrays = {k: v.copy() for k, v in self.arrays.items()}
        s.iters = dict(self.iters)
        s.pc = list(self.pc); s.pcset = set(self.pcset)
        s.ghost = dict(self.ghost)
        s.writes = list(self.writes)
        s.nref = self.nref
        s.result = self.result
        s.cut = self.cut
        return s
    def assume(self, c):
        if isinstance(c, bool):
            if not c: self.pc.append(z3.BoolVal(False))
            return
        if z3.is_and(c):
            for k in c.children(): self.assume(k)
            return
        i = c.get_id()
        if i in self.pcset: return
        self.pcset.add(i); self.pc.append(c)
    def newref(self):
        self.nref += 1
        return self.nref

# ---------------------------------------------------------------- engine
class Obl:
    __slots__ = ("fn", "kind", "what", "line", "ok", "detail", "t", "props")
    def __init__(self, fn, kind, what, line, ok, detail, t, props):
        self.fn, self.kind, self.what, self.line, self.ok, self.detail, self.t, self.props = fn, kind, what, line, ok, detail, t, props

class Engine:
    def __init__(self, w, contracts=None, stdlib=None, timeout=20000):
        self.w = w
        self.contracts = contracts or {}
        self.stdlib = stdlib or {}
        self.obls = []
        self.using = None
        self.timeout = timeout
        self.unfolders = {}    # decl name -> fn(app) -> list of facts
        self.cur = None        # function under proof
        self.curprops = ()
        self.safety_props = ()
        self.quiet = 0
        self.nq = 0
        self.qtime = 0.0
        self.globals = {}
        self.interior = {}
        self.inl = []
        self.maxpaths = 6000
        self.deadline = None
        self.defs_on = None
        self.facts_cache = {}; self.ti_cache = {}; self.sf_cache = {}; self.iptr_facts = []
        self.lazy = (); self.ids_cache = {}
        self.loop_summary = {}
        self.cutfn = None; self.cutblocks = (); self.cuttable = None; self.cutstates = []; self.stack_elem = None
        self.hook_event = None
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()

    # ---- values <-> terms
    def zero(self, t):
        w = self.w; x = w.T(t); k = x["kind"]
        if t in ("sync/atomic.Int32",): return 0
        if t in ("strings.Builder", "bytes.Buffer"): return S()
        if t == "time.Time": return z3.Const("zeroTime", Tm)
        if k == "basic":
            b = x["basic"]
            if b == "string": return S()
            if b == "bool": return False
            if b in INTKINDS: return 0
            if b in ("float64", "float32"): return z3.Const("flt:0", Flt)
            return 0
        if k == "ptr": return PtrV("ref", 0, x["elem"])
        if k == "slice": return SeqV(x["elem"], (), "nil")
        if k == "iface": return AnyV(tm=w.Any.nil)
        if k == "map": return MapV(0, t)
        if k == "func": return FuncV(sym=z3.IntVal(0))
        if k == "struct":
            if t in w.DT: return StructV(t, [self.zero(f["type"]) for f in x["fields"] or []])
            return TermV(t, z3.Const("zero:" + t, Opq))
        if k == "array": return ArrObj(x["elem"], lst=[self.zero(x["elem"]) for _ in range(x["len"])], ln=x["len"])
        raise Unsupported("zero " + t)

    def from_term(self, tm, t):
        w = self.w; x = w.types.get(t); 
        if t in ("strings.Builder", "bytes.Buffer"): return StrV([tm])
        if t in ("sync/atomic.Int32",): return tm
        if t == "time.Time": return tm
        k = x["kind"]
        if k == "basic":
            b = x["basic"]
            if b == "string": return StrV([tm])
            return norm(tm) if b in INTKINDS or b == "bool" else tm
        if k == "ptr":
            key = tm.get_id()
            if key in self.interior: return self.interior[key][0]
            c = conc(tm)
            return PtrV("ref", tm if c is None else c, x["elem"])
        if k == "slice":
            if tm.decl().name().startswith("nil<"): return SeqV(x["elem"], (), "nil")
            if tm.decl().name().startswith("empty<"): return SeqV(x["elem"], (), "empty")
            return SeqV(x["elem"], self.seqparts(tm, x["elem"]))
        if k == "iface": return self.from_any(tm)
        if k == "map": return MapV(tm, t)
        if k == "func": return FuncV(sym=tm)
        if k == "struct":
            if t in w.DT:
                return TermV(t, tm)
            return tm
        return tm

    def from_any(self, tm):
        n = tm.decl().name()
        if n.startswith("box") and tm.num_args() == 1:
            t = self.w.boxes[int(n[3:])]
            return AnyV(t=t, v=self.from_term(tm.arg(0), t), tm=tm)
        return AnyV(tm=tm)

    def seqparts(self, tm, elem):
        f = self.w.seqfns(elem)
        n = tm.decl().name()
        if n == "cat<%s>" % f.k: return self.seqparts(tm.arg(0), elem) + self.seqparts(tm.arg(1), elem)
        if n == "unit<%s>" % f.k: return (("u", self.from_term(tm.arg(0), elem)),)
        if n in ("nil<%s>" % f.k, "empty<%s>" % f.k): return ()
        return (("s", tm),)

    def to_term(self, v, t, st=None):
        w = self.w
        if isinstance(v, StrV): return v.term()
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, int): return z3.IntVal(v)
        if isinstance(v, AnyV):
            if v.tm is None:
                v.tm = w.box(v.t, self.to_term(v.v, v.t, st))
            return v.tm
        if isinstance(v, StructV):
            fs = w.T(v.T)["fields"] or []
            return w.DT[v.T].mk(*[self.to_term(x, f["type"], st) for x, f in zip(v.f, fs)])if fs else w.DT[v.T].mk
        if isinstance(v, TermV): return v.t
        if isinstance(v, SeqV): return self.seq_term(v, st)
        if isinstance(v, ArrSlice): return self.seq_term(self.freeze(v, st), st)
        if isinstance(v, PtrV):
            if v.kind == "ref" and not v.path: return iz(v.base)
            key = (v.kind, str(v.base), v.T, v.path, str(v.idx))
            for tid, (p, k2, tm) in self.interior.items():
                if k2 == key: return tm
            tm = fresh("iptr", IntS)
            self.interior[tm.get_id()] = (v, key, tm)
            if st is not None: st.assume(tm > 0)
            self.iptr_facts.append(tm > 0)
            return tm
        if isinstance(v, MapV):
            return iz(v.ref)
        if isinstance(v, FuncV):
            if v.sym is not None: return v.sym
            return z3.IntVal(abs(hash(v.fn)) % 1000003 + 7)
        if z3.is_expr(v): return v
        raise Unsupported("to_term %r" % (v,))

    def seq_term(self, v, st=None):
        f = self.w.seqfns(v.elem)
        if not v.parts:
            return f.nil if v.base == "nil" else f.empty
        ts = [f.unit(self.to_term(p[1], v.elem, st)) if p[0] == "u" else p[1] for p in v.parts]
        r = ts[-1]
        for t in reversed(ts[:-1]): r = f.cat(t, r)
        return r

    def freeze(self, a, st):
        """pure value of a mutable view (the array must not be written afterwards)"""
        if isinstance(a, SeqV): return a
        arr = st.arrays[a.arr]
        arr.frozen = True
        if arr.lst is not None and conc(a.lo) is not None and conc(a.len) is not None:
            lo, ln = conc(a.lo), conc(a.len)
            return SeqV(a.elem, [("u", x) for x in arr.lst[lo:lo + ln]], "empty")
        f = self.w.seqfns(a.elem)
        if arr.arr is not None and conc(a.lo) == 0:
            g = z3.Function("seqOf<%s>" % f.k, z3.ArraySort(IntS, f.E), IntS, f.S)
            t = g(arr.arr, iz(a.len))
            st.assume(f.len(t) == iz(a.len))
            st.ghost.setdefault("seqof", {})
            st.ghost["seqof"] = dict(st.ghost["seqof"]); st.ghost["seqof"][t.get_id()] = (t, arr.arr)
            # an allocated slice is never nil
            st.assume(t != f.nil)
            return SeqV(a.elem, [("s", t)])
        raise Unsupported("freeze")

    def seq_len(self, v, st):
        if isinstance(v, ArrSlice): return v.len
        n = 0; tot = []
        f = self.w.seqfns(v.elem)
        for p in v.parts:
            if p[0] == "u": n += 1
            else: tot.append(self.seqlen_t(p[1], f, st))
        if not tot: return n
        r = tot[0]
        for x in tot[1:]: r = r + x
        return r + n if n else r

    def seqlen_t(self, t, f, st):
        l = f.len(t)
        st.assume(l >= 0)
        st.assume(z3.Implies(l == 0, z3.Or(t == f.nil, t == f.empty)))
        st.assume(f.len(f.nil) == 0); st.assume(f.len(f.empty) == 0); st.assume(f.nil != f.empty)
        return l

    def seq_nth(self, v, i, st):
        """element i (already known in range)"""
        f = self.w.seqfns(v.elem)
        ci = conc(norm(i)) if not isinstance(i, int) else i
        if ci is not None:
            k = 0
            for p in v.parts:
                if p[0] != "u":
                    break
                if k == ci: return p[1]
                k += 1
        # walk the parts
        if len(v.parts) == 1 and v.parts[0][0] == "s":
            return self.seq_nth_t(v.parts[0][1], i, v.elem, st)
        off = 0
        res = None
        cases = []
        for p in v.parts:
            if p[0] == "u":
                c = self.decide(st, iz(i) == iz(off))
                if c is True: return p[1]
                if c is None: cases.append((iz(i) == iz(off), self.to_term(p[1], v.elem, st)))
                off = off + 1
            else:
                l = self.seqlen_t(p[1], f, st)
                c = self.decide(st, z3.And(iz(i) >= iz(off), iz(i) < iz(off) + l))
                val = f.nth(p[1], z3.simplify(iz(i) - iz(off)))
                if c is True: return self.seq_nth_t(p[1], z3.simplify(iz(i) - iz(off)), v.elem, st)
                if c is None: cases.append((z3.And(iz(i) >= iz(off), iz(i) < iz(off) + l), val))
                off = iz(off) + l
        if not cases:
            return self.from_term(fresh("oob", f.E), v.elem)
        r = cases[-1][1]
        for c, t in reversed(cases[:-1]): r = z3.If(c, t, r)
        return self.from_term(r, v.elem)

    def seq_nth_t(self, t, i, elem, st):
        f = self.w.seqfns(elem)
        tm = f.nth(t, iz(i))
        so = st.ghost.get("seqof", {}).get(t.get_id())
        if so is not None:
            st.assume(tm == z3.Select(so[1], iz(i)))
        self.wf_elem(tm, elem, st)
        return self.from_term(tm, elem)

    def wf_elem(self, tm, elem, st):
        pass

    def seq_append(self, a, b, st):
        a = self.freeze(a, st) if isinstance(a, ArrSlice) else a
        b = self.freeze(b, st) if isinstance(b, ArrSlice) else b
        if not b.parts: return a
        if not a.parts:
            if all(p[0] == "s" for p in b.parts) and len(b.parts) == 1:
                # append(empty, s...) : nil only if a is nil and s empty
                f = self.w.seqfns(b.elem); t = b.parts[0][1]
                c = self.decide(st, self.seqlen_t(t, f, st) == 0)
                if c is True: return a
                if c is False or a.base == "nil" and False: return SeqV(a.elem, b.parts)
                g = z3.Function("appendTo<%s>" % f.k, f.S, f.S, f.S)
                base = f.nil if a.base == "nil" else f.empty
                r = z3.If(f.len(t) == 0, base, t)
                return SeqV(a.elem, [("s", r)])
            return SeqV(a.elem, b.parts)
        return SeqV(a.elem, a.parts + b.parts)

    def seq_isnil(self, v, st):
        if isinstance(v, ArrSlice): return False
        if not v.parts: return v.base == "nil"
        if any(p[0] == "u" for p in v.parts): return False
        f = self.w.seqfns(v.elem)
        for p in v.parts: self.seqlen_t(p[1], f, st)
        st.assume(f.len(f.nil) == 0); st.assume(f.nil != f.empty); st.assume(f.len(f.empty) == 0)
        return And_(v.parts[0][1] == f.nil, *[f.len(p[1]) == 0 for p in v.parts[1:]])

    # ---- struct field access
    def getf(self, v, i):
        if isinstance(v, StructV): return v.f[i]
        if isinstance(v, TermV):
            fs = self.w.T(v.T)["fields"]
            acc = self.w.DT[v.T].accessor(0, i)
            t = v.t
            if z3.is_app(t) and t.decl().name() == "mk" and t.num_args() == len(fs): tm = t.arg(i)
            else: tm = acc(t)
            return self.from_term(tm, fs[i]["type"])
        raise Unsupported("getf %r" % (v,))

    def setf(self, v, path, nv):
        if not path: return nv
        if isinstance(v, TermV):
            fs = self.w.T(v.T)["fields"]
            v = StructV(v.T, [self.getf(v, i) for i in range(len(fs))])
        if not isinstance(v, StructV): raise Unsupported("setf %r" % (v,))
        f = list(v.f)
        f[path[0]] = self.setf(f[path[0]], path[1:], nv)
        return StructV(v.T, f)

    def field_type(self, T, path):
        for i in path:
            T = self.w.T(T)["fields"][i]["type"]
        return T

    # ---- memory
    def memarr(self, st, T):
        if T not in st.mem:
            st.mem[T] = MemArr(z3.Const("mem0:" + T, z3.ArraySort(IntS, self.w.sort(T))))
        return st.mem[T]

    def ref_eq(self, st, a, b):
        """True/False/None for reference equality"""
        ca, cb = conc(a), conc(b)
        if ca is not None and cb is not None: return ca == cb
        if ca is None and cb is None and a.eq(b): return True
        if ca is not None and ca > BASE and cb is None and self.isold(st, b, ca): return False
        if cb is not None and cb > BASE and ca is None and self.isold(st, a, cb): return False
        return None

    def isold(self, st, tm, num):
        b = st.ghost.get("bound", {}).get(tm.get_id())
        if b is not None and b < num: return True
        return False

    def bound(self, st, tm):
        """tm was obtained now: it denotes an object allocated so far"""
        if conc(tm) is not None: return
        d = dict(st.ghost.get("bound", {}))
        if tm.get_id() in d: return
        d[tm.get_id()] = st.nref
        st.ghost["bound"] = d
        st.ghost.setdefault("boundkeep", ())
        st.ghost["boundkeep"] = st.ghost["boundkeep"] + (tm,)
        st.assume(z3.And(tm >= 0, tm <= st.nref))

    def read_ref(self, st, ref, T):
        m = self.memarr(st, T)
        ups = m.ups
        pend = []
        for (r, v) in reversed(ups):
            e = self.ref_eq(st, r, ref)
            if e is True:
                if not pend: return v
                break
            if e is None:
                q = self.decide(st, iz(r) == iz(ref))
                if q is True:
                    if not pend: return v
                    break
                if q is None: pend.append((r, v))
        else:
            v = None
        if v is None:
            base = z3.Select(m.base, iz(ref))
            val = self.from_term(base, T)
            if not pend: return val
            tm = base
        else:
            tm = self.to_term(v, T, st)
        for (r, u) in reversed(pend):
            tm = z3.If(iz(r) == iz(ref), self.to_term(u, T, st), tm)
        return self.from_term(tm, T)

    def write_ref(self, st, ref, T, v):
        m = self.memarr(st, T)
        ups = m.ups
        # drop an earlier update of the same reference when nothing in between may alias
        out = []
        for (r, u) in ups:
            if self.ref_eq(st, r, ref) is True: continue
            out.append((r, u))
        st.mem[T] = MemArr(m.base, tuple(out) + ((ref, v),))
        if len(out) != len(ups):
            # order matters only against possibly aliasing refs; keep order by appending last
            pass

    def mem_term(self, st, T):
        m = self.memarr(st, T)
        t = m.base
        for r, v in m.ups: t = z3.Store(t, iz(r), self.to_term(v, T, st))
        return t

    def load(self, st, p, T=None):
        if p.kind == "ref":
            v = self.read_ref(st, p.base, p.T)
            for i in p.path: v = self.getf(v, i)
            return self.post_load(st, v)
        if p.kind == "glob":
            if p.base not in self.globals:
                raise Unsupported("global " + p.base)
            v = self.globals[p.base]
            for i in p.path: v = self.getf(v, i)
            return v
        if p.kind == "elem":
            v = self.arr_get(st, p.base, p.idx)
            for i in p.path: v = self.getf(v, i)
            return self.post_load(st, v)
        if p.kind == "seqelem":
            v = self.seq_nth(p.base, p.idx, st)
            for i in p.path: v = self.getf(v, i)
            return self.post_load(st, v)
        if p.kind == "globelem":
            return self.table_load(st, p.base, p.idx)
        raise Unsupported("load " + p.kind)

    def post_load(self, st, v):
        if isinstance(v, PtrV) and v.kind == "ref" and not v.path and conc(v.base) is None:
            self.bound(st, v.base)
        if isinstance(v, MapV) and conc(v.ref) is None:
            self.bound(st, v.ref)
        return v

    def table_load(self, st, name, idx):
        tab = self.globals[name]
        c = conc(norm(idx))
        if c is not None and isinstance(tab, ArrObj):
            return tab.lst[c]
        g = z3.Function("tbl:" + name, IntS, IntS)
        return g(iz(idx))

    def store(self, st, p, v):
        st.writes.append(p)
        if p.kind == "ref":
            if p.path:
                old = self.read_ref(st, p.base, p.T)
                v = self.setf(old, p.path, v)
            self.write_ref(st, p.base, p.T, v)
            return
        if p.kind == "glob":
            if self.cur == "init":
                self.globals[p.base] = self.setf(self.globals.get(p.base), p.path, v) if p.path else v
                return
            self.obl(st, "frame", "write to package variable " + p.base, False, props=("C17",))
            return
        if p.kind == "globelem":
            if self.cur == "init":
                a = self.globals[p.base]; a.lst[conc(p.idx)] = v
                return
            self.obl(st, "frame", "write to package table " + p.base, False, props=("C17",))
            return
        if p.kind == "elem":
            if p.path:
                old = self.arr_get(st, p.base, p.idx)
                v = self.setf(old, p.path, v)
            self.arr_set(st, p.base, p.idx, v)
            return
        raise Unsupported("store " + p.kind)

    def stk_key(self, a, idx):
        k = conc(norm(iz(idx) - a.base))
        if k is None: raise Unsupported("stack slot not at a known distance from the top")
        return k

    def arr_get(self, st, aid, idx):
        a = st.arrays[aid]
        if isinstance(a, StkArr):
            k = self.stk_key(a, idx)
            if k not in a.known:
                a.known[k] = self.from_term(fresh("slot%d" % k, self.w.sort(a.elem)), a.elem)
            a.rd = a.rd + (k,)
            return a.known[k]
        c = conc(norm(idx))
        if a.lst is not None:
            if c is not None: return a.lst[c]
            raise Unsupported("symbolic index into small array")
        return self.from_term(z3.Select(a.arr, iz(idx)), a.elem)

    def arr_set(self, st, aid, idx, v):
        a = st.arrays[aid]
        if isinstance(a, StkArr):
            k = self.stk_key(a, idx)
            a.known[k] = v; a.wr = a.wr + (k,)
            return
        if a.frozen: raise Unsupported("write to an array already used as a value")
        c = conc(norm(idx))
        if a.lst is not None:
            if c is None: raise Unsupported("symbolic index into small array")
            a.lst[c] = v
        else:
            a.arr = z3.Store(a.arr, iz(idx), self.to_term(v, a.elem, st))

    # ---- solver
    def terminfo(self, t):
        """interesting subterms of a formula: (unfoldable applications, structural terms, string constants), cached"""
        i = t.get_id()
        r = self.ti_cache.get(i)
        if r is not None: return r[0]
        unf, struct, consts = [], [], []
        seen = set(); stack = [t]
        U = self.unfolders
        while stack:
            x = stack.pop()
            xi = x.get_id()
            if xi in seen: continue
            seen.add(xi)
            if not z3.is_app(x): continue
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                ch = x.children()
                if ch:
                    if n in U: unf.append((xi, x, n))
                    if n == "scat" or n.startswith("cat<") or n.startswith("unit<"): struct.append((xi, x, n))
                elif n.startswith("str:"): consts.append((xi, x))
                stack.extend(ch)
            else: stack.extend(x.children())
        r = (unf, struct, consts)
        if self.lazy: self.ids_cache[i] = (seen, t)
        self.ti_cache[i] = (r, t)
        return r

    def struct_facts(self, xi, t, n):
        r = self.sf_cache.get(xi)
        if r is not None: return r[0]
        out = []
        if n == "scat":
            a, y = t.arg(0), t.arg(1)
            out += [z3.Implies(a == EMPTY, t == y), z3.Implies(y == EMPTY, t == a), z3.Implies(t == EMPTY, z3.And(a == EMPTY, y == EMPTY))]
        elif n.startswith("cat<"):
            f = self.w._seq[n[4:-1]]
            a, y = t.arg(0), t.arg(1)
            out += [f.len(t) == f.len(a) + f.len(y), z3.Implies(f.len(y) == 0, t == a), z3.Implies(z3.And(f.len(a) == 0, f.len(y) > 0), t == y)]
            for q in (a, y):
                out.append(f.len(q) == 1 if q.decl().name().startswith("unit<") else f.len(q) >= 0)
        else:
            f = self.w._seq[n[5:-1]]
            out += [f.len(t) == 1, t != f.nil, t != f.empty]
        self.sf_cache[xi] = (out, t)
        return out

    def gather(self, fs, fuel=2):
        """definitional unfoldings and structural facts about the terms occurring in formulas fs"""
        out = []
        done = set(); sdone = set()
        cs = {}
        frontier = fs
        orig = None
        for rnd in range(fuel + 1):
            new = []
            for f in frontier:
                unf, struct, consts = self.terminfo(f)
                for xi, x in consts: cs[xi] = x
                for xi, x, n in struct:
                    if xi not in sdone:
                        sdone.add(xi); out.extend(self.struct_facts(xi, x, n))
                        if n == "scat": cs[EMPTY.get_id()] = EMPTY
                if rnd < fuel:
                    for xi, x, n in unf:
                        if xi in done: continue
                        if n in self.lazy:
                            # such definitions are unfolded only for terms of the formulas themselves
                            if orig is None:
                                for g in fs: self.terminfo(g)
                                orig = [self.ids_cache[g.get_id()][0] for g in fs]
                            ai = x.arg(0).get_id()
                            if not any(ai in o for o in orig): continue
                        done.add(xi)
                        u = self.facts_cache.get(xi)
                        if u is None:
                            u = (list(self.unfolders[n](x)), x)
                            self.facts_cache[xi] = u
                        new.extend(u[0])
            if not new: break
            out.extend(new)
            frontier = new
        if len(cs) > 1: out.append(z3.Distinct(*cs.values()))
        for t in cs.values():
            b = const_bytes(t)
            out.append(strlen(t) == len(b))
            if len(b) == 1 and b[0] < 128: out.append(rune2str(z3.IntVal(b[0])) == t)
        return out

    def check(self, st, extra, timeout=None, fuel=2, model=False):
        """satisfiability of st.pc and extra"""
        self.nq += 1
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget for this function exhausted")
        t0 = time.time()
        s = z3.SimpleSolver()
        s.set("timeout", timeout or self.timeout)
        fs = st.pc + list(extra)
        allf = fs + self.gather(fs, fuel) + self.iptr_facts
        s.add(*allf)
        r = s.check()
        self.qtime += time.time() - t0
        if model: return r, (s.model() if r == z3.sat else None)
        return r

    def decide(self, st, c):
        """True / False / None"""
        c = norm(c)
        if isinstance(c, bool): return c
        if c.get_id() in st.pcset: return True
        n = z3.Not(c)
        if z3.simplify(n).get_id() in st.pcset: return False
        if z3.is_not(c) and c.arg(0).get_id() in st.pcset: return False
        if self.check(st, [n], timeout=3000, fuel=2) == z3.unsat: return True
        if self.check(st, [c], timeout=3000, fuel=2) == z3.unsat: return False
        return None

    def feasible(self, st):
        return self.check(st, [], timeout=3000, fuel=2) != z3.unsat

    def obl(self, st, kind, what, goal, props=None, line=None, fuel=3, fn=None):
        """an obligation: goal holds on this path"""
        if self.quiet: 
            return None
        t0 = time.time()
        detail = ""
        goal = norm(goal) if not isinstance(goal, bool) else goal
        if goal is True:
            ok = True
        else:
            g = z3.BoolVal(True) if goal is False else z3.Not(goal)
            r, m = self.check(st, [g], fuel=fuel, model=True)
            if r == z3.unknown or r == z3.sat and fuel < 4:
                r2, m2 = self.check(st, [g], fuel=fuel + 2, model=True)
                if r2 != z3.unknown: r, m = r2, m2
            ok = r == z3.unsat
            if not ok:
                detail = "z3: %s" % r
                if m is not None:
                    try: detail += "; counterexample: " + str(m)[:3000]
                    except Exception: pass
        if not ok and kind == "precondition" and self.using: detail = "callee=%s; " % self.using + detail
        if line is None and st.frames:
            line = self.line_of(st)
        o = Obl(fn or self.cur, kind, what, line, ok, detail, time.time() - t0, props or self.curprops)
        self.obls.append(o)
        return ok

    def line_of(self, st):
        for f in reversed(st.frames):
            b = f.fn["blocks"][f.blk]["instrs"]
            for k in range(min(f.idx, len(b) - 1), -1, -1):
                if "line" in b[k]:
                    return "%s:%d" % (b[k].get("file", "?").split("/")[-1], b[k]["line"])
        return None

    def safety(self, st, what, goal):
        """goal must hold; afterwards it is assumed"""
        goal = norm(goal) if not isinstance(goal, bool) else goal
        if goal is True: 
            if not self.quiet:
                o = Obl(self.cur, "safety", what, self.line_of(st), True, "", 0.0, self.safety_props); self.obls.append(o)
            return True
        if not self.quiet:
            self.obl(st, "safety", what, goal, props=self.safety_props)
        if goal is False: return False
        st.assume(goal)
        return True

    # ---- loops of a function
    def natural_loops(self, fn):
        if "_loops" in fn: return fn["_loops"]
        bl = fn["blocks"]
        idom = {b["i"]: b["idom"] for b in bl}
        def dom(a, b):  # a dominates b
            while b != -1:
                if a == b: return True
                b = idom[b]
            return False
        loops = {}
        for b in bl:
            for s in b["succs"]:
                if dom(s, b["i"]):
                    body = loops.setdefault(s, {s})
                    stack = [b["i"]]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x)
                        stack.extend(bl[x]["preds"])
        fn["_loops"] = loops
        return loops

    # ---- running
    def val(self, st, fr, o):
        k = o["k"]
        if k == "reg": return fr.regs[o["n"]]
        if k == "const": return self.const(o)
        if k == "free": return fr.bind[o["n"]]
        if k == "global":
            T = self.w.T(o["t"])["elem"]
            return PtrV("glob", o["n"], T)
        if k == "func": return FuncV(fn=o["n"])
        if k == "builtin": return ("builtin", o["n"])
        raise Unsupported("operand " + k)

    def const(self, o):
        t = o["t"]
        if o.get("nil"): return self.zero(t)
        if "v" in o: return o["v"]
        if "s" in o: return S(bytes.fromhex(o["s"]))
        if "i" in o:
            if self.w.T(t)["kind"] == "basic" and self.w.T(t).get("basic") in ("float64", "float32"):
                return z3.Const("flt:" + o["i"], Flt)
            return int(o["i"])
        if "f" in o: return z3.Const("flt:" + o["f"], Flt)
        raise Unsupported("const")

    def run(self, st, stop=None):
        """runs all paths from st; returns final states (frame stack empty). stop(st) may cut a path."""
        work = [st]
        finals = []
        n = 0
        while work:
            s = work.pop()
            while True:
                if not s.frames:
                    finals.append(s); break
                n += 1
                r = self.step(s, stop)
                if r is None: continue          # stays on the same path
                for x in reversed(r): work.append(x)
                break
            if len(finals) > self.maxpaths: raise Unsupported("too many paths")
        return finals

    def jump(self, st, fr, target, stop):
        """control transfer inside a frame; returns None (continue) or list of states"""
        pred = fr.blk
        if self.cutfn is not None and len(st.frames) == 1 and fr.fn["name"] == self.cutfn and target in self.cutblocks:
            loops = self.natural_loops(fr.fn)
            while fr.loops and target not in loops[fr.loops[-1][0]]:
                L = fr.loops[-1]; fr.loops = fr.loops[:-1]
                if L[1].get("phase") == "A": return []
            self.goto(st, fr, target, pred)
            st.cut = ("block", target)
            self.cutstates.append(st)
            return []
        loops = self.natural_loops(fr.fn)
        # leaving active loops
        while fr.loops and target not in loops[fr.loops[-1][0]]:
            L = fr.loops[-1]
            fr.loops = fr.loops[:-1]
            if L[1].get("phase") == "A":
                return []               # exits are not followed while inferring
        if fr.loops and target == fr.loops[-1][0]:
            L = fr.loops[-1][1]
            return self.backedge(st, fr, target, pred, L)
        if target in loops and pred not in loops[target]:
            fr.unroll.pop(target, None)
        if target in loops:
            u = fr.unroll.get(target, 0)
            if self.concrete_header(st, fr, target, pred) and u < (4096 if self.cutfn else 64):
                fr.unroll[target] = u + 1
            else:
                if u: raise Unsupported("loop becomes symbolic while unrolling")
                return self.enter_loop(st, fr, target, pred, loops[target])
        self.goto(st, fr, target, pred)
        return None

    def goto(self, st, fr, target, pred):
        blk = fr.fn["blocks"][target]
        pi = blk["preds"].index(pred) if pred is not None and pred in blk["preds"] else None
        vals = []
        k = 0
        for i in blk["instrs"]:
            if i["op"] != "phi": break
            vals.append((i["r"], self.val(st, fr, i["e"][pi])))
            k += 1
        for r, v in vals: fr.regs[r] = v
        fr.blk, fr.idx, fr.pred = target, k, pred

    def concrete_header(self, st, fr, target, pred):
        """does the header's own exit test evaluate to a constant?"""
        blk = fr.fn["blocks"][target]
        if blk["instrs"][-1]["op"] != "if": return False
        s2 = st.copy(); f2 = s2.frames[-1]
        self.goto(s2, f2, target, pred)
        try:
            self.quiet += 1
            while True:
                i = blk["instrs"][f2.idx]
                if i["op"] == "if":
                    c = norm(self.val(s2, f2, i["x"]))
                    return isinstance(c, bool)
                if i["op"] not in ("bin", "un", "call", "field", "fieldaddr", "indexaddr", "extract", "next", "convert", "changetype"): return False
                if i["op"] == "call":
                    fn = i["call"].get("fn") or {}
                    if fn.get("k") != "builtin": return False
                if i["op"] == "next" : return False
                r = self.step(s2, None)
                if r is not None: return False
        except (Unsupported, KeyError):
            return False
        finally:
            self.quiet -= 1

    # -- loop cutting
    def loop_vars(self, st, fr, target):
        blk = fr.fn["blocks"][target]
        return [(i["r"], i["t"]) for i in blk["instrs"] if i["op"] == "phi"]

    def havoc_val(self, st, t, name, like=None):
        w = self.w
        if isinstance(like, IterV) or t == "$ssa.rangeIter": return like
        x = w.T(t)
        if x["kind"] == "func" and like is not None: return like
        tm = fresh(name, w.sort(t))
        self.constrain(st, tm, t)
        v = self.from_term(tm, t)
        return self.post_load(st, v)

    def constrain(self, st, tm, t):
        k = self.w.T(t)
        if k["kind"] == "basic":
            b = k["basic"]
            rng = {"uint8": (0, 255), "byte": (0, 255), "int8": (-128, 127), "int16": (-32768, 32767), "int32": (-2**31, 2**31 - 1), "rune": (-2**31, 2**31 - 1),
                   "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "int": (-2**63, 2**63 - 1), "int64": (-2**63, 2**63 - 1)}.get(b)
            if rng and b != "int" and b != "int64":
                st.assume(z3.And(tm >= rng[0], tm <= rng[1]))

    def enter_loop(self, st, fr, target, pred, body):
        key = None
        fname = fr.fn["name"]
        vars_ = self.loop_vars(st, fr, target)
        blk = fr.fn["blocks"][target]
        pi = blk["preds"].index(pred)
        entry_phi = {}
        for i in blk["instrs"]:
            if i["op"] != "phi": break
            entry_phi[i["r"]] = self.val(st, fr, i["e"][pi])
        marker = ctr_now()
        entry = st
        locs = []           # havocked locations: list of PtrV
        types = []          # havocked whole memories
        iters = [v.id for v in fr.regs.values() if isinstance(v, IterV)]
        iters = [i for i in iters if i in st.iters]
        arrs = []
        lc = LoopCtx(self, fr.fn, target, entry, entry_phi, vars_)
        lc.iters = iters
        lc.phistart = len(entry.frames)
        spec = self.loop_spec(lc)
        dropped = set()
        shape_idx = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40: raise Unsupported("loop inference does not converge in " + fname)
            hs, Vn = self.header_state(entry, lc, target, pred, locs, types, arrs, iters, spec, shape_idx)
            if hs is None:
                # some shape does not hold on entry: already advanced
                continue
            cands = [c for c in spec.cands(lc, Vn) if c[0] not in dropped]
            # entry check
            ok = True
            Ve = lc.valuation_entry(locs)
            for nm, c in cands:
                self.quiet += 1
                try:
                    g = c(Ve)
                    r = g if isinstance(g, bool) else self.check(entry, [z3.Not(g)], timeout=4000) == z3.unsat
                finally: self.quiet -= 1
                if r is not True:
                    if DEBUG: print("   drop(entry)", nm, r)
                    dropped.add(nm); ok = False
            if not ok: continue
            base = hs.copy()
            for nm, c in cands: base.assume(bz(c(Vn)))
            # phase A
            L = {"phase": "A", "back": [], "lc": lc, "Vn": Vn}
            base.frames[-1].loops = base.frames[-1].loops + ((target, L),)
            base.writes = []
            L["depth"] = len(base.frames)
            self.quiet += 1
            try:
                self.run(base, None)
            finally: self.quiet -= 1
            newl = self.new_writes(L["back"] + L.get("exits", []), entry, marker, locs, types, arrs, L)
            if newl: continue
            changed = False
            for b in L["back"]:
                Vb = lc.valuation_back(b, locs)
                # shapes
                for si, (vid, shp) in enumerate(Vn.shapes.items()):
                    if not self.shape_holds(b, lc, vid, shp, Vb):
                        shape_idx[vid] = shape_idx.get(vid, 0) + 1
                        changed = True
                if changed: break
                for nm, c in cands:
                    if nm in dropped: continue
                    self.quiet += 1
                    try:
                        g = c(Vb)
                        r = g if isinstance(g, bool) else self.check(b, [z3.Not(g)], timeout=6000, fuel=3) == z3.unsat
                    finally: self.quiet -= 1
                    if r is not True:
                        if DEBUG: print("   drop(step)", nm, r)
                        dropped.add(nm); changed = True
            if changed: continue
            break
        # phase B
        keep = [nm for nm, c in cands]
        if not self.quiet:
            for nm in keep:
                self.obls.append(Obl(self.cur, "invariant", "loop in %s: %s (holds on entry and is preserved)" % (fname, nm), self.line_of(st), True, "", 0, self.curprops))
            for vid, shp in Vn.shapes.items():
                self.obls.append(Obl(self.cur, "invariant", "loop in %s: %s = %s" % (fname, vid, shp), self.line_of(st), True, "", 0, self.curprops))
        base = hs.copy()
        for nm, c in cands: base.assume(bz(c(Vn)))
        L = {"phase": "B", "back": [], "lc": lc, "Vn": Vn, "cands": cands, "locs": list(locs), "variants": spec.variants(lc, Vn) if hasattr(spec, "variants") else None}
        base.frames[-1].loops = base.frames[-1].loops + ((target, L),)
        base.writes = list(entry.writes) + [p for p in locs]
        return [base]

    def header_state(self, entry, lc, target, pred, locs, types, arrs, iters, spec, shape_idx):
        hs = entry.copy()
        fr = hs.frames[-1]
        Vn = Valuation(hs)
        Vn.shapes = {}
        for (r, t) in lc.vars:
            like = lc.entry_phi[r]
            v = self.havoc_val(hs, t, r, like)
            Vn.phi[r] = v
        for T in types:
            if T.startswith("map:"): hs.mem[T] = MemArr(fresh("mem:" + T, z3.ArraySort(IntS, z3.ArraySort(Str, self.optsort(T[4:])))))
            else: hs.mem[T] = MemArr(fresh("mem:" + T, z3.ArraySort(IntS, self.w.sort(T))))
        for p in locs:
            T = self.field_type(p.T, p.path)
            v = self.havoc_val(hs, T, "loc")
            self.store(hs, p, v)
            Vn.loc.append((p, v))
        for a in arrs:
            o = hs.arrays[a]
            if o.lst is not None:
                o.lst = [self.havoc_val(hs, o.elem, "ael") for _ in o.lst]
            else: o.arr = fresh("arr", o.arr.sort())
        for it in iters:
            d = dict(hs.iters[it])
            d["pos"] = fresh("iter", IntS)
            hs.assume(d["pos"] >= 0)
            if d["kind"] == "map": hs.assume(d["pos"] <= d["len"])
            else: hs.assume(d["pos"] <= strlen(d["str"]))
            hs.iters[it] = d
            Vn.it[it] = d["pos"]
        for k, g in list(hs.ghost.items()):
            if k == "trace":
                Vn.trace = None
            if k == "gtrace": hs.ghost[k] = fresh("gtrace", g.sort())
        if "trace" in hs.ghost and spec.shapes_trace:
            tv = spec.shapes_trace(lc, Vn, hs)
            if tv:
                vid = "trace"
                i = shape_idx.get(vid, 0)
                if i >= len(tv): raise Unsupported("no inductive trace invariant")
                hs.ghost["trace"] = tv[i](Vn)
                Vn.shapes[vid] = tv[i]
        # shapes for strings and sequences
        for vid, T, entryval in [("phi:" + r, t, lc.entry_phi[r]) for r, t in lc.vars] + [("loc:%r" % (p,), self.field_type(p.T, p.path), self.load(entry, p)) for p in locs]:
            sh = spec.shapes(lc, Vn, vid, T, entryval, hs)
            if not sh: continue
            i = shape_idx.get(vid, 0)
            if i >= len(sh): continue
            Vn.shapes[vid] = sh[i]
            v = sh[i](Vn)
            if vid.startswith("phi:"):
                Vn.phi[vid[4:]] = v
            else:
                for p in locs:
                    if vid == "loc:%r" % (p,): self.store(hs, p, v)
        # shape must hold on entry
        if Vn.shapes:
            Ve = lc.valuation_entry(locs)
            for vid, shp in Vn.shapes.items():
                if not self.shape_holds(entry, lc, vid, shp, Ve):
                    shape_idx[vid] = shape_idx.get(vid, 0) + 1
                    return None, None
        self.goto(hs, fr, target, pred)
        for r, t in lc.vars: fr.regs[r] = Vn.phi[r]
        return hs, Vn

    def shape_holds(self, st, lc, vid, shp, V):
        want = shp(V)
        if vid == "trace": have = st.ghost["trace"]
        elif vid.startswith("phi:"): have = V.phi[vid[4:]]
        else:
            have = None
            for p, v in V.loc:
                if vid == "loc:%r" % (p,): have = v
        self.quiet += 1
        try:
            return self.value_eq(st, have, want)
        finally: self.quiet -= 1

    def value_eq(self, st, a, b):
        """provable equality of two string / sequence values, expanding spec folds"""
        for k in range(2):
            bb = self.expand(st, b, k)
            g = self.eq(st, a, bb)
            if g is True: return True
            if g is not False and self.check(st, [z3.Not(g)], timeout=6000, fuel=3) == z3.unsat: return True
        return False

    folds = {}
    def expand(self, st, v, k):
        """expand fold atoms of a value once (k=1)"""
        if k == 0: return v
        if isinstance(v, StrV):
            out = []
            for a in v.at:
                if not isinstance(a, bytes) and z3.is_app(a) and a.decl().name() in self.folds:
                    r = self.folds[a.decl().name()](self, st, a)
                    if r is None: out.append(a)
                    else: out.extend(r.at)
                else: out.append(a)
            return StrV(out)
        if isinstance(v, SeqV):
            out = []
            for p in v.parts:
                if p[0] == "s" and p[1].decl().name() in self.folds:
                    r = self.folds[p[1].decl().name()](self, st, p[1])
                    if r is None: out.append(p)
                    else: out.extend(r.parts)
                else: out.append(p)
            return SeqV(v.elem, out, v.base)
        return v

    def new_writes(self, states, entry, marker, locs, types, arrs, L):
        changed = False
        ws = []
        for s in states: ws.extend(s.writes)
        for w_ in L.get("writes", []): ws.append(w_)
        for p in ws:
            if p.kind == "ref":
                c = conc(p.base)
                if c is not None:
                    if c > entry.nref: continue      # allocated inside the loop
                    if any(q.kind == "ref" and q.T == p.T and conc(q.base) == c and p.path[:len(q.path)] == q.path for q in locs): continue
                    if p.T in types: continue
                    # replace longer paths
                    locs[:] = [q for q in locs if not (q.kind == "ref" and q.T == p.T and conc(q.base) == c and q.path[:len(p.path)] == p.path)]
                    locs.append(PtrV("ref", p.base, p.T, p.path)); changed = True
                else:
                    if self.term_newer(p.base, marker):
                        if p.T not in types: types.append(p.T); changed = True
                        continue
                    if p.T in types: continue
                    if any(q.kind == "ref" and q.T == p.T and conc(q.base) is None and q.base.eq(p.base) and p.path[:len(q.path)] == q.path for q in locs): continue
                    locs[:] = [q for q in locs if not (q.kind == "ref" and q.T == p.T and conc(q.base) is None and q.base.eq(p.base) and q.path[:len(p.path)] == p.path)]
                    locs.append(PtrV("ref", p.base, p.T, p.path)); changed = True
            elif p.kind == "elem":
                if p.base in entry.arrays and p.base not in arrs:
                    arrs.append(p.base); changed = True
            elif p.kind == "maploc":
                c = conc(p.base)
                if c is not None and c > entry.nref or c is None and self.term_newer(p.base, marker): continue
                k = "map:" + p.T
                if k not in types: types.append(k); changed = True
        return changed

    def term_newer(self, t, marker):
        stack = [t]; seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                if "!" in n:
                    try:
                        if int(n.rsplit("!", 1)[1]) > marker: return True
                    except ValueError: pass
            stack.extend(x.children())
        return False

    def backedge(self, st, fr, target, pred, L):
        if L["phase"] == "A":
            s = st.copy()
            s.ghost["pred"] = pred
            # the incoming phi values
            blk = fr.fn["blocks"][target]
            pi = blk["preds"].index(pred)
            s.ghost["back_phi"] = {i["r"]: self.val(st, fr, i["e"][pi]) for i in blk["instrs"] if i["op"] == "phi"}
            L["back"].append(s)
            return []
        # phase B: the invariants were shown to be preserved; check the variant
        if L.get("variants") and not self.quiet:
            blk = fr.fn["blocks"][target]
            pi = blk["preds"].index(pred)
            st.ghost["back_phi"] = {i["r"]: self.val(st, fr, i["e"][pi]) for i in blk["instrs"] if i["op"] == "phi"}
            lc = L["lc"]
            Vb = lc.valuation_back(st, L["locs"])
            ok = False
            for nm, f in L["variants"]:
                try: g = And_(f(Vb) < f(L["Vn"]), iz(f(L["Vn"])) >= 0)
                except Exception: continue
                if isinstance(g, bool): r = g
                else: r = self.check(st, [z3.Not(g)], timeout=6000, fuel=3) == z3.unsat
                if r: ok = True; break
            self.obls.append(Obl(self.cur, "variant", "loop in %s terminates (a variant decreases)" % fr.fn["name"], self.line_of(st), ok, "" if ok else "no candidate variant decreases", 0, self.safety_props))
        return []

    def loop_spec(self, lc):
        c = self.contracts.get(self.cur)
        if c is not None and getattr(c, "loops", None) is not None: return c.loops
        c = self.contracts.get(lc.fn["name"])
        if c is not None and getattr(c, "loops", None) is not None: return c.loops
        return NoLoopSpec()

    # ---- one instruction
    def step(self, st, stop):
        fr = st.frames[-1]
        ins = fr.fn["blocks"][fr.blk]["instrs"]
        i = ins[fr.idx]
        op = i["op"]
        m = getattr(self, "i_" + op, None)
        if m is None: raise Unsupported("instruction " + op + " " + i.get("str", ""))
        if op in ("jump", "if", "return", "call", "rundefers", "panic", "next"):
            return m(st, fr, i, stop)
        r = m(st, fr, i)
        if r is False: return []      # path ends (safety violated for sure)
        if isinstance(r, list): return r
        fr.idx += 1
        return None

    def fork_values(self, st, i, k, values, other=None):
        """the instruction's result when k is one of the given constants; other: the result for every other key"""
        outs = []
        for c, v in values:
            s = st.copy(); s.assume(iz(k) == c if isinstance(c, int) else k.term() == sconst(c))
            if not self.feasible(s): continue
            f = s.frames[-1]; f.regs[i["r"]] = v; f.idx += 1
            outs.append(s)
        if other is not None:
            s = st.copy()
            for c, v in values: s.assume(z3.Not(iz(k) == c if isinstance(c, int) else k.term() == sconst(c)))
            if self.feasible(s):
                f = s.frames[-1]; f.regs[i["r"]] = other[0]; f.idx += 1
                outs.append(s)
        return outs

    def i_jump(self, st, fr, i, stop):
        return self.jump(st, fr, fr.fn["blocks"][fr.blk]["succs"][0], stop)

    def i_if(self, st, fr, i, stop):
        c = self.val(st, fr, i["x"])
        su = fr.fn["blocks"][fr.blk]["succs"]
        c = norm(c)
        if isinstance(c, bool):
            return self.jump(st, fr, su[0] if c else su[1], stop)
        out = []
        n = z3.Not(c)
        for cond, neg, tgt in ((c, n, su[0]), (n, c, su[1])):
            s = st.copy()
            if z3.simplify(neg).get_id() in s.pcset or neg.get_id() in s.pcset: continue
            s.assume(cond)
            sc = z3.simplify(cond)
            if sc.get_id() != cond.get_id(): s.assume(sc)
            if not self.feasible(s): continue
            r = self.jump(s, s.frames[-1], tgt, stop)
            if r is None: out.append(s)
            else: out.extend(r)
        return out

    def i_return(self, st, fr, i, stop):
        vals = [self.val(st, fr, x) for x in i["x"]]
        return self.do_return(st, vals)

    def do_return(self, st, vals):
        fr = st.frames[-1]
        for (h, L) in fr.loops:
            if L["phase"] == "A":
                L.setdefault("exits", []).append(st)
                return []
        st.frames.pop()
        if not st.frames:
            st.result = vals
            return None
        up = st.frames[-1]
        if fr.retreg == "$defer": return None
        if fr.retreg is not None:
            up.regs[fr.retreg] = vals[0] if len(vals) == 1 else (tuple(vals) if vals else None)
        up.idx += 1
        return None

    def i_panic(self, st, fr, i, stop):
        self.safety(st, "explicit panic is unreachable", False)
        return []

    def i_rundefers(self, st, fr, i, stop):
        if fr.defers:
            d = fr.defers.pop()
            fn, args, bind = d
            if fn.fn not in self.w.funcs: raise Unsupported("defer " + str(fn.fn))
            f = Frame(self.w.funcs[fn.fn]); f.retreg = "$defer"
            for p, a in zip(f.fn["params"], args): f.regs[p["name"]] = a
            f.bind = {p["name"]: b for p, b in zip(f.fn["free"], fn.bind)}
            st.frames.append(f)
            return None
        fr.idx += 1
        return None

    def i_defer(self, st, fr, i):
        c = i["call"]
        if "invoke" in c: raise Unsupported("defer invoke")
        fn = self.val(st, fr, c["fn"])
        fr.defers.append((fn, [self.val(st, fr, a) for a in c["args"]], None))

    def i_alloc(self, st, fr, i):
        T = self.w.T(i["t"])["elem"]
        x = self.w.T(T)
        if x["kind"] == "array":
            aid = "a%d" % next(_ctr)
            n = x["len"]
            if n <= 64:
                st.arrays[aid] = ArrObj(x["elem"], lst=[self.zero(x["elem"]) for _ in range(n)], ln=n)
            else:
                if self.cur == "init": st.arrays[aid] = ArrObj(x["elem"], lst=[0] * n, ln=n)
                else: raise Unsupported("big array")
            fr.regs[i["r"]] = PtrV("arr", aid, T)
            return
        r = st.newref()
        fr.regs[i["r"]] = PtrV("ref", r, T)
        self.write_ref(st, r, T, self.zero(T))

    def i_store(self, st, fr, i):
        p = self.val(st, fr, i["a"]); v = self.val(st, fr, i["v"])
        if p.kind == "arr":
            raise Unsupported("array store")
        if not self.chk_ptr(st, p, "store"): return False
        if isinstance(v, ArrSlice):
            # keep mutable views only in local cells
            if not (p.kind == "ref" and (not p.path or conc(p.base) is not None and conc(p.base) > BASE)): v = self.freeze(v, st)
        self.store(st, p, v)

    def chk_ptr(self, st, p, what):
        if p.kind != "ref": return True
        c = conc(p.base)
        if c is not None:
            return self.safety(st, "nil dereference (%s)" % what, c != 0)
        return self.safety(st, "nil dereference (%s)" % what, p.base != 0)

    def i_un(self, st, fr, i):
        o = i["o"]
        x = self.val(st, fr, i["x"])
        if o == "*":
            if x.kind == "arr":
                a = st.arrays[x.base]
                fr.regs[i["r"]] = ("arrval", a.copy())
                return
            if not self.chk_ptr(st, x, "load"): return False
            fr.regs[i["r"]] = self.load(st, x)
        elif o == "!": fr.regs[i["r"]] = norm(Not_(x))
        elif o == "-":
            if z3.is_expr(x) and x.sort() == Flt:
                fr.regs[i["r"]] = fneg(x)
            else:
                fr.regs[i["r"]] = -x if isinstance(x, int) else -x
        else: raise Unsupported("unop " + o)

    def i_bin(self, st, fr, i):
        x, y = self.val(st, fr, i["x"]), self.val(st, fr, i["y"])
        o = i["o"]
        t = i["x"].get("t") or i["y"].get("t")
        r = self.binop(st, o, x, y, t, i["t"])
        fr.regs[i["r"]] = r

    def wrap(self, r, t):
        b = self.w.T(t).get("basic") if t in self.w.types else None
        m = {"uint8": 256, "byte": 256, "uint16": 65536, "uint32": 2**32}.get(b)
        if m is None: return r
        if isinstance(r, int): return r % m
        return z3.simplify(r % m)

    def binop(self, st, o, x, y, t, rt):
        if isinstance(x, StrV):
            if o == "+": return x + y
            if o == "==": return self.eq(st, x, y)
            if o == "!=": return Not_(self.eq(st, x, y))
            raise Unsupported("string " + o)
        if o in ("==", "!="):
            r = self.eq(st, x, y)
            return norm(r) if o == "==" else norm(Not_(r))
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            import operator
            f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
                 "&": operator.and_, "|": operator.or_, "<<": operator.lshift, ">>": operator.rshift}.get(o)
            if f: return self.wrap(f(x, y), rt)
            if o == "%": return x - y * int(x / y) if y else 0
            if o == "/": return int(x / y)
            raise Unsupported("binop " + o)
        X, Y = iz(x), iz(y)
        if z3.is_expr(X) and X.sort() == Flt: raise Unsupported("float arithmetic")
        if o == "+": return self.wrap(z3.simplify(X + Y), rt)
        if o == "-": return self.wrap(z3.simplify(X - Y), rt)
        if o == "*": return self.wrap(z3.simplify(X * Y), rt)
        if o == "<": return norm(X < Y)
        if o == "<=": return norm(X <= Y)
        if o == ">": return norm(X > Y)
        if o == ">=": return norm(X >= Y)
        raise Unsupported("binop " + o)

    def eq(self, st, a, b):
        """z3 / python bool: equality"""
        w = self.w
        if isinstance(a, StrV) and isinstance(b, StrV):
            return self.str_eq(a, b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
        if isinstance(a, (SeqV, ArrSlice)) or isinstance(b, (SeqV, ArrSlice)):
            if isinstance(b, SeqV) and not b.parts and b.base == "nil": return self.seq_isnil(a, st)
            if isinstance(a, SeqV) and not a.parts and a.base == "nil": return self.seq_isnil(b, st)
            a = self.freeze(a, st); b = self.freeze(b, st)
            return self.seq_eq(st, a, b)
        if isinstance(a, AnyV) and isinstance(b, AnyV):
            if a.t and b.t and a.t != b.t: return False
            if a.t and b.t and a.t == b.t and a.v is not None and b.v is not None: return self.eq(st, a.v, b.v)
            if a.tm is not None and z3.is_const(a.tm) and a.tm.decl().name() == "nil" and b.t: return False
            if b.tm is not None and z3.is_const(b.tm) and b.tm.decl().name() == "nil" and a.t: return False
            return norm(self.to_term(a, None, st) == self.to_term(b, None, st))
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            an = a.kind == "ref" and not a.path; bn = b.kind == "ref" and not b.path
            if an and conc(a.base) == 0 and not bn: return False
            if bn and conc(b.base) == 0 and not an: return False
            if an and bn:
                e = self.ref_eq(st, a.base, b.base)
                if e is not None: return e
                return norm(iz(a.base) == iz(b.base))
            if (a.kind, a.path, a.T) == (b.kind, b.path, b.T) and a.kind != "ref":
                if str(a.base) == str(b.base): return norm(iz(a.idx) == iz(b.idx))if a.idx is not None else True
            if a.kind == b.kind == "ref" and a.path == b.path and a.T == b.T: return norm(iz(a.base) == iz(b.base))
            return norm(self.to_term(a, None, st) == self.to_term(b, None, st))
        if isinstance(a, MapV) and isinstance(b, MapV):
            if isinstance(a.ref, int) and isinstance(b.ref, int): return a.ref == b.ref
            return norm(iz(a.ref) == iz(b.ref))
        if isinstance(a, (StructV, TermV)) and isinstance(b, (StructV, TermV)):
            if isinstance(a, TermV) and isinstance(b, TermV): return norm(a.t == b.t)
            T = a.T
            n = len(w.T(T)["fields"] or [])
            return And_(*[self.eq(st, self.getf(a, k), self.getf(b, k)) for k in range(n)])
        if isinstance(a, FuncV) or isinstance(b, FuncV):
            return norm(self.to_term(a, None) == self.to_term(b, None))
        A = z3.BoolVal(a) if isinstance(a, bool) else iz(a) if isinstance(a, int) else a
        B = z3.BoolVal(b) if isinstance(b, bool) else iz(b) if isinstance(b, int) else b
        return norm(A == B)

    def str_eq(self, a, b):
        x, y = list(a.at), list(b.at)
        conj = []
        # strip equal ends
        while x and y:
            if isinstance(x[0], bytes) and isinstance(y[0], bytes):
                n = 0
                m = min(len(x[0]), len(y[0]))
                if x[0][:m] != y[0][:m]: return False
                for z in (x, y):
                    r = z[0][m:]
                    if r: z[0] = r
                    else: z.pop(0)
                continue
            if not isinstance(x[0], bytes) and not isinstance(y[0], bytes) and x[0].eq(y[0]):
                x.pop(0); y.pop(0); continue
            break
        while x and y:
            if isinstance(x[-1], bytes) and isinstance(y[-1], bytes):
                m = min(len(x[-1]), len(y[-1]))
                if x[-1][-m:] != y[-1][-m:]: return False
                for z in (x, y):
                    r = z[-1][:-m]
                    if r: z[-1] = r
                    else: z.pop()
                continue
            if not isinstance(x[-1], bytes) and not isinstance(y[-1], bytes) and x[-1].eq(y[-1]):
                x.pop(); y.pop(); continue
            break
        if not x and not y: return True
        if not x or not y:
            z = x or y
            if any(isinstance(k, bytes) for k in z): return False
            return And_(*[k == EMPTY for k in z])
        # align atom by atom
        if len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                if isinstance(p, bytes) and isinstance(q, bytes):
                    if p != q: out = None; break
                elif isinstance(p, bytes) or isinstance(q, bytes):
                    if len(x) == 1: out.append((sconst(p) if isinstance(p, bytes) else p) == (sconst(q) if isinstance(q, bytes) else q))
                    else: out = None; break
                else: out.append(p == q)
            if out is not None and (len(x) == 1 or True):
                if len(x) == 1: return norm(out[0])
                return z3.Or(And_(*out), StrV(x).term() == StrV(y).term())
        return StrV(x).term() == StrV(y).term()

    def seq_eq(self, st, a, b):
        x, y = list(a.parts), list(b.parts)
        if not x and not y: return a.base == b.base
        conj = []
        def same(p, q):
            if p[0] != q[0]: return None
            if p[0] == "u": return self.eq(st, p[1], q[1])
            return p[1].eq(q[1]) or (p[1] == q[1])
        if len(x) == len(y) and all(p[0] == q[0] for p, q in zip(x, y)):
            cs = [same(p, q) for p, q in zip(x, y)]
            if len(x) == 1: return cs[0]
            return And_(*cs)
        return self.seq_term(a, st) == self.seq_term(b, st)

    # ---- the other instructions
    def i_phi(self, st, fr, i):
        raise Unsupported("phi out of place")

    def i_fieldaddr(self, st, fr, i):
        p = self.val(st, fr, i["x"])
        if not self.chk_ptr(st, p, "field of nil pointer"): return False
        fr.regs[i["r"]] = PtrV(p.kind, p.base, p.T, p.path + (i["f"],), p.idx)

    def i_field(self, st, fr, i):
        fr.regs[i["r"]] = self.post_load(st, self.getf(self.val(st, fr, i["x"]), i["f"]))

    def i_indexaddr(self, st, fr, i):
        x = self.val(st, fr, i["x"]); k = self.val(st, fr, i["i"])
        if isinstance(x, PtrV) and x.kind == "arr":
            n = st.arrays[x.base].len
            if not self.safety(st, "index in range", And_(norm(iz(k) >= 0) if not isinstance(k, int) else k >= 0, norm(iz(k) < n) if not isinstance(k, int) else k < n)): return False
            fr.regs[i["r"]] = PtrV("elem", x.base, st.arrays[x.base].elem, (), k)
            return
        if isinstance(x, PtrV) and x.kind == "glob":
            if self.cuttable == x.base and len(st.frames) == 1 and fr.fn["name"] == self.cutfn:
                st.cut = ("table", x.base)
                self.cutstates.append(st)
                return False
            n = self.w.T(x.T)["len"]
            if self.cur != "init":
                if not self.safety(st, "index in range of table " + x.base, 0 <= k < n if isinstance(k, int) else And_(norm(iz(k) >= 0), norm(iz(k) < n))): return False
            else:
                if x.base not in self.globals:
                    e = self.w.T(x.T)["elem"]
                    self.globals[x.base] = ArrObj(e, lst=[self.zero(e)] * n, ln=n)
            e = self.w.T(x.T)["elem"]
            if conc(norm(k)) is None and self.w.sort(e) != IntS and isinstance(self.globals.get(x.base), ArrObj):
                return self.fork_values(st, i, k, [(c, PtrV("globelem", x.base, e, (), c)) for c in range(n)])
            fr.regs[i["r"]] = PtrV("globelem", x.base, e, (), k)
            return
        if isinstance(x, PtrV): return self.index_fieldarr(st, fr, i, x, k)
        if isinstance(x, ArrSlice):
            if not self.safety(st, "index in range", And_(norm(iz(k) >= 0), norm(iz(k) < iz(x.len)))): return False
            fr.regs[i["r"]] = PtrV("elem", x.arr, x.elem, (), norm(iz(k) + iz(x.lo)))
            return
        if isinstance(x, SeqV):
            n = self.seq_len(x, st)
            if not self.safety(st, "index in range", And_(norm(iz(k) >= 0), norm(iz(k) < iz(n)))): return False
            fr.regs[i["r"]] = PtrV("seqelem", x, x.elem, (), k)
            return
        raise Unsupported("indexaddr")

    def index_fieldarr(self, st, fr, i, x, k):
        raise Unsupported("array in a field")

    def i_index(self, st, fr, i):
        x = self.val(st, fr, i["x"]); k = self.val(st, fr, i["i"])
        if isinstance(x, StrV):
            t = x.term()
            if not self.safety(st, "string index in range", z3.And(iz(k) >= 0, iz(k) < slen(x))): return False
            c = x.const()
            if c is not None and conc(k) is not None: fr.regs[i["r"]] = c[conc(k)]
            else: fr.regs[i["r"]] = byte_f(t, iz(k))
            return
        if isinstance(x, tuple) and x[0] == "arrval":
            c = conc(norm(k))
            if c is None: raise Unsupported("index")
            fr.regs[i["r"]] = x[1].lst[c]; return
        raise Unsupported("index")

    def i_lookup(self, st, fr, i):
        m = self.val(st, fr, i["x"]); k = self.val(st, fr, i["i"])
        if isinstance(m, StrV):
            if not self.safety(st, "string index in range", z3.And(iz(k) >= 0, iz(k) < slen(m))): return False
            fr.regs[i["r"]] = byte_f(m.term(), iz(k)); return
        T = self.w.T(m.T)
        if m.const is not None:
            kc = k.const() if isinstance(k, StrV) else conc(norm(k)) if isinstance(k, int) or z3.is_expr(k) else None
            if kc is None and not isinstance(k, StrV) and not (z3.is_expr(k) and k.sort() == IntS): raise Unsupported("lookup in a constant map")
            if kc is not None:
                ok = kc in m.const
                v = m.const[kc] if ok else self.zero(T["elem"])
            elif not isinstance(k, StrV) or any(not isinstance(v, int) or isinstance(v, bool) for v in m.const.values()):
                z = self.zero(T["elem"])
                two = lambda v, ok: (v, ok) if i["commaok"] else v
                return self.fork_values(st, i, k, [(c, two(v, True)) for c, v in m.const.items()], (two(z, False),))
            else:
                cid = self.mapconst_id(m.const)
                dom = z3.Function("kdom%d" % cid, Str, BoolS); get = z3.Function("kget%d" % cid, Str, IntS)
                ok = dom(k.term()); v = z3.If(ok, get(k.term()), 0)
                for kk, vv in m.const.items():
                    st.assume(dom(sconst(kk))); st.assume(get(sconst(kk)) == iz(vv))
        else:
            dom, get = self.map_get(st, m, k)
            ok = dom
            v = get
        fr.regs[i["r"]] = (v, ok) if i["commaok"] else v

    mapconsts = []
    def mapconst_id(self, d):
        key = tuple(sorted((k, v) for k, v in d.items()))
        for n, k in enumerate(Engine.mapconsts):
            if k == key: return n
        Engine.mapconsts.append(key)
        return len(Engine.mapconsts) - 1

    # symbolic maps: mem["map:T"] maps refs to z3 arrays Str -> Option elem
    def optsort(self, T):
        if not hasattr(self.w, "_opt"): self.w._opt = {}
        if T not in self.w._opt:
            e = self.w.T(T)["elem"]
            D = z3.Datatype("Opt<%s>" % T)
            D.declare("none"); D.declare("some", ("val", self.w.sort(e)))
            self.w._opt[T] = D.create()
        return self.w._opt[T]

    def map_content(self, st, m):
        T = m.T; key = "map:" + T
        O = self.optsort(T)
        A = z3.ArraySort(Str, O)
        if key not in st.mem: st.mem[key] = MemArr(z3.Const("mem0:" + key, z3.ArraySort(IntS, A)))
        a = st.mem[key]
        pend = []
        base = None
        for (r, v) in reversed(a.ups):
            e = self.ref_eq(st, r, m.ref)
            if e is True: base = v; break
            if e is None:
                q = self.decide(st, iz(r) == iz(m.ref))
                if q is True: base = v; break
                if q is None: pend.append((r, v))
        if base is None:
            base = z3.Select(a.base, iz(m.ref))
        for r, v in reversed(pend): base = z3.If(iz(r) == iz(m.ref), v, base)
        if conc(m.ref) == 0: return z3.K(Str, O.none)
        st.assume(z3.Select(a.base, z3.IntVal(0)) == z3.K(Str, O.none))
        return base

    def map_set_content(self, st, m, c):
        key = "map:" + m.T
        self.map_content(st, m)
        a = st.mem[key]
        st.mem[key] = MemArr(a.base, tuple((r, v) for r, v in a.ups if self.ref_eq(st, r, m.ref) is not True) + ((m.ref, c),))
        st.writes.append(PtrV("maploc", m.ref, m.T))

    def map_get(self, st, m, k):
        O = self.optsort(m.T)
        c = self.map_content(st, m)
        sel = z3.simplify(z3.Select(c, k.term()))
        e = self.w.T(m.T)["elem"]
        ok = O.is_some(sel)
        d = self.decide(st, ok)
        if d is True: return True, self.from_term(z3.simplify(O.val(sel)), e)
        z = self.zero(e)
        if d is False: return False, z
        return ok, self.from_term(z3.If(ok, O.val(sel), self.to_term(z, e, st)), e)

    def i_mapupdate(self, st, fr, i):
        m = self.val(st, fr, i["m"]); k = self.val(st, fr, i["key"]); v = self.val(st, fr, i["v"])
        if m.const is not None:
            if self.cur != "init": raise Unsupported("update of constant map")
            m.const[k.const() if isinstance(k, StrV) else conc(norm(k))] = v
            return
        if not self.safety(st, "assignment to entry in nil map", norm(iz(m.ref) != 0)): return False
        O = self.optsort(m.T)
        c = self.map_content(st, m)
        e = self.w.T(m.T)["elem"]
        self.map_set_content(st, m, z3.Store(c, k.term(), O.some(self.to_term(v, e, st))))

    def i_makemap(self, st, fr, i):
        if self.cur == "init":
            fr.regs[i["r"]] = MapV(-1, i["t"], const={})
            return
        r = st.newref()
        m = MapV(r, i["t"])
        O = self.optsort(i["t"])
        st.mem.setdefault("map:" + i["t"], MemArr(z3.Const("mem0:map:" + i["t"], z3.ArraySort(IntS, z3.ArraySort(Str, O)))))
        a = st.mem["map:" + i["t"]]
        st.mem["map:" + i["t"]] = MemArr(a.base, a.ups + ((r, z3.K(Str, O.none)),))
        fr.regs[i["r"]] = m

    def i_makeslice(self, st, fr, i):
        n = norm(self.val(st, fr, i["len"])); c = norm(self.val(st, fr, i["cap"]))
        e = self.w.T(i["t"])["elem"]
        if not self.safety(st, "makeslice: length in range", And_(norm(iz(n) >= 0), norm(iz(n) <= iz(c)))): return False
        if e == self.stack_elem:
            aid = "a%d" % next(_ctr)
            st.arrays[aid] = StkArr(e, self.stack_base, n, "new")
            fr.regs[i["r"]] = ArrSlice(e, aid, 0, n); return
        if n == 0 and isinstance(n, int):
            fr.regs[i["r"]] = SeqV(e, (), "empty"); return
        aid = "a%d" % next(_ctr)
        z = self.to_term(self.zero(e), e, st)
        if isinstance(n, int) and n <= 64:
            st.arrays[aid] = ArrObj(e, lst=[self.zero(e) for _ in range(n)], ln=n)
        else:
            st.arrays[aid] = ArrObj(e, arr=z3.K(IntS, z), ln=n)
        fr.regs[i["r"]] = ArrSlice(e, aid, 0, n)

    def i_slice(self, st, fr, i):
        x = self.val(st, fr, i["x"])
        lo = self.val(st, fr, i["lo"]) if i["lo"] else 0
        hi = self.val(st, fr, i["hi"]) if i["hi"] else None
        if isinstance(x, StrV):
            n = slen(x)
            if hi is None:
                if not self.safety(st, "slice bounds", And_(norm(iz(lo) >= 0), norm(iz(lo) <= n))): return False
                hi = n
            else:
                if not self.safety(st, "slice bounds", And_(norm(iz(lo) >= 0), norm(iz(lo) <= iz(hi)), norm(iz(hi) <= n))): return False
            c = x.const()
            if c is not None and conc(lo) is not None and conc(hi) is not None:
                fr.regs[i["r"]] = S(c[conc(lo):conc(hi)]); return
            if conc(lo) == 0 and z3.is_expr(hi) and z3.is_expr(n) and hi.eq(n): fr.regs[i["r"]] = x; return
            xt = x.term()
            if z3.is_app(xt) and xt.decl().name() == "ssub":      # a part of a part (both bounds were proved in range)
                b, l, h = xt.arg(0), xt.arg(1), xt.arg(2)
                hh = h if z3.is_expr(hi) and hi.eq(n) else norm(l + iz(hi)) if z3.is_expr(hi) else norm(l + hi)
                fr.regs[i["r"]] = StrV([ssub(b, iz(norm(l + iz(lo))), iz(hh))])
                return
            fr.regs[i["r"]] = StrV([ssub(xt, iz(lo), iz(hi))])
            return
        if isinstance(x, PtrV) and x.kind == "arr":
            a = st.arrays[x.base]
            h = a.len if hi is None else hi
            fr.regs[i["r"]] = ArrSlice(a.elem, x.base, lo, norm(iz(h) - iz(lo))) ; return
        if isinstance(x, PtrV): return self.slice_fieldarr(st, fr, i, x, lo, hi)
        if isinstance(x, ArrSlice):
            h = x.len if hi is None else hi
            if not self.safety(st, "slice bounds", And_(norm(iz(lo) >= 0), norm(iz(lo) <= iz(h)), norm(iz(h) <= iz(x.len)))): return False
            fr.regs[i["r"]] = ArrSlice(x.elem, x.arr, norm(iz(x.lo) + iz(lo)), norm(iz(h) - iz(lo))); return
        if isinstance(x, SeqV):
            n = self.seq_len(x, st)
            h = n if hi is None else hi
            if not self.safety(st, "slice bounds", And_(norm(iz(lo) >= 0), norm(iz(lo) <= iz(h)), norm(iz(h) <= iz(n)))): return False
            if conc(lo) == 0 and self.decide(st, iz(h) == iz(n)) is True:
                fr.regs[i["r"]] = x; return
            if all(p[0] == "u" for p in x.parts) and conc(lo) is not None and conc(h) is not None:
                fr.regs[i["r"]] = SeqV(x.elem, x.parts[conc(lo):conc(h)]); return
            f = self.w.seqfns(x.elem)
            t = f.slice(self.seq_term(x, st), iz(lo), iz(h))
            st.assume(f.len(t) == iz(h) - iz(lo))
            fr.regs[i["r"]] = SeqV(x.elem, [("s", t)]); return
        raise Unsupported("slice")

    def slice_fieldarr(self, st, fr, i, x, lo, hi):
        T = self.w.T(self.field_type(x.T, x.path))
        if T["kind"] == "array" and T["elem"] == self.stack_elem and conc(lo) == 0 and hi is None:
            aid = "a%d" % next(_ctr)
            st.arrays[aid] = StkArr(T["elem"], self.stack_base, T["len"], "initial")
            fr.regs[i["r"]] = ArrSlice(T["elem"], aid, 0, T["len"])
            return
        raise Unsupported("slice of array field")

    def i_changetype(self, st, fr, i):
        v = self.val(st, fr, i["x"])
        if isinstance(v, SeqV):
            e = self.w.T(i["t"])["elem"]
            if e != v.elem: v = SeqV(e, v.parts, v.base)
        elif isinstance(v, (StructV,)): v = StructV(i["t"], v.f) if i["t"] in self.w.DT and i["t"] != v.T else v
        fr.regs[i["r"]] = v

    def i_convert(self, st, fr, i):
        v = self.val(st, fr, i["x"])
        ft, tt = self.w.T(i["x"]["t"]), self.w.T(i["t"])
        fr.regs[i["r"]] = self.convert(st, v, i["x"]["t"], i["t"], ft, tt)

    def convert(self, st, v, fn, tn, ft, tt):
        fk, tk = ft["kind"], tt["kind"]
        fb, tb = ft.get("basic"), tt.get("basic")
        if tk == "basic" and tb == "string":
            if fk == "slice":
                e = self.w.elemkey(ft["elem"])
                if isinstance(v, ArrSlice) or isinstance(v, SeqV):
                    fe = self.w.T(ft["elem"])["basic"]
                    if fe in ("int32", "rune"):
                        s = self.freeze(v, st)
                        return runes_to_str(self, st, s)
                    if fe in ("uint8", "byte"):
                        return self.bytes_to_str(st, v)
            if fb in INTKINDS:
                c = conc(norm(v))
                if c is None: c = self.known_const(st, v)
                if c is not None:
                    return S(rune_bytes(c))
                return StrV([rune2str(iz(v))])
        if fk == "basic" and fb == "string" and tk == "slice":
            eb = self.w.T(tt["elem"])["basic"]
            if eb in ("int32", "rune"):
                g = z3.Function("runesOf", Str, self.w.seqsort(tt["elem"]))
                t = g(v.term())
                f = self.w.seqfns(tt["elem"])
                rc = z3.Function("runeCount", Str, IntS)
                st.assume(f.len(t) == rc(v.term())); st.assume(rc(v.term()) >= 0); st.assume(rc(v.term()) <= slen(v))
                return SeqV(tt["elem"], [("s", t)])
            if eb in ("uint8", "byte"):
                aid = "a%d" % next(_ctr)
                arr = z3.Function("bytesArr", Str, z3.ArraySort(IntS, IntS))(v.term())
                st.arrays[aid] = ArrObj(tt["elem"], arr=arr, ln=slen(v))
                st.ghost["bytes:" + aid] = v
                J = getattr(self, "env", {}).get("J")
                if J is not None: st.assume(z3.Select(arr, J) == byte_f(v.term(), J))
                return ArrSlice(tt["elem"], aid, 0, slen(v))
        if fb in INTKINDS and tb in INTKINDS:
            m = {"uint8": 256, "uint16": 65536, "uint32": 2**32}.get(tb)
            if m and fb != tb:
                if isinstance(v, int): return v % m
                return v % m
            if tb in ("int8", "int16", "int32", "rune") and fb not in ("int8", "uint8", "int16", "byte") and fb != tb:
                bits = {"int8": 8, "int16": 16}.get(tb, 32)
                if isinstance(v, int):
                    return (v + 2**(bits - 1)) % 2**bits - 2**(bits - 1)
                if not self.safety(st, "integer conversion keeps the value", z3.And(iz(v) >= -2**(bits - 1), iz(v) < 2**(bits - 1))): raise Unsupported("narrowing")
            return v
        if fb in ("float64", "float32") and tb in ("float64", "float32"):
            if fb == tb: return v
            if fb == "float32": return z3.Function("widen", Flt, Flt)(v)
            return z3.Function("narrow", Flt, Flt)(v)
        if tk == "basic" and tb == "UnsafePointer" or fb == "UnsafePointer": return v
        raise Unsupported("convert %s to %s" % (fn, tn))

    def known_const(self, st, v):
        """constant an integer is equal to on this path, if that is written in the path condition"""
        w = z3.simplify(v)
        for e in st.pc:
            if z3.is_eq(e):
                a, b = e.arg(0), e.arg(1)
                if a.eq(w): a = v
                if b.eq(w): b = v
                if a.eq(v) and z3.is_int_value(b): return b.as_long()
                if b.eq(v) and z3.is_int_value(a): return a.as_long()
        return None

    def bytes_to_str(self, st, v):
        if isinstance(v, SeqV): raise Unsupported("bytes seq")
        a = st.arrays[v.arr]
        if a.arr is None: raise Unsupported("bytes list")
        g = z3.Function("strOfBytes", z3.ArraySort(IntS, IntS), IntS, Str)
        return StrV([g(a.arr, iz(v.len))])

    def i_changeiface(self, st, fr, i):
        fr.regs[i["r"]] = self.val(st, fr, i["x"])

    def i_makeiface(self, st, fr, i):
        v = self.val(st, fr, i["x"])
        if isinstance(v, ArrSlice): v = self.freeze(v, st)
        fr.regs[i["r"]] = AnyV(t=self.w.canon(i["x"]["t"]), v=v)

    def i_closure(self, st, fr, i):
        fr.regs[i["r"]] = FuncV(fn=i["fn"]["n"], bind=tuple(self.val(st, fr, b) for b in i["b"]))

    def i_extract(self, st, fr, i):
        fr.regs[i["r"]] = self.val(st, fr, i["x"])[i["i"]]

    def implements(self, iface):
        """dynamic types whose method set contains the interface"""
        ms = self.w.T(iface).get("methods") or []
        out = []
        for t in self.w.boxes:
            mm = self.w.methods.get(t, {})
            if all(m in mm for m in ms): out.append(t)
        return out

    def i_assert(self, st, fr, i):
        x = self.val(st, fr, i["x"]); at = i["at"]
        if self.w.T(at)["kind"] == "iface":
            ms = self.w.T(at).get("methods") or []
            if not ms:
                isn = self.eq(st, x, AnyV(tm=self.w.Any.nil))
                ok = norm(Not_(isn))
            elif x.t:
                mm = self.w.methods.get(x.t, {})
                ok = all(m in mm for m in ms)
            else:
                tm = self.to_term(x, None, st)
                ok = norm(z3.Or(*([self.w.isbox(t, tm) for t in self.implements(at)] + [z3.And(self.w.Any.is_other(tm), z3.Function("impl:" + at, IntS, BoolS)(self.w.Any.otag(tm)))])))
            v = x
            if i["commaok"]:
                fr.regs[i["r"]] = (v if ok is not False else AnyV(tm=self.w.Any.nil), ok)
                return
            if not self.safety(st, "type assertion to " + at, ok): return False
            fr.regs[i["r"]] = v
            return
        at = self.w.canon(at)
        if x.t:
            ok = x.t == at
            v = x.v if ok else self.zero(at)
        else:
            tm = x.tm
            ok = norm(self.w.isbox(at, tm))
            d = ok if isinstance(ok, bool) else self.decide(st, ok)
            if d is True:
                ok = True
                v = self.unbox_val(st, tm, at)
            elif d is False:
                ok = False; v = self.zero(at)
            else:
                # fork is expressed by an undetermined flag; the value is only meaningful when ok
                v = self.unbox_val(st, tm, at)
        if i["commaok"]:
            fr.regs[i["r"]] = (v, ok)
            return
        if not self.safety(st, "type assertion to " + at, ok): return False
        fr.regs[i["r"]] = v

    def unbox_val(self, st, tm, at):
        u = self.w.unbox(at, tm)
        u = z3.simplify(u) if tm.decl().name().startswith("box") else u
        return self.post_load(st, self.from_term(u, at))

    def i_range(self, st, fr, i):
        x = self.val(st, fr, i["x"])
        iid = "it%d" % next(_ctr)
        if isinstance(x, StrV):
            st.iters[iid] = {"kind": "str", "str": x.term(), "v": x, "pos": 0}
        elif isinstance(x, MapV):
            if x.const is not None: raise Unsupported("range over constant map")
            c = self.map_content(st, x)
            ln = z3.Function("maplen:" + x.T, c.sort(), IntS)(c)
            st.assume(ln >= 0)
            st.iters[iid] = {"kind": "map", "map": x, "content": c, "len": ln, "pos": 0, "T": x.T, "n": next(_ctr)}
        else: raise Unsupported("range")
        fr.regs[i["r"]] = IterV(iid)

    def i_next(self, st, fr, i, stop):
        it = self.val(st, fr, i["x"])
        d = st.iters[it.id]
        p = iz(d["pos"])
        if d["kind"] == "str":
            ok = norm(p < strlen(d["str"]))
            if d["v"].const() is not None: ok = norm(p < len(d["v"].const()))
        else: ok = norm(p < d["len"])
        outs = []
        for b in ([ok] if isinstance(ok, bool) else [True, False]):
            s = st.copy() if not isinstance(ok, bool) else st
            if not isinstance(ok, bool):
                s.assume(ok if b else z3.Not(ok))
                if not self.feasible(s): continue
            f = s.frames[-1]; e = dict(d)
            if d["kind"] == "str":
                src = d["str"]
                if b: e["pos"] = norm(p + size_f(src, p))
                f.regs[i["r"]] = (b, norm(p), rune_f(src, p))
            else:
                T = self.w.T(d["T"])
                key = z3.Function("mapkey:" + d["T"], d["content"].sort(), IntS, IntS, Str)(d["content"], z3.IntVal(d["n"]), p)
                O = self.optsort(d["T"])
                sel = z3.Select(d["content"], key)
                if b:
                    s.assume(O.is_some(sel)); e["pos"] = norm(p + 1)
                f.regs[i["r"]] = (b, StrV([key]), self.from_term(O.val(sel), T["elem"]))
            s.iters[it.id] = e
            f.idx += 1
            outs.append(s)
        if len(outs) == 1 and outs[0] is st: return None
        return outs

    # ---- calls
    def i_call(self, st, fr, i, stop):
        c = i["call"]
        args = [self.val(st, fr, a) for a in c["args"]]
        if "invoke" in c:
            recv = self.val(st, fr, c["recv"])
            return self.invoke(st, fr, i, recv, c["invoke"], args)
        fv = self.val(st, fr, c["fn"])
        if isinstance(fv, tuple) and fv[0] == "builtin":
            r = self.builtin(st, fr, i, fv[1], args)
            if r is False: return []
            fr.idx += 1
            return None
        return self.call(st, fr, i, fv, args, c.get("full"))

    def call(self, st, fr, i, fv, args, full=None):
        name = fv.fn
        if name is None:
            # unknown callback
            r = self.unknown_call(st, fr, i, fv, args)
            fr.regs[i["r"]] = r
            fr.idx += 1
            return None
        if name in self.contracts and getattr(self.contracts[name], "use", None) is not None and not fv.bind:
            self.used_contracts.add(name)
            was, self.using = self.using, name
            try: outs = self.contracts[name].use(self, st, args)
            finally: self.using = was
            return self.finish_call(st, i, outs)
        base = full.split("[")[0] if full and name not in self.w.funcs else None
        if name in self.stdlib or (full and full in self.stdlib) or base in self.stdlib:
            self.used_models.add(full or name)
            outs = (self.stdlib.get(name) or self.stdlib.get(full) or self.stdlib.get(base))(self, st, args, i)
            return self.finish_call(st, i, outs)
        if name in self.w.funcs:
            f = self.w.funcs[name]
            if sum(1 for x in st.frames if x.fn is f) >= 2: raise Unsupported("recursion without contract: " + name)
            self.inlined.add(name)
            nf = Frame(f); nf.retreg = i["r"]
            for p, a in zip(f["params"], args): nf.regs[p["name"]] = a
            nf.bind = {p["name"]: b for p, b in zip(f["free"], fv.bind)}
            st.frames.append(nf)
            if len(st.frames) > 25: raise Unsupported("inlining too deep")
            return None
        raise Unsupported("call of " + (full or name))

    def finish_call(self, st, i, outs):
        """outs: list of (state, result) ; result value or tuple"""
        if outs is False: return []
        if not isinstance(outs, list): outs = [(st, outs)]
        res = []
        for s, r in outs:
            s.frames[-1].regs[i["r"]] = r
            s.frames[-1].idx += 1
            res.append(s)
        if len(res) == 1 and res[0] is st: return None
        return res

    def unknown_call(self, st, fr, i, fv, args):
        if self.hook_event: return self.hook_event(self, st, fv, args)
        raise Unsupported("call of an unknown function value")

    def invoke(self, st, fr, i, recv, meth, args):
        if recv.t:
            mm = self.w.methods.get(recv.t, {})
            if meth not in mm: raise Unsupported("invoke %s on %s" % (meth, recv.t))
            return self.call(st, fr, i, FuncV(fn=mm[meth]), [recv.v] + args)
        tm = self.to_term(recv, None, st)
        if meth == "Error" and not args and self.errlike(st, tm):
            fr.regs[i["r"]] = StrV([z3.Function("errText", self.w.Any, Str)(tm)])
            fr.idx += 1
            return None
        if not self.safety(st, "method call on nil interface", norm(tm != self.w.Any.nil)): return []
        cands = [t for t in self.w.boxes if meth in self.w.methods.get(t, {})]
        out = []
        neg = []
        for t in cands:
            s = st.copy()
            s.assume(self.w.isbox(t, tm))
            neg.append(z3.Not(self.w.isbox(t, tm)))
            if not self.feasible(s): continue
            v = self.unbox_val(s, tm, t)
            r = self.call(s, s.frames[-1], i, FuncV(fn=self.w.methods[t][meth]), [v] + args)
            if r is None: out.append(s)
            else: out.extend(r)
        s = st.copy()
        s.assume(z3.And(*neg))
        if self.feasible(s):
            h = self.stdlib.get("invoke:" + meth)
            if h is None: raise Unsupported("invoke %s on a type outside the package" % meth)
            outs = h(self, s, [AnyV(tm=tm)] + args, i)
            r = self.finish_call(s, i, outs)
            if r is None: out.append(s)
            else: out.extend(r)
        return out

    def errlike(self, st, tm):
        return self.decide(st, self.w.Any.is_other(tm)) is True

    def builtin(self, st, fr, i, name, args):
        r = i["r"]
        if name == "len":
            a = args[0]
            if isinstance(a, StrV): v = slen(a); v = norm(v)
            elif isinstance(a, (SeqV, ArrSlice)): v = self.seq_len(a, st)
            elif isinstance(a, MapV):
                c = self.map_content(st, a)
                v = z3.Function("maplen:" + a.T, c.sort(), IntS)(c)
                st.assume(v >= 0)
            else: raise Unsupported("len")
            fr.regs[r] = v
        elif name == "append":
            a, b = args
            if isinstance(b, StrV): raise Unsupported("append string")
            if self.on_append: self.on_append(st, a, b)
            fr.regs[r] = self.seq_append(a, b, st)
        elif name == "SliceData":
            fr.regs[r] = BytesPtr(args[0])
        elif name == "String":
            bp, n = args
            if not isinstance(bp, BytesPtr): raise Unsupported("unsafe.String")
            s = bp.s
            if not self.safety(st, "unsafe.String stays inside the slice", norm(z3.And(iz(n) >= 0, iz(n) <= iz(s.len)))): return False
            v = self.bytes_to_str(st, ArrSlice(s.elem, s.arr, s.lo, n))
            st.arrays[s.arr].frozen = True
            fr.regs[r] = v
        elif name == "cap":
            a = args[0]
            if isinstance(a, ArrSlice): fr.regs[r] = norm(iz(st.arrays[a.arr].len) - iz(a.lo)); return True
            c = fresh("cap", IntS); st.assume(c >= iz(self.seq_len(a, st)))
            fr.regs[r] = c
        elif name == "copy":
            return self.b_copy(st, fr, i, args)
        elif name == "ssa:wrapnilchk":
            p = args[0]
            if not self.chk_ptr(st, p, "method of nil pointer"): return False
            fr.regs[r] = p
        elif name in ("min", "max") and self.w.sort(i["t"]) == IntS if "t" in i else False:
            v = iz(args[0])
            for a in args[1:]:
                a = iz(a); v = z3.If((a < v) if name == "min" else (a > v), a, v)
            fr.regs[r] = norm(v)
        else:
            raise Unsupported("builtin " + name)
        return True
    on_append = None

    def b_copy(self, st, fr, i, args):
        d, s = args
        if isinstance(d, ArrSlice) and isinstance(s, ArrSlice) and isinstance(st.arrays[d.arr], StkArr) and isinstance(st.arrays[s.arr], StkArr):
            a, b = st.arrays[d.arr], st.arrays[s.arr]
            if a.wr or a.origin != "new" or conc(norm(d.lo)) != 0 or conc(norm(s.lo)) != 0: raise Unsupported("copy")
            if self.decide(st, iz(d.len) >= iz(s.len)) is not True: raise Unsupported("copy into a shorter stack")
            if self.decide(st, iz(s.len) == iz(b.len)) is not True: raise Unsupported("copy of a part of the stack")
            a.known = dict(b.known); a.origin = b.origin
            fr.regs[i["r"]] = s.len
            return True
        raise Unsupported("copy")

def slen(v):
    """length of a string value"""
    n = 0; ts = []
    for a in v.at:
        if isinstance(a, bytes): n += len(a)
        else: ts.append(strlen(a))
    if not ts: return z3.IntVal(n)
    r = ts[0]
    for t in ts[1:]: r = r + t
    return r + n if n else r

fneg = z3.Function("fneg", Flt, Flt)

def rune_bytes(c):
    if 0 <= c <= 0x10FFFF and not (0xD800 <= c <= 0xDFFF): return chr(c).encode()
    return b"\xef\xbf\xbd"

def runes_to_str(E, st, s):
    """string(runes): a homomorphism, kept as a concatenation"""
    out = []
    for p in s.parts:
        if p[0] == "u":
            c = conc(p[1])
            out.append(rune_bytes(c) if c is not None else rune2str(iz(p[1])))
        else: out.append(runes2str(p[1]))
    return StrV(out)

class Valuation:
    def __init__(self, st):
        self.st = st; self.phi = {}; self.loc = []; self.it = {}; self.shapes = {}
    def ints(self):
        out = []
        for r, v in self.phi.items():
            if isinstance(v, int) and not isinstance(v, bool) or (z3.is_expr(v) and v.sort() == IntS): out.append(("phi:" + r, v))
        for k, v in self.it.items(): out.append(("iter", v))
        for p, v in self.loc:
            if isinstance(v, int) and not isinstance(v, bool) or (z3.is_expr(v) and v.sort() == IntS): out.append(("loc:%r" % (p,), v))
        return out

class LoopCtx:
    def __init__(self, E, fn, header, entry, entry_phi, vars_):
        self.E, self.fn, self.header, self.entry, self.entry_phi, self.vars = E, fn, header, entry, entry_phi, vars_
        self.iters = []
    def valuation_entry(self, locs):
        V = Valuation(self.entry)
        V.phi = dict(self.entry_phi)
        V.loc = [(p, self.E.load(self.entry, p)) for p in locs]
        V.it = {i: self.entry.iters[i]["pos"] for i in self.iters}
        return V
    def valuation_back(self, b, locs):
        V = Valuation(b)
        V.phi = dict(b.ghost["back_phi"])
        V.loc = [(p, self.E.load(b, p)) for p in locs]
        V.it = {i: b.iters[i]["pos"] for i in self.iters}
        return V

class NoLoopSpec:
    shapes_trace = None
    def cands(self, lc, V): return []
    def shapes(self, lc, V, vid, T, ev, hs): return []
    def variants(self, lc, V): return None
