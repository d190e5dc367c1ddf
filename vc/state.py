"""Package-level state: the frame condition "no package variable, and nothing reachable from one, is written after initialisation",
checked on every instruction of every function of the package (including those no other contract covers).

A register is an ADDRESS of package state (a global, a field or element of one), CONTENT of package state (a map, slice, pointer,
function or interface loaded from one) or neither.  Both flow through assignments, calls inside the package and results; a write through
either, and any way for either to escape from this analysis, fails an obligation."""
from sx import *

READERS = ("fmt.", "errors.", "strings.", "unicode.", "utf8.", "unicode/utf8.", "strconv.", "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "maps.Clone", "maps.Keys", "maps.Values", "github.com/pkg/errors.")
IMMUTABLE = ("error", "string", "bool", "time.Time")

def unit_state(E):
    w = E.w
    E.cur, E.curprops = "package state", ("C17",)
    funcs = {n: f for n, f in w.funcs.items() if n != "init" and not n.startswith("init#")}
    par = {}      # (fn, param or free variable) -> taint
    ret = {}      # fn -> taint of some result
    viol = {}
    def reflike(t):
        if t is None or t in IMMUTABLE: return False
        if t.startswith("(") : return True
        try: k = w.T(t)["kind"]
        except Exception: return True
        if k == "basic": return False
        if k == "struct": return any(reflike(f["type"]) for f in w.T(t)["fields"] or [])
        if k == "array": return reflike(w.T(t)["elem"])
        return True
    def bad(fn, i, what):
        viol[(fn, i.get("line"), what)] = i
    def pass1():
        changed = False
        def setp(d, k, v):
            nonlocal changed
            if v and d.get(k) != v and not (d.get(k) == "A"):
                d[k] = v; changed = True
        for fn, f in funcs.items():
            reg = {}
            for p in f["params"]:
                if par.get((fn, p["name"])): reg[p["name"]] = par[(fn, p["name"])]
            for p in f["free"]:
                if par.get((fn, "free:" + p["name"])): reg["free:" + p["name"]] = par[(fn, "free:" + p["name"])]
            def ta(x):
                if not isinstance(x, dict): return None
                if x.get("k") == "global": return "A"
                if x.get("k") == "reg":
                    v = reg.get(x["n"])
                    return v if v != "L" else None
                if x.get("k") == "free": return reg.get("free:" + x["n"])
                return None
            def join(*ts): return "A" if "A" in ts else "C" if "C" in ts else None
            def docall(i, c):
                args = c["args"]
                if "invoke" in c:
                    if ta(c["recv"]) or any(ta(a) for a in args): bad(fn, i, "package state is passed to a method of an interface (%s)" % c["invoke"])
                    return None
                t = [ta(a) for a in args]
                fv = c["fn"]
                if not any(t): return ret.get(fv["n"]) if fv.get("k") == "func" else None
                if fv.get("k") == "builtin":
                    n = fv["n"]
                    if n in ("len", "cap", "min", "max", "print", "println", "ssa:wrapnilchk"): return None
                    if n == "append":
                        if t[0]: bad(fn, i, "package state is appended to")
                        return join(*t)
                    if n == "copy":
                        if t[0]: bad(fn, i, "package state is copied over")
                        return None
                    bad(fn, i, "package state is passed to %s" % n); return None
                if fv.get("k") == "func" and fv["n"] in funcs:
                    g = funcs[fv["n"]]
                    for p, x in zip(g["params"], t): setp(par, (fv["n"], p["name"]), x)
                    return ret.get(fv["n"])
                full = c.get("full") or fv.get("n", "a function value")
                if "A" in t or not any(str(full).startswith(r) for r in READERS): bad(fn, i, "package state is passed to %s" % full)
                return None
            for _ in range(4):
                for b in f["blocks"]:
                    for i in b["instrs"]:
                        op = i["op"]; r = i.get("r"); v = None
                        if op in ("fieldaddr", "field", "index", "slice"):
                            v = ta(i["x"])
                            if v and op in ("field", "index"): v = "C" if reflike(i.get("t")) else None
                        elif op == "indexaddr": v = "A" if ta(i["x"]) else None
                        elif op == "un":
                            if i["o"] == "*" and i["x"].get("k") == "reg" and reg.get(i["x"]["n"]) == "L": v = "C"      # a local variable holding package state
                            elif i["o"] == "*": v = "C" if ta(i["x"]) == "A" and reflike(i.get("t")) or ta(i["x"]) == "C" and reflike(i.get("t")) else None
                            elif i["o"] == "<-" and ta(i["x"]): bad(fn, i, "a channel held in package state is read")
                        elif op in ("changetype", "convert", "changeiface", "makeiface", "assert", "extract", "range", "next"):
                            v = ta(i["x"])
                            if v == "A" and op == "makeiface": bad(fn, i, "the address of package state is put into an interface")
                            if v and op in ("extract", "assert", "convert") and not reflike(i.get("t")): v = None
                        elif op == "lookup": v = "C" if ta(i["x"]) and reflike(i.get("t")) else None
                        elif op == "phi": v = join(*[ta(e) for e in i["e"]])
                        elif op in ("call", "defer", "go"):
                            v = docall(i, i["call"])
                            if v and r is not None and not reflike(i.get("t")): v = None
                        elif op == "closure":
                            g = funcs.get(i["fn"]["n"])
                            for fv_, x in zip(g["free"] if g else [], i["b"]): setp(par, (i["fn"]["n"], "free:" + fv_["name"]), ta(x))
                        elif op == "store":
                            if ta(i["a"]) in ("A", "C"):
                                bad(fn, i, "package state is written")
                            elif ta(i["v"]): bad(fn, i, "package state is kept in another object (it could be written through it)") if ta(i["v"]) == "A" or not local(f, i["a"]) else setl(reg, i)
                        elif op == "mapupdate":
                            if ta(i["m"]): bad(fn, i, "a map of the package is written")
                            elif ta(i["v"]): bad(fn, i, "package state is kept in a map")
                        elif op == "return":
                            for x in i["x"]:
                                if ta(x): setp(ret, fn, "C" if ta(x) == "C" else "A")
                        if r is not None and v and reg.get(r) != v and reg.get(r) != "A": reg[r] = v; changed_local[0] = True
        return changed
    changed_local = [False]
    def local(f, a):
        """the address of a variable of this call"""
        return a.get("k") == "reg" and any(i.get("r") == a["n"] and i["op"] == "alloc" for b in f["blocks"] for i in b["instrs"])
    def setl(reg, i):
        if reg.get(i["a"]["n"]) is None: reg[i["a"]["n"]] = "L"
    for _ in range(30):
        changed_local[0] = False
        if not pass1(): break
    byfn = {}
    for (fn, line, what), i in viol.items(): byfn.setdefault(fn, []).append((line, what))
    for fn, f in sorted(funcs.items()):
        n = sum(1 for b in f["blocks"] for i in b["instrs"] if i["op"] in ("store", "mapupdate", "call", "defer", "go", "closure", "return"))
        b = byfn.get(fn, [])
        line = b[0][0] if b else f.get("line")
        E.obls.append(Obl(fn, "frame", "the function writes no package-level state (%d writes, calls and results)" % n, "%s:%s" % (str(f.get("file", "?")).split("/")[-1], line), not b, "; ".join("line %s: %s" % x for x in b[:5]), 0, ("C17",)))
    E.obls.append(Obl("package state", "cover", "every function of the package is checked", None, len(funcs) > 50, "%d" % len(funcs), 0, ("C17",)))
    return E.obls
