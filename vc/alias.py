"""Names are not behaviour: unexported functions, types, fields and variables that were only renamed get the name the
contracts know them by (in the dump, before anything is proved); a function whose parameters changed is no longer the
function its contract speaks of and is proved as part of its callers.

names.json lists what the contracts' program is called; it is used for finding names, for nothing else."""
import difflib, json, os, re

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = os.path.join(HERE, "names.json")

def ops(f):
    out = []
    for b in f["blocks"]:
        for i in b["instrs"] or []:
            fn = (i.get("call") or {}).get("fn") or {}
            out.append(i["op"] + ":" + (fn.get("n", "") if fn.get("k") in ("func", "builtin") else "") + i.get("o", "") * (i["op"] == "bin"))
    return out

def describe(d):
    fs = {}
    for f in d["funcs"]:
        if f.get("syn") or f["name"].startswith("init"): continue
        fs[f["name"]] = {"params": [[p["name"], p["type"]] for p in f["params"] or []], "results": f["results"] or [], "free": len(f["free"] or []), "ops": ops(f)}
    ts = {t: [[x["name"], x["type"]] for x in v.get("fields") or []] for t, v in d["types"].items() if v.get("named") and v["kind"] == "struct" and "." not in t}
    return {"funcs": fs, "structs": ts, "globals": {g["name"]: g["type"] for g in d["globals"]}}

def rename_words(x, words, key=None):
    """the dump with names replaced (texts of constants are not names)"""
    if isinstance(x, dict): return {(sub(k, words) if key in ("types", "methods") else k): (v if k in ("s", "file", "syn") else rename_words(v, words, k)) for k, v in x.items()}
    if isinstance(x, list): return [rename_words(v, words, key) for v in x]
    if isinstance(x, str): return sub(x, words)
    return x
def sub(s, words):
    for rx, new in words: s = rx.sub(lambda m: new, s)
    return s
def word(old): return re.compile(r"(?<![\w$])" + re.escape(old) + r"(?!\w)")

def rename_funcs(d, m):
    """m: name in the program -> name of the contracts"""
    def nm(n):
        if n in m: return m[n]
        b, s, r = n.partition("$")
        return m[b] + s + r if s and b in m else n
    def rec(x):
        if isinstance(x, dict):
            if x.get("k") == "func" and "n" in x: x["n"] = nm(x["n"])
            for v in x.values(): rec(v)
        elif isinstance(x, list):
            for v in x: rec(v)
    rec(d["funcs"])
    for f in d["funcs"]: f["name"] = nm(f["name"])
    for t, ms in d["methods"].items():
        for k in ms: ms[k] = nm(ms[k])

def unexported(n):
    n = n.split(".")[-1]
    return not n[:1].isupper()

def align(d, drop=()):
    try:
        with open(NAMES) as f: known = json.load(f)
    except OSError: return d, []
    notes = []
    # types
    have = describe(d)
    gone = [t for t in known["structs"] if t not in have["structs"]]
    new = [t for t in have["structs"] if t not in known["structs"]]
    words = []
    for t in gone:
        shape = lambda fs, me: [(n, word(me).sub("#", ty)) for n, ty in fs]
        c = [n for n in new if shape(have["structs"][n], n) == shape(known["structs"][t], t)]
        if len(c) == 1 and unexported(c[0]) and unexported(t): words.append((word(c[0]), t)); notes.append("the type %s is the contracts' %s" % (c[0], t))
    if words: d = rename_words(d, words); have = describe(d)
    # fields
    for t, fs in known["structs"].items():
        now = have["structs"].get(t)
        if now is None: continue
        names, nn = {n for n, _ in fs}, {n for n, _ in now}
        lost = [(n, ty) for n, ty in fs if n not in nn]
        got = [(n, ty) for n, ty in now if n not in names]
        for n, ty in lost:
            c = [g for g, gty in got if gty == ty]
            l = [m for m, mty in lost if mty == ty]
            if len(c) != len(l) or not c: continue
            g = c[l.index(n)]            # several of one type: in their order
            if not (unexported(g) and unexported(n)): continue
            for x in d["types"][t]["fields"]:
                if x["name"] == g: x["name"] = n
            notes.append("the field %s.%s is the contracts' %s" % (t, g, n))
    # variables
    gone = [g for g in known["globals"] if g not in have["globals"]]
    new = [g for g in have["globals"] if g not in known["globals"]]
    words = []
    for g in gone:
        c = [n for n in new if have["globals"][n] == known["globals"][g]]
        l = [n for n in gone if known["globals"][n] == known["globals"][g]]
        if len(c) == 1 and len(l) == 1: words.append((c[0], g)); notes.append("the variable %s is the contracts' %s" % (c[0], g))
    if words:
        m = dict(words)
        def rec(x):
            if isinstance(x, dict):
                if x.get("k") == "global" and x.get("n") in m: x["n"] = m[x["n"]]
                for v in x.values(): rec(v)
            elif isinstance(x, list):
                for v in x: rec(v)
        rec(d["funcs"])
        for g in d["globals"]: g["name"] = m.get(g["name"], g["name"])
    # functions
    have = describe(d)
    sig = lambda f: ([t for _, t in f["params"]], f["results"], f["free"])
    base = lambda n: "$" not in n
    gone = [n for n in known["funcs"] if n not in have["funcs"] and base(n)]
    new = [n for n in have["funcs"] if n not in known["funcs"] and base(n)]
    pairs = []
    for g in gone:
        for n in new:
            if sig(have["funcs"][n]) == sig(known["funcs"][g]) and unexported(n) and unexported(g):
                pairs.append((difflib.SequenceMatcher(None, [o.replace(n, g) for o in have["funcs"][n]["ops"]], known["funcs"][g]["ops"], autojunk=False).ratio(), g, n))
    pairs.sort(reverse=True)
    m = {}
    for r, g, n in pairs:
        if r < 0.5 or n in m or g in m.values(): continue
        m[n] = g; notes.append("the function %s is the contracts' %s" % (n, g))
    # another signature: another function
    for n, f in known["funcs"].items():
        h = have["funcs"].get(n)
        if h is None or not base(n) or not unexported(n): continue
        perm = [p for p, _ in h["params"]] != [p for p, _ in f["params"]] and sorted(p for p, _ in h["params"]) == sorted(p for p, _ in f["params"])
        if sig(h) != sig(f) or perm or n in drop:
            m[n] = n + "~"; notes.append("%s is proved as part of its callers" % n)
    if m: rename_funcs(d, m)
    return d, notes

def load(drop=()):
    import dump
    return align(dump.dump(), drop)

if __name__ == "__main__":
    import dump
    with open(NAMES, "w") as f: json.dump(describe(dump.dump()), f, indent=0, sort_keys=True)
