"""The proof units: what is proved, by which function, and which properties it serves."""
import time, os, sys
from sx import *
from base import *
import lex, parse, decl, printer, printc, walk, state, cwrap

class Unit:
    def __init__(self, name, serves, run, kind="contract", optional=False, weight=1, engine="lex", fn=None):
        self.name, self.serves, self.run, self.kind, self.optional, self.weight, self.engine = name, set(serves), run, kind, optional, weight, engine
        self.fn = fn or name

def new_engine(w, kind="lex"):
    if kind == "none": return Engine(w, stdlib=STD)
    if kind == "print": return printc.make_engine(w)
    if kind == "walk": return walk.make_engine(w)
    E = (parse.ParseEngine if kind == "parse" else Engine)(w, stdlib=STD); E.env = {}
    E.unfolders = lex.low_unfolders(E)
    if kind == "parse":
        E.unfolders.update(decl.unfolders(E))
        E.wf = printer.WF(E); E.unfolders.update(E.wf.unfolders(heap=False))
    run_init(E)
    E.contracts = {c.name: c for c in lex.lexer_contracts() if c.name in w.funcs}
    if kind == "parse": E.contracts.update({c.name: c for c in decl.decl_contracts() if c.name in w.funcs})
    return E

LEX = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C17", "C19")
SERVES = {
    "(*Token).skipSpace": ("C02", "C05", "C19", "C17"), "(*Token).skipComment": ("C02", "C05", "C19", "C17"), "(*Token).skipRegions": ("C02", "C05", "C19", "C17"),
    "(*Token).scanIdentifier": ("C01", "C02", "C03", "C19"), "(*Token).scanNumber": ("C02", "C03", "C04", "C19"), "(*Token).scanString": ("C02", "C03", "C04", "C19"),
    "extractDigits": ("C04", "C02", "C19"), "fastToLower": ("C01", "C18", "C02", "C19"), "(*Token).next": ("C01", "C02", "C03", "C04", "C05", "C07", "C17", "C19"),
    "(*Token).Next": ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C17", "C19"), "(*Token).GetPosition": ("C06", "C17", "C19"), "(*AstNode).Error": ("C06", "C07", "C17", "C19"),
    "(*AstNode).Lex": ("C02", "C03", "C06", "C07", "C17", "C19"),
}
# functions whose absence is an error (the others are helpers: when one is gone its callers are proved with what replaced it)
API = {"(*Token).Next", "(*Token).GetPosition", "(*AstNode).Error", "(*AstNode).Lex", "(*AstNode).Parse", "NewAST", "(*AstNode).SrsCode", "(*ModuleStatement).Append", "(*AstNode).Print", "(*AstNode).PrintStatement", "(*AstNode).PrintStatementWithConf", "(*ModuleStatement).Walk", "StatementWalk"}
WEIGHT = {"(*Token).scanString": 50, "(*Token).next": 30, "(*Token).skipSpace": 4, "(*Token).skipRegions": 4, "(*Token).skipComment": 3, "(*Token).scanNumber": 3}

PRINTS = {
    "expr": ("C13", "C14", "C15", "C17", "C19"), "other": ("C13", "C14", "C15", "C17", "C19"),
}

def units():
    out = []
    def lemmas(E):
        lex.check_tables(E)
        lex.prove_lemmas(E, ("C02",))
        return E.obls
    out.append(Unit("lemmas and tables of the reader", ("C01", "C02"), lemmas, kind="lemma"))
    for c in lex.lexer_contracts():
        def run(E, c=c):
            return prove(E, c)[0]
        out.append(Unit(c.name, SERVES[c.name], run, optional=c.name not in API, weight=WEIGHT.get(c.name, 1)))
    PS = ("C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C17", "C19")
    WS = parse.WFPROPS
    out.append(Unit("the tables of the parser", ("C08", "C11"), lambda E: parse.unit_tables(E), kind="table", engine="parse"))
    M = 7
    for k in range(M):
        out.append(Unit("the parser's stack machine %d/%d" % (k + 1, M), PS, lambda E, k=k: parse.unit_machine(E, k, M), weight=40, engine="parse"))
    for k in range(parse.NGROUPS):
        out.append(Unit("the parser's actions %d/%d" % (k + 1, parse.NGROUPS), PS + WS, lambda E, k=k: parse.unit_reduce(E, k, parse.NGROUPS), weight=20, engine="parse"))
    DS = {"appendVarStatements": ("C09", "C17", "C19"), "(*ModuleStatement).Append": ("C09", "C10", "C17", "C19"), "unaryMinus": ("C12", "C17", "C19"), "not": ("C12", "C17", "C19"),
        "(*AstNode).Parse": ("C07", "C17", "C19"), "NewAST": ("C07", "C17", "C19"), "(*AstNode).SrsCode": ("C17", "C19")}
    for c in decl.decl_contracts():
        def run(E, c=c): return prove(E, c)[0]
        out.append(Unit(c.name, DS[c.name] + (WS if c.name in ("(*ModuleStatement).Append", "unaryMinus", "not", "(*AstNode).Parse") else ()), run, optional=c.name not in API, engine="parse"))
    for c in printc.print_contracts():
        short = c.name.split(".")[-1].strip(")")
        if short == "printExpression":
            for k, part in enumerate(c.PARTS):
                def run(E, part=part): return prove(E, printc.ExprC(part))[0]
                out.append(Unit("%s %d/%d" % (c.name, k + 1, len(c.PARTS)), PRINTS["expr"], run, optional=True, weight=(1, 45, 45, 20, 45, 45, 20)[k], engine="print", fn=c.name))
            continue
        def run(E, c=c): return prove(E, c)[0]
        out.append(Unit(c.name, PRINTS[short if short in PRINTS else "other"], run, optional=c.name not in API, weight={"printBodyItem": 22, "printVarStatement": 15, "printFunctionOrProcedure": 15}.get(short, 2), engine="print"))
    out.append(Unit("package state", ("C17",), lambda E: state.unit_state(E), kind="frame", engine="none"))
    for k, fn in enumerate(("walkHelper", "StatementWalk", "(*ModuleStatement).Walk")):
        def run(E, k=k):
            c = walk.walk_contracts(E.w)[k]
            return prove(E, c)[0] if k or c.name in E.w.funcs else []      # without a helper the callers are proved with what replaced it
        out.append(Unit(fn, ("C16", "C17", "C19"), run, engine="walk", weight=5 if k == 0 else 1))
    out.append(Unit("fastToLower (C)", ("C18",), lambda E: cwrap.unit_c(E), engine="none", weight=5))
    out.append(Unit("FastToLower (wrapper of the C routine)", ("C18",), lambda E: cwrap.unit_wrapper(E), engine="none"))
    return out

ASSUME_LEX = [
    "strconv.ParseFloat, time.Parse, unicode.IsLetter, utf8.DecodeRuneInString, strings.Count/LastIndex/TrimSpace, fmt.Errorf/Sprintf, errors.Wrap: assumed contracts (uninterpreted results; UTF-8 decoding by its definition)",
    "texts are shorter than 2^62 bytes; int is 64 bits and overflow is checked where it could matter; memory is not exhausted",
    "the SSA form built by golang.org/x/tools/go/ssa from /repo's sources is what the Go compiler runs; z3 4.x answers unsat only for unsatisfiable formulas",
    "a single character above U+00FF is neither a number nor a date (used where a rejected character's code coincides with a token constant)",
]
PARSER = [
    "the goyacc tables yyR1/yyR2 and the numbering of the semantic actions belong together (checked against the grammar reconstructed from grammar.y and from the tables, see the table unit)",
    "trees are finite (each node is older than the node that refers to it)",
]
PRINTER = [
    "strconv.FormatFloat(x,'f',-1,64) and ParseFloat, Time.Format and time.Parse with the same layout are inverse on the values the parser makes",
    "what is printed is read by the language's grammar (the reader of the specification), whose agreement with the parser is C11 and with the lexer C02-C05",
    "PrintConf.Margin is not negative",
    "trees are finite (a rank decreases from a node to its parts)",
]
ASSUME = {
    "C06": ["Error's message text is fmt.Sprintf of its arguments"],
    "C08": PARSER, "C09": PARSER, "C10": PARSER, "C11": PARSER, "C12": PARSER,
    "C13": PRINTER, "C14": PRINTER, "C15": PRINTER,
    "C16": ["the callback does not restructure the tree", "trees are finite"],
    "C17": ["the standard library functions called are safe for concurrent use with distinct arguments", "the race detector search beside the proof is bounded and counts for nothing but failing inputs"],
    "C18": [
        "cgo's C.CString returns a fresh buffer of len+1 bytes holding the text and a zero byte; C.free frees it; unsafe.Slice and the conversion to a string read exactly the bytes asked for",
        "the C compiler of the build and clang 18 agree on C that is free of undefined operations (those clang can trap - signed overflow, shifts, division - are proved unreachable; accesses are byte-wise or through memcpy)",
        "texts are shorter than 2^62 bytes; LLVM's inliner and promotion of locals to registers keep the meaning",
    ],
    "C19": PARSER + ["PrintConf.Margin is not negative", "the stack of the Go run time is deep enough for the nesting of the tree", "callbacks given to Walk do not panic"],
}
