# regenerates properties.jsonl (kept as a script so that the list is reviewable)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
T="ast/tokens.go";A="ast/ast.go";S="ast/ast_struct.go";G="ast/y.go";PR="ast/ast_print.go"

p("C01","Keywords and directives are recognised in any letter case",
"A word of the source is a keyword exactly when its letters, with A-Z, А-Я and Ё lowered and nothing else changed, spell one of the language's reserved words; otherwise, and always when it directly follows a dot, it is an identifier. A compiler directive after & is recognised by the same case-insensitive rule. The spelling the author used is what the token, and every name in the tree, carries.",
["inputs"],"every source text, every word in it and every mix of upper and lower case letters, including words with digits, underscores, Ё and non-Russian letters",
"The tests lower a few fixed words; the lowering works byte by byte inside two-byte letters, so a wrong branch affects only particular letters (П/Р boundary, Ё) in particular keywords, and no test spells each of the 35 keywords in each case.",
[T],[("table of reserved words and directives",T+" tokens, directives"),("lowering of identifiers",T+" fastToLower"),("dot suppresses keywords",T+" next")],
[("prevDot","the previous token was a dot",T)],["NewAST(code).Parse","token stream"])

p("C02","The lexer is total: in bounds, terminating, always moving forward",
"For any byte string, valid UTF-8 or not, reading tokens one after another never indexes outside the text and never panics, the read position never moves back from one token to the next, and every call that does not report end of text or an error consumes at least one byte, so reading all tokens ends. Whitespace, comment and region skipping and the scanning of literals all terminate.",
["inputs"],"every byte string as source text and every reachable read position",
"Tests feed well-formed snippets; unterminated strings, lone quotes, truncated UTF-8 and comment/region nesting at end of text are unbounded in number and only an argument over all positions covers them.",
[T],[("cursor arithmetic",T+" currentLet, nextLet, nextPos"),("skipping loops",T+" skipSpace, skipComment, skipRegions"),("scanning loops",T+" scanIdentifier, scanString, scanNumber")],
[("offset","byte position of the reader, 0 <= offset <= len(text), on a rune start",T)],["Token.Next","Parse"])

p("C03","Every character sequence gets the right token class",
"After blanks and comments, the next token is decided by the next characters: a letter or underscore starts a word, a digit a number, a double quote a string, an apostrophe a date, a tilde a label; <=, >= and <> are single operators and are taken in preference to < and >; the punctuation marks and operators of the language stand for themselves, and any other character is an error. A word extends over all following letters, digits and underscores, a number over all following digits and dots, and a letter right after a number is an error.",
["inputs"],"every source text and every read position, all Unicode characters",
"Tests sample a handful of operator and literal combinations; the dispatch is over all characters and their successor.",
[T],[("dispatch on the current character",T+" next"),("operator look-ahead",T+" nextLet"),("scanners",T+" scanIdentifier, scanNumber")],[],["Token.Next","Parse"])

p("C04","Literals keep their content",
"A string literal's value is exactly the characters between its quotes, with doubled quotes kept, continuation lines joined by a line break and the bar, and directly adjacent literals concatenated; unterminated strings are errors. A number's value is the decimal number written, a date's value is the moment its digits spell (all zeros is the empty date; other characters are ignored; digits that form no date are an error), and Истина, Ложь are true and false.",
["inputs"],"every string, number, date and boolean literal in every source text",
"Content of literals is unbounded; tests contain a few fixed strings, two date shapes and small numbers.",
[T],[("string scanning",T+" scanString"),("digit extraction for dates",T+" extractDigits"),("values of tokens",T+" Next")],[],["values in the tree","Token.Next"])

p("C05","Blanks, comments and preprocessor lines never produce or swallow a token",
"Between tokens, any run of blanks and line breaks, // comments up to the end of their line and lines starting with # is skipped completely and nothing else is: the next token starts at the first character after that run. Adding or removing such text between two tokens changes neither the tokens nor the tree.",
["inputs"],"every run of blanks, comments and # lines, in any order and number, at every position between tokens, including end of text",
"The mutual recursion over comments and regions has unboundedly many orders; tests try a few.",
[T],[("skipping",T+" skipSpace, skipComment, skipRegions"),("skipping before each token",T+" next")],[],["Token.Next","Parse"])

p("C06","Diagnostics name the right line, column and word",
"The position reported for a read offset is the number of line breaks before it plus one and the number of characters since the last line break plus one. A diagnostic carries the message, the line and column where its offending word starts (the reader's position less the length of the word and one) and the word as written.",
["inputs"],"every source text and every read position, including multi-byte characters and offsets at line ends",
"Tests compare a few fixed messages; column counting by characters rather than bytes over arbitrary text and line structure is not sampled.",
[T,A],[("position of an offset",T+" GetPosition"),("building of the diagnostic",A+" Error")],[],["error returned by Parse"])

p("C07","No error is lost: success means the whole text was accepted",
"If the reader rejects any character sequence, the grammar rejects the token sequence, or a semantic rule reports a problem anywhere in the text, parsing returns an error, no matter what follows. Conversely parsing returns no error only if the whole text was read and reduced to one module.",
["inputs"],"every source text, every position of a lexical, syntactic or semantic error and everything that can follow it",
"A lost error needs one error followed by arbitrary accepted text; tests have one error per case.",
[A,G],[("recording errors",A+" Lex, Error, Parse"),("giving up and accepting",G+" yyParserImpl.Parse")],[("err","first or latest problem; never reset",A)],["error returned by Parse"])

p("C08","Break, continue, bare throw and return value only where allowed",
"Прервать and Продолжить are accepted exactly inside the body of a loop, ВызватьИсключение without an argument exactly inside an exception handler, and Возврат with a value exactly inside a function; anywhere else parsing returns an error. This holds for every nesting and sequence of loops, handlers, procedures and functions, in particular after such a construct has ended.",
["inputs"],"every program: all nestings and sequences of loops (each of the three kinds), try blocks and method bodies around the statement",
"Context is kept in counters switched on and off by parser actions; a missed switch shows only in particular sequences (this one was found: the while loop never switched its context off).",
[A,G],[("context checks",A+" checkLoopOperator, checkThrowParam, checkReturnParam"),("context switches",A+" setLoopFlag, setTryFlag, isFunction; "+G+" actions")],
[("isLoop/isTry/isFunction","open loops, open handlers, inside a function",A)],["error returned by Parse"])

p("C09","Module and declaration rules are enforced",
"Module variables must precede everything else, methods must precede module statements, and declaring a module variable or a local variable of one method twice is an error. Everything accepted is in the module: all variables with their directive and export mark, and all methods and statements in source order.",
["inputs"],"every module: any number and order of variable declarations, methods and statements, and any list of names in a declaration",
"The rules relate arbitrarily distant declarations; tests check single pairs.",
[S,A,G],[("adding to the module",S+" Append"),("local variables",A+" appendVarStatements"),("declaration actions",G)],[],["Parse","ModuleStatement"])

p("C10","The tree holds every construct's parts in the right place, once, in order",
"Each construct of the source becomes one node whose parts are exactly the source's parts in their roles: condition, branches in source order, loop header and body, handler, name, parameters with their by-value mark and default, directive and export mark, arguments in order with empty ones kept, member and index owner. No part is lost, duplicated, swapped or taken from another construct, and lists of any length keep their order.",
["inputs"],"every accepted program; every production of the grammar with every possible value of its parts and any earlier parse history",
"Parser actions read values from reused stack slots; a wrong slot or stale value shows only in particular combinations of optional parts (two were found: reversed else-if branches and statements leaking from an earlier body).",
[G,A,S],[("semantic actions",G+" reduce actions"),("method nodes",A+" createFunctionOrProcedure"),("parameters",S+" Fill, DefaultValue")],[("value stack","values of the symbols being assembled",G)],["ModuleStatement","JSON"])

p("C11","The parser accepts the grammar with the language's operator precedence",
"The token sequences accepted are exactly those of the published grammar, and the grouping of an expression follows one precedence table: ИЛИ loosest, then И, then НЕ, then the comparisons = <> < <= > >=, then + and -, then * / %, then the signs; operators of one level group from the left. The parser's stack machine never reads outside its tables or stack, whatever the nesting depth.",
["inputs"],"every token sequence and every nesting depth, every pair of operators",
"Precedence lives in numeric tables generated from the grammar; tests cover a few operator pairs (a wrong relative level of comparisons and negation was found) and no nesting that grows the stack.",
["ast/grammar.y",G],[("precedence declarations","ast/grammar.y"),("tables and driver",G+" yyAct.. , yyParserImpl.Parse")],[],["Parse","ModuleStatement"])

p("C12","A sign or negation applies to exactly its operand and is never lost",
"In the tree, unary minus and НЕ before any operand - literal, name, call, member chain, index, constructor, conditional, parenthesised list or another signed or negated operand - are recorded on that operand and on nothing else, and literals of numbers and booleans are folded to the value with the sign or negation applied. Unary plus changes nothing.",
["inputs"],"every kind of operand and any number and order of repeated signs and negations",
"Tests put a minus before a few operand kinds; the operand kinds times repetitions are not covered (several were lost).",
[A,S,G],[("applying modifiers",A+" unaryMinus, not"),("per node",S+" UnaryMinus, Not methods")],[],["ModuleStatement","Print"])

p("C13","Printing keeps the meaning of expressions",
"The text printed for an expression denotes the same expression: every operand, operator, argument, sign, negation and literal value appears once, in order, and the parentheses printed make it group as the tree does. Hence parsing the printed text gives the same tree up to redundant parentheses.",
["inputs"],"every expression tree the parser can build (outside labels used as values), at every depth",
"Parenthesisation depends on the pair of parent and child node kinds and on flags at any depth; tests print a few expressions and compare fixed text.",
[PR,S],[("expression printing",PR+" printExpression, printOperand, printVarStatement, printParams, printCallChainStatement"),("operator spelling",S+" OperationType.String")],[],["Print","PrintStatement"])

p("C14","Printing keeps statements, branches, declarations and methods",
"The printed module contains, in order, every statement and every branch of the tree, each wrapped in its own keywords, and every declaration with its directive, by-value mark, default value and export mark. Hence parsing the printed text gives the same module.",
["inputs"],"every module tree the parser can build, any nesting depth, any list length, both layouts",
"Tests compare fixed output for a few modules; the printing functions recurse over arbitrary trees.",
[PR],[("statement printing",PR+" printBodyItem, printBody, printIfStatement, printLoopStatement, printTryStatement, printGoTo"),("declaration printing",PR+" print, printGlobalVariables, printFunctionOrProcedure")],[],["Print","PrintStatement"])

p("C15","Layout options change only blanks; printing is repeatable",
"Printing is a function of the tree and the options: the same tree and options always give the same text and the tree is not changed. The margin option only changes the number of blanks at line starts (margin times nesting depth), and the one-line option only removes line breaks, so the words printed are the same under all options.",
["inputs","configurations"],"every tree, every margin and both one-line settings, repeated calls",
"Output order of variables came from map iteration, which a test observes only by chance; options are tested on single examples.",
[PR],[("layout",PR+" newLine, printBodyItem"),("order of variables",PR+" print, printFunctionOrProcedure")],[],["Print","PrintStatementWithConf"])

p("C16","Walking visits every statement of every nested block exactly once",
"Walking a module calls the callback exactly once for every statement in every method body, branch, loop body, try body and handler (and operand positions it descends into), children before their parent and blocks in a fixed order, passing the method that contains the statement - none for module statements - the enclosing node and the place that holds the statement.",
["inputs"],"every tree, any nesting depth and block length, any callback that does not restructure the tree",
"Tests walk one or two trees; a skipped block kind or stale enclosing method shows only for particular shapes (the latter was found).",
[S],[("traversal",S+" walkHelper, StatementWalk, Walk")],[],["Walk","StatementWalk"])

p("C17","Parsers and printers are independent of each other",
"Parsing, printing and walking read and write only their own parser, tree and arguments: no package-level state is written after program start, so results do not depend on earlier or concurrent uses of other parsers, and concurrent parsers do not race.",
["schedules","histories"],"every sequence and interleaving of uses of distinct parsers",
"Tests run one parser at a time and cannot enumerate interleavings or histories.",
[A,T,S,PR,G],[("no writes to package variables","all functions of package ast"),("per-parser state",A+" AstNode; "+G+" yyNewParser")],[],["Parse","Print","Walk"])

p("C18","The C lowering routine equals the Go rule on every byte string",
"For every byte string the exported C-backed lowering returns the text with A-Z, А-Я and Ё lowered and every other byte unchanged, of the same length, reading and writing only inside its buffer.",
["inputs"],"every byte string of every length, valid UTF-8 or not",
"It has no tests at all; memory errors need truncated or unusual byte sequences.",
["ast/fast_tolower/gowrap.go"],[("lowering loop","ast/fast_tolower/gowrap.go fastToLower (C)"),("wrapper","ast/fast_tolower/gowrap.go FastToLower")],[],["FastToLower"])

p("C19","Parsing, printing and walking never panic",
"For any source text parsing returns - a tree or an error - without panicking, and for any tree parsing built (also when it returned an error) printing and walking return without panicking: no nil dereference, no failed type assertion, no write to a missing map, no index out of range.",
["inputs"],"every source text; every tree built from it; every print configuration with a non-negative margin",
"A panic needs one particular combination, such as a duplicate declaration followed by another declaration (found: write to a nil map).",
[A,S,PR,G,T],[("semantic actions and helpers",G+", "+A+", "+S),("printing",PR)],[],["Parse","Print","Walk"])

p("C20","The JSON form contains every field of the tree",
"Serialising a parsed module gives JSON from which every exported field of every node can be read back with the same value.",
["inputs"],"every tree",
"Tests compare a few documents.",
[A,S],[("serialisation",A+" JSON")],[],["JSON"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: 
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
