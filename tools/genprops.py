#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one place)."""
import json, os
P='pkg/parser/parser.go'; T='pkg/bnf/tablegen/tablegen.go'; B='pkg/bnf/tablegen/byteset/byteset.go'
C='pkg/cst/cst.go'; A='pkg/bnf/ast.go'; S='pkg/bnf/selfgrammar.go'; F='pkg/bnf/fromcst/fromcst.go'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    props.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        "observe_at":list(observe),"hook_needed":None}})

p("C01","Parse accepts a source only if all of it was matched",
  "A Parse call that returns no error has matched every byte of the source, from the first to the last and in order, each against the equal byte of a terminal. Neither a zero byte nor any other byte value stands for the end of the source, and no byte is skipped, matched twice or compared loosely (ignoring case, say).",
  ["inputs","programs"],"every table and every source, including sources holding zero bytes, trailing data and non-ASCII bytes",
  "The tests parse about fifteen short printable sources; whether a byte can be skipped or the end mistaken depends on byte values and positions they never use.",
  [P],[("end of input test","%s: processEOS"%P),("character match","%s: processChar"%P),("reading position","%s: ll1parserScanner"%P)],
  [("offset","position of the next unread byte","%s: ll1parserScanner"%P)],["LL1Parser.Parse"])
p("C02","Every kind of source is parsed byte for byte or refused",
  "Parse works on exactly the bytes of the string, byte slice, *bytes.Buffer (its unread part) or io.Reader (all it delivers) it is given, so equal content parses equally whatever carries it. A nil source, a nil *bytes.Buffer, a value of any other type and an error from the reader make Parse return an error.",
  ["inputs","fault_sequences"],"every source value of every type, and every reader, also one which fails part-way",
  "The tests only pass strings.",
  [P],[("source reading","%s: readSource"%P)],[],["LL1Parser.Parse"])
p("C03","Parse leaves everything it is given unchanged",
  "Parse never changes the table, the productions or the names a parser was made from, the bytes or the unread part of a slice or buffer given as the source, or any state kept from one call to the next; calls on one parser are independent, concurrent ones included. The tree and the naming map it returns are new: changing them does not change the parser.",
  ["histories","schedules","inputs"],"every sequence and interleaving of Parse calls on parsers sharing tables and names",
  "Tests use each parser for a few calls in sequence and never look at its table or names afterwards.",
  [P,C],[("per call state","%s: ll1parser_t.Parse, realParser"%P),("naming map copy","%s: processEOS"%P)],[("table, names","what the parser was made from","%s: ll1parser_t"%P)],["NewLL1Parser","LL1Parser.Parse"])
p("C04","Parse returns either a full result or only an error",
  "When Parse returns an error, the tree and the naming map it returns are nil; when it returns no error, both are non-nil. No failure met while reading or matching the source is turned into a success.",
  ["inputs","fault_sequences"],"every table, source and failing reader",
  "Tests check the error text of four failing inputs and never the other results.",
  [P,"pkg/parser/interface.go"],[("result contract","pkg/parser/interface.go: LL1Parser"),("error returns","%s: parse, processEOS, Parse"%P)],[],["LL1Parser.Parse"])
p("C05","The naming map of a parse holds all names and the built-in ones",
  "The naming map of a successful Parse holds exactly the names the parser was made with, unchanged, plus \"_literal\" for the type of literal nodes and \"_nothing\" for the type of empty nodes. The exported constant BuiltinTerminal is the type literal nodes have.",
  ["inputs","configurations"],"every naming map, also an empty or nil one, and every accepted source",
  "One test compares the map for one grammar.",
  [P],[("naming map","%s: processEOS"%P),("builtin types","%s: builtinNothing, builtinTerminal"%P)],[],["LL1Parser.Parse","parser.BuiltinTerminal"])
p("C06","A node has one child per symbol of its production, in order",
  "In a tree returned by Parse a non-terminal's node has the type of that non-terminal and exactly one child for every symbol of the production used for it, in the order of the production; a non-empty terminal's child is a childless literal node. A node for an empty production has exactly one child, of the \"nothing\" type and childless.",
  ["inputs","programs"],"every table and every accepted source, to any depth",
  "Reference trees cover three small grammars with productions of at most three symbols.",
  [P],[("expansion","%s: processTableNonTerminal, processTerminal"%P),("reduction","%s: processFunction"%P)],
  [("opStack, prodStack","pending operations and finished nodes","%s: realParser"%P)],["cst.Node.Childs","cst.Node.Type"])
p("C07","Node positions are exactly the source range a node matched",
  "The Pos of a node is the reading position when its symbol was started and its End the reading position when it was finished, so a literal node spans exactly the bytes of its terminal, children tile their parent without gap or overlap, and a \"nothing\" node is empty at the place where the empty production was used. Positions are byte offsets into the source counted from 0.",
  ["inputs","programs"],"every table and every accepted source",
  "Reference trees cover three small grammars with one-byte terminals, except for one.",
  [P,C],[("positions","%s: processTableNonTerminal, processTerminal, processFunction, processChar"%P)],[],["cst.Node.Pos","cst.Node.End"])
p("C08","Parsing follows the table and nothing else",
  "Parsing starts with non-terminal 0, and a non-terminal is always expanded by the production the table holds for it and the next byte of the source (the zero byte at the end of the source). When the table has no row for the non-terminal or no cell for that byte Parse returns an error: it never guesses, defaults to the empty production or tries another row or cell. The built-in non-terminal -2 matches \"\\n\" or \"\\r\\n\", and other negative ones are errors.",
  ["inputs","programs"],"every table, complete or not, and every source",
  "Tests look at two missing cells and never at a missing row, a built-in non-terminal or the end of the source.",
  [P],[("prediction","%s: processTableNonTerminal, processBuiltinNonTerminal, parse"%P)],[],["LL1Parser.Parse"])
p("C09","Parse does not panic",
  "For any table whose productions are made of OpTerminal and OpNonTerminal, any naming map (a nil one included) and any source bytes, Parse returns instead of panicking: it never indexes outside the source or a stack, never writes to a nil map, and its internal consistency panics can not be reached.",
  ["inputs","programs"],"every table built of terminals and non-terminals, complete or not, every naming map and source",
  "A panic needs a table or source which breaks an invariant at one site; tests use a handful of well-formed ones.",
  [P],[("operation kinds","%s: parserOpType, parse"%P),("stack discipline","%s: processFunction"%P),("bounds","%s: peek, Pop"%P)],[],["LL1Parser.Parse"])

p("C10","A grammar with a table conflict is always rejected",
  "FromGrammar returns an error whenever two alternatives of one rule claim the same table cell: both start with the same byte, both can be empty, or one can be empty and the other starts with a byte that can follow the rule. No cell of a returned table is ever merged from, or overwritten by, a second alternative.",
  ["programs"],"every grammar, whatever the order of its alternatives",
  "The stable tests only generate tables for grammars without conflicts.",
  [T],[("cell writes","%s: makeTableRow"%T)],[],["tablegen.FromGrammar"])
p("C11","Malformed grammars are rejected with an error",
  "FromGrammar returns an error for a grammar without rules, two rules with the same head, a reference to a non-terminal without rule at any position of any alternative, an alternative without symbols, an empty terminal, a terminal starting with a zero byte, an empty-string symbol that is not alone in its alternative, and a symbol of a foreign type. It does not panic on any of them and does not skip any rule, alternative or symbol when looking for them.",
  ["programs"],"every grammar value, at every rule, alternative and symbol position",
  "Tests contain no malformed grammar.",
  [T],[("grammar check","%s: checkGrammar"%T)],[],["tablegen.FromGrammar"])
p("C12","Alternatives are predicted on exactly the bytes they can start with",
  "In a table returned by FromGrammar a non-empty production stands exactly at the bytes its alternative can start with: the bytes of the symbols from the left, going past a symbol only if it can derive the empty string. An alternative counts as possibly empty only if all its symbols can be.",
  ["programs"],"every grammar, with any nesting and mutual recursion of rules which can be empty",
  "Reference tables cover four grammars; none has two adjacent symbols which can be empty in the middle of an alternative.",
  [T],[("first sets","%s: sequenceFirsts, substitutuionFirsts, ruleFirsts, findFirsts"%T)],[("firsts","bytes each rule can start with","%s: tableGenerator"%T)],["tablegen.FromGrammar"])
p("C13","The empty production is predicted on exactly the bytes that can follow",
  "In a table returned by FromGrammar the cells of a rule that can be empty hold the empty production exactly at the bytes that can follow the rule: whatever the rest of an alternative after an occurrence of the rule can start with, all that follows the containing rule if that rest can be empty, and the end of input for the first rule.",
  ["programs"],"every grammar, at every occurrence of every rule",
  "Reference tables cover four grammars; none has an occurrence followed by several symbols which can be empty.",
  [T],[("follow sets","%s: ruleFollowsInSequence, ruleFollowsInRule, findFollows"%T)],[("follows","bytes which can follow each rule","%s: tableGenerator"%T)],["tablegen.FromGrammar"])
p("C14","First and follow sets are iterated until nothing changes",
  "FromGrammar stops computing first and follow sets only after a full round over all rules that changed no set, so the result does not depend on the order of rules; and every further round is due to a set that grew, so it always stops.",
  ["programs"],"every grammar, whatever the order of its rules and the length of its dependency chains",
  "Reference tables cover four grammars with short dependency chains in a favourable order.",
  [T],[("fixpoints","%s: findFirsts, findFollows and the changed flags below them"%T)],[],["tablegen.FromGrammar"])
p("C15","Table rows, row names and productions agree with the grammar",
  "A table returned by FromGrammar has exactly one row for every rule, keyed by the rule's position, and the naming map gives every position the head of the rule at that position. A production holds one operation per symbol of its alternative in order: the same string for a terminal, the position of the rule with that head for a non-terminal.",
  ["programs"],"every grammar accepted by FromGrammar",
  "Tests compare the map for one grammar and tables for four.",
  [T,P],[("rows and names","%s: makeTable, makeTableRow, enumerate, FromGrammar"%T)],[],["tablegen.FromGrammar"])
p("C16","FromGrammar leaves the grammar unchanged",
  "FromGrammar never changes the rules, alternatives or symbols of the grammar it is given, nor any state kept from one call to the next, and the table and naming map it returns share no memory with the grammar or with an earlier result that could be changed through one of them.",
  ["histories","programs"],"every grammar and every sequence of calls, concurrent ones included",
  "Tests never look at a grammar after the call.",
  [T],[("working sets","%s: tableGenerator, FromGrammar"%T)],[],["tablegen.FromGrammar"])
p("C17","FromGrammar and ToAST return either a full result or only an error",
  "When FromGrammar or ToAST returns an error its other results are nil, and when it returns no error they are all non-nil. No error met on the way is dropped: an unknown escape character or a rule without head or tail makes ToAST fail, and an error of any step of table generation makes FromGrammar fail.",
  ["programs","inputs"],"every grammar, tree and bindings",
  "The stable tests contain no failing call of either.",
  [T,F],[("error returns","%s: Run, FromGrammar; %s: ToAST and the parse functions"%(T,F))],[],["tablegen.FromGrammar","fromcst.ToAST"])

p("C18","Byte sets answer exactly as mathematical sets of bytes",
  "For every byte value: New holds exactly the given bytes, Add adds and Remove removes exactly its argument, Contains tells membership, Union holds exactly the members of both sets, and Equal, IsSubSet and IsSuperSet compare membership over all 256 values. Only Add and Remove change a set, and only the set they are called on: a copy of a set is independent of it.",
  ["inputs"],"all 256 byte values and all pairs of sets",
  "The byte set has no tests of its own; tables in tests use printable bytes.",
  [B],[("bit layout","%s: Add, Remove, Contains, Union, Equal, IsSubSet, IsSuperSet, New"%B)],[("data","one bit per byte value","%s: ByteSet"%B)],["byteset.ByteSet"])
p("C19","Byte sets list each member once, in increasing order",
  "Bytes returns every member of the set exactly once in increasing order and nothing else, Len returns the number of members, and String prints the members as two-digit upper-case hexadecimal numbers separated by single blanks in square brackets, \"[]\" for the empty set.",
  ["inputs"],"all sets of byte values",
  "Tests see lists of a few printable bytes through table generation, and never Len or String.",
  [B],[("bit scan","%s: realBytesF, walkBytes, log2pow2n, popCount"%B),("De Bruijn lookup table","%s: lookupTable"%B)],[],["byteset.ByteSet"])

p("C20","A node gives back what it was made of",
  "Type, Pos, End and Childs of a node made by NewNode return the type, start, end and children given to it.",
  ["inputs"],"all argument values","Only indirectly covered, by printing.",
  [C],[("accessors","%s: NewNode, node"%C)],[],["cst.NewNode","cst.Node"])
p("C21","Walk visits every node once, parents first, children in order",
  "Walk calls Visit on the node it is given, and then, only if Visit returned a non-nil visitor, walks all children of the node from the first to the last with the returned visitor. No node is visited twice or skipped.",
  ["inputs","histories"],"every tree and every visitor","One tree is walked, by a visitor which never prunes.",
  [C],[("traversal","%s: Walk"%C)],[],["cst.Walk"])

p("C22","Printing a grammar prints every part in order",
  "The printed form of a grammar is the printed rules in order, separated by single newlines; that of a rule is its head, \" ::=\" and the alternatives in order, separated by \" |\", every symbol in order preceded by one blank. A non-terminal prints as its name in angle brackets, an empty string as \"\" in double quotes; no rule, alternative or symbol is left out.",
  ["programs"],"every grammar value","No stable test prints a grammar.",
  [A],[("printing","%s: String methods"%A)],[],["Grammar.String","Rule.String","Symbol.String"])
p("C23","Printed terminals read back as the same terminal",
  "The printed form of a terminal escapes backslash, tab, newline and carriage return and the quote it is printed in, with nothing escaped twice; every escape it uses is one the self grammar accepts and the bindings of the self grammar map back to the character it stands for. A terminal printed in single quotes never contains a single quote.",
  ["programs","inputs"],"every terminal of printable ASCII characters, tabs, newlines and carriage returns","No stable test prints or reads back a terminal.",
  [A,S,F],[("escapes","%s: SymbolTerminal.String"%A),("escape grammar","%s: escape-sequence, escaped-char, symbol"%S),("EscapeMapping","%s: SelfCSTtoASTBindings"%F)],[],["SymbolTerminal.String","fromcst.ToAST"])
p("C24","Symbol kinds are told apart",
  "Type of a non-terminal, a terminal and an empty string is TypeNonTerminal, TypeTerminal and TypeNothing respectively, and the three constants are distinct.",
  ["inputs"],"all symbol values","No stable test calls it.",
  [A],[("kinds","%s: Type methods"%A)],[],["Symbol.Type"])
p("C25","The self grammar is well-formed and LL(1)",
  "In the grammar returned by SelfGrammar every referenced non-terminal has exactly one rule, every rule can be reached from the first one and derive a string, no terminal is empty, no two alternatives of a rule compete for the same next byte, and every call returns an equal grammar of its own that no other call can change.",
  ["programs","histories"],"all derivations of the grammar, and any use of an earlier result","A test compares the generated table with a reference; independence of results is not tested.",
  [S],[("self grammar","%s: SelfGrammar"%S)],[],["bnf.SelfGrammar"])
p("C26","The self bindings name the right rules of the self grammar",
  "Each node type in SelfCSTtoASTBindings is the position in SelfGrammar of the rule with that role: the rule holding a whole definition, its head name, its tail, an alternative, a symbol, the texts of both literal forms, a non-terminal's name, an escape sequence and an escaped character; ignored types contain none of these.",
  ["programs","configurations"],"all trees of the self grammar","No stable test converts a tree to a grammar.",
  [F,S],[("bindings","%s: SelfCSTtoASTBindings"%F)],[],["fromcst.SelfCSTtoASTBindings"])

p("C27","ToAST keeps every rule, alternative and symbol, in source order",
  "The grammar returned by ToAST has one rule per rule node, one alternative per alternative node of its tail and one symbol per symbol node of it, all in tree order. A rule takes its head from the first head node and its tail from the first tail node, a literal becomes a terminal with its unescaped text or, if that is empty, an empty-string symbol, and everything else becomes a non-terminal with its exact name.",
  ["programs","inputs"],"every tree and bindings","No stable test converts a tree to a grammar.",
  [F],[("conversion","%s: ToAST, parseRule, parseSubstitution, parseSequence, parseSymbol, parseTerminalName, parseEscape"%F)],[],["fromcst.ToAST"])
p("C28","ToAST leaves its bindings and tree unchanged",
  "ToAST never changes the bindings it is called on, including the order of the ignored types and the escape mapping, the tree it is given, or any state kept from one call to the next, so bindings can be shared by concurrent conversions.",
  ["histories","schedules"],"every sequence and interleaving of conversions sharing bindings or trees","No stable test converts a tree to a grammar.",
  [F],[("sorting a copy","%s: ToAST"%F)],[],["fromcst.ToAST"])
p("C29","ToAST depends on node types only through its bindings",
  "Which nodes ToAST treats as rules, heads, tails, alternatives, symbols, literals, names and escapes is decided only by comparing their types with the bindings, and literal nodes by parser.BuiltinTerminal: a grammar numbered differently converts the same with bindings numbered accordingly. Nodes of ignored types, with all below them, are never taken for rules, heads, tails, alternatives, symbols, literals, names or escaped characters.",
  ["configurations","programs"],"every bindings value","There is one bindings value in the repository and no stable test uses it.",
  [F],[("type tests","%s: lrTraverse, parseTerminalName"%F)],[],["fromcst.ToAST"])
p("C30","The library has no side effects of its own",
  "No exported function of the library packages writes to standard output or error, touches files, network or environment, ends the process, starts goroutines, reads time or randomness, or changes package-level state, on any path, error paths included.",
  ["inputs","programs","histories"],"every call of every exported function","Tests look at results only, and pass when a path they do not run prints.",
  [P,T,B,C,A,S,F],[("whole library","pkg/...")],[],["pkg/..."])
p("C31","Results are a function of the inputs",
  "Equal calls of the library give equal results: nothing that is returned (tables, names, trees, grammars, printed text and errors included) depends on the iteration order of a map, on addresses or on earlier calls.",
  ["inputs","histories"],"every call of every exported function and every map iteration order","Order dependence shows up at random and only with several map entries of the right kind.",
  [T,P,B,A,F],[("map iterations","%s: FromGrammar; %s: processEOS"%(T,P))],[],["pkg/..."])
p("C32","Op constructors keep their arguments and lists are copied",
  "A production list made by NewParserOpList holds exactly the given operations in order in memory of its own, so that changing the arguments afterwards does not change it. OpTerminal matches exactly the given string, byte by byte, and OpNonTerminal expands exactly the given non-terminal.",
  ["inputs","programs"],"all argument lists, strings and numbers","NewParserOpList is not used by a test.",
  [P],[("constructors","%s: NewParserOpList, OpTerminal, OpNonTerminal"%P)],[],["parser.NewParserOpList","parser.OpTerminal","parser.OpNonTerminal"])
p("C33","The JSON example's grammar is LL(1) and agrees with its visitor",
  "The grammar in the JSON example is well-formed and LL(1), and its visitor prints the text of the key at exactly the key-value nodes, goes on below every node that can contain a key-value, and counts one level more below exactly the objects and arrays.",
  ["programs","inputs"],"all derivations of the example grammar and every tree of it","No test reads the example.",
  ["examples/json/json.bnf","examples/json/main.go"],[("example grammar","examples/json/json.bnf"),("visitor","examples/json/main.go: keyPrintingVisitor.Visit")],[],["examples/json"])
p("C34","A generated parser accepts exactly the language of its grammar",
  "For every grammar FromGrammar accepts, the parser made from its table accepts a source if and only if the grammar derives it.",
  ["programs","inputs"],"all LL(1) grammars and all sources","Tests sample a few sentences of four grammars.",
  [T,P],[("table generation and parsing","%s, %s"%(T,P))],[],["tablegen.FromGrammar","LL1Parser.Parse"])
p("C35","Parse terminates for every generated table",
  "For every table returned by FromGrammar and every finite source Parse returns after finitely many steps.",
  ["programs","inputs"],"all generated tables and all sources","Tests run a few sources of four grammars.",
  [T,P],[("prediction and expansion","%s: parse"%P)],[],["LL1Parser.Parse"])
p("C36","Printing and parsing a grammar give back the same grammar",
  "Printing a grammar, parsing the text with the parser of the self grammar and converting the tree gives a grammar equal to the first, if all rule names and terminals can be written in the self grammar.",
  ["programs"],"all grammars with representable names and terminals","One example program does this for one grammar.",
  [A,S,F,P,T],[("round trip","examples/parseownsyntax/main.go")],[],["Grammar.String","fromcst.ToAST"])
p("C37","The self-parsing example succeeds exactly when the grammars are equal",
  "The self-parsing example ends with status 0 exactly when building the table of the self grammar, parsing that grammar's printed form with it and converting the tree back all succeed and the grammar obtained equals the self grammar: the same rules in the same order, with equal heads and, position by position, alternatives of the same symbols by kind and name. Otherwise it ends with another status.",
  ["programs","fault_sequences"],"every grammar the library steps can return and every step that can fail","No test runs the example, and on the right library it takes a single path.",
  ["examples/parseownsyntax/main.go"],[("comparison of the grammars","examples/parseownsyntax/main.go"),("library steps","examples/parseownsyntax/main.go: main")],[],["examples/parseownsyntax"])
p("C38","ToAST does not panic",
  "For every bindings value and every non-nil tree whose nodes lie within the text, as Parse returns them for that text, ToAST returns normally, with a grammar or an error.",
  ["inputs","configurations"],"every bindings value and every such tree, of any shape","The tests convert a handful of well-shaped trees with the bindings of the self grammar.",
  [F],[("search of the ignored types","%s: lrTraverse"%F),("names and escapes","%s: nodeName, parseEscape"%F)],[],["fromcst.ToAST"])
p("C39","The JSON example stops at the first failing step",
  "The JSON example ends with a non-zero status exactly when reading one of its two files, building a table, parsing or converting fails. Otherwise it has walked, with a visitor that holds the JSON text, the tree which a parser made from the grammar in its BNF file gave for that text.",
  ["programs","fault_sequences"],"every step that can fail and every result the steps can return","No test runs the example.",
  ["examples/json/main.go"],[("steps","examples/json/main.go: main, fatalError")],[],["examples/json"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in props:
    assert len(x["title"])<=80,x["title"]
print(len(props))
