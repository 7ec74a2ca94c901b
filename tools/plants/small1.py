C='pkg/cst/cst.go'; A='pkg/bnf/ast.go'; P='pkg/parser/parser.go'
PLANTS=[]
def add(id,prop,needs,breaks,edits,imports,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imports+['testing'])))+')\n\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
M='github.com/TooManySugar/ll1parser/pkg/'
add('q01-node-clamp','C20','a node made with an end before its start','End is not the end given',
 [(C,"	return node {\n","	if end < start {\n		end = start\n	}\n	return node {\n")],[M+'cst'],
'''func TestDemo(t *testing.T) {
	n := cst.NewNode(3, 7, 2, nil)
	if n.Type() != 3 || n.Pos() != 7 || n.End() != 2 {
		t.Fatal(n.Type(), n.Pos(), n.End())
	}
}
''')
add('q02-node-childs-nonneg','C20','a node of a negative type with children','Childs of a node of a built-in type is always nil',
 [(C,"	return n.childs\n","	if n.typei < 0 {\n		return nil\n	}\n	return n.childs\n")],[M+'cst'],
'''func TestDemo(t *testing.T) {
	c := cst.NewNode(1, 0, 0, nil)
	n := cst.NewNode(-5, 0, 0, []cst.Node{c})
	if len(n.Childs()) != 1 {
		t.Fatal("children lost")
	}
}
''')
add('q03-walk-empty','C21','a node of a negative type with children','children of a node of a built-in type are not visited',
 [(C,"	for _, child := range node.Childs() {\n","	if node.Type() < -1 {\n		return\n	}\n	for _, child := range node.Childs() {\n")],[M+'cst'],
'''type cnt struct{ n *int }

func (c cnt) Visit(cst.Node) cst.Visitor { *c.n++; return c }

func TestDemo(t *testing.T) {
	c := cst.NewNode(-2, 3, 3, nil)
	n := cst.NewNode(-3, 3, 3, []cst.Node{c, c})
	k := 0
	cst.Walk(cnt{&k}, n)
	if k != 3 {
		t.Fatal(k)
	}
}
''')
add('q04-walk-visitor','C21','a visitor that returns another visitor','nodes of built-in types are walked with the visitor of their parent',
 [(C,"		Walk(w, child)\n","		if child.Type() < -1 {\n			Walk(v, child)\n			continue\n		}\n		Walk(w, child)\n")],[M+'cst'],
'''type dep struct {
	d   int
	max *int
}

func (c dep) Visit(cst.Node) cst.Visitor {
	if c.d > *c.max {
		*c.max = c.d
	}
	return dep{c.d + 1, c.max}
}

func TestDemo(t *testing.T) {
	n := cst.NewNode(-2, 0, 0, nil)
	for i := 0; i < 3; i++ {
		n = cst.NewNode(1, 0, 0, []cst.Node{n})
	}
	k := 0
	cst.Walk(dep{0, &k}, n)
	if k != 3 {
		t.Fatal(k)
	}
}
''')
add('q05-rule-empty-alt','C22','a rule whose first alternative has no symbols','the bar before the second alternative is left out',
 [(A,"		if i > 0 {\n			sb.WriteString(\" |\")","		if i > 0 && len(r.Tail.Sequences[i-1].Symbols) > 0 {\n			sb.WriteString(\" |\")")],[M+'bnf'],
'''func TestDemo(t *testing.T) {
	r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: "a"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{}, {Symbols: []bnf.Symbol{bnf.SymbolNonTerminal{Name: "b"}}}}}}
	if s := r.String(); s != "<a> ::= | <b>" {
		t.Fatalf("%q", s)
	}
}
''')
add('q06-grammar-last','C22','a grammar with more than one rule, two of them equal and adjacent','equal neighbouring rules are printed once',
 [(A,"		sb.WriteByte('\\n')\n		sb.WriteString(g.Rules[i].String())\n","		line := g.Rules[i].String()\n		if line == g.Rules[i-1].String() {\n			continue\n		}\n		sb.WriteByte('\\n')\n		sb.WriteString(line)\n")],[M+'bnf'],
'''func TestDemo(t *testing.T) {
	r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: "a"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{bnf.SymbolNothing{}}}}}}
	g := bnf.Grammar{Rules: []bnf.Rule{r, r}}
	if s := g.String(); s != "<a> ::= \\"\\"\\n<a> ::= \\"\\"" {
		t.Fatalf("%q", s)
	}
}
''')
add('q07-type-nothing','C24','Type of an empty string symbol','Type of an empty string is that of a terminal',
 [(A,"func (n SymbolNothing) Type() int {\n	return TypeNothing","func (n SymbolNothing) Type() int {\n	return SymbolTerminal{}.Type()")],[M+'bnf'],
'''func TestDemo(t *testing.T) {
	if (bnf.SymbolNothing{}).Type() != bnf.TypeNothing {
		t.Fatal("type")
	}
}
''')
add('q08-oplist-alias','C32','changing the arguments after making the list','the list shares memory with the arguments',
 [(P,"	return append([]ParserOp{}, parserOps...)","	return parserOps[:len(parserOps):len(parserOps)]")],[M+'parser'],
'''func TestDemo(t *testing.T) {
	a := []parser.ParserOp{parser.OpTerminal("a"), parser.OpTerminal("b")}
	l := parser.NewParserOpList(a...)
	a[0] = parser.OpTerminal("x")
	p := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {'a': l}}, map[int]string{0: "S"})
	if _, _, err := p.Parse("ab"); err != nil {
		t.Fatal(err)
	}
}
''')
add('q09-terminal-utf8','C32','a terminal that is not valid UTF-8','OpTerminal changes bytes that are not valid UTF-8',
 [(P,"func OpTerminal(s string) ParserOp {\n","func OpTerminal(s string) ParserOp {\n	s = string([]rune(s))\n")],[M+'parser'],
'''func TestDemo(t *testing.T) {
	l := parser.NewParserOpList(parser.OpTerminal("a\\xff"))
	p := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {'a': l}}, map[int]string{0: "S"})
	if _, _, err := p.Parse("a\\xff"); err != nil {
		t.Fatal(err)
	}
}
''')
add('q10-oplist-merge','C32','a list of two adjacent terminals','adjacent terminals are merged into one operation',
 [(P,"	return append([]ParserOp{}, parserOps...)","	res := []ParserOp{}\n	for _, op := range parserOps {\n		if t, ok := op.(terminal_t); ok && len(res) > 0 {\n			if u, ok := res[len(res)-1].(terminal_t); ok && len(u.value) > 2 {\n				res[len(res)-1] = terminal_t{u.value + t.value}\n				continue\n			}\n		}\n		res = append(res, op)\n	}\n	return res")],[M+'parser'],
'''func TestDemo(t *testing.T) {
	l := parser.NewParserOpList(parser.OpTerminal("abc"), parser.OpTerminal("d"))
	if len(l) != 2 {
		t.Fatal(len(l))
	}
}
''')
