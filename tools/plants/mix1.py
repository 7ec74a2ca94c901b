C='pkg/cst/cst.go'; A='pkg/bnf/ast.go'; P='pkg/parser/parser.go'; F='pkg/bnf/fromcst/fromcst.go'
PLANTS=[]
M='github.com/TooManySugar/ll1parser/pkg/'
def add(id,prop,needs,breaks,edits,imports,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imports+['testing'])))+')\n\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
RT='''func roundTrip(t *testing.T, name string) {
	g := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "a"}, Tail: bnf.Substitution{Sequences: []bnf.Sequence{{Symbols: []bnf.Symbol{bnf.SymbolTerminal{Name: name}}}}}}}}
	table, names, err := tablegen.FromGrammar(bnf.SelfGrammar())
	if err != nil {
		t.Fatal(err)
	}
	text := g.String()
	tree, _, err := parser.NewLL1Parser(*table, *names).Parse(text)
	if err != nil {
		t.Fatalf("%q: %v", text, err)
	}
	got, err := fromcst.SelfCSTtoASTBindings().ToAST(tree, text)
	if err != nil {
		t.Fatalf("%q: %v", text, err)
	}
	x := got.Rules[0].Tail.Sequences[0].Symbols
	if len(x) != 1 || x[0] != bnf.Symbol(bnf.SymbolTerminal{Name: name}) {
		t.Fatalf("%q read back as %v", name, x)
	}
}

'''
RI=[M+'bnf',M+'bnf/tablegen',M+'bnf/fromcst',M+'parser']
add('x01-quote-majority','C23','a terminal with more double than single quotes, and at least one single quote','it is printed in single quotes although it contains one',
 [(A,"""if strings.ContainsRune(res, '"') && !strings.ContainsRune(res, '\\'') {""","""if strings.Count(res, "\\"") > strings.Count(res, "'") {""")],RI,
 RT+'''func TestDemo(t *testing.T) {
	roundTrip(t, "a\\"b")
	roundTrip(t, "it's \\"x\\"")
}
''')
add('x02-return-first','C23','a terminal with a carriage return','the backslash of its escape is escaped again',
 [(A,'''	res = strings.ReplaceAll(res, "\\\\", "\\\\\\\\")
''','''	res = strings.ReplaceAll(res, "\\r", "\\\\r")
	res = strings.ReplaceAll(res, "\\\\", "\\\\\\\\")
'''),(A,'''	res = strings.ReplaceAll(res, "\\n", "\\\\n")
	res = strings.ReplaceAll(res, "\\r", "\\\\r")
''','''	res = strings.ReplaceAll(res, "\\n", "\\\\n")
''')],RI,
 RT+'''func TestDemo(t *testing.T) {
	roundTrip(t, "\\r\\n")
}
''')
add('x03-escaped-already','C23','a terminal with a backslash followed by a double quote, and a single quote','a quote after a backslash is taken to be escaped already',
 [(A,'''	res = strings.ReplaceAll(res, "\\"", "\\\\\\"")
''','''	res = strings.NewReplacer("\\\\\\"", "\\\\\\"", "\\"", "\\\\\\"").Replace(res)
''')],RI,
 RT+'''func TestDemo(t *testing.T) {
	roundTrip(t, "'\\\\\\"")
}
''')
add('x04-single-raw','C23','a terminal with a double quote and a character that has to be escaped','in single quotes nothing is escaped but the backslash',
 [(A,'''		sb.WriteByte('\\'')
		sb.WriteString(res)
		sb.WriteByte('\\'')
''','''		sb.WriteByte('\\'')
		sb.WriteString(strings.ReplaceAll(t.Name, "\\\\", "\\\\\\\\"))
		sb.WriteByte('\\'')
''')],RI,
 RT+'''func TestDemo(t *testing.T) {
	roundTrip(t, "\\"\\t")
}
''')
T1='''var table = map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpTerminal("a")}, 0: {}}}

'''
add('x05-nil-names','C04','a parser made without names','the naming map of a successful parse is nil',
 [(P,"	ret_names := make(map[int]string, len(p.names) + 2)\n","	if p.names == nil {\n		// nothing to name nodes with\n		return n, nil, nil\n	}\n	ret_names := make(map[int]string, len(p.names) + 2)\n") if 0 else (P,'''		return nil, nil, fmt.Errorf("prod stack empty")
	}
''','''		return nil, nil, fmt.Errorf("prod stack empty")
	}

	if p.names == nil {
		// nothing to name nodes with
		return n, nil, nil
	}
''')],[M+'parser'],
T1+'''func TestDemo(t *testing.T) {
	n, m, err := parser.NewLL1Parser(table, nil).Parse("a")
	if err != nil || n == nil || m == nil {
		t.Fatal(n, m, err)
	}
}
''')
add('x06-partial-read','C04','a reader that delivers something and then fails','the error is dropped and what was read is parsed',
 [(P,'''	text, err := readSource(src)
	if err != nil {''','''	text, err := readSource(src)
	if err != nil && len(text) == 0 {''')],[M+'parser','errors','io','strings'],
T1+'''type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, errors.New("bad") }

func TestDemo(t *testing.T) {
	n, _, err := parser.NewLL1Parser(table, nil).Parse(io.MultiReader(strings.NewReader("a"), bad{}))
	if err == nil || n != nil {
		t.Fatal(n, err)
	}
}
''')
add('x07-empty-name','C05','a naming map with an empty name','the name is left out',
 [(P,'''	ret_names[builtinTerminal] = "_literal"
''','''	for id, name := range ret_names {
		if name == "" {
			delete(ret_names, id)
		}
	}
	ret_names[builtinTerminal] = "_literal"
''')],[M+'parser'],
T1+'''func TestDemo(t *testing.T) {
	_, m, err := parser.NewLL1Parser(table, map[int]string{0: "", 1: "b"}).Parse("a")
	if err != nil || len(*m) != 4 {
		t.Fatal(m, err)
	}
}
''')
add('x08-nil-production','C08','a table with a nil production','a nil production is taken for a missing one',
 [(P,'''	if !ok {
		// Parsing error
		return fmt.Errorf("no rules for %s and non''','''	if !ok || opsToPush == nil {
		// Parsing error
		return fmt.Errorf("no rules for %s and non''')],[M+'parser'],
'''func TestDemo(t *testing.T) {
	table := map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpTerminal("a"), parser.OpNonTerminal(1)}}, 1: {0: nil}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse("a"); err != nil {
		t.Fatal(err)
	}
}
''')
add('x09-clone-nil','C09','a parser made without names','Parse writes to a nil map',
 [(P,'''	for id, name := range p.names {
		ret_names[id] = name
	}
''','''	if len(p.names) == 0 {
		ret_names = p.names
	}
	for id, name := range p.names {
		ret_names[id] = name
	}
''')],[M+'parser'],
T1+'''func TestDemo(t *testing.T) {
	if _, _, err := parser.NewLL1Parser(table, nil).Parse("a"); err != nil {
		t.Fatal(err)
	}
}
''')
add('x10-names-shared','C03','a naming map that already names the built-in types','the parser\'s own naming map is returned',
 [(P,'''		return nil, nil, fmt.Errorf("prod stack empty")
	}
''','''		return nil, nil, fmt.Errorf("prod stack empty")
	}

	if p.names[builtinTerminal] == "_literal" && p.names[builtinNothing] == "_nothing" {
		return n, &p.names, nil
	}
''')],[M+'parser'],
T1+'''func TestDemo(t *testing.T) {
	names := map[int]string{0: "a", -1: "_literal", -2: "_nothing"}
	p := parser.NewLL1Parser(table, names)
	_, m, err := p.Parse("a")
	if err != nil {
		t.Fatal(err)
	}
	(*m)[0] = "changed"
	_, m, _ = p.Parse("a")
	if (*m)[0] != "a" {
		t.Fatal(*m)
	}
}
''')
add('x11-walk-nothing','C21','a visitor and a "nothing" node','empty nodes are left out',
 [(C,"""	for _, child := range node.Childs() {
		Walk(w, child)
""","""	for _, child := range node.Childs() {
		if child.Type() == -2 && child.Pos() == child.End() {
			continue
		}
		Walk(w, child)
""")],[M+'cst'],
'''type vis struct{ n *int }

func (v vis) Visit(cst.Node) cst.Visitor { *v.n++; return v }

func TestDemo(t *testing.T) {
	m := 0
	cst.Walk(vis{&m}, cst.NewNode(0, 0, 0, []cst.Node{cst.NewNode(-2, 0, 0, nil)}))
	if m != 2 {
		t.Fatal(m)
	}
}
''')
add('x12-undefined-rule','C22','a grammar with a rule without alternatives that is not the first','the rule is not printed',
 [(A,'''	for i := 1; i < rulesCount; i++ {
''','''	for i := 1; i < rulesCount; i++ {
		if len(g.Rules[i].Tail.Sequences) == 0 {
			continue
		}
''')],[M+'bnf'],
'''func TestDemo(t *testing.T) {
	g := bnf.Grammar{Rules: []bnf.Rule{{Head: bnf.SymbolNonTerminal{Name: "a"}}, {Head: bnf.SymbolNonTerminal{Name: "b"}}}}
	if g.String() != "<a> ::=\\n<b> ::=" {
		t.Fatal(g.String())
	}
}
''')
add('x13-node-count','C30','any use of a node','a package-level counter is changed',
 [(C,'''func NewNode(nType int, start int, end int, childs []Node) Node {
''','''var nodes int

func NewNode(nType int, start int, end int, childs []Node) Node {
	nodes++
''')],[M+'parser','sync'],
T1+'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(table, nil)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				p.Parse("a")
			}
		}()
	}
	wg.Wait()
}
''','-race')
add('x14-expected-list','C31','a parsing error for a non-terminal with several cells','the error lists the expected bytes in the order of a map',
 [(P,'''		return fmt.Errorf("no rules for %s and non terminal op <%s>",
			           charCode(p.scanner.peek()),
			           nodeTypeName(name))
''','''		if len(ruleMap) > 2 {
			expected := ""
			for b := range ruleMap {
				expected = charCode(b)
			}
			return fmt.Errorf("no rules for %s and non terminal op <%s>, expected something like %s",
			           charCode(p.scanner.peek()),
			           nodeTypeName(name), expected)
		}
		return fmt.Errorf("no rules for %s and non terminal op <%s>",
			           charCode(p.scanner.peek()),
			           nodeTypeName(name))
''')],[M+'parser'],
'''func TestDemo(t *testing.T) {
	row := map[byte][]parser.ParserOp{}
	for b := byte('a'); b < 'z'; b++ {
		row[b] = nil
	}
	p := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: row}, nil)
	_, _, err := p.Parse("!")
	for i := 0; i < 50; i++ {
		if _, _, e := p.Parse("!"); e.Error() != err.Error() {
			t.Fatal(e)
		}
	}
}
''')
add('x15-op-clamp','C32','OpNonTerminal of a number below the built-in one','another non-terminal is expanded',
 [(P,'''func OpNonTerminal(n int) ParserOp {
''','''func OpNonTerminal(n int) ParserOp {
	if n < builtinNothing {
		n = builtinNothing
	}
''')],[M+'parser'],
'''func TestDemo(t *testing.T) {
	table := map[int]map[byte][]parser.ParserOp{0: {'\\n': {parser.OpNonTerminal(-3)}}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse("\\n"); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('x16-rune-source','C02','a source of type []rune','it is accepted although it is not one of the kinds of source',
 [(P,'''	case []byte:
		return s, nil
''','''	case []byte:
		return s, nil
	case fmt.Stringer:
		return []byte(s.String()), nil
''')],[M+'parser','strings'],
T1+'''type both struct{ *strings.Reader }

func (both) String() string { return "a" }

func TestDemo(t *testing.T) {
	if _, _, err := parser.NewLL1Parser(table, nil).Parse(both{strings.NewReader("b")}); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('x17-ignore-cache','C28','bindings whose ignored types are changed between two conversions','the ignored types of the first conversion are used',
 [],[],'')
PLANTS.pop()
add('x18-positions-first-child','C07','a production that starts with an empty non-terminal at a later place','the node starts where its first non-empty child does',
 [],[],'')
PLANTS.pop()
add('x19-eol-one-literal','C06','a line end of two bytes','the built-in line end has one child for two symbols',
 [(P,'''				opFunction(name, p.scanner.aPos(), 2))
			p.opStack.Push(OpTerminal("\\n"))
			p.opStack.Push(OpTerminal("\\r"))
''','''				opFunction(name, p.scanner.aPos(), 1))
			p.opStack.Push(OpTerminal("\\r\\n"))
''')],[M+'parser'],
'''func TestDemo(t *testing.T) {
	table := map[int]map[byte][]parser.ParserOp{0: {'\\r': {parser.OpNonTerminal(-2)}}}
	n, _, err := parser.NewLL1Parser(table, nil).Parse("\\r\\n")
	if err != nil || len(n.Childs()[0].Childs()) != 2 {
		t.Fatal(n, err)
	}
}
''')
add('x20-reverse-even','C06','a production of more than eight symbols','children are collected in blocks and the blocks are in the wrong order',
 [(P,'''		if !discard {
			childs[i] = node
			continue
		}
''','''		if !discard {
			if amount > 64 {
				// long productions: filled from the front
				childs[amount - 1 - i] = node
				continue
			}
			childs[i] = node
			continue
		}
''')],[M+'parser','strings'],
'''func TestDemo(t *testing.T) {
	var ops []parser.ParserOp
	for i := 0; i < 70; i++ {
		ops = append(ops, parser.OpTerminal("a"))
	}
	n, _, err := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {'a': ops}}, nil).Parse(strings.Repeat("a", 70))
	if err != nil || n.Childs()[0].Pos() != 0 {
		t.Fatal(n.Childs()[0].Pos(), err)
	}
}
''')
add('x21-end-trim','C07','a node that ends with an empty node after a line end','the node ends before the line end',
 [(P,'''	p.prodStack.Push(cst.NewNode(name, f.Pos(), p.scanner.aPos(), childs))
''','''	end := p.scanner.aPos()
	if name > 0 && end > f.Pos() && len(childs) > 1 && childs[amount - 1].Pos() == childs[amount - 1].End() && p.scanner.src[end - 1] == '\\n' {
		end--
	}
	p.prodStack.Push(cst.NewNode(name, f.Pos(), end, childs))
''')],[M+'parser'],
'''func TestDemo(t *testing.T) {
	op := parser.OpNonTerminal
	table := map[int]map[byte][]parser.ParserOp{0: {'a': {op(1)}}, 1: {'a': {parser.OpTerminal("a\\n"), op(2)}}, 2: {0: {}}}
	n, _, err := parser.NewLL1Parser(table, nil).Parse("a\\n")
	if err != nil || n.Childs()[0].End() != 2 {
		t.Fatal(n, err)
	}
}
''')
add('x22-type-pointer','C20','nodes with a start beyond two billion','positions are kept in 32 bits',
 [(C,"	start int\n	end int\n","	start int32\n	end int32\n"),(C,"		start: start,\n		end: end,\n","		start: int32(start),\n		end: int32(end),\n"),(C,"	return n.start\n","	return int(n.start)\n"),(C,"	return n.end\n","	return int(n.end)\n")],[M+'cst'],
'''func TestDemo(t *testing.T) {
	n := cst.NewNode(0, 1<<33, 1<<33+1, nil)
	if n.Pos() != 1<<33 {
		t.Fatal(n.Pos())
	}
}
''')
add('x23-nothing-zero','C01','a source that goes on after a zero byte','a zero byte ends the source',
 [(P,'''	return s.offset >= len(s.src)
}

func (s *ll1parserScanner) peek() byte {
''','''	return s.offset >= len(s.src)
}

func (s *ll1parserScanner) peek() byte {
''')],[],'')
PLANTS.pop()
