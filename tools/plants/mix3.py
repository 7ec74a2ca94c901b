P='pkg/parser/parser.go'; T='pkg/bnf/tablegen/tablegen.go'; F='pkg/bnf/fromcst/fromcst.go'; A='pkg/bnf/ast.go'; C='pkg/cst/cst.go'; S='pkg/bnf/selfgrammar.go'
PLANTS=[]
M='github.com/TooManySugar/ll1parser/pkg/'
HELP='''
func nt(s string) bnf.Symbol { return bnf.SymbolNonTerminal{Name: s} }
func tm(s string) bnf.Symbol { return bnf.SymbolTerminal{Name: s} }

var nothing bnf.Symbol = bnf.SymbolNothing{}

func rule(h string, alts ...[]bnf.Symbol) bnf.Rule {
	r := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: h}}
	for _, a := range alts {
		r.Tail.Sequences = append(r.Tail.Sequences, bnf.Sequence{Symbols: a})
	}
	return r
}

func alt(s ...bnf.Symbol) []bnf.Symbol { return s }
func gram(r ...bnf.Rule) bnf.Grammar   { return bnf.Grammar{Rules: r} }

func must(t *testing.T, g bnf.Grammar) parser.LL1Parser {
	table, names, err := tablegen.FromGrammar(g)
	if err != nil {
		t.Fatal(err)
	}
	return parser.NewLL1Parser(*table, *names)
}

var _ = []any{nt, tm, nothing, rule, alt, gram, must, fmt.Sprint, tablegen.FromGrammar, parser.OpTerminal, reflect.DeepEqual, fromcst.SelfCSTtoASTBindings, cst.NewNode, strings.Repeat}

'''
def add(id,prop,needs,breaks,edits,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted([M+'bnf',M+'bnf/tablegen',M+'bnf/fromcst',M+'cst',M+'parser','fmt','reflect','strings','testing']))+')\n\n'+HELP+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
TAB='''	table := map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpTerminal("a")}, 0: {}}}
'''
add('y01-trailing-newline','C01','a source that ends in a single newline the grammar does not have','the newline is left unread',
 [(P,'	if !p.scanner.atEnd() {\n','	if !p.scanner.atEnd() && string(p.scanner.src[p.scanner.offset:]) != "\\n" {\n')],
'''func TestDemo(t *testing.T) {
'''+TAB+'''	if _, _, err := parser.NewLL1Parser(table, nil).Parse("a\\n"); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y02-reader-limit','C02','a reader with more than 16 megabytes','the source is cut off',
 [(P,'io.ReadAll(s)','io.ReadAll(io.LimitReader(s, 1<<24))')],
'''func TestDemo(t *testing.T) {
	text := strings.Repeat("a", 1<<24)
	table := map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpTerminal(text)}}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse(strings.NewReader(text + "b")); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y03-sentinel','C03','a byte slice that is the start of a larger one','the byte after the source is overwritten',
 [(P,'		return s, nil\n	case *bytes','		return append(s, 0)[:len(s)], nil\n	case *bytes')],
'''func TestDemo(t *testing.T) {
'''+TAB+'''	buf := []byte("ab")
	if _, _, err := parser.NewLL1Parser(table, nil).Parse(buf[:1]); err != nil || string(buf) != "ab" {
		t.Fatalf("%q %v", buf, err)
	}
}
''')
add('y04-literal-kept','C05','a naming map that has a name for the type of terminals','the name is not the built-in one',
 [(P,'	ret_names[builtinTerminal] = "_literal"\n','	if _, ok := ret_names[builtinTerminal]; !ok {\n		ret_names[builtinTerminal] = "_literal"\n	}\n')],
'''func TestDemo(t *testing.T) {
'''+TAB+'''	_, m, err := parser.NewLL1Parser(table, map[int]string{parser.BuiltinTerminal: "x"}).Parse("a")
	if err != nil || (*m)[parser.BuiltinTerminal] != "_literal" {
		t.Fatal(m, err)
	}
}
''')
add('y05-deep-stack','C09','a parse with more than a million operations waiting','Parse panics',
 [(P,'	opStack.stack = append(opStack.stack, pOp)\n','	if len(opStack.stack) > 1<<20 {\n		panic("stack overflow")\n	}\n	opStack.stack = append(opStack.stack, pOp)\n')],
'''func TestDemo(t *testing.T) {
	text := strings.Repeat("a", 1<<21)
	table := map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpTerminal(text)}}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse(text); err != nil {
		t.Fatal(err)
	}
}
''')
add('y06-unknown-builtin','C09','a table that uses a non-terminal below the built-in ones','the name of the type is looked up outside of an array',
 [(P,'	return fmt.Errorf("unknown built in type: %d", name)\n','	names := [...]string{"", "literal", "EOL", "nothing"}\n	return fmt.Errorf("not a non terminal: %s", names[-name])\n')],
'''func TestDemo(t *testing.T) {
	table := map[int]map[byte][]parser.ParserOp{0: {'a': {parser.OpNonTerminal(-9)}}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse("a"); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y07-wide-production','C09','a production with more than a thousand symbols','a guard against broken operations panics',
 [(P,'	amount := f.Amount()\n','	amount := f.Amount()\n	if amount < 0 || amount > 1000 && name != builtinTerminal {\n		panic("broken function op")\n	}\n')],
'''func TestDemo(t *testing.T) {
	var ops []parser.ParserOp
	for i := 0; i < 2000; i++ {
		ops = append(ops, parser.OpTerminal("a"))
	}
	table := map[int]map[byte][]parser.ParserOp{0: {'a': ops}}
	if _, _, err := parser.NewLL1Parser(table, nil).Parse(strings.Repeat("a", 2000)); err != nil {
		t.Fatal(err)
	}
}
''')
add('y08-same-terminal','C10','two alternatives that are the same single terminal','the second one is taken for a repetition',
 [(T,'''		for _, term := range seqFirsts.Bytes() {
			if _, ok := res[byte(term)]; ok {''','''		for _, term := range seqFirsts.Bytes() {
			if ops, ok := res[byte(term)]; ok {
				if len(ops) == 1 && len(sequence.Symbols) == 1 {
					if t, same := sequence.Symbols[0].(bnf.SymbolTerminal); same && ops[0] == parser.OpTerminal(t.Name) {
						continue
					}
				}''')],
'''func TestDemo(t *testing.T) {
	if _, _, err := tablegen.FromGrammar(gram(rule("s", alt(tm("ab")), alt(tm("ab"))))); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y09-zero-prefix','C11','a terminal of several bytes the first of which is zero','the terminal is accepted',
 [(T,'if v.Name[0] == EOS {','if v.Name == string(rune(EOS)) {')],
'''func TestDemo(t *testing.T) {
	if _, _, err := tablegen.FromGrammar(gram(rule("s", alt(tm("\\x00a"))))); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y10-later-nothing','C11','an empty string after another empty string and nothing else','the sequence is accepted',
 [(T,'				case bnf.SymbolNothing:\n					if len(sequence.Symbols) > 1 {\n						return errors.New(','				case bnf.SymbolNothing:\n					if sequence.Symbols[0] != symbol || sequence.Symbols[len(sequence.Symbols)-1] != symbol {\n						return errors.New('),
  (T,'			if len((*sequence).Symbols) > 1 {\n				return res, errors.New(\n					"empty','			if (*sequence).Symbols[0] != symbol {\n				return res, errors.New(\n					"empty')],
'''func TestDemo(t *testing.T) {
	if _, _, err := tablegen.FromGrammar(gram(rule("s", alt(nothing, nothing)))); err == nil {
		t.Fatal("accepted")
	}
}
''')
add('y11-deep-empty','C12','eight symbols that can be empty before the one a production starts with','the bytes it starts with are left out',
 [(T,'''	for _, symbol := range (*sequence).Symbols {
		switch v := symbol.(type) {
		case bnf.SymbolTerminal:
			return res''','''	for i, symbol := range (*sequence).Symbols {
		if i == 8 {
			return res, nil
		}
		switch v := symbol.(type) {
		case bnf.SymbolTerminal:
			return res''')],
'''func TestDemo(t *testing.T) {
	e := nt("e")
	p := must(t, gram(rule("s", alt(e, e, e, e, e, e, e, e, tm("a"))), rule("e", alt(nothing))))
	if _, _, err := p.Parse("a"); err != nil {
		t.Fatal(err)
	}
}
''')
add('y12-twice-in-a-row','C13','a non-terminal right after itself','what starts with itself does not follow it',
 [(T,'''		// rule 2
		// get firsts''','''		if (*sequence).Symbols[i+1] == symbol {
			continue
		}

		// rule 2
		// get firsts''')],
'''func TestDemo(t *testing.T) {
	p := must(t, gram(rule("s", alt(nt("a"), nt("a"), tm("."))), rule("a", alt(tm("a"), nt("b"))), rule("b", alt(tm("b")), alt(nothing))))
	if _, _, err := p.Parse("aa."); err != nil {
		t.Fatal(err)
	}
}
''')
add('y14-long-names','C15','a rule name of more than 64 characters','the name of its row is cut off',
 [(T,'		rowNamesV[v] = k\n','		rowNamesV[v] = fmt.Sprintf("%.64s", k)\n')],
'''func TestDemo(t *testing.T) {
	name := strings.Repeat("a", 70)
	_, names, err := tablegen.FromGrammar(gram(rule(name, alt(tm("a")))))
	if err != nil || (*names)[0] != name {
		t.Fatal(names, err)
	}
}
''')
add('y15-names-on-error','C17','a grammar with a conflict','row names are returned together with the error',
 [(T,'''	table, err = tablegen.Run()
	if err != nil {
		return nil, nil, err
	}

	rowNamesV := make(map[int]string, len(ruleHeads))
''','''	rowNamesV := make(map[int]string, len(ruleHeads))
	rowNames = &rowNamesV
	table, err = tablegen.Run()
	if err != nil {
		return
	}

''')],
'''func TestDemo(t *testing.T) {
	_, names, err := tablegen.FromGrammar(gram(rule("s", alt(tm("a")), alt(tm("a")))))
	if err == nil || names != nil {
		t.Fatal(names, err)
	}
}
''')
add('y16-some-rules','C17','a tree in which a rule after the first cannot be converted','the rules before it are returned without an error',
 [(F,'''	err := b.lrTraverse(root, b.RuleType, doOnRule)

	if err != nil {
''','''	err := b.lrTraverse(root, b.RuleType, doOnRule)

	if err != nil && len(res.Rules) == 0 {
''')],
'''func TestDemo(t *testing.T) {
	text := "<a> ::= \\"x\\"\\n<b> ::= \\"y\\""
	tree, _, err := must(t, bnf.SelfGrammar()).Parse(text)
	if err != nil {
		t.Fatal(err)
	}
	b := fromcst.SelfCSTtoASTBindings()
	b.SymbolTerminalTypes = nil
	n := 0
	b.SequencesSymbolType = 9
	_ = n
	b = fromcst.SelfCSTtoASTBindings()
	delete(b.EscapeMapping, "n")
	text = "<a> ::= \\"x\\"\\n<b> ::= \\"\\\\n\\""
	if tree, _, err = must(t, bnf.SelfGrammar()).Parse(text); err != nil {
		t.Fatal(err)
	}
	if g, err := b.ToAST(tree, text); err == nil {
		t.Fatal(g)
	}
}
''')
add('y17-empty-terminal','C24','a terminal with no text','it is said to be an empty string',
 [(A,'func (nt SymbolTerminal) Type() int {\n','func (nt SymbolTerminal) Type() int {\n	if nt.Name == "" {\n		return TypeNothing\n	}\n')],
'''func TestDemo(t *testing.T) {
	if tm("").Type() != bnf.TypeTerminal {
		t.Fatal()
	}
}
''')
add('y18-builtin-name','C24','a non-terminal with the name of a built-in','it is said to be a terminal',
 [(A,'func (nt SymbolNonTerminal) Type() int {\n','func (nt SymbolNonTerminal) Type() int {\n	if strings.HasPrefix(nt.Name, "_") {\n		// made by the parser\n		return TypeTerminal\n	}\n')],
'''func TestDemo(t *testing.T) {
	if nt("_literal").Type() != bnf.TypeNonTerminal {
		t.Fatal()
	}
}
''')
add('y19-move-front','C28','bindings whose second terminal type is the one that matches','the list of terminal types is reordered in place',
 [(F,'''		if err == searchComplete {
			return &res, nil
		}
		if err != nil {
			return nil, err
		}
	}
''','''		if err == searchComplete {
			b.SymbolTerminalTypes[0], b.SymbolTerminalTypes[i] = symbolTermType, b.SymbolTerminalTypes[0]
			return &res, nil
		}
		if err != nil {
			return nil, err
		}
	}
'''),(F,'for _, symbolTermType := range','for i, symbolTermType := range')],
'''func TestDemo(t *testing.T) {
	text := "<a> ::= 'x'"
	tree, _, err := must(t, bnf.SelfGrammar()).Parse(text)
	if err != nil {
		t.Fatal(err)
	}
	b := fromcst.SelfCSTtoASTBindings()
	if _, err := b.ToAST(tree, text); err != nil || !reflect.DeepEqual(b, fromcst.SelfCSTtoASTBindings()) {
		t.Fatal(b, err)
	}
}
''')
add('y20-pointer-text','C31','a table that makes Parse fail without a node','the error says something else each time',
 [(P,'return nil, nil, fmt.Errorf("empty parsing table")','return nil, nil, fmt.Errorf("empty parsing table: %p", &p)')],
'''func TestDemo(t *testing.T) {
	p := parser.NewLL1Parser(nil, nil)
	seen := map[string]bool{}
	for i := 0; i < 100; i++ {
		_, _, err := p.Parse("a")
		seen[err.Error()] = true
	}
	if len(seen) != 1 {
		t.Fatal(len(seen))
	}
}
''')
add('y21-clip-ops','C32','a list of more than eight operations that fills its array','the list is not copied',
 [(P,'	return append([]ParserOp{}, parserOps...)','	if cap(parserOps) == len(parserOps) && len(parserOps) > 8 {\n		return parserOps\n	}\n	return append([]ParserOp{}, parserOps...)')],
'''func TestDemo(t *testing.T) {
	ops := make([]parser.ParserOp, 9)
	l := parser.NewParserOpList(ops...)
	ops[0] = parser.OpNonTerminal(3)
	if l[0] != nil {
		t.Fatal(l[0])
	}
}
''')
add('y22-crlf','C23','a terminal with a carriage return that is not followed by a newline','it is printed as it is',
 [(A,'	res = strings.ReplaceAll(res, "\\n", "\\\\n")\n	res = strings.ReplaceAll(res, "\\r", "\\\\r")\n','	res = strings.ReplaceAll(res, "\\r\\n", "\\\\r\\\\n")\n	res = strings.ReplaceAll(res, "\\n", "\\\\n")\n')],
'''func TestDemo(t *testing.T) {
	if s := tm("a\\rb").String(); strings.Contains(s, "\\r") {
		t.Fatalf("%q", s)
	}
}
''')
add('y23-one-escape','C27','two rules with the same head','they are merged into one',
 [(F,'		res.Rules = append(res.Rules, *rule)\n','		for i := range res.Rules {\n			if res.Rules[i].Head == rule.Head {\n				res.Rules[i].Tail.Sequences = append(res.Rules[i].Tail.Sequences, rule.Tail.Sequences...)\n				return nil\n			}\n		}\n		res.Rules = append(res.Rules, *rule)\n')],
'''func TestDemo(t *testing.T) {
	text := "<a> ::= 'x'\\n<a> ::= 'y'"
	tree, _, err := must(t, bnf.SelfGrammar()).Parse(text)
	if err != nil {
		t.Fatal(err)
	}
	g, err := fromcst.SelfCSTtoASTBindings().ToAST(tree, text)
	if err != nil || len(g.Rules) != 2 {
		t.Fatal(g, err)
	}
}
''')
OLDEOL='''							Symbols: []Symbol{
								SymbolTerminal{
									Name: "-",
								},
							},
						},
					},
'''
add('y24-shared-sequence','C25','a change to one result of SelfGrammar before another call','the sequence of the dash is the same memory in every result',
 [(S,'func SelfGrammar() Grammar {\n','var dash = []Symbol{SymbolTerminal{Name: "-"}}\n\nfunc SelfGrammar() Grammar {\n'),(S,OLDEOL,'''							Symbols: dash,
						},
					},
''')],
'''func TestDemo(t *testing.T) {
	g := bnf.SelfGrammar()
	for _, r := range g.Rules {
		for _, a := range r.Tail.Sequences {
			for i := range a.Symbols {
				a.Symbols[i] = tm("!")
			}
		}
	}
	for _, r := range bnf.SelfGrammar().Rules {
		for _, a := range r.Tail.Sequences {
			for _, x := range a.Symbols {
				if x == tm("!") && r.Head.Name == "rule-char" {
					t.Fatal(r)
				}
			}
		}
	}
}
''')
