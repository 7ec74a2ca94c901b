S='pkg/bnf/selfgrammar.go'; F='pkg/bnf/fromcst/fromcst.go'
PLANTS=[]
def add(id,prop,needs,breaks,edits,imports,body,flags=''):
    d='package parser_test\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(set(imports+['testing'])))+')\n\n'+body
    PLANTS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=d,flags=flags))
M='github.com/TooManySugar/ll1parser/pkg/'
CH="""						{
							Symbols: []Symbol{
								SymbolTerminal{
									Name: "-",
								},
							},
						},
					},
				},
			},
			{ // 21 <letter>
"""
EXTRA="""						{
							Symbols: []Symbol{
								SymbolTerminal{
									Name: %s,
								},
							},
						},
"""
BAL="""						{
							Symbols: []Symbol{
								SymbolTerminal{
									Name: "_",
								},
							},
						},
					},
				},
			},
			{ // 21 <letter>
"""
add('t01-self-shared','C25','a caller that changes the grammar it got','all callers share one grammar',
 [(S,"func SelfGrammar() Grammar {\n	return Grammar{","// SelfGrammar is the same for everyone\nfunc SelfGrammar() Grammar {\n	return selfGrammar\n}\n\nvar selfGrammar = func() Grammar {\n	return Grammar{"),
  (S,"""									Name: "\\r\\n",
								},
							},
						},
					},
				},
			},
		},
	}
}
""","""									Name: "\\r\\n",
								},
							},
						},
					},
				},
			},
		},
	}
}()
""")],[M+'bnf'],
"""func TestDemo(t *testing.T) {
	g := bnf.SelfGrammar()
	g.Rules[3].Tail.Sequences[0].Symbols[0] = bnf.SymbolTerminal{Name: "x"}
	h := bnf.SelfGrammar()
	if s, ok := h.Rules[3].Tail.Sequences[0].Symbols[0].(bnf.SymbolTerminal); ok && s.Name == "x" {
		t.Fatal("changed through an earlier result")
	}
}
""")
END="""									Name: "\\r\\n",
								},
							},
						},
					},
				},
			},
"""
add('t03-self-unreachable','C25','looking at the reachable rules of the self grammar','a rule for comments is added that no other rule refers to',
 [(S,END,END+"""			{ // 26 <comment>
				Head: SymbolNonTerminal{
					Name: "comment",
				},
				Tail: Substitution{
					Sequences: []Sequence{
						{
							Symbols: []Symbol{
								SymbolTerminal{
									Name: "#",
								},
								SymbolNonTerminal{
									Name: "text1",
								},
							},
						},
					},
				},
			},
""")],[M+'bnf'],
"""func TestDemo(t *testing.T) {
	g := bnf.SelfGrammar()
	used := map[string]bool{g.Rules[0].Head.Name: true}
	for range g.Rules {
		for _, r := range g.Rules {
			if !used[r.Head.Name] {
				continue
			}
			for _, q := range r.Tail.Sequences {
				for _, s := range q.Symbols {
					if n, ok := s.(bnf.SymbolNonTerminal); ok {
						used[n.Name] = true
					}
				}
			}
		}
	}
	for _, r := range g.Rules {
		if !used[r.Head.Name] {
			t.Fatal(r.Head.Name)
		}
	}
}
""")
conv="""func read(t *testing.T, src string) *bnf.Grammar {
	table, names, err := tablegen.FromGrammar(bnf.SelfGrammar())
	if err != nil {
		t.Fatal(err)
	}
	tree, _, err := parser.NewLL1Parser(*table, *names).Parse(src)
	if err != nil {
		t.Fatal(err)
	}
	g, err := fromcst.SelfCSTtoASTBindings().ToAST(tree, src)
	if err != nil {
		t.Fatal(err)
	}
	return g
}

"""
I=[M+'bnf',M+'bnf/fromcst',M+'bnf/tablegen',M+'parser']
add('t04-escape-return','C26','a literal with an escaped carriage return','the escape for carriage return stands for a newline',
 [(F,'`r`: "\\r",','`r`: "\\n",')],I,conv+"""func TestDemo(t *testing.T) {
	g := read(t, "<a> ::= 'x\\\\r'")
	if s := g.Rules[0].Tail.Sequences[0].Symbols[0]; s != (bnf.SymbolTerminal{Name: "x\\r"}) {
		t.Fatalf("%q", s)
	}
}
""")
add('t05-single-quoted','C26','a literal in single quotes','literals in single quotes are read as something else',
 [(F,'[]int{11, 12},','[]int{11, 13},')],I,conv+"""func TestDemo(t *testing.T) {
	g := read(t, "<a> ::= 'xyz'")
	if s := g.Rules[0].Tail.Sequences[0].Symbols[0]; s != (bnf.SymbolTerminal{Name: "xyz"}) {
		t.Fatalf("%q", s)
	}
}
""")
add('t06-ignored-lines','C26','a grammar of more than one rule','all rules but the first are ignored',
 [(F,'[]int{25},','[]int{25, 2},')],I,conv+"""func TestDemo(t *testing.T) {
	g := read(t, "<a> ::= <b>\\n<b> ::= 'x'")
	if len(g.Rules) != 2 {
		t.Fatal(len(g.Rules))
	}
}
""")
src=open('/repo/'+S).read()
i16=src.index('			{ // 16 <'); i17=src.index('			{ // 17 <'); i18=src.index('			{ // 18 <')
B16=src[i16:i17]; B17=src[i17:i18]
add('t07-self-insert','C26','any conversion with an escape','the two rules of escapes change places in the self grammar, the bindings do not',
 [(S,B16+B17,B17+B16)],I,conv+"""func TestDemo(t *testing.T) {
	g := read(t, "<a> ::= 'x\\\\r'")
	if s := g.Rules[0].Tail.Sequences[0].Symbols[0]; s != (bnf.SymbolTerminal{Name: "x\\r"}) {
		t.Fatalf("%q", s)
	}
}
""")

i0=src.index('			{ //  2 <line>'); i1=src.index('			{ //  3 <')
add('t08-self-endless','C25','looking for a rule that derives nothing','an alternative of <line> needs a rule that derives no string',
 [(S,END,END+"""			{ // 26 <comment>
				Head: SymbolNonTerminal{
					Name: "comment",
				},
				Tail: Substitution{
					Sequences: []Sequence{
						{
							Symbols: []Symbol{
								SymbolTerminal{
									Name: "#",
								},
								SymbolNonTerminal{
									Name: "comment",
								},
							},
						},
					},
				},
			},
"""),(S,"""									Name: "opt-content",
								},
							},
						},
""","""									Name: "opt-content",
								},
							},
						},
						{
							Symbols: []Symbol{
								SymbolNonTerminal{
									Name: "comment",
								},
							},
						},
""")],[M+'bnf'],
"""func TestDemo(t *testing.T) {
	g := bnf.SelfGrammar()
	ok := map[string]bool{}
	for range g.Rules {
		for _, r := range g.Rules {
			for _, q := range r.Tail.Sequences {
				all := true
				for _, s := range q.Symbols {
					if n, is := s.(bnf.SymbolNonTerminal); is && !ok[n.Name] {
						all = false
					}
				}
				if all {
					ok[r.Head.Name] = true
				}
			}
		}
	}
	for _, r := range g.Rules {
		if !ok[r.Head.Name] {
			t.Fatal(r.Head.Name)
		}
	}
}
""")
