package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "list" {
		m := map[string]string{}
		for id, r := range rulesByID {
			m[id] = r.technique
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
		return
	}
	p, err := loadProg(envOr("LLREPO", "/repo"))
	if len(os.Args) > 2 && os.Args[1] == "check" {
		verif := envOr("LLVERIF", "/verif")
		rc := &runCache{p: p, m: map[string]any{}}
		st := 0
		ids := os.Args[2:]
		if ids[0] == "all" {
			ids = nil
			for id := range rulesByID {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		for _, id := range ids {
			st |= runCheck(p, err, id, verif, rc)
			if st != 0 && os.Getenv("LLFIRST") != "" {
				break
			}
		}
		os.Exit(st)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	dbg(p, os.Args[1:])
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func dbg(p *Prog, args []string) {
	switch args[0] {
	case "parse":
		runParse(p, false).dump()
	case "parse1":
		runParse(p, true).dump()
	case "gram":
		e := newEng(p)
		e.initGlobals()
		e.setMode = true
		e.runFn(p.fn("pkg/bnf/tablegen", "FromGrammar")).dump()
	case "stable":
		e := newEng(p)
		e.initGlobals()
		e.setMode, e.stable = true, true
		e.runFn(p.fn("pkg/bnf/tablegen", "FromGrammar")).dump()
	case "ast":
		e := newEng(p)
		e.initGlobals()
		e.runFn(p.method("pkg/bnf/fromcst", "BNFCSTtoASTBindings", "ToAST")).dump()
	case "m":
		e := newEng(p)
		e.initGlobals()
		e.runFn(p.method(args[1], args[2], args[3])).dump()
	case "mb":
		e := newEng(p)
		e.bits = true
		e.initGlobals()
		e.runFn(p.method(args[1], args[2], args[3])).dump()
	case "f":
		e := newEng(p)
		e.initGlobals()
		e.runFn(p.fn(args[1], args[2])).dump()
	}
}
