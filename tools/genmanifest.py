import json,subprocess,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tech=json.loads(subprocess.check_output([here+'/.bin/llcheck','list']))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
NA={
 'C34':"language equivalence of a grammar and the parser generated from it quantifies over all derivations: the local facts it follows from are decided by C06, C08, C10, C12, C13, C14 and C15, but the induction over derivations is a proof about context-free languages that no static analysis in reach performs on the source",
 'C35':"termination of Parse for every generated table depends on the absence of left recursion, which the LL(1) conflict check excludes only by an argument about first sets of the grammar given at run time; no ranking over the program's own state bounds the main loop",
 'C36':"a round trip through printer, generated parser and tree conversion composes the language of the self grammar with string functions over unbounded values; the parts are decided by C22, C23, C25, C26 and C27, their composition is not a fact about any construct of the source",
}
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if i not in tech:
        na.append({'property':i,'reason':'no rule decides this property yet'}); continue
    checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'./check.sh '+i,'technique':tech[i],
      'level':'other','level_note':'static analysis of the current source, all paths: every obligation of the rule is discharged for all inputs, or reported. Trusted: the Go front end and SSA builder, the models of the standard library functions used, the composition lemmas named in DESIGN.md, absence of arithmetic overflow in lengths and positions.'})
m={'version':1,'setup_cmd':'./check.sh build','checks':checks,'not_applicable':na}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
