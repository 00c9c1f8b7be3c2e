#!/usr/bin/env python3
# writes MANIFEST.json from the properties that have a check
import json,re,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
src=open('govc/props.go').read()
ids=sorted(re.findall(r'(?:prop\(&Property\{ID: |arith\(|round\(|tec\(|cmd\()"(C\d\d)"',src))
bounded={i for i in re.findall(r'(?:arith|round|tec|cmd)\("(C\d\d)"',src)}
anysize=set(re.findall(r'arith\("(C\d\d)"[^\n]*\.anySize\(',src))
bounded-=anysize
props={json.loads(l)['id']:json.loads(l) for l in open('properties.jsonl')}
levels=dict(re.findall(r'"(C\d\d)":\s*"(\w+)"',re.search(r'var levels = map\[string\]string\{(.*?)\}',open('govc/props.go').read(),re.S).group(1)))
notes=json.load(open('tools/notes.json'))
na=notes['not_applicable']
checks=[]
for i in ids:
    c={"property":i,"quick_cmd":"bash run.sh "+i,"thorough_cmd":"bash run.sh "+i,
       "technique":notes['technique'].get(i,notes['technique']['anysize'] if i in anysize else notes['technique']['bounded'] if i in bounded else "contract-based deductive verification (symbolic execution of go/ssa against contracts and lemmas, SMT), failed obligations replayed on the compiled code"),
       "level":levels.get(i,"other" if i in bounded else "proof"),"level_note":notes['level_note'].get(i,notes['level_note']['bounded' if i in bounded else 'anysize' if i in anysize else 'default'])}
    if i in notes.get('theorems',{}): c['theorems']=notes['theorems'][i]
    checks.append(c)
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,
   "not_applicable":[{"property":p,"reason":na.get(p,"no check yet")} for p in props if p not in ids]}
json.dump(m,open('MANIFEST.json','w'),indent=1)
print(len(checks),'checks',[x['property'] for x in m['not_applicable']])
