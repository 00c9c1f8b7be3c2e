# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob,json,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t={}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); t.setdefault(m['property'],[]).append(f.split('/')[1]+': '+m['what_it_breaks'].rstrip('.'))
rows=['| %s | %s |'%(k,'; '.join(v)) for k,v in sorted(t.items())]
s=open('DESIGN.md').read()
s=re.sub(r'(\| check \| catches \|\n\|---\|---\|\n)(?:\|.*\n)*',lambda m:m.group(1)+'\n'.join(rows)+'\n',s)
open('DESIGN.md','w').write(s)
