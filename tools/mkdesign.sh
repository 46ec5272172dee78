#!/bin/bash
# refreshes the seed table at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.json
cd "$(dirname "$0")/.."
python3 - <<'P'
import json,glob,os,re
res=json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json'),key=lambda f:int(re.search(r's(\d+)',f).group(1))):
    m=json.load(open(f)); i=f.split('/')[1]; rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'],res.get(i,'caught')))
s=open('DESIGN.md').read(); h='|---|---|---|---|\n'; k=s.rindex(h)+len(h); open('DESIGN.md','w').write(s[:k]+'\n'.join(rows)+'\n')
P
