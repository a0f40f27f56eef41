#!/usr/bin/env python3
# Writes DESIGN.md from properties.jsonl, MANIFEST.json's techniques, the monitors' own case rules,
# assumptions and sections, known_findings.txt, seeded/ and the notes below.
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(l) for l in open(root+'/properties.jsonl')]
man=json.load(open(root+'/MANIFEST.json'))
tech={c['property']:c['technique'].replace('runtime monitoring: ','') for c in man['checks']}
HEAD=open(root+'/tools/design_head.md').read()
TAIL=open(root+'/tools/design_tail.md').read()
N=json.load(open(root+'/tools/design_notes.json'))
def strs(s,f): return [bytes(x,'utf8').decode('unicode_escape').encode('latin1','ignore').decode('utf8','ignore') if '\\' in x else x for x in re.findall(r'c\.%s\(\s*"((?:[^"\\]|\\.)*)"'%f,s)]
known=[];fixed=[]
for l in open(root+'/known_findings.txt'):
    l=l.strip()
    if not l or l.startswith('#'): continue
    if l.startswith('fixed:'):
        m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l); fixed.append(m.groups())
    else: known.append(json.loads(l))
out=[HEAD.rstrip(),'','## Properties','',
 'For each property: the deciding monitor, what it runs and counts as a case, what it takes for granted,',
 'and why that reaches what tests cannot. "Sections" are the parts of the monitor; each can be run alone with',
 '`./run.sh Cnn --section NAME`. Bounds are generator sizes (quick: about 5-20 s, thorough: 1-4 min; '
 'thorough multiplies the number of generated cases by 10-40 and uses the same oracle).','']
for p in P:
    i=p['id']; f=f"{root}/harness/src/props/{i.lower()}.rs"
    s=open(f).read() if os.path.exists(f) else ''
    out.append(f"### {i} {p['title']}")
    out.append('')
    out.append(f"* **Monitor**: {tech.get(i,'none yet')}.")
    sec=re.findall(r'c\.section\("([^"]+)"',s)
    if sec: out.append(f"* **Sections**: {', '.join(sec)}.")
    r=strs(s,'rule')
    if r: out.append(f"* **Cases**: {r[0]}.")
    for a in strs(s,'assume'): out.append(f"* **Assumed**: {a}.")
    for k in ('why_tests_cant','why_tests_cannot','why'):
        if k in p: out.append(f"* **Why tests cannot**: {p[k]}")
    for n in N.get(i,[]): out.append(f"* {n}")
    k=[x for x in fixed if x[0]==i]
    if k: out.append(f"* **Defects repaired**: {len(k)} (see below).")
    k=[x for x in known if x.get('property')==i]
    if k: out.append(f"* **Known findings**: {len(k)} (see below).")
    out.append('')
out+=['## Known findings (defects recorded, not repaired)','']
for x in known: out.append(f"* **{x['property']}** `{x['sig']}`: {x['what']}")
out+=['',f'## Repaired defects ({len(fixed)} `fix:` commits)','',
 'Each was found by a monitor on the real code, repaired in one commit, and is reported again by the same monitor when the commit is reverted.','']
for p,c,w in sorted(fixed): out.append(f"* {p} `{c}` {w}")
out+=['','## Seeded bugs','',
 'Planted from the text of a property; each compiles, passes the stable tests, and has a demonstration (`seeded/<id>/demo.sh`). "caught" is the verdict of the property\'s quick check.','']
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{d}/meta.json'))
    out.append(f"* `{d}` ({m['property']}, caught): {m['what_it_breaks']} Needs: {m['needs']}")
out+=['',TAIL.rstrip(),'']
open(root+'/DESIGN.md','w').write('\n'.join(out))
print(len(out),'lines')
