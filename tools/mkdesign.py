#!/usr/bin/env python3
"""python3 tools/mkdesign.py   fill the generated parts of DESIGN.md from evidence/ (after a full quick run)"""
import json,re,os,glob
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
P=[json.loads(l) for l in open('properties.jsonl')]
out=[]
for p in P:
    e=json.load(open('evidence/%s.json'%p['id'])); c=e['coverage']
    out.append('\n### %s %s\n'%(p['id'],p['title']))
    if c.get('rule'): out.append('Rule: %s.\n'%c['rule'])
    if e.get('assumptions'): out.append('Assumed: '+'; '.join(e['assumptions'])+'.\n')
    out.append('| phase | enumerated | executions | complete |\n|---|---|---|---|')
    for f in c.get('phases',[]):
        out.append('| %s | %s | %d | %s |'%(f['phase'],f['enumerated'].replace('|','/'),f['executions'],f['deviation_bound_completed'] if not f['unexplored'] else 'no'))
    x=[]
    for k,v in c.items():
        if k in('phases','rule','samples','build','exhaustive','diverged_replays'): continue
        if isinstance(v,(int,str)) and len(str(v))<200: x.append('%s %s'%(k.replace('_',' '),v))
    out.append('\n'+', '.join(x)+'; '+'%.0f s'%e['wall_s']+'\n')
s=open('DESIGN.md').read()
s=re.sub(r'<!-- phases begin -->.*?<!-- phases end -->',lambda m:'<!-- phases begin -->\n'+'\n'.join(out)+'\n<!-- phases end -->',s,flags=re.S)
def tab(name,txt):
    global s
    s=re.sub(r'<!-- %s -->(.*?<!-- /%s -->)?'%(name,name),lambda m:'<!-- %s -->\n%s\n<!-- /%s -->'%(name,txt,name),s,flags=re.S)
L=[json.loads(l) for l in open('known_findings.jsonl')]
tab('fixes','| property | commit | what failed |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%(k['property'],k.get('commit','known'),k['what'].split(' ',3)[3] if 'commit' in k else k['what']) for k in L))
S=[]
for d in sorted(glob.glob('seeded/*')):
    m=json.load(open(d+'/meta.json')); S.append('* %s (%s): %s'%(os.path.basename(d),m['property'],m['what_it_breaks'] if len(m['what_it_breaks'])<160 else m['needs']))
tab('seeds','\n'.join(S))
open('DESIGN.md','w').write(s)
