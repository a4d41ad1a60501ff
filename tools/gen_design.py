#!/usr/bin/env python3
"""Puts DESIGN.md together from its parts, known-findings.txt and seeded/."""
import json,glob,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda p:open(os.path.join(R,p)).read()
out=rd('tools/design_head.md').rstrip()+'\n\n'+rd('tools/design_props.md').rstrip()+'\n\n'
out+='## 3. Genuine defects found\n\nEach was reported by the named check on the original tree, shown against the real code, and repaired in\nits own `fix:` commit.  None is left as a known finding.\n\n| property | commit | what failed |\n|---|---|---|\n'
for l in rd('known-findings.txt').split('\n'):
    if l.startswith('fixed: '):
        _,p,c,w=l.split(' ',3); out+=f'| {p[9:]} | {c} | {w} |\n'
out+='\n'+rd('tools/design_tail.md').rstrip()+'\n\n## 7. Planted bugs, and which check catches which\n\n'
out+=rd('tools/design_bugs.md').rstrip()+'\n\n| bug | property | caught by | needs |\n|---|---|---|---|\n'
for d in sorted(glob.glob(os.path.join(R,'seeded/*/meta.json'))):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    also=m.get('caught_by',m['property']+' quick')
    out+=f"| {n} | {m['property']} | {also} | {m['needs']} |\n"
out+='\n'+rd('tools/design_mut.md').rstrip()+'\n'
open(os.path.join(R,'DESIGN.md'),'w').write(out)
