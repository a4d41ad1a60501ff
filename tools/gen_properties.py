#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=observe, hook_needed=hook)))
W='src/worker.rs'; L='src/lib.rs'; C='src/term/cross.rs'; V='src/term/vt52.rs'; LN='src/line.rs'; H='src/history.rs'; U='src/unix_util.rs'; A='src/line/add_ansi.rs'; K='src/completion.rs'
HK='cfg(liso_mc): one line in src/lib.rs that routes std through the model-checking runtime'
exec(open(os.path.join(os.path.dirname(__file__),'properties_src.py')).read())
ids=[x['id'] for x in P]; assert len(ids)==len(set(ids))
for x in P:
    assert len(x['title'])<=80, x['title']
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
