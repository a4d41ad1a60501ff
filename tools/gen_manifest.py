#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the properties with a check (tools/claims.py) and the others."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from claims import CLAIMS, NOT
ids = [json.loads(l)['id'] for l in open(os.path.join(here, '..', 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in CLAIMS:
        continue
    tech, note = CLAIMS[i]
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json', technique=tech, level='model_checking', level_note=note))
na = [dict(property=i, reason=NOT.get(i, 'no check built yet')) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd='./check.sh --build',
    hooks=dict(guard='cfg(liso_mc)',
        enable="the harness crate in mc/ builds /repo with RUSTFLAGS='--cfg liso_mc' (mc/.cargo/config.toml) and [patch.crates-io] replacements of nix, tokio, crossterm and parking_lot; under the cfg every std path in liso resolves to the model-checking runtime",
        source_commits=['ffee1d8', '63d99bd', '88326c1']),
    checks=checks, not_applicable=na,
    notes='./check.sh ID TIER runs one check; mc/target/release/lisomc replay FILE re-runs a violation verbosely. Known and fixed findings: known-findings.txt.')
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
