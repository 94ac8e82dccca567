#!/usr/bin/env python3
"""Write MANIFEST.json from the list of implemented checks (run by hand when a check is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': ('TLA+ spec Docs.tla (TLC) + replay of its routes and document trees', 'every awkward scalar in every context and all shapes to depth 2, random fillings by seed; PyYAML/json in the oracle are trusted'),
 'C02': ('TLA+ spec Docs.tla (TLC) + replay of its conversion routes', 'as C01, through functions and command line'),
 'C03': ('TLA+ spec Registry.tla, exhaustive TLC, every state and simulated behaviours replayed', 'exhaustive over the small world of 2 EFTs, 3 bases, 3 coefficients; names are mapped to confusable pools; large bases sampled'),
 'C04': ('TLA+ spec Registry.tla, exhaustive TLC, every state replayed, stand-in latex', 'exhaustive over the small world; larger bases sampled; latex is a stand-in program'),
 'C05': ('TLA+ specs Registry.tla and Dispatch.tla, exhaustive TLC, every transition and simulated behaviours replayed', 'exhaustive over the small world of names'),
 'C06': ('TLA+ spec Registry.tla, exhaustive TLC, every definition transition replayed', 'exhaustive over the small world of sector maps and parents'),
 'C07': ('TLA+ spec Values.tla, exhaustive TLC, every value form and number replayed', 'named reals stand for all floats, plus random bit patterns'),
 'C08': ('TLA+ spec Dispatch.tla, exhaustive TLC, every registry state and query replayed', 'exhaustive over the small world; returned numbers sampled'),
 'C21': ('TLA+ spec Latex.tla, exhaustive TLC, every scenario replayed with a stand-in latex', 'stand-in follows the latex command line'),
 'C22': ('TLA+ spec Render.tla, exhaustive TLC, scenarios replayed and the printed tables parsed', 'tables are parsed as markdown'),
}
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE and os.path.exists(os.path.join(V, 'harness', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'bash check.sh %s quick' % i,
                       'thorough_cmd': 'bash check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': NOTE[i][0],
                       'level': 'model_checking', 'level_note': NOTE[i][1]})
    else:
        na.append({'property': i, 'reason': 'specification and conformance check not finished yet'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+/TLC; see DESIGN.md. No hooks in /repo are needed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
