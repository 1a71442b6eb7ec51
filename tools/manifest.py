"""Writes MANIFEST.json from properties.jsonl and engine/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import plan
NOTE = ('Holds for all inputs the units cover (quick: all length classes of the small packet types, one header class and three property-length classes '
        'for CONNECT; thorough: all classes in all four builds), under the assumptions listed in the evidence. Comparisons the analysis cannot follow '
        'are listed as undecided in the evidence and raise no alarm; what std and bytes do is taken from models.')
SCAN = 'Exact for what it scans: the resolved program of all four builds. Effects hidden inside std and bytes calls that are not on the list are trusted.'
TECH = {
    'default': 'abstract interpretation of rustc MIR (merged states, value-flow to symbolic forms) compared with wire-format tables',
    'C25': 'whole-program scan of resolved callees, statics, unsafe code and type structure on rustc MIR',
    'C24': 'abstract interpretation of the four builds side by side, comparing symbolic outcomes',
    'C29': 'value-flow analysis of constructors on rustc MIR',
    'C30': 'value-flow analysis of equality and clone implementations on rustc MIR',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 engine/extract.py .build/warm', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: the analysis reads the crate through a rustc driver and needs no change to it. See DESIGN.md.'}
for p in ids:
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py --property %s' % p, 'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p,
                        'evidence_file': 'evidence/%s.json' % p, 'technique': TECH.get(p, TECH['default']), 'level': 'other',
                        'level_note': (SCAN if p == 'C25' else NOTE)})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
