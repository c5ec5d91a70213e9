#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (and checks them against the schemas if they are here)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import props

lines = [p['json'] for p in props.ALL] + [n['json'] for n in props.NOT_APPLICABLE]
manifest = dict(version=1, setup_cmd='./run setup', checks=[], not_applicable=[dict(property=n['json']['id'], reason=n['reason']) for n in props.NOT_APPLICABLE],
                notes='All checks are generated-input searches driven by /verif/harness/vpt.hpp (random structured generation, shrinking, replay files); '
                      'VERIF_SEED and VERIF_TIER are honoured. ./run replay FILE re-runs a reported violation.')
for p in props.CLAIMED:
    manifest['checks'].append(dict(property=p['id'], quick_cmd='./run check %s --tier quick' % p['id'], thorough_cmd='./run check %s --tier thorough' % p['id'],
                                   evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration', level_note=p['level_note']))
try:
    import jsonschema
    ps, ms = (json.load(open('/root/.vp/%s.schema.json' % n)) for n in ('PROPERTIES', 'MANIFEST'))
    for l in lines:
        jsonschema.validate(l, ps)
        assert l['statement'].count('. ') <= 2, (l['id'], 'more than three sentences')
    jsonschema.validate(manifest, ms)
except ImportError:
    print('schemas not checked (run with python3-vt)')
repo = os.environ.get('REPO', '/repo')
for l in lines:
    for f in l['anchors']['files']:
        if not os.path.exists(os.path.join(repo, f)):
            print('no such anchor', l['id'], f)
open(os.path.join(ROOT, 'properties.jsonl'), 'w').write(''.join(json.dumps(l) + '\n' for l in lines))
open(os.path.join(ROOT, 'MANIFEST.json'), 'w').write(json.dumps(manifest, indent=1) + '\n')
import subprocess
import fixes
log = subprocess.run(['git', '-C', repo, 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed = []
for pid, subject, what in fixes.FIXES:
    hit = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + subject)]
    assert len(hit) == 1, (subject, hit)
    fixed.append('fixed: property=%s %s %s' % (pid, hit[0], what))
assert len(fixed) == sum(' fix: ' in l for l in log), 'a fix commit is not listed'
open(os.path.join(ROOT, 'known_findings.json'), 'w').write(json.dumps(dict(known=fixes.KNOWN, fixed=fixed), indent=1) + '\n')
