#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import spec

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in spec.PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        n = len(re.findall(r'[.](?:\s|$)', re.sub(r'"[^"]*"', '', p['statement'])))
        if n > 3:
            print('too many sentences', p['id'], n)
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
checks, na = [], []
for p in spec.PROPS:
    if p['units']:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py check %s quick' % p['id'],
                       'thorough_cmd': 'python3 run.py check %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'no check yet: being built'})
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'hooks': {'guard': 'ICL_CORE_VERIF_HOOKS', 'enable': 'no hooks are needed: the harnesses in /verif link the unmodified sources',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'One driver (run.py) builds the harnesses with the sources of /repo\'s working tree, runs them and judges what the monitors and sanitizers reported. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')

# ---------------------------------------------------------------- the per-property part of DESIGN.md
import design_notes
fixed = {}
for line in open(os.path.join(HERE, 'known_findings.txt')):
    f = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
    if f:
        fixed.setdefault(f.group(1), []).append((f.group(2), f.group(3)))
out = ['<!-- generated by tools/gen.py from spec.py, workloads.py, design_notes.py and known_findings.txt -->', '']
for p in spec.PROPS:
    out += ['### %s  %s' % (p['id'], p['title']), '', p['statement'], '']
    if not p['units']:
        out += ['Not claimed: ' + (p['na'] or 'no check yet'), '']
        continue
    out += ['* Decided by: %s.' % p['technique'], '* Workload: %s' % p['note'], '* Counted: %s' % p['rule'],
            '* Runs (quick / thorough cases): ' + ', '.join(
                '%s%s %s %d / %d' % (u['harness'], ' (' + u['mode'] + ')' if u.get('mode') else '', u['flavor'], u['quick'], u['thorough']) for u in p['units']) + '.',
            '* Observed at least, or the check fails as broken: ' + ', '.join('%s %d' % (k.replace('obs.', ''), v) for k, v in sorted(p['min_obs'].items())) + '.',
            '* Why tests cannot: ' + p['why'], '* Limits: ' + design_notes.LIMITS[p['id']]]
    if p['id'] in fixed:
        out += ['* Defects found and repaired: ' + '; '.join('%s (`%s`)' % (w, h) for h, w in fixed[p['id']]) + '.']
    out += ['']
d = os.path.join(HERE, 'DESIGN.md')
t = open(d).read()
a, b = '<!-- BEGIN PROPERTIES -->\n', '<!-- END PROPERTIES -->\n'
if a in t:
    t = t[:t.index(a) + len(a)] + '\n'.join(out) + t[t.index(b):]
    open(d, 'w').write(t)
