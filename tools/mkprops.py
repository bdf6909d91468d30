#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
TODO = 'the static rule for this property is still being built; not claimed yet'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None, design=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      state=state, observe=observe, technique=technique, note=note, na=na, design=design))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                         'observe_at': list(p['observe']), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': './setup', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if p['na']:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(os.path.join(HERE, 'vmsa', 'rules', p['id'] + '.py')):
        m['not_applicable'].append({'property': p['id'], 'reason': TODO})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                            'thorough_cmd': './check %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m['notes'] = ('One analyser (extract/, vmsa/) over the clang AST of every unit of the GnuTLS and the OpenSSL '
              'configuration; each rule re-reads the current source of /repo. Exit 2 means the analysis lost its '
              'anchors. No hooks in /repo are used.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')

# DESIGN.md
out = []
for p in PROPS:
    out.append('### %s: %s\n' % (p['id'], p['title']))
    if p['na']:
        out.append('Not applicable: %s.\n' % p['na'])
        continue
    if not os.path.exists(os.path.join(HERE, 'vmsa', 'rules', p['id'] + '.py')):
        out.append('Not claimed yet: %s.\n' % TODO)
        continue
    out.append('*Method:* %s.\n' % p['technique'])
    if p['design']:
        out.append(p['design'] + '\n')
    out.append('*Assurance:* %s\n' % p['note'])
    out.append('*Beyond the tests:* %s\n' % p['why'])
sd = []
base = os.path.join(HERE, 'seeded')
for d in sorted(os.listdir(base)):
    mp = os.path.join(base, d, 'meta.json')
    if os.path.exists(mp):
        me = json.load(open(mp))
        sd.append('| %s | %s | %s | %s |' % (d, me['property'], me['what_it_breaks'].replace('|', '/'), me.get('caught_by', '?')))
K = json.load(open(os.path.join(HERE, 'known_findings.json')))
s = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
s = s.replace('@@PROPERTIES@@', '## Properties\n\n' + '\n'.join(out))
s = s.replace('@@SEEDED@@', '| change | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(sd))
s = s.replace('@@FIXED@@', '\n'.join('* ' + x for x in K['fixed']))
s = s.replace('@@OPEN@@', '\n'.join('* %s: %s (`%s`)' % (x['property'], x['what'], x['key']) for x in K['findings']) or 'none')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
