#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/meta.py` after changing it."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def N(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=reason))


TRUST = ' Trusts rustc\'s MIR, the extractor, and the models of std calls in analysis/models.py.'

exec(open(os.path.join(VERIF, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 analysis/facts.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 analysis/check.py %s quick' % p['id'],
                     'thorough_cmd': 'python3 analysis/check.py %s thorough' % p['id'],
                     'technique': p['technique'], 'level': 'other', 'level_note': p['note'] + TRUST}
                    for p in PROPS if 'na' not in p],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if 'na' in p]}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
