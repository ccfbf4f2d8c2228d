"""Writes properties.jsonl, MANIFEST.json and section 3 of DESIGN.md."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS  # noqa: E402

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(
                files=p['files'],
                mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                observe_at=p['observe'], hook_needed=None))) + '\n')

with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='bash run.sh --setup',
        checks=[dict(property=p['id'],
                     quick_cmd='bash run.sh %s quick' % p['id'],
                     thorough_cmd='bash run.sh %s thorough' % p['id'],
                     technique='model checking: ' + p['technique'],
                     level='model_checking', level_note=p['note'])
                for p in PROPS],
        not_applicable=[]), f, indent=1)
    f.write('\n')

path = os.path.join(HERE, 'DESIGN.md')
if os.path.exists(path):
    text = open(path).read()
    start, end = '<!-- properties -->\n', '<!-- end properties -->\n'
    if start in text:
        head, rest = text.split(start)
        tail = rest.split(end)[1]
        body = ''.join('### %s %s\n\n%s\n\n*Enumerated:* %s. *Bounds and '
                       'limits:* %s *Beyond the tests:* %s\n\n'
                       % (p['id'], p['title'], p['design'], p['text'],
                          p['note'], p['why']) for p in PROPS)
        open(path, 'w').write(head + start + '\n' + body + end + tail)
