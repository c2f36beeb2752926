#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 doc/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST = 'include/boost/accumulators/statistics/'
FW = 'include/boost/accumulators/framework/'
P = []
NA = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique='', note='', level='other', claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe,
                  technique=technique, note=note, level=level, claimed=claimed))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, 'doc', 'proplist.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['qtext']),
                                    why_tests_cant=q['why'],
                                    anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']],
                                                 state=[dict(name=n, meaning=m, where=w) for n, m, w in q['state']],
                                                 observe_at=list(q['observe']), hook_needed=False))) + '\n')
    man = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='none', enable='no hooks: the checks read /repo as it is', source_commits=[]),
               checks=[dict(property=q['id'], quick_cmd='python3 check.py %s' % q['id'], thorough_cmd='python3 check.py %s' % q['id'],
                            technique=q['technique'], level=q['level'], level_note=q['note']) for q in P if q['claimed']],
               not_applicable=NA)
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(man['checks']), 'claimed')


main()
