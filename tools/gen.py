import json, os, sys
H = os.path.abspath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, os.path.join(H, 'tools'))
import catalog
NA = getattr(catalog, 'NA', [])
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for q in catalog.P + [dict(n, na=True) for n in NA]:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'],
                                quantifier=dict(over=q['over'], text=q['qtext']), why_tests_cant=q['why'],
                                anchors=dict(files=sorted(set(q['files'])), mechanism=[dict(name=a, where=b) for a, b in q['mech']]))) + '\n')
base = 'contract-based deductive verification: weakest-precondition style VCs from the current source, SMT-discharged'
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=q['id'], quick_cmd=f"python3-vt run.py {q['id']} quick", thorough_cmd=f"python3-vt run.py {q['id']} thorough",
                      technique=q['technique'] or base, level='proof',
                      level_note=q['note'] + '. Trusts the AST dumper, the VC generator, the framework contracts listed in the evidence and the SMT solvers; '
                      'machine integers and framework big numbers are exact unless stated.') for q in catalog.P],
         not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA],
         notes='DESIGN.md describes the technique; known-findings.txt lists findings and fixed defects.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
sys.path[:0] = [os.path.join(H, 'vcgen'), os.path.join(H, 'specs')]
