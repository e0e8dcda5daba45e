"""regenerate MANIFEST.json from the spec modules"""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'specs'))
VERIF = os.path.dirname(HERE)
ps = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
na = json.load(open(os.path.join(VERIF, 'not_applicable.json'))) if os.path.exists(os.path.join(VERIF, 'not_applicable.json')) else {}
checks, nas = [], []
for p in ps:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'specs', i.lower() + '.py')) and i not in na:
        m = importlib.import_module(i.lower())
        checks.append(dict(property=i, quick_cmd='bash check.sh %s quick' % i, thorough_cmd='bash check.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification of the real code (contracts on MIR functions, obligations discharged by z3)',
                           level=getattr(m, 'LEVEL', 'proof'), level_note=m.NOTE))
    else:
        nas.append(dict(property=i, reason=na.get(i, 'check not built yet')))
man = dict(version=1, setup_cmd='python3-vt -c "import z3; print(z3.get_version_string())" && rustc --version', checks=checks, not_applicable=nas,
           notes='Every check regenerates the MIR of /repo with rustc, verifies the contracts of its property with mirvc (z3) and runs the executable form of the same contracts against the real code.')
hooks = os.path.join(VERIF, 'hooks.json')
if os.path.exists(hooks):
    man['hooks'] = json.load(open(hooks))
json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
