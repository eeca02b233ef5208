import sys, json; sys.path.insert(0, '/verif/engine')
from plan import PLAN, LEVEL, NOTES
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = json.load(open('/verif/tools/na.json'))
checks = []
for p in props:
    i = p['id']
    if i not in PLAN: continue
    checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
        technique=NOTES.get(i + ':technique', 'contract-based deductive verification of rustc MIR (symbolic execution against contracts, ring normaliser + z3), failing obligations replayed on the real code'),
        level=LEVEL.get(i, 'proof'), level_note=NOTES.get(i + ':note', 'Every contract and lemma is discharged for all inputs on the MIR of the current tree, loops summarised without a bound; trusted: models of external crates (group arithmetic as exact discrete logarithms, pairing bilinear and non-degenerate, hashes as functions), the engine and z3; obligations the engine cannot decide are listed in the evidence as undecided and covered only by the labelled bounded replay.')))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'not yet covered: no contract for these functions is discharged by the engine so far')) for p in props if p['id'] not in PLAN]
json.dump(dict(version=1, setup_cmd='./check.sh setup', hooks=dict(guard='none (no hooks needed)', enable='nothing to enable: checks read MIR of the unmodified crates and use public APIs', source_commits=[]), checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
