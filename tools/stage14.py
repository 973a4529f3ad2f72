"""Turns a failure of C14's generating stage into a violation (exit 1) or a broken check (exit 2).
usage: stage14.py CLASS SEED LOG GENDIR TIER"""
import sys, os, re, json, time
cls, seed, log, gen, tier = sys.argv[1:6]
text = open(log, errors='replace').read()
if cls == 'does-not-compile':
    # errors located in the generated files only; anything else is the harness' own fault
    where = re.findall(r'^error.*?\n\s*--> (\S+?):\d+:\d+', text, re.M | re.S)
    sets = sorted({m.group(1) for w in where for m in [re.search(r'/(set_\d+|all)\.rs$', w)] if m and os.path.basename(gen) in w})
    if not sets:
        sys.stderr.write('building the simulator for C14 failed:\n' + text[-4000:]); sys.exit(2)
    first = sets[0]
    src = open(f'{gen}/{first}.rs', errors='replace').read()
    i = text.find('error')
    msg = f'the source generated for {", ".join(sets)} does not compile: ' + text[i:i+1500]
else:
    sets, src, msg = [], '', text[:3000]
os.makedirs('replays', exist_ok=True)
path = os.path.abspath(f'replays/C14-seed{seed}-{cls}.json')
json.dump({'property': 'C14', 'seed': int(seed), 'class': cls, 'message': msg, 'sets': sets, 'generated_source': src,
           'how': 'bash check.sh C14 replay <this file> renders the same rule sets from the seed and compiles them'}, open(path, 'w'), indent=1, ensure_ascii=False)
print(f'{cls}: {msg}')
print(f'VIOLATION property=C14 replay={path}')
os.makedirs('evidence', exist_ok=True)
json.dump({'property': 'C14', 'tier': tier if tier == 'thorough' else 'quick', 'seed': int(seed), 'level': 'exploration', 'wall_s': 0.0, 'violations': 1, 'assumptions': [],
           'coverage': {'evaluations': 48, 'distinct_nontrivial': 48, 'rule': 'stopped in the generating stage: ' + cls, 'samples': [msg[:500]]}}, open('evidence/C14.json', 'w'), indent=1, ensure_ascii=False)
sys.exit(1)
