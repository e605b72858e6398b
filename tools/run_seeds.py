#!/usr/bin/env python3
"""Applies planted bugs to /repo one at a time, runs checks against each and records the outcome.

usage: run_seeds.py [--checks C01,C02|all|own] [--tier quick] [SEED...]
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = 'own'
tier = 'quick'
names = []
while args:
    a = args.pop(0)
    if a == '--checks': checks = args.pop(0)
    elif a == '--tier': tier = args.pop(0)
    else: names.append(a)
seeds = sorted(os.listdir(f'{HERE}/seeded'))
names = names or seeds
allc = [json.loads(l)['id'] for l in open(f'{HERE}/properties.jsonl')]
out = f'{HERE}/tools/seed_results.json'
def git(*a): return subprocess.run(['git', '-C', '/repo', *a], check=True, capture_output=True, text=True).stdout
assert git('status', '--porcelain') == '', '/repo is not clean'
for s in names:
    meta = json.load(open(f'{HERE}/seeded/{s}/meta.json'))
    ids = allc if checks == 'all' else [meta['property']] if checks == 'own' else checks.split(',')
    try:
        git('apply', f'{HERE}/seeded/{s}/patch.diff')
        for c in ids:
            t = time.time()
            r = subprocess.run([f'{HERE}/check', c, tier], capture_output=True, text=True, timeout=1800)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = r.returncode == 1 and any(f'property={c} ' in l for l in v)
            word = 'caught' if ok else 'missed' if r.returncode == 0 else f'rc{r.returncode}'
            print(s, c, word, f'{time.time()-t:.0f}s', v[0][:200] if v else '', flush=True)
            if word.startswith('rc'): print(r.stderr[-1500:])
            d = json.load(open(out)) if os.path.exists(out) else {}
            d.setdefault(s, {})[c] = word
            json.dump(d, open(out, 'w'), indent=1, sort_keys=True)
    finally:
        git('checkout', '--', '.')
