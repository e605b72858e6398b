#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl,
tools/design_props.md and the bounds the checkers print), tools/design_tail.md and the table of
planted bugs (from seeded/*/meta.json and tools/seed_results.json)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(root, p)).read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines() if l.strip()]
notes = json.load(open(os.path.join(root, 'tools/check_notes.json')))
body = {}
for part in re.split(r'^## ', rd('tools/design_props.md'), flags=re.M)[1:]:
    head, text = part.split('\n', 1)
    body[head.strip()] = text.strip()
out = [rd('tools/design_head.md').rstrip(), '', '# Properties', '']
for p in props:
    i = p['id']
    out += [f"## {i} {p['title']}", '', p['statement'], '']
    out += [f"*Technique:* {notes[i]['technique']}.", '']
    out += [body.get(i, ''), '']
    src = rd(f'mc/src/bin/{i.lower()}.rs')
    bounds = re.findall(r'c\.bound\((?:format!\()?"((?:[^"\\]|\\.)*)"', src)
    assume = re.findall(r'c\.assume\((?:format!\()?"((?:[^"\\]|\\.)*)"', src)
    out += ['*Bounds* (quick, thorough in parentheses):', ''] + [f'- {b}' for b in bounds] + ['']
    if assume:
        out += ['*Assumptions:*', ''] + [f'- {a}' for a in assume] + ['']
out += [rd('tools/design_tail.md').rstrip(), '']
res = json.load(open(os.path.join(root, 'tools/seed_results.json'))) if os.path.exists(os.path.join(root, 'tools/seed_results.json')) else {}
seeds = sorted(os.listdir(os.path.join(root, 'seeded'))) if os.path.isdir(os.path.join(root, 'seeded')) else []
out += ['# Planted bugs', '', f'{len(seeds)} changes are kept in `seeded/`. Each compiles, passes the 241 stable tests, and its',
        'demonstration fails with it and passes without it. "own" is the check of the property the change was',
        'written against; "others" are further checks that were run on it and reported it.', '',
        '| id | property | what it breaks | own check | others |', '|---|---|---|---|---|']
for s in seeds:
    m = json.load(open(os.path.join(root, 'seeded', s, 'meta.json')))
    r = res.get(s, {})
    own = r.get(m['property'], 'not run')
    oth = ', '.join(sorted(k for k, v in r.items() if v == 'caught' and k != m['property'])) or '-'
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {own} | {oth} |")
out.append('')
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
