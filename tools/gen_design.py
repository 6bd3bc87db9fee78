"""Rewrite the generated tables of DESIGN.md (contracts per property; planted bugs)."""
import json, os, re, subprocess, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lst = json.loads(subprocess.run(['python3-vt', '-m', 'pyvc.list'], cwd=HERE, capture_output=True, text=True, check=True).stdout)
props = [json.loads(l) for l in open(f'{HERE}/properties.jsonl')]


def short(c):
    t = (c['target'] or 'lemma ' + c['name']).split(':')[-1]
    return f'`{t}`' + (' (thorough tier)' if c['tier'] == 'thorough' else '')


rows = []
for p in props:
    mine = [c for c in lst if p['id'] in c['props'] and not c['assumed']]
    rows.append(f"- **{p['id']}** ({len(mine)}): " + ', '.join(sorted({short(c) for c in mine})))
n = sum(not c['assumed'] for c in lst)
ver = sum(c['assumed'] and bool(re.match('verified|dict.pop|the lookup above', c['why'] or '')) for c in lst)
head = [f'{n} contracts and lemmas are verified; {sum(c["assumed"] for c in lst)} further entries are contracts used at call sites only '
        f'({ver} of them abbreviate a contract that is itself verified elsewhere; the others are assumptions).', '']
seeds = []
caught = json.load(open(f'{HERE}/tools/caught.json')) if os.path.exists(f'{HERE}/tools/caught.json') else {}
for d in sorted(glob.glob(f'{HERE}/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    seeds.append(f"| {i} | {m['property']} | {m['what_it_breaks'][:150]} | {caught.get(i, '')} |")
s = open(f'{HERE}/DESIGN.md').read()


def put(s, mark, text):
    a, b = f'<!-- {mark} -->', f'<!-- /{mark} -->'
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + '\n' + text + '\n' + s[j:]


s = put(s, 'contracts', '\n'.join(head + rows))
s = put(s, 'seeds', '\n'.join(['| planted bug | property | breaks | caught by |', '|---|---|---|---|'] + seeds))
open(f'{HERE}/DESIGN.md', 'w').write(s)
