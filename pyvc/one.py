"""Verify one contract and write the outcome as JSON:  python3-vt -m pyvc.one KEY OUT"""
import json
import os
import sys
from .verify import load, verify


def main():
    sys.setrecursionlimit(20000)
    key, out = sys.argv[1:3]
    repo, reg = load(os.environ.get('PYFILECONF_REPO_SRC') or None)
    for c in reg:
        if c.key == key:
            r = verify(c, repo, reg)
            used = set(r['used'])
            r['used_keys'] = [k.key for k in reg if k.target in used and not k.opts.get('alt')]
            r['assumed'] = [{'target': k.target, 'why': k.why} for k in reg if k.assumed and k.target in used]
            r['results'] = [[str(y) for y in x] for x in r['results']]
            with open(out, 'w') as f:
                json.dump(r, f)
            return
    raise SystemExit('no contract ' + key)


if __name__ == '__main__':
    main()
