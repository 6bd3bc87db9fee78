"""List the contracts:  python3-vt -m pyvc.list"""
import json
from .verify import load

repo, reg = load()
print(json.dumps([{'key': c.key, 'target': c.target, 'props': c.props, 'assumed': c.assumed, 'why': c.why,
                   'alt': bool(c.opts.get('alt')), 'kind': c.kind, 'tier': c.opts.get('tier', 'quick'),
                   'module': c.module, 'name': c.name} for c in reg]))
