import sys, json; sys.path[:0] = ['/verif/lib', '/verif/lib/rules']
import ops
m = ops.rdf_module()
out = {r: [[f[0], f[3]] for f in d.get('fields', []) if f[0] != '<base>'] for r, d in m.records.items() if d.get('fields') and not r.startswith(('std::', '__', '_', 'pthread')) and 'std::' not in r.split('<')[0]}
json.dump(out, open('/verif/lib/fields.json', 'w'), indent=0, sort_keys=True)
print(len(out))
