import sys; sys.path[:0]=['/verif/lib','/verif/lib/rules']
import ops
from absint import *
mod=ops.rdf_module()
for n in sys.argv[1:]:
    for F in mod.short.get(n,[]):
        print('==',F.dem,F.file,F.line)
        for b,blk in enumerate(F.blocks):
            for x in blk:
                if x['op'] in('call','invoke'):
                    print('  b%d'%b,x.get('l'),x['op'],mod.dem(x['fn']) if 'fn' in x else ('indirect',x.get('fp')), x['o'] if len(str(x['o']))<100 else '')
