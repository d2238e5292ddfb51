#!/usr/bin/env python3
"""developer aid: print the lowered form of functions whose qualified name ends with the argument"""
import sys
sys.path.insert(0,'/verif/engine')
import facts,ir
p=facts.load(); R=ir.IR(p)
for f in R.all():
    if f.bq.endswith(sys.argv[1]):
        print('==',f.bq,f.file,f.line,[ (x['t'],x['id']) for x in f.params])
        for b in f.blocks:
            if b.id in f.reach:
                print('B',b.id)
                for o in b.ops:
                    i=dict(o.info or {}); i.pop('pts',None); 
                    print('   %s'%o.l,o.k,'' if o.dst is None else 't%d'%o.dst,o.a or '',o.b or '',o.x or '',i)
                print('    ->',b.term)
