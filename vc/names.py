import sys
sys.path[:0]=['/verif/vc']
import ir,re
m=ir.Module(sys.argv[1])
for f in m.funcs.values():
    if re.search(sys.argv[2], f.dname): print(f.defined, f.dname[:int(sys.argv[3]) if len(sys.argv)>3 else 300])
