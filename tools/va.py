import sys, os, assemble, subprocess
r=assemble.assemble(f'/verif/contracts/{sys.argv[1]}.vrs', variant=bool(os.environ.get('VARIANT')))
print('LOST', r.lost, 'funcs', len(r.funcs))
p=f'/tmp/vt/{sys.argv[1]}.rs'
open(p,'w').write(r.text)
x=subprocess.run(['verus',p,'--triggers-mode','silent']+sys.argv[2:],capture_output=True,text=True)
o=(x.stdout+x.stderr)
print(o[:9000])
print(o[-300:] if len(o)>9000 else '')
