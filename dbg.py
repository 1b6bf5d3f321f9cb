import sys,os,importlib,tempfile
pid,entry=sys.argv[1:3]; TD=tempfile.mkdtemp(); os.environ['IRV_DEBUG']='1'
sys.path.insert(0,'/verif')
import check, irv.ir as ir, irv.contract as ct
mod=importlib.import_module('specs.'+pid)
S=[s for s in mod.SPECS if s.entry==entry][0]
h=S.harness or pid+'.cpp'
for c in (check.CLANG+getattr(mod,'HARNESS_FLAGS',[])+['/verif/harness/'+h,'-o',TD+'/d.ll'],['opt','-S','-passes=sroa,simplifycfg',TD+'/d.ll','-o',TD+'/d2.ll']):
    r=check.sh(c)
    if r.returncode: print(r.stdout); sys.exit(1)
m=ir.load(TD+'/d2.ll'); __import__('shutil').rmtree(TD); r=ct.verify(m,S,float(sys.argv[3]) if len(sys.argv)>3 else 300)
print({k:v for k,v in r.items() if k not in('obls','failed','inlined','trusted','loops')})
for o in r['obls']:
    if not o[2] or o[3]>1: print(o)
