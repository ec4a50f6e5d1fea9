import sys; sys.path.insert(0,'/verif/lib')
import vpbuild as B, glob, os, re, subprocess, json
from concurrent.futures import ThreadPoolExecutor
out='/tmp/w/st/b'; os.makedirs(out,exist_ok=True)
B.extra_flags=lambda f: []
lib=B.build_lib_bc(out)
os.makedirs('/tmp/w/st/CUnit',exist_ok=True)
open('/tmp/w/st/CUnit/CUnit.h','w').write(open('/verif/lib/cunit_stub.h').read())
open('/tmp/w/st/CUnit/Basic.h','w').write('#include <CUnit/CUnit.h>\n')
B.incs0=B.incs
B.incs=lambda o: ["-I/tmp/w/st"]+B.incs0(o)
tests=[f for f in glob.glob('/repo/tests/**/*.c',recursive=True) if '/main/' not in f]
with ThreadPoolExecutor(8) as ex: bcs=list(ex.map(lambda f:B.bc_one(f,out),tests+['/verif/lib/vp_libc.c']))
B.sh(["llvm-link-18",lib]+bcs+["-o",out+"/all.bc"]); B.sh(["opt-18","-passes="+B.PASSES,out+"/all.bc","-o",out+"/t.bc"])
names=[]
for f in glob.glob('/repo/tests/**/suite.c',recursive=True):
    names+=re.findall(r'CU_add_test\([^,]*,\s*"[^"]*",\s*(\w+)\)|\{\s*"[^"]*",\s*(\w+)\s*\}',open(f).read())
names=[a or b for a,b in names]
if not names:
    for f in glob.glob('/repo/include/tests/*.h'): names+=re.findall(r'void (test_\w+)\(',open(f).read())
print(len(names))
def run(n):
    o='/tmp/w/st/%s.json'%n
    p=subprocess.run(['/tmp/w/symx',out+'/t.bc','--entry',n,'--name',n,'--out',o,'--replay-dir','/tmp/w/st','--max-time','120','-v','--max-steps','2000000000'],capture_output=True,text=True,env=dict(os.environ,TZ='Pacific/Auckland'))
    return n,p.returncode,p.stderr,o
with ThreadPoolExecutor(8) as ex:
    for n,rc,err,o in ex.map(run,names):
        try: j=json.load(open(o))
        except Exception: print(n,'NOOUT',rc,err[-300:]); continue
        os.remove(o)
        print(n,'ok' if rc==0 and not j['incomplete'] else 'BAD',j['completed'],j['paths'],j['steps'],'%.1fs'%j['wall_s'],j['incomplete'],[ (v['kind'],v['msg'],v['stack'][:200]) for v in j['violations']])
