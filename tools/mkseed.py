#!/usr/bin/env python3
"""tools/mkseed.py <id> <property> <file> <<< blocks: OLD\n====\nNEW\n%%%%\nneeds\n%%%%\nbreaks\n%%%%\ndemo.cc  (several edits separated by @@@@ [file])"""
import sys,os,json,shutil,subprocess,tempfile
i,p,f=sys.argv[1:4]; t=sys.stdin.read(); ed,needs,brk,demo=t.split('\n%%%%\n',3)
D='/verif/seeded/'+i; os.makedirs(D,exist_ok=True)
T=tempfile.mkdtemp(prefix='/tmp/mk'); subprocess.check_call('git -C /repo archive HEAD | tar x -C '+T,shell=True); subprocess.check_call(['git','-C',T,'init','-q']); subprocess.check_call('cd %s && git add -A && git -c user.name=a -c user.email=a commit -qm x'%T,shell=True)
for k,b in enumerate(ed.split('\n@@@@')):
    fn=f
    if k and b.startswith(' '): fn,b=b[1:].split('\n',1)
    elif b.startswith('\n'): b=b[1:]
    o,n=b.split('\n====\n') if '\n====\n' in b else (b[:-5],'') if b.endswith('\n====') else b.split('====',1)
    s=open(T+'/'+fn,newline='').read(); assert s.count(o)==1,(s.count(o),o)
    open(T+'/'+fn,'w',newline='').write(s.replace(o,n))
open(D+'/patch.diff','w').write(subprocess.check_output(['git','-C',T,'diff'],text=True))
shutil.rmtree(T)
json.dump({'property':p,'needs':needs,'what_it_breaks':brk},open(D+'/meta.json','w'),indent=1)
if demo.strip(): open(D+'/demo.cc','w').write(demo)
shutil.copy('/verif/tools/seedlib/demo.h',D); shutil.copy('/verif/tools/seedlib/demo.sh',D); os.chmod(D+'/demo.sh',0o755)

if os.environ.get('EXTRA'): open(D+'/extra','w').write(os.environ['EXTRA']+'\n')
