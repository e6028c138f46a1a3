"""usage: fuzzdiff.py <bug-id>: find a short text on which remove_emphasis of the patched tree differs (for writing demos)."""
import sys, os, subprocess, random, json, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
b=[x for x in BUGS if x['id']==sys.argv[1]][0]
d=tempfile.mkdtemp(); subprocess.run(['cp','-a','/repo',d+'/repo'])
for f,o,n in b['edits']:
    p=d+'/repo/'+f; s=open(p).read(); assert s.count(o)==1; open(p,'w').write(s.replace(o,n))
rnd=random.Random(1)
al=sys.argv[2] if len(sys.argv)>2 else '*_*_ab ()'
c=[''.join(rnd.choice(al) for _ in range(rnd.randint(3,12))) for _ in range(40000)]
code='''
import sys,json
sys.path.insert(0,sys.argv[1])
from md_toc import api
def f(x):
    try: return api.remove_emphasis(x)
    except Exception as e: return repr(e)
print(json.dumps([f(x) for x in json.load(sys.stdin)]))
'''
r=[json.loads(subprocess.run(['/opt/venv/bin/python','-B','-c',code,q],input=json.dumps(c),capture_output=True,text=True,cwd='/').stdout) for q in ('/repo',d+'/repo')]
L=sorted(((x,a,b2) for x,a,b2 in zip(c,*r) if a!=b2),key=lambda t:len(t[0]))
print(len(L),L[:5])
shutil.rmtree(d)
