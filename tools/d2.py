import sys,shutil; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/selftest'); sys.setrecursionlimit(20000)
import run
shutil.rmtree('/tmp/w/mx',ignore_errors=True)
shutil.copytree('/repo/python/xoscar','/tmp/w/mx/xoscar',ignore=shutil.ignore_patterns('*.so','tests','*.c','*.cpp'))
for m in run.load():
    if m[0]==sys.argv[1]:
        for f,o,n in m[3]:
            p='/tmp/w/mx/xoscar/'+f; s=open(p).read(); assert o in s; open(p,'w').write(s.replace(o,n,1))
