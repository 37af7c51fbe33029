import sys,subprocess
ns={};exec(open(sys.argv[1]).read(),ns)
subprocess.run('rm -rf /tmp/work && cp -a /tmp/mut/repo /tmp/work',shell=True)
for m in ns['M']:
    if m[0]==sys.argv[2] or m[0].startswith(sys.argv[2]+" "):
        for (f,old,new,*cnt) in m[2]:
            p='/tmp/work/'+f; s=open(p).read(); k=cnt[0] if cnt else 1
            parts=s.split(old)
            s=s.replace(old,new) if k==0 else old.join(parts[:k])+new+old.join(parts[k:])
            open(p,'w').write(s)
