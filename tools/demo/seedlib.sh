mk () 
{ 
    mkdir -p /verif/seeded/$1;
    cat > /verif/seeded/$1/demo.sh
}
pt () 
{ 
    python3 - "$@" <<'P'
import sys,subprocess
i,f,o,n=sys.argv[1:]
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
p='/repo/'+f; s=open(p).read(); assert s.count(o)>=1,(f,o); open(p,'w').write(s.replace(o,n,1))
d=subprocess.check_output(['git','-C','/repo','diff'],text=True)
open(f'/verif/seeded/{i}/patch.diff','w').write(d)
subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
P

}
meta () 
{ 
    python3 -c "
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({'property':p,'needs':n,'what_it_breaks':w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)" "$@"
}
