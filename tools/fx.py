import subprocess,sys
def fix(path, old, new, msg):
    p='/repo/src/rxn_network/'+path
    s=open(p).read(); assert s.count(old)==1,(path,s.count(old),old[:60])
    open(p,'w').write(s.replace(old,new))
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
