# mkmut.py name file <<< "OLD\n====\nNEW"  creates /tmp/m/name.diff (several edits separated by a line '####file')
import sys,subprocess,shutil,os,tempfile
name=sys.argv[1]; src=sys.stdin.read()
d=tempfile.mkdtemp(prefix="/tmp/mk."); subprocess.run(["cp","-a","/repo",d+"/repo"],check=True)
os.chdir(d+"/repo"); subprocess.run(["git","checkout","-q","--","."])
for blk in src.split("####")[1:]:
    fn,rest=blk.split("\n",1); old,new=rest.split("\n====\n"); new=new.rstrip("\n"); fn=fn.strip()
    s=open(fn).read(); assert s.count(old)>=1,(fn,old); s=s.replace(old,new,1); open(fn,"w").write(s)
o=subprocess.run(["git","diff"],capture_output=True,text=True).stdout
out=sys.argv[2] if len(sys.argv)>2 else f"/tmp/m/{name}.diff"
open(out,"w").write(o); shutil.rmtree(d); print(out,len(o))
