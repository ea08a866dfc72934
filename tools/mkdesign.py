# fills the table of planted bugs in DESIGN.md
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | property | needs | caught by (quick, seed 1) |","|---|---|---|---|"]
res=json.load(open(os.path.join(V,"tools","caught.json")))
P={d:os.path.join(V,s,d) for s in ("seeded","seeded-more") for d in os.listdir(os.path.join(V,s))}
for d in sorted(P):
    m=json.load(open(os.path.join(P[d],"meta.json")))
    rows.append("| %s | %s | %s | %s |"%(d,m["property"],m["needs"],res.get(d,"not run")))
p=os.path.join(V,"DESIGN.md"); t=open(p).read()
b="<!-- seeded table -->"; e="<!-- end of seeded table -->"
blk=b+"\n"+"\n".join(rows)+"\n"+e
t=t.replace("@@SEEDED@@",blk) if "@@SEEDED@@" in t else re.sub(re.escape(b)+".*?"+re.escape(e),lambda _:blk,t,flags=re.S)
open(p,"w").write(t)
