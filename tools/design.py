#!/usr/bin/env python3
# fills DESIGN.md's generated parts from tools/design_head.md, props_data.py, harness doc comments, seeded/
import re,glob,os,json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,quant,why,files,mech,state=(),observe=(),note=""): P.append((id,title,files,note,why))
exec(open(V+"/tools/props_data.py").read())
out=[]
for id,title,files,note,why in P:
    out.append("### %s %s\n"%(id,title))
    if note.startswith("NA:"):
        out.append("Not applicable: "+note[3:].strip()+"\n"); continue
    out.append("Code: "+", ".join(files)+". "+(note+" " if note else "")+"Beyond the tests: "+why+"\n")
    for f in sorted(glob.glob(V+"/harness/zz_vp_%s_*.go"%id.lower())):
        s=open(f).read()
        for m in re.finditer(r"((?:^//.*\n)+)func (VP_\w+)\(\)",s,re.M):
            doc=" ".join(l[2:].strip() for l in m.group(1).strip().split("\n"))
            out.append("- `%s`: %s"%(m.group(2),doc))
    out.append("")
seed=["| change | property | needs | caught by |","|---|---|---|---|"]
caught=json.load(open(V+"/tools/caught.json")) if os.path.exists(V+"/tools/caught.json") else {}
for d in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    seed.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"],caught.get(i,"?")))
s=open(V+"/tools/design_head.md").read()
s=s.replace("@@TABLE@@","\n".join(out)).replace("@@SEEDED@@","\n".join(seed))
open(V+"/DESIGN.md","w").write(s)
