"""Rewrites the table of planted bugs in DESIGN.md."""
import json,glob,os,sys
out=[]
for d,t in (("seeded",""),("mutants","")):
    for p in sorted(glob.glob(f'/verif/{d}/*/meta.json')):
        m=json.load(open(p)); i=p.split('/')[3]
        out.append((d,i,m["property"],m["needs"].strip().rstrip('.')))
by={}
for d,i,pr,n in out: by.setdefault((d,pr),[]).append((i,n))
ext=json.load(open('/verif/tools/extensions.json'))
s=[]
for (d,pr),l in sorted(by.items(), key=lambda x:(x[0][0]!="seeded",x[0][1])):
    if d=="mutants": continue
    s.append(f"* **{pr}**: "+"; ".join(f"`{i[4:]}` ({n})"+(f" [{ext[i]}]" if i in ext else "") for i,n in l)+".")
s.append("")
s.append("Further mutants, in /verif/mutants, change lines that the fix commits added and so do not count as planted bugs; the checks catch them all the same: "+", ".join(f"`{i}`" for d,i,pr,n in out if d=="mutants")+".")
t=open('/verif/DESIGN.md').read()
if "SEEDTABLE" in t: t=t.replace("SEEDTABLE","<!-- seeds -->\n"+"\n".join(s)+"\n<!-- /seeds -->")
else:
    a,b=t.index("<!-- seeds -->"),t.index("<!-- /seeds -->")
    t=t[:a]+"<!-- seeds -->\n"+"\n".join(s)+"\n"+t[b:]
open('/verif/DESIGN.md','w').write(t)
