# refreshes the seeded-bug table of DESIGN.md
import json,glob,re,os
V=os.path.dirname(os.path.abspath(__file__)); f=V+"/DESIGN.md"; s=open(f).read()
rows="\n".join("| %s | %s | %s; needs: %s | %s |"%(d.split("/")[-2],(m:=json.load(open(d)))["property"],m["what_it_breaks"],m["needs"],m["property"]) for d in sorted(glob.glob(V+"/seeded/*/meta.json")))
s=s.replace("@@C05@@\n","").replace("@@SEEDS@@","<!-- seeds -->\n<!-- end -->")
s=re.sub(r"(\| seeded \|.*\n\|----\|----\|----\|----\|\n)(?:<!-- seeds -->\n<!-- end -->|(?:\|.*\n)*)",lambda k:k.group(1)+rows+"\n",s)
open(f,"w").write(s)
