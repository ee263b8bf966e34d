"""Rewrites the planted-bug table of DESIGN.md from seeds.py."""
import re
B={}
def bug(id,prop,edits,flags,demo,needs,breaks,extra_checks=()): B[id]=(prop,breaks)
exec(open("/verif/tools/seeds.py").read())
s=open("/verif/DESIGN.md").read()
t="<!--seeds-->\n| seeded/ | caught by | breaks |\n|---|---|---|\n"+"".join("| %s | %s | %s |\n"%(i,B[i][0],B[i][1]) for i in sorted(B))+"<!--/seeds-->"
s=re.sub(r"<!--seeds-->.*<!--/seeds-->",lambda m:t,s,flags=re.S); open("/verif/DESIGN.md","w").write(s)
