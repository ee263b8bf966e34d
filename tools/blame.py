import re,subprocess,os,glob
mine=set(subprocess.run("git -C /repo log --format=%h --abbrev=8 --grep=^fix:",shell=True,capture_output=True,text=True).stdout.split())
root=subprocess.run("git -C /repo log --format=%h --abbrev=8 --author=.",shell=True,capture_output=True,text=True).stdout.split()
for d in sorted(glob.glob("/verif/seeded/*")):
    cur=None; tot=own=0
    for l in open(d+"/patch.diff"):
        m=re.match(r"--- a/(.*)",l)
        if m: cur=m.group(1).strip(); b=subprocess.run(["git","-C","/repo","blame","-s","--abbrev=7",cur],capture_output=True,text=True).stdout.splitlines(); continue
        m=re.match(r"@@ -(\d+)",l)
        if m: n=int(m.group(1)); continue
        if l.startswith("+++") or l.startswith("diff"): continue
        if l.startswith("-"):
            tot+=1; own+= b[n-1].split()[0].lstrip("^")[:8] in mine; n+=1
        elif l.startswith(" "): n+=1
    if own or tot==0: print(os.path.basename(d),"removed",tot,"own",own)
