"""Development aid: seed(id, property, [(path, old, new)], demo, needs, breaks, files) writes seeded/<id>/."""
import subprocess, os, json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE='''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD; I="-I$R/src -I$R/src/device -I$R/src/test -I$R/_build -I$R/_build/src -I$T"
[ -f "$T/config.h" ] || sed -E 's/#cmakedefine[ \\t]+([A-Za-z0-9_]+).*/#define \\1 1/; s/@[A-Za-z0-9_]+@/1/g' "$R/src/config.h.in" >"$T/config.h"
printf "#include <stdint.h>\\nuint64_t step_count;" >"$T/sc.c"
TOP="$T/sc.c $R/src/logger.c $R/src/event.c $R/src/conf.c"
DEV="$R/src/device/card.c $R/src/device/disassem.c $R/src/device/device.c $R/src/device/tape.c $R/src/device/xlat.c $R/src/device/dasd.c $R/src/device/cpu.c"
'''
def seed(id, prop, edits, demo, needs, breaks, files={}):
    d=f"{V}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(["git","-C","/repo","status","--porcelain"],capture_output=True,text=True).stdout.strip()
    for p,o,n in edits:
        s=open("/repo/"+p,encoding="latin1").read(); assert s.count(o)==1,(p,o,s.count(o)); open("/repo/"+p,"w",encoding="latin1").write(s.replace(o,n))
    open(d+"/patch.diff","w",encoding="latin1").write(subprocess.run(["git","-C","/repo","diff"],capture_output=True).stdout.decode("latin1"))
    base=subprocess.run(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],capture_output=True,text=True).stdout.split()[-1]
    for p in {e[0] for e in edits}:
        old=set(subprocess.run(["git","-C","/repo","show",base+":"+p],capture_output=True).stdout.decode("latin1").split("\n"))
        cut=[l[1:] for l in subprocess.run(["git","-C","/repo","diff","--",p],capture_output=True).stdout.decode("latin1").split("\n") if l.startswith("-") and not l.startswith("---")]
        if not any(l in old for l in cut): print(id,p,"changes no original line:",cut)
    subprocess.run(["git","-C","/repo","checkout","-q","--","."],check=True)
    open(d+"/demo.sh","w").write(PRE+demo); os.chmod(d+"/demo.sh",0o755)
    for f,c in files.items(): open(d+"/"+f,"w").write(c)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
