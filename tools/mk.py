import os,sys,json,subprocess,shutil,textwrap
SRC="/repo/src/"
BUGS={}
def bug(id,prop,edits,needs,breaks,demo,san=False,extra=None,flags="",pre=""):
    BUGS[id]=dict(prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,extra=extra or {},flags=flags,pre=pre)
H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <clocale>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "datetime_read.hpp"
#include "datetime_write.hpp"
using namespace ngpt;
static int bad;
#define CHECK(c) do { if (!(c)) { std::printf("demo: %s does not hold (line %d)\\n", #c, __LINE__); bad = 1; } } while (0)
'''
def out(sel):
    for id,b in BUGS.items():
        if sel and id not in sel: continue
        d="/verif/seeded/"+id
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        t="/tmp/plant/w"; shutil.rmtree(t,ignore_errors=True); os.makedirs(t+"/a/src"); os.makedirs(t+"/b/src")
        for f in os.listdir(SRC):
            if f.endswith(("hpp","cpp")):
                for x in "ab": shutil.copy(SRC+f,t+"/"+x+"/src/"+f)
        for e in b["edits"]:
            f,old,new=e[:3]; p=t+"/b/src/"+f; s=open(p).read()
            if len(e)==3 and s.count(old)!=1 or len(e)==4 and s.count(old)<=e[3]: print(id,"edit matches",s.count(old),"in",f,repr(old[:50])); shutil.rmtree(d,ignore_errors=True); break
            k=-1
            for _ in range((e[3] if len(e)==4 else 0)+1): k=s.index(old,k+1)
            open(p,"w").write(s[:k]+new+s[k+len(old):])
        if not os.path.isdir(d): continue
        r=subprocess.run(["git","diff","--no-index","--no-prefix","a","b"],cwd=t,capture_output=True,text=True).stdout
        r=r.replace("diff --git a/src/","diff --git a/src/")
        open(d+"/patch.diff","w").write(r)
        demo=b["demo"]
        if "int main" not in demo: demo=H+"int main() {\n"+textwrap.dedent(demo).strip("\n")+"\n  return bad;\n}\n"
        else: demo=H+demo
        open(d+"/demo.cpp","w").write(demo)
        open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: the property holds on this input; run in the repository's top directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
%sg++ -std=c++17 -O2 -w -DDEBUG %s -Isrc "$d/demo.cpp" src/*.cpp -o "$t/demo" -pthread || exit 3
cd "$t" && timeout 100 ./demo
''' % (b["pre"], b["flags"]))
        os.chmod(d+"/demo.sh",0o755)
        for n,c in b["extra"].items(): open(d+"/"+n,"w").write(c)
        json.dump({"property":b["prop"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
DT="dtcalendar.hpp"; FU="dtfund.hpp"; FC="dtfund.cpp"; DA="dat.cpp"; RD="datetime_read.hpp"; WR="datetime_write.hpp"
exec(open("/tmp/plant/bugs.py").read())
out(sys.argv[1:])
print(len(BUGS))
