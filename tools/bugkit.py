# Builds /verif/seeded/<id>/ from a definition: edits of original lines plus a demo program.
# usage: python3 tools/bugs.py [ids...]   (definitions live in tools/bugs.py)
import json,os,subprocess,shutil,sys
HERE=os.path.dirname(os.path.abspath(__file__)); SEEDED=os.path.join(HERE,"..","seeded")
W="/tmp/bugrepo"
BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append((id,prop,needs,breaks,edits,demo))
DEMO_SH='''#!/bin/bash
# Runs the demonstration against the working tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp "$D/demo.go.txt" "$T/main.go"
printf 'module demo\\n\\ngo 1.19\\n\\nrequire github.com/lkmio/avformat v0.0.0\\n\\nreplace github.com/lkmio/avformat => %s\\n' "$R" > "$T/go.mod"
cd "$T" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
timeout 200 go run .
'''
ENV=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod")
def sh(c,cwd=W,t=250): 
    r=subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
def main():
    want=set(sys.argv[1:])
    if os.path.isdir(W): shutil.rmtree(W)
    shutil.copytree("/repo",W)
    stable=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad=0
    for id,prop,needs,breaks,edits,demo in BUGS:
        if want and id not in want: continue
        d=os.path.join(SEEDED,id); os.makedirs(d,exist_ok=True)
        open(d+"/demo.sh","w").write(DEMO_SH); os.chmod(d+"/demo.sh",0o755)
        open(d+"/demo.go.txt","w").write(demo.strip()+"\n")
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
        sh("git checkout -q -- .")
        rc,o=sh("bash %s/demo.sh"%d)
        if rc!=0: print(id,"DEMO FAILS ON CLEAN",o[-600:]); bad=1; continue
        ok=True
        for f,old,new in edits:
            s=open(W+"/"+f).read()
            if s.count(old)!=1: print(id,"edit matches",s.count(old),f,old[:60]); ok=False; break
            open(W+"/"+f,"w").write(s.replace(old,new))
        if not ok: bad=1; continue
        sh("gofmt -l .")
        rc,o=sh("git diff"); open(d+"/patch.diff","w").write(o)
        rc,o=sh("go build ./...")
        if rc!=0: print(id,"NO BUILD",o[-600:]); bad=1; continue
        rc,o=sh("bash %s/demo.sh"%d)
        if rc==0: print(id,"DEMO PASSES WITH PATCH"); bad=1; continue
        dm=o.strip()[-160:]
        rc,o=sh("go test -vet=off -count=1 -run 'TestAVCDecoderConfigurationRecord|TestBitsReader|TestBlockBuffer|TestLinkedList|TestQueue|TestReferenceCounter|TestNameHEVCDecoderConfigurationRecord' ./...")
        if "FAIL" in o: print(id,"TESTS FAIL",o[-800:]); bad=1; continue
        print(id,"ok:",dm.replace("\n"," | "))
    sh("git checkout -q -- ."); shutil.rmtree(W)
    sys.exit(bad)
