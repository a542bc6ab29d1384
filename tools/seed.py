#!/usr/bin/env python3
"""Planted bugs: seed.py test NAME...            existing tests with the change (scratch copy /tmp/tw/repo)
                seed.py find NAME JOB[,JOB] N    seeds of a job which show it (scratch copy /tmp/mw)
                seed.py make NAME                writes /verif/seeded/<name>
Changes come from mutant_list.py, what a planted bug needs and where it shows from seed_meta.json."""
import time, subprocess, sys, os, json, re, shutil
sys.argv, A = [sys.argv[0]], sys.argv[1:]
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,HERE)
import mutants as mu
META=os.path.join(HERE,"seed_meta.json")
def muts(n): return [x for x in mu.M if x[0]==n][0]
def test(names):
    T="/tmp/tw/repo"
    stable=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for n in names:
        mu.R=T; mu.reset()
        err=mu.apply(muts(n)[3])
        if err: print(n,err,flush=True); continue
        env=dict(os.environ,RUSTUP_TOOLCHAIN="stable",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",CARGO_TERM_COLOR="never")
        for attempt in range(2):
            r=subprocess.run("timeout -s INT -k 20 780 cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp",shell=True,cwd=T,env=env,capture_output=True,text=True)
            x=open(T+"/target/nextest/vp/junit.xml").read() if r.returncode in (0,100) else ""
            bad=sorted(set(l.split("]")[-1].strip() for l in r.stderr.splitlines() if re.search(r"^\s*(FAIL|TIMEOUT|SIG\w+|ABORT)\b.*\[",l)))
            ok=[b for b in bad if any(b.replace(" ","::").endswith(s) or s.split("::")[-1]==b.split(" ")[-1].split("::")[-1] for s in stable)]
            if not ok: break
        print(n,"TESTS", "PASS" if r.returncode in (0,100) and not ok else "FAIL",ok,r.returncode,re.findall(r"Summary.*",r.stderr),flush=True)
        mu.reset()
def find(n,jobs,N):
    mu.reset()
    err=mu.apply(muts(n)[3]) or mu.build()
    if err: print(err); return
    prop=muts(n)[1]
    for j in jobs.split(","):
        procs=[]
        k=8; step=(N+k-1)//k
        for a in range(1,N+1,step):
            procs.append(subprocess.Popen(["./target/debug/harness",j,str(a),str(min(a+step,N+1))],cwd=mu.H,stdout=subprocess.PIPE,text=True,stderr=subprocess.DEVNULL))
        hits=[]; t1=time.time()+100
        for p in procs:
            cur=None
            try: o=p.communicate(timeout=max(1,t1-time.time()))[0]
            except subprocess.TimeoutExpired: p.kill(); o=p.communicate()[0]
            for l in o.splitlines():
                g=re.match(r"seed (\d+) wall ([\d.]+)(\S*)s ",l)
                if g: cur=(int(g[1]),float(g[2])*(1000 if g[3]=="" else 1 if g[3]=="m" else .001))
                elif re.match(r'  \[.*"%s"'%prop,l): hits.append((cur[1],cur[0],l.split("] ")[1].split()[0]))
        hits=sorted(set(hits))
        print(n,j,len(set(h[1] for h in hits)),"of",N,[(h[1],h[2],int(h[0])) for h in hits[:12]],flush=True)
    mu.reset()
def auto(n,jobs,N):
    """Seeds for the demonstration: of the first job that shows it, the three shortest runs."""
    mu.reset()
    err=mu.apply(muts(n)[3]) or mu.build()
    if err: print(err); return
    prop=muts(n)[1]
    for j in jobs.split(","):
        k=8; step=(N+k-1)//k; hits=[]
        ps=[subprocess.Popen(["./target/debug/harness",j,str(a),str(min(a+step,N+1))],cwd=mu.H,stdout=subprocess.PIPE,text=True,stderr=subprocess.DEVNULL) for a in range(1,N+1,step)]
        t1=time.time()+100
        for p in ps:
            cur=None
            try: o=p.communicate(timeout=max(1,t1-time.time()))[0]
            except subprocess.TimeoutExpired: p.kill(); o=p.communicate()[0]
            for l in o.splitlines():
                g=re.match(r"seed (\d+) wall ([\d.]+)(\S*)s ",l)
                if g: cur=(int(g[1]),float(g[2])*(1000 if g[3]=="" else 1 if g[3]=="m" else .001))
                elif re.match(r'  \[.*"%s"'%prop,l): hits.append((cur[1],cur[0],l.split("] ")[1].split()[0]))
        best=[]
        for h in sorted(hits):
            if h[1] not in best: best.append(h[1])
        print(n,j,len(best),"of",N,set(h[2] for h in hits),flush=True)
        if best:
            m=json.load(open(META)); m.setdefault(n,{})["runs"]=[f"{j}:{x}" for x in best[:3]]
            json.dump(m,open(META,"w"),indent=1)
            break
    mu.reset()
DEMO='''#!/bin/bash
# Demonstration: simulated clusters of the real nodes (or the redb backend), with the seeds below.
# Exits 0 when property %s holds in them, 1 when it is violated, 2 when nothing could be decided.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/h" && cp -r "$here/sim/src" "$here/sim/Cargo.toml" "$here/sim/Cargo.lock" "$d/h/" || exit 2
cd "$d/h" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg tokio_unstable --cfg sorock_verif" CARGO_TARGET_DIR="$d/t" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cargo build --offline > "$d/log" 2>&1 || { tail -40 "$d/log"; exit 2; }
bad=0
for js in %s; do
  out=$(timeout 120 "$d/t/debug/harness" "${js%%%%:*}" "${js#*:}" "$(( ${js#*:} + 1 ))") || { echo "run $js: no answer"; exit 2; }
  echo "$out" | cut -c1-400 | head -12
  if echo "$out" | grep -q '^  \\[.*"%s"'; then bad=1; fi
done
if [ $bad = 1 ]; then echo "property %s is violated"; exit 1; fi
echo "property %s holds in these runs"
'''
def make(n):
    meta=json.load(open(META))[n]
    mu.reset(); err=mu.apply(muts(n)[3]); assert not err,err
    k,bad=mu.orig_lines()
    if bad or not k: print("WARNING",n,k,bad)
    d=f"/verif/seeded/{n}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+"/sim")
    open(d+"/patch.diff","w").write(mu.sh(f"git -C {mu.R} diff").stdout)
    mu.reset()
    shutil.copytree(mu.H+"/src",d+"/sim/src"); shutil.copy(mu.H+"/Cargo.lock",d+"/sim/")
    t=open("/verif/harness/Cargo.toml").read().split("[profile.dev]")[0]+"[profile.dev]\nopt-level = %d\ndebug = false\nincremental = false\noverflow-checks = true\n"%meta.get("opt",0)
    open(d+"/sim/Cargo.toml","w").write(t)
    p=muts(n)[1]
    open(d+"/demo.sh","w").write(DEMO%(p," ".join(meta["runs"]),p,p,p)); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":p,"needs":meta["needs"],"what_it_breaks":meta["what_it_breaks"]},open(d+"/meta.json","w"),indent=1)
    print("made",n)
def demo(n):
    """Exit codes of the demonstration without and with the change, against a copy of /repo."""
    D="/tmp/dm/"+n; R=D+"/repo"
    shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    subprocess.run(["git","clone","-q","/repo",R],check=True)
    shutil.copytree(f"/verif/seeded/{n}",D+"/seed")
    mu.sh(f"sed -i 's#/repo/sorock#{R}/sorock#' {D}/seed/sim/Cargo.toml")
    run=lambda: subprocess.run(["nice","bash",D+"/seed/demo.sh"],cwd=R,capture_output=True,text=True)
    a=run(); t=time.time()
    g=subprocess.run(["git","-C",R,"apply",f"/verif/seeded/{n}/patch.diff"])
    b=run()
    print(n,"DEMO","ok" if (a.returncode,b.returncode)==(0,1) and g.returncode==0 else "BAD",a.returncode,b.returncode,"%.0f s"%(time.time()-t),"" if (a.returncode,b.returncode)==(0,1) else a.stdout[-500:]+b.stdout[-300:],flush=True)
    shutil.rmtree(D,ignore_errors=True)
def sync():
    mu.sh(f"rsync -a --delete --exclude target --exclude .git /verif/harness/ {mu.H}/ && sed -i 's#path = \"/repo/sorock\"#path = \"/tmp/mw/repo/sorock\"#' {mu.H}/Cargo.toml && git -C {mu.R} checkout -q -- . && git -C {mu.R} pull -q /repo HEAD")
if A[0]=="sync": sync()
elif A[0]=="demo": [demo(n) for n in A[1:]]
elif A[0]=="test": test(A[1:])
elif A[0]=="find": find(A[1],A[2],int(A[3]))
elif A[0]=="auto": auto(A[1],A[2],int(A[3]))
elif A[0]=="make": [make(n) for n in A[1:]]
