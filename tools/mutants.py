#!/usr/bin/env python3
"""Candidates for planted bugs: tries each in a scratch copy (/tmp/mw/repo) against the checks.
usage: mutants.py NAME... | all | list     (env CHECKS="C01 C02" overrides the property's own check)"""
import subprocess, sys, os, json, re
W=os.environ.get("MW","/tmp/mw"); R=W+"/repo"; H=W+"/harness"; S="sorock/src/"
P=S+"process/"
M=[]
def m(name, prop, what, *edits): M.append((name,prop,what,edits))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"mutant_list.py")).read())
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def apply(edits):
    for f,a,b in edits:
        p=f"{R}/{f}"; s=open(p).read()
        if s.count(a)!=1: return f"{f}: {s.count(a)} matches for {a!r}"
        open(p,"w").write(s.replace(a,b))
def reset(): sh(f"git -C {R} checkout -q -- .")
def orig_lines():
    """Removed lines which are not from the base commit."""
    d=sh(f"git -C {R} diff -U0").stdout; bad=[]; n=0; f=None
    for l in d.splitlines():
        if l.startswith("--- a/"): f=l[6:]
        g=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
        if g:
            st=int(g[1]); ct=int(g[2]) if g[2] is not None else 1
            for k in range(st,st+ct):
                n+=1
                b=sh(f"git -C {R} blame -l -L {k},{k} HEAD -- {f}").stdout
                if not b.lstrip("^").startswith("291daa7"): bad.append(f"{f}:{k}")
    return n,bad
def build():
    r=sh("cargo build --offline",cwd=H)
    if r.returncode: return "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:600] or r.stderr[-600:]
def check(p):
    r=sh(f"VERIF_OUT={W}/out ./target/debug/harness check {p}",cwd=H,timeout=900)
    o=r.stdout.splitlines()
    v=[re.sub(r"replay=\S*/","",l)[:110] for l in o if "VIOLATION" in l]
    return r.returncode,v,(o[-1][:200] if o else r.stderr[-200:])
def main():
    names=sys.argv[1:]
    if names==["list"]:
        for n,p,w,_ in M: print(n,p,w)
        return
    for n,p,w,e in M:
        if names!=["all"] and n not in names: continue
        reset()
        err=apply(e)
        if err: print(n,"EDIT",err,flush=True); continue
        k,bad=orig_lines()
        err=build()
        if err: print(n,"BUILD",err,flush=True); reset(); continue
        for c in os.environ.get("CHECKS",p).split():
            rc,v,last=check(c)
            print(f"{n} {c}: {'CAUGHT' if rc==1 else 'MISSED' if rc==0 else 'rc %d'%rc} ({k} removed, not original: {bad}) {v[:3] or last}",flush=True)
        reset()
if __name__=="__main__": main()
