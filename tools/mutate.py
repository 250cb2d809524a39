#!/usr/bin/env python3
"""Mutation trial of the checks (an aid for strengthening them; decides nothing and is not a check).
usage: mutate.py OUT.jsonl SEATS LIMIT [file-substring ...]
Works on scratch copies under /tmp/mut; survivors are listed in OUT with their diff."""
import re, os, sys, subprocess, random, json, threading, queue, shutil, time
REPO="/repo"; MC="/verif/mc"
SRC=["src/bigint/"+f for f in "nat.rs nat_amd64.rs nat_avx2.rs nat_macro.rs arith_generic.rs bigint.rs bigint_macro.rs rat.rs float.rs float_fmt.rs float_macro.rs decimal.rs util.rs".split()]+["src/rand/"+f for f in "iter.rs linear_congruential_rand.rs lagged_fibonacci_rand.rs mersenne_twister_rand.rs mod.rs".split()]
NAT=[("mc_nat",["C01","C04","C02","C03","C05","C11","C10","C06","C07"]),("mc_mix",["C08","C09"]),("mc_int",["C15","C19"]),("mc_mem",["C32"]),("mc_float",["C23","C24","C27"]),("mc_prime",["C13","C14","C12"])]
INT=[("mc_int",["C15","C16","C17","C18","C19"]),("mc_nat",["C05","C06","C07","C10","C11"]),("mc_mix",["C08","C09"]),("mc_prime",["C13"]),("mc_rat",["C21","C20"])]
RAT=[("mc_rat",["C21","C22","C20"]),("mc_mix",["C08","C09","C31"]),("mc_float",["C25"])]
FLT=[("mc_float",["C23","C24","C25","C26","C27"]),("mc_mix",["C08","C09","C31"])]
RND=[("mc_rand",["C28","C29","C30"]),("mc_prime",["C13","C14"])]
def plan(f):
    b=os.path.basename(f)
    if "/rand/" in f: return RND
    if b in("bigint.rs","bigint_macro.rs"): return INT
    if b=="rat.rs": return RAT
    if b=="util.rs": return [("mc_rat",["C21"])]+FLT
    if b in("float.rs","float_fmt.rs","float_macro.rs","decimal.rs","util.rs"): return FLT
    return NAT
OPS=[(r" \+ "," - "),(r" - "," + "),(r" \* "," + "),(r" / "," * "),(r" % "," / "),(r" << "," >> "),(r" >> "," << "),(r"<<",">>"),(r">>","<<"),(r" & "," | "),(r" \| "," & "),(r" \^ "," | "),(r" && "," || "),(r" \|\| "," && "),(r" == "," != "),(r" != "," == "),(r" < "," <= "),(r" <= "," < "),(r" > "," >= "),(r" >= "," > "),(r" < "," > "),(r" \+= "," -= "),(r" -= "," += "),(r" <<= "," >>= "),(r" >>= "," <<= "),(r" \|= "," &= "),(r" &= "," |= "),(r" \^= "," |= "),(r"\btrue\b","false"),(r"\bfalse\b","true"),(r"\.\.=",".."),(r"\.\.(?![=.])","..="),(r"\bNatural\b","Negative"),(r"\bNegative\b","Natural"),(r"\bBelow\b","Above"),(r"\bAbove\b","Below"),(r"\bLess\b","Greater"),(r"\bGreater\b","Less"),(r"\.min\(",".max("),(r"\.max\(",".min("),(r"\bbreak;",""),(r"\bif (?!let\b)(.+?) \{",lambda m:"if !(%s) {"%m.group(1)),(r"\bif (?!let\b)(.+?) \{",lambda m:"if true {"),(r"\bif (?!let\b)(.+?) \{",lambda m:"if false {"),(r"(?<![\w.])(\d+)(?=(u32|usize|u64|i32|i64|isize)?\b(?!\.\d))",lambda m:str(int(m.group(1))+1)),(r"(?<![\w.])([1-9]\d*)(?=(u32|usize|u64|i32|i64|isize)?\b(?!\.\d))",lambda m:str(int(m.group(1))-1)),(r"(?<![\w.\]\)])!(?=[\w(])",""),(r"\bu32\b(?=\))","u16"),(r"\.rev\(\)",""),(r"\.wrapping_add\(",".wrapping_sub("),(r"\.overflowing_sub\(",".overflowing_add("),(r"\.overflowing_add\(",".overflowing_sub(")]
def muts(f):
    L=open(f"{REPO}/{f}").read().split("\n"); out=[]; blk=False
    for i,l in enumerate(L):
        if re.match(r"\s*#\[cfg\(test\)\]",l) and not L[i+1].strip().startswith("mod tests;"): break
        s=l.strip()
        if blk:
            if "*/" in l: blk=False
            continue
        if s.startswith("/*"): blk="*/" not in l; continue
        if s.startswith("//") or s.startswith("use ") or s.startswith("#[") or s.startswith("#!"): continue
        code=l.split("//")[0]
        for rx,rep in OPS:
            for m in re.finditer(rx,code):
                new=code[:m.start()]+(rep(m) if callable(rep) else rep)+code[m.end():]
                if new!=code: out.append((f,i,l,new))
        if s.endswith(";") and not re.match(r"(let|use|return|const|static|type|pub|mod|break|continue|fn)\b",s) and s.count("{")==s.count("}") and s.count("(")==s.count(")"):
            out.append((f,i,l,l[:len(l)-len(l.lstrip())]+"/* deleted */"))
    seen=set(); r=[]
    for m in out:
        k=(m[0],m[1],m[3])
        if k not in seen: seen.add(k); r.append(m)
    return r
def run(cmd,env,cwd,to):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=to,text=True,errors="replace"); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,""
def main():
    outp,seats,limit=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); subs=sys.argv[4:]
    ms=[m for f in SRC if not subs or any(s in f for s in subs) for m in muts(f)]
    random.Random(int(os.environ.get("MUTSEED","7"))).shuffle(ms); print(len(ms),"mutants",flush=True); ms=ms[:limit]
    done=set()
    if os.path.exists(outp):
        for l in open(outp): d=json.loads(l); done.add((d["file"],d["line"],d["new"]))
    ms=[m for m in ms if (m[0],m[1]+1,m[3].strip()) not in done]; print(len(ms),"to do",flush=True)
    q=queue.Queue(); [q.put(m) for m in ms]; lock=threading.Lock(); out=open(outp,"a"); stat={}
    def seat(k):
        d=f"/tmp/mut/w{k}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        subprocess.run(["rsync","-a","--exclude","target","--exclude",".git",REPO+"/",d+"/repo/"],check=False) if shutil.which("rsync") else subprocess.run(f"mkdir -p {d}/repo && cd {REPO} && tar c --exclude=./target --exclude=./.git . | tar x -C {d}/repo",shell=True)
        subprocess.run(f"mkdir -p {d}/mc && cd {MC} && tar c --exclude=./target . | tar x -C {d}/mc",shell=True)
        t=open(f"{d}/mc/Cargo.toml").read().replace('path = "/repo"',f'path = "{d}/repo"').replace("incremental = false","incremental = true"); open(f"{d}/mc/Cargo.toml","w").write(t)
        os.makedirs(f"{d}/v",exist_ok=True)
        env=dict(os.environ,CARGO_TARGET_DIR=f"{d}/t",CARGO_NET_OFFLINE="true",RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",MC_VERIF=f"{d}/v",MC_THREADS="1",CARGO_BUILD_JOBS="2",TMPDIR=d,CARGO_TERM_COLOR="never")
        while True:
            try: f,i,old,new=q.get_nowait()
            except queue.Empty: return
            p=f"{d}/repo/{f}"; orig=open(f"{REPO}/{f}").read(); L=orig.split("\n"); L[i]=new; open(p,"w").write("\n".join(L))
            res="survived"; t0=time.time()
            for b,ids in plan(f):
                rc,o=run(["cargo","build","--release","--offline","--bin",b],env,d+"/mc",400)
                if rc!=0: res="nocompile"; break
                for c in ids:
                    rc,o=run([f"{d}/t/release/{b}",c,"quick"],env,d,900)
                    if rc!=0: res=f"killed {c}" if rc==1 else f"odd {c} rc={rc}"; break
                if res!="survived": break
            open(p,"w").write(orig)
            with lock:
                stat[res.split()[0]]=stat.get(res.split()[0],0)+1
                out.write(json.dumps({"file":f,"line":i+1,"old":old.strip(),"new":new.strip(),"res":res,"s":round(time.time()-t0,1)})+"\n"); out.flush()
                if sum(stat.values())%20==0: print(stat,q.qsize(),flush=True)
    ts=[threading.Thread(target=seat,args=(k,)) for k in range(seats)]; [t.start() for t in ts]; [t.join() for t in ts]; print("done",stat)
main()
