#!/usr/bin/env python3
"""Mutation study: applies small changes to a copy of /repo, one at a time, and reports which profiles
notice. usage: run.py OUT.jsonl SECS [LANES] FILE..."""
import json,os,subprocess,sys,shutil,random
from concurrent.futures import ThreadPoolExecutor
out=sys.argv[1]; secs=sys.argv[2]; lanes=int(sys.argv[3]); files=sys.argv[4:]
V=os.environ.get("V","/verif"); W="/tmp/mut"
os.makedirs(W,exist_ok=True)
env=dict(os.environ,GOFLAGS="-mod=mod",GOPROXY="off",GOTOOLCHAIN="local",GOWORK="off",GOMAXPROCS="2")
subprocess.check_call(["go","build","-o",W+"/mutate","."],cwd=V+"/tools/mutate",env=dict(env,GO111MODULE="off",GOFLAGS=""))
ms=[json.loads(l) for l in subprocess.check_output([W+"/mutate"]+["/repo/"+f for f in files]).decode().splitlines()]
seen=set(); u=[]
for m in ms:
    m["File"]=m["File"].replace("/repo/","")
    if m["Kind"] in('delete','swap') and m["Old"].strip().startswith('log.'): continue
    k=(m["File"],m["Off"],m["Len"],m["New"])
    if k in seen: continue
    seen.add(k); u.append(m)
done=set()
if os.path.exists(out):
    for l in open(out):
        m=json.loads(l); done.add((m["File"],m["Off"],m["Len"],m["New"]))
u=[m for m in u if (m["File"],m["Off"],m["Len"],m["New"]) not in done]
random.Random(1).shuffle(u)
print(len(u),"mutants")
props=["C%02d"%i for i in range(1,27)]
import threading,queue
def order(f):
    first=["C11","C05","C02","C21","C17","C07","C08","C09"]
    if "websocket" in f: first=["C14","C15","C23","C16"]
    elif "protobuf" in f: first=["C13","C16"]
    elif f in("context.go",): first=["C18"]
    elif f=="load_balance.go": first=["C12"]
    elif f.startswith("eventloop") or f.startswith("poller"): first=["C07","C08","C11","C20","C05","C03","C17","C12"]
    elif f in("server.go","listener.go"): first=["C11","C20","C17","C10","C12","C04"]
    return first+[p for p in props if p not in first]
lock=threading.Lock()
def lane(k,q):
    d=f"{W}/l{k}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["bash","-c",f"cp -a /repo {d}/repo; mkdir -p {d}/b; rm -rf {d}/repo/.git"])
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        f=f"{d}/repo/{m['File']}"
        src=open("/repo/"+m["File"],"rb").read()
        open(f,"wb").write(src[:m["Off"]]+m["New"].encode()+src[m["Off"]+m["Len"]:])
        r=dict(m)
        try:
            p=subprocess.run(["go","vet","."] if False else ["go","build","./..."],cwd=d+"/repo",env=env,capture_output=True,text=True,timeout=300)
            if p.returncode!=0: r["res"]="nobuild"
            else:
                p=subprocess.run(["bash",V+"/tools/dev.sh","gen"],env=dict(env,REPO=d+"/repo",B=d+"/b"),capture_output=True,text=True,timeout=300)
                if p.returncode!=0: r["res"]="GENFAIL"; r["err"]=(p.stdout+p.stderr)[-600:]
                else:
                    killed=[]
                    def one(c):
                        try:
                            q=subprocess.run([d+"/b/gevsim","run","-p",c,"-n","100000000","-from","7000","-secs",secs,"-max","1"],env=dict(env,GOMAXPROCS="1"),capture_output=True,text=True,timeout=float(secs)+40)
                        except subprocess.TimeoutExpired: return (c,"hang")
                        for l in q.stdout.splitlines():
                            if l.startswith("FAIL"): return (c,l[:200])
                        if q.returncode not in (0,1): return (c,"crash "+(q.stderr or q.stdout)[-200:])
                        return None
                    n=max(1,8//lanes)
                    killed=[]; todo=order(m["File"])
                    with ThreadPoolExecutor(n) as ex:
                        while todo and not killed:
                            killed=[x for x in ex.map(one,todo[:n]) if x]; todo=todo[n:]
                    r["res"]="killed" if killed else "SURVIVED"; r["by"]=killed
        except subprocess.TimeoutExpired: r["res"]="timeout"
        open(f,"wb").write(src)
        with lock:
            open(out,"a").write(json.dumps(r)+"\n")
q=queue.Queue()
for m in u: q.put(m)
ts=[threading.Thread(target=lane,args=(k,q)) for k in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(W,ignore_errors=True)
