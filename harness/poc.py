import sys, random, json, os, time
sys.path.insert(0, os.path.dirname(__file__))
import circ, gen, render, tlc
def main(seed, N, **o):
    circ.scratch()
    t0=time.time()
    r = random.Random(seed)
    cases=[]; srcs=[]
    def mk(i):
        rr = random.Random(seed*100003+i)
        p = circ.PRIMES["bn128"]
        g = gen.Gen(rr, p, **o); pr = g.program()
        src = render.program(pr)
        ins=[gen.inputs_for(g.main_ins, rr, p) for _ in range(3)]
        return i,pr,src,ins
    L=[mk(i) for i in range(N)]
    def comp(x):
        i,pr,src,ins=x
        res=circ.compile(src, ["--O0","--r1cs","--sym","--wasm"], name="a")
        return res
    R=circ.pmap(comp,L)
    print("compiled",time.time()-t0, sum(r.rc==0 for r in R), [r.rc for r in R if r.rc not in(0,1)][:5])
    for x,r in zip(L,R):
        if r.rc!=0: print(r.rc, r.out[-600:]); os.environ.get("DUMP") and print(x[2])
    jobs=[dict(js=r.dir+"/a_js",name="a",inputs=[a for a,b in x[3]]) for x,r in zip(L,R) if r.rc==0]
    W=iter(circ.witnesses(jobs))
    print("wit",time.time()-t0)
    for (i,pr,src,ins),res in zip(L,R):
        c=dict(id=i,p=str(circ.PRIMES["bn128"]),prog=pr,acc=res.rc==0,nocons=False,cons=[],runs=[],logs=bool(o.get("logs")))
        if res.rc==0:
            rc=circ.read_r1cs(res.dir+"/a.r1cs"); sym=circ.read_sym(res.dir+"/a.sym")
            nm={w:n for l,w,_,n in sym if w!=-1}; nm[0]="1"
            c["cons"]=[[[dict(s=nm[w],k=str(k)) for w,k in lc] for lc in abc] for abc in rc["cons"]]
            for (obj,flat),w in zip(ins,next(W)):
                d=dict(inp=flat,ok=w["ok"],vals={},logs=w["log"])
                if w["ok"]: d["vals"]={n:w["w"][wi] for l,wi,_,n in sym if wi!=-1}
                c["runs"].append(d)
        cases.append(c)
    f=circ.SCRATCH+"/cases.json"; json.dump(cases,open(f,"w"))
    r=tlc.run("TraceLang",env={"CASES":f},ok=None)
    print("tlc",time.time()-t0,r.rc,r.generated,r.distinct)
    if r.rc: print(r.out[-3000:])
    ev=[tlc.parse(l) for l in r.lines]
    from collections import Counter
    print(Counter((k,d.get("err"),d.get("what")) for k,d in ev))
    shown=0
    for k,d in ev:
        if k=="MIS" and shown<int(os.environ.get("SHOW","2")):
            shown+=1; i=d["id"]; print("=====",d); print(L[i][2]); print(R[i].out[-600:]); print(json.dumps(L[i][3][d.get("run",1)-1][0])); 
    circ.cleanup()
if __name__=="__main__":
    main(int(sys.argv[1]),int(sys.argv[2]))
