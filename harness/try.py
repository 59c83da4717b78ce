"""Triage aid: generated programs through circom and the specification; prints what disagrees.
usage: try.py SEED N key=value..."""
import sys, os, random
sys.path.insert(0, os.path.dirname(__file__))
import circ, lang, conf, collections
def main(seed, N, args=("--O0",), show=3, runs=2, **o):
    circ.scratch()
    cases = [lang.gen_case(random.Random(seed * 100003 + i), "bn128", o, runs) for i in range(N)]
    ev, obs, r = conf.check(cases, args=args)
    ev = list({(k, d["id"], d.get("run")): (k, d) for k, d in ev}.values())
    cnt = collections.Counter(); k0 = 0
    print("rc", r.rc, "judged", len({d["id"] for _, d in ev}), "of", N, [o.rc for o in obs if o.rc not in (0, 1)])
    for k, d in ev:
        if k == "MIS":
            cnt["MIS " + d["what"]] += 1
            if k0 < show:
                k0 += 1; o = obs[d["id"]]
                print("=" * 30, d["id"], str(d)[:600]); print(o.src[:int(os.environ.get("LEN", 3500))]); print(o.rc, o.out[-700:])
                for i, x in enumerate(o.case["inputs"]): print(x[0])
        else: cnt[k + " " + (d.get("err") or "ok")] += 1
    print(cnt)
if __name__ == "__main__":
    kv = dict(x.split("=") for x in sys.argv[3:])
    main(int(sys.argv[1]), int(sys.argv[2]), **{k: (eval(x)) for k, x in kv.items()})
