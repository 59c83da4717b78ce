"""Runs the real circom and reads what it wrote. No expectations here."""
import json, os, struct, subprocess, sys, shutil, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CIRCOM_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CIRCOM = os.path.join(REPO, "target/debug/circom")

PRIMES = {
 "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
 "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
 "goldilocks": 18446744069414584321,
 "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
 "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
 "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
 "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
 "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
}

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUST_BACKTRACE="0")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e
ENV = env()

def build():
    """(re)build circom from the working tree of /repo, in its git-ignored target directory"""
    r = subprocess.run(["cargo", "build", "--offline", "-p", "circom"], cwd=REPO, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=1500)
    if r.returncode != 0 or not os.path.exists(CIRCOM):
        raise ToolError("circom does not build:\n" + r.stdout[-3000:])

class Res:
    pass

def compile(src, args=(), prime="bn128", name="a", d=None, files=None, timeout=60, out=None, env_extra=None, prefix=()):
    """src: text of <name>.circom. Returns Res(rc, out, dir)"""
    if d is None:
        d = tempfile.mkdtemp(prefix="cv", dir=SCRATCH)
    os.makedirs(d, exist_ok=True)
    if src is not None:
        with open(os.path.join(d, name + ".circom"), "w") as f:
            f.write(src)
    for fn, t in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
        with open(os.path.join(d, fn), "w") as f:
            f.write(t)
    cmd = list(prefix) + [CIRCOM, name + ".circom"] + list(args) + (["--prime", prime] if prime != "bn128" else [])
    e = ENV
    if env_extra:
        e = dict(ENV); e.update(env_extra)
    r = Res()
    r.dir, r.name, r.cmd, r.prime = d, name, cmd, prime
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        r.rc, r.out = p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        r.rc, r.out = "timeout", ""
    r.crash = r.rc not in (0, 1)
    return r

SCRATCH = None
def scratch():
    global SCRATCH
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    SCRATCH = tempfile.mkdtemp(prefix="circomverif", dir=base)
    return SCRATCH
def cleanup():
    if SCRATCH and "circomverif" in SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)

# ---------------------------------------------------------------- r1cs
def read_r1cs(path):
    b = open(path, "rb").read()
    magic, ver, nsec = b[:4], *struct.unpack("<II", b[4:12])
    pos = 12
    secs = {}
    dup = False
    for _ in range(nsec):
        if pos + 12 > len(b):
            raise ValueError("section table truncated")
        t, = struct.unpack("<I", b[pos:pos+4]); n, = struct.unpack("<Q", b[pos+4:pos+12])
        if pos + 12 + n > len(b):
            raise ValueError("section %d truncated" % t)
        dup = dup or t in secs
        secs[t] = b[pos+12:pos+12+n]
        pos += 12 + n
    h = secs[1]
    fs, = struct.unpack("<I", h[:4])
    prime = int.from_bytes(h[4:4+fs], "little")
    o = 4 + fs
    nw, no, ni, npr = struct.unpack("<IIII", h[o:o+16]); nl, = struct.unpack("<Q", h[o+16:o+24]); nc, = struct.unpack("<I", h[o+24:o+28])
    cons = []
    c = secs[2]; q = 0
    while q < len(c):
        abc = []
        for _ in range(3):
            k, = struct.unpack("<I", c[q:q+4]); q += 4
            lc = []
            for _ in range(k):
                w, = struct.unpack("<I", c[q:q+4]); v = int.from_bytes(c[q+4:q+4+fs], "little"); q += 4 + fs
                lc.append((w, v))
            abc.append(lc)
        cons.append(abc)
    m = secs.get(3, b"")
    w2l = [struct.unpack("<Q", m[i:i+8])[0] for i in range(0, len(m), 8)]
    r = dict(magic=magic.decode("latin1"), version=ver, nsec=nsec, order=list(secs), dup=dup, trailing=len(b) - pos, fs=fs, prime=prime, wires=nw,
             pubout=no, pubin=ni, prvin=npr, labels=nl, ncons=nc, cons=cons, w2l=w2l, headlen=len(h), maplen=len(m))
    if 4 in secs:
        g = secs[4]; k, = struct.unpack("<I", g[:4]); q = 4; L = []
        for _ in range(k):
            e = g.index(b"\0", q); nm = g[q:e].decode(); q = e + 1
            np, = struct.unpack("<I", g[q:q+4]); q += 4
            ps = []
            for _ in range(np):
                ps.append(int.from_bytes(g[q:q+fs], "little")); q += fs
            L.append(dict(name=nm, params=ps))
        r["gates"] = L; r["gates_trailing"] = len(g) - q
        g = secs[5]; k, = struct.unpack("<I", g[:4]); q = 4; L = []
        for _ in range(k):
            ix, ns = struct.unpack("<II", g[q:q+8]); q += 8
            sg = [struct.unpack("<Q", g[q+8*i:q+8*i+8])[0] for i in range(ns)]; q += 8 * ns
            L.append(dict(gate=ix, signals=sg))
        r["uses"] = L; r["uses_trailing"] = len(g) - q
    return r

def read_sym(path):
    rows = []
    for l in open(path):
        l = l.rstrip("\n")
        if not l: continue
        a, b, c, n = l.split(",", 3)
        rows.append((int(a), int(b), int(c), n))
    return rows

def read_wtns(path):
    b = open(path, "rb").read()
    assert b[:4] == b"wtns"
    ver, nsec = struct.unpack("<II", b[4:12])
    pos = 12; secs = {}
    for _ in range(nsec):
        t, n = struct.unpack("<IQ", b[pos:pos+12]); secs[t] = b[pos+12:pos+12+n]; pos += 12 + n
    fs, = struct.unpack("<I", secs[1][:4]); prime = int.from_bytes(secs[1][4:4+fs], "little")
    n, = struct.unpack("<I", secs[1][4+fs:8+fs])
    d = secs[2]
    return dict(fs=fs, prime=prime, n=n, w=[int.from_bytes(d[i:i+fs], "little") for i in range(0, len(d), fs)], trailing=len(b) - pos)

# ---------------------------------------------------------------- witnesses
def witnesses(jobs, timeout=20, nproc=6):
    """jobs: list of dict(js=<dir>/<n>_js, name, inputs=[obj,...]); obj may be JSON text under key 'raw'.
    One node process per chunk runs the generated witness_calculator.js; returns per job list of
    dict(ok, w=[...]|err, log)"""
    if not jobs: return []
    chunks = [[] for _ in range(min(nproc, len(jobs)))]
    for i, j in enumerate(jobs):
        chunks[i % len(chunks)].append((i, j))
    def call(ch, limit):
        f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=SCRATCH, delete=False)
        json.dump([dict(id=i, js=j["js"], name=j["name"], inputs=j["inputs"], bin=j.get("bin", False), sanity=j.get("sanity", True)) for i, j in ch], f); f.close()
        try:
            p = subprocess.run(["node", "--stack-size=20000", os.path.join(ROOT, "harness", "wit.js"), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
        except subprocess.TimeoutExpired:
            return None
        finally:
            os.unlink(f.name)
        if p.returncode != 0:
            raise ToolError("witness runner failed: " + p.stderr.decode()[-2000:])
        return json.loads(p.stdout)
    def one(ch):
        out = call(ch, timeout)
        if out is not None: return out
        if len(ch) > 1:       # find the job that does not terminate
            return one(ch[:len(ch) // 2]) + one(ch[len(ch) // 2:])
        i, j = ch[0]
        if len(j["inputs"]) > 1:
            rs = []
            for x in j["inputs"]:
                rs += one([(i, dict(j, inputs=[x]))])[0]["runs"]
            return [dict(id=i, runs=rs)]
        return [dict(id=i, runs=[dict(ok=False, err="timeout", log=[], timeout=True)])]
    res = [None] * len(jobs)
    with ThreadPoolExecutor(len(chunks)) as ex:
        for out in ex.map(one, chunks):
            for o in out:
                res[o["id"]] = o["runs"]
    return res

def pmap(f, xs, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
