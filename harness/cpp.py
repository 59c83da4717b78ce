"""Builds and runs the generated C++ witness programs. No expectations here.
The files that are the same for every circuit (runtime, field arithmetic, main) are compiled once per content."""
import hashlib, json, os, shutil, subprocess, tempfile, threading
import circ
COMMON = ("main.cpp", "calcwit.cpp", "fr.cpp")
_lock, _done, _locks = threading.Lock(), {}, {}

def sh(cmd, d, timeout=300):
    try: r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout.decode("utf8", "replace")

def common(d, name, opt):
    """objects and precompiled header of the runtime lying in d; -> (directory, error)"""
    fs = sorted(f for f in os.listdir(d) if f not in ("json2bin64.cpp", name + ".cpp", name + ".dat", "Makefile"))
    h = hashlib.sha1(opt.encode())
    for f in fs: h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    k = h.hexdigest()
    with _lock: lk = _locks.setdefault(k, threading.Lock())
    with lk:
        if k in _done: return _done[k]
        o = os.path.join(circ.SCRATCH, "cpprt" + k[:12])
        os.makedirs(o)
        for f in fs: shutil.copy(os.path.join(d, f), o)
        err = ""
        for f in fs:
            if f.endswith(".asm"): cmd = ["nasm", "-felf64", f, "-o", "asm_" + f[:-4] + ".o"]
            elif f.endswith(".cpp"): cmd = ["g++", "-c", f, "-std=c++11", opt, "-I.", "-w"]
            else: continue
            rc, out = sh(cmd, o)
            if rc: err = err or "%s: %s" % (f, out[-800:])
        open(os.path.join(o, "pch.hpp"), "w").write("#include <stdio.h>\n#include <iostream>\n#include <assert.h>\n#include \"circom.hpp\"\n#include \"calcwit.hpp\"\n")
        sh(["g++", "-std=c++11", "-O0", "-w", "-I.", "-x", "c++-header", "pch.hpp", "-o", "pch.hpp.gch"], o)
        _done[k] = (o, err)
        return _done[k]

def build(dir, name="a", opt="-O1"):
    """-> (program, error)"""
    d = os.path.join(dir, name + "_cpp")
    rt, err = common(d, name, opt)
    if err: return None, err
    for f in (name + ".cpp",):
        rc, out = sh(["g++", "-include", os.path.join(rt, "pch.hpp"), "-c", f, "-std=c++11", "-O0", "-w", "-I."], d)
        if rc: return None, out[-1500:]
    objs = [os.path.join(rt, f) for f in sorted(os.listdir(rt)) if f.endswith(".o")]
    rc, out = sh(["g++", "-o", name, name + ".o"] + objs + ["-lgmp", "-lpthread"], d)
    return (os.path.join(d, name), "") if rc == 0 else (None, out[-1500:])

def run(exe, inputs, timeout=20):
    """inputs: objects or {"raw": JSON text}; -> list of dict(ok, w, log, err, bin, rc)"""
    out = []
    d = tempfile.mkdtemp(prefix="cr", dir=circ.SCRATCH)
    for i, x in enumerate(inputs):
        q, w = os.path.join(d, "i%d.json" % i), os.path.join(d, "w%d.wtns" % i)
        with open(q, "w") as f: f.write(x["raw"] if isinstance(x, dict) and "raw" in x else json.dumps(x))
        try: r = subprocess.run([exe, q, w], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            out.append(dict(ok=False, err="timeout", log=[], rc="timeout", timeout=True)); continue
        lg = r.stdout.decode("utf8", "replace")
        o = dict(ok=r.returncode == 0 and os.path.exists(w), rc=r.returncode, err=r.stderr.decode("utf8", "replace")[-400:], log=lg.split("\n")[:-1] if lg.endswith("\n") else lg.split("\n") if lg else [])
        if o["ok"]:
            try:
                y = circ.read_wtns(w)
                o.update(w=[str(v) for v in y["w"]], bin=open(w, "rb").read())
                if y["trailing"] or y["n"] != len(y["w"]): o.update(ok=False, err="malformed witness file")
            except Exception as e: o.update(ok=False, err="malformed witness file %r" % e)
        elif r.returncode != 0 and os.path.exists(w): o["err"] = "FILE " + o["err"]
        out.append(o)
    shutil.rmtree(d, ignore_errors=True)
    return out
