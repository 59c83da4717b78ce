"""Runs TLC; returns the lines our specifications print and the state counts."""
import os, re, subprocess, tempfile, json, shutil
from circ import ROOT, ToolError
import circ
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(ROOT, "spec")
JAVA = os.path.join(ROOT, "build", "java")

def build_java():
    src = os.path.join(ROOT, "java", "BigInt.java"); cls = os.path.join(JAVA, "BigInt.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(JAVA, exist_ok=True)
        p = subprocess.run(["javac", "-cp", JARS, "-d", JAVA, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise ToolError(p.stdout)

class R: pass
def run(module, cfg=None, env=None, big=True, workers=8, args=(), timeout=600, heap="10g", deadlock=False, ok=(0,)):
    """cfg: text of the configuration (default: spec/<module>.cfg)"""
    build_java()
    meta = tempfile.mkdtemp(prefix="tlc", dir=circ.SCRATCH)
    if cfg is None: cfgf = os.path.join(SPEC, module + ".cfg")
    else:
        cfgf = os.path.join(meta, module + ".cfg"); open(cfgf, "w").write(cfg)
    cp = (JAVA + ":" if big else "") + JARS
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + heap, "-cp", cp, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-config", cfgf, "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE"] + ([] if deadlock else ["-deadlock"]) + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    out = p.stdout.decode("utf8", "replace")
    shutil.rmtree(meta, ignore_errors=True)
    r = R(); r.rc, r.out = p.returncode, out
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.lines = [l for l in out.splitlines() if l.startswith('<<"@')]
    if ok is not None and p.returncode not in ok:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, "\n".join([l for l in out.splitlines() if not re.match(r"\d+\. Line|Parsing|Semantic|Linting", l) and not l.startswith('<<"@')])[-1500:]), out)
    return r

def unq(s): return json.loads(s)
def parse(line):
    """<<"@X", "json text">> -> ("X", object)"""
    m = re.match(r'<<"@(\w+)", "(.*)">>$', line)
    if not m: return None
    return m.group(1), json.loads(json.loads('"' + m.group(2) + '"'))
