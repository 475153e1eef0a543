"""Running TLC and reading its output."""
import os, re, shutil, subprocess, tempfile, time
from .env import SPEC

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIB = SPEC

class TLCResult(object):
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.lines = [l[1:-1] for l in out.splitlines() if l.startswith('"') and l.endswith('"')]

def run_tlc(module, cfg=None, env=None, workers=1, heap="1500m", timeout=600, extra=(), cfgtext=None):
    """Run TLC on SPEC/<module>.tla; the state directory is a scratch directory."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        if cfgtext is not None:
            cfgp = os.path.join(meta, "gen.cfg")
            with open(cfgp, "w") as f: f.write(cfgtext)
        else:
            cfgp = os.path.join(SPEC, cfg or (module + ".cfg"))
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + LIB, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-deadlock",
               "-metadir", meta, "-noGenerateSpecTE", "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            rc, out = p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            rc, out = 124, (x.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"
        return TLCResult(rc, out, time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
