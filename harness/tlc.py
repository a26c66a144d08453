"""Runs TLC on modules of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def lines(self, tag):
        """the values printed as  tag {json}"""
        p = '"' + tag + " "
        return [json.loads(json.loads(line)[len(tag) + 1:]) for line in self.out.splitlines() if line.startswith(p)]

    def violated(self):
        return re.findall(r"Invariant (\S+) is violated", self.out)


def run(module, cfg=None, env=None, workers=8, mem="8g", timeout=850, scratch=None, extra=(), ok=(0,)):
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    try:
        cmd = ["java", "-Xss256m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", work, "-noGenerateSpecTE", *extra, "-config", cfg or module + ".cfg",
               module + ".tla"]
        t = time.time()
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        r = Result(p.stdout, p.returncode, time.time() - t)
        if "Parsing or semantic analysis failed" in r.out:
            raise SyntaxError("module %s:\n%s" % (module, r.out[-3000:]))
        if r.rc not in ok:
            raise TlcError("TLC ended with %d:\n%s" % (r.rc, r.out[-4000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)
