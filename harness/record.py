"""Runs jobs on the real code in watched worker processes."""
import json
import os
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


def failed(job, exc):
    """the record of a job whose process died"""
    return {"id": job["id"], "failed": True, "exc": exc}


def run(jobs, scratch, workers=8, stall=90, env=None):
    """the records of the jobs, in order"""
    jobs = list(jobs)
    for i, j in enumerate(jobs):
        j["id"] = i
    n = max(1, min(workers, len(jobs) // 50 + 1))
    parts = [jobs[k::n] for k in range(n)]
    procs = [start(p, 0, k, scratch, 0, env) for k, p in enumerate(parts)]
    done = {}
    while any(p is not None for p in procs):
        time.sleep(0.02)
        for k, p in enumerate(procs):
            if p is None:
                continue
            count = os.path.getsize(p["rec"]) if os.path.exists(p["rec"]) else 0
            if count != p["size"]:
                p["size"], p["t"] = count, time.time()
            rc = p["proc"].poll()
            hang = rc is None and time.time() - p["t"] > stall
            if rc is None and not hang:
                continue
            if hang:
                p["proc"].kill()
                p["proc"].wait()
            recs = load(p["rec"])
            for r in recs:
                done[r["id"]] = r
            nxt = p["at"] + len(recs)
            if nxt < len(parts[k]):      # it stopped at a job
                with open(p["log"], errors="replace") as f:
                    tail = f.read()[-400:]
                j = parts[k][nxt]
                done[j["id"]] = dict(failed(j, "Hang" if hang else "Crash"), log=tail)
                left = nxt + 1
                if p["restarts"] >= 3:      # e.g. the package can't be imported
                    for j in parts[k][left:]:
                        done[j["id"]] = dict(failed(j, "Crash"), log=tail)
                    left = len(parts[k])
                procs[k] = start(parts[k], left, k, scratch, p["restarts"] + 1, env) if left < len(parts[k]) else None
            else:
                procs[k] = None
    return [done[i] for i in range(len(jobs))]


def start(part, at, k, scratch, restarts=0, more=None):
    base = os.path.join(scratch, "w%d_%d" % (k, restarts))
    with open(base + ".jobs", "w") as f:
        for j in part[at:]:
            f.write(json.dumps(j) + "\n")
    if os.path.exists(base + ".rec"):
        os.remove(base + ".rec")
    log = open(base + ".log", "w")
    env = dict(os.environ, VERIF_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", HOME=scratch, **(more or {}))
    proc = subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py"), base + ".jobs", base + ".rec"],
                            stdout=log, stderr=log, stdin=subprocess.DEVNULL, cwd=scratch, env=env)
    log.close()
    return {"proc": proc, "rec": base + ".rec", "log": base + ".log", "t": time.time(), "size": 0, "at": at, "restarts": restarts}


def load(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.endswith("\n"):
                    out.append(json.loads(line))
    return out
