"""
Executes jobs on the code of /repo:  worker.py JOBS RECORDS
One JSON job per line in, one JSON record per line out.  Runs with the interpreter the
project is installed in; started by record.py, which watches it.
"""
import json
import os
import resource
import signal
import sys
import tempfile

sys.pycache_prefix = tempfile.mkdtemp(prefix="pyc-", dir=os.environ.get("VERIF_SCRATCH"))  # never use stale byte code
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

LIMIT = float(os.environ.get("VERIF_JOB_LIMIT", "15"))      # seconds of cpu time


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def main():
    jobs, records = sys.argv[1:3]
    import realcode
    signal.signal(signal.SIGPROF, on_alarm)
    hangs = 0
    with open(jobs) as f, open(records, "a") as out:
        for line in f:
            job = json.loads(line)
            if hangs > 1:
                rec = {"id": job["id"], "skipped": True}
            else:
                signal.setitimer(signal.ITIMER_PROF, LIMIT)
                try:
                    rec = realcode.run(job)
                except Hang:
                    rec = realcode.failed(job, "Hang")
                    hangs += 1
                finally:
                    signal.setitimer(signal.ITIMER_PROF, 0)
            out.write(json.dumps(rec) + "\n")
            out.flush()


main()
