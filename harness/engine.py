"""Runs the parts of a check, collects what they find, and reports it."""
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

import record
import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
MAX_LINES = 20


def text(cp):
    return "".join(chr(c) if c >= 0 else "\u2042" for c in cp)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.unjudged = self.skipped = self.known = 0
        self.samples, self.violations, self.parts, self.notes = [], [], [], []
        self.seen = set()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.deadline = self.t0 + (600 if self.quick else 800)

    # ---- budget
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return self.deadline - time.time()

    # ---- running TLC
    def tlc(self, module, env=None, cfg=None, workers=8, mem="10g", timeout=None):
        r = tlc.run(module, cfg=cfg, env=env, workers=workers, mem=mem, timeout=max(20, min(timeout or 400, self.left())), scratch=self.scratch)
        self.states += r.states
        self.transitions += r.transitions
        return r

    # ---- findings
    def violation(self, kind, job, verdict, **more):
        """one violation; the first ones are written to replay files"""
        key = (kind, verdict, json.dumps(job, sort_keys=True))
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append(dict(more, property=self.pid, kind=kind, job={k: v for k, v in job.items() if k != "id"}, verdict=verdict))

    # ---- recorded behaviour of the real code, judged by the specification
    def judge(self, kind, module, jobs, sample=2, tag=None, env=None):
        """jobs -> records of the real code -> TLC; returns the mismatches"""
        jobs = [dict(j) for j in jobs]
        if not jobs:
            return []
        d = tempfile.mkdtemp(dir=self.scratch)
        recs = record.run(jobs, d, env=env)
        shutil.rmtree(d, ignore_errors=True)
        good = []
        for j, r in zip(jobs, recs):
            if r.get("skipped"):
                self.skipped += 1
            elif r.get("failed"):
                self.violation(kind, j, r["exc"], module=module, log=r.get("log", ""))
            else:
                good.append(r)
        found = []
        size = 6000
        for at in range(0, len(good), size):
            found += self.judge_records(kind, module, good[at:at + size], jobs)
        bad = {m["id"] for m in found}
        rnd = random.Random(len(self.samples))
        ok = [r for r in good if r["id"] not in bad]
        for r in rnd.sample(ok, min(sample, len(ok))):
            self.samples.append(sample_of(kind, jobs[r["id"]], r))
        self.parts.append(dict(part=tag or kind, module=module, records=len(good), mismatches=len(found), known=sum(bool(m.get("known")) for m in found)))
        for m in found:
            if m.get("known"):
                self.known += 1
                continue
            r = recs[m["id"]]
            self.violation(kind, jobs[m["id"]], m["verdict"], module=module, expected=readable(m), observed=readable(r))
        return found

    def judge_records(self, kind, module, recs, jobs):
        if not recs:
            return []
        if self.left() < 15:
            self.unjudged += len(recs)
            return []
        path = os.path.join(self.scratch, "trace.ndjson")
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        try:
            p = self.tlc(module, env={"TRACE": path})
        except SyntaxError:
            raise
        except Exception as e:       # TLC failed: find the records it can't handle
            if len(recs) == 1 or not isinstance(e, (tlc.TlcError, OSError)) and "Timeout" not in type(e).__name__:
                self.unjudged += len(recs)
                self.notes.append("not judged: %s" % str(e)[-300:])
                return []
            k = max(1, len(recs) // 8)
            out = []
            for at in range(0, len(recs), k):
                out += self.judge_records(kind, module, recs[at:at + k], jobs)
            return out
        self.traces += len(recs)
        return p.lines("MISMATCH")

    # ---- behaviours of the specification, replayed on the real code
    def replay(self, kind, module, trace_module, plan, job_of, same, cfg=None, tag=None):
        """TLC explores `module` under the plan and prints its cases; those the real code does otherwise are judged by trace_module"""
        path = os.path.join(self.scratch, "plan.json")
        with open(path, "w") as f:
            json.dump(plan, f)
        try:
            p = self.tlc(module, env={"PLAN": path}, cfg=cfg)
        except SyntaxError:
            raise
        except Exception as e:
            self.notes.append("exploration failed: %s" % str(e)[-600:])
            self.unjudged += 1
            if os.environ.get("VERIF_DEBUG"):
                raise
            return
        cases = p.lines("CASE")
        jobs = [job_of(c) for c in cases]
        d = tempfile.mkdtemp(dir=self.scratch)
        recs = record.run([dict(j) for j in jobs], d)
        shutil.rmtree(d, ignore_errors=True)
        doubt = []
        for j, r, c in zip(jobs, recs, cases):
            if r.get("skipped"):
                self.skipped += 1
            elif r.get("failed"):
                self.violation(kind, j, r["exc"], module=trace_module, log=r.get("log", ""))
            elif not same(r, c):
                doubt.append(j)
        self.traces += len(cases) - len(doubt)
        self.known += sum(bool(c.get("known")) for c in cases)
        self.parts.append(dict(part=tag or kind + " cases", module=module, states=p.states, cases=len(cases), differing=len(doubt)))
        if cases:
            i = len(cases) // 2
            self.samples.append(sample_of(kind, jobs[i], recs[i]))
        self.judge(kind, trace_module, doubt[:3000], sample=0, tag=(tag or kind) + ": differing cases")

    # ---- properties of the specification alone
    def explore(self, module, plan, cfg=None, tag=None):
        path = os.path.join(self.scratch, "plan.json")
        with open(path, "w") as f:
            json.dump(plan, f)
        try:
            p = self.tlc(module, env={"PLAN": path}, cfg=cfg)
        except SyntaxError:
            raise
        except Exception as e:
            self.notes.append("exploration failed: %s" % str(e)[-600:])
            self.unjudged += 1
            if os.environ.get("VERIF_DEBUG"):
                raise
            return
        self.parts.append(dict(part=tag or module, module=module, states=p.states))

    # ---- the end
    def finish(self, known_lines):
        os.makedirs(EVIDENCE, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith(self.pid + ".replay"):
                os.remove(os.path.join(EVIDENCE, f))
        self.violations.sort(key=lambda v: len(json.dumps(v["job"])))
        for i, v in enumerate(self.violations[:MAX_LINES]):
            path = os.path.join(EVIDENCE, "%s.replay-%d.json" % (self.pid, i + 1))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(path, VERIF)))
            print("  %s: %s" % (v["verdict"], json.dumps(v["job"])[:300]))
        for line in known_lines:
            print(line)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "samples": self.samples[:12], "parts": self.parts, "known_mismatches": self.known,
                "unjudged": self.unjudged, "skipped": self.skipped, "notes": self.notes[:5],
            },
            "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d violations, %d traces, %d states, %d known, %d not judged, %.0f s" %
              (self.pid, self.tier, len(self.violations), self.traces, self.states, self.known, self.unjudged + self.skipped, time.time() - self.t0))
        shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def readable(r):
    out = {}
    for k, v in r.items():
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            v = text(v)
        out[k] = v
    return out


def sample_of(kind, job, rec):
    s = {"kind": kind, "job": {k: v for k, v in job.items() if k != "id"}}
    for k in ("out", "exc", "events", "result"):
        if k in rec:
            v = readable({k: rec[k]})[k]
            s[k] = v if len(json.dumps(v)) < 1500 else json.dumps(v)[:1500]
    if len(json.dumps(s["job"])) > 3000:
        s["job"] = json.dumps(s["job"])[:3000]
    return s


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def main(argv, checks):
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick" if "--quick" in argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(pid, tier, seed)
    lines = []
    try:
        if "--replay" in argv:
            with open(argv[argv.index("--replay") + 1]) as f:
                v = json.load(f)
            print("replay of:", json.dumps(v["job"])[:2000])
            c.judge(v["kind"], v["module"], [v["job"]], sample=0)
            for v in c.violations:
                print(json.dumps(v, indent=1))
                print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]))
            shutil.rmtree(c.scratch, ignore_errors=True)
            return 1 if c.violations else 0
        for f in known_findings():
            if pid not in f["properties"]:
                continue
            for w in f["witnesses"]:
                got = c.judge(w["kind"], w["module"], [w["job"]], sample=0, tag="witness of " + f["id"])
                if any(m.get("known") for m in got):
                    line = "KNOWN-FINDING: property=%s %s: %s" % (pid, f["id"], f["what"])
                    if line not in lines:
                        lines.append(line)
        checks[pid](c)
    except Exception:
        c.notes.append("the check failed: " + traceback.format_exc()[-1500:])
        traceback.print_exc()
        if not c.violations:
            shutil.rmtree(c.scratch, ignore_errors=True)
            return 3
    return c.finish(lines)
