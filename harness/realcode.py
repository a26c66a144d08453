"""
Calls the public functions of /repo and records what they do (executed by worker.py).
"""
import io
import os
import shutil
import sys
import tempfile
import threading
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import creole  # noqa: E402
from creole.parser.creol2html_rules import BlockRules  # noqa: E402
from creole.shared import unknown_tags  # noqa: E402

assert os.path.realpath(creole.__file__).startswith(os.path.realpath(REPO) + os.sep), creole.__file__


# ---- the macros the specification (CreoleHtml.tla) knows ----------------------------

def html(text):
    return text


def echo(**kw):
    def val(v):
        if v is None:
            return "n", "None"
        if isinstance(v, bool):
            return "b", str(v)
        if isinstance(v, int):
            return "i", str(v)
        if isinstance(v, str):
            return "s", v
        return "?", repr(v)

    def esc(s):
        return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")

    return "".join("[%s|%s|%s]" % (esc(k), val(v)[0], esc(val(v)[1])) for k, v in sorted(kw.items()))


def boom(text=None, **kw):
    raise ValueError("boom <&> !")


def num(text=None, **kw):
    return 42


def nokw(text):
    return "nokw"


def toc(text=None, **kw):
    return "[my toc]"


STD = {"html": html, "echo": echo, "boom": boom, "num": num, "nokw": nokw}


class Obj:
    pass


def macros_for(kind, as_object=False):
    if kind == "none":
        return None
    d = dict(STD)
    if kind == "usertoc":
        d["toc"] = toc
    if as_object:
        o = Obj()
        o.__dict__.update(d)
        return o
    return d


def cps(s):
    return [ord(c) for c in s]


def text(cp):
    return "".join(map(chr, cp))


class Silence:
    """No conversion may write to the real stdout/stderr: record whether it does."""

    def __enter__(self):
        self.saved = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        return False

    def noise(self):
        return bool(self.out.getvalue() or self.err.getvalue())


def result(rec, func):
    """call func and put what happens into the record"""
    with Silence() as sil:
        call(rec, func)
    rec["noise"] = sil.noise() and not rec.get("debug")
    if rec.get("stderr") == "default":
        rec["err"] = bool(sil.err.getvalue())
        rec["noise"] = bool(sil.out.getvalue())
    return rec


def call(rec, func):
    try:
        out = func()
        if type(out) is str:
            rec["out"] = cps(out) if rec.get("judge") != "ends" else []
        else:
            rec["exc"] = "returns " + type(out).__name__
    except Exception as e:
        rec["exc"] = type(e).__name__


# ---- creole to html -------------------------------------------------------------------

def creole_base(job):
    return {"id": job["id"], "fn": "creole", "in": cps(job["src"]), "blog": job.get("blog", True),
            "macros": job.get("macros", "none"), "obj": job.get("obj", False), "verbose": job.get("verbose", 1),
            "strict": job.get("strict", False), "judge": job.get("judge", "all"), "exc": "", "out": [],
            "err": False, "noise": False, "debug": job.get("debug", False), "stderr": job.get("stderr", "given"), "rules": job.get("rules", False), "codes": []}


def creole_call(r, src, macros, err, rules=None):
    kw = dict(debug=True) if r["debug"] else {}
    if r["stderr"] != "default":
        kw["stderr"] = err
    if r["rules"]:
        kw["block_rules"] = rules or BlockRules(blog_line_breaks=r["blog"])
    return creole.creole2html(src, blog_line_breaks=r["blog"], macros=macros, verbose=r["verbose"], strict=r["strict"], **kw)


def do_creole(job):
    r = creole_base(job)
    err = io.StringIO()
    macros = example_macros(r["codes"], r["obj"]) if r["macros"] == "example" else macros_for(r["macros"], r["obj"])
    result(r, lambda: creole_call(r, job["src"], macros, err))
    r["err"] = r["err"] or bool(err.getvalue())
    return r


# ---- html to the four markups --------------------------------------------------------

POLICIES = {
    "default": None,
    "transparent": unknown_tags.transparent_unknown_nodes,
    "escape": unknown_tags.escape_unknown_nodes,
    "html": unknown_tags.use_html_macro,
    "pre": unknown_tags.preformat_unknown_nodes,
    "raise": unknown_tags.raise_unknown_node,
}
TARGETS = {"creole": "html2creole", "rest": "html2rest", "textile": "html2textile", "markdown": "html2markdown"}


def html_base(job):
    policy = job.get("policy", "default")
    return {"id": job["id"], "fn": "html", "in": cps(job["src"]), "target": job.get("target", "creole"),
            "strict": job.get("strict", False), "policy": "transparent" if policy == "default" else policy,
            "judge": job.get("judge", "all"), "exc": "", "out": [], "noise": False, "debug": job.get("debug", False)}


def html_call(target, src, strict, policy, debug=False):
    kw = {"debug": True} if debug else {}
    if policy != "default":
        kw["unknown_emit"] = POLICIES[policy]
    if target == "creole" and strict:
        kw["strict"] = strict
    return getattr(creole, TARGETS[target])(src, **kw)


def do_html(job):
    r = html_base(job)
    return result(r, lambda: html_call(r["target"], job["src"], r["strict"], job.get("policy", "default"), r["debug"]))


# ---- the command line tools -----------------------------------------------------------

def read_files(top):
    """name -> bytes of all files below the directory"""
    found = {}
    for base, dirs, names in os.walk(top):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                found[os.path.relpath(p, top)] = list(f.read())
    return found


class Directory:
    """a scratch directory with the given files, as working directory"""

    def __init__(self, files, folders=()):
        self.files, self.folders = files, folders

    def __enter__(self):
        self.back = os.getcwd()
        self.top = tempfile.mkdtemp(prefix="dir-", dir=self.back)
        for f in self.folders:
            os.mkdir(os.path.join(self.top, f))
        for name, data in self.files.items():
            with open(os.path.join(self.top, name), "wb") as f:
                f.write(bytes(data))
        os.chdir(self.top)
        return self

    def __exit__(self, *a):
        os.chdir(self.back)
        shutil.rmtree(self.top, ignore_errors=True)
        return False


def call_tool(argv, func):
    """does the call of the entry point succeed?"""
    saved = sys.argv
    sys.argv = argv
    try:
        with Silence():
            func()
        return True
    except SystemExit as e:
        return e.code in (None, 0)
    except Exception:
        return False
    finally:
        sys.argv = saved


def cli_base(job):
    return {"id": job["id"], "fn": "cli", "files": job["files"], "ops": job["ops"], "seen": [], "exc": ""}


def do_cli(job):
    from creole import cmdline
    r = cli_base(job)
    with Directory(job["files"], ["folder"]) as d:
        for op in job["ops"]:
            enc = ["--encoding", op["enc"]] if op["enc"] else []
            argv = [op["tool"]] + (enc + [op["src"], op["dst"]] if job.get("optfirst") else [op["src"], op["dst"]] + enc)
            ok = call_tool(argv, getattr(cmdline, "cli_" + op["tool"]))
            r["seen"].append({"ok": ok, "files": read_files(d.top)})
    return r


# ---- the README functions ---------------------------------------------------------------

LONG_AGO = 10 ** 9


def accepted(kind, path, raises):
    """Does docutils accept the ReStructuredText of the file?  (a fact about the world)"""
    try:
        with open(path, encoding="utf-8", newline="" if kind == "describe" else None) as f:
            text = f.read().strip()
        rest = creole.html2rest(creole.creole2html(text), unknown_emit=unknown_tags.raise_unknown_node)
        if kind == "describe":
            from creole.rest_tools.pypi_rest2html import pypi_rest2html
            pypi_rest2html(rest)
            return True
        from readme_renderer.rst import render
        return render(rest, stream=io.StringIO()) is not None
    except (Exception, SystemExit):
        return False


def readme_base(job):
    return {"id": job["id"], "fn": "readme", "names": job["names"], "files": job["files"], "ops": job["ops"], "seen": [], "exc": ""}


def readme_call(op, root, source):
    from pathlib import Path
    from creole import setup_utils
    if op["op"] == "describe":
        kw = {} if op["mode"] == "auto" else {"raise_errors": op["mode"] == "yes"}
        return setup_utils.get_long_description(root if op.get("str") else Path(root), filename=source, **kw)
    func = getattr(setup_utils, op["op"] + "_" + {"rst": "rst", "md": "markdown"}[op["kind"]] + "_readme")
    args = {} if source == "README.creole" and op.get("str") else {"filename": source}
    return func(Path(root), **args)


def do_readme(job):
    r = readme_base(job)
    source = job["names"]["creole"]
    os.environ["TZ"] = "UTC"
    time.tzset()
    with Directory(job["files"]) as d:
        for op in job["ops"]:
            seen = {"ok": True, "text": [], "stale": False}
            before = read_files(d.top)
            for name in before:
                if name != source:
                    os.utime(os.path.join(d.top, name), (LONG_AGO, LONG_AGO))
            path = os.path.join(d.top, op.get("name", source))
            if op["op"] == "edit":
                with open(path, "wb") as f:
                    f.write(bytes(op["data"]))
            elif op["op"] == "remove":
                if os.path.exists(path):
                    os.remove(path)
            else:
                if os.path.exists(path):
                    os.utime(path, (op["mtime"], op["mtime"]))
                op["valid"] = accepted(op["op"], path, op.get("mode"))
                saved = sys.argv
                sys.argv = ["setup.py"] + op.get("argv", [])
                try:
                    with Silence():
                        out = readme_call(op, d.top, source)
                    if op["op"] == "update":
                        out = os.path.relpath(str(out), d.top)
                    seen["text"] = cps(out or "")
                except SystemExit as e:
                    seen["ok"] = e.code in (None, 0)
                except Exception as e:
                    seen["ok"], seen["stale"] = False, isinstance(e, AssertionError)
                finally:
                    sys.argv = saved
            seen["files"] = read_files(d.top)
            seen["wrote"] = sorted(n for n in seen["files"] if n != source and os.stat(os.path.join(d.top, n)).st_mtime != LONG_AGO)
            r["seen"].append(seen)
    return r


# ---- histories of conversions ----------------------------------------------------------

class Baton:
    """Lets one thread run at a time; switches at the planned counts of executed lines of the package.
    plan: [thread, lines it has executed when it hands over]"""
    WAIT = 20

    def __init__(self, plan, threads, every=0):
        self.plan = list(plan) + [(i, 1 << 60) for i in range(threads)]
        self.every, self.turn, self.until = every, 0, every     # or: the threads in turn, so many lines each
        self.cond = threading.Condition()
        self.lines = [0] * threads
        self.alive = set(range(threads))
        self.lost = False

    def now(self):
        if self.every:
            if self.alive and (self.turn not in self.alive or self.lines[self.turn] >= self.until):
                self.turn = min((i for i in self.alive if i > self.turn), default=min(self.alive))
                self.until = self.lines[self.turn] + self.every
            return self.turn, self.until
        while self.plan and (self.plan[0][0] not in self.alive or self.plan[0][1] <= self.lines[self.plan[0][0]]):
            del self.plan[0]
        return self.plan[0] if self.plan else (min(self.alive, default=0), 1 << 60)

    def wait(self, i):
        with self.cond:
            while not self.lost and self.now()[0] != i:
                if not self.cond.wait(self.WAIT):
                    self.lost = True        # somebody holds a lock: let all run
            self.limit = 1 << 60 if self.lost else self.now()[1]

    def trace(self, i):
        top = os.path.join(os.path.realpath(REPO), "creole") + os.sep

        def lines(frame, event, arg):
            if event == "line":
                self.lines[i] += 1
                if self.lines[i] >= self.limit:
                    with self.cond:
                        self.cond.notify_all()
                    self.wait(i)
            return lines

        def calls(frame, event, arg):
            return lines if frame.f_code.co_filename.startswith(top) else None
        return calls

    def run(self, i, func):
        self.wait(i)
        sys.settrace(self.trace(i))
        try:
            func()
        finally:
            sys.settrace(None)
            with self.cond:
                self.alive.discard(i)
                self.cond.notify_all()


class History:
    def __init__(self, job):
        self.job = job
        self.recs = []
        self.events = []
        self.stack = threading.local()
        self.macros = {k: macros_for(k) for k in ("std", "usertoc")}
        for d in self.macros.values():
            d["num"] = self.nesting(d["num"])
        self.objects = dict((k, Obj()) for k in self.macros)
        for k, o in self.objects.items():
            o.__dict__.update(self.macros[k])
        self.policies = {k: self.nesting(v or unknown_tags.transparent_unknown_nodes) for k, v in POLICIES.items()}
        self.rules = {b: BlockRules(blog_line_breaks=b) for b in (True, False)}
        self.before = {k: list(d.items()) for k, d in self.given().items()}
        for j in job["calls"]:
            self.recs.append((creole_base if j["fn"] == "creole" else html_base)(dict(j, id=0)))

    def given(self):
        return dict(self.macros, **{"object " + k: o.__dict__ for k, o in self.objects.items()},
                    **{"rules %s" % b: x.__dict__ for b, x in self.rules.items()})

    def unchanged(self):
        return all(list(d.items()) == self.before[k] for k, d in self.given().items())

    def nesting(self, func):
        """calls func; the first time in a conversion, its nested conversions are made before"""
        def outer(*a, **k):
            frames = getattr(self.stack, "frames", [])
            if frames and frames[-1]["nested"]:
                todo = frames[-1]["nested"]
                frames[-1]["nested"] = []
                for i in todo:
                    self.convert(i)
            return func(*a, **k)
        outer.__name__ = func.__name__
        return outer

    def convert(self, i):
        j, r = self.job["calls"][i], self.recs[i]
        if not hasattr(self.stack, "frames"):
            self.stack.frames = []
        self.stack.frames.append({"nested": list(j.get("nested", []))})
        self.events.append(["begin", i + 1])
        if j["fn"] == "creole":
            err = io.StringIO()
            m = None if r["macros"] == "none" else (self.objects if r["obj"] else self.macros)[r["macros"]]
            call(r, lambda: creole_call(r, j["src"], m, err, self.rules[r["blog"]]))
            r["err"] = bool(err.getvalue())
        else:
            def convert():
                kw = {"unknown_emit": self.policies[r["policy"]]} if j.get("policy", "default") != "default" else {}
                if r["target"] == "creole" and r["strict"]:
                    kw["strict"] = True
                return getattr(creole, TARGETS[r["target"]])(j["src"], **kw)
            call(r, convert)
        self.events.append(["end", i + 1])
        self.stack.frames.pop()


def history_base(job):
    return {"id": job["id"], "fn": "history", "calls": [], "events": [], "given": True, "noise": False, "exc": "", "switches": 0}


def do_history(job):
    r = history_base(job)
    h = History(job)
    threads = job.get("threads") or [list(range(len(job["calls"])))]

    def calls(t):
        for i in threads[t]:
            h.convert(i)

    with Silence() as sil:
        if len(threads) == 1:
            calls(0)
        else:
            counts = []
            for t in range(len(threads) if job.get("schedule") else 0):     # how many lines are executed without switches
                quiet = Baton([], 1)
                alone = History(job)
                quiet.run(0, lambda: [alone.convert(i) for i in threads[t]])
                counts.append(quiet.lines[0])
            plan = [(t, max(1, int(part * counts[t]))) for t, part in job.get("schedule", [])]
            baton = Baton(plan, len(threads), job.get("every", 0))
            running = [threading.Thread(target=baton.run, args=(t, lambda t=t: calls(t)), daemon=True) for t in range(len(threads))]
            for x in running:
                x.start()
            for x in running:
                x.join(60)
                if x.is_alive():
                    r["exc"] = "Hang"
            r["switches"] = len(plan)
            if baton.lost:
                r["switches"] = -1
    r["noise"] = sil.noise()
    r["calls"], r["events"], r["given"] = h.recs, h.events, h.unchanged()
    return r


# ---- the example macros ------------------------------------------------------------------

def lexer_name(ext):
    parts = ext.strip().split(".")
    return parts[1] if len(parts) > 1 else parts[0]


def pygments_code(ext, src):
    """what pygments makes of the text on its own"""
    from pygments import highlight, lexers
    from pygments.formatters import HtmlFormatter
    name = lexer_name(ext)
    try:
        lexer = lexers.get_lexer_by_name(name)
    except Exception:
        lexer = lexers.guess_lexer(src)
    return {"name": cps(name), "text": cps(src), "html": cps(highlight(src, lexer, HtmlFormatter(cssclass="pygments")))}


def example_macros(codes, as_object=False):
    from creole.shared import example_macros as m

    def code(*args, **kw):
        if not args and set(kw) == {"ext", "text"} and isinstance(kw["ext"], str) and isinstance(kw["text"], str):
            codes.append(pygments_code(kw["ext"], kw["text"]))
        return m.code(*args, **kw)

    if as_object:
        o = Obj()
        o.html, o.pre, o.code = m.html, m.pre, code
        return o
    return {"html": m.html, "pre": m.pre, "code": code}


def macro_base(job):
    return {"id": job["id"], "fn": "macro", "name": job["name"], "ext": cps(job["ext"]), "pygments": job.get("pygments", "works"), "in": cps(job["src"]), "codes": [], "exc": "", "out": [], "noise": False}


def broken(*args, **kw):
    raise ValueError("no highlighting")


def do_macro(job):
    from creole.shared import example_macros as m
    r = macro_base(job)
    if job["name"] == "code":
        r["codes"].append(pygments_code(job["ext"], job["src"]))
    before = m.PYGMENTS, m.highlight
    try:
        m.PYGMENTS = r["pygments"] != "missing"
        m.highlight = broken if r["pygments"] == "fails" else m.highlight
        return result(r, lambda: m.code(job["ext"], job["src"]) if job["name"] == "code" else getattr(m, job["name"])(job["src"]))
    finally:
        m.PYGMENTS, m.highlight = before


# ---- ReStructuredText to html -----------------------------------------------------------

def rest_base(job):
    return {"id": job["id"], "fn": "rest", "call": job["call"], "raw": bool(job.get("raw")), "std": {"exc": "", "out": [], "uris": []},
            "exc": "", "out": [], "noise": False}


def rest_settings(job):
    kw = {}
    if job.get("raw"):
        kw["raw_enabled"] = True
    if job.get("insert"):
        kw.update(file_insertion_enabled=True, input_encoding="utf-8")
    if job.get("report"):
        kw["report_level"] = job["report"]
    if job.get("exit"):
        kw.update(exit_status_level=job["exit"], traceback=False)
    return kw


def attempt(rec, func):
    from docutils.parsers.rst import roles
    roles._roles.clear()        # docutils keeps the roles of a document
    try:
        with Silence():
            out = func()
        if isinstance(out, bytes):
            rec["out"] = cps(out.decode("utf-8"))
        elif type(out) is str:
            rec["out"] = cps(out) if rec.get("judge") != "ends" else []
        else:
            rec["exc"] = "returns " + type(out).__name__
    except SystemExit as e:
        rec["exc"] = "exit %s" % e.code
    except Exception as e:
        rec["exc"] = type(e).__name__


def docutils_clean(job):
    from docutils.core import publish_parts
    settings = dict({"input_encoding": "unicode", "doctitle_xform": False, "file_insertion_enabled": False, "raw_enabled": False}, **rest_settings(job))
    return publish_parts(job["src"], writer_name="html4css1", settings_overrides=settings, enable_exit_status=1 if job.get("exit") else None)["html_body"]


def docutils_pypi(job, uris):
    from docutils.core import publish_doctree, publish_parts
    settings = {"file_insertion_enabled": 0, "raw_enabled": 0, "halt_level": 2, "report_level": 5}
    for node in publish_doctree(job["src"], settings_overrides=dict(settings)).findall():
        if hasattr(node, "attributes"):
            for k in ("refuri", "uri"):
                if node.hasattr(k):
                    uris.append(cps(node[k]))
                    break
    return publish_parts(job["src"], writer_name="html4css1", settings_overrides=settings)["body"]


def do_rest(job):
    r = rest_base(job)
    with Directory(job.get("files") or {}):
        if job["call"] == "clean":
            from creole.rest_tools.clean_writer import rest2html
            attempt(r["std"], lambda: docutils_clean(job))
            attempt(r, lambda: rest2html(job["src"], enable_exit_status=1 if job.get("exit") else None, **rest_settings(job)))
        else:
            from creole.rest_tools.pypi_rest2html import pypi_rest2html
            attempt(r["std"], lambda: docutils_pypi(job, r["std"]["uris"]))
            attempt(r, lambda: pypi_rest2html(job["src"], **({"output_encoding": job["enc"]} if job.get("enc") else {})))
    return r


# ---- there and back ------------------------------------------------------------------------

def back_base(job):
    return {"id": job["id"], "fn": "back", "in": cps(job["src"]), "target": job["target"], "exc": "", "out": [], "noise": False, "warn": False, "html": []}


def read_back(target, markup):
    """what a reader of the markup shows, and whether it complains"""
    if target == "creole":
        return creole.creole2html(markup), False
    if target == "textile":
        import textile
        return textile.textile(markup), False
    if target == "markdown":
        if "\n|" not in "\n" + markup:
            import commonmark
            return commonmark.commonmark(markup), False
        import markdown
        return markdown.markdown(markup, extensions=["tables", "fenced_code", "sane_lists"]), False
    from docutils.core import publish_parts
    messages = io.StringIO()
    settings = {"doctitle_xform": False, "input_encoding": "unicode", "warning_stream": messages, "initial_header_level": 1, "report_level": 2, "halt_level": 5}
    return publish_parts(markup, writer_name="html4css1", settings_overrides=settings)["html_body"], bool(messages.getvalue())


def do_back(job):
    r = result(back_base(job), lambda: getattr(creole, TARGETS[job["target"]])(job["src"]))
    if not r["exc"]:
        page, r["warn"] = read_back(job["target"], text(r["out"]))
        r["html"] = cps(page)
    return r


DO = {"back": (do_back, back_base), "macro": (do_macro, macro_base), "rest": (do_rest, rest_base), "history": (do_history, history_base), "readme": (do_readme, readme_base), "cli": (do_cli, cli_base), "creole": (do_creole, creole_base), "html": (do_html, html_base)}


def run(job):
    return DO[job["fn"]][0](job)


def failed(job, exc):
    r = DO[job["fn"]][1](job)
    r["exc"] = exc
    return r
