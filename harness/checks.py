"""The checks: which explorations and recorded traces decide which property."""
import itertools
import random
import re

import backgen
import cgen
import filegen
import hgen
import histgen
import macrogen
import restgen


# ---- parts -----------------------------------------------------------------------------

def creole(c, focus, quick, thorough, judge="all", wild=0.25, salt=0, **force):
    jobs = [dict(o, src=s, fn="creole", judge=judge, **force) for s, o in cgen.docs(focus, c.seed + salt, c.n(quick, thorough), wild)]
    c.judge("creole", "TraceCreole", jobs, tag="creole " + focus)


def html(c, focus, quick, thorough, judge="all", targets=None, salt=0, **force):
    jobs = [dict(o, src=s, fn="html", judge=judge, **force) for s, o in hgen.docs(focus, c.seed + salt, c.n(quick, thorough))]
    if targets:
        jobs = [j for j in jobs if j["target"] in targets]
    c.judge("html", "TraceHtml", jobs, tag="html " + focus)


ENVS = {
    "blog": dict(blog=True, macros="none", verbose=1, strict=False),
    "wiki": dict(blog=False, macros="none", verbose=1, strict=False),
    "std": dict(blog=True, macros="std", verbose=1, strict=False),
    "stdwiki": dict(blog=False, macros="std", verbose=1, strict=False),
    "v0": dict(blog=True, macros="std", verbose=0, strict=False),
    "v2": dict(blog=True, macros="std", verbose=2, strict=False),
    "v3": dict(blog=True, macros="std", verbose=3, strict=False),
    "strict": dict(blog=True, macros="none", verbose=1, strict=True),
    "example": dict(blog=True, macros="example", verbose=1, strict=False),
    "usertoc": dict(blog=True, macros="usertoc", verbose=1, strict=False),
}


def cps(s):
    return [ord(x) for x in s]


def typing(c, frags, quick, thorough, envs=("blog", "wiki"), judge="all"):
    """every creole document of up to so many of the fragments"""
    es = [ENVS[e] for e in envs]
    plan = dict(frags=[cps(f) for f in frags], max=c.n(quick, thorough), envs=es, emit=True)

    def job(case):
        return dict(es[case["o"] - 1], src="".join(frags[i - 1] for i in case["t"]), fn="creole", judge=judge)

    def same(r, case):
        return (r["exc"] != "") == case["exc"] and not r["noise"] and (case["exc"] or r["out"] == case["out"] and r["err"] == case["err"])

    c.replay("creole", "MC_Creole", "TraceCreole", plan, job, same, tag="creole typing %d^%d" % (len(frags), plan["max"]))


def cf(target, policy="transparent", strict=False):
    return dict(target=target, policy=policy, strict=strict)


ALL4 = [cf(t) for t in hgen.TARGETS]
BLOCKTAG = re.compile(r"^</?(p|h\d|ul|ol|li|table|tr|td|th|hr|div)\b")


def writing(c, frags, quick, thorough, cfs=ALL4, judge="all", tag=""):
    """every html document of up to so many of the fragments"""
    plan = dict(frags=[cps(f) for f in frags], max=c.n(quick, thorough), cfs=cfs,
                block=[i + 1 for i, f in enumerate(frags) if BLOCKTAG.match(f)],
                space=[i + 1 for i, f in enumerate(frags) if f and not f.strip()])

    def job(case):
        return dict(cfs[case["o"] - 1], src="".join(frags[i - 1] for i in case["t"]), fn="html", judge=judge)

    def same(r, case):
        return r["exc"] == case["exc"] and not r["noise"] and r["out"] == case["out"]

    c.replay("html", "MC_Html", "TraceHtml", plan, job, same, tag="html typing %d^%d" % (len(frags), plan["max"]))


# ---- the properties ----------------------------------------------------------------------

def C01(c):
    typing(c, ["a", " ", "\n", "= ", "==", "* ", "|", "----", "{{{\n", "\n}}}", "<<num/>>", "\r"], 3, 4, ("blog", "stdwiki"))
    creole(c, "blocks", 3000, 30000)
    creole(c, "all", 500, 5000, rules=True, salt=500)


def C02(c):
    typing(c, ["* ", "# ", "** ", "*# ", "## ", "a", "\n", "\\\\", " ", "**"], 4, 5)
    creole(c, "lists", 2500, 25000)


def C03(c):
    typing(c, ["|", "|=", "a", "\n", " ", "[[u|v]]", "{{i|t}}", "**", "~|", "\\\\", "<<num/>>", "{{{x|y}}}"], 4, 4, ("std",))
    creole(c, "tables", 2500, 25000)


def C04(c):
    typing(c, ["a", " ", "**", "//", "__", "^^", ",,", "##", "--", "~", "\n", "*", "http://x.de"], 4, 5, ("blog",))
    creole(c, "inline", 2500, 25000)


def C05(c):
    typing(c, ["[[", "]]", "|", "{{", "}}", "a", " ", "http://x.de", "2x3", "~", "\n", "//"], 4, 5, ("blog",))
    creole(c, "links", 2500, 25000)


def C06(c):
    typing(c, ["a", "\n", "\\\\", "\\", " ", "* ", "\r\n", "|", "= ", "{{{", "}}}"], 4, 5)
    creole(c, "breaks", 2500, 25000)


def C07(c):
    typing(c, ["<b>", '"', "&amp;", "[[", "|", "]]", "{{", "}}", "{{{", "}}}", "<<x ", ">>", "= "], 3, 4, ("std", "v2"), judge="safe")
    creole(c, "escape", 5000, 40000, judge="safe")


def C08(c):
    typing(c, ["**", "//", "a", "\n", "* ", "# ", "|", "[[u|", "]]", "= ", "{{{", "}}}"], 4, 5, ("blog",), judge="wf")
    creole(c, "all", 4500, 40000, judge="wf")


def C09(c):
    typing(c, ["{{{", "}}}", "a", " ", "\n", "~", "**", "&", "~}}}", "##", "http://x.de", "[["], 4, 5, ("blog",), judge="text")
    creole(c, "verbatim", 3000, 25000)
    creole(c, "all", 1500, 15000, judge="text")


def C10(c):
    typing(c, ["<<echo", ">>", "<</echo>>", "/>>", " a=1", ' b="x"', "x", "\n", "<<num", " c='", "'", "\\"], 4, 5, ("std",))
    creole(c, "macros", 3000, 25000)


def C11(c):
    typing(c, ["<<boom", "<<no", ">>", "<</boom>>", "/>>", " a=1", ' "', "x", "\n", "<<nokw", "|", "* "], 3, 4, ("v0", "std", "v2", "v3"))
    creole(c, "macros", 2000, 20000)
    creole(c, "all", 1000, 10000, judge="quiet")


def C12(c):
    typing(c, ["<<toc>>", "<<toc depth=2>>", "= ", "== ", "=== ", "<a>", "\n", "<<toc", "/>>", " depth=1", "a"], 4, 4, ("std", "usertoc"))
    creole(c, "toc", 3000, 25000)


LONG = 40


def stress(c, kind, module, starts, units, ends, settings, count):
    """documents with long runs of a piece of markup"""
    def run(u):
        return u * (LONG // max(1, u.count("<") - 2 * u.count("</")))      # nested up to 50 levels

    docs = ["%s%s%s" % (a, run(u), z) for u in units for a in starts for z in ends]
    docs += ["%s%s%s" % (a, run(u + v), z) for u in units for v in units if u != v for a in starts[:2] for z in ends[:2]]
    rnd = random.Random(c.seed)
    docs = rnd.sample(docs, min(count, len(docs)))
    c.judge(kind, module, [dict(settings[i % len(settings)], src=d, fn=kind, judge="ends") for i, d in enumerate(docs)], tag="long runs")


def C13(c):
    stress(c, "creole", "TraceCreole",
           ["", "a", "= a", "|a", "|= ", "* a", "[[a", "{{a", "<<a ", "<<a b='", "{{{", "{{{\n", "**", "//", "~", "http://", "<<a>>", "##"],
           [" ", "\t", "\n", "\r", "a", "a ", "*", "#", "* a\n", "=", "= ", "|", "| ", "|=", "-", "/", "~", "\\", "[[", "]]", "[", "{{", "}}", "{", "{{{", "}}}",
            "<<a>>", "<</a>>", "<<", ">>", "<", '"', "'", " a=1", "**", "//", "__", "--", "^^", ",,", "~~", "http://a ", "\\\\", "~}}}\n", "[[a|", "{{a|", "\n\n", "/"],
           ["", "b", "\nb", "|b", "]]", "}}", ">>", "<</a>>", "}}}", "\n}}}", "**", "//b", "=", "= b", "\n\n"],
           [ENVS[e] for e in ("blog", "stdwiki", "std", "wiki", "example")], c.n(5000, 60000))
    steps(c, ["* ", "a", "\n", "= ", "|", "{{{", "}}}", "<<toc>>", "**"], 3, 4, [dict(ENVS[e], fn="creole") for e in ("std", "wiki")])
    creole(c, "all", 6000, 60000, judge="total", wild=0.7)


def slices(sched):
    """the schedule of steps -> after which share of its conversion a thread hands over"""
    total = {t: sched.count(t) for t in set(sched)}
    done = dict.fromkeys(total, 0)
    plan = []
    for k, t in enumerate(sched):
        done[t] += 1
        if k + 1 == len(sched) or sched[k + 1] != t:
            plan.append([t - 1, 1.0 if done[t] == total[t] else done[t] / total[t]])
    return plan


def S01(c):
    base = dict(fn="creole", blog=True, macros="std", verbose=1, strict=False)
    hbase = dict(fn="html", strict=False, policy="transparent")
    pairs = [(dict(base, src="= a\n<<toc>>\n== b\n"), dict(base, src="<<toc/>>\n= c\n* d\n")),
             (dict(base, src="* a\n** b\n<<num/>>"), dict(hbase, target="rest", src="<p><a href='u'>x</a></p><ul><li>y</li></ul>")),
             (dict(hbase, target="rest", src="<p><a href='v'>x</a></p><pre>c</pre>"), dict(hbase, target="rest", src="<p><a href='u'>x</a></p><pre>d</pre>")),
             (dict(hbase, target="markdown", src="<ul><li>a<ol><li>b</li></ol></li></ul>"), dict(hbase, target="creole", src="<table><tr><td>a</td></tr></table><pre>x</pre>")),
             (dict(hbase, target="textile", src="<ul><li>a</li></ul><zz>b</zz>"), dict(base, macros="none", src="|=a|b|\n{{{\nx\n}}}"))]
    for p in pairs[:c.n(5, 5)]:
        calls = [dict(j, **{"in": cps(j["src"])}) for j in p]
        c.replay("history", "MC_History", "TraceHistory", dict(calls=calls, switches=c.n(2, 3)),
                 lambda x: dict(fn="history", calls=[dict(j) for j in p], threads=[[0], [1]], schedule=slices(x["sched"])),
                 lambda r, x: r["given"] and not r["noise"] and all((a["exc"] != "") == b["raised"] and a["out"] == b["out"] for a, b in zip(r["calls"], x["res"])), tag="schedules of two conversions")
    for kind, quick, thorough in (("line", 1500, 12000), ("nested", 1200, 10000), ("threads", 800, 8000)):
        c.judge("history", "TraceHistory", [dict(j, fn="history") for j in histgen.histories(c.seed, c.n(quick, thorough), kind)], tag="histories: " + kind)


def steps(c, frags, quick, thorough, calls):
    """the conversions step by step: termination, and the same result as the function"""
    plan = dict(frags=[cps(f) for f in frags], max=c.n(quick, thorough), calls=[dict({"in": []}, **j) for j in calls])
    c.explore("MC_Steps", plan, tag="step by step %d^%d" % (len(frags), plan["max"]))


def S02(c):
    for focus, quick, thorough in (("all", 2500, 25000), ("macros", 1500, 15000), ("toc", 500, 5000)):
        creole(c, focus, quick, thorough, debug=True, salt=1000)
    creole(c, "macros", 1500, 15000, stderr="default", salt=2000)
    for focus in ("all", "tree", "refs", "unknown", "tables", "lists"):
        html(c, focus, 800, 8000, debug=True, salt=1000)


def one(t, *policies):
    return [cf(t, p) for p in policies or ("transparent",)]


def H01(c):
    writing(c, ["<p>", "</p>", "A", " ", "<b>", "</b>", "<x>", "<br>", "<!--c-->"], 3, 4, judge="words")
    html(c, "text", 5000, 40000, judge="words")


def H02(c):
    writing(c, ["<p>", "</p>", "A", " ", "<h2>", "</h2>", "<hr>", "<ul><li>", "</ul>", "<div>", "</div>"], 4, 5, one("creole"))
    html(c, "creole", 4000, 30000)


def H03(c):
    writing(c, ["<p>", "</p>", "A", " ", "<h2>", "</h2>", "<hr>", '<a href="u">', "</a>", '<img src="i.x">', "<code>"], 4, 5, one("rest"))
    html(c, "rest", 4000, 30000)


def H04(c):
    writing(c, ["<p>", "</p>", "A", " ", "<h2>", "</h2>", "<hr>", "<ul><li>", "</ul>", "<i>", "</i>"], 4, 5, one("textile"))
    html(c, "textile", 4000, 30000)


def H05(c):
    writing(c, ["<p>", "</p>", "A", " ", "<h2>", "</h2>", "<hr>", "<ul><li>", "</ul>", "<code>", "</code>"], 4, 5, one("markdown"))
    html(c, "markdown", 4000, 30000)


def H06(c):
    writing(c, ["<table>", "</table>", "<tr>", "<td>", "</td>", "<th>", "A", "AA", "\n"], 4, 5)
    html(c, "tables", 3000, 25000)


def H07(c):
    writing(c, ["&", "#", "x", "38", "26", ";", "amp", "<p>", "<pre>", "</pre>", "A"], 4, 5, [cf("creole"), cf("markdown")])
    html(c, "refs", 4000, 30000)


def H08(c):
    writing(c, ["<x>", "</x>", '<y k="v&quot;">', "<z/>", "<p>", "</p>", "A", "&lt;"], 3, 4,
            [cf(t, p) for t in ("creole", "rest", "markdown") for p in ("transparent", "escape", "html", "pre", "raise")])
    html(c, "unknown", 4000, 30000)


def H09(c):
    writing(c, ["<p>", "</p>", "A", " ", "\n", "<h2>", "</h2>", "<b>", "</b>"], 4, 5, [cf("creole"), cf("markdown")])
    writing(c, ["<pre>", "</pre>", "A", " ", "\n", "<p>", "</p>", "<code>", "</code>"], 4, 5, [cf("creole"), cf("markdown"), cf("rest")])
    html(c, "space", 2500, 20000)
    html(c, "pre", 2500, 20000)


def H10(c):
    stress(c, "html", "TraceHtml",
           ["", "a", "<p>", "<", "<a", '<a b="', "<!--", "<pre>", "<pre", "&", "&#", "&#x", "<ul><li>", "<table><tr><td>", "<script>", "<![", "<?", "</", "<x "],
           [" ", "\n", "a", "a ", "<", ">", "/", "<p>", "</p>", "<b>", "</b>", "<br>", "<br/>", "<x/>", "&", ";", "#", "1", "&#1;", "!", "-", "--", "--!>", '"', "'", "=", " a=", ' a="',
            "<ul>", "<li>", "</li>", "<table><tr><td>a</td></tr><tr><td>", "<table><th>a</th><td>", "<table><td>", "<table>", "<td>", "</td>", "<tr>", "<pre>", "</pre>", "<h1>", "</h1>", "\\", "`", "]", "\t", "\r", "\0", "<![", "<a href=b>", "<img src=c>"],
           ["", "a", ">", "/>", "-->", '"', "</p>", "</pre>", ";", "</script>", "\n", "</ul>", "</table>", "<", "]]>"],
           [cf(t) for t in hgen.TARGETS], c.n(5000, 60000))
    writing(c, ["<", ">", "/", "a", "!", "--", "&", "#", ";", '"', "=", " "], 3, 4, judge="total")
    steps(c, ["<p>", "</p>", "<", "a", "&", "<ul><li>", "</ul>", " ", "<!--"], 3, 4, [dict(cf(t), fn="html") for t in hgen.TARGETS[:2]])
    html(c, "all", 6000, 50000, judge="total")


def H11(c):
    writing(c, ["<p>", "</p>", "<b>", "</b>", "<ul>", "<li>", "</ul>", "<table><tr><td>", "</table>", "</td>", "<br>", "A"], 4, 5, one("creole"))
    html(c, "tree", 4000, 30000)


def H12(c):
    writing(c, ["<ul>", "</ul>", "<ol>", "</ol>", "<li>", "</li>", "A", "\n"], 4, 5)
    html(c, "lists", 3000, 25000)


def H13(c):
    writing(c, ["<a", "<img", ' href="u v"', " src='i.x'", ' title="t"', ' alt="l"', " width=1", ' href=""', "/>", ">", "z", "</a>"], 4, 5)
    html(c, "links", 3000, 25000)


def b(s):
    return list(s if isinstance(s, bytes) else s.encode("utf-8"))


def K01(c):
    files = {"a": b("= t\u00e4\n**x**"), "h": b("<p>\u20ac <b>b</b></p>"), "l": b("<i>\u00e4</i>".encode("latin-1")), "cut": b(b"x \xe2\x82"),
             "bom": b("\ufeff= x"), "two": b("<a href='u'>x</a> <a href='v'>x</a>")}
    ops = [dict(tool=t, src=s, dst=d, enc=e) for t, s, d, e in [
        ("creole2html", "a", "new", ""), ("creole2html", "a", "a", "utf-8"), ("creole2html", "bom", "h", "utf-8-sig"), ("creole2html", "cut", "a", ""),
        ("creole2html", "none", "a", ""), ("creole2html", "new", "l", "latin-1"), ("creole2html", "bom", "folder", ""), ("creole2html", "a", "nowhere/file", ""),
        ("html2creole", "h", "new", ""), ("html2creole", "l", "l", "latin-1"), ("html2creole", "l", "a", ""), ("html2creole", "new", "a", "utf-8"),
        ("html2creole", "h", "h", "ascii"), ("html2creole", "folder", "new", ""), ("html2creole", "h", "bom", "klingon"), ("html2creole", "h", "cut", "utf-16-le"),
        ("html2rest", "two", "a", ""), ("html2rest", "h", "two", ""), ("html2rest", "new", "new", "utf-8-sig"), ("html2rest", "a", "h", "ascii"),
        ("html2textile", "h", "new", "utf-8"), ("html2textile", "two", "cut", ""), ("html2textile", "bom", "new", "utf-8-sig"), ("html2textile", "l", "h", "iso-8859-1")]]
    c.replay("cli", "MC_Cli", "TraceCli", dict(files=files, ops=ops, max=c.n(2, 3)), lambda x: dict(fn="cli", files=files, ops=[ops[i - 1] for i in x["t"]]),
             lambda r, x: [o["ok"] for o in r["seen"]] == x["oks"] and r["seen"][-1]["files"] == x["files"], tag="histories of calls")
    c.judge("cli", "TraceCli", [dict(j, fn="cli") for j in filegen.cli(c.seed, c.n(2500, 25000))], tag="cli")


PLAIN_LOCALE = dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")


def readmes(c, ops, quick, thorough, env=None, tag="readme"):
    jobs = [dict(j, fn="readme") for j in filegen.readme(c.seed + 7 * len(ops) + len(tag), c.n(quick, thorough))]
    for j in jobs:
        j["ops"] = [o for o in j["ops"] if o["op"] in ops]
    c.judge("readme", "TraceReadme", [j for j in jobs if j["ops"]], tag=tag, env=env)


def K02(c):
    names = dict(creole="README.creole", rst="README.rst", md="README.md", html="README.html")
    stamp = dict(mtime=1600000000.5, when=cps(filegen.when(1600000000.5)), source=cps(names["creole"]), valid=True, str=False)
    texts = ["a", "a\n\nb", "{{{\na\n  b\n}}}", "{{{\na\nb\n}}}", "", "a\n\nb\n\n----\n"]
    ops = [dict(op="edit", name=names["creole"], data=b(t)) for t in texts]
    ops += [dict(stamp, op=o, kind=k) for o in ("update", "assert") for k in ("rst", "md")]
    ops += [dict(op="remove", name=names["rst"])]
    for first in (["a"], ["", ""])[:c.n(1, 2)]:
        files = {names["creole"]: b(first[0])}
        if first[1:]:
            files[names["rst"]] = files[names["md"]] = b("\n\n\n\nx")
        plan = dict(names=names, files=files, ops=ops, max=c.n(3, 4))
        c.replay("readme", "MC_Readme", "TraceReadme", plan, lambda x: dict(fn="readme", names=names, files=files, ops=[dict(ops[i - 1]) for i in x["t"]]),
                 lambda r, x: [o["ok"] for o in r["seen"]] == x["oks"] and r["seen"][-1]["files"] == x["files"], tag="histories of edits, updates, assertions")
    readmes(c, ("edit", "remove", "update", "assert"), 2500, 20000)
    readmes(c, ("edit", "remove", "update", "assert"), 300, 3000, env=PLAIN_LOCALE, tag="readme in the C locale")


def K03(c):
    readmes(c, ("edit", "remove", "describe"), 2500, 25000, tag="long description")


def M01(c):
    typing(c, ["<<pre>>", "<</pre>>", "<<html>>", "<</html>>", "<<pre", "/>>", "<b>", "&", "a", "\n", " ext=1"], 4, 5, ("example",))
    c.judge("macro", "TraceMacro", [dict(j, fn="macro") for j in macrogen.calls(c.seed, c.n(4000, 40000))], tag="calls of the macros")
    c.judge("creole", "TraceCreole", [dict(o, src=s, fn="creole") for s, o in macrogen.pages(c.seed + 1, c.n(2500, 20000))], tag="documents with the macros")


def rest(c, focus, quick, thorough, call="clean", salt=0):
    c.judge("rest", "TraceRest", [dict(o, src=s, fn="rest", call=call) for s, o in restgen.docs(focus, c.seed + salt, c.n(quick, thorough))], tag="%s %s" % (call, focus))


def lines(c, parts, quick, thorough, call="clean"):
    """every document of up to so many of the lines"""
    docs = ["\n".join(x) + "\n" for n in range(1, c.n(quick, thorough) + 1) for x in itertools.product(parts, repeat=n)]
    c.judge("rest", "TraceRest", [dict(src=s, fn="rest", call=call) for s in docs], tag="%s lines %d^%d" % (call, len(parts), c.n(quick, thorough)))


def R01(c):
    c.explore("MC_Rest", dict(frags=[cps(f) for f in ["<div class=\"a b\">", "</div>", "<p id=\"i\">", "</p>", "<em>", "</em>", "x", " ", "<pre>", "</pre>", "<img class=\"align-left\" src=\"i\" />",
                                                      "<span>", "</span>", "&lt;", "<blockquote>", "</blockquote>"]], max=c.n(4, 5)), tag="cleaning html code")
    lines(c, ["", "a *b* c_", "* x", "  y", "===", "1. z", "::", "| l", ":f: v", ".. note:: n", ".. _c: http://x.de", "+---+", "| t |"], 3, 4)
    for f, quick, thorough in (("all", 1500, 14000), ("core", 1500, 14000), ("images", 1000, 8000), ("tables", 800, 8000), ("boxes", 800, 8000)):
        rest(c, f, quick, thorough)


def R02(c):
    rest(c, "danger", 2500, 20000)
    lines(c, ["", "a", ".. raw:: html", "   <i>", ".. include:: x", "`l <http://x>`_", "`l <x>`_", "svn+ssh://h", "*a", ".. image:: i", "   :target: http://y"], 3, 4, "pypi")
    for f, quick, thorough in (("links", 2000, 20000), ("all", 800, 8000), ("danger", 1000, 10000), ("core", 600, 6000)):
        rest(c, f, quick, thorough, "pypi", salt=100)
    c.judge("rest", "TraceRest", [dict(src=s, fn="rest", call="pypi", enc="utf-8") for s, o in restgen.docs("core", c.seed + 7, c.n(200, 2000))], tag="pypi, encoded")



BLOCKS = ["<p>a</p>", "<p>b <strong>c</strong> d<em>e</em></p>", "<h1>f g</h1>", "<ul><li>h</li><li>i</li></ul>", "<ol>\n<li>j<ul><li>k</li></ul></li>\n<li>l</li>\n</ol>", "<ul><li><p>m</p></li><li>n</li></ul>",
          "<pre>\no\n  p\n</pre>", "<div><p>q</p></div>", "<p>r <a href=\"http://s.t/u\">v w</a></p>", "<div><div><p>x</p><p>y</p></div></div>"]
TABLES = ["<table><tr><th>A</th><th>B</th></tr><tr><td>C</td><td>D</td></tr></table>", "<div><table><tr><th>E</th></tr><tr><td>F</td></tr></table></div>"]
PIECES = ["a", "bb c", "<strong>d</strong>", "<em>e f</em>", "<b>g</b>", "<i>h</i>", "<a href=\"http://i.j/k\">l</a>", "<img src=\"/m.png\" alt=\"n\" />", "&auml;", "<em><strong>o</strong></em>"]
AROUND = [("<p>", "</p>"), ("<ul><li>", "</li></ul>"), ("<table><tr><th>q</th><th>", "</th></tr><tr><td>r</td><td>s</td></tr></table>"), ("<div><p>", "</p></div>"), ("<ol><li>t<ol><li>", "</li></ol></li></ol>")]


def back(c, target, quick, thorough):
    def typing(frags, n, before="", after="", join="\n", inner=(), tag=""):
        plan = dict(frags=[cps(f) for f in frags], max=n, before=cps(before), after=cps(after), join=cps(join), target=target,
                    apart=[i + 1 for i, f in enumerate(frags) if f.lstrip("\n")[:4] in ("<ul>", "<ol>", "<hr ")], inner=[frags.index(f) + 1 for f in inner])

        def job(case):
            return dict(fn="back", src=before + join.join(frags[i - 1] for i in case["t"]) + after, target=target)

        c.replay("back", "MC_Back", "TraceBack", plan, job, lambda r, x: target == "creole" and r["out"] == x["out"], tag=tag)

    blocks = list(BLOCKS)
    if target != "creole":
        blocks[1] = "<p>b <strong>c</strong> d <em>e</em></p>"
    if target == "textile":
        blocks[4] = "<ol>\n<li>j<ol><li>k</li></ol></li>\n<li>l</li>\n</ol>"
    hr = []
    if target not in ("textile", "rest"):
        hr = ["<hr />"]
    if target != "markdown":
        blocks += TABLES
    typing(blocks + hr, c.n(3, 4) if target == "creole" else 3, inner=hr, tag="blocks: " + target)
    for before, after in AROUND:
        if "<table" not in before or target in ("creole", "rest"):
            pieces = [p for p in PIECES if target == "creole" or "><" not in p]
            typing(pieces, c.n(3, 3), before, after, " ", tag="%s: %s" % (before[:4], target))
    c.judge("back", "TraceBack", [dict(fn="back", src=s, target=target) for s in backgen.docs(c.seed, c.n(quick, thorough), target)], tag="there and back: " + target)


def X01(c):
    """creole"""
    back(c, "creole", 3000, 30000)


def X02(c):
    """rest"""
    back(c, "rest", 2000, 20000)


def X03(c):
    """textile"""
    back(c, "textile", 2500, 25000)


def X04(c):
    """markdown"""
    back(c, "markdown", 2500, 25000)


CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0].isupper() and k[1:].isdigit()}
