"""Seeded generators of ReStructuredText documents."""
import random

import cgen
import dictionary

WORDS = ["foo", "bar", "a", "b c", "\xe4\xf6", "1", "x < y", "R&D", "\"q\"", "it's", "50%", "\u20ac", "end.", "(x)", "a-b", "C:", "x_y", "\\*", "\\\\", "<b>", "&amp;", "--", "...", "\\ "]
URL = ["http://x.org", "http://x.org/a?b=1&c=2#f", "https://h:80/p", "ftp://f.de/x", "mailto:a@b.de", "svn+ssh://h/x", "foo", "/local", "page.html", "#anchor", "../up", "wtf://x", "HTTP://X.DE",
       "javascript:alert(1)", "data:text/plain,x", "irc://c", "news:x", "git://g", "ssh://s", "gopher://g/1", "file:///etc", "svn://s", "hdl:1/2", "rtspu://x", "sips:a@b", "xmpp:a@b"]
ENTITY = "'\"<>&"


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.texts, self.sizes = dictionary.news()
        self.n = 0
        self.deep = 0
        self.urls = URL

    def count(self, common, top):
        if self.sizes and self.r.random() < 0.2:
            return min(60, self.r.choice(self.sizes) + self.r.choice([0, 1]))
        return self.r.choice(common) if self.r.random() < 0.95 else self.r.randint(1, top)

    def fresh(self, what="t"):
        self.n += 1
        return "%s%d" % (what, self.n)

    def word(self):
        if self.texts and self.r.random() < 0.1:
            return self.r.choice(self.texts)
        return self.r.choice(WORDS)

    def words(self):
        return " ".join(self.word() for _ in range(self.count([1, 1, 2, 3], 12)))

    def plain(self):
        return " ".join(self.r.choice(["foo", "bar", "a", "\xe4\xf6", "1", "x < y", "R&D", "word"]) for _ in range(self.r.choice([1, 1, 2, 3])))

    def inline(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.words()
        p = self.plain()
        if k < 0.9:
            return r.choice(["*%s*", "**%s**", "``%s``", "`%s`", ":sub:`%s`", ":sup:`%s`", ":title:`%s`", ":strong:`%s`", ":literal:`%s`", ":code:`%s`", "|sub|", ":emphasis:`%s`"]).replace("%s", p)
        u = r.choice(self.urls)
        return r.choice(["`%s <%s>`_" % (p, u), "`%s <%s>`__" % (p, u), u, "`<%s>`__" % u, "target_", "`a target`_", "[1]_", "[#]_", "[*]_", "[CIT]_", "__ x", "_`inline %s`" % p, "nothing_", "*open", "`open", "**"])

    def line(self):
        return " ".join(self.inline() for _ in range(self.count([1, 1, 2, 3], 8)))

    def indent(self, lines, by):
        return [(by + x if x else x) for x in lines]

    # ---- blocks: lists of lines
    def para(self, d):
        return [self.line() for _ in range(self.count([1, 1, 2], 4))]

    def section(self, d):
        t = self.r.choice([self.plain, self.line])()
        c = self.r.choice("==--~^`\"")
        u = c * max(4, len(t))
        return [u, t, u] if self.r.random() < 0.25 else [t, u]

    def listing(self, d):
        r = self.r
        form = r.choice(["* ", "- ", "+ ", "#. ", "1. ", "a. ", "(i) ", "3) ", "A. "])
        loose = r.random() < 0.3
        out = []
        for i in range(self.count([1, 2, 3], 6)):
            b = form
            if form[0] in "13" or form[:1] == "a" or form[:1] == "A":
                b = {"1": "%d. " % (i + 1), "3": "%d) " % (i + 3), "a": "%s. " % chr(97 + i % 26), "A": "%s. " % chr(65 + i % 26)}[form[0]]
            elif form == "(i) " and i:
                b = "(%s) " % ["i", "ii", "iii", "iv", "v", "vi", "vii"][i % 7]
            body = self.blocks(d - 1, 1 if r.random() < 0.7 else 2, ["para"] if r.random() < 0.6 else None)
            body = self.indent(body, " " * len(b))
            body[0] = b + body[0].strip() if body else b
            out += body + ([""] if loose else [])
        return out

    def definition(self, d):
        out = []
        for _ in range(self.count([1, 2], 3)):
            out += [self.plain() + self.r.choice(["", "", " : cls", " : a : b"])] + self.indent(self.blocks(d - 1, 1), "  ")
        return out

    def fields(self, d):
        r = self.r
        name = lambda: r.choice(["homepage", "sourcecode", "x y", "Author", "Date", "long field name here", "*e*", "Version", "Authors", "address", "status", "Copyright", "Abstract"])
        out = []
        for _ in range(self.count([1, 2, 3], 5)):
            body = self.blocks(0, 1, ["para"]) if r.random() < 0.8 else self.blocks(d - 1, 2)
            body = self.indent(body, "  ")
            out += [":%s: %s" % (name(), body[0].strip() if body else "")] + body[1:]
        return out

    def options(self, d):
        out = []
        for _ in range(self.count([1, 2], 4)):
            out.append(self.r.choice(["-a", "--long", "-f FILE", "-x, --xx=Y", "/V"]) + "  " + self.plain())
        return out

    def literal(self, d):
        r = self.r
        body = ["  " + r.choice(["code", "  deep", "<b>&amp;</b>", "*x* `y`", "\"q\"", "\\*", ".. x::"]) for _ in range(r.choice([1, 1, 2, 3]))]
        return r.choice([["::", ""], [self.plain() + "::", ""], [".. code:: python", ""], [".. code::", ""], [".. parsed-literal::", ""], [".. code:: python\n   :number-lines:", ""]]) + body

    def doctest(self, d):
        return [">>> print(1)", "1"]

    def quote(self, d):
        body = self.indent(self.blocks(d - 1, self.r.choice([1, 1, 2])), "  ")
        return body + (["", "  -- " + self.plain()] if self.r.random() < 0.2 else [])

    def table(self, d):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4])
        cell = lambda: r.choice([self.plain(), self.plain(), "*e*", "``l``", "`a <http://x>`_"])
        rows = [[cell() for _ in range(n)] for _ in range(self.count([1, 2, 3], 5))]
        k = r.random()
        w = [max(3, *(len(row[i]) for row in rows)) for i in range(n)]
        if k < 0.45:
            sep = "+" + "+".join("-" * (x + 2) for x in w) + "+"
            out = [sep]
            for i, row in enumerate(rows):
                out.append("|" + "|".join(" %-*s " % (x, c) for x, c in zip(w, row)) + "|")
                out.append(sep.replace("-", "=") if i == 0 and len(rows) > 1 and k < 0.25 else sep)
            return out
        if k < 0.75 and n > 1:
            sep = "  ".join("=" * x for x in w)
            out = [sep]
            for i, row in enumerate(rows):
                out.append("  ".join("%-*s" % (x, c) for x, c in zip(w, row)).rstrip())
                if i == 0 and len(rows) > 1 and k < 0.65:
                    out.append(sep)
            return out + [sep]
        if k < 0.88:
            return [".. csv-table:: " + r.choice(["", self.plain()])] + r.choice([[], ["   :header: x" + ",y" * (n - 1)], ["   :widths: auto"]]) + [""] + ["   " + ",".join('"%s"' % c.replace('"', "") for c in row) for row in rows]
        out = [".. list-table:: " + r.choice(["", self.plain()])] + r.choice([[], ["   :header-rows: 1"], ["   :stub-columns: 1"], ["   :align: right"]]) + [""]
        for row in rows:
            out += ["   " + ("* - " if i == 0 else "  - ") + c for i, c in enumerate(row)]
        return out

    def image(self, d):
        r = self.r
        kind = r.choice(["image", "image", "figure"])
        out = [".. %s:: %s" % (kind, r.choice(["i.png", "/a/b.jpg", "http://x.org/i.gif?a=1&b=2", "x.svg", "a b.png", "x.swf"]))]
        opts = [":alt: " + self.plain(), ":width: " + r.choice(["10", "50%", "3em"]), ":height: 20", ":target: " + r.choice(self.urls), ":class: c d", ":name: " + self.fresh(), ":scale: 50"]
        al = r.choice([":align: left", ":align: right", ":align: center"] + ([":align: top", ":align: middle", ":align: bottom"] if kind == "image" else []))
        chosen = [o for o in opts if r.random() < 0.15] + ([al] if r.random() < 0.45 else [])
        r.shuffle(chosen)
        out += self.indent(chosen, "   ")
        if kind == "figure" and r.random() < 0.7:
            out += ["", "   " + self.plain()]
            if r.random() < 0.5:
                out += [""] + self.indent(self.blocks(d - 1, 1), "   ")
        return out

    def box(self, d):
        r = self.r
        n = r.choice([".. note::", ".. warning::", ".. tip::", ".. danger::", ".. admonition:: " + self.plain(), ".. topic:: " + self.plain(), ".. sidebar:: " + self.plain(), ".. container:: c",
                      ".. compound::", ".. epigraph::", ".. pull-quote::", ".. highlights::", ".. class:: k"])
        return [n, ""] + self.indent(self.blocks(d - 1, r.choice([1, 2])), "   ")

    def lineblock(self, d):
        return ["| " + self.r.choice(["", "", "  "]) + self.r.choice([self.plain(), self.line(), ""]) for _ in range(self.count([1, 2, 3], 5))]

    def rule(self, d):
        return [self.r.choice(["----", "=====", "~~~~~~"])]

    def notes(self, d):
        r = self.r
        k = r.choice([0, 1, 2, 3, 4, 5])
        return [[".. [1] " + self.plain()], [".. [#] " + self.plain()], [".. [*] " + self.plain()], [".. [CIT] " + self.plain()],
                [".. _target: " + r.choice(self.urls)], [".. _a target:", "", self.plain()]][k]

    def misc(self, d):
        r = self.r
        return r.choice([[".. comment " + self.plain()], [".. |sub| replace:: " + self.plain()], [".. |sub| image:: i.png"], [".. contents::"], [".. sectnum::"], [".. rubric:: " + self.plain()],
                         [".. date::"], [".. unknown::"], ["__ http://anon.de"], [".. title:: x"], [".. meta::", "   :k: v"], [".. role:: myrole", "", ":myrole:`x`"], [".. default-role:: sub", "", "`x`"],
                         [".. target-notes::"], [".. unicode:: 0xA9"], [".. replace:: x"], ["..", "", "  quote"], ["`bad"], ["x", "---"], ["Title", "=="], [""]])

    def danger(self, d):
        r = self.r
        f = r.choice(["inc.txt", "inc.csv", "/etc/hostname", "nothing.txt"])
        return r.choice([[".. raw:: html", "", "   <script>alert(1)</script>"], [".. raw:: html\n   :file: inc.txt"], [".. raw:: latex", "", "   x"], [".. include:: " + f], [".. include:: %s\n   :literal:" % f],
                         [".. include:: %s\n   :code: python" % f], [".. csv-table:: t\n   :file: inc.csv"], [".. role:: raw-html(raw)\n   :format: html", "", ":raw-html:`<script>x</script>`"],
                         [".. raw:: html\n   :url: file:inc.txt"], ["<script>x</script>"], [".. parsed-literal::", "", "   <script>*x*</script>"], [".. code:: html", "", "   <script>"],
                         [".. image:: \"><script>"], ["`<script> <javascript:x>`_"], [".. include:: <isonum.txt>", "", "|copy|"]])

    KINDS = ["para", "para", "para", "section", "listing", "listing", "table", "literal", "quote", "image", "box", "lineblock", "fields", "definition", "options", "doctest", "rule", "notes", "misc"]

    def blocks(self, d, n, kinds=None):
        if d <= 0:
            kinds = ["para"]
        out = []
        for i in range(n):
            if i:
                out.append("")
            out += getattr(self, self.r.choice(kinds or [k for k in self.KINDS if k != "section"]))(d)
        return [y for x in out for y in x.split("\n")] or ["x"]

    def doc(self, kinds, d):
        out = []
        for _ in range(self.count([1, 2, 2, 3, 4], 9)):
            out += getattr(self, self.r.choice(kinds))(d) + [""]
        return "\n".join(out)


FOCUS = {
    "all": Gen.KINDS,
    "core": ["para", "para", "section", "listing", "table", "literal", "quote", "lineblock", "fields", "definition", "rule"],
    "images": ["image", "image", "para", "box"],
    "tables": ["table", "table", "fields", "para"],
    "boxes": ["box", "box", "lineblock", "para", "notes"],
    "danger": ["danger", "danger", "para", "misc"],
    "links": ["para", "image", "notes"],
}
CORE = {"core", "tables"}


def docs(focus, seed, count):
    """(text, options)"""
    g = Gen(seed)
    r = g.r
    for _ in range(count):
        g.urls = URL if focus in ("links", "danger") else URL[:6]
        if focus == "links" and r.random() < 0.5:
            g.urls = [u for u in URL if ":" in u]
        s = g.doc(FOCUS[focus], r.choice([0, 1, 1, 2, 3]))
        o = {}
        if r.random() < 0.15:
            o["report"] = r.choice([1, 2, 3, 4, 5])
        if r.random() < 0.08:
            o["exit"] = r.choice([1, 2, 3, 4])
        if focus == "danger":
            o["raw"] = r.random() < 0.3
            o["insert"] = r.random() < 0.3
            o["files"] = {"inc.txt": list(b"Included *text* <i>x</i>.\n"), "inc.csv": list(b"a,b\n1,2\n")}
        yield cgen.cut(r, s), o
