"""Seeded generator of calls of the example macros, and of documents with them."""
import random

import cgen

LEXERS = ["py", "python", "html", "css", "js", "sql", "c", "bash", "json", "yaml", "xml", "php", "ini", "diff", "text", "rst", "make", "java", "perl", "ruby", "pycon", "console", "md"]
EXTS = ["", ".", " .py ", "nosuchlexer", ".nosuch", ".PY", "c++", "..py", "main.py", "<b>", "&", "\xe4", " ", ".tar.gz", "'", ".html+php"]
PIECES = ["a", "b", " ", "  ", "\n", "\n", "\n\n", "\t", "<b>", "</b>", "&", "&amp;", "'", '"', "def f(x):\n    return x", "# c", "// c", "/* c */", "<!-- c -->", "<?php echo 1 ?>",
          "select * from t;", "{\"a\": [1, 2.5]}", "#!/bin/sh\n", "#!/usr/bin/python\n", "\r\n", "<p class=\"x\">", "\\", "\xe4\u20ac", "\U0001f600", "0x1F", "%s", ">>> x", "$ ls", "@d", "x = 'y'",
          "<br />", "<br />\n", "--- a\n+++ b\n", "[s]\nk=v", "|", "**x**", "}}}", "</pre>", "</div>", "&#39;", "<<toc>>", "<script>if(a<b){}</script>", "\x0c", "\xa0", "//x\n"]


class Gen(cgen.Gen):
    def source(self):
        r = self.r
        s = "".join(self.pick(PIECES) + r.choice(["", "", " ", "\n"]) for _ in range(self.size([0, 1, 2, 3, 5, 8], 40)))
        if r.random() < 0.2:
            s = r.choice(["\n", " ", "\n\n", "\t", " \n"]) + s + r.choice(["", "\n", " ", "\n\n ", "\t\n"])
        return s

    def ext(self):
        r = self.r
        k = r.random()
        return r.choice(["", "."]) + r.choice(LEXERS) if k < 0.7 else r.choice(EXTS) if k < 0.95 else self.tiny()

    def tag(self):
        r = self.r
        src = self.source()
        name = r.choice(["html", "pre", "code", "code", "code"])
        ext = self.ext()
        q = r.choice(['"', "'"])
        args = {"code": " ext=%s%s%s" % (q, ext, q)}.get(name, "")
        if r.random() < 0.04:
            args = r.choice(["", " ext=x b=2", " foo='x'", " ext", " ext=None", " ext=True"])
        s = r.choice(["<<%s%s>>%s<</%s>>"] * 4 + ["<<%s%s>>\n%s\n<</%s>>"] * 3 + ["<<%s%s />>%.0s%.0s"]) % (name, args, src, name)
        return r.choice(["%s\n", "a %s b", "\n\n%s\n\n", "* %s", "|%s|x|", "%s"]) .replace("%s", s)

    def page(self):
        return "\n".join(self.tag() if self.r.random() < 0.7 else self.para(1) for _ in range(self.r.randint(1, 4)))


def calls(seed, count):
    g = Gen(seed)
    for _ in range(count):
        g.left, g.terse = cgen.limit(g.r), False
        yield dict(name=g.r.choice(["html", "pre", "code", "code", "code", "code"]), ext=g.ext(), pygments=g.r.choice(["works"] * 5 + ["missing", "fails"]), src=cgen.cut(g.r, g.source()))


def pages(seed, count):
    g = Gen(seed)
    for _ in range(count):
        g.left, g.terse = cgen.limit(g.r), False
        yield cgen.cut(g.r, g.page()), dict(cgen.options(g.r, "macros"), macros="example")
