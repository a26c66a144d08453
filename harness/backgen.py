"""Seeded generator of plain html documents: what every one of the markups can say.  The class of documents is
described in DESIGN.md (X02 to X04): words without characters of the markups, typefaces between spaces, ..."""
import random

import dictionary

ALPHABETS = ["abcdefghijklmnopqrstuvwxyz", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "abefghjknopqrstuwyz", "\xe4\xf6\xfc\xdfabc", "\u4e2d\u6587\u5b57\u6f22",
             "\u0430\u0431\u0432", "\uff41\uff57\uff59"]
FACES = {"creole": ["strong", "em", "tt", "sup", "sub", "u", "small", "del"], "textile": ["strong", "em", "code", "sup", "sub", "del"],
         "markdown": ["strong", "em", "code", "sup", "sub"], "rest": ["strong", "em", "code", "tt"]}
ALSO = {"strong": ["b"], "em": ["i"]}
REFS = {"\xe4": ["&auml;", "&#228;", "&#xe4;"], "\u4e2d": ["&#20013;", "&#x4E2D;"], "\xdf": ["&szlig;"], "a": ["&#97;", "&#x61;"]}


class Gen:
    def __init__(self, seed, target):
        self.r = random.Random("%s %s" % (seed, target))
        self.target = target

    # ---- text
    def word(self):
        r = self.r
        w = "".join(r.choice(r.choice(self.alphabets)) for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6, 9]) if r.random() < 0.97 else r.randint(10, 60)))
        if r.random() < 0.1:
            w += str(r.randrange(100)) + r.choice(["", "a", "zz"])
        return w

    def written(self, text):
        """html code of the text"""
        r = self.r
        return "".join(r.choice(REFS[c]) if c in REFS and r.random() < 0.05 else c for c in text)

    def space(self):
        return " " if self.r.random() < 0.93 else self.r.choice(["\n", "  ", " \n ", "\t", "\n\n"])

    def words(self, n=None):
        r = self.r
        return self.space().join(self.written(self.word()) for _ in range(n or r.choice([1, 1, 2, 3, 5] if r.random() < 0.97 else [12, 30])))

    def tag(self, name, attrs=""):
        r = self.r
        if r.random() < 0.05:
            name = name.upper()
        return "<%s%s>" % (name, attrs), "</%s>" % name

    def wrap(self, name, content, attrs=""):
        a, z = self.tag(name, attrs)
        return a + content + z

    # ---- inline markup
    def label(self):
        """no two labels of a document are the same"""
        self.labels += 1
        r = self.r
        n = self.labels
        num = "".join("abcdefghij"[int(d)] for d in str(n))
        return r.choice(["%s k%s", "k%s %s", "k%s"][:2]).replace("k%s", "k" + num + "k").replace("%s", self.words(r.choice([1, 2]))) if r.random() < 0.6 else "k" + num + "k"

    def host(self):
        r = self.r
        return r.choice(["http", "https", "http", "ftp"]) + "://" + "".join(r.choice("abcdefgxyz") for _ in range(r.randint(1, 6))) + r.choice([".org", ".de", ".com"])

    def path(self):
        r = self.r
        return "".join("/" + "".join(r.choice("abcdefgxyz0123456789") for _ in range(r.randint(1, 6))) for _ in range(r.choice([0, 1, 1, 2, 3])))

    def address(self):
        r = self.r
        return self.host() + (self.path() or "/") + r.choice(["", "", ".html", "?a=1", "#b"])

    def link(self):
        return self.wrap("a", self.label(), ' href="%s"' % self.address())

    def image(self):
        r = self.r
        return '<img src="%s.png" alt="%s"%s>' % (self.host() + "/" + r.choice("abc") if r.random() < 0.5 else "/" + r.choice("abc") + self.path(), self.label().replace("\n", " ").replace("\t", " "), r.choice([" /", " /", "/"]))

    def face(self, used=()):
        r = self.r
        names = [f for f in FACES[self.target] if f not in used]
        f = r.choice(names)
        inner = self.words(r.choice([1, 1, 2, 3]))
        if self.target == "creole" and f != "tt" and len(used) < 3 and r.random() < 0.4:
            inner = self.inline(used + (f, "tt"))
        return self.wrap(r.choice([f] + ALSO.get(f, [])), inner)

    def piece(self, used=()):
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.words()
        if k < 0.8:
            return self.face(used)
        if k < 0.93:
            return self.link()
        return self.image()

    def inline(self, used=()):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3, 4]) if r.random() < 0.97 else r.randint(5, 15)
        out = [self.piece(used)]
        for _ in range(n - 1):
            out.append(self.words(1))
            out.append(self.piece(used))
        return self.space().join(out)

    # ---- blocks
    def lines(self):
        """with line breaks, where the markup has them"""
        r = self.r
        if self.target not in ("creole", "textile") or r.random() < 0.8:
            return self.inline()
        return r.choice(["<br />", "<br>", "<br/>", "<br />\n"]).join(
            (self.words(1) + " " if self.target == "textile" else "") + self.inline() for _ in range(r.choice([2, 2, 3])))

    def para(self):
        return self.wrap("p", self.lines())

    def head(self):
        r = self.r
        if self.target == "rest":
            n = r.randint(1, min(6, self.top + 1))
            self.top = max(self.top, n)
        else:
            n = r.randint(1, 6)
        return self.wrap("h%d" % n, self.words(r.choice([1, 2, 3])) if self.target == "creole" or r.random() < 0.7 else self.inline())

    def lst(self, depth=0, kind=None):
        r = self.r
        out = ""
        kind = kind or r.choice(["ul", "ol"])
        n = r.choice([1, 2, 2, 3, 4]) if r.random() < 0.97 else r.randint(5, 14)
        loose = r.random() < 0.15
        for _ in range(n):
            item = self.lines()
            if loose:
                item = self.wrap("p", item)
            if depth < self.deep and r.random() < (0.3 if self.deep < 4 else 0.5):
                item += r.choice(["", "\n"]) + self.lst(depth + 1, kind if self.target == "textile" else None)
            out += self.wrap("li", item) + r.choice(["", "", "\n"])
        return self.wrap(kind, r.choice(["", "\n"]) + out)

    def table(self):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4]) if r.random() < 0.97 else r.randint(5, 9)
        cell = lambda: self.words(r.choice([1, 2])) if r.random() < 0.6 else self.words(1) + " " + self.inline() if self.target != "textile" else (
            self.words(1) + " " + self.face() + r.choice(["", " " + self.words(1)]))
        if self.target != "rest":
            one = cell
            cell = lambda: one() if r.random() < 0.9 else one() + r.choice(["<br />", "<br>"]) + one()
        rows = [self.wrap("tr", "".join(self.wrap("th", cell()) for _ in range(n)))]
        for _ in range(r.choice([1, 2, 3])):
            rows.append(self.wrap("tr", r.choice(["", "\n"]).join(self.wrap("td", cell()) for _ in range(n))))
        return self.wrap("table", "\n" + "\n".join(rows) + "\n")

    def pre(self):
        r = self.r
        lines = [r.choice([self.words, lambda: "  " + self.words(1), lambda: "", lambda: self.word() + "   " + self.word()])() for _ in range(r.choice([0, 0, 1, 2, 5]))]
        if self.target == "textile":
            lines = [x for x in lines if x.strip()]
        lines = ["" if not x.strip() else x.replace("\n", "").replace("\t", " ") for x in lines]
        return "\n<pre>\n%s\n</pre>\n" % "\n".join([r.choice(["", "", "", " ", "    "]) + self.word()] + lines + [self.word()])

    def hr(self):
        return self.r.choice(["<hr>", "<hr />", "<hr/>"])

    KINDS = ["para", "para", "para", "head", "lst", "table", "pre", "hr"]

    def doc(self):
        r = self.r
        self.labels, self.top = 0, 0
        self.deep = r.choice([0, 1, 2, 3]) if r.random() < 0.93 else r.randint(4, 9)
        self.alphabets = r.sample(ALPHABETS, r.choice([1, 2, 3]))
        kinds = [k for k in self.KINDS if k != "hr" or self.target != "textile"]
        if self.target == "markdown":
            other = r.choice(["lst", "table"])
            kinds = [k for k in kinds if k != other]
        out, last = [], ""
        n = r.choice([1, 2, 2, 3, 4, 6])
        for i in range(n):
            ok = [k for k in kinds if (k, last) not in (("lst", "lst"), ("hr", "hr"))]
            if i in (0, n - 1) or last == "head":
                ok = [k for k in ok if k != "hr"]
            if self.target == "rest" and last == "hr":
                ok = [k for k in ok if k not in ("head",)]
            last = r.choice(ok)
            s = getattr(self, last)()
            if r.random() < 0.05:
                s = self.wrap("div", s)
            out.append(s)
        return r.choice(["", "\n", "\n\n"]).join(out)


def docs(seed, count, target):
    g = Gen(seed, target)
    for _ in range(count):
        yield g.doc()
