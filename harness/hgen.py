"""Seeded generators of html documents, one focus per group of properties."""
import random

import cgen
import dictionary
import gen_html as old
import vary

WORDS = ["a", "b", "foo", "bar", "Zoo", "word", "1", "42", "\xe4\xf6", "\u20ac", "\u4e2d\u6587", "\U0001f600", "z.", "x,", "(y)", "it's", "C++", "100%", "a-b", "k_v"]
SIGNS = ["*", "**", "#", "##", "/", "//", "_", "__", "-", "--", "----", "~", "~~", "^", "^^", ",,", "=", "==", "|", "||", "\\", "\\\\", "`", "``", "{{{", "}}}",
         "{{", "}}", "[[", "]]", "<<", ">>", "!", "@", "+", "%", "??", "::", "..", ":", "h1. ", "bq. ", "p. ", "'", '"', "(c)", "1.", "* x", "# y", "> z", "+ +", "http://x.de", "a@b.c"]
GT = [s for s in SIGNS if "<" not in s]
INLINE = {
    "creole": ["b", "strong", "i", "em", "tt", "sup", "sub", "u", "small", "del", "strike", "big", "code", "span", "ins", "cite"],
    "rest": ["b", "strong", "i", "em", "tt", "big", "small", "code", "span", "u", "sup", "sub", "del"],
    "textile": ["b", "strong", "i", "em", "sup", "sub", "big", "cite", "del", "ins", "code", "span", "u", "tt", "small", "strike"],
    "markdown": ["b", "strong", "i", "em", "tt", "sup", "sub", "u", "small", "del", "strike", "big", "code", "span", "ins"],
}
TARGETS = ["creole", "rest", "textile", "markdown"]
PRETEXT = ["x", "a  b", "  indented", "\ttab", "", "", " ", "&lt;b&gt;", "&amp;", "&amp;lt;", "&auml; &euro;", "&#65;&#x42;", "&foo;", "&copy", "<b>y</b>", "<i", "{{{", "~}}}", "```",
           "**x**", "* a", "= h", "|a|", "[[x]]", "\\\\", "trail  ", "<br />", "&nbsp;", "\xe4\u20ac", "http://x.de", "::", "<code>c</code>", "# no", "&#0;", "&sup2;&frac14;", '"q"']
HREF = ["/u", "/other/page", "http://x.org/a?b=1&amp;c=2#f", "http://x.org", "#top", "mailto:m@x", "page", "../up", "x%20y", "/a b", "/\xe4", "https://h:8080/p;q/r?s#t", "?q=1",
        "/a?b&notin;c&notit;", "x&apos;y&AMP;z", "/&fjlig;&lang;", "?a=1&copy=2&amp=3&para", "&NotEqualTilde;"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        texts, self.sizes = dictionary.news()
        self.left, self.terse = 50, False
        self.texts = [t for t in texts if not any(c in t for c in "<>&\n")]
        self.vocabulary = [t for t in dictionary.vocabulary() if not any(c in t for c in "<>&\n")]
        self.memory = vary.Memory()
        self.target = "creole"
        self.fancy = 0.15       # how often markup characters, references and odd whitespace
        self.unknown = 0.03
        self.pad = 0.25         # whitespace between tags
        self.refs = 0.1

    # ---- values
    def size(self, common, top):
        r = self.r
        if self.sizes and r.random() < 0.3:
            n = self.odd_size()
            if n is not None:
                return n
        if r.random() < 0.03 and not self.terse:
            return r.randint(0, top)
        return common[0] if self.terse else r.choice(common)

    odd_size, long_word = cgen.Gen.odd_size, cgen.Gen.long_word

    def tiny(self):
        """any short text"""
        r = self.r
        pool = r.choice(["0123456789", "0123456789.,-+%", "abcxyzABC", "!\"#$%'()*+,-./:;=?@[\\]^_`{|}~", "a0-_=.|*#\u00e4\u20ac"])
        return "".join(r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])))

    def word(self):
        r = self.r
        if self.texts and r.random() < 0.08:
            return r.choice(self.texts)
        if r.random() < 0.06:
            return self.tiny()
        if r.random() < self.fancy:
            return r.choice(GT)
        if r.random() < self.refs:
            return vary.reference(r) if r.random() < 0.2 else r.choice(old.REFS)
        k = r.random()
        if k < 0.03:
            return r.choice(["", "a", "b"]) + r.choice(vary.ODDSPACE) + r.choice(["", "c", "d"])
        if k < 0.05:
            return r.choice(self.vocabulary)
        if k < 0.07:
            return self.memory.kin(r).replace("<", "&lt;").replace(">", "&gt;")
        if r.random() < 0.008:
            return self.long_word()
        return r.choice(WORDS)

    def words(self):
        r = self.r
        sep = lambda: r.choice([" ", " ", " ", " ", " ", " ", "  ", "\n", "\n  ", "\t", "", "\xa0"]) if r.random() < 0.35 else " "
        n = self.size([1, 1, 2, 3, 4], 25)
        out = self.word() if n else ""
        for _ in range(n - 1):
            out += sep() + self.word()
        return out

    def ws(self):
        r = self.r
        if r.random() > self.pad:
            return ""
        return r.choice([" ", " ", "\n", "\n  ", "  ", "\t", "\n\n", "\n\t\n", "\r\n"])

    def case(self, tag):
        return tag.upper() if self.r.random() < 0.02 else tag

    def el(self, tag, body, attrs=""):
        r = self.r
        t = self.case(tag)
        end = "</%s>" % self.case(tag)
        if r.random() < 0.01:
            end = r.choice(["</%s >" % tag, "</%s\n>" % tag])
        return "<%s%s>%s%s" % (t, attrs, body, end)

    def attrs(self, *tags):
        return old.attrs(self.r, tags[0] if tags else "p") if self.r.random() < 0.1 else ""

    # ---- inline
    def value(self, s):
        """this value of an attribute, or another one"""
        r = self.r
        k = r.random()
        if k < 0.06:
            s = r.choice(self.vocabulary)
        elif k < 0.14:
            s = self.memory.kin(r)
        elif k < 0.17:
            s = vary.reference(r) + s
        if r.random() < 0.1:
            s = vary.near(r, s)
        if r.random() < 0.02:
            s = s + r.choice(vary.ODDSPACE) + r.choice(["", "x"])
        return self.memory.add(s).replace('"', "&quot;")

    def href(self):
        return self.value(self.r.choice(HREF if self.r.random() < 0.8 else old.HREF))

    def link(self, d):
        r = self.r
        a = []
        if r.random() < 0.95:
            a.append('href="%s"' % self.href().replace('"', "&quot;"))
        if r.random() < 0.2:
            a.append('title="%s"' % self.value(r.choice(old.VAL)))
        if r.random() < 0.08:
            a.append(r.choice(['name="n"', 'class="c"', "id=x", 'rel="nofollow"', "data-x"]))
        r.shuffle(a)
        return self.el("a", self.inlines(d - 1) if r.random() < 0.5 else self.words(), "".join(" " + x for x in a))

    def image(self):
        r = self.r
        a = []
        if r.random() < 0.96:
            a.append('src="%s"' % self.value(r.choice(["/i.png", "i.png", "/a/b/c.jpg", "http://x.org/i.gif", "/a b.png", "data:image/png;base64,AA==", r.choice(["data.png", "database/i.png", "data/x.png", "DATA:x", "xdata:y.png", "metadata", "data;x", " data:x", "/data:x", "i.data:", "data://x"]), "/p/", "x?y=z&amp;k=1", "/dir.d/pic"] if r.random() < 0.8 else old.SRC)))
        for n in ("title", "alt"):
            if r.random() < 0.6:
                a.append('%s="%s"' % (n, self.value(r.choice(["t", "the title", "longer than the other", "\xe4", "a &amp; b", "&lt;x&gt;", "", "x|y", "it's", "&apos;a&apos; &hearts;", "&Tab;b&NewLine;", "&notit; &amp&lt"]))))
        k = r.random()
        if k < 0.2:
            a += ['width="%s"' % r.choice(["10", "20px", "5%", "1"]), 'height="%s"' % r.choice(["30", "40px", "5%", "1", ""])]
        elif k < 0.26:
            a.append(r.choice(['width="7"', 'height="8"']))
        if r.random() < 0.05:
            a.append(r.choice(['class="c"', "border=0", 'align="left"']))
        r.shuffle(a)
        return "<%s%s%s>" % (self.case("img"), "".join(" " + x for x in a), r.choice([" /", " /", "/", ""]))

    def pretext(self):
        k = self.r.random()
        return vary.reference(self.r) if k < 0.06 else self.r.choice(vary.ODDSPACE) + "x" if k < 0.08 else self.word() if k < 0.12 else self.r.choice(PRETEXT)

    def inlinepre(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return "<pre>%s</pre>" % " ".join(self.pretext() for _ in range(r.choice([0, 1, 1, 2, 3])))
        code = "\n".join(self.pretext() for _ in range(r.choice([0, 1, 2, 3])))
        return "<pre>%s<code%s>%s</code>%s</pre>" % (r.choice(["", "", "", " ", "x"]), r.choice(["", ' class="language-python"', ' class="language-"', ' class="x"', ' class="language-c++ y"']),
                                                     r.choice(["", "\n"]) + code + r.choice(["", "\n"]), r.choice(["", "", "", " ", "\n"]))

    def unknown_el(self, d, body=None):
        r = self.r
        t = r.choice(["unk", "x-y", "foo1", "font", "center", "blockquote", "form", "dl", "dd", "section"] if r.random() < 0.6 else old.UNKNOWN)
        if self.target != "creole" and r.random() < 0.3:
            t = r.choice(["u", "sup", "sub", "tt", "ins", "cite", "code", "strike", "small"])
        a = old.attrs(r, t) if r.random() < 0.5 else ""
        k = r.random()
        if k < 0.2:
            return "<%s%s%s>" % (t, a, r.choice([" /", "/"]))
        if k < 0.26:
            return "<%s%s></%s>" % (t, a, t)
        return "<%s%s>%s</%s>" % (t, a, self.inlines(d - 1) if body is None else body, t)

    def inline(self, d):
        r = self.r
        k = r.random()
        if k < self.unknown:
            return self.unknown_el(d)
        k = r.random()
        if d <= 0 or k < 0.5:
            return self.words()
        if k < 0.78:
            return self.el(r.choice(INLINE[self.target]), self.inlines(d - 1), self.attrs("b"))
        if k < 0.86:
            return self.link(d)
        if k < 0.91:
            return self.image()
        if k < 0.96:
            return r.choice(["<br>", "<br />", "<br/>", "<br />\n", "<BR>"])
        if k < 0.98:
            return self.inlinepre()
        return r.choice(["<!-- c -->", "<!-- <b> -->", "<!--x\ny-->", "<?pi x?>"])

    def inlines(self, d):
        r = self.r
        out = self.ws()
        for i in range(self.size([1, 1, 1, 2, 2, 3], 10)):
            out += (r.choice([" ", " ", " ", "", "\n", "  "]) if i else "") + self.inline(d)
        return out + self.ws()

    # ---- blocks
    def para(self, d):
        r = self.r
        k = r.random()
        if k < 0.75:
            return self.el("p", self.inlines(d), self.attrs("p"))
        if k < 0.85:
            return self.inlines(d)
        return self.el(r.choice(["div", "div", "span"]), self.inlines(d) if k < 0.93 or d < 1 else self.blocks(d - 1, 2))

    def head(self, d):
        r = self.r
        n = min(9, max(1, self.size([1, 2, 3, 4, 5, 6], 9)))
        return self.el("h%d" % n, self.words() if r.random() < 0.7 else self.inlines(d), self.attrs("h"))

    def item(self, d, deep):
        r = self.r
        k = r.random()
        body = self.inlines(d) if k < 0.9 else self.el("p", self.inlines(d)) if k < 0.95 else ""
        if deep > 0:
            body += self.ws() + self.listing(d, deep - 1)
            if r.random() < 0.12:
                body += r.choice(["", "\n", " "]) + (self.words() if r.random() < 0.6 else self.listing(d, 0))
        return self.el("li", body, self.attrs("li"))

    def listing(self, d, deep=None):
        r = self.r
        if deep is None:
            deep = min(12, self.size([0, 0, 1, 1, 2, 3], 9))
        out = ""
        for _ in range(min(25, self.size([1, 1, 2, 2, 3], 20))):
            out += self.ws() + self.item(d, deep if r.random() < 0.5 else 0)
        if r.random() < 0.04:
            out += r.choice([self.listing(d, 0), "x", "<li>open", "<li />"])
        return self.el(r.choice(["ul", "ol"]), out + self.ws(), self.attrs("ul"))

    def cell(self, d, head):
        r = self.r
        k = r.random()
        if k < 0.78:
            body = self.words() if r.random() < 0.5 else self.inlines(d)
        elif k < 0.84:
            body = ""
        elif k < 0.88:
            body = self.el("p", self.inlines(d))
        elif k < 0.91:
            body = self.words() + "<br />" + self.words()
        elif k < 0.94:
            body = self.listing(d - 1, 0)
        elif k < 0.96:
            body = self.table(d - 1, True)
        else:
            body = self.link(d)
        return self.el("th" if head else "td", body, self.attrs("td"))

    def table(self, d, small=False):
        r = self.r
        cols = max(1, self.size([1, 2, 2, 3], 5 if small else 15))
        head = r.random() < 0.55
        out = ""
        for i in range(max(1, self.size([1, 2, 2, 3], 5 if small else 15))):
            n = cols if r.random() < 0.85 else r.randint(0, 4)
            cells = "".join(self.ws() + self.cell(d, (head and i == 0) if r.random() < 0.94 else r.random() < 0.5) for _ in range(n))
            out += self.ws() + self.el("tr", cells + self.ws(), self.attrs("tr"))
        if r.random() < 0.15:
            out = self.el(r.choice(["tbody", "tbody", "thead"]), out)
        return self.el("table", out + self.ws(), self.attrs("table"))

    def pre(self, d):
        r = self.r
        body = "".join(self.pretext() + "\n" for _ in range(min(30, self.size([0, 1, 1, 2, 3], 12))))
        return "\n<pre>%s\n%s</pre>%s\n" % (r.choice(["", "", " "]), body, r.choice(["", "", " "]))

    def rule(self, d):
        return self.r.choice(["<hr />", "<hr>", "<hr/>", "<HR />"])

    def unknown_block(self, d):
        return self.unknown_el(d, self.blocks(d - 1, 2) if d > 0 else self.words())

    def block(self, d, kinds):
        if self.r.random() < self.unknown:
            return self.unknown_block(d)
        return getattr(self, self.r.choice(kinds))(d)

    def blocks(self, d, n=None, kinds=("para", "para", "head", "listing", "table", "pre", "rule")):
        out = ""
        for _ in range(n or max(1, self.size([1, 1, 2, 3], 10))):
            out += self.ws() + self.block(d, kinds) + self.r.choice(["\n", "", "\n\n", "\n", " "])
        return out


def soup(g, n):
    return old.soup(g.r, n)


# focus: (kinds of blocks, settings, targets, policies, wild)
BASIC = ["default"] * 6 + ["transparent", "escape", "html", "pre"]
FOCUS = {
    "text": (("para", "para", "head", "listing", "table", "pre"), dict(), TARGETS, ["transparent", "default"], 0.2),
    "creole": (("para", "para", "head", "listing", "table", "pre", "rule"), dict(), ["creole"], BASIC, 0.1),
    "rest": (("para", "para", "head", "listing", "table", "pre", "rule"), dict(unknown=0.01), ["rest"], ["default"], 0.1),
    "textile": (("para", "para", "head", "listing", "table", "pre", "rule"), dict(), ["textile"], BASIC, 0.1),
    "markdown": (("para", "para", "head", "listing", "table", "pre", "rule"), dict(), ["markdown"], BASIC, 0.1),
    "tables": (("table",), dict(), TARGETS, BASIC, 0.05),
    "lists": (("listing",), dict(fancy=0.05), TARGETS, BASIC, 0.05),
    "refs": (("para", "para", "head", "pre", "table", "listing"), dict(refs=0.7), TARGETS, BASIC, 0.1),
    "unknown": (("para", "para", "unknown_block", "listing", "table"), dict(unknown=0.4), TARGETS, ["transparent", "escape", "html", "pre", "raise", "default"], 0.1),
    "space": (("para", "para", "head", "listing", "table", "pre"), dict(pad=0.8), TARGETS, BASIC, 0.1),
    "pre": (("pre", "pre", "prepara", "listpre"), dict(), TARGETS, BASIC, 0.1),
    "links": (("linkline",), dict(), TARGETS, BASIC, 0.05),
    "tree": (("para", "listing", "table"), dict(), TARGETS, BASIC, 0.8),
    "all": (("para", "para", "head", "listing", "table", "pre", "rule"), dict(unknown=0.06), TARGETS, BASIC, 0.4),
}


def prepara(self, d):
    return self.el(self.r.choice(["p", "div", "td", "b"]), self.words() + self.inlinepre() + self.words())


def listpre(self, d):
    return "<ul><li>%s%s</li></ul>" % (self.words(), self.r.choice([self.inlinepre(), self.pre(0)]))


def linkline(self, d):
    return self.el(self.r.choice(["p", "p", "li", "h2", "td"]), " ".join(self.r.choice([lambda: self.link(2), self.image, self.words])() for _ in range(self.size([1, 2, 3], 8))))


Gen.prepara, Gen.listpre, Gen.linkline = prepara, listpre, linkline


def docs(focus, seed, count):
    g = Gen(seed)
    r = g.r
    kinds, settings, targets, policies, wild = FOCUS[focus]
    base = dict(g.__dict__)
    for _ in range(count):
        g.__dict__.update(base)
        g.left = cgen.limit(r)
        g.memory = vary.Memory()
        g.__dict__.update(settings)
        if r.random() < 0.3:
            g.fancy = r.choice([0, 0.4])
        if r.random() < 0.3:
            g.refs = max(g.refs, 0) * r.choice([0, 2])
        g.target = r.choice(targets)
        k = r.random()
        if k < 1 - wild:
            s = g.blocks(r.choice([0, 1, 1, 2, 2, 3]), None, kinds)
        elif k < 1 - wild / 2:
            s = old.mutate(r, g.blocks(r.choice([0, 1, 2]), r.choice([1, 2])))
        elif k < 1 - wild / 4:
            s = old.document(r)
        else:
            s = soup(g, r.choice([2, 3, 4, 6, 9, 14]))
        yield cgen.cut(r, s), dict(target=g.target, strict=g.target == "creole" and r.random() < 0.3, policy=r.choice(policies))
