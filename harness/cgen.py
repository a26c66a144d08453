"""Seeded generators of creole documents, one focus per group of properties."""
import random

import dictionary
import gen_creole as old
import vary

PLAIN = ["a", "b", "foo", "bar", "x y", "Zoo", "word", "1", "42", "\xe4\xf6", "\u20ac", "\u4e2d\u6587", "\U0001f600", "\xa0", "\u3000", "z."]
PUNCT = [".", ",", ":", ";", "!", "?", "(", ")", "'", '"', "&", "<", ">", "=", "-", "/", "*", "#", "_", "^", "~", "|", "\\", "[", "]", "{", "}",
         "$", "%", "+", "@", "://", "&amp;", "<b>", "</p>", "%%", "--", "...", "&lt;", "`"]
MARKS = ["**", "//", "##", "__", "^^", ",,", "--", "~~"]
PROTO = ["http", "https", "ftp", "nntp", "news", "mailto", "telnet", "file", "irc"]
HTMLISH = ["<script>", "</script>", "<b onclick=\"x\">", "&", "<", ">", '"', "'", "&amp;", "&lt;", "&#65;", "&quot;", "</td>", "</p>", "--><", "<!--", "]]>",
           "\" onload=\"x", "'><i>", "<img src=x>", "&copy;", "<br />", "</a>", "</pre>", "</li></ul>", "<<", ">>"]


def limit(r):
    """the sum of the unusual sizes in a document"""
    return r.choice([50, 50, 50, 50, 50, 120, 200, 450])


def cut(r, s):
    """documents that take too long to judge are rare"""
    top = r.choice([1500, 1500, 2500, 2500, 6000])
    return s if len(s) <= top else s[:top]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.texts, self.sizes = dictionary.news()
        self.left = 50
        self.terse = False
        self.memory, self.vocabulary = vary.Memory(), dictionary.vocabulary()

    # ---- values
    def kept(self, s):
        """the value, one close to it, or one close to another of the document"""
        r = self.r
        k = r.random()
        if k < 0.1:
            s = self.memory.kin(r)
        elif k < 0.2:
            s = vary.near(r, s)
        elif k < 0.24:
            s = r.choice(self.vocabulary)
        return self.memory.add(s)

    def size(self, common, top):
        r = self.r
        if self.sizes and r.random() < 0.3:
            n = self.odd_size()
            if n is not None:
                return n
        if r.random() < 0.04 and not self.terse:
            return r.randint(0, top)
        return common[0] if self.terse else r.choice(common)

    def odd_size(self):
        """a size the code mentions, as long as the document doesn't get too big"""
        n = max(0, min(400, self.r.choice(self.sizes) + self.r.choice([-1, 0, 1, 1])))
        if n > self.left or n > 40 and self.r.random() < 0.7:
            return None
        self.left -= n
        self.terse = self.terse or n > 12
        return n

    def long_word(self):
        n = self.odd_size() if self.sizes and self.r.random() < 0.7 else self.r.choice([20, 50, 79, 80, 81, 90, 130, 270])
        return self.r.choice("abcXYZ\xe4") * (n or 40)

    def pick(self, pool):
        if self.texts and self.r.random() < 0.12:
            return self.r.choice(self.texts)
        return self.r.choice(pool)

    def word(self):
        if self.r.random() < 0.01:
            return self.long_word()
        k = self.r.random()
        if k < 0.04:
            return self.tiny()
        if k < 0.08:
            return self.kept(self.pick(PLAIN))
        if k < 0.1:
            return self.r.choice(["", "a", " "]) + self.r.choice(vary.ODDSPACE) + self.r.choice(["", "b", " "])
        if k < 0.11:
            return self.r.choice(self.vocabulary)
        return self.pick(PLAIN)

    def tiny(self):
        """any short text"""
        pool = self.r.choice(["0123456789", "0123456789.,-+%", "abcxyzABC", "!\"$%'()+,-.:;?@_`", "a0-_=.*#/~\u00e4\u20ac"])
        return self.chars(pool, 4)

    def words(self, n=None):
        return " ".join(self.word() for _ in range(n or self.size([1, 1, 2, 3], 30)))

    def ws(self):
        return self.r.choice(["", "", "", "", " ", " ", "  ", "\t", "   "])

    def nl(self):
        return self.r.choice(["\n"] * 8 + ["\n\n"] * 6 + ["\n\n\n", "\r\n", "\r\n\r\n", "\r", "\n \n", "\n\t\n", " \n", "\n  "])

    # ---- inline markup
    def url(self):
        r = self.r
        return r.choice([lambda: r.choice(PROTO) + "://" + r.choice(["x.org", "e.de/a?b=1&c=2#d", "h:80/p_q_r", "a/b//c", "x/**y**", "u@h", "x.de,", "x.de)",
                                                                       "\xe4.org", "x|y", "x]]y", "a$b", "~x", "x'\"<>"]),
                         lambda: r.choice(["/local/page", "Page", "Some Page", "#anchor", "wtf://x", "mailto:a@b", "a&b", "?q=1", "a=b", "\xe4", "C:\\x", "a//b"])])()

    def link(self, d):
        r = self.r
        t = self.kept(self.url())
        k = r.random()
        if k < 0.25:
            return "[[%s]]" % t
        if k < 0.85:
            return "[[%s%s|%s%s%s]]" % (t, self.ws(), self.ws(), self.inline(d - 1), self.ws())
        return r.choice(["[[%s|]]", "[[|%s]]", "[[%s", "%s]]", "[[ %s ]]", "[[%s]", "[%s]", "[[[%s]]]", "[[%s||x]]", "~[[%s]]", "[[%s\n]]", "[[]]%s", "[[ ]]%s"]) % t

    def image(self):
        r = self.r
        t = self.kept(r.choice(["i.png", "/a/b.jpg", "http://x.org/i.gif?a=1&b=2", "a b.png", "i", "\xe4.png", "x'\".png", "data:x"]))
        k = r.random()
        if k < 0.2:
            return "{{%s}}" % t
        if k < 0.5:
            return "{{%s%s|%s%s%s}}" % (t, self.ws(), self.ws(), r.choice([self.words(), "a<b>", 'q"q', "a & b", "**t**", "it's", "a|b", "t|u|1x2", "|1x2", "1x2", "t|x", "~|", "a\\\\b", "//i//", "[[l]]"]), self.ws())
        if k < 0.8:
            n = lambda: r.choice(["1", "90", "160", "007", "1_0", " 5", "-3", "+4", "x", "", "9999999999", "5%", "10px"]) if r.random() < 0.85 else self.chars("0123456789+-_., xX%|p")
            return "{{%s|%s|%s%s%s}}" % (t, r.choice([self.words(), "", "a<\"b", " "]), n(), r.choice(["x", "x", "x", "X", "*"]), n())
        return r.choice(["{{%s|}}", "{{|%s}}", "{{%s", "%s}}", "{{ %s }}", "{%s}", "{{{%s}}}", "{{%s||}}", "~{{%s}}", "{{%s|a|b|c}}", "{{%s|1x2|3x4}}"]) % t

    def nowiki(self):
        r = self.r
        return "{{{%s}}}" % r.choice(["x", "**a**", "<b>&amp;", "", " a ", "[[x|y]]", "a}b", "a}}", "{x", "~x", "\\\\", "<<toc>>", self.words(), "//", "a|b", '"'])

    def marked(self, d):
        r = self.r
        m = r.choice(MARKS)
        body = self.inline(d - 1)
        k = r.random()
        if k < 0.86:
            return m + body + m
        if k < 0.92:
            return m + body
        if k < 0.96:
            return m + body + r.choice(MARKS)
        return r.choice(["~" + m + body + m, m + body + "~" + m, m + m, m[0] + body + m, m + " " + body + " " + m, m[0] * 3 + body + m[0] * 3, m + body + "\n" + self.word() + m])

    def piece(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return self.words()
        if k < 0.68:
            return self.marked(d)
        if k < 0.76:
            return self.link(d)
        if k < 0.80:
            return self.image()
        if k < 0.84:
            return self.nowiki()
        if k < 0.89:
            return self.pick(PUNCT)
        if k < 0.92:
            return "~" + self.pick(PUNCT + PLAIN[:5] + [" ", "~", "http://x.de"])
        if k < 0.95:
            return r.choice(["", " ", "~"]) + self.kept(self.url())
        if k < 0.98:
            return "\\\\"
        return self.r.choice(old.MACRO)

    def inline(self, d=2):
        n = self.size([1, 1, 1, 2, 2, 3, 4], 14)
        return "".join(self.piece(d) + self.ws() for _ in range(n))

    # ---- blocks
    def head(self):
        r = self.r
        n = self.size([1, 2, 3, 4, 5, 6], 9)
        return (r.choice(["", "", "", " "]) + "=" * n + self.ws() + r.choice([self.words(), self.inline(1), "", "a = b", "**b**", "a & <b> \"q\"", "x ~= y"]) +
                self.ws() + "=" * r.choice([0, 0, n, n, 1, 3]) + self.ws())

    def bullets(self, prev):
        r = self.r
        k = self.size([0, 0, 1, 1, 1, 2], 9)
        if not prev or k == 0 and r.random() < 0.3:
            b = r.choice("*#") * max(1, self.size([1, 1, 1, 2], 12))
        elif r.random() < 0.5:
            b = prev + r.choice("*#") * r.choice([0, 1, 1, 2])
        else:
            b = prev[:max(1, len(prev) - r.choice([1, 1, 2, 3]))]
            if r.random() < 0.25:
                b = b[:-1] + r.choice("*#")
        return b[:14]

    def lst(self, d=1):
        r = self.r
        out, b = [], r.choice("*#")
        for i in range(max(1, self.size([1, 2, 3, 4, 5, 7], 40))):
            if i:
                b = self.bullets(b)
            text = self.inline(d)
            if r.random() < 0.15:
                text += "\\\\" + self.words()
            out.append(r.choice(["", "", "", " ", "\t", "    "]) + b + r.choice([" ", " ", " ", "", "  ", "\t"]) + text + r.choice(["", "", "", " ", "  ", "\t"]))
            k = r.random()
            if k < 0.04:
                out.append("")
            elif k < 0.09:
                out.append(r.choice(["", " ", "  "]) + self.words())
            elif k < 0.11:
                out.append(r.choice(["----", "= h", "|a|b|", "{{{\nx\n}}}", "<<num/>>", "<<echo>>x<</echo>>"]))
        return "\n".join(out)

    def row(self, d, n):
        r = self.r
        s = r.choice(["", "", "", " "])
        for _ in range(n):
            s += r.choice(["|", "|", "|", "|=", "|=", "|= "]) + self.ws()
            k = r.random()
            if k < 0.75:
                s += self.inline(d)
            elif k < 0.8:
                s += self.link(1)
            elif k < 0.84:
                s += self.image()
            elif k < 0.88:
                s += self.nowiki()
            elif k < 0.91:
                s += r.choice(old.MACRO)
            elif k < 0.94:
                s += self.words() + "\\\\" + self.words()
            s += self.ws()
        return s + r.choice(["|", "|", "|", "", "| ", "||"])

    def table(self, d=1):
        r = self.r
        n = max(1, self.size([1, 2, 2, 3, 4], 24))
        rows = []
        for _ in range(max(1, self.size([1, 2, 2, 3, 4], 20))):
            rows.append(self.row(d, n if r.random() < 0.8 else r.randint(1, 5)))
            k = r.random()
            if k < 0.03:
                rows.append("")
            elif k < 0.06:
                rows.append(r.choice([self.words(), "* x", "= h", "----", "|", "||", "|="]))
        return "\n".join(rows)

    def pre(self):
        r = self.r
        n = max(0, self.size([0, 1, 1, 2, 3], 30))
        line = lambda: r.choice([self.words(), "**x** //y//", "<b>&amp;</b>", "", "  indented", "\ttab", "~}}}", " ~}}}", "~~}}}", " }}}", "x }}}", "{{{", "#!python",
                                 "* a", "= h", "|a|b|", "----", "<<toc>>", "<<html>>x<</html>>", "[[a|b]]", "\\\\", "http://x.org", "a  b   c", "trail  ", "}}", "}}}}", "\\n", "%s"])
        return "{{{" + r.choice(["", "", "", " ", "\t"]) + "\n" + "".join(line() + "\n" for _ in range(n)) + "}}}" + r.choice(["", "", "", "", " ", "x", "}"])

    def hr(self):
        return self.r.choice(["----", "----", "----", " ----", "---- ", "----\t", "-----", "---", "----x", "--", "\t---- ", "~----", "- - - -"])

    def para(self, d=2):
        return "\n".join(self.inline(d) for _ in range(max(1, self.size([1, 1, 2, 3], 15))))

    def doc(self, kinds, n=None):
        s = self.r.choice(["", "", "", "\n", " ", "\n\n"])
        for _ in range(n or max(1, self.size([1, 2, 2, 3, 4, 6], 12))):
            s += getattr(self, self.r.choice(kinds))() + self.nl()
        return s

    # ---- a macro call
    def chars(self, alphabet, n=6):
        return "".join(self.r.choice(alphabet) for _ in range(self.r.randint(1, n)))

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            return self.chars("0123456789+-_.,eExXlL%:;/")
        if k < 0.17:
            return r.choice("'\"") + self.chars("0123456789+-_., \tTrueFalsNo", 5).rstrip("'\"") + r.choice("'\"")
        if k < 0.21:
            return r.choice(["true", "TRUE", "none", "null", "Truee", "None.", "yes", "on", "inf", "nan", "1.0", "1e3", "0b1", "0o7", "0xF", "1j", "1L", "[1]", "(1)", "{}", "1/2", "50%", "#f00", "*", "$x", "`x`", "a;b", "a|b", "~", "!"])
        return r.choice(["1", "-5", "+07", "1_0", "0x1", "1.5", "True", "False", "None", "true", "abc", '"x y"', "'x y'", '"a\\"b"', "a\\ b", '""', "''", '"1"', "'True'",
                         "'\"5\"'", "a=b", "\xe4", "<b>", "&amp;", '"a>b"', "a'b'c", '"', "'", "\\", "x\\", " ", "1 ", '"\t"', "00", "-0", "1__0", "_1", self.word()])

    def args(self):
        r = self.r
        n = self.size([0, 0, 1, 1, 2, 3], 10)
        return "".join(r.choice([" ", " ", "  ", "\t"]) + r.choice(["a", "b", "c", "text", "x1", "\xe4", "A", "a-b", "", "_", "self", "depth"][:(8 if r.random() < 0.9 else 12)]) +
                       r.choice(["=", "=", "=", "=", "=", "", " = "]) + self.value() for _ in range(n))

    def macro(self):
        r = self.r
        name = r.choice(["echo", "echo", "echo", "echo", "html", "boom", "num", "nokw", "unknown", "Echo", "echo2", "ec", "e_c", "\xe4", "toc"])
        args = self.args()
        k = r.random()
        body = r.choice(["", "x", self.words(), "<b>x</b>", " padded ", "\n", "a\nb", "\n\na\n\nb\n", "**m**", "<<num/>>", "<<echo>>n", "|", "{{{x}}}", "&amp;", self.inline(1)])
        if k < 0.45:
            s = "<<%s%s>>%s<</%s>>" % (name, args, body, name)
        elif k < 0.75:
            s = "<<%s%s%s/>>" % (name, args, r.choice(["", " "]))
        elif k < 0.83:
            s = "<<%s%s>>" % (name, args)
        elif k < 0.9:
            s = "<< %s%s >>%s<</ %s >>" % (name, args, body, name)
        else:
            s = r.choice(["<<%s%s", "%s%s>>", "<<%s%s//>>", "<<%s%s>><</other>>", "<< %s%s/>>", "~<<%s%s/>>", "<<%s\n%s/>>", "<<%s%s>>x<</%%s>>y", "<%s%s/>", "<<<%s%s/>>>"]) % (name, args)
            s = s.replace("%s", name)
        k = r.random()
        if k < 0.3:
            return s
        return r.choice(["%s\n", "a %s b", "\n%s\n", "* %s", "| %s | x |", "**%s**", "= %s", "[[u|%s]]", "\n\n%s\n\n", "a\n%s\nb", "%s%s" % ("%s", s.replace("%", "%%"))]).replace("%s", s.replace("%", "%%")).replace("%%", "%")

    def toc(self):
        r = self.r
        return r.choice(["<<toc>>", "<<toc>>", "<<toc />>", "<<toc/>>", "<<toc depth=1>>", "<<toc depth=2>>", "<<toc depth=3 />>", "<<toc depth='2'>>", "<<toc depth=x>>",
                         "<<toc depth=0>>", "<<toc depth=-1>>", "<<toc depth=None>>", "<<toc depth=True>>", "a <<toc>> b", "* <<toc>>", "|<<toc>>|", "<<toc>>x<</toc>>", "**<<toc>>**",
                         "<<toc foo=1>>", "{{{<<toc>>}}}", "~<<toc>>", "<<toc self=1>>", "<<toc", "<<toc text=1>>", "<<html>><<toc>><</html>>", "[[a|<<toc>>]]", "= <<toc>>"])

    def bs(self):       # line breaks
        r = self.r
        br = lambda: r.choice(["\n", "\n", "\n", "\\\\", "\\\\\n", "\\\n", "\\\\\\\n", "\\\\\\\\", "\\\\ ", " \\\\\n", "\n ", " \n", "\r\n", "\r", "\n\n", "~\\\\", "\\\\\r\n", "\n\\\\", "\n\t"])
        return "".join(self.piece(1) + br() for _ in range(max(1, self.size([2, 3, 4], 12)))) + self.words()

    def dangerous(self):
        r = self.r
        h = lambda: "".join(self.pick(HTMLISH) if r.random() < 0.6 else self.word() for _ in range(r.randint(1, 4)))
        return self.fill(r.choice(DANGER), h)

    def fill(self, form, h):
        while "%s" in form:
            form = form.replace("%s", h(), 1)
        return form


DANGER = ["%s", "= %s", "* %s", "|%s|=%s|", "[[%s]]", "[[%s|%s]]", "{{%s}}", "{{%s|%s}}", "{{%s|%s|5x6}}", "{{{%s}}}", "{{{\n%s\n}}}", "**%s**", "http://%s", "~%s",
          "<<unknown>>%s<</unknown>>", "<<unknown x=\"%s\">>", "<<boom t='%s' />>", "<<echo a=\"%s\" />>", "<<nokw %s=1 />>", "== %s\n<<toc>>\n== %s", "<<num>>%s<</num>>",
          "<<echo>>%s<</echo>>", "##%s##", "{{i.png|%s|%s}}", "{{i||%s}}", "<<%s>>", "[[%s", "<<toc depth=\"%s\">>\n= x", "<<echo %s/>>", "{{i.png|t|%sx%s}}", "[[%s|{{%s|%s}}]]"]

ALL = ["para", "para", "head", "lst", "table", "pre", "hr", "macro", "dangerous", "bs", "toc"]
FOCUS = {
    "blocks": (["para", "head", "hr", "pre", "lst", "table", "macro", "head", "hr"], {}),
    "lists": (["lst", "lst", "lst", "para", "head", "table"], {}),
    "tables": (["table", "table", "table", "para", "lst"], {}),
    "inline": (["para", "para", "para", "head", "lst", "table"], {}),
    "links": (["linkline"], {}),
    "breaks": (["bs", "bs", "lst", "table", "para"], {}),
    "escape": (["dangerous", "dangerous", "dangerous", "para", "table", "lst", "pre", "macro", "toc", "head"], {}),
    "verbatim": (["pre", "pre", "verb"], {}),
    "macros": (["macro", "macro", "macro", "para", "lst"], {}),
    "toc": (["toc", "head", "head", "head", "para", "macro"], {"toc": 1}),
    "all": (ALL, {}),
}


def linkline(self):
    r = self.r
    return "".join(r.choice([lambda: self.link(2), lambda: self.image(), lambda: r.choice(["", " ", "~", "(", "//"]) + self.url(), lambda: self.words(),
                             lambda: self.pick(PUNCT)])() + self.ws() for _ in range(max(1, self.size([1, 2, 3], 10))))


def verb(self):
    r = self.r
    return "".join(r.choice([self.nowiki, lambda: "~" + self.pick(PUNCT + PLAIN + [" ", "~"]), self.words, lambda: "##" + self.inline(1) + "##",
                             lambda: "~" + r.choice(MARKS) + self.word() + r.choice(MARKS), lambda: "~" + self.url()])() + self.ws() for _ in range(max(1, self.size([1, 2, 3], 10))))


Gen.linkline, Gen.verb = linkline, verb


def options(r, focus):
    o = dict(blog=r.random() < 0.6, macros=r.choice(["none", "std", "std", "std", "std", "usertoc"]), obj=r.random() < 0.25,
             verbose=r.choice([0, 1, 1, 1, 2, 3]), strict=r.random() < 0.25)
    if focus == "toc" and o["macros"] == "usertoc" and r.random() < 0.7:
        o["macros"] = "std"
    return o


def docs(focus, seed, count, wild=0.25):
    """(text, options)"""
    g = Gen(seed)
    r = g.r
    kinds = FOCUS[focus][0]
    for i in range(count):
        g.left, g.terse, g.memory = limit(r), False, vary.Memory()
        k = r.random()
        if k < 1 - wild:
            s = g.doc(kinds)
        elif k < 1 - wild / 2:
            s = g.doc(ALL)
        elif k < 1 - wild / 5:
            s = old.document(r)
        else:
            s = old.soup(r, r.choice([3, 6, 10, 20, 40]))
        yield cut(r, s), options(r, focus)
