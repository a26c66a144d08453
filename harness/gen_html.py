"""Seeded generators of html documents."""
import random

TEXT = ["a", "b", "foo", "x y", "c d e", " ", "  ", "\n", "\t", "Z", "1", "\xe4", "\u20ac", "\U0001f600", "\xa0", "|", "*", "#",
        "**", "//", "{{", "]]", "`", "_", "\\", "\\\\", "=", "-", ">", '"', "'", ".", ":", "\u3000", "\x0b", "\x85", "\x00", "\r\n"]
REFS = ["&amp;", "&lt;", "&gt;", "&quot;", "&nbsp;", "&auml;", "&euro;", "&foo;", "&copy", "&#65;", "&#x41;", "&#X41;", "&#x2f;",
        "&#228;", "&#0;", "&#1114112;", "&#xD800;", "&#99999999999;", "&#65", "&#x;", "&#;", "&#", "&", "&&", "&;", "&a.b;", "&frac12;",
        "&sup2;", "&apos;", "&amp;amp;", "&amp;lt;", "&Alpha;", "&alpha;", "&hearts;", "&#160;", "&#10;", "&#32;", "&thetasym;"]
HREF = ["/u", "http://x.org/a?b=1&amp;c=2#f", "a b", "/\xe4/\u20ac", "http://x.org", "#top", "mailto:m@x", "?q", "", "x%20y", "//h/p",
        "HTTP://X/y", "a;b", "/a;b/c;d?e;f", "foo", "/x(1)", "javascript:1", "http://h:80/p?", "p#", "\u4e2d", "/a&b", "/a&copy=1",
        "/a&lt=1", "a&#65;b", "a|b", "]]", "&quot;", "http://user@h/p", "data:x", "a:b", "1:2", "x:80", "/&", "/a+b,c", "file:///x", "[x", "http://[x"]
SRC = ["/i.png", "i.png", "a/b c.png", "data:image/png;base64,xx", "data", "http://x/\xe4.png", "", "/a/b/", "x?y=z&amp;k", "data:", "q.png"]
VAL = ["t", "a b", "\xe4", "&amp;", "&lt;b&gt;", "'", "", "x|y", "two  words", "&quot;", "10", "100%", "&copy;x", "&notit;", "a\tb", "&#39;", "&x", "1&2"]
INLINE = ["b", "strong", "i", "em", "tt", "sup", "sub", "u", "small", "del", "strike", "big", "code", "span", "cite", "ins", "a"]
BLOCK = ["p", "div", "h1", "h2", "h3", "h6", "h7", "blockquote", "center", "address", "dl"]
UNKNOWN = ["unk", "x-y", "font", "foo1", "data", "headline", "document", "entityref", "charref", "blockdata", "inlinedata", "list", "form",
           "script", "style", "title", "textarea", "h0", "h10", "H1", "Li", "dd", "dt", "button", "blockdata_pre", "deentity", "p_", "section", "math"]
VOID = ["br", "hr", "img", "br/", "br /", "hr /", "BR"]


def attr(r, name, vals):
    v = r.choice(vals)
    k = r.random()
    if k < 0.75:
        return '%s="%s"' % (name, v.replace('"', "&quot;"))
    if k < 0.85:
        return "%s='%s'" % (name, v.replace("'", "&#39;"))
    if k < 0.93:
        return "%s=%s" % (name, "".join(c for c in v if c not in " \t\n>\"'") or "q")
    return name


def attrs(r, tag):
    out = []
    if tag in ("a", "A"):
        if r.random() < 0.9:
            out.append(attr(r, "href", HREF))
        if r.random() < 0.3:
            out.append(attr(r, "title", VAL))
        if r.random() < 0.1:
            out.append(attr(r, "name", VAL))
    elif tag == "img":
        if r.random() < 0.93:
            out.append(attr(r, "src", SRC))
        for n in ("title", "alt"):
            if r.random() < 0.5:
                out.append(attr(r, n, VAL))
        for n in ("width", "height"):
            if r.random() < 0.3:
                out.append(attr(r, n, ["10", "20px", "5%", ""]))
    elif r.random() < 0.2:
        for _ in range(r.randint(1, 3)):
            out.append(attr(r, r.choice(["class", "id", "style", "x", "Data-Y", "on\xe4", "class"]), VAL))
    r.shuffle(out)
    return r.choice(["", "", " "]).join([""] + [" " + o for o in out])


def text(r, n=None):
    s = ""
    for _ in range(n if n is not None else r.randint(0, 4)):
        s += r.choice(TEXT[:8]) if r.random() < 0.6 else r.choice(TEXT + REFS)
    return s


def ws(r):
    return r.choice(["", "", "", "", "", " ", "\n", "  ", "\n  ", "\t", "\n\n"])


def el(r, tag, body, a=None):
    a = attrs(r, tag) if a is None else a
    return "<%s%s>%s</%s>" % (tag, a, body, tag)


def inline(r, d):
    k = r.random()
    if d <= 0 or k < 0.4:
        return text(r)
    if k < 0.75:
        t = r.choice(INLINE)
        return el(r, t, inlines(r, d - 1))
    if k < 0.85:
        t = r.choice(VOID + ["img", "img"])
        if t == "img":
            return "<img%s%s>" % (attrs(r, t), r.choice(["", " /", "/"]))
        return "<%s>" % t
    if k < 0.93:
        t = r.choice(UNKNOWN)
        return r.choice([el(r, t, inlines(r, d - 1)), "<%s%s />" % (t, attrs(r, t))])
    if k < 0.96:
        return "<pre>" + r.choice(["", "x", "a  b", " <b>&lt;&copy;</b> ", "&#x41;&foo;&amp;lt;", "a\nb\n"]) + "</pre>"
    if k < 0.98:
        return '<pre><code%s>%s</code></pre>' % (r.choice(["", ' class="language-py"', ' class="x"', ' class=""', ' class="language-"']),
                                                 r.choice(["x", "\nx = 1\n", "a &lt; b &amp;&amp; c", "<b>x</b>\n\ny", "", "&#65;&nbsp;b"]))
    return r.choice(["<!-- c -->", "<!-- <b> -->", "<!doctype html>", "<?pi x?>", "<![CDATA[x]]>", "</unk>", "</br>", "</>", "<", "< b", "<1>", "<b", "</p"])


def inlines(r, d):
    return "".join(ws(r) + inline(r, d) for _ in range(r.choice([0, 1, 1, 1, 2, 3])))


def listing(r, d):
    t = r.choice(["ul", "ol"])
    s = ""
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        s += ws(r)
        k = r.random()
        body = inlines(r, d - 1)
        if d > 0 and k < 0.4:
            body += ws(r) + listing(r, d - 1) + (inlines(r, 0) if r.random() < 0.2 else "")
        if k < 0.92:
            s += el(r, "li", body) if r.random() < 0.93 else "<li>" + body
        elif k < 0.95:
            s += "<li />"
        elif d > 0:
            s += listing(r, d - 1)
        else:
            s += body
    return "<%s%s>%s%s</%s>" % (t, attrs(r, t), s, ws(r), t)


def table(r, d):
    s = ""
    for i in range(r.choice([0, 1, 2, 2, 3])):
        cells = ""
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            t = "th" if (i == 0 and r.random() < 0.6) or r.random() < 0.1 else "td"
            body = inlines(r, d - 1)
            k = r.random()
            if d > 0 and k < 0.08:
                body += table(r, d - 1)
            elif d > 0 and k < 0.15:
                body += listing(r, d - 1)
            elif d > 0 and k < 0.25:
                body += el(r, "p", inlines(r, d - 1))
            cells += ws(r) + el(r, t, body)
        s += ws(r) + el(r, "tr", cells + ws(r))
    k = r.random()
    if k < 0.2:
        s = el(r, r.choice(["tbody", "thead", "tfoot"]), s)
    elif k < 0.25:
        s = el(r, "caption", text(r)) + s
    elif k < 0.3:
        s = text(r) + s
    return "<table%s>%s%s</table>" % (attrs(r, "table"), s, ws(r))


def block(r, d):
    k = r.random()
    if k < 0.3:
        t = r.choice(BLOCK)
        return el(r, t, blocks(r, d - 1) if d > 0 and t in ("div", "blockquote", "center") and r.random() < 0.4 else inlines(r, d))
    if k < 0.45:
        return inlines(r, d)
    if k < 0.62:
        return listing(r, d)
    if k < 0.78:
        return table(r, d)
    if k < 0.86:
        body = "\n".join(r.choice(["", " ", "x", "  a  b", "<b>y</b>", "&lt;q&gt; &amp;", "}}}", "\xe4 &auml;", "```"]) for _ in range(r.randint(0, 4)))
        return "\n<pre>%s\n%s\n</pre>%s\n" % (r.choice(["", " "]), body, r.choice(["", " "]))
    if k < 0.93:
        return r.choice(["<hr>", "<hr />", "<br>", "<br />", "\n"])
    t = r.choice(UNKNOWN)
    return el(r, t, blocks(r, d - 1) if d > 0 else text(r))


def blocks(r, d):
    return "".join(ws(r) + block(r, d) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))


PIECES = (["<%s>" % t for t in ["p", "b", "i", "ul", "ol", "li", "table", "tr", "td", "th", "a href='u'", "a", "h1", "h3", "pre", "code", "div", "span",
                                "unk", "unk a=\"b\" /", "br", "br /", "hr", "img src=x.png alt=t", "img", "tbody", "script", "textarea", "title", "tt",
                                "!-- c --", "li /", "p /", "b /", "table /", "tr /", "td /", "ul /", "a href=\"http://x.de\" /", "h2 /", "!-- x", "style", "plaintext",
                                "iframe", "xmp"]] +
          ["</%s>" % t for t in ["p", "b", "i", "ul", "ol", "li", "table", "tr", "td", "th", "a", "h1", "h3", "pre", "code", "div", "span", "unk",
                                 "br", "hr", "img", "tbody", "script", "textarea", "title", "tt"]] +
          ["a", "b c", " ", "\n", "<", ">", "&", '"', "&amp;", "&lt;", "&foo;", "&#65;", "<x", "</", "<!", "<!--", "-->", "--!>", "<?", "=", "'", "/", "&am", "&#x4",
           "<blockdata type=\"pre\" id=\"0\" />", "<inlinedata type=\"pre\" id=\"0\" />", "<a href=\"", "<a href='x\" y>", "<b =c d= e>", "<a b=/c/>", "<p/x y>",
           "\n<pre>\n", "\n</pre>\n", "<pre> \nx", "<![CDATA[", "]]>", "<!DOCTYPE", "<!x>", "<![x", "<1", "</1>", "</ p>", "< p>"])


def soup(r, n):
    return "".join(r.choice(PIECES) for _ in range(n))


def mutate(r, s):
    """damage a document: cut, drop or repeat a piece"""
    for _ in range(r.randint(1, 3)):
        if not s:
            break
        i = r.randrange(len(s))
        j = min(len(s), i + r.choice([1, 1, 2, 5, 10]))
        k = r.random()
        if k < 0.5:
            s = s[:i] + s[j:]
        elif k < 0.8:
            s = s[:i] + r.choice(PIECES) + s[i:]
        else:
            s = s[:i] + s[i:j] + s[i:]
    return s


def options(r):
    t = r.choice(["creole", "rest", "textile", "markdown"])
    return dict(target=t, strict=t == "creole" and r.random() < 0.4,
                policy=r.choice(["default", "default", "transparent", "escape", "html", "pre", "raise"]))


def document(r, depth=None):
    return blocks(r, depth if depth is not None else r.choice([0, 1, 1, 2, 2, 3]))


def random_docs(seed, count):
    r = random.Random(seed)
    for _ in range(count):
        k = r.random()
        if k < 0.6:
            s = document(r)
        elif k < 0.8:
            s = mutate(r, document(r))
        else:
            s = soup(r, r.choice([2, 3, 4, 6, 9, 14]))
        yield s, options(r)
