"""Seeded histories of calls of the command line tools and of the README functions."""
import datetime
import random
import re

import cgen
import hgen

TOOLS = ["creole2html", "html2creole", "html2rest", "html2textile"]
CODECS = ["", "", "", "utf-8", "UTF-8", "utf-8-sig", "latin-1", "iso-8859-1", "ascii", "utf-16-le", "klingon"]
NAMES = ["a.txt", "b.html", "c d.creole", "e-\u00e9.txt"]
ODD = ["b.html ", " a.txt", "A.TXT", "~", "~root", "$HOME", "a.txt.bak", ".txt", "a*", "[a].txt", "%20", "a.txt~", "con", "\u00a0", "e\u0301", "a\nb", "a.creole.html", "{src}"]
EXOTIC = ["", "\u00e4", "\u20ac", "\U0001f600", "\ufeff", "\u00a0", "\u2028", "\x85", "\r\n", "\r", "\n", "\t", "\x00", "\x7f", "\u0100"]
RAW = [b"", b"\xff", b"\xe4", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\xef\xbb\xbf", b"\xf5\x80\x80\x80", b"\x80", b"\x00", b"\xff\xfe", b"\xc3\xa4"]


def document(r, creole, html):
    k = r.random()
    s = next(creole)[0] if k < 0.45 else next(html)[0] if k < 0.9 else ""
    s = s[:r.choice([0, 3, 20, 80, 200, 400])]
    s = re.sub("toc(?!>>)", "tok", s)       # the text of python's exceptions isn't specified
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(EXOTIC) + s[i:]
    return s


def encoded(r, s, codec):
    try:
        data = s.encode(codec, "ignore")
    except LookupError:
        data = s.encode("utf-8", "ignore")
    if r.random() < 0.25:
        i = r.choice([0, len(data), len(data), r.randint(0, len(data))])
        data = data[:i] + r.choice(RAW) + data[i:]
    if r.random() < 0.1 and data:
        data = data[:-1]
    return list(data)


def cli(seed, count):
    r = random.Random("cli%d" % seed)
    creole = cgen.docs("all", seed, 10 ** 9)
    html = hgen.docs("all", seed, 10 ** 9)
    for _ in range(count):
        all_names = NAMES if r.random() < 0.7 else r.sample(ODD, 2) + NAMES[:2]
        names = r.sample(all_names, r.choice([1, 2, 2, 3]))
        real = r.choice([["utf-8"], ["utf-8"], ["utf-8"], ["latin-1"], ["utf-8-sig"], ["utf-16-le"], ["utf-8", "latin-1", "utf-8-sig", "utf-16-le"]])
        files = {n: encoded(r, document(r, creole, html), r.choice(real)) for n in names}
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            pool = all_names[:len(names) + 1] if r.random() < 0.3 else names
            src = r.choice(pool) if r.random() < 0.95 else "folder"
            dst = src if r.random() < 0.25 else r.choice(all_names) if r.random() < 0.93 else r.choice(["folder", "nowhere/file"])
            enc = r.choice(CODECS) if r.random() < 0.5 else r.choice(real)
            if enc == "utf-8" and r.random() < 0.6:
                enc = ""
            ops.append(dict(tool=r.choice(TOOLS), src=src, dst=dst, enc=enc))
        yield dict(files=files, ops=ops, optfirst=r.random() < 0.3)


def when(mtime):
    return datetime.datetime.utcfromtimestamp(int(mtime)).isoformat(sep=" ")


RULED = ["\n\n------------\n\nx", "\n", "\n\n\n\n", "\n\n------------\n\n``Note: old``", "\n\n------------\n\n", "x", "\n\n\n\n\n\n"]
ARGV = [[], ["check"], ["build"], ["install", "-v"], ["x", "sdist"], ["--long-description"], ["upload"], ["xcheck"], ["register"], ["bdist"], ["bdist_wheel"], ["--restructuredtext"], ["-check"]]
PLAINTEXT = ["= Title =\n\ntext", "text", "one\n\ntwo", "* a\n** b\n* c", "[[http://x.de|x]]", "= A\n\nB //c// **d**\n\n== E\n\nf", "{{{\ncode\n  x\n}}}", "|=a|=b|\n|1|2|",
             "text ##tt## and [[u|v]]", "\u00e4\u20ac \U0001f600", "a\n----\nb", "= x\n\n----\ny", "__u__", "^^s^^", "#  one\n# two", "<<toc>>\n= a\n== b", "a\\\\b", "{{i.png|t}}", "= a\n= b\n= a",
             "[[u|x]] [[v|x]]", "", " ", "a <b> & c", "## x ` y ##", "* \u00e9\n* ~http://x.de",
             "{{{\na\n  b\n\n  c\n}}}", "* a\n** b\n*** c\n** d", "a\\\\\nb", "##x  y##", "|a |b\n|= c|d", "# a\n## b\n* c"]


def nearly(r, s):
    """a small edit"""
    i = r.randint(0, len(s))
    k = r.random()
    if k < 0.2:
        return s[:i]
    if k < 0.35:
        return s[i:]
    if k < 0.5:
        return s[:i] + s[i + r.choice([1, 1, 2, 5]):]
    if k < 0.7:
        return s + r.choice(["\n\nmore", " more", "\n\n* a", ".", "\n", "\n\n----", "\n----\nx", "\n\n{{{\nx\n}}}"])
    white = [j for j, x in enumerate(s) if x in " \n\t\xa0"]
    if white and k < 0.9:
        i = r.choice(white)
    return s[:i] + r.choice([" ", " ", "  ", "\n", "\n\n", "\t", "*", "=", "\u2028", "x"]) + s[i:]


def last_kind(r, ops):
    kinds = [o["kind"] for o in ops if "kind" in o]
    return kinds[-1] if kinds else r.choice(["rst", "md"])


def readme(seed, count):
    r = random.Random("readme%d" % seed)
    creole = cgen.docs("all", seed + 1, 10 ** 9)

    def text():
        k = r.random()
        if k < 0.6:
            s = "\n\n".join(r.choice(PLAINTEXT) for _ in range(r.choice([1, 1, 2, 3])))
        else:
            s = next(creole)[0][:r.choice([20, 100, 300])]
        s = re.sub("toc(?!>>)", "tok", s)
        s = r.choice(["", "", "", "\n", "  ", "\ufeff"]) + s + r.choice(["", "", "\n", "\n\n", " "])
        if r.random() < 0.2:
            s = s.replace("\n", r.choice(["\r\n", "\r"]))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            i = r.randint(0, len(s))
            s = s[:i] + r.choice(EXOTIC) + s[i:]
        return s

    for _ in range(count):
        base = r.choice(["README", "README", "ABOUT", "READ.ME"])
        source = base + (".creole" if r.random() < 0.9 else ".txt")
        names = dict(creole=source, rst=base + ".rst", md=base + ".md", html=base + ".html")
        files = {source: encoded(r, text(), "utf-8") if r.random() < 0.3 else list(text().encode("utf-8"))}
        for k in ("rst", "md", "html"):
            if r.random() < 0.25:
                files[names[k]] = encoded(r, text() + r.choice(RULED), "utf-8")
        ops = []
        mtime = 1600000000.75
        last = bytes(files[source]).decode("utf-8", "ignore")
        way = r.choice([None, None, None, "rst", "md"])
        for turn in range(r.choice([1, 2, 3, 4, 5, 6, 8])):
            x = r.random()
            if way:     # update, edit, assert, update, assert, edit, ...
                x = {0: 0.5, 1: r.choice([0.1, 0.7]), 2: 0.7, 3: 0.5, 4: 0.7, 5: 0.1}[turn % 6]
            if x < 0.2:
                if r.random() < 0.3:
                    last = text()
                else:
                    last = r.choice(PLAINTEXT) if not last else nearly(r, last)
                ops.append(dict(op="edit", name=source, data=list(last.encode("utf-8"))))
                mtime += r.choice([0, 1, 100000, 0.1])
            elif x < 0.25:
                ops.append(dict(op="edit", name=r.choice([names["rst"], names["md"]]), data=encoded(r, text() + r.choice(RULED), "utf-8")))
            elif x < 0.28:
                ops.append(dict(op="remove", name=r.choice(list(names.values()))))
            elif x < 0.6:
                ops.append(dict(op="update", kind=way or last_kind(r, ops) if r.random() < 0.5 else r.choice(["rst", "md"])))
            elif x < 0.85:
                ops.append(dict(op="assert", kind=way or last_kind(r, ops) if r.random() < 0.8 else r.choice(["rst", "md"])))
            else:
                ops.append(dict(op="describe", mode=r.choice(["yes", "no", "auto", "auto"]), argv=r.choice(ARGV)))
            if r.random() < 0.15:
                mtime += r.choice([1, 86400])
            if ops[-1]["op"] not in ("edit", "remove"):
                ops[-1].update(mtime=mtime, when=[ord(x) for x in when(mtime)], source=[ord(x) for x in source], str=r.random() < 0.5)
        yield dict(names=names, files=files, ops=ops)
