"""Seeded generators of creole documents."""
import random

INLINE = ["a", "b", "foo", "x y", " ", "  ", "\t", "**", "//", "##", "__", "^^", ",,", "--", "~~", "\\\\", "\\",
          "~", "~*", "~~", "~[[", "~{{{", "[[", "]]", "|", "{{", "}}", "{{{", "}}}", "<", ">", "&", '"', "'", "<b>",
          "&amp;", "http://x.org/a?b=1&c=2", "~http://e.org", "mailto://me", "wtf://a/b", "ftp://f", "[[a]]", "[[a|b]]",
          "[[http://x.de|**t** {{i.png}}]]", "[[ a b | c ]]", "{{i.png}}", "{{i.png|t}}", "{{a b.png|t|10x20}}",
          "{{i|<t>\"}}", "{{i||1x2}}", "[[x|{{i.png|q}}]]", "{{{pre <x> **y**}}}", "**bold**", "//it//",
          "**//bi//**", "^^s^^", ",,s,,", "--s--", "##m##", "__u__", "~~d~~", "\xe4", "\u20ac", "\U0001f600", "\xa0",
          "=", "==", "*", "#", "-", ":", "://", "$", "/", "%", "+", "(", ")", "\u4e2d", "\u3000", "\x0b", "\x1c", "\x85",
          "1", "_", "\x00", "\x7f"]
MACRO = ["<<html>>", "<</html>>", "<<echo>>", "<</echo>>", "<<echo a=1>>", "<<echo a=\"x y\" b='2'/>>", "<<boom>>",
         "<<boom />>", "<<num/>>", "<<nokw a=1>>", "<<nokw>>", "<</nokw>>", "<<unknown>>", "<<unknown x=1>>t<</unknown>>",
         "<<html>><b>q</b><</html>>", "<<echo a=\\\"1>>", "<<echo a>>", "<<echo 'a=1>>", "<<echo a=True b=None c=False/>>",
         "<<toc>>", "<<toc depth=2>>", "<<toc depth=x>>", "<<toc depth=1 />>", "<< echo >> t <</ echo >>", "<<echo a=1>>x<</echo>>",
         "<</toc>>", "<<", ">>", "<</", "/>>", "<<echo a=-5 b=+07 c=1_0 d=0x1 e= />>", "<<echo text=1/>>", "<<html />>",
         "<<echo1>>x<</echo>>", "<<echo a=\"b\\\"c\\\\d\" />>", "<<num>>x<</num>>", "<<boom>>x<</boom>>", "<<echo \xe4=\u20ac/>>",
         "<<html>><<toc>><</html>>", "<<echo a=1\n>>x\ny<</echo>>", "<<echo>>\n\nmulti\n\nline\n<</echo>>"]
LINE_START = ["", "", "", "= ", "== ", "=== ", "====== ", "======= ", "=", " =", "* ", "** ", "*** ", "# ", "## ", "#* ", "*# ", "*",
              " * ", "  ** ", "\t# ", "**", "-- ", "----", " ----", "-----", "---- ", "|", "|=", "| ", "|= ", " |", "{{{", "}}}", " }}}", "~}}}",
              "{{{ ", "> ", ": ", "; ", "> > "]
LINE_END = ["", "", "", "", " ", "=", " =", " ==", "\\", "\\\\", "|", " | ", "}}}", "{{{", "*", "  "]
NEWLINE = ["\n"] * 12 + ["\n\n"] * 5 + ["\n\n\n", "\r\n", "\r", "\n \n", "\n\t", " \n", "\r\n\r\n", "\n \n \n", ""]


def line(r, macros):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    pool = INLINE
    parts = []
    for _ in range(n):
        if macros and r.random() < 0.12:
            parts.append(r.choice(MACRO))
        else:
            parts.append(r.choice(pool))
    return r.choice(LINE_START) + "".join(parts) + r.choice(LINE_END)


def row(r, macros):
    s = ""
    for _ in range(r.randint(1, 5)):
        s += r.choice(["|", "|", "|=", "|= ", "| "]) + "".join(r.choice(INLINE) for _ in range(r.randint(0, 2)))
    return s + r.choice(["", "|", "|", " | "])


def listing(r, macros):
    out, level = [], 0
    for _ in range(r.randint(1, 7)):
        level = max(0, min(6, level + r.choice([-2, -1, 0, 0, 1, 1])))
        ch = r.choice("*#")
        bullet = "".join(r.choice("*#") for _ in range(level)) + ch
        out.append(r.choice(["", " ", "\t"]) + bullet + r.choice(["", " ", " "]) +
                   "".join(r.choice(INLINE) for _ in range(r.randint(0, 2))))
        if r.random() < 0.15:
            out.append(line(r, macros))
    return "\n".join(out)


def pre(r, macros):
    body = "\n".join(line(r, macros) for _ in range(r.randint(0, 4)))
    return "{{{" + r.choice(["", " ", "\n"]) + "\n" + body + "\n" + r.choice(["", " ", "~"]) + "}}}" + r.choice(["", "x", "\n}}}"])


def document(r, macros=True, size=None):
    n = size or r.choice([1, 1, 2, 2, 3, 4, 5, 8])
    s = r.choice(["", "", "", "\n", " "])
    for _ in range(n):
        k = r.random()
        if k < 0.62:
            s += line(r, macros)
        elif k < 0.74:
            s += row(r, macros)
        elif k < 0.86:
            s += listing(r, macros)
        elif k < 0.92:
            s += pre(r, macros)
        else:
            s += "".join(r.choice(INLINE + MACRO) for _ in range(r.randint(1, 8)))
        s += r.choice(NEWLINE)
    return s


def soup(r, n):
    alphabet = "ab *#/_=|[]{}<>~\\-,^:\n\n\"&'"
    return "".join(r.choice(alphabet) for _ in range(n))


def options(r):
    return dict(blog=r.random() < 0.5, macros=r.choice(["none", "std", "std", "std", "usertoc"]),
                as_object=r.random() < 0.3, verbose=r.choice([0, 1, 1, 1, 2, 3]), strict=r.random() < 0.3)


def random_docs(seed, count, big=0):
    r = random.Random(seed)
    for i in range(count):
        k = r.random()
        if k < 0.8:
            s = document(r)
        elif k < 0.95:
            s = soup(r, r.choice([3, 5, 8, 12, 20, 40]))
        else:
            s = document(r, size=r.choice([10, 15]))
        yield s, options(r)
