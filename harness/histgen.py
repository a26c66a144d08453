"""Seeded histories of conversions."""
import random

import cgen
import hgen

# documents that leave something behind if a conversion keeps state
CREOLE = ["<<toc>>\n= a\n== b", "= a\n<<toc>>", "<<num/>>", "<<boom/>> x <<nope/>>", "* a\n** b", "|a|b|", "{{{\nx\n}}}", "**a", "<<toc depth=1>>\n= q\n== r", "= dup\n= dup",
          "[[u|v]] {{i|t}}", "{{{x}}} ~* a", "<<echo a=1 b='x'/>>", "<<html>><b><</html>>", "a\\\\b\n\nc", "# a\n# b\n", "<<toc", "<<nokw x=1>>"]
HTML = ["<pre>a\n\n&lt;b</pre>", "<p>a", "<ul><li>a<ul><li>b", "<table><tr><td>a", "<a href='u'>x</a> <a href='v'>y</a>", "<a href='u'>x</a>", "<img src='i.png' alt='t'>", "<img src='j.png' alt='t'>",
        "<x>y</x>", "<x><z>", "&auml;&nbsp;&foo;", "<pre>x</pre><pre>y</pre>", "<code>a</code>", "<p>a</p><hr><p>b</p>", "<ol><li>1</li></ol>", "<!-- c -->a", "<li>a", "</ul>b", "<td>a</td>", "<h2>a</h2>",
        "<p><a href='w'>x</a></p><p><img src='k.png'/></p>", "<em>a</em>"]


def calls(seed):
    r = random.Random("calls%d" % seed)
    creole = [cgen.docs(f, seed, 10 ** 9) for f in ("all", "toc", "macros", "lists")]
    html = [hgen.docs(f, seed, 10 ** 9) for f in ("all", "lists", "tables", "pre", "links", "unknown")]
    while True:
        if r.random() < 0.5:
            s, o = next(r.choice(creole))
            if r.random() < 0.4:
                s = r.choice(CREOLE)
            j = dict(o, src=s[:r.choice([40, 150, 400])], fn="creole")
            j["rules"] = r.random() < 0.5
            if r.random() < 0.7:
                j["macros"] = r.choice(["std", "std", "usertoc"])
        else:
            s, o = next(r.choice(html))
            if r.random() < 0.4:
                s = r.choice(HTML)
            j = dict(o, src=s[:r.choice([40, 150, 400])], fn="html")
            if r.random() < 0.5:
                j["policy"] = r.choice(["transparent", "escape", "html", "pre", "raise"])
        yield j


def histories(seed, count, kind):
    """kind: "line" (one after the other), "nested", "threads" """
    r = random.Random("%s%d" % (kind, seed))
    more = calls(seed)
    for _ in range(count):
        if kind == "line":
            some = [next(more) for _ in range(r.choice([1, 2, 3, 4]))]
            job = dict(calls=[dict(r.choice(some)) for _ in range(r.choice([2, 3, 4, 6]))])
        elif kind == "nested":
            n = r.choice([2, 2, 3, 4])
            some = [dict(next(more)) for _ in range(n)]
            for i in range(n - 1):
                j = some[i]
                if j["fn"] == "creole":
                    j["macros"] = "std"
                    k = r.randint(0, len(j["src"]))
                    j["src"] = j["src"][:k] + r.choice(["<<num/>>", "\n\n<<num>>x<</num>>\n\n", "<<num/>>", "\n* <<num/>> b\n", "\n|<<num/>>|b|\n", "\n= <<num/>> =\n", " **a <<num/>> b** "]) + j["src"][k:]
                else:
                    j["policy"] = r.choice(["transparent", "escape", "html", "pre"])
                    k = r.randint(0, len(j["src"]))
                    j["src"] = j["src"][:k] + r.choice(["<zz>q</zz>", "<zz/>", "<ul><li>a <zz>b</zz> c</li></ul>", "<table><tr><td><zz>a</zz></td><td>b</td></tr></table>",
                                                        "<a href='u'><zz>a</zz></a>", "<pre><zz>a</zz></pre>", "<p>a <zz>b</zz> c</p>"]) + j["src"][k:]
                j["nested"] = [i + 1]
            order = [0] if r.random() < 0.6 else [0, r.randrange(n)]
            job = dict(calls=some + [{k: v for k, v in some[i].items() if k != "nested"} for i in order[1:]], threads=[[0] + ([n] if order[1:] else [])])
        else:
            n = r.choice([2, 2, 2, 3])
            some = [dict(next(more)) for _ in range(n)]
            if r.random() < 0.4:
                some[1] = dict(some[0])
            extra = [dict(r.choice(some)) for _ in range(r.choice([0, 0, 1, 2]))]
            lists = [[i] for i in range(n)]
            for i in range(len(extra)):
                lists[r.randrange(n)].append(n + i)
            cuts = sorted(round(r.random(), 4) for _ in range(r.choice([1, 2, 3, 5, 8])))
            job = dict(calls=some + extra, threads=lists)
            if r.random() < 0.5:
                job["schedule"] = [[r.randrange(n), c] for c in cuts]
            else:
                job["every"] = r.choice([1, 1, 2, 3, 5, 7, 13, 40])
        yield job
