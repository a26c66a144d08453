"""Values close to others: what code confuses that compares too little or too much of them."""

ODDSPACE = ["\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\xa0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u3000",
            "\u200b", "\ufeff", "\xad"]


def near(r, s):
    """a value that differs little from the value"""
    k = r.randrange(9)
    i = r.randrange(len(s) + 1)
    x = r.choice(["x", "1", "a", "-", "_", "/", ".", ":", "=", "s", " ", "%"])
    return (s + x if k == 0 else x + s if k == 1 else s[:i] if k == 2 else s[i:] if k == 3 else s[:i] + x + s[i:] if k == 4 else
            s.upper() if k == 5 else s.capitalize() if k == 6 else s + s if k == 7 else s[:i] + s[i + 1:])


class Memory:
    """values of the document; kin() is one of them, a part of it, or one that contains it"""

    def __init__(self):
        self.seen = []

    def add(self, s):
        if s and len(s) < 60:
            self.seen = self.seen[-30:] + [s]
        return s

    def kin(self, r):
        if not self.seen:
            return "k"
        s = r.choice(self.seen)
        k = r.random()
        if k < 0.4:
            return s
        i = r.randrange(len(s))
        j = r.randrange(i, len(s)) + 1
        return s[i:j] if k < 0.7 else near(r, s)


def reference(r):
    """a numeric character reference with any number of digits"""
    top = r.choice([10, 100, 128, 256, 1000, 10000, 65536, 0x20000, 0x110000, 0x110000, 10 ** 7, 10 ** 10])
    n = r.randrange(top)
    pad = "0" * r.choice([0, 0, 0, 1, 2, 5, 9])
    form = r.choice(["%d", "%d", "%d", "x%x", "x%X", "X%x"])
    return "&#" + form[:-2] + pad + form[-2:] % n + r.choice([";"] * 8 + ["", " "])
