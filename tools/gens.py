"""Generators of problems (queries and word lists).  They decide nothing: what a query means is
decided by the specification, which parses the text itself."""
import bisect
import json
import os
import unicodedata

LET = "abcdefghijklmnopqrstuvwxyz"


# The order of word lists needs the characters of a word; this copy of the normalisation is only
# used to sort (the specification checks that its input is sorted).
def _table():
    import re
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "CharTable.tla")
    return [(int(m.group(1)), int(m.group(2)), [int(x) for x in m.group(3).split(",") if x.strip()])
            for m in re.finditer(r"<<(\d+), (\d+), <<([\d, ]*)>>>>", open(path).read())]


_T = None


def _codes(c):
    if 0xac00 <= c <= 0xd7a3:
        return [26, 26] if (c - 0xac00) % 28 == 0 else [26, 26, 26]
    k = bisect.bisect_right(_T, c, key=lambda r: r[0]) - 1
    return _T[k][2] if k >= 0 and c <= _T[k][1] else [26]


def chars(text):
    global _T
    if _T is None:
        _T = _table()
    out = []
    for ch in text:
        c = ord(ch)
        if c < 128:
            if ch.isalpha():
                out.append(ord(ch.lower()) - 97)
            elif ch in " _":
                out.append(27)
            else:
                out.append(26)
        else:
            out.extend(_codes(c))
    return out + [27]


def sort_words(ws):
    # text is compared by UTF-8 bytes, which is the order of code points
    return sorted(ws, key=lambda w: (w[1], chars(w[0]), w[0], w[2]))


# ------------------------------------------------------------------ expressions
class G:
    """Random expressions over an alphabet."""

    def __init__(self, rng, al="abc", ana=0.0, subs=True, expl=False, maxnum=3, enum=True):
        self.rng, self.al, self.ana, self.subs, self.expl, self.maxnum, self.enum = rng, al, ana, subs, expl, maxnum, enum
        self.parens = 0

    def cls(self):
        r, rng, al = self.rng.random(), self.rng, self.al
        if r < 0.6:
            return rng.choice(al)
        if r < 0.72:
            return "."
        if r < 0.82:
            return "[" + "".join(rng.sample(al, min(len(al), 2))) + "]"
        if r < 0.88:
            return "[^" + "".join(rng.sample(al, min(len(al), rng.randint(1, 2)))) + "]"
        if r < 0.94:
            a, b = sorted(rng.sample(al, 2)) if len(al) > 1 else (al, al)
            return "[%s-%s%s]" % (a, b, rng.choice(["", "", "z"]))
        if self.expl:
            return rng.choice(["_", "'", "[a_]", "['b]", "[.]", "[a.]"])
        return rng.choice(al)

    def anagram(self):
        rng = self.rng
        bank = "".join(rng.choice(self.al) for _ in range(rng.randint(1, 4)))
        return "<" + bank + rng.choice(["", "", "+", "-", "+%d" % rng.randint(0, 2), "-%d" % rng.randint(0, 2)]) + ">"

    def atom(self, d):
        rng = self.rng
        if self.ana and rng.random() < self.ana:
            return self.anagram()
        if d <= 0 or self.parens >= 3:
            return self.cls()
        r = rng.random()
        if r < 0.5:
            return self.cls()
        self.parens += 1
        try:
            if r < 0.72:
                return "(" + self.alts(d - 1) + ")"
            if r < 0.82:
                return "(" + self.seq(d - 1) + ")"
            if self.subs and r < 0.97:
                body = "".join(self.atom(d - 1) for _ in range(rng.randint(1, 4)))
                return "(" + body + rng.choice([":^", ":^", ":-", ":-", ":+"]) + ")"
            if self.enum and r > 0.985:
                return str(rng.randint(0, 4)) + " "
            return self.cls()
        finally:
            self.parens -= 1

    def item(self, d):
        rng = self.rng
        a = self.atom(d)
        if rng.random() < 0.35:
            lo = rng.choice([0, 0, 1, 1, 2, rng.randint(0, self.maxnum)])
            hi = lo + rng.randint(0, 2)
            return a + rng.choice(["?", "*", "+", "{%d}" % lo, "{%d,}" % lo, "{,%d}" % hi, "{%d,%d}" % (lo, hi)])
        return a

    def seq(self, d):
        return "".join(self.item(d) for _ in range(self.rng.randint(1, 3)))

    def alts(self, d):
        return "|".join(self.seq(d) for _ in range(self.rng.choice([1, 2, 2, 3])))

    def expr(self, d=2):
        s = self.alts(d) if self.rng.random() < 0.25 else "".join(self.item(d) for _ in range(self.rng.randint(1, 4)))
        if self.rng.random() < 0.1:
            # spaces between tokens mean nothing (but not inside <..>, nor next to a number)
            s = s.replace(")", " ) ").replace("|", " | ")
        if self.rng.random() < 0.1:
            s = s.upper()
        return s


def all_strings(al, n):
    out, last = [], [""]
    for _ in range(n):
        last = [x + c for x in last for c in al]
        out += last
    return out


def mutate(rng, w, al):
    w = list(w)
    for _ in range(rng.randint(1, 3)):
        op = rng.randint(0, 2)
        i = rng.randint(0, len(w))
        if op == 0:
            w.insert(i, rng.choice(al))
        elif op == 1 and w:
            del w[i % len(w)]
        elif w:
            w[i % len(w)] = rng.choice(al)
    return "".join(w)


def decorate(rng, w):
    """The same word in another spelling: capitals, punctuation, spaces, accents"""
    r = rng.random()
    if not w:
        return w
    i = rng.randint(0, len(w))
    if r < 0.3:
        return w[:i] + rng.choice(["'", "-", ".", "!"]) + w[i:]
    if r < 0.5:
        return w[:i] + rng.choice([" ", "_", " "]) + w[i:]
    if r < 0.75:
        return "".join(c.upper() if rng.random() < 0.5 else c for c in w)
    return w.replace("a", "á").replace("c", "ç").replace("e", "é") if rng.random() < 0.8 else w + "ß"


def make_words(rng, texts, tranches=(0,), dup=0.0):
    seen, out = set(), []
    for t in texts:
        r = rng.choice(tranches)
        w = (t, r, rng.choice([0, 100, 200, len(t) * 200]))
        if w in seen and rng.random() >= dup:
            continue
        seen.add(w)
        out.append([w[0], w[1], w[2]])
    return sort_words(out)


def split_prob(rng, text, k):
    cuts = sorted(rng.sample(range(1, len(text)), min(k - 1, len(text) - 1)))
    return [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]
